ID='B01'; PROP='P01'
EDITS=[('core/src/bytecode.rs','''            89 => Ok(Instr::I32ToEnum(input.decode()?, input.decode()?)),''','''            89 => {
                let idx = input.decode()?;
                let size: u8 = input.decode()?;
                Ok(Instr::I32ToEnum(idx, size.clamp(1, 8)))
            }''')]
NEEDS='an int-to-enum conversion whose size operand is 0 or larger than 8'
BREAKS='decoding no longer reproduces the encoded instruction: the enum size operand is clamped'
DEMO='''
use redscript::bytecode::{Instr, Offset};
use redscript::decode::DecodeExt;
use redscript::encode::EncodeExt;
fn main() {
    for n in 0u8..=255 {
        let src = [89u8, 7, 0, 0, 0, n];
        let i: Instr<Offset> = std::io::Cursor::new(&src[..]).decode().unwrap();
        let mut out = vec![];
        out.encode(&i).unwrap();
        assert_eq!(out, src);
    }
}
'''
