ID='B02'; PROP='P02'
EDITS=[('core/src/bytecode.rs','''        let size: u32 = self.0.iter().map(|i| u32::from(i.size())).sum();''','''        let size = u32::from(self.0.iter().fold(0u16, |acc, i| acc.wrapping_add(i.size())));''')]
NEEDS='a function body of 64 KiB or more of virtual size'
BREAKS='the length prefix of a large body is truncated to 16 bits, so the body is cut when read back'
DEMO='''
use redscript::bytecode::{Code, Instr, Offset};
use redscript::decode::DecodeExt;
use redscript::encode::EncodeExt;
fn main() {
    for n in [10usize, 70000] {
        let code = Code::<Offset>::new((0..n).map(|_| Instr::Nop).collect());
        let mut out = vec![];
        out.encode(&code).unwrap();
        let back: Code<Offset> = std::io::Cursor::new(&out[..]).decode().unwrap();
        assert_eq!(back.len(), n);
    }
}
'''
