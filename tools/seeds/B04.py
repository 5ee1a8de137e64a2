ID='B04'; PROP='P04'
EDITS=[('core/src/bytecode.rs','''                .binary_search_by(|i| i.cmp(&position.value))
                .map_err(|_| CursorError::InvalidInstructionOffset(position))?;''','''                .binary_search_by(|i| i.cmp(&position.value))
                .or_else(|idx| if idx == self.offsets.len() { idx.checked_sub(1).ok_or(idx) } else { Err(idx) })
                .map_err(|_| CursorError::InvalidInstructionOffset(position))?;''')]
NEEDS='seeking to a location past the end of the body'
BREAKS='a seek beyond the end of the body silently lands on the end instead of failing'
DEMO='''
use redscript::bytecode::{CodeCursor, Instr, Location, Offset};
fn main() {
    let code: Vec<Instr<Offset>> = vec![Instr::I32Const(1), Instr::Return];
    let mut c = CodeCursor::new(&code);
    assert!(c.seek_abs(Location::new(6)).is_ok());
    assert!(c.seek_abs(Location::new(5)).is_ok());
    assert!(c.seek_abs(Location::new(4)).is_err());
    assert!(c.seek_abs(Location::new(7)).is_err());
    assert!(c.seek_abs(Location::new(700)).is_err());
}
'''
