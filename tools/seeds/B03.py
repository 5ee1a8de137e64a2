ID='B03'; PROP='P03'
EDITS=[('core/src/bytecode.rs','''        Location::new((i32::from(position.value) + i32::from(self.value)) as u16)''','''        Location::new((i32::from(position.value) + i32::from(self.value)).clamp(0, i32::from(u16::MAX)) as u16)''')]
NEEDS='two locations more than 32 KiB apart, so that the 16-bit offset between them wraps'
BREAKS='applying a relative offset saturates instead of wrapping, so it no longer gives back the original location'
DEMO='''
use redscript::bytecode::Location;
fn main() {
    for (a, b) in [(10u16, 20u16), (20, 10), (5, 60000), (60000, 5)] {
        let (a, b) = (Location::new(a), Location::new(b));
        assert_eq!(a.relative(b).absolute(b), a);
    }
}
'''
