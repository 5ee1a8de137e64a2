/// Declares harness entry points: exported with C linkage for the engine and listed for the replay binary.
#[macro_export]
macro_rules! harnesses {
    ($($name:ident),* $(,)?) => {
        #[cfg(not(feature = "native"))]
        mod exports {
            $(#[no_mangle] pub extern "C" fn $name() { super::$name() })*
        }
        pub const LIST: &[(&str, fn())] = &[$((stringify!($name), $name as fn())),*];
    };
}
