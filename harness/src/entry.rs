/// `entries! { name => function, .. }`: the points where the executor and the replayer start.
macro_rules! entries {
    ($($n:ident),* $(,)?) => {
        pub const TABLE: &[(&'static str, fn())] = &[$((stringify!($n), $n::body as fn())),*];
        $(mod $n { pub fn body() { super::super::sym::begin(); super::$n(); super::super::sym::done() }
            #[cfg(symx)] #[no_mangle] pub extern "C" fn $n() { body() } })*
    };
}
