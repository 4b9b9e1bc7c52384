#![allow(clippy::all)]
#[macro_use]
pub mod nd;
pub mod streams;
pub mod probe;
pub mod prog;
pub mod split;
pub mod script;
pub mod inner;
pub mod items;
macro_rules! mods {
    ($($f:literal $m:ident),* $(,)?) => {
        $( #[cfg(feature = $f)] pub mod $m; )*
        #[cfg(not(feature = "sym"))]
        pub fn table() -> Vec<&'static nd::H> {
            #[allow(unused_mut)]
            let mut v: Vec<&'static nd::H> = vec![];
            $( #[cfg(feature = $f)] v.extend($m::TABLE.iter()); )*
            v
        }
    };
}
mods! {
    "c01" c01,
    "c02" c02,
    "c03" c03,
    "c04" c04,
    "c05" c05,
    "c06" c06,
    "c07" c07,
    "c08" c08,
    "c09" c09,
    "c10" c10,
    "c11" c11,
    "c12" c12,
    "c13" c13,
    "c14" c14,
    "c15" c15,
    "c16" c16,
    "c17" c17,
    "c18" c18,
    "c19" c19,
    "c27" c27,
    "c28" c28,
    "c20" c20,
    "c23" c23,
    "c25" c25,
    "c21" c21,
    "c22" c22,
    "c24" c24,
    "c26" c26,
}
