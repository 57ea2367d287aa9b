use crate::fw::Check;
macro_rules! checks {
    ($($m:ident)*) => {
        $(pub mod $m;)*
        pub fn all() -> Vec<Check> {
            vec![$($m::check(),)* c06::check7(), c06::check8(), c13::check15(), c13::check16(), c19::check31(), c22::check21(), c32::check20()]
        }
    };
}
checks! { c01 c02 c03 c04 c05 c06 c09 c10 c11 c12 c13 c14 c17 c18 c19 c22 c23 c24 c25 c26 c27 c28 c29 c30 c32 c33 c34 c35 c36 c37 c38 c39 }
