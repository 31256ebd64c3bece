use crate::runner::Property;
macro_rules! props {
    ($($(#[$a:meta])? $m:ident),*) => {
        $($(#[$a])? pub mod $m;)*
        pub fn registry() -> Vec<Property> {
            let mut v = vec![];
            $($(#[$a])? { v.push($m::property()); })*
            v
        }
    };
}
props!(
    c01, c02, c03, c04, c05, c06, c07, c08, c09, c10, c11, c12, c13, c14, c15, c16, c17, c18, c19, c20, c21,
    #[cfg(feature = "plot")] c22,
    #[cfg(feature = "plot")] c23,
    c24, c25, c26, c27, c28
);
