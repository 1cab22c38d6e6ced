//! plotline as the interval plugin expects it: with `property::Extractor`, which the library does
//! not have (yet). Only used to compile the plugin's crate as it is.
pub use real::*;

pub mod property {
    pub use real::property::*;

    pub trait Extractor<Src> {
        type Target;
        fn all(&self, source: &Src) -> Vec<Self::Target>;
    }
}
