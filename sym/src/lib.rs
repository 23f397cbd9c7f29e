pub use rsharness::*;
