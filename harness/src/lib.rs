#![allow(dead_code, unused, non_snake_case)]
#[cfg(not(feature = "mac"))]
pub mod dec;
pub mod rt;
#[cfg(not(feature = "mac"))]
pub mod util;
pub mod gen {
    include!(concat!(env!("SYMX_GEN"), "/gen.rs"));
}
