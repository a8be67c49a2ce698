//! Derive sites of every validator, each compiled only with the feature of its validator.
#![no_std]
#![allow(dead_code, unused_macros, unused_imports)]
extern crate alloc;
#[cfg(any(feature = "v_domain", feature = "v_email", feature = "v_host", feature = "v_http_url", feature = "v_http_ftp_url", feature = "v_ip", feature = "v_ipv4", feature = "v_ipv6", feature = "v_phone", feature = "v_regex", feature = "v_url", feature = "x_rocket", feature = "x_axum"))]
extern crate std;
pub mod ops {
    #[derive(Clone, Copy, PartialEq, Debug)]
    pub enum Fam { B32, B64, B64U, Size, Bool, Net, Mail, Url, Json, Text, Mac, Num, Phone, Semver, Int, Uuid }
}
pub struct Site {
    pub name: &'static str,
    pub fam: ops::Fam,
    /// ways to give it a word, and what comes of it
    pub ways: alloc::vec::Vec<(&'static str, fn(&str) -> alloc::string::String)>,
}
#[cfg(feature = "x_derive")]
mod derived;
#[cfg(feature = "x_derive")]
pub use derived::sites;
#[cfg(not(feature = "x_derive"))]
pub fn sites() -> alloc::vec::Vec<Site> {
    alloc::vec::Vec::new()
}
