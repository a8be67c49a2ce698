//! One derive site per shape of each validator.
#![allow(dead_code)]
use crate::ops::*;
use std::collections::{BTreeMap, HashMap};
use validators::errors::*;
use validators::phonenumber::{country::Id, PhoneNumber};
use validators::prelude::*;
use validators::models::*;

macro_rules! types {
    ($( $id:ident [$($k:ident)*] $err:ty, $fam:ident, $attr:tt $body:tt )*) => {
        $( types!(@def $id $attr $body); )*
        pub fn all() -> Vec<V> {
            vec![$({
                #[allow(unused_mut)]
                let mut v = V::new(concat!(stringify!($id), " ", stringify!($attr)), Fam::$fam);
                $( types!(@$k v $id $err); )*
                types!(@serde v $id $err);
                v
            }),*]
        }
    };
    (@def $id:ident ($($a:tt)*) ($($b:tt)*)) => {
        #[derive(Debug, Validator)]
        #[validator($($a)*)]
        pub struct $id($($b)*);
    };
    (@def $id:ident ($($a:tt)*) {$($b:tt)*}) => {
        #[derive(Debug, Validator)]
        #[validator($($a)*)]
        pub struct $id {$($b)*}
    };
    (@def $id:ident ($($a:tt)*) !) => {};
    (@S $v:ident $id:ident $e:ty) => {
        $v.s = Some(sops::<$id, $e>());
        #[cfg(feature = "rocket")]
        { $v.rocket = Some(crate::web::rocket::<$id, $e>()); }
    };
    (@B $v:ident $id:ident $e:ty) => { $v.b = Some(bops::<$id, $e>()); };
    (@C $v:ident $id:ident $e:ty) => {
        $v.c = Some(cops::<$id, $e>());
        #[cfg(feature = "wrap")]
        { $v.w.c = Some(crate::wrap::cw::<$id, $e>()); }
    };
    (@I $v:ident $id:ident $e:ty) => {
        $v.i = Some(iops::<$id, $e>());
        #[cfg(feature = "wrap")]
        { $v.w.i = Some(crate::wrap::iw::<$id, $e>()); }
    };
    (@U $v:ident $id:ident $e:ty) => {
        $v.u = Some(uops::<$id, $e>());
        #[cfg(feature = "wrap")]
        { $v.w.u = Some(crate::wrap::uw::<$id, $e>()); }
    };
    (@N $v:ident $id:ident $e:ty) => {
        $v.n = Some(nops::<$id, $e>());
        #[cfg(feature = "wrap")]
        { $v.w.n = Some(crate::wrap::nw::<$id, $e>()); }
    };
    (@O $v:ident $id:ident $e:ty) => {
        $v.o = Some(oops::<$id, $e>());
        #[cfg(feature = "wrap")]
        { $v.w.o = Some(crate::wrap::ow::<$id, $e>()); }
    };
    (@J $v:ident $id:ident $e:ty) => {
        $v.j = Some(jops::<$id, $e>());
        #[cfg(feature = "wrap")]
        { $v.w.j = Some(crate::wrap::jw::<$id, $e>()); }
    };
    (@noround $v:ident $id:ident $e:ty) => { $v.round = false; };
    (@size $v:ident $id:ident $e:ty) => { $v.size = true; };
    (@serde $v:ident $id:ident $e:ty) => {
        #[cfg(feature = "serde")]
        { $v.serde = Some(crate::ser::sops::<$id, $e>()); }
        #[cfg(feature = "wrap")]
        { $v.w.de = Some(crate::wrap::dw::<$id, $e>()); }
    };
}

types! {
    Base32A [S B] Base32Error, B32, (base32)(String)
    Base32M [S B] Base32Error, B32, (base32(padding(Must)))(String)
    Base32D [S B] Base32Error, B32, (base32(padding(Disallow)))(String)
    Base32DecA [S B noround] Base32DecodedError, B32, (base32_decoded)(Vec<u8>)
    Base32DecM [S B noround] Base32DecodedError, B32, (base32_decoded(padding(Must)))(Vec<u8>)
    Base32DecD [S B noround] Base32DecodedError, B32, (base32_decoded(padding(Disallow)))(Vec<u8>)
    Base64A [S B] Base64Error, B64, (base64)(String)
    Base64M [S B] Base64Error, B64, (base64(padding(Must)))(String)
    Base64D [S B] Base64Error, B64, (base64(padding(Disallow)))(String)
    Base64DecA [S B noround] Base64DecodedError, B64, (base64_decoded)(Vec<u8>)
    Base64DecM [S B noround] Base64DecodedError, B64, (base64_decoded(padding(Must)))(Vec<u8>)
    Base64DecD [S B noround] Base64DecodedError, B64, (base64_decoded(padding(Disallow)))(Vec<u8>)
    Base64UrlA [S B] Base64UrlError, B64U, (base64_url)(String)
    Base64UrlM [S B] Base64UrlError, B64U, (base64_url(padding(Must)))(String)
    Base64UrlD [S B] Base64UrlError, B64U, (base64_url(padding(Disallow)))(String)
    Base64UrlDecA [S B noround] Base64UrlDecodedError, B64U, (base64_url_decoded)(Vec<u8>)
    Base64UrlDecM [S B noround] Base64UrlDecodedError, B64U, (base64_url_decoded(padding(Must)))(Vec<u8>)
    Base64UrlDecD [S B noround] Base64UrlDecodedError, B64U, (base64_url_decoded(padding(Disallow)))(Vec<u8>)
    BitA [S U size] BitError, Size, (bit)(validators::byte_unit::Bit)
    BitR [S U size] BitError, Size, (bit(range(min = 8, max = 1_000_000)))(validators::byte_unit::Bit)
    ByteA [S U size] ByteError, Size, (byte)(validators::byte_unit::Byte)
    ByteC [S U size] ByteError, Size, (byte(ignore_case = false, range(min = 8, max = 1_000_000)))(validators::byte_unit::Byte)
    BoolA [S C I U O] BooleanError, Bool, (boolean)(bool)
    DomainA [S] DomainError, Net, (domain){ domain: String, port: Option<u16> }
    DomainP [S] DomainError, Net, (domain(ipv4(Allow), local(Allow), port(Allow), at_least_two_labels(Must))){ pub domain: String, pub is_ipv4: bool, pub is_local: bool, pub port: Option<u16> }
    DomainM [S] DomainError, Net, (domain(ipv4(Disallow), local(Allow), port(Must), at_least_two_labels(Allow))){ pub domain: String, port: u16 }
    DomainL [S] DomainError, Net, (domain(ipv4(Disallow), local(Must), port(Disallow), at_least_two_labels(Disallow)))(pub String)
    HostA [S] HostError, Net, (host){ pub host: Host, pub port: Option<u16> }
    HostP [S] HostError, Net, (host(local(Allow), port(Allow), at_least_two_labels(Must))){ pub host: Host, pub is_local: bool, pub port: Option<u16> }
    HostM [S] HostError, Net, (host(local(Disallow), port(Must), at_least_two_labels(Allow))){ pub host: Host, pub port: u16 }
    IpA [S] IpError, Net, (ip){ pub ip: std::net::IpAddr, pub port: Option<u16> }
    IpP [S] IpError, Net, (ip(local(Allow), port(Allow))){ pub ip: std::net::IpAddr, pub port: Option<u16> }
    IpM [S] IpError, Net, (ip(local(Disallow), port(Must))){ pub ip: std::net::IpAddr, pub port: u16 }
    Ipv4A [S] Ipv4Error, Net, (ipv4){ pub ipv4: std::net::Ipv4Addr, pub port: Option<u16> }
    Ipv4P [S] Ipv4Error, Net, (ipv4(local(Allow), port(Allow))){ pub ipv4: std::net::Ipv4Addr, pub port: Option<u16> }
    Ipv4M [S] Ipv4Error, Net, (ipv4(local(Must), port(Must))){ pub ipv4: std::net::Ipv4Addr, pub port: u16 }
    Ipv6A [S] Ipv6Error, Net, (ipv6){ pub ipv6: std::net::Ipv6Addr, pub port: Option<u16> }
    Ipv6P [S] Ipv6Error, Net, (ipv6(local(Allow), port(Allow))){ pub ipv6: std::net::Ipv6Addr, pub port: Option<u16> }
    Ipv6M [S] Ipv6Error, Net, (ipv6(local(Disallow), port(Must))){ pub ipv6: std::net::Ipv6Addr, pub port: u16 }
    EmailA [S] EmailError, Mail, (email){ pub local_part: String, pub need_quoted: bool, pub domain_part: Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
    EmailI [S] EmailError, Mail, (email(comment(Disallow), ip(Allow), local(Allow), at_least_two_labels(Must), non_ascii(Allow))){ pub local_part: String, pub need_quoted: bool, pub domain_part: Host, pub is_local: bool }
    EmailM [S] EmailError, Mail, (email(comment(Disallow), ip(Must), local(Disallow), non_ascii(Disallow))){ pub local_part: String, pub need_quoted: bool, pub domain_part: std::net::IpAddr }
    HttpA [S] HttpURLError, Url, (http_url){ pub url: validators::url::Url, pub is_https: bool }
    HttpL [S] HttpURLError, Url, (http_url(local(Disallow))){ pub url: validators::url::Url, pub is_https: bool }
    HttpFtpA [S] HttpFtpURLError, Url, (http_ftp_url){ pub url: validators::url::Url, pub protocol: Protocol }
    HttpFtpL [S] HttpFtpURLError, Url, (http_ftp_url(local(Must))){ pub url: validators::url::Url, pub protocol: Protocol }
    UrlA [S] UrlError, Url, (url)(pub validators::url::Url)
    JsonValue [S I U N O J noround] JsonError, Json, (json)(pub serde_json::Value)
    JsonI32 [S I U N O J noround] JsonError, Json, (json)(pub i32)
    JsonStr [S I U N O J noround] JsonError, Json, (json)(pub String)
    JsonMap [S I U N O J noround] JsonError, Json, (json)(pub BTreeMap<String, u8>)
    JsonBool [S I U N O J noround] JsonError, Json, (json)(pub Option<bool>)
    JsonF64 [S I U N O J noround] JsonError, Json, (json)(pub f64)
    LineA [S] LineError, Text, (line)(pub String)
    LineC [S] LineError, Text, (line(char_length(min = 1, max = 3)))(pub String)
    LineB [S] LineError, Text, (line(byte_length(min = 2, trimmed_min = 1, max = 6)))(pub String)
    TextA [S] TextError, Text, (text)(pub String)
    TextC [S] TextError, Text, (text(char_length(min = 2, trimmed_min = 1, max = 4)))(pub String)
    TextB [S] TextError, Text, (text(byte_length(min = 1, max = 5)))(pub String)
    MacA [S] MacAddressError, Mac, (mac_address)(pub u64)
    MacD [S] MacAddressError, Mac, (mac_address(case(Lower), separator(Disallow)))(pub u64)
    MacW [S] MacAddressError, Mac, (mac_address(case(Any), separator(Allow(b'-'))))(pub u64)
    MacU [S] MacAddressError, Mac, (mac_address(case(Upper), separator(Must(b':'))))(pub u64)
    NumA [S N] NumberError, Num, (number)(pub f64)
    NumS [S N] NumberError, Num, (number(nan(Allow), range(Inside(min = -1.5, max = 100.25))))(pub f32)
    NumO [S N] NumberError, Num, (number(nan(Disallow), range(Outside(min = 0.0, max = 2.5, inclusive = false))))(pub f64)
    PhoneA [S noround] PhoneError, Phone, (phone)(pub PhoneNumber)
    PhoneT [S noround] PhoneError, Phone, (phone(countries(TW)))(pub PhoneNumber)
    PhoneU [S noround] PhoneError, Phone, (phone(countries(US, TW)))!
    RegexA [S] RegexError, Text, (regex(regex("^[a\\s]{1,3}$")))(pub String)
    RegexS [S] RegexError, Text, (regex(regex = RE))(pub String)
    SemverA [S] SemverError, Semver, (semver)(pub validators::semver::Version)
    SemverReqA [S] SemverError, Semver, (semver_req)(pub validators::semver::VersionReq)
    Int8 [S I] SignedIntegerError, Int, (signed_integer)(pub i8)
    Int16 [S I] SignedIntegerError, Int, (signed_integer(range(Inside(min = -300, max = 300))))(pub i16)
    Int32 [S I] SignedIntegerError, Int, (signed_integer(range(Outside(min = -10, max = 10))))(pub i32)
    Int64 [S I] SignedIntegerError, Int, (signed_integer(range(Inside(min = 0))))(pub i64)
    Int128 [S I] SignedIntegerError, Int, (signed_integer)(pub i128)
    IntSize [S I] SignedIntegerError, Int, (signed_integer)(pub isize)
    Uint8 [S U] UnsignedIntegerError, Int, (unsigned_integer)(pub u8)
    Uint16 [S U] UnsignedIntegerError, Int, (unsigned_integer(range(Inside(min = 5, max = 300))))(pub u16)
    Uint32 [S U] UnsignedIntegerError, Int, (unsigned_integer(range(Outside(min = 3, max = 10))))(pub u32)
    Uint64 [S U] UnsignedIntegerError, Int, (unsigned_integer(range(Inside(max = 1000))))(pub u64)
    Uint128 [S U] UnsignedIntegerError, Int, (unsigned_integer)(pub u128)
    UintSize [S U] UnsignedIntegerError, Int, (unsigned_integer)(pub usize)
    UuidA [S] UuidError, Uuid, (uuid)(pub u128)
    UuidD [S] UuidError, Uuid, (uuid(case(Lower), separator(Disallow)))(pub u128)
    UuidW [S] UuidError, Uuid, (uuid(case(Any), separator(Allow(b'-'))))(pub u128)
    UuidU [S] UuidError, Uuid, (uuid(case(Upper), separator(Must(b':'))))(pub u128)
}

#[derive(Validator)]
#[validator(phone(countries(US, TW)))]
pub struct PhoneU(pub HashMap<Id, PhoneNumber>);
/// Shown in a reproducible order.
impl std::fmt::Debug for PhoneU {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        let m: BTreeMap<String, &PhoneNumber> = self.0.iter().map(|(k, v)| (format!("{k:?}"), v)).collect();
        write!(f, "PhoneU({m:?})")
    }
}
static RE: std::sync::LazyLock<validators::regex::Regex> = std::sync::LazyLock::new(|| validators::regex::Regex::new("^(a|é)*\\n?$").unwrap());
