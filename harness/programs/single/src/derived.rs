use crate::{Site, ops::Fam};
use alloc::{format, string::{String, ToString}, vec, vec::Vec};
use core::fmt::{self, Debug, Display};
use validators::prelude::validators_prelude::*;
use validators::prelude::*;

#[cfg(not(feature = "x_axum"))]
trait Fails: Debug + Display {}
#[cfg(not(feature = "x_axum"))]
impl<E: Debug + Display> Fails for E {}
#[cfg(feature = "x_axum")]
trait Fails: Debug + Display + validators::axum::response::IntoResponse {}
#[cfg(feature = "x_axum")]
impl<E: Debug + Display + validators::axum::response::IntoResponse> Fails for E {}

fn out<T: Debug, E: Fails>(r: Result<T, E>) -> String {
    match r {
        Ok(v) => format!("Ok {v:?}"),
        Err(e) => {
            let s = format!("Err {e:?}: {e}");
            #[cfg(feature = "x_axum")]
            {
                let r = e.into_response();
                assert_eq!(r.status().as_u16(), 400);
            }
            s
        }
    }
}
#[cfg(feature = "x_serde")]
mod ser {
    use super::*;
    use serde::{de::{value::{Error, StrDeserializer, U64Deserializer}, IntoDeserializer}, Deserialize, Serialize};
    pub struct Shown<'a, T: ?Sized>(pub &'a T);
    impl<T: Serialize> Display for Shown<'_, T> {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            self.0.serialize(f)
        }
    }
    pub fn de<T: for<'a> Deserialize<'a> + Debug>(w: &str) -> String {
        let d: StrDeserializer<Error> = w.into_deserializer();
        match T::deserialize(d) {
            Ok(v) => format!("Ok {v:?}"),
            Err(e) => format!("Err {e}"),
        }
    }
    /// written to a text when it can be
    pub fn through<T: for<'a> Deserialize<'a> + Serialize>(w: &str) -> String {
        let d: StrDeserializer<Error> = w.into_deserializer();
        let Ok(v) = T::deserialize(d) else { return "-".to_string() };
        let mut s = String::new();
        match fmt::write(&mut s, format_args!("{}", Shown(&v))) {
            Ok(()) => format!("= {s}"),
            Err(_) => "no text".to_string(),
        }
    }
    pub fn wrapped<T, E>(w: &str) -> String
    where
        T: Debug,
        E: Fails,
        validators::Result<T, E>: for<'a> Deserialize<'a>,
    {
        let d: StrDeserializer<Error> = w.into_deserializer();
        match validators::Result::<T, E>::deserialize(d) {
            Ok(v) => out(v.into_std_result()),
            Err(e) => format!("refused {e}"),
        }
    }
    pub fn number<T: for<'a> Deserialize<'a> + Debug>(w: &str) -> String {
        let d: U64Deserializer<Error> = (w.len() as u64).into_deserializer();
        match T::deserialize(d) {
            Ok(v) => format!("Ok {v:?}"),
            Err(e) => format!("Err {e}"),
        }
    }
}
#[cfg(feature = "x_rocket")]
mod web {
    use super::*;
    use rocket::form::FromFormField;
    use rocket::request::FromParam;
    use rocket::form::{name::NameView, Options, ValueField};
    pub fn field<T: for<'a> FromFormField<'a> + Debug>(w: &str) -> String {
        match T::from_value(ValueField { name: NameView::new("a"), value: w }) {
            Ok(v) => format!("Ok {v:?}"),
            Err(_) => "Err".to_string(),
        }
    }
    pub fn param<'a, T: FromParam<'a> + Debug + 'a>(w: &'a str) -> String {
        match T::from_param(w) {
            Ok(v) => format!("Ok {v:?}"),
            Err(_) => "Err".to_string(),
        }
    }
}
macro_rules! sites {
    ($( $f:literal $m:ident $fam:ident $err:ident: $( $id:ident [$($k:ident)*] $attr:tt $body:tt )* ;)*) => {
        $( #[cfg(feature = $f)] mod $m { use super::*; $( sites!(@def $id $attr $body); )* } )*
        pub fn sites() -> Vec<Site> {
            let mut o: Vec<Site> = vec![];
            $( #[cfg(feature = $f)] { use $m::*; $( o.push({
                let mut ways: Vec<(&'static str, fn(&str) -> String)> = vec![];
                $( sites!(@$k ways $id $err); )*
                #[cfg(feature = "x_serde")]
                sites!(@serde ways $id $err);
                Site { name: concat!(stringify!($m), " ", stringify!($id)), fam: Fam::$fam, ways }
            }); )* } )*
            o
        }
    };
    (@def $id:ident ($($a:tt)*) ($($b:tt)*)) => {
        #[derive(Debug, Validator)]
        #[validator($($a)*)]
        pub struct $id($($b)*);
    };
    (@def $id:ident ($($a:tt)*) {$($b:tt)*}) => {
        #[derive(Debug, Validator)]
        #[validator($($a)*)]
        pub struct $id {$($b)*}
    };
    (@S $w:ident $id:ident $e:ident) => {
        $w.push(("parse_str", |s| out::<$id, validators::errors::$e>($id::parse_str(s))));
        $w.push(("parse_string", |s| out::<$id, validators::errors::$e>($id::parse_string(s.to_string()))));
        $w.push(("validate_str", |s| out::<(), validators::errors::$e>($id::validate_str(s))));
        #[cfg(feature = "x_rocket")]
        $w.push(("form field", web::field::<$id>));
        #[cfg(feature = "x_rocket")]
        $w.push(("parameter", |s| web::param::<$id>(s)));
        #[cfg(feature = "x_serde")]
        $w.push(("wrapped", ser::wrapped::<$id, validators::errors::$e>));
    };
    (@B $w:ident $id:ident $e:ident) => {
        $w.push(("parse_u8_slice", |s| out::<$id, validators::errors::$e>($id::parse_u8_slice(s.as_bytes()))));
        $w.push(("parse_vec_u8", |s| out::<$id, validators::errors::$e>($id::parse_vec_u8(s.as_bytes().to_vec()))));
        $w.push(("validate_u8_slice", |s| out::<(), validators::errors::$e>($id::validate_u8_slice(s.as_bytes()))));
    };
    (@C $w:ident $id:ident $e:ident) => {
        $w.push(("parse_char", |s| match s.chars().next() { Some(c) => out::<$id, validators::errors::$e>($id::parse_char(c)), None => String::new() }));
    };
    (@I $w:ident $id:ident $e:ident) => {
        $w.push(("parse_i64", |s| match s.parse() { Ok(c) => out::<$id, validators::errors::$e>($id::parse_i64(c)), Err(_) => String::new() }));
        $w.push(("parse_i128", |s| match s.parse() { Ok(c) => out::<$id, validators::errors::$e>($id::parse_i128(c)), Err(_) => String::new() }));
    };
    (@U $w:ident $id:ident $e:ident) => {
        $w.push(("parse_u64", |s| match s.parse() { Ok(c) => out::<$id, validators::errors::$e>($id::parse_u64(c)), Err(_) => String::new() }));
        $w.push(("parse_u128", |s| match s.parse() { Ok(c) => out::<$id, validators::errors::$e>($id::parse_u128(c)), Err(_) => String::new() }));
        #[cfg(feature = "x_serde")]
        $w.push(("number", ser::number::<$id>));
    };
    (@N $w:ident $id:ident $e:ident) => {
        $w.push(("parse_f64", |s| match s.parse() { Ok(c) => out::<$id, validators::errors::$e>($id::parse_f64(c)), Err(_) => String::new() }));
        $w.push(("parse_f32", |s| match s.parse() { Ok(c) => out::<$id, validators::errors::$e>($id::parse_f32(c)), Err(_) => String::new() }));
    };
    (@J $w:ident $id:ident $e:ident) => {
        $w.push(("parse_json_value", |s| out::<$id, validators::errors::$e>($id::parse_json_value(serde_json::Value::String(s.to_string())))));
        $w.push(("to_minified_json_string", |s| $id::parse_str(s).map(|v| v.to_minified_json_string()).unwrap_or_default()));
        $w.push(("to_beautified_json_string", |s| $id::parse_str(s).map(|v| v.to_beautified_json_string()).unwrap_or_default()));
    };
    (@L $w:ident $id:ident $e:ident) => {
        $w.push(("parse_collection", |s| out::<$id, validators::errors::$e>($id::parse_collection(vec![0u8; s.len()]))));
        $w.push(("validate_collection", |s| out::<(), validators::errors::$e>($id::validate_collection(&vec![0u8; s.len()]))));
    };
    (@T $w:ident $id:ident $e:ident) => {
        $w.push(("parse_collection", |s| out::<$id, validators::errors::$e>($id::parse_collection(s.chars().collect()))));
    };
    (@A $w:ident $id:ident $e:ident) => {
        $w.push(("accessors", |s| $id::parse_str(s).map(|v| shown::$id(&v)).unwrap_or_default()));
    };
    (@serde $w:ident $id:ident $e:ident) => {
        $w.push(("deserialize", ser::de::<$id>));
        $w.push(("serialize", ser::through::<$id>));
    };
}
#[allow(non_snake_case)]
mod shown {
    use super::*;
    #[cfg(feature = "v_mac_address")]
    pub fn MacA(v: &super::m_mac_address::MacA) -> String {
        v.to_mac_address_string()
    }
    #[cfg(feature = "v_uuid")]
    pub fn UuidA(v: &super::m_uuid::UuidA) -> String {
        v.to_uuid_string()
    }
    #[cfg(feature = "v_domain")]
    pub fn DomainP(v: &super::m_domain::DomainP) -> String {
        format!("{} {}", v.to_uri_authority_string(), v.get_domain_non_fully_qualified())
    }
    #[cfg(feature = "v_host")]
    pub fn HostP(v: &super::m_host::HostP) -> String {
        v.to_uri_authority_string().to_string()
    }
    #[cfg(feature = "v_email")]
    pub fn EmailA(v: &super::m_email::EmailA) -> String {
        v.to_email_string()
    }
}
sites! {
    "v_base32" m_base32 B32 Base32Error: Base32A [S B] (base32)(pub String) Base32M [S B] (base32(padding(Must)))(pub String) Base32D [S B] (base32(padding(Disallow)))(pub String);
    "v_base32_decoded" m_base32_decoded B32 Base32DecodedError: XA [S B] (base32_decoded)(pub Vec<u8>) XM [S B] (base32_decoded(padding(Must)))(pub Vec<u8>) XD [S B] (base32_decoded(padding(Disallow)))(pub Vec<u8>);
    "v_base64" m_base64 B64 Base64Error: XA [S B] (base64)(pub String) XM [S B] (base64(padding(Must)))(pub String) XD [S B] (base64(padding(Disallow)))(pub String);
    "v_base64_decoded" m_base64_decoded B64 Base64DecodedError: XA [S B] (base64_decoded)(pub Vec<u8>) XM [S B] (base64_decoded(padding(Must)))(pub Vec<u8>) XD [S B] (base64_decoded(padding(Disallow)))(pub Vec<u8>);
    "v_base64_url" m_base64_url B64U Base64UrlError: XA [S B] (base64_url)(pub String) XM [S B] (base64_url(padding(Must)))(pub String) XD [S B] (base64_url(padding(Disallow)))(pub String);
    "v_base64_url_decoded" m_base64_url_decoded B64U Base64UrlDecodedError: XA [S B] (base64_url_decoded)(pub Vec<u8>) XM [S B] (base64_url_decoded(padding(Must)))(pub Vec<u8>) XD [S B] (base64_url_decoded(padding(Disallow)))(pub Vec<u8>);
    "v_bit" m_bit Size BitError: BitA [S U] (bit)(pub byte_unit::Bit) BitR [S U] (bit(range(min = 8, max = 1_000_000)))(pub byte_unit::Bit);
    "v_byte" m_byte Size ByteError: ByteA [S U] (byte)(pub byte_unit::Byte) ByteC [S U] (byte(ignore_case = false, range(min = 8, max = 1_000_000)))(pub byte_unit::Byte);
    "v_boolean" m_boolean Bool BooleanError: BoolA [S C I U] (boolean)(pub bool);
    "v_domain" m_domain Net DomainError:
        DomainA [S] (domain){ pub domain: String, pub port: Option<u16> }
        DomainP [S A] (domain(ipv4(Allow), local(Allow), port(Allow), at_least_two_labels(Must))){ pub domain: String, pub is_ipv4: bool, pub is_local: bool, pub port: Option<u16> }
        DomainM [S] (domain(ipv4(Disallow), local(Allow), port(Must), at_least_two_labels(Allow))){ pub domain: String, pub port: u16 }
        DomainL [S] (domain(ipv4(Disallow), local(Must), port(Disallow), at_least_two_labels(Disallow)))(pub String);
    "v_host" m_host Net HostError:
        HostA [S] (host){ pub host: Host, pub port: Option<u16> }
        HostP [S A] (host(local(Allow), port(Allow), at_least_two_labels(Must))){ pub host: Host, pub is_local: bool, pub port: Option<u16> }
        HostM [S] (host(local(Disallow), port(Must), at_least_two_labels(Allow))){ pub host: Host, pub port: u16 };
    "v_ip" m_ip Net IpError:
        IpA [S] (ip){ pub ip: core::net::IpAddr, pub port: Option<u16> }
        IpP [S] (ip(local(Allow), port(Allow))){ pub ip: core::net::IpAddr, pub port: Option<u16> }
        IpM [S] (ip(local(Disallow), port(Must))){ pub ip: core::net::IpAddr, pub port: u16 };
    "v_ipv4" m_ipv4 Net Ipv4Error:
        Ipv4A [S] (ipv4){ pub ipv4: core::net::Ipv4Addr, pub port: Option<u16> }
        Ipv4P [S] (ipv4(local(Allow), port(Allow))){ pub ipv4: core::net::Ipv4Addr, pub port: Option<u16> }
        Ipv4M [S] (ipv4(local(Must), port(Must))){ pub ipv4: core::net::Ipv4Addr, pub port: u16 };
    "v_ipv6" m_ipv6 Net Ipv6Error:
        Ipv6A [S] (ipv6){ pub ipv6: core::net::Ipv6Addr, pub port: Option<u16> }
        Ipv6P [S] (ipv6(local(Allow), port(Allow))){ pub ipv6: core::net::Ipv6Addr, pub port: Option<u16> }
        Ipv6M [S] (ipv6(local(Disallow), port(Must))){ pub ipv6: core::net::Ipv6Addr, pub port: u16 };
    "v_email" m_email Mail EmailError:
        EmailA [S A] (email){ pub local_part: String, pub need_quoted: bool, pub domain_part: Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
        EmailI [S] (email(comment(Disallow), ip(Allow), local(Allow), at_least_two_labels(Must), non_ascii(Allow))){ pub local_part: String, pub need_quoted: bool, pub domain_part: Host, pub is_local: bool }
        EmailM [S] (email(comment(Disallow), ip(Must), local(Disallow), non_ascii(Disallow))){ pub local_part: String, pub need_quoted: bool, pub domain_part: core::net::IpAddr };
    "v_http_url" m_http_url Url HttpURLError: HttpA [S] (http_url){ pub url: url::Url, pub is_https: bool } HttpL [S] (http_url(local(Disallow))){ pub url: url::Url, pub is_https: bool };
    "v_http_ftp_url" m_http_ftp_url Url HttpFtpURLError: HttpFtpA [S] (http_ftp_url){ pub url: url::Url, pub protocol: Protocol } HttpFtpL [S] (http_ftp_url(local(Must))){ pub url: url::Url, pub protocol: Protocol };
    "v_url" m_url Url UrlError: UrlA [S] (url)(pub url::Url);
    "v_json" m_json Json JsonError: JsonValue [S J] (json)(pub serde_json::Value) JsonI32 [S J] (json)(pub i32) JsonStr [S J] (json)(pub String);
    "v_length" m_length Phone LengthError: LenA [L] (length)(pub Vec<u8>) LenR [L] (length(min = 2, max = 4))(pub Vec<u8>);
    "v_line" m_line Text LineError: LineA [S] (line)(pub String) LineC [S] (line(char_length(min = 1, max = 3)))(pub String) LineB [S] (line(byte_length(min = 2, trimmed_min = 1, max = 6)))(pub String);
    "v_text" m_text Text TextError: TextA [S] (text)(pub String) TextC [S] (text(char_length(min = 2, trimmed_min = 1, max = 4)))(pub String) TextB [S] (text(byte_length(min = 1, max = 5)))(pub String);
    "v_mac_address" m_mac_address Mac MacAddressError: MacA [S A] (mac_address)(pub u64) MacD [S] (mac_address(case(Lower), separator(Disallow)))(pub u64) MacW [S] (mac_address(case(Any), separator(Allow(b'-'))))(pub u64) MacU [S] (mac_address(case(Upper), separator(Must(b':'))))(pub u64);
    "v_uuid" m_uuid Uuid UuidError: UuidA [S A] (uuid)(pub u128) UuidD [S] (uuid(case(Lower), separator(Disallow)))(pub u128) UuidW [S] (uuid(case(Any), separator(Allow(b'-'))))(pub u128) UuidU [S] (uuid(case(Upper), separator(Must(b':'))))(pub u128);
    "v_number" m_number Num NumberError: NumA [S N] (number)(pub f64) NumS [S N] (number(nan(Allow), range(Inside(min = -1.5, max = 100.25))))(pub f32) NumO [S N] (number(nan(Disallow), range(Outside(min = 0.0, max = 2.5, inclusive = false))))(pub f64);
    "v_phone" m_phone Phone PhoneError: PhoneA [S] (phone)(pub phonenumber::PhoneNumber) PhoneT [S] (phone(countries(TW)))(pub phonenumber::PhoneNumber) PhoneU [S] (phone(countries(US, TW)))(pub std::collections::HashMap<phonenumber::country::Id, phonenumber::PhoneNumber>);
    "v_regex" m_regex Text RegexError: RegexA [S] (regex(regex("^[a\\s]{1,3}$")))(pub String) RegexS [S] (regex(regex = crate::derived::RE))(pub String);
    "v_semver" m_semver Semver SemverError: SemverA [S] (semver)(pub semver::Version);
    "v_semver_req" m_semver_req Semver SemverError: SemverReqA [S] (semver_req)(pub semver::VersionReq);
    "v_signed_integer" m_signed_integer Int SignedIntegerError: Int8 [S I] (signed_integer)(pub i8) Int16 [S I] (signed_integer(range(Inside(min = -300, max = 300))))(pub i16) Int32 [S I] (signed_integer(range(Outside(min = -10, max = 10))))(pub i32) Int64 [S I] (signed_integer(range(Inside(min = 0))))(pub i64) Int128 [S I] (signed_integer)(pub i128) IntSize [S I] (signed_integer)(pub isize);
    "v_unsigned_integer" m_unsigned_integer Int UnsignedIntegerError: Uint8 [S U] (unsigned_integer)(pub u8) Uint16 [S U] (unsigned_integer(range(Inside(min = 5, max = 300))))(pub u16) Uint32 [S U] (unsigned_integer(range(Outside(min = 3, max = 10))))(pub u32) Uint64 [S U] (unsigned_integer(range(Inside(max = 1000))))(pub u64) Uint128 [S U] (unsigned_integer)(pub u128) UintSize [S U] (unsigned_integer)(pub usize);
}
#[cfg(feature = "v_regex")]
pub static RE: std::sync::LazyLock<validators::regex::Regex> = std::sync::LazyLock::new(|| validators::regex::Regex::new("^(a|é)*\\n?$").unwrap());
