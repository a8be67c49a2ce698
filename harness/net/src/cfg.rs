//! The code under test: one derived type per combination of settings, behind function pointers.
use engine::{guard, R};
use std::borrow::Cow;
use std::fmt::Debug;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};
use validators::models::{Host, Protocol};
use validators::prelude::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tri {
    Allow,
    Must,
    Disallow,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fam {
    Domain,
    Host,
    Ip,
    Ipv4,
    Ipv6,
    Email,
    HttpUrl,
    HttpFtpUrl,
}

/// Everything observable about an accepted value.
#[derive(Clone, PartialEq, Debug, Default)]
pub struct Rec {
    pub host: String,
    pub host_display: String,
    pub port: Option<u16>,
    pub is_local: Option<bool>,
    pub is_ipv4: Option<bool>,
    pub text: String,
    pub fq: Option<bool>,
    pub non_fq: Option<String>,
    pub local_part: String,
    pub need_quoted: bool,
    pub comments: [Option<String>; 4],
}

pub trait Case {
    fn rec(&self) -> Rec;
}

pub struct Ops {
    pub parse_str: fn(&str) -> R<Rec>,
    pub parse_string: fn(&str) -> R<Rec>,
    pub validate: fn(&str) -> R<()>,
}

pub struct Cfg {
    pub name: &'static str,
    pub fam: Fam,
    pub ip: Tri,
    pub local: Tri,
    pub port: Tri,
    pub two: Tri,
    pub comment: bool,
    pub non_ascii: bool,
    pub has_is_local: bool,
    pub has_is_ipv4: bool,
    pub ops: Ops,
}

pub trait Kind {
    fn kind(&self) -> Cow<'static, str>;
}
macro_rules! kinds {
    ($t:ident: $($v:ident)*) => {
        impl Kind for validators::errors::$t {
            fn kind(&self) -> Cow<'static, str> {
                match self { $( Self::$v => stringify!($v).into(), )* #[allow(unreachable_patterns)] other => engine::kind(other).into() }
            }
        }
    };
}
kinds!(DomainError: Invalid IPv4Must IPv4Disallow LocalMust LocalDisallow AtLeastTwoLabelsMust AtLeastTwoLabelsDisallow PortMust PortDisallow);
kinds!(HostError: Invalid LocalMust LocalDisallow AtLeastTwoLabelsMust AtLeastTwoLabelsDisallow PortMust PortDisallow);
kinds!(IpError: Invalid LocalMust LocalDisallow PortMust PortDisallow);
kinds!(Ipv4Error: Invalid LocalMust LocalDisallow PortMust PortDisallow);
kinds!(Ipv6Error: Invalid LocalMust LocalDisallow PortMust PortDisallow);
kinds!(EmailError: Invalid IPMust IPDisallow LocalMust LocalDisallow AtLeastTwoLabelsMust AtLeastTwoLabelsDisallow CommentDisallow);
kinds!(HttpURLError: ProtocolError LocalMust LocalDisallow);
kinds!(HttpFtpURLError: ProtocolError LocalMust LocalDisallow);

pub fn ops<T>() -> Ops
where
    T: ValidateString + Case,
    T::Error: Kind + Debug,
{
    Ops {
        parse_str: |s| guard(|| T::parse_str(s).map(|v| v.rec()).map_err(|e| e.kind())),
        parse_string: |s| guard(|| T::parse_string(s.to_string()).map(|v| v.rec()).map_err(|e| e.kind())),
        validate: |s| guard(|| T::validate_str(s).map_err(|e| e.kind())),
    }
}

pub fn host_text(h: &Host) -> String {
    let shown = h.to_string();
    let told = match h {
        Host::Domain(d) => shown == *d,
        Host::IPv4(i) => shown == i.to_string() && Host::from(*i) == *h,
        Host::IPv6(i) => shown == i.to_string() && Host::from(*i) == *h,
    };
    if !told {
        return format!("{h:?} displayed as {shown}");
    }
    match h {
        Host::Domain(d) => d.clone(),
        Host::IPv4(i) => ip_text(IpAddr::V4(*i)),
        Host::IPv6(i) => ip_text(IpAddr::V6(*i)),
    }
}
/// Distinguishable from a domain with the same text.
pub fn ip_text(i: IpAddr) -> String {
    match i {
        IpAddr::V4(i) => format!("v4:{i}"),
        IpAddr::V6(i) => format!("v6:{i}"),
    }
}

pub mod domain_types {
    use super::*;
    include!(concat!(env!("OUT_DIR"), "/domain.rs"));
}
pub mod host_types {
    use super::*;
    include!(concat!(env!("OUT_DIR"), "/host.rs"));
}
pub mod ip_types {
    use super::*;
    include!(concat!(env!("OUT_DIR"), "/ip.rs"));
}
pub mod email_types {
    use super::*;
    include!(concat!(env!("OUT_DIR"), "/email.rs"));
}
pub mod url_types {
    use super::*;
    include!(concat!(env!("OUT_DIR"), "/url.rs"));
}
