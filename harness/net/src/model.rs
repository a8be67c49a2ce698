//! Reference model, written independently of the code under test.
use crate::cfg::{Cfg, Fam, Rec, Tri};
use std::net::{Ipv4Addr, Ipv6Addr};

pub fn ipv4(s: &str) -> Option<u32> {
    let parts: Vec<&str> = s.split('.').collect();
    if parts.len() != 4 {
        return None;
    }
    let mut v = 0u32;
    for p in parts {
        if p.is_empty() || p.len() > 3 || !p.bytes().all(|b| b.is_ascii_digit()) || (p.len() > 1 && p.starts_with('0')) {
            return None;
        }
        let n: u32 = p.parse().unwrap();
        if n > 255 {
            return None;
        }
        v = v << 8 | n;
    }
    Some(v)
}

pub fn ipv6(s: &str) -> Option<u128> {
    fn groups(s: &str, v4_ok: bool) -> Option<Vec<u16>> {
        let mut out = vec![];
        if s.is_empty() {
            return Some(out);
        }
        let parts: Vec<&str> = s.split(':').collect();
        for (i, p) in parts.iter().enumerate() {
            if v4_ok && i == parts.len() - 1 && p.contains('.') {
                let v = ipv4(p)?;
                out.push((v >> 16) as u16);
                out.push(v as u16);
            } else {
                if p.is_empty() || p.len() > 4 || !p.bytes().all(|b| b.is_ascii_hexdigit()) {
                    return None;
                }
                out.push(u16::from_str_radix(p, 16).unwrap());
            }
        }
        Some(out)
    }
    let g = match s.find("::") {
        Some(i) => {
            // the gap stands for at least one group
            let (h, t) = (groups(&s[..i], false)?, groups(&s[i + 2..], true)?);
            if h.len() + t.len() > 7 {
                return None;
            }
            let mut g = h;
            g.resize(8 - t.len(), 0);
            g.extend(t);
            g
        }
        None => groups(s, true)?,
    };
    if g.len() != 8 {
        return None;
    }
    Some(g.iter().fold(0u128, |a, &x| a << 16 | x as u128))
}

pub fn port(s: &str) -> Option<u16> {
    if s.is_empty() || !s.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    let t = s.trim_start_matches('0');
    if t.len() > 5 {
        return None;
    }
    let n: u32 = if t.is_empty() { 0 } else { t.parse().unwrap() };
    u16::try_from(n).ok()
}

/// The normalised form of a domain name (at most one trailing dot), if it is valid.
pub fn domain(s: &str) -> Option<String> {
    let plain = s.is_ascii() && !s.to_ascii_lowercase().split('.').any(|l| l.starts_with("xn--"));
    if !plain {
        // internationalised names: the IDNA library is the reference
        return idna::uts46::Uts46::new()
            .to_ascii(s.as_bytes(), idna::AsciiDenyList::STD3, idna::uts46::Hyphens::CheckFirstLast, idna::uts46::DnsLength::VerifyAllowRootDot)
            .ok()
            .map(|c| c.into_owned());
    }
    let body = s.strip_suffix('.').unwrap_or(s);
    if body.is_empty() || body.len() > 253 {
        return None;
    }
    for l in body.split('.') {
        let b = l.as_bytes();
        if b.is_empty() || b.len() > 63 || !b.iter().all(|c| c.is_ascii_alphanumeric() || *c == b'-') {
            return None;
        }
        if b[0] == b'-' || b[b.len() - 1] == b'-' {
            return None;
        }
    }
    Some(s.to_ascii_lowercase())
}

pub fn local_domain(d: &str) -> bool {
    d.strip_suffix('.').unwrap_or(d).to_ascii_lowercase() == "localhost"
}
pub fn two_labels(d: &str) -> bool {
    d.strip_suffix('.').unwrap_or(d).split('.').count() >= 2
}

fn in_net4(v: u32, net: [u8; 4], bits: u32) -> bool {
    let n = u32::from_be_bytes(net);
    (v ^ n) >> (32 - bits) == 0
}
/// Not globally reachable IPv4 blocks.
pub const V4_BLOCKS: [([u8; 4], u32); 10] = [
    ([10, 0, 0, 0], 8),
    ([172, 16, 0, 0], 12),
    ([192, 168, 0, 0], 16),
    ([127, 0, 0, 0], 8),
    ([169, 254, 0, 0], 16),
    ([255, 255, 255, 255], 32),
    ([192, 0, 2, 0], 24),
    ([198, 51, 100, 0], 24),
    ([203, 0, 113, 0], 24),
    ([0, 0, 0, 0], 32),
];
pub fn local_v4(v: u32) -> bool {
    V4_BLOCKS.iter().any(|&(n, b)| in_net4(v, n, b))
}
/// Not globally reachable IPv6 blocks (multicast and embedded IPv4 apart).
pub const V6_BLOCKS: [(u128, u32); 6] = [
    (0, 128),
    (1, 128),
    (0xfe80 << 112, 10),
    (0xfec0 << 112, 10),
    (0xfc00 << 112, 7),
    (0x2001_0db8 << 96, 32),
];
pub fn local_v6(v: u128) -> bool {
    if v >> 120 == 0xff {
        return (v >> 112) & 0xf != 0xe;
    }
    if V6_BLOCKS.iter().any(|&(n, b)| (v ^ n) >> (128 - b) == 0) {
        return true;
    }
    // ::a.b.c.d and ::ffff:a.b.c.d
    let hi = v >> 32;
    (hi == 0 || hi == 0xffff) && local_v4(v as u32)
}

#[derive(Clone, Debug, PartialEq)]
pub enum HostP {
    Domain(String),
    V4(u32),
    V6(u128),
}
impl HostP {
    pub fn local(&self) -> bool {
        match self {
            HostP::Domain(d) => local_domain(d),
            HostP::V4(v) => local_v4(*v),
            HostP::V6(v) => local_v6(*v),
        }
    }
    pub fn text(&self) -> String {
        match self {
            HostP::Domain(d) => d.clone(),
            HostP::V4(v) => format!("v4:{}", Ipv4Addr::from(*v)),
            HostP::V6(v) => format!("v6:{}", Ipv6Addr::from(*v)),
        }
    }
    pub fn display(&self) -> String {
        match self {
            HostP::Domain(d) => d.clone(),
            HostP::V4(v) => Ipv4Addr::from(*v).to_string(),
            HostP::V6(v) => Ipv6Addr::from(*v).to_string(),
        }
    }
    pub fn authority(&self, port: Option<u16>) -> String {
        let h = match self {
            HostP::V6(v) => format!("[{}]", Ipv6Addr::from(*v)),
            _ => self.display(),
        };
        match port {
            Some(p) => format!("{h}:{p}"),
            None => h,
        }
    }
    pub fn at_least_two_labels(&self) -> bool {
        match self {
            HostP::Domain(d) => two_labels(d),
            _ => true,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    Malformed,
    Reject(Vec<&'static str>),
    Accept(Box<Rec>),
}
impl Verdict {
    pub fn label(&self) -> String {
        match self {
            Verdict::Malformed => "malformed".into(),
            Verdict::Reject(v) => format!("reject {}", v.join("+")),
            Verdict::Accept(_) => "accept".into(),
        }
    }
}

/// An input that is well-formed when no setting restricts it.
#[derive(Clone, Debug, PartialEq)]
pub struct Parsed {
    pub host: HostP,
    pub port: Option<u16>,
    pub ascii_local_part: bool,
    pub local_part: String,
    pub need_quoted: bool,
    pub comments: [Option<String>; 4],
    /// domain family: the dotted IPv4 text, normalised
    pub v4_text: Option<String>,
}

fn split_port(s: &str) -> Option<(&str, Option<u16>)> {
    match s.rfind(':') {
        None => Some((s, None)),
        Some(i) => Some((&s[..i], Some(port(&s[i + 1..])?))),
    }
}

fn plain(host: HostP, port: Option<u16>) -> Parsed {
    Parsed { host, port, ascii_local_part: true, local_part: String::new(), need_quoted: false, comments: Default::default(), v4_text: None }
}

pub fn parse_domain(s: &str) -> Option<Parsed> {
    let (h, p) = split_port(s)?;
    let d = domain(h)?;
    let v4 = ipv4(d.strip_suffix('.').unwrap_or(&d));
    let mut r = plain(HostP::Domain(d.clone()), p);
    if let Some(v) = v4 {
        r.host = HostP::V4(v);
        r.v4_text = Some(d);
    }
    Some(r)
}

fn parse_v6_port(s: &str) -> Option<Parsed> {
    if let Some(r) = s.strip_prefix('[') {
        let i = r.find(']')?;
        let v = ipv6(&r[..i])?;
        let p = match &r[i + 1..] {
            "" => None,
            t => Some(port(t.strip_prefix(':')?)?),
        };
        return Some(plain(HostP::V6(v), p));
    }
    ipv6(s).map(|v| plain(HostP::V6(v), None))
}
fn parse_v4_port(s: &str) -> Option<Parsed> {
    let (h, p) = split_port(s)?;
    Some(plain(HostP::V4(ipv4(h)?), p))
}

pub fn parse_host(s: &str) -> Option<Parsed> {
    if let Some(p) = parse_v6_port(s) {
        return Some(p);
    }
    let (h, p) = split_port(s)?;
    let d = domain(h)?;
    if d.ends_with('.') {
        return None;
    }
    if let Some(v) = ipv4(&d) {
        return Some(plain(HostP::V4(v), p));
    }
    Some(plain(HostP::Domain(d), p))
}

pub fn atext(b: u8) -> bool {
    b.is_ascii_alphanumeric() || b"!#$%&'*+-/=?^_`{|}~".contains(&b) || b >= 128
}

/// Could this local part be written without quotes?
pub fn dot_atom(s: &str) -> bool {
    !s.is_empty() && s.split('.').all(|a| !a.is_empty() && a.bytes().all(atext))
}

fn comment(s: &str, i: &mut usize) -> Option<Option<String>> {
    if s.as_bytes().get(*i) != Some(&b'(') {
        return Some(None);
    }
    let e = s[*i + 1..].find(')')? + *i + 1;
    let c = s[*i + 1..e].to_string();
    *i = e + 1;
    Some(Some(c))
}

pub fn parse_email(s: &str) -> Option<Parsed> {
    let b = s.as_bytes();
    if b.len() > 320 {
        return None;
    }
    let mut i = 0;
    let c1 = comment(s, &mut i)?;
    let local;
    let need_quoted;
    if b.get(i) == Some(&b'"') {
        let start = i + 1;
        let mut j = start;
        loop {
            let c = *b.get(j)?;
            match c {
                b'"' => break,
                b'\\' => {
                    let n = *b.get(j + 1)?;
                    if !(atext(n) || b". \t\\\"(),:;<>@[]".contains(&n)) {
                        return None;
                    }
                    j += 2;
                }
                c if atext(c) || b". \t".contains(&c) => j += 1,
                _ => return None,
            }
        }
        if j == start {
            return None;
        }
        local = s[start..j].to_string();
        need_quoted = !dot_atom(&local);
        i = j + 1;
    } else {
        let start = i;
        while i < b.len() && b[i] != b'@' && b[i] != b'(' {
            i += 1;
        }
        local = s[start..i].to_string();
        if !dot_atom(&local) {
            return None;
        }
        need_quoted = false;
    }
    let c2 = comment(s, &mut i)?;
    if i > 64 || b.get(i) != Some(&b'@') {
        return None;
    }
    i += 1;
    let at = i;
    if b.len() - at > 255 {
        return None;
    }
    let c3 = comment(s, &mut i)?;
    let hstart = i;
    let host;
    let canonical_len;
    if b.get(i) == Some(&b'[') {
        let e = s[i..].find(']')? + i;
        let lit = &s[i + 1..e];
        if let Some(l) = lit.strip_prefix("IPv6:") {
            let v = ipv6(l)?;
            canonical_len = 7 + Ipv6Addr::from(v).to_string().len();
            host = HostP::V6(v);
        } else {
            host = HostP::V4(ipv4(lit)?);
            canonical_len = lit.len() + 2;
        }
        i = e + 1;
    } else {
        let e = s[i..].find('(').map(|k| k + i).unwrap_or(s.len());
        let d = &s[i..e];
        let a = domain(d)?;
        if a.ends_with('.') {
            return None;
        }
        canonical_len = a.len();
        host = HostP::Domain(a);
        i = e;
    }
    let written = i - hstart;
    let c4 = comment(s, &mut i)?;
    if i != b.len() {
        return None;
    }
    if b.len() - at - written + canonical_len > 255 {
        return None;
    }
    Some(Parsed { host, port: None, ascii_local_part: local.is_ascii(), local_part: local, need_quoted, comments: [c1, c2, c3, c4], v4_text: None })
}

pub fn parse(fam: Fam, s: &str) -> Option<Parsed> {
    match fam {
        Fam::Domain => parse_domain(s),
        Fam::Host => parse_host(s),
        Fam::Ip => parse_v6_port(s).or_else(|| parse_v4_port(s)),
        Fam::Ipv4 => parse_v4_port(s),
        Fam::Ipv6 => parse_v6_port(s),
        Fam::Email => parse_email(s),
        _ => unreachable!(),
    }
}

/// Apply the settings.
pub fn judge(c: &Cfg, p: Option<&Parsed>) -> Verdict {
    let Some(p) = p else { return Verdict::Malformed };
    let mut bad = vec![];
    let is_ip = !matches!(p.host, HostP::Domain(_));
    let local = p.host.local();
    let two = p.host.at_least_two_labels();
    let mut tri = |t: Tri, present: bool, must: &'static str, dis: &'static str| match t {
        Tri::Must if !present => bad.push(must),
        Tri::Disallow if present => bad.push(dis),
        _ => (),
    };
    tri(c.port, p.port.is_some(), "PortMust", "PortDisallow");
    tri(c.local, local, "LocalMust", "LocalDisallow");
    match c.fam {
        Fam::Domain => tri(c.ip, is_ip, "IPv4Must", "IPv4Disallow"),
        Fam::Email => tri(c.ip, is_ip, "IPMust", "IPDisallow"),
        _ => (),
    }
    // a local domain name is exempt from the label count
    if matches!(c.fam, Fam::Domain | Fam::Host | Fam::Email) && (is_ip || !local) {
        tri(c.two, two, "AtLeastTwoLabelsMust", "AtLeastTwoLabelsDisallow");
    }
    if !c.comment && p.comments.iter().any(|x| x.is_some()) {
        bad.push("CommentDisallow");
    }
    if !c.non_ascii && !p.ascii_local_part {
        return Verdict::Malformed;
    }
    if !bad.is_empty() {
        return Verdict::Reject(bad);
    }
    let mut r = Rec { port: p.port, is_local: c.has_is_local.then_some(local), is_ipv4: c.has_is_ipv4.then_some(is_ip), ..Rec::default() };
    match c.fam {
        Fam::Domain => {
            r.host = match (&p.host, &p.v4_text) {
                (HostP::Domain(d), _) => d.clone(),
                (_, Some(t)) => t.clone(),
                _ => unreachable!(),
            };
            let fq = r.host.ends_with('.');
            let short = r.host.strip_suffix('.').unwrap_or(&r.host).to_string();
            r.text = match p.port {
                Some(p) => format!("{short}:{p}"),
                None => short.clone(),
            };
            r.fq = Some(fq);
            r.non_fq = Some(short);
        }
        Fam::Email => {
            r.host = p.host.text();
            r.local_part = p.local_part.clone();
            r.need_quoted = p.need_quoted;
            let q = if p.need_quoted { "\"" } else { "" };
            let cm = |i: usize| p.comments[i].as_ref().map(|c| format!("({c})")).unwrap_or_default();
            let h = match &p.host {
                HostP::Domain(d) => d.clone(),
                HostP::V4(v) => format!("[{}]", Ipv4Addr::from(*v)),
                HostP::V6(v) => format!("[IPv6:{}]", Ipv6Addr::from(*v)),
            };
            r.text = format!("{}{q}{}{q}{}@{}{h}{}", cm(0), p.local_part, cm(1), cm(2), cm(3));
            r.comments = p.comments.clone();
            if !c.comment {
                r.comments = Default::default();
            }
        }
        _ => {
            r.host = p.host.text();
            if c.fam == Fam::Host {
                r.host_display = p.host.display();
            }
            r.text = p.host.authority(p.port);
        }
    }
    Verdict::Accept(Box::new(r))
}

/// http_url / http_ftp_url: scheme, then the URL standard parser, then locality.
pub fn judge_url(c: &Cfg, s: &str) -> Verdict {
    let low = s.to_ascii_lowercase();
    let scheme = if low.starts_with("http:") {
        "http"
    } else if low.starts_with("https:") {
        "https"
    } else if low.starts_with("ftp:") && c.fam == Fam::HttpFtpUrl {
        "ftp"
    } else {
        return Verdict::Reject(vec!["ProtocolError"]);
    };
    let Ok(u) = url::Url::parse(s) else { return Verdict::Malformed };
    let local = match u.host() {
        Some(url::Host::Domain(d)) => local_domain(d),
        Some(url::Host::Ipv4(i)) => local_v4(u32::from(i)),
        Some(url::Host::Ipv6(i)) => local_v6(u128::from(i)),
        None => panic!("special URL without a host"),
    };
    match (c.local, local) {
        (Tri::Must, false) => Verdict::Reject(vec!["LocalMust"]),
        (Tri::Disallow, true) => Verdict::Reject(vec!["LocalDisallow"]),
        _ => Verdict::Accept(Box::new(Rec { host: u.as_str().to_string(), text: scheme.into(), ..Rec::default() })),
    }
}
