//! Instantiates the derive for every combination of settings.
use std::fmt::Write;

const T: [&str; 3] = ["Allow", "Must", "Disallow"];

/// A family whose feature is off gets no configurations.
fn save(fam: &str, code: String) {
    let out = std::env::var("OUT_DIR").unwrap();
    let on = std::env::var(format!("CARGO_FEATURE_{}", fam.to_uppercase())).is_ok();
    let code = if on { code } else { format!("pub fn {fam}_cfgs() -> Vec<Cfg> {{ vec![] }}\n") };
    std::fs::write(format!("{out}/{fam}.rs"), code).unwrap();
}

fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    let d = "#[derive(validators::Validator, Debug, Clone, PartialEq)]";

    // domain: 81
    let mut s = String::new();
    let mut table = String::from("pub fn domain_cfgs() -> Vec<Cfg> { vec![\n");
    let mut n = 0;
    for ipv4 in 0..3 {
        for local in 0..3 {
            for port in 0..3 {
                for two in 0..3 {
                    let conflict = if ipv4 == 1 && two == 2 { ", conflict(Allow)" } else { "" };
                    let attr = format!("domain(ipv4({}), local({}), port({}), at_least_two_labels({}){conflict})", T[ipv4], T[local], T[port], T[two]);
                    let il = local == 0 && two != 0;
                    let i4 = il && ipv4 == 0;
                    let _ = writeln!(s, "{d}\n#[validator({attr})]");
                    let mut rec = String::new();
                    if port == 2 && !il {
                        let _ = writeln!(s, "pub struct D{n}(pub String);");
                        rec.push_str("host: self.0.clone(),");
                    } else {
                        let mut f = String::from("pub domain: String,");
                        rec.push_str("host: self.domain.clone(),");
                        if i4 {
                            f.push_str("pub is_ipv4: bool,");
                            rec.push_str("is_ipv4: Some(self.is_ipv4),");
                        }
                        if il {
                            f.push_str("pub is_local: bool,");
                            rec.push_str("is_local: Some(self.is_local),");
                        }
                        match port {
                            0 => { f.push_str("pub port: Option<u16>,"); rec.push_str("port: self.port,"); }
                            1 => { f.push_str("pub port: u16,"); rec.push_str("port: Some(self.port),"); }
                            _ => (),
                        }
                        let _ = writeln!(s, "pub struct D{n} {{ {f} }}");
                    }
                    let _ = writeln!(s, "impl Case for D{n} {{ fn rec(&self) -> Rec {{ Rec {{ {rec} text: ToUriAuthorityString::to_uri_authority_string(self).into_owned(), fq: Some(QualifyDomain::is_fully_qualified(self)), non_fq: Some(QualifyDomain::get_domain_non_fully_qualified(self).to_string()), ..Rec::default() }} }} }}");
                    let _ = writeln!(table, "Cfg {{ name: {attr:?}, fam: Fam::Domain, ip: Tri::{}, local: Tri::{}, port: Tri::{}, two: Tri::{}, comment: true, non_ascii: true, has_is_local: {il}, has_is_ipv4: {i4}, ops: ops::<D{n}>() }},", T[ipv4], T[local], T[port], T[two]);
                    n += 1;
                }
            }
        }
    }
    table.push_str("] }\n");
    save("domain", s + &table);

    // host: 27
    let mut s = String::new();
    let mut table = String::from("pub fn host_cfgs() -> Vec<Cfg> { vec![\n");
    let mut n = 0;
    for local in 0..3 {
        for port in 0..3 {
            for two in 0..3 {
                let attr = format!("host(local({}), port({}), at_least_two_labels({}))", T[local], T[port], T[two]);
                let il = local == 0 && two != 0;
                let _ = writeln!(s, "{d}\n#[validator({attr})]");
                let mut rec = String::new();
                if port == 2 && !il {
                    let _ = writeln!(s, "pub struct H{n}(pub Host);");
                    rec.push_str("host: host_text(&self.0), host_display: self.0.to_string(),");
                } else {
                    let mut f = String::from("pub host: Host,");
                    rec.push_str("host: host_text(&self.host), host_display: self.host.to_string(),");
                    if il {
                        f.push_str("pub is_local: bool,");
                        rec.push_str("is_local: Some(self.is_local),");
                    }
                    match port {
                        0 => { f.push_str("pub port: Option<u16>,"); rec.push_str("port: self.port,"); }
                        1 => { f.push_str("pub port: u16,"); rec.push_str("port: Some(self.port),"); }
                        _ => (),
                    }
                    let _ = writeln!(s, "pub struct H{n} {{ {f} }}");
                }
                let _ = writeln!(s, "impl Case for H{n} {{ fn rec(&self) -> Rec {{ Rec {{ {rec} text: ToUriAuthorityString::to_uri_authority_string(self).into_owned(), ..Rec::default() }} }} }}");
                let _ = writeln!(table, "Cfg {{ name: {attr:?}, fam: Fam::Host, ip: Tri::Allow, local: Tri::{}, port: Tri::{}, two: Tri::{}, comment: true, non_ascii: true, has_is_local: {il}, has_is_ipv4: false, ops: ops::<H{n}>() }},", T[local], T[port], T[two]);
                n += 1;
            }
        }
    }
    table.push_str("] }\n");
    save("host", s + &table);

    // ip, ipv4, ipv6: 27
    let mut s = String::new();
    let mut table = String::from("pub fn ip_cfgs() -> Vec<Cfg> { vec![\n");
    let mut n = 0;
    for (v, ty, fam) in [("ip", "IpAddr", "Ip"), ("ipv4", "Ipv4Addr", "Ipv4"), ("ipv6", "Ipv6Addr", "Ipv6")] {
        for local in 0..3 {
            for port in 0..3 {
                let attr = format!("{v}(local({}), port({}))", T[local], T[port]);
                let _ = writeln!(s, "{d}\n#[validator({attr})]");
                let rec = match port {
                    2 => {
                        let _ = writeln!(s, "pub struct I{n}(pub {ty});");
                        "host: ip_text(self.0.into()),".to_string()
                    }
                    0 => {
                        let _ = writeln!(s, "pub struct I{n} {{ pub {v}: {ty}, pub port: Option<u16> }}");
                        format!("host: ip_text(self.{v}.into()), port: self.port,")
                    }
                    _ => {
                        let _ = writeln!(s, "pub struct I{n} {{ pub {v}: {ty}, pub port: u16 }}");
                        format!("host: ip_text(self.{v}.into()), port: Some(self.port),")
                    }
                };
                let _ = writeln!(s, "impl Case for I{n} {{ fn rec(&self) -> Rec {{ Rec {{ {rec} text: ToUriAuthorityString::to_uri_authority_string(self).into_owned(), ..Rec::default() }} }} }}");
                let _ = writeln!(table, "Cfg {{ name: {attr:?}, fam: Fam::{fam}, ip: Tri::Must, local: Tri::{}, port: Tri::{}, two: Tri::Allow, comment: true, non_ascii: true, has_is_local: false, has_is_ipv4: false, ops: ops::<I{n}>() }},", T[local], T[port]);
                n += 1;
            }
        }
    }
    table.push_str("] }\n");
    save("ip", s + &table);

    // email: 108
    let mut s = String::new();
    let mut table = String::from("pub fn email_cfgs() -> Vec<Cfg> { vec![\n");
    let mut n = 0;
    for comment in [0, 2] {
        for ip in 0..3 {
            for local in 0..3 {
                for two in 0..3 {
                    for na in [0, 2] {
                        let conflict = if ip == 1 && two == 2 { ", conflict(Allow)" } else { "" };
                        let attr = format!("email(comment({}), ip({}), local({}), at_least_two_labels({}), non_ascii({}){conflict})", T[comment], T[ip], T[local], T[two], T[na]);
                        let il = local == 0 && two != 0;
                        let _ = writeln!(s, "{d}\n#[validator({attr})]");
                        let ty = ["Host", "IpAddr", "String"][ip];
                        let mut f = format!("pub local_part: String, pub need_quoted: bool, pub domain_part: {ty},");
                        let mut rec = String::from("local_part: self.local_part.clone(), need_quoted: self.need_quoted,");
                        rec.push_str(["host: host_text(&self.domain_part),", "host: ip_text(self.domain_part),", "host: self.domain_part.clone(),"][ip]);
                        if comment == 0 {
                            f.push_str("pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String>,");
                            rec.push_str("comments: [self.comment_before_local_part.clone(), self.comment_after_local_part.clone(), self.comment_before_domain_part.clone(), self.comment_after_domain_part.clone()],");
                        }
                        if il {
                            f.push_str("pub is_local: bool,");
                            rec.push_str("is_local: Some(self.is_local),");
                        }
                        let _ = writeln!(s, "pub struct E{n} {{ {f} }}");
                        let _ = writeln!(s, "impl Case for E{n} {{ fn rec(&self) -> Rec {{ Rec {{ {rec} text: ToEmailString::to_email_string(self), ..Rec::default() }} }} }}");
                        let _ = writeln!(table, "Cfg {{ name: {attr:?}, fam: Fam::Email, ip: Tri::{}, local: Tri::{}, port: Tri::Disallow, two: Tri::{}, comment: {}, non_ascii: {}, has_is_local: {il}, has_is_ipv4: false, ops: ops::<E{n}>() }},", T[ip], T[local], T[two], comment == 0, na == 0);
                        n += 1;
                    }
                }
            }
        }
    }
    table.push_str("] }\n");
    save("email", s + &table);

    // urls: 6
    let mut s = String::new();
    let mut table = String::from("pub fn url_cfgs() -> Vec<Cfg> { vec![\n");
    for local in 0..3 {
        let attr = format!("http_url(local({}))", T[local]);
        let _ = writeln!(s, "{d}\n#[validator({attr})]\npub struct U{local} {{ pub url: url::Url, pub is_https: bool }}");
        let _ = writeln!(s, "impl Case for U{local} {{ fn rec(&self) -> Rec {{ Rec {{ host: self.url.as_str().to_string(), text: if self.is_https {{ \"https\" }} else {{ \"http\" }}.into(), ..Rec::default() }} }} }}");
        let _ = writeln!(table, "Cfg {{ name: {attr:?}, fam: Fam::HttpUrl, ip: Tri::Allow, local: Tri::{}, port: Tri::Allow, two: Tri::Allow, comment: true, non_ascii: true, has_is_local: false, has_is_ipv4: false, ops: ops::<U{local}>() }},", T[local]);
        let attr = format!("http_ftp_url(local({}))", T[local]);
        let _ = writeln!(s, "{d}\n#[validator({attr})]\npub struct F{local} {{ pub url: url::Url, pub protocol: Protocol }}");
        let _ = writeln!(s, "impl Case for F{local} {{ fn rec(&self) -> Rec {{ Rec {{ host: self.url.as_str().to_string(), text: match self.protocol {{ Protocol::HTTP => \"http\", Protocol::HTTPS => \"https\", Protocol::FTP => \"ftp\" }}.into(), ..Rec::default() }} }} }}");
        let _ = writeln!(table, "Cfg {{ name: {attr:?}, fam: Fam::HttpFtpUrl, ip: Tri::Allow, local: Tri::{}, port: Tri::Allow, two: Tri::Allow, comment: true, non_ascii: true, has_is_local: false, has_is_ipv4: false, ops: ops::<F{local}>() }},", T[local]);
    }
    table.push_str("] }\n");
    save("url", s + &table);
}
