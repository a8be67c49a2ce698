#![allow(unused_imports, dead_code)]
mod cfg;
mod model;
use cfg::*;
use engine::{Ctx, Run, Space, R};
use model::*;

/// What a check looks at.
#[derive(Clone, Copy, PartialEq)]
enum Look {
    /// verdict and parts
    Parts,
    /// text form and its round trip
    Text,
    /// verdict and the whole value
    Full,
    /// error names
    Errors,
}

/// Run every configuration on `s` and compare with the model.
fn compare(cfgs: &[Cfg], s: &str, look: Look, ctx: &mut Ctx) {
    let mut cached: Option<(Fam, Option<Parsed>)> = None;
    for c in cfgs {
        let v = if matches!(c.fam, Fam::HttpUrl | Fam::HttpFtpUrl) {
            judge_url(c, s)
        } else {
            if cached.as_ref().map(|x| x.0) != Some(c.fam) {
                cached = Some((c.fam, parse(c.fam, s)));
            }
            judge(c, cached.as_ref().unwrap().1.as_ref())
        };
        ctx.outcome(&format!("{:?} {}", c.fam, v.label()), || engine::show(s));
        let a = (c.ops.parse_str)(s);
        one(c, s, &v, "parse_str", &a, look, ctx);
        if look != Look::Text {
            let b = (c.ops.parse_string)(s);
            let d = (c.ops.validate)(s);
            ctx.exec(2);
            if a != b {
                one(c, s, &v, "parse_string", &b, look, ctx);
            }
            match (&v, &d) {
                (Verdict::Accept(_), Ok(())) | (Verdict::Malformed, Err(_)) => (),
                (Verdict::Reject(names), Err(e)) if look != Look::Errors || names.contains(&e.as_ref()) => (),
                _ => ctx.fail(c.name, s, format!("validate_str: model {}, code {d:?}", v.label())),
            }
            if let Err(e) = &d {
                if e.starts_with("PANIC") {
                    ctx.fail(c.name, s, format!("validate_str: {e}"));
                }
            }
        } else if let Ok(r) = &a {
            // the text form is accepted by the same validator, with the same value
            let t = (c.ops.parse_str)(&r.text);
            ctx.exec(1);
            let mut want = r.clone();
            if c.fam == Fam::Domain {
                // a URI authority never shows the trailing dot
                want.host = r.non_fq.clone().unwrap_or_default();
                want.fq = Some(false);
            }
            if t != Ok(want) {
                ctx.fail(c.name, s, format!("text form {:?} of {r:?} parses back to {t:?}", r.text));
            }
        }
    }
}

fn one(c: &Cfg, s: &str, v: &Verdict, what: &str, got: &R<Rec>, look: Look, ctx: &mut Ctx) {
    ctx.exec(1);
    let ok = match (v, got) {
        (_, Err(e)) if e.starts_with("PANIC") => false,
        (Verdict::Accept(m), Ok(r)) => match look {
            Look::Parts => Rec { text: String::new(), fq: None, non_fq: None, host_display: String::new(), ..(**m).clone() } == Rec { text: String::new(), fq: None, non_fq: None, host_display: String::new(), ..r.clone() },
            Look::Text | Look::Full => **m == *r,
            Look::Errors => true,
        },
        (Verdict::Malformed, Err(_)) => true,
        (Verdict::Reject(names), Err(e)) => look != Look::Errors || names.contains(&e.as_ref()),
        _ => false,
    };
    if !ok {
        ctx.fail(c.name, s, format!("{what}: model {v:?}, code {got:?}"));
    }
}

fn rep(s: &str, n: usize) -> String {
    s.repeat(n)
}

/// Inputs around the DNS and IPv4 limits.
fn domain_edges() -> Vec<String> {
    let mut v = vec![];
    for n in [1usize, 2, 3, 4, 62, 63, 64, 65] {
        for tail in ["", ".", ".com", ".com.", ".localhost", ":80", ".com:80", ".com.:80", "..", "-", "-.com"] {
            v.push(format!("{}{tail}", rep("a", n)));
            v.push(format!("x.{}{tail}", rep("a", n)));
            v.push(format!("{}{tail}", rep("1", n)));
        }
    }
    // total length around 253
    for total in 248..=258usize {
        let mut s = String::new();
        while s.len() + 64 <= total - 1 {
            s.push_str(&rep("b", 63));
            s.push('.');
        }
        let r = total - s.len();
        s.push_str(&rep("c", r));
        for tail in ["", ".", ":0", ":65535", ".:1", ":65536"] {
            v.push(format!("{s}{tail}"));
        }
    }
    // limits again, one turn of a small counter later
    for n in [256usize, 65536] {
        for d in [1usize, 2, 62, 63, 64, 65, 252, 253, 254, 255, 256] {
            v.push(rep("a", n + d));
            let mut s = rep(&format!("{}.", rep("b", 63)), (n + d) / 64);
            s.push_str(&rep("c", n + d - s.len()));
            for tail in ["", ".", ".:80", ":80"] {
                v.push(format!("{s}{tail}"));
            }
            v.push(format!("{}.{}", rep("0", n), rep("0", d)));
            v.push(format!("[{}::1]", rep("0", n + d)));
            v.push(format!("a.b:{}80", rep("0", n + d)));
            v.push(format!("[::1]:{}80", rep("0", n + d)));
            v.push(format!("1.1.1.1:{}65535", rep("0", n + d)));
            v.push(format!("1.1.1.1:{}65536", rep("0", n + d)));
        }
    }
    for p in ["", "0", "00", "1", "80", "080", "65535", "65536", "99999", "100000", "00065535", "00065536", "65616", "131152", "4294967296", "4294967376", "00000000000000000000000000000000000000000000000000000000000000000000080", "18446744073709551696", "340282366920938463463374607431768211536", "18446744073709551616", "+80", "-80", "-0", " 80", "80 ", "8 0", "0x50", "８０", "+", "-", "a", "80:80", ":80"] {
        for h in ["a", "a.b", "localhost", "LOCALHOST.", "127.0.0.1", "8.8.8.8", "8.8.8.8.", "a.", "", "[::1]", "[2001:4860::8888]", "::1", "[::]"] {
            v.push(format!("{h}:{p}"));
        }
    }
    v
}

const HOSTS: &[&str] = &[
    "localhost", "LocalHost", "localhosts", "alocalhost", "xn--localhost", "localhost.localdomain", "local", "a", "a.b", "A.B", "a.b.c", "a-b.c", "-a.b", "a-.b", "a_b.c", "a--b.c", "ab--c.d", "abc--d.e", "xn--fiq228c.com", "XN--FIQ228C.com", "xn--.com", "xn--a.com", "xn--fiq", "中文.com", "中文", "ａ.com", "ﬁ.com", "ß.de", "faß.de", "é.fr", "İ.tr", "\u{3002}", "a\u{3002}b", "中文。com", "\u{200d}a.b", "a\u{ad}b.c", "\u{301}a.b", "א.com", "1א.com", "☃.net", "𝕒.com", "localho\u{ff53}t", "ｌocalhost", "127.0.0.1", "127.0.0.1.", "127.0.0.01", "127.0.1", "127.1", "2130706433", "0x7f.0.0.1", "256.0.0.1", "1.2.3.4.5", "1.2.3", "8.8.8.8", "10.0.0.1", "192.168.1.1", "172.16.0.1", "172.32.0.1", "169.254.1.1", "255.255.255.255", "0.0.0.0", "0.0.0.1", "192.0.2.1", "198.51.100.1", "203.0.113.1", "１２７.0.0.1", "127。0．0｡1", "１.1.1.1", "①.1.1.1", "1.1.1.1。", "x.y。", "ｌｏｃａｌｈｏｓｔ。", "٣.1.1.1", "１９２.168.0.1。", "::", "::1", "::2", "fe80::1", "fec0::1", "fc00::1", "fd00::1", "ff02::1", "ff0e::1", "2001:db8::1", "2001:db9::1", "::ffff:127.0.0.1", "::ffff:8.8.8.8", "::127.0.0.1", "2001:4860:4860::8888", "1:2:3:4:5:6:7:8", "1:2:3:4:5:6:7::", "::2:3:4:5:6:7:8", "1::3:4:5:6:7:8", "1:2:3:4::5:6:7:8", "1:2:3:4:5:6:1.2.3.4", "::1.2.3.4", "1::1.2.3.4:5", ":::", "1:::2", "::1::", "12345::", "::g", "::1%eth0", "0:0:0:0:0:0:0:0", "00000::",
];

fn wrap_all() -> Vec<String> {
    let mut v = vec![];
    for h in HOSTS {
        for pre in ["", "[", " ", "a.", ".", "[[", "x:", "IPv6:", "[IPv6:"] {
            for post in ["", "]", ".", " ", "]:80", ":80", "]80", "]]", "/", ".:80", "]:", "]:+1", "]:65536", ":", "\0", "]:080"] {
                v.push(format!("{pre}{h}{post}"));
            }
        }
    }
    v
}

fn dom_spaces(run: &Run) -> Vec<Space> {
    vec![
        Space::chars("single characters", &["", "a", "a.", "1", "1.1.1.", "a:"], "a1-.:A_ é", run.pick(4, 6)),
        Space::new(
            "domain tokens",
            &[""],
            &["a", "B", "0", "9", ".", "-", ":", "localhost", "127", "255", "256", "xn--", "80", "65536", "中", "[", "]", "+", " ", "\0", "_", "é", "。"],
            run.pick(4, 5),
        ),
        Space::new("dotted quads", &[""], &["0.", "1.", "01.", "10.", "127.", "192.", "255.", "256.", "8", "1", "x"], run.pick(5, 6)),
    ]
}
fn host_spaces(run: &Run) -> Vec<Space> {
    vec![
        Space::chars("IPv6 characters", &["", "[", "[::", "::", "1:2:3:4:5:6:", "[1:2:3:4:5:6:7"], "1f:.[]g", run.pick(5, 7)),
        Space::new(
            "host tokens",
            &["", "[", "[::1]"],
            &["a", "0", ".", "-", ":", "::", "localhost", "127.0.0.1", "8.8.8.8", "255", "256", "80", "65536", "[", "]", "+", "fe80", "ffff", "1.", "%"],
            run.pick(5, 5),
        ),
    ]
}

fn c01(run: &mut Run) {
    let cfgs = domain_types::domain_cfgs();
    run.cases("domain edges", &domain_edges(), |s, c| compare(&cfgs, s, Look::Parts, c));
    run.cases("hosts in context", &wrap_all(), |s, c| compare(&cfgs, s, Look::Parts, c));
    for sp in dom_spaces(run) {
        run.explore(&sp, |s, c| compare(&cfgs, s, Look::Parts, c));
    }
    every_char(run, &cfgs, Look::Parts, &[("", ""), ("", ".b"), ("a", "c"), ("a.b", ""), ("a:", ""), ("a:8", ""), ("1.1.1.", "")]);
    run.scalars("domains", &["a.local:80", "127.0.0.1", "a-b.c."], run.pick(0x1000, 0x110000), |s, c| compare(&cfgs, s, Look::Parts, c));
    run.require("Domain accept", 1000);
    run.require("Domain reject LocalMust", 100);
}

/// Every Unicode scalar value in context.
fn every_char(run: &mut Run, cfgs: &[Cfg], look: Look, ctxs: &[(&str, &str)]) {
    let lim = run.pick(0x3100u32, 0x110000);
    let blocks: Vec<u32> = (0..lim.div_ceil(256)).chain(if run.thorough { 0..0 } else { 0xff00 / 256..0x10000 / 256 }).collect();
    run.cases("every scalar value in context", &blocks, |b, c| {
        for x in b * 256..b * 256 + 256 {
            let Some(ch) = char::from_u32(x) else { continue };
            for (pre, post) in ctxs {
                compare(cfgs, &format!("{pre}{ch}{post}"), look, c);
            }
        }
    });
}

fn c02(run: &mut Run) {
    let cfgs = host_types::host_cfgs();
    let l = Look::Parts;
    run.cases("domain edges", &domain_edges(), |s, c| compare(&cfgs, s, l, c));
    run.cases("hosts in context", &wrap_all(), |s, c| compare(&cfgs, s, l, c));
    for sp in dom_spaces(run).into_iter().chain(host_spaces(run)) {
        run.explore(&sp, |s, c| compare(&cfgs, s, l, c));
    }
    every_char(run, &cfgs, l, &[("", ""), ("a", "c"), ("a.b", ""), ("[::", "]"), ("[::1]", ""), ("[::1]:", ""), ("a:8", "")]);
    run.scalars("hosts", &["a.local:80", "[::1]:80", "10.0.0.1"], run.pick(0x1000, 0x110000), |s, c| compare(&cfgs, s, l, c));
    run.require("Host accept", 1000);
}

fn c03(run: &mut Run) {
    let cfgs = ip_types::ip_cfgs();
    let l = Look::Parts;
    run.cases("domain edges", &domain_edges(), |s, c| compare(&cfgs, s, l, c));
    run.cases("hosts in context", &wrap_all(), |s, c| compare(&cfgs, s, l, c));
    for sp in host_spaces(run) {
        run.explore(&sp, |s, c| compare(&cfgs, s, l, c));
    }
    run.explore(&Space::new("dotted quads with ports", &[""], &["0.", "1.", "01.", "10.", "255.", "256.", "8", "1", ":", "+", "65535", "65536"], run.pick(6, 7)), |s, c| compare(&cfgs, s, l, c));
    run.explore(&Space::new("IPv6 groups", &["", "["], &["0", "ffff", "12345", ":", "::", "1.2.3.4", "]", "]:", "]:80", "g"], run.pick(5, 7)), |s, c| compare(&cfgs, s, l, c));
    every_char(run, &cfgs, l, &[("", ""), ("1.1.1.", ""), ("1.1.1.1:", ""), ("[::", "]"), ("[::1]", ""), ("[::1]:", ""), ("::", "")]);
    run.scalars("addresses", &["[::1]:80", "10.0.0.1:8", "fe80::1.2.3.4"], run.pick(0x3100, 0x110000), |s, c| compare(&cfgs, s, l, c));
    run.require("Ip accept", 500);
    run.require("Ipv6 accept", 500);
}

fn c04(run: &mut Run) {
    let l = Look::Text;
    let (d, h, i) = (domain_types::domain_cfgs(), host_types::host_cfgs(), ip_types::ip_cfgs());
    let f = |s: &str, c: &mut Ctx| {
        compare(&d, s, l, c);
        compare(&h, s, l, c);
        compare(&i, s, l, c);
    };
    run.cases("domain edges", &domain_edges(), |s, c| f(s, c));
    run.cases("hosts in context", &wrap_all(), |s, c| f(s, c));
    for sp in dom_spaces(run).into_iter().chain(host_spaces(run)) {
        let sp = Space { depth: sp.depth.min(run.pick(4, 6)), ..sp };
        run.explore(&sp, f);
    }
    let ports: Vec<u16> = (0..=65535).collect();
    run.cases("every port", &ports, |p, c| {
        for h in ["a.b", "a.b.", "1.2.3.4", "[::1]"] {
            f(&format!("{h}:{p}"), c)
        }
    });
    run.require("Domain accept", 1000);
    run.require("Host accept", 1000);
    run.require("Ip accept", 500);
}

// ------------------------------------------------------------------ email

/// Local parts and comments whose lengths straddle the limits.
fn email_edges() -> Vec<String> {
    let mut v = vec![];
    let units = ["a", ".", "é", "中", "\\a", "\\(", "\\\"", " ", "\t", "\\ ", "\\\\", "a.", "\\é"];
    for q in [false, true] {
        for pre in ["", "(", "(c", "(cc"] {
            for clen in [0usize, 1, 57, 58, 59, 60, 61, 62, 63, 64, 65] {
                if pre.is_empty() && clen > 0 {
                    continue;
                }
                let c1 = if pre.is_empty() { String::new() } else { format!("({})", rep("x", clen)) };
                for u in units {
                    // fill up to around 64 bytes
                    for target in [1usize, 2, 3, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 126, 127, 128, 129] {
                        let used = c1.len() + if q { 2 } else { 0 };
                        if target <= used {
                            continue;
                        }
                        for lead in ["", "a", "."] {
                            let room = (target - used).saturating_sub(lead.len());
                            let body = format!("{lead}{}", rep(u, room / u.len()));
                            for pad in ["", "b", "bb", "é", "."] {
                                let body = format!("{body}{pad}");
                                let l = if q { format!("\"{body}\"") } else { body };
                                for tail in ["@x.y", "(z)@x.y", "()@x.y", "("] {
                                    v.push(format!("{c1}{l}{tail}"));
                                }
                            }
                        }
                    }
                }
                if pre != "(" && !pre.is_empty() {
                    break;
                }
            }
        }
    }
    // comment 2 and domain limits
    for n in 0..70usize {
        v.push(format!("a({})@x.y", rep("z", n)));
        v.push(format!("\"a\"({})@x.y", rep("z", n)));
        v.push(format!("{}(z)@x.y", rep("a", n)));
        v.push(format!("({})a@x.y", rep("z", n)));
        v.push(format!("({})\"a b\"@x.y", rep("z", n)));
        v.push(format!("({})\"a\"(q)@x.y", rep("z", n)));
        v.push(format!("({})é@x.y", rep("é", n)));
        v.push(format!("({})é(é)@x.y", rep("é", n)));
        v.push(format!("a({})@x.y", rep("é", n)));
    }
    // the same limits one turn of a small counter later
    for turn in [256usize, 65536] {
        for n in [0usize, 1, 2, 60, 62, 63, 64, 65, 100, 245, 250, 251, 252, 253, 254, 255] {
            let n = turn + n;
            for s in [format!("{}@x.y", rep("a", n)), format!("\"{}\"@x.y", rep("a", n)), format!("\"{}\"@x.y", rep("\\ ", n)), format!("\"{}\"@x.y", rep("a ", n / 2)), format!("a({})@x.y", rep("z", n)), format!("({})a@x.y", rep("z", n)), format!("({})\"a b\"@x.y", rep("z", n)), format!("a@({})x.y", rep("z", n)), format!("a@x.y({})", rep("z", n)), format!("a@x.y({})", rep("é", n)), format!("a@[1.2.3.4]({})", rep("z", n)), format!("a@({})[IPv6:::1]", rep("z", n)), format!("{}@x.y", rep("é", n)), format!("{}@x.y", rep("a.", n / 2))] {
                v.push(s);
            }
        }
    }
    for n in 200..260usize {
        for lp in ["a", "\"a b\"", "\"a\"", "(c)a(d)"] {
            v.push(format!("{lp}@({})x.y", rep("z", n)));
            v.push(format!("{lp}@x.y({})", rep("z", n)));
            v.push(format!("{lp}@中文.com({})", rep("z", n)));
            v.push(format!("{lp}@({})中文.com", rep("z", n)));
            v.push(format!("{lp}@({})[IPv6:1:0:0:0:0:0:0:1]", rep("z", n)));
            v.push(format!("{lp}@({})[IPv6:::1.2.3.4]", rep("z", n)));
            v.push(format!("{lp}@[IPv6:::ffff:102:304]({})", rep("z", n)));
            v.push(format!("{lp}@[1.2.3.4]({})", rep("z", n)));
            let mut d = String::new();
            while d.len() + 64 <= n - 1 {
                d.push_str(&rep("b", 63));
                d.push('.');
            }
            d.push_str(&rep("c", n - d.len()));
            v.push(format!("{lp}@{d}"));
            v.push(format!("{}@{d}", rep("l", 64)));
            v.push(format!("{}@{d}", rep("l", 63)));
        }
    }
    v
}
fn email_wrap() -> Vec<String> {
    let mut v = vec![];
    let locals = ["a", "a.b", "\"a\"", "\"a b\"", "\"a.\"", "\".a\"", "\"a..b\"", "é", "\"é\"", "(c)a", "a(c)", "(c)\"a b\"(d)", "\"\\\"\"", "\"\\\\\"", "\"a@b\"", "\"a\\@b\"", "\"a\\ \"", ".a", "a.", "a..b", "", "\"\"", "\"", "a b", "(c)", "()a()", "((a)b", "(a))b"];
    for l in locals {
        for h in HOSTS {
            for (pre, post) in [("", ""), ("", "."), ("(c)", ""), ("", "(c)"), ("(c)", "(d)"), ("[", "]"), ("[IPv6:", "]"), ("[ipv6:", "]"), ("(c)[", "](d)"), ("(c)[IPv6:", "](d)"), ("", "(c)x"), ("", "()"), ("()", "()"), ("", "("), ("(", ""), ("[", ""), ("[", "]x"), ("", "@b"), ("", ":80"), (" ", ""), ("", " ")] {
                v.push(format!("{l}@{pre}{h}{post}"));
            }
        }
    }
    v
}

fn c05(run: &mut Run, look: Look) {
    let cfgs = email_types::email_cfgs();
    // every setting matters for the whole address; the local part only meets comment and non_ascii
    let small: Vec<Cfg> = email_types::email_cfgs().into_iter().filter(|c| c.local == Tri::Allow && c.two == Tri::Allow && c.ip == Tri::Allow).collect();
    let nasty: Vec<Cfg> = email_types::email_cfgs().into_iter().filter(|c| (c.ip, c.local, c.two) == (Tri::Disallow, Tri::Disallow, Tri::Must) || (c.ip, c.local, c.two) == (Tri::Must, Tri::Allow, Tri::Must) || (c.ip == Tri::Allow && c.local == Tri::Allow)).collect();
    run.cases("positions around the limits", &email_edges(), |s, c| compare(&small, s, look, c));
    run.cases("locals x hosts", &email_wrap(), |s, c| compare(&cfgs, s, look, c));
    run.explore(
        &Space::new("address tokens", &["", "a@", "(c)a(d)@(e)x.y", "a@[IPv6:"], &["a", ".", "@", "\"", "(", ")", "\\", " ", "é", "x.y", "localhost", "[127.0.0.1]", "[IPv6:", "::1", "]"], run.pick(5, 5)),
        |s, c| compare(&cfgs, s, look, c),
    );
    // the scanner: every word over its character classes, as a quoted and an unquoted local part
    let classes = "a.\\\" (@é\u{1}[\t";
    run.explore(&Space::chars("local part words", &["", "\"", "(c)", "(c)\""], classes, run.pick(5, 7)), |w, c| {
        for tail in ["@x.y", "\"@x.y", "(d)@x.y", "\"(d)@x.y"] {
            compare(&small, &format!("{w}{tail}"), look, c);
        }
    });
    // the same words at the end of a long local part
    let roots: Vec<String> = (57..=63).flat_map(|n| [rep("a", n), format!("\"{}", rep("a", n - 1)), format!("({})", rep("c", n - 2)), format!("({})\"", rep("c", n - 3))]).collect();
    let roots: Vec<&str> = roots.iter().map(|s| s.as_str()).collect();
    run.explore(&Space::chars("local part words at the limit", &roots, "a.\\\"(é ", run.pick(5, 6)), |w, c| {
        for tail in ["@x.y", "\"@x.y", "(d)@x.y", "\"()@x.y"] {
            compare(&small, &format!("{w}{tail}"), look, c);
        }
    });
    // domain part words
    run.explore(&Space::chars("domain part words", &["a@", "\"a b\"@", "a@x.y", "a@[1.1.1.1", "a@[1.1.1.1](", "a@(c)"], "x.(-)[]1:é", run.pick(5, 6)), |w, c| compare(&nasty, w, look, c));
    run.scalars("email addresses", &["a@b.c", "\"a\"@[1.1.1.1]", "(c)a@x.y", "a.b@[IPv6:::1]"], run.pick(0x3100, 0x110000), |s, c| compare(&small, s, look, c));
    every_char(run, &small, look, &[("", "@x.y"), ("a", "@x.y"), ("\"", "\"@x.y"), ("\"a", "\"@x.y"), ("\"\\", "\"@x.y"), ("a@", ""), ("a@x", ".y"), ("(", ")a@x.y"), ("a@x.y(", ")"), ("a@x.y", "")]);
    run.require("Email accept", 1000);
    run.require("Email reject CommentDisallow", 100);
}

// ------------------------------------------------------------------ URLs

fn c07(run: &mut Run, look: Look) {
    let cfgs = url_types::url_cfgs();
    let mut v = vec![];
    for sch in ["http", "https", "ftp", "HTTP", "hTTpS", "FTP", "httpx", "xhttp", "htt", "file", "ws", "ftps", "", " http", "http ", "h\ttp", "\nhttp"] {
        for sep in ["://", ":", ":/", ":///", ":\\\\", "//", "", ": //", ":////"] {
            for user in ["", "u@", "u:p@", "localhost@", "@"] {
                for h in HOSTS {
                    for (a, b) in [("", ""), ("[", "]")] {
                        v.push(format!("{sch}{sep}{user}{a}{h}{b}/"));
                    }
                }
            }
        }
    }
    for h in HOSTS {
        for (a, b) in [("", ""), ("[", "]")] {
            for tail in ["", ":", ":80", ":443", ":21", ":65535", ":65536", "/p", "?q", "#f", "/../a", " ", "%31", ".", "..", "\\x", ":80x"] {
                for sch in ["http", "https", "ftp"] {
                    v.push(format!("{sch}://{a}{h}{b}{tail}"));
                }
            }
        }
    }
    run.cases("schemes x users x hosts", &v, |s, c| compare(&cfgs, s, look, c));
    run.explore(
        &Space::new("URL tokens", &[""], &["http", "https", "ftp", "HtTp", ":", "/", "//", "localhost", "127.0.0.1", "a.b", "[::1]", "@", "?", "#", " ", "\t", "%6c", ".", "é", "s"], run.pick(5, 6)),
        |s, c| compare(&cfgs, s, look, c),
    );
    run.explore(
        &Space::new("hosts after http://", &["http://", "HTTPS://u@", "ftp:"], &["localhost", "LOCALHOST", "127", "0x7f", ".", "0", "1", "[", "]", "::", ":", "ffff", "%6C", "ocalhost", "/"], run.pick(5, 5)),
        |s, c| compare(&cfgs, s, look, c),
    );
    run.scalars("URLs", &["https://a.b/", "ftp://[::1]:8/", "HTTP:localhost"], run.pick(0x3100, 0x110000), |s, c| compare(&cfgs, s, look, c));
    every_char(run, &cfgs, look, &[("", "http://a"), ("http", "://a"), ("http:", "a"), ("http://", ""), ("http://localhost", ""), ("htt", "://a"), ("https://a/", "")]);
    run.require("HttpUrl accept", 1000);
    run.require("HttpFtpUrl accept", 1000);
    run.require("HttpUrl reject LocalDisallow", 100);
}

// ------------------------------------------------------------------ locality

/// Addresses at and around every block boundary, and single-bit neighbours.
fn addrs() -> (Vec<u32>, Vec<u128>) {
    let mut a = std::collections::BTreeSet::new();
    for (n, b) in V4_BLOCKS {
        let n = u32::from_be_bytes(n);
        let last = n | (((1u64 << (32 - b)) - 1) as u32);
        for x in [n, n.wrapping_add(1), n.wrapping_sub(1), last, last.wrapping_add(1), last.wrapping_sub(1)] {
            a.insert(x);
            for bit in 0..32 {
                a.insert(x ^ (1 << bit));
            }
        }
    }
    for hi in 0..=255u32 {
        for lo in [0, 1, 0x00ff_ffff, 0x0010_0000, 0x00a8_0000, 0x00fe_0000] {
            a.insert(hi << 24 | lo);
        }
    }
    for second in 0..=255u32 {
        for first in [10, 100, 127, 169, 172, 192, 198, 203, 224, 240, 255u32] {
            a.insert(first << 24 | second << 16);
            a.insert(first << 24 | second << 16 | 0xffff);
        }
    }
    for third in 0..=255u32 {
        for fs in [[192, 0], [198, 51], [203, 0], [192, 168], [198, 18], [192, 88], [169, 254u32]] {
            a.insert(fs[0] << 24 | fs[1] << 16 | third << 8 | 7);
        }
    }
    let mut s = std::collections::BTreeSet::new();
    for (n, b) in V6_BLOCKS {
        let mask = if b == 128 { 0 } else { u128::MAX >> b };
        let last = n | mask;
        for x in [n, n.wrapping_add(1), n.wrapping_sub(1), last, last.wrapping_add(1), last.wrapping_sub(1)] {
            s.insert(x);
            for bit in 0..128 {
                s.insert(x ^ (1u128 << bit));
            }
        }
    }
    for first in 0..=0xffffu128 {
        s.insert(first << 112);
        s.insert(first << 112 | 1);
        s.insert(first << 112 | 0x0db8 << 96 | 5);
    }
    for second in 0..=0xffffu128 {
        if second % 7 == 0 || (0xd00..0xe00).contains(&second) {
            s.insert(0x2001u128 << 112 | second << 96 | 9);
        }
    }
    for v in &a {
        s.insert(*v as u128);
        s.insert(0xffffu128 << 32 | *v as u128);
    }
    // near misses of the embedded forms
    for g in [1u128, 0xfffe, 0xffff_0000, 0xffff, 0x64_ff9b << 64, 0x2002 << 80] {
        for v in [0x7f000001u128, 0x08080808, 0x0a000001] {
            s.insert(g << 32 | v);
            s.insert((g << 32 | v) | 1 << 64);
            s.insert((g << 32 | v) | 1 << 127);
        }
    }
    (a.into_iter().collect(), s.into_iter().collect())
}

fn c24(run: &mut Run) {
    let loc = |c: &Cfg| c.local != Tri::Allow || c.has_is_local;
    let d: Vec<Cfg> = domain_types::domain_cfgs().into_iter().filter(loc).collect();
    let h: Vec<Cfg> = host_types::host_cfgs().into_iter().filter(loc).collect();
    let i: Vec<Cfg> = ip_types::ip_cfgs().into_iter().filter(|c| c.local != Tri::Allow).collect();
    let e: Vec<Cfg> = email_types::email_cfgs().into_iter().filter(|c| loc(c) && !c.comment && c.non_ascii).collect();
    let u: Vec<Cfg> = url_types::url_cfgs().into_iter().filter(|c| c.local != Tri::Allow).collect();
    let (v4, v6) = addrs();
    let l = Look::Parts;
    let v4t: Vec<u32> = if run.thorough { (0..1u32 << 16).map(|x| x << 16 | (x.wrapping_mul(40503) & 0xffff)).chain((0..1 << 16).map(|x: u32| (x >> 8) << 24 | 0xa80000 | (x & 255) << 8)).chain(v4.iter().copied()).collect() } else { v4 };
    run.cases("IPv4 block boundaries", &v4t, |v, c| {
        let a = std::net::Ipv4Addr::from(*v);
        let want = local_v4(*v);
        c.same("functions::is_local_ipv4", &a.to_string(), "is_local_ipv4", &want, &validators::functions::is_local_ipv4(a));
        c.same("functions::is_local_ip", &a.to_string(), "is_local_ip", &want, &validators::functions::is_local_ip(a.into()));
        compare(&d, &a.to_string(), l, c);
        compare(&d, &format!("{a}.:80"), l, c);
        compare(&h, &a.to_string(), l, c);
        compare(&h, &format!("{a}:80"), l, c);
        compare(&i, &a.to_string(), l, c);
        compare(&i, &format!("{a}:80"), l, c);
        compare(&e, &format!("a@[{a}]"), l, c);
        compare(&u, &format!("http://{a}/"), l, c);
        compare(&u, &format!("ftp://{a}/"), l, c);
    });
    run.cases("IPv6 block boundaries", &v6, |v, c| {
        let a = std::net::Ipv6Addr::from(*v);
        let want = local_v6(*v);
        c.same("functions::is_local_ipv6", &a.to_string(), "is_local_ipv6", &want, &validators::functions::is_local_ipv6(a));
        c.same("functions::is_local_ip", &a.to_string(), "is_local_ip", &want, &validators::functions::is_local_ip(a.into()));
        if *v % 3 != 0 && v.trailing_zeros() > 100 {
            return;
        }
        compare(&h, &format!("[{a}]"), l, c);
        compare(&h, &a.to_string(), l, c);
        compare(&h, &format!("[{a}]:80"), l, c);
        compare(&i, &format!("[{a}]"), l, c);
        compare(&i, &a.to_string(), l, c);
        compare(&i, &format!("[{a}]:80"), l, c);
        compare(&e, &format!("a@[IPv6:{a}]"), l, c);
        compare(&u, &format!("http://[{a}]/"), l, c);
        compare(&u, &format!("ftp://[{a}]/"), l, c);
    });
    let mut names = vec![];
    for m in 0..512u32 {
        let s: String = "localhost".char_indices().map(|(i, ch)| if m >> i & 1 == 1 { ch.to_ascii_uppercase() } else { ch }).collect();
        for t in ["", ".", "..", ".x", "x"] {
            names.push(format!("{s}{t}"));
        }
    }
    for i in 0..9 {
        for x in ["", "a", "o", "-", ".", "ſ", "0", "\u{ff4c}"] {
            for end in [i, i + 1] {
                let s = format!("{}{x}{}", &"localhost"[..i], &"localhost"[end..]);
                names.push(format!("{s}."));
                names.push(s);
            }
        }
    }
    names.push("xlocalhost".into());
    names.push("localhost6".into());
    names.push("ip6-localhost".into());
    names.push("a.localhost".into());
    run.cases("localhost spellings", &names, |s, c| {
        c.same("functions::is_local_domain", s, "is_local_domain", &local_domain(s), &validators::functions::is_local_domain(s));
        c.same("functions::is_at_least_two_labels_domain", s, "is_at_least_two_labels_domain", &two_labels(s), &validators::functions::is_at_least_two_labels_domain(s));
        compare(&d, s, l, c);
        compare(&d, &format!("{s}:1"), l, c);
        compare(&h, s, l, c);
        compare(&e, &format!("a@{s}"), l, c);
        compare(&u, &format!("http://{s}/"), l, c);
        compare(&u, &format!("ftp://{s}"), l, c);
    });
    run.require("reject LocalMust", 100);
    run.require("reject LocalDisallow", 100);
}

fn c29(run: &mut Run) {
    let l = Look::Errors;
    let (d, h, i, e, u) = (domain_types::domain_cfgs(), host_types::host_cfgs(), ip_types::ip_cfgs(), email_types::email_cfgs(), url_types::url_cfgs());
    let f = |s: &str, c: &mut Ctx| {
        compare(&d, s, l, c);
        compare(&h, s, l, c);
        compare(&i, s, l, c);
        compare(&u, s, l, c);
    };
    run.cases("domain edges", &domain_edges(), |s, c| f(s, c));
    run.cases("hosts in context", &wrap_all(), |s, c| f(s, c));
    let mut v = vec![];
    for h in HOSTS {
        for sch in ["http", "https", "ftp", "x"] {
            v.push(format!("{sch}://{h}/"));
            v.push(format!("{sch}://[{h}]/"));
        }
    }
    run.cases("URLs", &v, |s, c| compare(&u, s, l, c));
    run.cases("emails", &email_wrap(), |s, c| compare(&e, s, l, c));
    for sp in host_spaces(run).into_iter().chain(dom_spaces(run)) {
        let sp = Space { depth: sp.depth.min(run.pick(4, 5)), ..sp };
        run.explore(&sp, f);
    }
    for n in ["IPv4Must", "IPv4Disallow", "LocalMust", "LocalDisallow", "PortMust", "PortDisallow", "AtLeastTwoLabelsMust", "AtLeastTwoLabelsDisallow", "CommentDisallow", "IPMust", "IPDisallow", "ProtocolError"] {
        run.require(n, 20);
    }
}

fn main() {
    let id = std::env::args().nth(1).expect("property id");
    Run::main(&id, |run| {
        run.assumptions = vec![
            "internationalised (non-ASCII or xn--) names: the idna crate's UTS 46 implementation is the reference".into(),
            "URLs: the url crate's parser is the reference".into(),
            "inputs are limited to the alphabets, depths and families listed under coverage.spaces".into(),
        ];
        match id.as_str() {
            "C01" => c01(run),
            "C02" => c02(run),
            "C03" => c03(run),
            "C04" => c04(run),
            "C05" => c05(run, Look::Parts),
            "C06" => c05(run, Look::Text),
            "C07" => c07(run, Look::Full),
            "C24" => c24(run),
            "C29" => c29(run),
            _ => panic!("unknown property"),
        }
    })
}
