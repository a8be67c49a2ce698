//! The attribute language of the derive, as documented: validators, their parameters, what each
//! parameter may be, its default, and the struct each setting needs.
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum K {
    Tri,
    Allow(&'static str),
    Case,
    Sep(&'static str),
    /// a range option of an integer type
    Int(&'static str),
    /// a range option of a float type
    Float,
    /// a bare range of u128
    Size,
    Len,
    Usize,
    Bool(&'static str),
    Regex,
    Countries,
    Serde,
    Rocket,
}
use K::*;

pub const INTS: [&str; 12] = ["i8", "i16", "i32", "i64", "i128", "isize", "u8", "u16", "u32", "u64", "u128", "usize"];
pub const VALIDATORS: [&str; 31] = [
    "base32", "base32_decoded", "base64", "base64_decoded", "base64_url", "base64_url_decoded", "bit", "boolean", "byte", "domain", "email", "host",
    "http_url", "http_ftp_url", "ip", "ipv4", "ipv6", "json", "length", "line", "mac_address", "number", "phone", "regex", "semver", "semver_req",
    "signed_integer", "text", "unsigned_integer", "url", "uuid",
];

/// The type of the value for the validators which leave a choice.
pub fn types(v: &str) -> Vec<&'static str> {
    match v {
        "signed_integer" => INTS[..6].to_vec(),
        "unsigned_integer" => INTS[6..].to_vec(),
        "number" => vec!["f64", "f32"],
        _ => vec![""],
    }
}

pub fn params(v: &str, ty: &'static str) -> Vec<(&'static str, K)> {
    let mut p = match v {
        "base32" | "base32_decoded" | "base64" | "base64_decoded" | "base64_url" | "base64_url_decoded" => vec![("padding", Tri)],
        "bit" => vec![("range", Size)],
        "byte" => vec![("range", Size), ("ignore_case", Bool("true"))],
        "domain" => vec![("ipv4", Tri), ("local", Tri), ("port", Tri), ("at_least_two_labels", Tri), ("conflict", Allow("Disallow"))],
        "email" => vec![("comment", Allow("Allow")), ("ip", Tri), ("local", Tri), ("at_least_two_labels", Tri), ("non_ascii", Allow("Allow")), ("conflict", Allow("Disallow"))],
        "host" => vec![("local", Tri), ("port", Tri), ("at_least_two_labels", Tri)],
        "http_url" | "http_ftp_url" => vec![("local", Tri)],
        "ip" | "ipv4" | "ipv6" => vec![("local", Tri), ("port", Tri)],
        "length" => vec![("min", Usize), ("max", Usize)],
        "line" | "text" => vec![("char_length", Len), ("byte_length", Len)],
        "mac_address" => vec![("case", Case), ("separator", Sep("Allow ':'"))],
        "uuid" => vec![("case", Case), ("separator", Sep("Allow '-'"))],
        "number" => vec![("range", Float), ("nan", Tri), ("conflict", Allow("Disallow"))],
        "signed_integer" | "unsigned_integer" => vec![("range", Int(ty))],
        "phone" => vec![("countries", Countries)],
        "regex" => vec![("regex", Regex)],
        "boolean" | "json" | "semver" | "semver_req" | "url" => vec![],
        _ => unreachable!("{v}"),
    };
    p.push(("serde", Serde));
    if v != "length" {
        p.push(("rocket", Rocket));
    }
    p
}

/// One way to write a parameter; `val` is what it means, None when it must be refused.
#[derive(Clone, Debug, PartialEq)]
pub struct Form {
    pub name: &'static str,
    pub text: String,
    pub val: Option<String>,
}

fn tri(name: &'static str, vals: &[&str], out: &mut Vec<(String, Option<String>)>) {
    for v in vals {
        out.push((format!("{name} = {v}"), Some(v.to_string())));
        out.push((format!("{name}({v})"), Some(v.to_string())));
    }
    for bad in ["", "()", " = Maybe", "(Maybe)", " = \"W\"", "(\"W\")", " = true", "(true)", " = 1", "(1)", "(W, V)", "(W = true)", "(W(V))", " = -W", " = LOWER", "(LOWER)", "(= W)", "[1, 2]"] {
        let (w, v) = (vals[0], vals[1]);
        out.push((format!("{name}{}", bad.replace("LOWER", &w.to_lowercase()).replace('W', w).replace('V', v)), None));
    }
}
/// (limits which may be written, smaller first; one above the type; one below the type; malformed ones)
fn numbers(k: K) -> (Vec<String>, Vec<String>, Vec<String>) {
    let bad = ["\"1\"", "true", "'1'", "b'1'", "x", "1 + 1", "A", "[1]"].map(str::to_string).to_vec();
    match k {
        Float => (vec!["-2.5".into(), "0".into(), "0.5".into(), "3".into()], vec![], bad),
        Size => (vec!["0".into(), "1".into(), "8000".into(), u128::MAX.to_string()], vec!["-1".into(), "1.5".into(), "340282366920938463463374607431768211456".into()], bad),
        Int(t) => {
            let signed = t.starts_with('i');
            let bits = t[1..].parse::<u32>().unwrap_or(64);
            let (lo, hi) = if signed { (i128::MIN >> (128 - bits), (i128::MAX >> (128 - bits)) as u128) } else { (0, u128::MAX >> (128 - bits)) };
            let above = if hi == u128::MAX { "340282366920938463463374607431768211456".to_string() } else { (hi + 1).to_string() };
            let below = if signed { if lo == i128::MIN { "-170141183460469231731687303715884105729".to_string() } else { (lo - 1).to_string() } } else { "-1".to_string() };
            let good = if signed { vec![lo.to_string(), "-5".into(), "3".into(), hi.to_string()] } else { vec!["0".into(), "3".into(), "5".into(), hi.to_string()] };
            (good, vec![above, below, "1.5".into(), "1.0".into()], bad)
        }
        _ => unreachable!(),
    }
}
/// The limits of a range in every notation: (text between the parentheses, meaning)
fn range(k: K, full: bool) -> Vec<(String, Option<String>)> {
    let (n, outside, malformed) = numbers(k);
    let mean = |a: Option<&String>, b: Option<&String>, inc: bool| Some(format!("{} {} {inc}", a.map_or("-", |s| s), b.map_or("-", |s| s)));
    let mut o: Vec<(String, Option<String>)> = vec![];
    for (i, a) in n.iter().enumerate() {
        let neg = a.starts_with('-');
        o.push((format!("min = {a}"), mean(Some(a), None, true)));
        o.push((format!("max = {a}"), mean(None, Some(a), true)));
        if !neg {
            o.push((format!("min({a})"), mean(Some(a), None, true)));
            o.push((format!("max({a})"), mean(None, Some(a), true)));
        }
        for (inc, text) in [(true, "inclusive = true"), (false, "inclusive = false"), (false, "inclusive(false)")] {
            o.push((format!("max = {a}, {text}"), mean(None, Some(a), inc)));
        }
        for (j, b) in n.iter().enumerate() {
            for (inc, text) in [(true, ""), (true, ", inclusive = true"), (false, ", inclusive = false"), (true, ", inclusive(true)"), (false, ", inclusive(false)")] {
                let m = if i < j || (i == j && inc) { mean(Some(a), Some(b), inc) } else { None };
                o.push((format!("min = {a}, max = {b}{text}"), m.clone()));
                if inc == text.is_empty() {
                    o.push((format!("max = {b}{text}, min = {a}"), m.clone()));
                }
                if !text.is_empty() {
                    o.push((format!("{}, min = {a}, max = {b}", &text[2..]), m.clone()));
                }
            }
            if full && !neg && !b.starts_with('-') {
                o.push((format!("{a}..={b}"), if i <= j { mean(Some(a), Some(b), true) } else { None }));
                o.push((format!("{a}..{b}"), if i < j { mean(Some(a), Some(b), false) } else { None }));
            }
        }
        if full && !neg {
            o.push((format!("{a}.."), mean(Some(a), None, true)));
            o.push((format!("..={a}"), mean(None, Some(a), true)));
            o.push((format!("..{a}"), mean(None, Some(a), false)));
        }
        if !full && !neg {
            o.push((format!("{a}..={a}"), None));
        }
        for p in ["min", "max"] {
            for q in ["min", "max"] {
                o.push((format!("min = {a}, max = {a}, {p} = {a}"), None));
                o.push((format!("{p} = {a}, {q} = {a}, {p} = {a}"), None));
            }
            o.push((format!("{p} = {a}, {p} = {a}"), None));
        }
    }
    let a = n.iter().find(|s| !s.starts_with('-')).unwrap();
    for x in outside.iter().chain(&malformed) {
        for p in ["min", "max"] {
            o.push((format!("{p} = {x}"), None));
            o.push((format!("{p}({x})"), None));
        }
        if full && !x.starts_with('-') {
            o.push((format!("{x}.."), None));
            o.push((format!("..={x}"), None));
        }
    }
    for x in ["min", "max", "inclusive", "min()", "max()", "inclusive()", "inclusive = 1", "inclusive = \"true\"", "inclusive(yes)", "inclusive = maybe", "5", "\"1\"", "A", "mim = A", "Min = A", "minimum = A", "step = A", "trimmed_min = A", "min = A, mox = A", "exclusive = true, min = A", "min A", "min: A", "min = A max = A", "min = A, inclusive = true, inclusive = true", "inclusive = true, min = A, inclusive = false", "min = A, A"] {
        if !(x == "A" && full) {
            o.push((x.replace('A', a), None));
        }
    }
    o
}
fn length(out: &mut Vec<(String, Option<String>)>, name: &str) {
    let big = usize::MAX.to_string();
    let vals = ["0", "2", "5", &big];
    let order = |s: &str| vals.iter().position(|v| *v == s).unwrap();
    let opt: Vec<Option<&str>> = std::iter::once(None).chain(vals.iter().map(|s| Some(*s))).collect();
    for a in &opt {
        for t in &opt {
            for b in &opt {
                let parts: Vec<String> = [("min", a), ("trimmed_min", t), ("max", b)].iter().filter_map(|(n, v)| v.map(|v| format!("{n} = {v}"))).collect();
                if parts.is_empty() {
                    continue;
                }
                let le = |x: &Option<&str>, y: &Option<&str>| match (x, y) {
                    (Some(x), Some(y)) => order(x) <= order(y),
                    _ => true,
                };
                let ok = le(t, a) && le(a, b) && le(t, b);
                let m = ok.then(|| format!("{} {} {}", a.unwrap_or("-"), t.unwrap_or("-"), b.unwrap_or("-")));
                out.push((format!("{name}({})", parts.join(", ")), m.clone()));
                let rev: Vec<String> = parts.iter().rev().cloned().collect();
                if parts.len() > 1 {
                    out.push((format!("{name}({})", rev.join(", ")), m.clone()));
                }
                out.push((format!("{name}({})", parts.iter().map(|p| p.replace(" = ", "(") + ")").collect::<Vec<_>>().join(", ")), m));
            }
        }
    }
    for p in ["min", "trimmed_min", "max"] {
        for x in ["P", "P()", "P = -1", "P = 1.5", "P = \"1\"", "P(\"1\")", "P = true", "P = x", "P(1, 2)", "P = 18446744073709551616", "P(18446744073709551616)", "P = 1, P = 1", "P(1), P = 2", "min = 1, trimmed_min = 1, max = 1, P = 1", "P: 1", "P 1"] {
            out.push((format!("{name}({})", x.replace('P', p)), None));
        }
    }
    for x in ["5", "mim = 1", "Min = 1", "inclusive = true, min = 1", "min = 1, len = 2", "1..=5", "\"1\"", "trimmed_max = 5", "min = 1 max = 2"] {
        out.push((format!("{name}({x})"), None));
    }
    for x in ["", " = 5", " = \"5\"", " = 1..5"] {
        out.push((format!("{name}{x}"), None));
    }
}

/// Every way to write a parameter that the exploration uses.
pub fn forms(v: &str, name: &'static str, k: K, frameworks: bool) -> Vec<Form> {
    let mut o: Vec<(String, Option<String>)> = vec![];
    match k {
        Tri => {
            tri(name, &["Must", "Allow", "Disallow"], &mut o);
            o.push((format!("{name} = Any"), None));
        }
        Allow(_) => {
            tri(name, &["Allow", "Disallow"], &mut o);
            o.push((format!("{name} = Must"), None));
            o.push((format!("{name}(Must)"), None));
        }
        Case => {
            tri(name, &["Any", "Upper", "Lower"], &mut o);
            o.push((format!("{name} = Must"), None));
            o.push((format!("{name}(Allow)"), None));
        }
        Sep(_) => {
            for c in ["-", ":", ".", " ", "_"] {
                for w in ["Must", "Allow"] {
                    o.push((format!("{name}({w}(b'{c}'))"), Some(format!("{w} '{c}'"))));
                    o.push((format!("{name}({w} = b'{c}')"), Some(format!("{w} '{c}'"))));
                }
            }
            o.push((format!("{name}(Disallow)"), Some("Disallow".into())));
            for x in ["", "()", "(Must)", "(Allow)", "(Must())", "(Must('-'))", "(Must(\"-\"))", "(Must(b\"-\"))", "(Must(45))", "(Allow = '-')", "(Allow = \"-\")", "(Allow = 45)", "(Disallow(b'-'))", "(Disallow = b'-')", "(Must(b'-'), Disallow)", "(Disallow, Disallow)", "(Must(b'-', b':'))", "(Maybe(b'-'))", "(must(b'-'))", "(disallow)", "(b'-')", " = b'-'", " = \"-\"", " = '-'", "(true)"] {
                o.push((format!("{name}{x}"), None));
            }
        }
        Int(_) | Float => {
            o.push((format!("{name}(Unlimited)"), Some("Unlimited".into())));
            for w in ["Inside", "Outside"] {
                for (t, m) in range(k, frameworks) {
                    let m = m.map(|m| format!("{w} {m}"));
                    o.push((format!("{name}({w}({t}))"), m.clone()));
                    if t.contains("..") {
                        o.push((format!("{name}({w} = {t})"), m));
                    }
                }
                for x in ["W", "W = 5", "W = \"1\"", "W(min = 1), Unlimited", "W(min = 1), W(max = 5)", "W(min = 1), min = 1"] {
                    o.push((format!("{name}({})", x.replace('W', w)), None));
                }
            }
            for x in ["", "()", "(Unlimited())", "(Unlimited(min = 1))", "(Unlimited = 1)", "(Unlimited, Unlimited)", "(unlimited)", "(Within(min = 1))", "(inside(min = 1))", "(min = 1)", "(min = 1, max = 5)", "(1)", " = 1", " = \"1\""] {
                o.push((format!("{name}{x}"), None));
            }
        }
        Size => {
            for (t, m) in range(k, frameworks) {
                o.push((format!("{name}({t})"), m.clone()));
                if t.contains("..") {
                    o.push((format!("{name} = {t}"), m));
                }
            }
            for x in ["", " = 5", "(Unlimited)", "(Inside(min = 1))", "(Outside(max = 5))", "(Inside)"] {
                o.push((format!("{name}{x}"), None));
            }
        }
        Len => length(&mut o, name),
        Usize => {
            let big = usize::MAX.to_string();
            for x in ["0", "1", "3", &big] {
                o.push((format!("{name} = {x}"), Some(x.into())));
                o.push((format!("{name}({x})"), Some(x.into())));
            }
            for x in ["", "()", " = -1", "(-1)", " = 1.5", "(1.5)", " = \"1\"", "(\"1\")", " = true", " = x", "(1, 2)", " = 18446744073709551616", "(18446744073709551616)", " = 1..5", "(min = 1)", " = '1'", " = b'1'"] {
                o.push((format!("{name}{x}"), None));
            }
        }
        Bool(_) => {
            for b in ["true", "false"] {
                o.push((format!("{name} = {b}"), Some(b.into())));
                o.push((format!("{name}({b})"), Some(b.into())));
            }
            for x in ["", "()", " = 1", "(1)", " = \"true\"", "(\"true\")", " = True", "(Allow)", " = yes", "(true, true)", " = !true", "(= true)"] {
                o.push((format!("{name}{x}"), None));
            }
        }
        Regex => {
            for x in ["\"a+\"", "\"^[0-9]{1,3}$\"", "r\"\\d\"", "r#\"\"\"#", "\"\"", "\"é|(?i)x\"", "\"(?x) a b # c\""] {
                o.push((format!("{name} = {x}"), Some(x.into())));
                o.push((format!("{name}({x})"), Some(x.into())));
            }
            for x in ["RE", "super::RE", "validators::regex::Regex::new(\"a\").unwrap()"] {
                o.push((format!("{name} = {x}"), Some(x.into())));
                o.push((format!("{name}({x})"), Some(x.into())));
            }
            for x in ["\"(\"", "\"[\"", "\"a{5,2}\"", "\"*\"", "\"(?P<n>a)(?P<n>b)\"", "\"a)\"", r#""\\p{Foo}""#, r#""\\1""#, "\"(?=a)\"", "5", "'a'", "b\"a\"", "true", "1.5"] {
                o.push((format!("{name} = {x}"), None));
                o.push((format!("{name}({x})"), None));
            }
            for x in ["", "()", "(\"a\", \"b\")", "(\"a\" \"b\")", " = \"a\" \"b\""] {
                o.push((format!("{name}{x}"), None));
            }
        }
        Countries => {
            for x in ["TW", "US", "TW, US", "US, TW", "TW, US, JP", "JP, US, TW", "GB, GG, IM, JE", "ZW"] {
                o.push((format!("{name}({x})"), Some(x.into())));
            }
            for x in ["", "()", "(XX)", "(TW, XX)", "(XX, TW)", "(TW, TW)", "(TW, US, TW)", "(US, TW, TW)", "(TW, US, JP, US)", "(\"TW\")", "(Taiwan)", "(TWN)", "(886)", "(TW US)", "(TW = US)", "(TW(US))", "(,)", "(TW,, US)", " = 886", " = \"TW\"", "(Id::TW)"] {
                o.push((format!("{name}{x}"), None));
            }
        }
        Serde | Rocket => {
            let (a, b) = if k == Serde { ("Serialize", "Deserialize") } else { ("FromFormField", "FromParam") };
            let (c, d) = if k == Rocket { ("Serialize", "Deserialize") } else { ("FromFormField", "FromParam") };
            o.push((format!("{name} = false"), Some("no no".into())));
            for (t, m) in [(name.to_string(), "yes yes"), (format!("{name} = true"), "yes yes"), (format!("{name}({a})"), "yes no"), (format!("{name}({b})"), "no yes"), (format!("{name}({a}, {b})"), "yes yes"), (format!("{name}({b}, {a})"), "yes yes")] {
                o.push((t, frameworks.then(|| m.into())));
            }
            for x in ["()", " = 1", " = \"true\"", " = A", "(A, A)", "(B, B)", "(A, B, A)", "(B, A, B)", "(C)", "(D)", "(A, C)", "(C, A)", "(Foo)", "(A = true)", "(A(B))", "(\"A\")", "(lower)", "(A B)", " = yes"] {
                let x = x.replace("lower", &a.to_lowercase());
                let x: String = x.chars().map(|ch| match ch { 'A' => a.to_string(), 'B' => b.to_string(), 'C' => c.to_string(), 'D' => d.to_string(), ch => ch.to_string() }).collect();
                o.push((format!("{name}{x}"), None));
            }
        }
    }
    let _ = v;
    o.into_iter().map(|(text, val)| Form { name, text, val }).collect()
}

pub type Settings = BTreeMap<&'static str, String>;

/// The documented defaults.
pub fn defaults(v: &str, ty: &'static str) -> Settings {
    params(v, ty)
        .into_iter()
        .filter_map(|(n, k)| {
            Some((n, match k {
                Tri => "Allow".to_string(),
                Allow(d) | Bool(d) | Sep(d) => d.to_string(),
                Case => "Any".into(),
                Int(_) | Float => "Unlimited".into(),
                Serde | Rocket | Size | Len | Usize | Regex | Countries => return None,
            }))
        })
        .collect()
}

/// The settings a list of parameters makes, or why it must be refused.
pub fn settings(v: &str, ty: &'static str, ps: &[&Form]) -> Result<Settings, String> {
    let known = params(v, ty);
    let mut s = Settings::new();
    for p in ps {
        if !known.iter().any(|(n, _)| *n == p.name) {
            return Err(format!("unknown parameter {}", p.name));
        }
        let Some(val) = &p.val else { return Err(format!("{} is not a way to write the parameter", p.text)) };
        if s.insert(p.name, val.clone()).is_some() {
            return Err(format!("{} is given twice", p.name));
        }
    }
    for (n, d) in defaults(v, ty) {
        s.entry(n).or_insert(d);
    }
    let is = |n: &str, x: &str| s.get(n).map(String::as_str) == Some(x);
    let no = |why: &str| Err(why.to_string());
    match v {
        "regex" if !s.contains_key("regex") => no("no regex"),
        "line" | "text" if s.contains_key("char_length") && s.contains_key("byte_length") => no("two lengths"),
        "length" if matches!((s.get("min"), s.get("max")), (Some(a), Some(b)) if a.parse::<u64>().unwrap() > b.parse::<u64>().unwrap()) => no("min > max"),
        "domain" if is("ipv4", "Must") && is("at_least_two_labels", "Disallow") && is("conflict", "Disallow") => no("an IPv4 address is not one label"),
        "email" if is("ip", "Must") && is("at_least_two_labels", "Disallow") && is("conflict", "Disallow") => no("an IP address is not one label"),
        "number" if is("nan", "Must") && s["range"].starts_with("Inside") && is("conflict", "Disallow") => no("NaN is in no range"),
        _ => Ok(s),
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Shape {
    Tuple(&'static str),
    Named(Vec<(&'static str, &'static str)>),
}
/// The struct the settings need.
pub fn shape(v: &str, ty: &'static str, s: &Settings) -> Shape {
    let get = |n: &str| s.get(n).map_or("", String::as_str);
    let local = get("local") == "Allow" && get("at_least_two_labels") != "Allow";
    let port = |f: &mut Vec<(&'static str, &'static str)>| match get("port") {
        "Must" => f.push(("port", "u16")),
        "Allow" => f.push(("port", "Option<u16>")),
        _ => (),
    };
    let one = |f: Vec<(&'static str, &'static str)>| if f.len() == 1 { Shape::Tuple(f[0].1) } else { Shape::Named(f) };
    match v {
        "base32" | "base64" | "base64_url" | "line" | "text" | "regex" => Shape::Tuple("String"),
        "base32_decoded" | "base64_decoded" | "base64_url_decoded" => Shape::Tuple("Vec<u8>"),
        "bit" => Shape::Tuple("Bit"),
        "byte" => Shape::Tuple("Byte"),
        "boolean" => Shape::Tuple("bool"),
        "domain" => {
            let mut f = vec![("domain", "String")];
            if local && get("ipv4") == "Allow" {
                f.push(("is_ipv4", "bool"));
            }
            if local {
                f.push(("is_local", "bool"));
            }
            port(&mut f);
            one(f)
        }
        "host" => {
            let mut f = vec![("host", "Host")];
            if local {
                f.push(("is_local", "bool"));
            }
            port(&mut f);
            one(f)
        }
        "ip" | "ipv4" | "ipv6" => {
            let (n, t) = match v {
                "ip" => ("ip", "IpAddr"),
                "ipv4" => ("ipv4", "Ipv4Addr"),
                _ => ("ipv6", "Ipv6Addr"),
            };
            let mut f = vec![(n, t)];
            port(&mut f);
            one(f)
        }
        "email" => {
            let mut f = vec![("local_part", "String"), ("need_quoted", "bool")];
            f.push(("domain_part", match get("ip") {
                "Must" => "IpAddr",
                "Allow" => "Host",
                _ => "String",
            }));
            if get("comment") == "Allow" {
                for n in ["comment_before_local_part", "comment_after_local_part", "comment_before_domain_part", "comment_after_domain_part"] {
                    f.push((n, "Option<String>"));
                }
            }
            if local {
                f.push(("is_local", "bool"));
            }
            Shape::Named(f)
        }
        "http_url" => Shape::Named(vec![("url", "Url"), ("is_https", "bool")]),
        "http_ftp_url" => Shape::Named(vec![("url", "Url"), ("protocol", "Protocol")]),
        "json" => Shape::Tuple("u8"),
        "length" => Shape::Tuple("Vec<u8>"),
        "mac_address" => Shape::Tuple("u64"),
        "uuid" => Shape::Tuple("u128"),
        "number" | "signed_integer" | "unsigned_integer" => Shape::Tuple(ty),
        "phone" => Shape::Tuple(if get("countries").contains(',') { "HashMap<Id, PhoneNumber>" } else { "PhoneNumber" }),
        "semver" => Shape::Tuple("Version"),
        "semver_req" => Shape::Tuple("VersionReq"),
        "url" => Shape::Tuple("Url"),
        _ => unreachable!(),
    }
}
impl Shape {
    pub fn decl(&self, name: &str) -> String {
        match self {
            Shape::Tuple(t) => format!("pub struct {name}(pub {t});"),
            Shape::Named(f) => format!("pub struct {name} {{ {} }}", f.iter().map(|(n, t)| format!("pub {n}: {t}")).collect::<Vec<_>>().join(", ")),
        }
    }
}
pub const HEADER: &str = "#![allow(dead_code, unused)]
use std::collections::HashMap;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};
use validators::byte_unit::{Bit, Byte};
use validators::models::*;
use validators::phonenumber::{country::Id, PhoneNumber};
use validators::prelude::*;
use validators::semver::{Version, VersionReq};
use validators::url::Url;
static RE: std::sync::LazyLock<validators::regex::Regex> = std::sync::LazyLock::new(|| validators::regex::Regex::new(\"b+\").unwrap());
pub struct NotIt;
";
