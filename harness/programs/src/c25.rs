//! C25: the derive accepts exactly the meaningful attribute programs.
use crate::model::*;
use crate::rust;
use engine::{js, Ctx, Run};
use std::collections::{BTreeMap, HashSet};
use std::fmt;
use std::sync::atomic::AtomicUsize;

#[derive(Clone)]
pub struct Program {
    pub family: &'static str,
    pub source: String,
    /// Err: why it must be refused
    pub expect: Result<(), String>,
}
impl fmt::Debug for Program {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.source)
    }
}

fn attr(v: &str, ps: &[&Form]) -> String {
    if ps.is_empty() {
        v.to_string()
    } else {
        format!("{v}({})", ps.iter().map(|p| p.text.clone()).collect::<Vec<_>>().join(", "))
    }
}
fn source(attr: &str, decl: &str) -> String {
    format!("#[derive(Validator)] #[validator({attr})] {decl}")
}
fn program(family: &'static str, v: &str, ty: &'static str, ps: &[&Form]) -> Program {
    let s = settings(v, ty, ps);
    // a program which must be refused gets the struct that fits what it does say
    let fit = s.clone().unwrap_or_else(|_| {
        let mut m = defaults(v, ty);
        for p in ps {
            if let Some(x) = &p.val {
                m.insert(p.name, x.clone());
            }
        }
        m
    });
    Program { family, source: source(&attr(v, ps), &shape(v, ty, &fit).decl("X")), expect: s.map(|_| ()) }
}
/// The parameters every program of a validator needs.
fn needed(v: &str) -> Vec<Form> {
    if v == "regex" {
        vec![Form { name: "regex", text: "regex(\"a\")".into(), val: Some("\"a\"".into()) }]
    } else {
        vec![]
    }
}
fn with<'a>(req: &'a [Form], ps: &[&'a Form]) -> Vec<&'a Form> {
    let mut o: Vec<&Form> = vec![];
    for r in req {
        if !ps.iter().any(|p| p.name == r.name) {
            o.push(r);
        }
    }
    o.extend(ps);
    o
}
/// At most `n` forms with different meanings, in different notations.
fn few(fs: &[Form], n: usize) -> Vec<&Form> {
    let mut seen = HashSet::new();
    let mut o: Vec<&Form> = vec![];
    for f in fs.iter().filter(|f| f.val.is_some()) {
        if seen.insert(f.val.clone()) {
            o.push(f);
        }
    }
    let good: Vec<&Form> = fs.iter().filter(|f| f.val.is_some()).collect();
    if o.len() > n {
        let step = o.len() as f64 / n as f64;
        o = (0..n).map(|i| o[(i as f64 * step) as usize]).collect();
    }
    // alternate the notation
    o.iter().enumerate().map(|(i, f)| if i % 2 == 1 { good.iter().rev().find(|g| g.val == f.val).unwrap() } else { *f }).collect()
}
fn main_types(v: &str) -> Vec<&'static str> {
    match v {
        "signed_integer" => vec!["i32"],
        "unsigned_integer" => vec!["u8"],
        _ => types(v),
    }
}

pub fn programs(frameworks: bool, deep: usize) -> Vec<Program> {
    let mut o: Vec<Program> = vec![];
    for v in VALIDATORS {
        let req = needed(v);
        if v == "json" && !frameworks {
            o.push(Program { expect: Err("its feature is off".into()), ..program("a validator which is not enabled", v, "", &[]) });
            continue;
        }
        // every form of every parameter, alone; all integer types
        for ty in types(v) {
            o.push(program("alone", v, ty, &with(&req, &[])));
            for (name, k) in params(v, ty) {
                for f in forms(v, name, k, frameworks) {
                    o.push(program("one parameter", v, ty, &with(&req, &[&f])));
                }
            }
        }
        for ty in main_types(v) {
            let ps: Vec<(&'static str, Vec<Form>)> = params(v, ty).into_iter().map(|(n, k)| (n, forms(v, n, k, frameworks))).collect();
            // two parameters, in both orders: given twice in every notation, and together
            for (i, (_, a)) in ps.iter().enumerate() {
                for (j, (_, b)) in ps.iter().enumerate() {
                    let (x, y) = if i == j { (few(a, 4 + 2 * deep), few(b, 4 + 2 * deep)) } else { (few(a, 3 + deep), few(b, 3 + deep)) };
                    for f in &x {
                        for g in &y {
                            o.push(program(if i == j { "given twice" } else { "two parameters" }, v, ty, &with(&req, &[f, g])));
                        }
                    }
                    // the same value in the other notation
                    if i == j {
                        for f in a.iter().filter(|f| f.val.is_some()).take(40) {
                            for g in a.iter().filter(|g| g.val == f.val).take(4) {
                                o.push(program("given twice", v, ty, &with(&req, &[f, g])));
                            }
                        }
                    }
                    if let (Some(f), Some(g)) = (x.first(), b.iter().find(|g| g.val.is_none())) {
                        o.push(program("one of two is malformed", v, ty, &with(&req, &[f, g])));
                        o.push(program("one of two is malformed", v, ty, &with(&req, &[g, f])));
                    }
                }
            }
            // three parameters: given twice around another one
            for (i, (_, a)) in ps.iter().enumerate() {
                for (j, (_, b)) in ps.iter().enumerate() {
                    let (x, y) = (few(a, 2), few(b, 1 + deep));
                    if i != j && !x.is_empty() {
                        for f in &x {
                            for g in &y {
                                o.push(program("given twice around another", v, ty, &with(&req, &[f, g, x[0]])));
                            }
                        }
                    }
                }
            }
            // parameters the validator does not have
            let own: Vec<&str> = params(v, ty).iter().map(|p| p.0).collect();
            let mut names: Vec<&'static str> = VALIDATORS.iter().flat_map(|w| types(w).into_iter().flat_map(move |t| params(w, t))).map(|p| p.0).collect();
            names.extend(["trimmed_min", "inclusive", "name", "default", "validator", "message", "length", "len", "allow", "ipv6", "country", "pattern", "pading", "Padding", "locale", "ports", "cases", "Range", "SERDE", "axum", "std", "test"]);
            names.sort();
            names.dedup();
            for name in names.into_iter().filter(|n| !own.contains(n)) {
                for form in ["", " = Allow", "(Allow)", " = 1", "(1)", " = true", "(min = 1)", "(Disallow)"] {
                    let f = Form { name, text: format!("{name}{form}"), val: None };
                    if form.is_empty() || form == "(Allow)" || deep > 0 {
                        for (_, g) in ps.iter().take(2) {
                            if let Some(g) = few(g, 1).first() {
                                o.push(program("unknown parameter", v, ty, &with(&req, &[g, &f])));
                                o.push(program("unknown parameter", v, ty, &with(&req, &[&f, g])));
                            }
                        }
                    }
                    o.push(program("unknown parameter", v, ty, &with(&req, &[&f])));
                }
            }
            shapes(&mut o, v, ty, &req);
            attributes(&mut o, v, ty, &req);
        }
    }
    templates(&mut o, frameworks);
    products(&mut o, frameworks, deep);
    conflicts(&mut o);
    let mut seen = HashSet::new();
    o.retain(|p| seen.insert(p.source.clone()));
    o
}

/// Structs which do not fit.
fn shapes(o: &mut Vec<Program>, v: &str, ty: &'static str, req: &[Form]) {
    let a = attr(v, &with(req, &[]));
    let s = settings(v, ty, &with(req, &[])).unwrap();
    let right = shape(v, ty, &s);
    let mut put = |family: &'static str, decl: String, ok: bool| {
        o.push(Program { family, source: source(&a, &decl), expect: if ok { Ok(()) } else { Err("the struct does not fit".into()) } })
    };
    put("shape", "pub struct X;".into(), false);
    put("shape", "pub struct X();".into(), false);
    put("shape", "pub struct X {}".into(), false);
    put("shape", "pub enum X {}".into(), false);
    match &right {
        Shape::Tuple(t) => {
            put("shape", format!("struct X({t});"), true);
            put("shape", format!("pub(crate) struct X(pub(crate) {t});"), true);
            put("shape", format!("#[derive(Debug)] #[allow(dead_code)] pub struct X(#[allow(dead_code)] {t});"), true);
            put("shape", format!("/** docs */ pub struct X(/** docs */ pub {t});"), true);
            put("shape", format!("pub struct X(pub {t}, pub {t});"), false);
            put("shape", format!("pub struct X(pub {t}, pub ());"), false);
            put("shape", format!("pub struct X(pub {t}, pub std::marker::PhantomData<u8>);"), false);
            put("shape", "pub struct X(pub NotIt);".into(), false);
            if v != "json" {
                put("shape", "pub struct X(pub ());".into(), false);
                put("shape", format!("pub struct X(pub Option<{t}>);"), false);
            }
            if v != "json" && v != "length" {
                put("shape", format!("pub struct X(pub Vec<{t}>);"), false);
            }
            put("shape", format!("pub struct X {{ pub value: {t} }}"), false);
            put("shape", format!("pub enum X {{ A({t}) }}"), false);
            put("shape", format!("pub struct X<T>(pub {t}, pub T);"), false);
            if t != &"u8" && v != "json" && v != "length" {
                put("shape", "pub struct X(pub u8);".into(), false);
            }
            if t != &"String" && v != "json" && v != "length" {
                put("shape", "pub struct X(pub String);".into(), false);
            }
        }
        Shape::Named(f) => {
            let decl = |f: &[(&str, &str)]| format!("pub struct X {{ {} }}", f.iter().map(|(n, t)| format!("pub {n}: {t}")).collect::<Vec<_>>().join(", "));
            let mut rev = f.clone();
            rev.reverse();
            put("shape", decl(&rev), true);
            put("shape", decl(f).replace("pub ", ""), true);
            put("shape", format!("#[derive(Debug, Clone)] {}", decl(f)), true);
            for i in 0..f.len() {
                let mut g = f.clone();
                g.remove(i);
                put("shape", decl(&g), false);
                for (n, t) in [("other", f[i].1), (f[i].0, "NotIt"), (f[i].0, "()"), (f[i].0, "Option<NotIt>"), ("X", f[i].1)] {
                    let mut g = f.clone();
                    g[i] = (n, t);
                    put("shape", decl(&g), false);
                }
                if f[i].1 != "u8" {
                    let mut g = f.clone();
                    g[i].1 = "u8";
                    put("shape", decl(&g), false);
                }
            }
            for e in [("other", "()"), ("is_ok", "bool"), ("port_", "u16"), ("extra", "Option<u16>"), ("extra", "std::marker::PhantomData<u8>")] {
                let mut g = f.clone();
                g.push(e);
                put("shape", decl(&g), false);
            }
            put("shape", format!("pub struct X({});", f.iter().map(|(_, t)| format!("pub {t}")).collect::<Vec<_>>().join(", ")), false);
            put("shape", format!("pub struct X(pub {});", f[0].1), false);
            put("shape", format!("pub enum X {{ A {{ {} }} }}", f.iter().map(|(n, t)| format!("{n}: {t}")).collect::<Vec<_>>().join(", ")), false);
        }
    }
    if matches!(v, "signed_integer" | "unsigned_integer" | "number") {
        for t in INTS.iter().chain(&["f32", "f64", "char", "bool", "String", "Option<u8>"]) {
            let ok = match v {
                "signed_integer" => INTS[..6].contains(t),
                "unsigned_integer" => INTS[6..].contains(t),
                _ => t.starts_with('f'),
            };
            put("shape", format!("pub struct X({t});"), ok);
        }
    }
    if v == "json" {
        for t in ["String", "Vec<u8>", "Option<u8>", "bool", "f64", "validators::serde_json::Value", "HashMap<String, Vec<Option<i32>>>"] {
            put("shape", format!("pub struct X(pub {t});"), true);
        }
    }
    if v == "length" {
        for t in ["Vec<String>", "HashMap<u8, u8>", "std::collections::BTreeSet<u8>", "std::collections::BTreeMap<u8, ()>"] {
            put("shape", format!("pub struct X(pub {t});"), true);
        }
        for t in ["u8", "char", "()", "String"] {
            put("shape", format!("pub struct X(pub {t});"), false);
        }
    }
}

/// Ways to write the attribute itself.
fn attributes(o: &mut Vec<Program>, v: &str, ty: &'static str, req: &[Form]) {
    let a = attr(v, &with(req, &[]));
    let decl = shape(v, ty, &settings(v, ty, &with(req, &[])).unwrap()).decl("X");
    let mut put = |text: String, ok: bool| {
        o.push(Program { family: "attribute", source: format!("#[derive(Validator)] {text} {decl}"), expect: if ok { Ok(()) } else { Err("not one validator in its form".into()) } })
    };
    put(format!("#[allow(dead_code)] #[validator({a})]"), true);
    put(format!("/** docs */ #[validator({a})] #[must_use]"), true);
    put(String::new(), false);
    for t in ["#[validator]", "#[validator()]", "#[validator = \"V\"]", "#[validator(= V)]", "#[validator(V = 1)]", "#[validator(V = Allow)]", "#[validator(V = \"x\")]", "#[validator(\"V\")]", "#[validator(x::V)]", "#[validator(V::x)]", "#[validator(_V)]", "#[validator(V_)]", "#[validator(Vs)]", "#[validator(UP)]", "#[validator(1)]", "#[validator(V; V)]", "#[validator(_Nothing)]", "#[validator(Validator)]", "#[validator(!V)]"] {
        put(t.replace("UP", &v.to_uppercase()).replace('V', v), false);
    }
    for other in ["url", "text", v] {
        for t in ["#[validator(V)] #[validator(W)]", "#[validator(W)] #[validator(V)]", "#[validator(V, W)]", "#[validator(V W)]", "#[validator(V)] #[validator]", "#[validator] #[validator(V)]", "#[validator(V)] #[validator()]", "#[validator(V)] #[validator(nothing)]", "#[validator(V)] #[allow(dead_code)] #[validator(V)]", "#[validator(V)] #[validator = \"V\"]"] {
            put(t.replace('V', &a).replace('W', other), false);
        }
    }
    // an attribute on a field is no attribute of the validator, alone or with one
    let field = |t: &str| match decl.find(['(', '{']) {
        Some(i) => format!("{} {t} {}", &decl[..=i], &decl[i + 1..]),
        None => decl.clone(),
    };
    for (top, inner) in [(String::new(), a.clone()), (format!("#[validator({a})]"), a.clone()), (format!("#[validator({a})]"), "text".into()), (format!("#[validator({a})]"), "nothing".into())] {
        o.push(Program { family: "attribute on a field", source: format!("#[derive(Validator)] {top} {}", field(&format!("#[validator({inner})]"))), expect: Err("attribute on a field".into()) });
    }
}

fn tri(name: &'static str, i: usize) -> Form {
    let v = ["Must", "Allow", "Disallow"][i];
    Form { name, text: if i % 2 == 0 { format!("{name}({v})") } else { format!("{name} = {v}") }, val: Some(v.into()) }
}
/// Every combination of settings, with the struct of every combination of the validator.
fn products(o: &mut Vec<Program>, frameworks: bool, deep: usize) {
    for v in ["domain", "host", "ip", "ipv4", "ipv6", "email"] {
        let names: Vec<(&'static str, K)> = params(v, "").into_iter().filter(|(n, k)| matches!(k, K::Tri | K::Allow(_)) && *n != "conflict").collect();
        let mut all: Vec<Vec<Form>> = vec![vec![]];
        for (n, k) in &names {
            let vals: &[usize] = if *k == K::Tri { &[0, 1, 2] } else { &[1, 2] };
            all = all.into_iter().flat_map(|p| vals.iter().map(move |i| p.iter().cloned().chain([tri(n, *i)]).collect())).collect();
        }
        let fit: Vec<Shape> = {
            let mut f: Vec<Shape> = all.iter().map(|p| shape(v, "", &p.iter().map(|f| (f.name, f.val.clone().unwrap())).collect())).collect();
            f.sort_by_key(|s| s.decl("X"));
            f.dedup();
            f
        };
        for p in &all {
            let given: Settings = p.iter().map(|f| (f.name, f.val.clone().unwrap())).collect();
            let right = shape(v, "", &given);
            let mut variants: Vec<Vec<Form>> = vec![p.clone()];
            for (i, c) in [("Allow", "conflict = Allow"), ("Disallow", "conflict(Disallow)")].iter().enumerate() {
                if v == "domain" || v == "email" {
                    let contradictory = given.get(if v == "domain" { "ipv4" } else { "ip" }).unwrap() == "Must" && given["at_least_two_labels"] == "Disallow";
                    if contradictory || deep > 0 {
                        let mut q = p.clone();
                        q.insert(i, Form { name: "conflict", text: c.1.into(), val: Some(c.0.into()) });
                        variants.push(q);
                    }
                }
            }
            for q in &variants {
                let refs: Vec<&Form> = q.iter().collect();
                o.push(program("all settings", v, "", &refs));
            }
            let refs: Vec<&Form> = variants.iter().map(|q| q.iter().collect::<Vec<_>>()).find(|q| settings(v, "", q).is_ok()).unwrap_or_default();
            if refs.is_empty() && !p.is_empty() {
                continue;
            }
            for s in &fit {
                if *s != right {
                    o.push(Program { family: "the struct of other settings", source: source(&attr(v, &refs), &s.decl("X")), expect: Err("the struct does not fit the settings".into()) });
                }
            }
        }
    }
    // every combination of the other validators with more than one parameter
    for v in ["byte", "mac_address", "uuid", "number"] {
        for ty in main_types(v) {
            let ps: Vec<Vec<Form>> = params(v, ty).into_iter().map(|(n, k)| forms(v, n, k, frameworks)).collect();
            let mut all: Vec<Vec<&Form>> = vec![vec![]];
            for fs in &ps {
                all = all
                    .into_iter()
                    .flat_map(|p| {
                        let mut r = vec![p.clone()];
                        for f in few(fs, if ["serde", "rocket"].contains(&fs[0].name) { 1 } else { 3 + deep }) {
                            let mut q = p.clone();
                            q.push(f);
                            r.push(q);
                        }
                        r
                    })
                    .collect();
            }
            for p in &all {
                o.push(program("all settings", v, ty, p));
            }
        }
    }
    if frameworks {
        // implementing serde and rocket by halves, together with every struct
        for v in VALIDATORS {
            let ty = main_types(v)[0];
            let req = needed(v);
            for s in ["serde = false", "serde(Serialize)", "serde(Deserialize)"] {
                for r in ["rocket = false", "rocket(FromParam)", "rocket(FromFormField)"] {
                    let a = Form { name: "serde", text: s.into(), val: Some(String::new()) };
                    let b = Form { name: "rocket", text: r.into(), val: Some(String::new()) };
                    o.push(program("frameworks", v, ty, &with(&req, &[&a, &b])));
                }
            }
        }
    }
}

/// Parameters whose values come from the arguments of a macro.
fn templates(o: &mut Vec<Program>, frameworks: bool) {
    let idents = ["ident", "tt"];
    let literals = ["literal", "tt"];
    let mut put = |frags: &[&str], attr: &str, decl: &str, arg: &str, ok: bool| {
        for f in frags {
            // a negative number is two tokens
            if *f == "tt" && arg.starts_with('-') {
                continue;
            }
            o.push(Program {
                family: "template",
                source: format!("macro_rules! m {{ ($x:{f}) => {{ {} }} }} m!({arg});", source(attr, decl)),
                expect: if ok { Ok(()) } else { Err("the argument is no value of the parameter".into()) },
            });
        }
    };
    let s = "pub struct X(pub String);";
    for (attr, decl, good, bad) in [
        ("base32(padding = $x)", s, "Must", "Any"),
        ("base32(padding($x))", s, "Disallow", "Upper"),
        ("uuid(case = $x)", "pub struct X(pub u128);", "Lower", "Must"),
        ("uuid(case($x))", "pub struct X(pub u128);", "Upper", "Allow"),
        ("mac_address(separator($x))", "pub struct X(pub u64);", "Disallow", "Allow"),
        ("number(nan = $x, range(Inside(min = 1)))", "pub struct X(pub f64);", "Allow", "Must"),
        ("number(conflict($x), nan(Must), range(Inside(min = 1)))", "pub struct X(pub f64);", "Allow", "Disallow"),
        ("phone(countries($x))", "pub struct X(pub PhoneNumber);", "TW", "XX"),
        ("phone(countries($x, US))", "pub struct X(pub HashMap<Id, PhoneNumber>);", "TW", "US"),
        ("$x", s, "text", "txt"),
        ("ip($x = Disallow)", "pub struct X(pub IpAddr);", "port", "ipv4"),
        ("line(serde($x))", s, if frameworks { "Serialize" } else { "" }, "FromParam"),
    ] {
        if !good.is_empty() {
            put(&idents, attr, decl, good, true);
        }
        put(&idents, attr, decl, bad, false);
    }
    for (attr, decl, good, bad) in [
        ("signed_integer(range(Inside(min = $x)))", "pub struct X(pub i8);", "-5", "-129"),
        ("signed_integer(range(Inside(min($x))))", "pub struct X(pub i8);", "-5", "-129"),
        ("signed_integer(range(Outside(min = 3, max = $x)))", "pub struct X(pub i8);", "5", "2"),
        ("unsigned_integer(range(Inside(min = $x, max(5))))", "pub struct X(pub u8);", "5", "6"),
        ("unsigned_integer(range(Inside(max($x))))", "pub struct X(pub u8);", "255", "256"),
        ("number(range(Inside(min = $x)))", "pub struct X(pub f32);", "-1.5", "\"1\""),
        ("number(range(Inside(min = $x, max = 2, inclusive = false)))", "pub struct X(pub f32);", "1.5", "2"),
        ("line(char_length(min = $x))", s, "5", "-5"),
        ("text(byte_length(max($x), min = 4))", s, "5", "3"),
        ("length(max = $x, min = 4)", "pub struct X(pub Vec<u8>);", "5", "3"),
        ("bit(range(min = $x))", "pub struct X(pub Bit);", "5", "true"),
        ("byte(ignore_case = $x)", "pub struct X(pub Byte);", "true", "1"),
        ("byte(ignore_case($x))", "pub struct X(pub Byte);", "false", "\"true\""),
        ("url(serde = $x)", "pub struct X(pub Url);", "false", "1"),
        ("mac_address(separator(Must($x)))", "pub struct X(pub u64);", "b'-'", "'-'"),
        ("mac_address(separator(Must = $x))", "pub struct X(pub u64);", "b'-'", "'-'"),
        ("regex(regex($x))", s, "\"a\"", "\"(\""),
        ("regex(regex = $x)", s, "\"a\"", "\"(\""),
        ("regex(regex($x))", s, "r\"\\d\"", "5"),
    ] {
        put(&literals, attr, decl, good, true);
        put(&literals, attr, decl, bad, false);
    }
}

/// Every NaN setting against every kind of range, with and without allowing the conflict.
fn conflicts(o: &mut Vec<Program>) {
    for ty in types("number") {
        for r in [None, Some("Unlimited"), Some("Inside(min = 1)"), Some("Inside(max = 1.5)"), Some("Inside(min = -1, max = 1)"), Some("Outside(min = 1)"), Some("Outside(min = 0.5, max = 0.75, inclusive = false)")] {
            for n in [None, Some("Must"), Some("Allow"), Some("Disallow")] {
                for c in [None, Some("Allow"), Some("Disallow")] {
                    let mut p = vec![];
                    if let Some(c) = c {
                        p.push(Form { name: "conflict", text: format!("conflict({c})"), val: Some(c.into()) });
                    }
                    if let Some(n) = n {
                        p.push(Form { name: "nan", text: format!("nan = {n}"), val: Some(n.into()) });
                    }
                    if let Some(r) = r {
                        p.push(Form { name: "range", text: format!("range({r})"), val: Some(r.into()) });
                    }
                    for q in [p.clone(), p.into_iter().rev().collect()] {
                        o.push(program("conflict", "number", ty, &q.iter().collect::<Vec<_>>()));
                    }
                }
            }
        }
    }
}

pub fn c25(run: &mut Run) {
    let deep = run.pick(0, 1);
    for (name, features, frameworks) in [("with serde, rocket and full", "frameworks", true), ("without frameworks", "", false)] {
        let d = rust::deps(features, true);
        let ps = programs(frameworks, deep);
        run.note(&format!("programs {name}"), ps.len() as u64);
        let replay = run.replaying().map(|(_, w)| w.to_string());
        let stats = AtomicUsize::new(0);
        let mut verdicts: BTreeMap<String, Option<String>> = BTreeMap::new();
        for ok in [true, false] {
            let src: Vec<String> = ps.iter().filter(|p| p.expect.is_ok() == ok).map(|p| p.source.clone()).filter(|s| replay.as_ref().is_none_or(|w| w == s)).collect();
            if src.is_empty() {
                continue;
            }
            let r = rust::classify(&d, HEADER, &src, if ok { 150 } else { 1500 }, &stats);
            verdicts.extend(src.into_iter().zip(r));
        }
        run.note(&format!("compilations {name}"), stats.into_inner() as u64);
        run.cases(&format!("attribute programs {name}"), &ps, |p, c: &mut Ctx| {
            c.exec(1);
            let Some(got) = verdicts.get(&p.source) else { return };
            c.outcome(&format!("{}: {}", p.family, if got.is_none() { "compiles" } else { "refused" }), || p.source.clone());
            match (&p.expect, got) {
                (Ok(()), Some(m)) => c.fail(p.family, &p.source, format!("does not compile: {}", js(m))),
                (Err(why), None) => c.fail(p.family, &p.source, format!("compiles although {why}")),
                _ => (),
            }
        });
    }
    for (l, n) in [("alone: compiles", 31), ("one parameter: compiles", 300), ("one parameter: refused", 300), ("given twice: refused", 100), ("two parameters: compiles", 100), ("unknown parameter: refused", 1000), ("shape: refused", 100), ("shape: compiles", 50), ("attribute: refused", 100), ("all settings: compiles", 200), ("the struct of other settings: refused", 100), ("conflict: refused", 5), ("template: compiles", 40), ("template: refused", 40)] {
        run.require(l, n);
    }
}
