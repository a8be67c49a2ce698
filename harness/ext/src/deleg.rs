//! C26.  The wrapped libraries are the reference.
use engine::{guard, show, Ctx, Run, Space, R};
use serde_json::Value;
use std::collections::HashMap;
use std::fmt::Debug;
use std::sync::LazyLock;
use validators::prelude::*;
use validators::{regex::Regex, semver, url};

pub struct Cfg {
    name: &'static str,
    ops: [fn(&str) -> R<Option<String>>; 3],
    model: fn(&str) -> Option<String>,
}
const WHAT: [&str; 3] = ["parse_str", "parse_string", "validate_str"];
fn check(cfgs: &[&Cfg], s: &str, ctx: &mut Ctx) {
    for c in cfgs {
        let m = match guard(|| Ok((c.model)(s))) {
            Ok(m) => m,
            Err(_) => {
                ctx.outcome("the library panics", || show(s));
                continue;
            }
        };
        let v = c.name.split('(').next().unwrap_or("");
        ctx.outcome(&format!("{v} {}", if m.is_some() { "accept" } else { "reject" }), || show(s));
        for (what, f) in WHAT.iter().zip(c.ops) {
            ctx.exec(1);
            let got = guard(|| f(s));
            let ok = match (&m, &got) {
                (Some(a), Ok(b)) => b.as_ref().is_none_or(|b| a == b),
                (None, Err(e)) => !e.starts_with("PANIC"),
                _ => false,
            };
            if !ok {
                ctx.fail(c.name, s, format!("{what}: library {m:?}, code {got:?}"));
            }
        }
    }
}
macro_rules! ops {
    ($t:ident) => {
        [
            |s| $t::parse_str(s).map(|v| Some(format!("{:?}", v.0))).map_err(|_| "Err".into()),
            |s| $t::parse_string(s.to_string()).map(|v| Some(format!("{:?}", v.0))).map_err(|_| "Err".into()),
            |s| $t::validate_str(s).map(|_| None).map_err(|_| "Err".into()),
        ]
    };
}
// a literal is compiled at each call, so the deeper words go to validators which refer to a static
macro_rules! regexes {
    ($($t:ident $l:ident $s:ident $re:tt;)*) => {
        $(
            static $s: LazyLock<Regex> = LazyLock::new(|| Regex::new($re).unwrap());
            #[derive(Validator)]
            #[validator(regex(regex($re)))]
            pub struct $t(pub String);
            #[derive(Validator)]
            #[validator(regex(regex = $s))]
            pub struct $l(pub String);
        )*
        fn regexes() -> Vec<Cfg> {
            vec![$(
                Cfg { name: concat!("regex(", $re, ")"), ops: ops!($t), model: |s| $s.is_match(s).then(|| format!("{s:?}")) },
                Cfg { name: concat!("regex static(", $re, ")"), ops: ops!($l), model: |s| $s.is_match(s).then(|| format!("{s:?}")) },
            )*]
        }
    };
}
regexes! {
    R1 Q1 S1 "^[a-z]{2,4}$";
    R2 Q2 S2 "b";
    R3 Q3 S3 "(?i)^ab+\\.?$";
    R4 Q4 S4 "^$";
    R5 Q5 S5 "^.*a$";
    R6 Q6 S6 "^[^a]\\s*\\d+|é";
    R7 Q7 S7 "";
    R8 Q8 S8 "(?m)^b$";
}
#[derive(Validator)]
#[validator(semver)]
pub struct V(pub semver::Version);
#[derive(Validator)]
#[validator(semver_req)]
pub struct VR(pub semver::VersionReq);
#[derive(Validator)]
#[validator(url)]
pub struct U(pub url::Url);
/// Plain errors of the wrapped parsers.
fn others() -> Vec<Cfg> {
    vec![
        Cfg { name: "semver", ops: ops!(V), model: |s| s.parse::<semver::Version>().ok().map(|v| format!("{v:?}")) },
        Cfg { name: "semver_req", ops: ops!(VR), model: |s| s.parse::<semver::VersionReq>().ok().map(|v| format!("{v:?}")) },
        Cfg { name: "url", ops: ops!(U), model: |s| s.parse::<url::Url>().ok().map(|v| format!("{v:?}")) },
    ]
}
type Num = fn(&Scalar) -> Option<[R<Option<String>>; 2]>;
#[derive(Debug, Clone)]
enum Scalar {
    I(i128),
    U(u128),
    F(f64),
    F32(f32),
    B(bool),
    J(Value),
}
struct Json {
    cfg: Cfg,
    entries: Vec<(&'static str, Num)>,
    from_value: fn(Value) -> Option<String>,
    texts: fn(&str) -> Option<[String; 2]>,
    library: fn(&str) -> Option<[String; 2]>,
}
macro_rules! entry {
    ($t:ident $kind:ident $p:ident $v:ident $ty:ty) => {
        (stringify!($p), |x| match x {
            Scalar::$kind(x) => {
                #[allow(irrefutable_let_patterns)]
                let Ok(x) = <$ty>::try_from(x.clone()) else { return None };
                let y = x.clone();
                Some([
                    guard(|| $t::$p(x).map(|v| Some(format!("{:?}", v.0))).map_err(|_| "Err".into())),
                    guard(|| $t::$v(y).map(|_| None).map_err(|_| "Err".into())),
                ])
            }
            _ => None,
        })
    };
}
macro_rules! jsons {
    ($($t:ident $ty:ty;)*) => {
        $(
            #[derive(Validator)]
            #[validator(json)]
            pub struct $t(pub $ty);
        )*
        fn jsons() -> Vec<Json> {
            vec![$(Json {
                cfg: Cfg { name: concat!("json(", stringify!($ty), ")"), ops: ops!($t), model: |s| serde_json::from_str::<$ty>(s).ok().map(|v| format!("{v:?}")) },
                entries: vec![
                    entry!($t I parse_i8 validate_i8 i8), entry!($t I parse_i16 validate_i16 i16), entry!($t I parse_i32 validate_i32 i32), entry!($t I parse_i64 validate_i64 i64), entry!($t I parse_isize validate_isize isize), entry!($t I parse_i128 validate_i128 i128),
                    entry!($t U parse_u8 validate_u8 u8), entry!($t U parse_u16 validate_u16 u16), entry!($t U parse_u32 validate_u32 u32), entry!($t U parse_u64 validate_u64 u64), entry!($t U parse_usize validate_usize usize), entry!($t U parse_u128 validate_u128 u128),
                    entry!($t F parse_f64 validate_f64 f64), entry!($t F32 parse_f32 validate_f32 f32),
                    entry!($t B parse_bool validate_bool bool),
                    entry!($t J parse_json_value validate_json_value Value),
                ],
                from_value: |v| serde_json::from_value::<$ty>(v).ok().map(|v| format!("{v:?}")),
                library: |s| { let v = serde_json::from_str::<$ty>(s).ok()?; Some([serde_json::to_string(&v).ok()?, serde_json::to_string_pretty(&v).ok()?]) },
                texts: |s| $t::parse_str(s).ok().map(|v| [v.to_minified_json_string(), v.to_beautified_json_string()]),
            },)*]
        }
    };
}
jsons! {
    J1 Value; J2 f64; J3 i32; J4 u64; J5 bool; J6 String; J7 Option<u8>; J8 Vec<Value>; J9 std::collections::BTreeMap<String, f64>; J10 serde_json::Map<String, Value>; J11 (i64, f32); J12 i128; J13 ();
}
type _Unused = HashMap<(), ()>;

fn value(jsons: &[Json], x: &Scalar, ctx: &mut Ctx) {
    let as_value = match x {
        Scalar::I(x) => serde_json::to_value(x).ok(),
        Scalar::U(x) => serde_json::to_value(x).ok(),
        Scalar::F(x) => serde_json::to_value(x).ok(),
        Scalar::F32(x) => serde_json::to_value(*x as f64).ok(),
        Scalar::B(x) => serde_json::to_value(x).ok(),
        Scalar::J(x) => Some(x.clone()),
    };
    for j in jsons {
        let m = as_value.clone().and_then(j.from_value);
        ctx.outcome(if m.is_some() { "json value accept" } else { "json value reject" }, || format!("{x:?}"));
        for (what, f) in &j.entries {
            for got in f(x).into_iter().flatten() {
                ctx.exec(1);
                let ok = match (&m, &got) {
                    (Some(a), Ok(b)) => b.as_ref().is_none_or(|b| a == b),
                    (None, Err(e)) => !e.starts_with("PANIC"),
                    _ => false,
                };
                if !ok {
                    ctx.fail(j.cfg.name, &format!("{x:?}"), format!("{what}: library {m:?}, code {got:?}"));
                }
            }
        }
    }
}
/// The texts produced from an accepted value mean that value.
fn text(jsons: &[Json], s: &str, ctx: &mut Ctx) {
    for j in jsons {
        check(&[&j.cfg], s, ctx);
        let (Some(m), Some(texts)) = ((j.cfg.model)(s), (j.texts)(s)) else { continue };
        ctx.outcome("json text printed", || texts[0].clone());
        let want = (j.library)(s);
        if want.as_ref() != Some(&texts) {
            ctx.fail(j.cfg.name, s, format!("texts {texts:?}, the library prints {want:?}"));
        }
        let v: Option<Value> = serde_json::from_str(&texts[0]).ok();
        for (t, minified) in texts.iter().zip([true, false]) {
            ctx.exec(1);
            let again: Option<Value> = serde_json::from_str(t).ok();
            let back = (j.cfg.model)(t);
            let exact = !t.contains(|c: char| c == '.') && !t.contains("e+") && !t.contains("e-");
            // fractions are only as precise as the parser reads them
            if again.is_none() || again != v || (exact && back.as_ref() != Some(&m)) || back.is_none() && m != "NaN" {
                ctx.fail(j.cfg.name, s, format!("text {t:?} of {m} parses to {back:?}"));
            }
            let mut quoted = false;
            let mut escaped = false;
            let blanks = t.chars().filter(|&c| { if c == '"' && !escaped { quoted = !quoted } escaped = c == '\\' && !escaped; !quoted && c.is_whitespace() }).count();
            let nested = t.contains(['[', '{']) && !t.starts_with('"');
            if minified && blanks > 0 || !minified && nested && blanks == 0 && !["[]", "{}"].contains(&t.as_str()) {
                ctx.fail(j.cfg.name, s, format!("text {t:?} is {} minified", if minified { "not" } else { "" }));
            }
        }
    }
}

pub fn explore(run: &mut Run) {
    let (re, other, jsons) = (regexes(), others(), jsons());
    let all: Vec<&Cfg> = re.iter().collect();
    let fast: Vec<&Cfg> = re.iter().filter(|c| c.name.starts_with("regex static")).collect();
    run.explore(&Space::chars("regex words", &[""], "abB1.\n é", run.pick(3, 4)), |s, c| check(&all, s, c));
    run.explore(&Space::chars("regex words (static)", &[""], "abB1.\n é", run.pick(6, 7)), |s, c| check(&fast, s, c));
    let (ver, req, web) = (&other[0], &other[1], &other[2]);
    run.explore(&Space::new("versions", &["", "1.2.3", "1.0", "v"], &["0", "1", "10", ".", "-", "+", "a", "01", " ", "18446744073709551615", "18446744073709551616", "é"], run.pick(5, 6)), |s, c| check(&[ver], s, c));
    run.explore(&Space::new("version requirements", &["", "1.2", "^", ">=1", "~0."], &["0", "1", ".", "*", "^", "~", ">", "=", "<", ",", " ", "-a", "+b", "x", "01"], run.pick(4, 5)), |s, c| check(&[req, ver], s, c));
    run.explore(&Space::new("URLs", &["", "http:", "http://", "http://a", "mailto:", "file://", "foo://"], &["a", "/", ":", "@", "?", "#", "[::1]", "%41", "80", "xn--", " ", "é", ".", "65536", "\\"], run.pick(5, 6)), |s, c| check(&[web], s, c));
    run.cases("every character in a URL, version and pattern", &(0..0x1100u32).collect::<Vec<_>>(), |&b, c| {
        for x in (b * 256..(b + 1) * 256).filter_map(char::from_u32) {
            for s in [format!("http://a{x}b/"), format!("http://ab/{x}?{x}#{x}"), format!("{x}://a"), format!("{x}")] {
                check(&[web], &s, c);
            }
            check(&[ver, req], &format!("1.{x}2.3"), c);
            check(&[ver, req], &format!("1.2.3-{x}"), c);
            check(&fast, &format!("a{x}"), c);
        }
    });
    run.scalars("versions and requirements", &["1.2.3", "1.2.3-a+b", "v1"], 0x110000, |s, c| check(&[ver, req], s, c));
    run.scalars("requirements", &["^1.2, <2", "*"], 0x110000, |s, c| check(&[req], s, c));
    run.scalars("URLs", &["http://a/", "a:b"], 0x110000, |s, c| check(&[web], s, c));
    run.scalars("regex texts", &["ab", "a\n"], 0x110000, |s, c| check(&fast, s, c));
    run.scalars("JSON texts", &["5", "\"a\"", "[1,2]", "{\"a\": true}", "null"], run.pick(0x3100, 0x110000), |s, c| text(&jsons, s, c));
    run.explore(&Space::new("JSON texts", &["", "[", "{\"a\":", "\"", "-"], &["0", "1", "-", ".5", "e9", "[", "]", "{", "}", "\"", ",", ":", "\"a\"", "true", "null", " ", "\\u00e9", "\n", "é"], run.pick(4, 5)), |s, c| text(&jsons, s, c));
    let mut vals: Vec<Scalar> = [true, false].map(Scalar::B).into();
    for k in 0..=127u32 {
        for d in -3..=3i128 {
            vals.push(Scalar::I((1i128 << k).wrapping_add(d)));
            vals.push(Scalar::I((-1i128 << k).wrapping_add(d)));
            vals.push(Scalar::U((1u128 << k).wrapping_add(d as u128)));
        }
    }
    vals.extend((-300..=300).map(Scalar::I));
    vals.extend((0..=300).map(Scalar::U));
    for e in 0..4096u64 {
        for m in [0u64, 1, 0x8000000000000, 0xfffffffffffff, 0x999999999999a] {
            let x = f64::from_bits(e << 52 | m);
            vals.push(Scalar::F(x));
            vals.push(Scalar::F32(x as f32));
        }
    }
    for x in -300..=300 {
        vals.push(Scalar::F(x as f64 / 4.0));
        vals.push(Scalar::F32(x as f32 / 4.0));
    }
    run.cases("numbers and booleans as JSON", &vals, |x, c| {
        value(&jsons, x, c);
        if let Scalar::F(f) = x {
            text(&jsons, &format!("{f:?}"), c);
            text(&jsons, &format!("[{f:e}, 1]"), c);
        }
        if let Scalar::I(i) = x {
            text(&jsons, &i.to_string(), c);
            text(&jsons, &format!("{{\"a\": {i}}}"), c);
        }
    });
    // all JSON values of bounded depth and width
    let mut trees: Vec<Value> = vec![Value::Null, true.into(), 0.into(), 255.into(), 256.into(), (-1).into(), u64::MAX.into(), i64::MIN.into(), 1.5.into(), "".into(), "a".into(), "\"\\\n\u{1f600}\u{7f}\u{2028}".into(), Value::Array(vec![]), serde_json::json!({})];
    for _ in 0..run.pick(1, 2) {
        let n = trees.len().min(40);
        let mut next = trees.clone();
        for a in 0..n {
            next.push(serde_json::json!([trees[a]]));
            next.push(serde_json::json!({ "k": trees[a] }));
            for b in 0..n {
                next.push(serde_json::json!([trees[a], trees[b]]));
                next.push(serde_json::json!({ "a": trees[a], "é\"": trees[b] }));
            }
        }
        trees = next;
    }
    let chars: Vec<u32> = (0..0x110000).collect();
    run.cases("every character in a JSON string", &chars.chunks(256).map(|c| c.to_vec()).collect::<Vec<_>>(), |v, c| {
        for x in v.iter().filter_map(|&x| char::from_u32(x)) {
            text(&jsons[5..6], &format!("\"{x}\""), c);
            text(&jsons[5..6], &serde_json::to_string(&x.to_string()).unwrap(), c);
        }
    });
    run.cases("JSON values", &trees, |v, c| {
        value(&jsons, &Scalar::J(v.clone()), c);
        text(&jsons, &v.to_string(), c);
        text(&jsons, &serde_json::to_string_pretty(v).unwrap(), c);
    });
    for l in ["regex accept", "regex reject", "regex static accept", "semver accept", "semver reject", "semver_req accept", "semver_req reject", "url accept", "url reject", "json accept", "json reject", "json value accept", "json value reject", "json text printed"] {
        run.require(l, 50);
    }
}
