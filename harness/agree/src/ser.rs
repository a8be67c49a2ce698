//! C20: deserialization applies the validator, and what is serialized reads back.
use crate::ops::*;
use crate::val::{Prim, Ser, Strict, Val};
use crate::{caught, float_values, int_values, json_values, texts, types};
use engine::{show, Ctx, Run, R};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::Value;
use std::fmt::Debug;
use validators::prelude::*;

/// What a deserialization gives: the shown value, or None when it is refused.
pub type De = Option<String>;
pub struct Serde {
    pub prim: fn(&Prim, bool) -> De,
    /// from a format which does not describe itself
    pub strict: fn(&Prim, bool) -> De,
    pub json_text: fn(&str) -> De,
    pub json_value: fn(Value) -> De,
    /// the JSON text and the plain values (human-readable and not) of what a deserialization gives
    pub print: fn(&Prim, bool) -> Option<Printed>,
}
pub struct Printed {
    pub shown: String,
    pub json: Option<String>,
    pub value: Option<Value>,
    pub readable: Option<Prim>,
    pub compact: Option<Prim>,
}
fn de<T: Debug, E>(r: Result<T, E>) -> De {
    r.ok().map(|v| format!("{v:?}"))
}
pub fn sops<T: Serialize + DeserializeOwned + Debug, E>() -> Serde {
    Serde {
        prim: |p, readable| de(T::deserialize(Val(p, readable))),
        strict: |p, readable| de(T::deserialize(Strict(Val(p, readable)))),
        json_text: |s| de(serde_json::from_str::<T>(s)),
        json_value: |v| de(serde_json::from_value::<T>(v)),
        print: |p, readable| {
            let v = T::deserialize(Val(p, readable)).ok()?;
            Some(Printed { shown: format!("{v:?}"), json: serde_json::to_string(&v).ok(), value: serde_json::to_value(&v).ok(), readable: v.serialize(Ser(true)).ok(), compact: v.serialize(Ser(false)).ok() })
        },
    }
}

/// What deserializing a value must give.
pub enum Want {
    /// the outcome of the entry point of that kind
    Is(Out),
    /// not a kind the validator must support: refused, or the outcome of the entry point
    May(Out),
    /// there is no such entry point, or the value is out of its range
    No,
}
fn ok(o: Out) -> De {
    o.ok()
}
/// The oracle: the entry point of the kind, asked directly.
pub fn want(v: &V, p: &Prim, readable: bool) -> R<Want> {
    use Prim::*;
    use Want::*;
    let parse = |s: &str| (v.s.as_ref().unwrap().str)(s);
    let is = |o: Option<Out>| o.map_or(No, Is);
    let may = |o: Option<Out>| o.map_or(No, May);
    let integer = |x: Result<i128, u128>| -> Option<Out> {
        let u = match x {
            Ok(i) => u128::try_from(i).ok(),
            Err(u) => Some(u),
        };
        match (x, u, &v.u, &v.i) {
            (_, Some(u), Some(o), _) => (o[0].1)(u).map(|p| p.0),
            (Ok(i), _, _, Some(o)) => (o[0].1)(i).map(|p| p.0),
            _ => Option::None,
        }
    };
    caught(|| {
        if let Some(j) = v.j {
            // a JSON validator takes whatever a JSON value can be made of
            return match <Value as serde::Deserialize>::deserialize(Val(p, readable)) {
                Ok(x) => Is(j(x).0),
                Err(_) => No,
            };
        }
        match p {
            Str(s) | Borrowed(s) | Owned(s) => {
                if v.size && !readable { May(parse(s)) } else { Is(parse(s)) }
            }
            Char(c) => match v.c {
                Some(f) => Is(f(*c).0),
                _ => May(parse(&c.to_string())),
            },
            Bytes(b) | BorrowedBytes(b) | ByteBuf(b) => match &v.b {
                Some(o) => Is((o.slice)(b)),
                _ => may(std::str::from_utf8(b).ok().map(parse)),
            },
            Bool(x) => is(v.o.map(|f| f(*x).0)),
            Unit | None => No,
            F32(x) => is(v.n.map(|f| f.1(*x).0)),
            F64(x) => is(v.n.map(|f| f.0(*x).0)),
            I8(_) | I16(_) | I32(_) | I64(_) | I128(_) | U8(_) | U16(_) | U32(_) | U64(_) | U128(_) => {
                let (x, wide, sign) = match *p {
                    I8(x) => (Ok(x as i128), false, true),
                    I16(x) => (Ok(x as i128), false, true),
                    I32(x) => (Ok(x as i128), false, true),
                    I64(x) => (Ok(x as i128), false, true),
                    I128(x) => (Ok(x), true, true),
                    U8(x) => (Ok(x as i128), false, false),
                    U16(x) => (Ok(x as i128), false, false),
                    U32(x) => (Ok(x as i128), false, false),
                    U64(x) => (Ok(x as i128), false, false),
                    U128(x) => (i128::try_from(x).map_err(|_| x), true, false),
                    _ => unreachable!(),
                };
                if let Some(f) = v.n {
                    let y = match x {
                        Ok(i) => i as f64,
                        Err(u) => u as f64,
                    };
                    let d = f.0(y).0;
                    return if wide { May(d) } else { Is(d) };
                }
                let Some(d) = integer(x) else { return No };
                // sizes are integers of 128 bits in formats not for people, and text otherwise
                let required = if v.size { !readable && matches!(p, U128(_)) } else { !sign || v.i.is_some() };
                if required { Is(d) } else { May(d) }
            }
        }
    })
}
pub fn meets(w: &Want, got: &De) -> bool {
    match w {
        Want::Is(d) => d.as_ref().ok() == got.as_ref(),
        Want::May(d) => got.is_none() || d.as_ref().ok() == got.as_ref(),
        Want::No => got.is_none(),
    }
}
/// The same for a deserialization which captures an error instead of refusing.
#[cfg(feature = "wrap")]
pub fn captures(w: &Want, got: &Option<Out>) -> bool {
    match w {
        Want::Is(d) => got.as_ref() == Some(d),
        Want::May(d) => !matches!(got, Some(Ok(x)) if d.as_ref() != Ok(x)),
        Want::No => !matches!(got, Some(Ok(_))),
    }
}
pub fn show_want(w: &Want) -> String {
    match w {
        Want::Is(d) => format!("{d:?}"),
        Want::May(d) => format!("nothing or {d:?}"),
        Want::No => "nothing".into(),
    }
}

fn kind(p: &Prim) -> String {
    engine::kind(p)
}
fn prim(v: &V, p: &Prim, label: &str, ctx: &mut Ctx) {
    let Some(s) = &v.serde else { return };
    for readable in [true, false] {
        ctx.exec(1);
        let w = match want(v, p, readable) {
            Ok(w) => w,
            Err(e) => return ctx.fail(v.name, label, format!("{p:?}: the entry point: {e}")),
        };
        let got = caught(|| (s.prim)(p, readable));
        match &got {
            Ok(g) if meets(&w, g) => {
                ctx.outcome(&format!("{:?} {} {}", v.fam, kind(p), if g.is_some() { "accept" } else { "reject" }), || label.to_string());
                if g.is_some() && v.round {
                    back(v, s, p, readable, g, label, ctx);
                }
            }
            _ => {
                let w = show_want(&w);
                ctx.fail(v.name, label, format!("{p:?} (human-readable: {readable}): {got:?}, the entry point gives {w}"));
            }
        }
    }
}
/// A domain is written without the trailing dot.
fn norm(v: &V, shown: De) -> De {
    if v.name.starts_with("Domain") { shown.map(|s| s.replace(".\"", "\"")) } else { shown }
}
fn back(v: &V, s: &Serde, p: &Prim, readable: bool, shown: &De, label: &str, ctx: &mut Ctx) {
    ctx.exec(3);
    let r = caught(|| {
        let Some(x) = (s.print)(p, readable) else { return Err("not reproduced".to_string()) };
        if Some(&x.shown) != shown.as_ref() {
            return Err(format!("{shown:?} and then {:?}", x.shown));
        }
        for (readable, y) in [(true, x.readable), (false, x.compact)] {
            let Some(y) = y else { return Err("not serialized".into()) };
            let again = (s.prim)(&y, readable);
            if again != norm(v, shown.clone()) {
                return Err(format!("{shown:?} is written as {y:?}, which gives {again:?}"));
            }
            // these ask for one kind, so formats which do not describe themselves carry them
            if matches!(v.fam, Fam::Size | Fam::Net | Fam::Mail | Fam::Url | Fam::Text | Fam::Mac | Fam::Semver | Fam::Uuid) && !v.name.starts_with("Domain") {
                let again = (s.strict)(&y, readable);
                if again != *shown {
                    return Err(format!("{shown:?} is written as {y:?}, which gives {again:?} in a format which does not describe itself"));
                }
            }
        }
        // JSON has no non-finite numbers, and its self-describing reader rounds fractions and integers wider than 64 bits
        let wide = v.fam == Fam::Int && x.json.as_ref().is_some_and(|t| t.parse::<i64>().is_err() && t.parse::<u64>().is_err());
        if v.fam != Fam::Num && !wide {
            let Some(t) = x.json else { return Err("not serialized as JSON".into()) };
            let again = (s.json_text)(&t);
            if again != norm(v, shown.clone()) {
                return Err(format!("{shown:?} is written as {t}, which gives {again:?}"));
            }
            let Some(t) = x.value else { return Err("not serialized as a JSON value".into()) };
            let again = (s.json_value)(t.clone());
            if again != norm(v, shown.clone()) {
                return Err(format!("{shown:?} is written as {t}, which gives {again:?}"));
            }
        }
        Ok(())
    });
    ctx.outcome(&format!("{:?} read back", v.fam), || label.to_string());
    match r {
        Ok(Ok(())) => (),
        Ok(Err(e)) => ctx.fail(v.name, label, e),
        Err(e) => ctx.fail(v.name, label, e),
    }
}

fn text(vs: &[&V], s: &str, ctx: &mut Ctx) {
    let label = show(s);
    let prims = [Prim::Str(s.into()), Prim::Borrowed(s.into()), Prim::Owned(s.into()), Prim::Bytes(s.into()), Prim::BorrowedBytes(s.into()), Prim::ByteBuf(s.into())];
    let quoted = serde_json::to_string(s).unwrap();
    for v in vs {
        for p in &prims {
            prim(v, p, &label, ctx);
        }
        let mut cs = s.chars();
        if let (Some(c), None) = (cs.next(), cs.next()) {
            prim(v, &Prim::Char(c), &label, ctx);
        }
        let Some(d) = &v.serde else { continue };
        ctx.exec(2);
        let a = caught(|| match v.j {
            Some(j) => ok(j(Value::String(s.into())).0),
            _ => ok((v.s.as_ref().unwrap().str)(s)),
        });
        let b = caught(|| (d.json_text)(&quoted));
        let c = caught(|| (d.json_value)(Value::String(s.into())));
        if a != b || a != c {
            ctx.fail(v.name, &label, format!("the entry point gives {a:?}, JSON text {b:?}, JSON value {c:?}"));
        }
        if v.j.is_some() {
            // the text as JSON itself
            ctx.exec(1);
            let a = caught(|| ok((v.s.as_ref().unwrap().str)(s)));
            let b = caught(|| (d.json_text)(s));
            if a.clone().ok().flatten() != b.clone().ok().flatten() || a.is_err() || b.is_err() {
                ctx.fail(v.name, &label, format!("parse_str gives {a:?}, JSON text {b:?}"));
            }
        }
    }
}
pub fn int_prims(x: i128) -> Vec<Prim> {
    use Prim::*;
    let mut v = vec![I128(x)];
    v.extend(x.try_into().ok().map(I8));
    v.extend(x.try_into().ok().map(I16));
    v.extend(x.try_into().ok().map(I32));
    v.extend(x.try_into().ok().map(I64));
    v.extend(x.try_into().ok().map(U8));
    v.extend(x.try_into().ok().map(U16));
    v.extend(x.try_into().ok().map(U32));
    v.extend(x.try_into().ok().map(U64));
    v.extend(x.try_into().ok().map(U128));
    v
}
pub fn more_ints(deep: bool) -> Vec<i128> {
    let mut v = int_values();
    v.extend(if deep { -70000..=70000 } else { -2000..=2000 });
    v.sort();
    v.dedup();
    v
}
pub fn json_want(v: &V, x: &Value) -> Want {
    match (x, v.j) {
        (_, Some(j)) => Want::Is(j(x.clone()).0),
        (Value::String(s), _) => Want::Is((v.s.as_ref().unwrap().str)(s)),
        (Value::Bool(b), _) => v.o.map_or(Want::No, |f| Want::Is(f(*b).0)),
        (Value::Number(n), _) => {
            let p = if let Some(u) = n.as_u64() { Prim::U64(u) } else if let Some(i) = n.as_i64() { Prim::I64(i) } else { Prim::F64(n.as_f64().unwrap()) };
            want(v, &p, true).unwrap()
        }
        _ => Want::No,
    }
}
fn json(vs: &[V], x: &Value, ctx: &mut Ctx) {
    let label = x.to_string();
    for v in vs {
        let Some(d) = &v.serde else { continue };
        ctx.exec(2);
        let w = caught(|| json_want(v, x));
        let a = caught(|| (d.json_text)(&label));
        let b = caught(|| (d.json_value)(x.clone()));
        let good = match (&w, &a, &b) {
            (Ok(w), Ok(a), Ok(b)) => meets(w, a) && meets(w, b) && a == b,
            _ => false,
        };
        ctx.outcome(&format!("{:?} JSON {}", v.fam, if matches!(a, Ok(Some(_))) { "accept" } else { "reject" }), || label.clone());
        if !good {
            ctx.fail(v.name, &label, format!("JSON text gives {a:?}, JSON value {b:?}, not what the entry point gives"));
        }
    }
}

macro_rules! lens {
    ($($id:ident ($($a:tt)*) $ty:ty;)*) => {
        $(
            #[derive(Debug, Validator)]
            #[validator($($a)*)]
            pub struct $id(pub $ty);
        )*
        pub fn lens() -> Vec<Len> {
            vec![$(Len {
                name: concat!(stringify!($($a)*), " ", stringify!($ty)),
                entry: |t| { let x: $ty = serde_json::from_str(t).ok()?; Some(out($id::parse_collection(x))) },
                entry_value: |t| { let x: $ty = serde_json::from_value(serde_json::from_str(t).ok()?).ok()?; Some(out($id::parse_collection(x))) },
                de: |t| [de(serde_json::from_str::<$id>(t)), serde_json::from_str::<Value>(t).ok().and_then(|v| de(serde_json::from_value::<$id>(v)))],
                back: |t| { let x = serde_json::from_str::<$id>(t).ok()?; de(serde_json::from_str::<$id>(&serde_json::to_string(&x).ok()?)) },
                #[cfg(feature = "wrap")]
                wrap: |t| serde_json::from_str::<validators::Result<$id, LengthError, $ty>>(t).ok().map(|r| out(r.into_std_result())),
            }),*]
        }
    };
}
pub struct Len {
    pub name: &'static str,
    /// None: not a collection of that kind at all
    pub entry: fn(&str) -> Option<Out>,
    /// the same by way of a JSON value, where the last of equal keys is kept
    pub entry_value: fn(&str) -> Option<Out>,
    pub de: fn(&str) -> [De; 2],
    pub back: fn(&str) -> De,
    #[cfg(feature = "wrap")]
    pub wrap: fn(&str) -> Option<Out>,
}
#[cfg(feature = "wrap")]
use validators::errors::LengthError;
use std::collections::{BTreeMap, BTreeSet};
lens! {
    LenVec (length(min = 1, max = 3)) Vec<u8>;
    LenSet (length(min = 2)) BTreeSet<String>;
    LenMap (length(max = 2)) BTreeMap<String, i32>;
    LenJson (length(min = 1, max = 1)) serde_json::Map<String, Value>;
    LenAll (length(min = 0)) Vec<Value>;
}
pub fn collections() -> Vec<String> {
    let items = ["0", "1", "255", "256", "-1", "\"a\"", "\"b\"", "null", "[]"];
    let mut v = vec![];
    for n in 0..=4usize {
        for mut k in 0..items.len().pow(n as u32) {
            let mut parts = vec![];
            for _ in 0..n {
                parts.push(items[k % items.len()]);
                k /= items.len();
            }
            v.push(format!("[{}]", parts.join(",")));
        }
    }
    let keys = ["\"a\"", "\"b\"", "\"c\"", ""];
    let vals = ["1", "-1", "\"a\"", "null"];
    for n in 0..=3u32 {
        for mut k in 0..16usize.pow(n) {
            let mut parts = vec![];
            for _ in 0..n {
                parts.push(format!("{}:{}", keys[k % 4], vals[k / 4 % 4]));
                k /= 16;
            }
            v.push(format!("{{{}}}", parts.join(",")));
        }
    }
    v.extend(["null", "1", "\"a\"", "[", "", "true"].map(String::from));
    v
}
fn collection(lens: &[Len], t: &str, ctx: &mut Ctx) {
    for l in lens {
        ctx.exec(3);
        let w = caught(|| (l.entry)(t));
        let g = caught(|| (l.de)(t));
        let want = w.clone().ok().flatten().and_then(ok);
        ctx.outcome(if want.is_some() { "collection accept" } else if matches!(w, Ok(None)) { "collection malformed" } else { "collection reject" }, || t.to_string());
        let by_value = caught(|| (l.entry_value)(t)).ok().flatten().and_then(ok);
        if !matches!(&g, Ok([a, b]) if *a == want && *b == by_value) || w.is_err() {
            ctx.fail(l.name, t, format!("parse_collection gives {w:?}, deserialization {g:?}"));
        }
        if want.is_some() {
            let b = caught(|| (l.back)(t));
            if b != Ok(want.clone()) {
                ctx.fail(l.name, t, format!("{want:?} reads back as {b:?}"));
            }
        }
    }
}
/// Inputs which are no text.
pub fn prims(deep: bool) -> Vec<Prim> {
    let mut v = vec![Prim::Unit, Prim::None, Prim::Bool(true), Prim::Bool(false)];
    for x in more_ints(deep) {
        v.extend(int_prims(x));
    }
    for d in 0..40u32 {
        v.extend([Prim::U128(u128::MAX - d as u128), Prim::U128(u128::MAX >> d), Prim::U128((u128::MAX >> d) + (d > 0) as u128)]);
    }
    for x in float_values() {
        v.push(Prim::F64(x));
        v.push(Prim::F32(x as f32));
    }
    for b in byte_words() {
        v.extend([Prim::Bytes(b.clone()), Prim::BorrowedBytes(b.clone()), Prim::ByteBuf(b)]);
    }
    v
}
pub fn byte_words() -> Vec<Vec<u8>> {
    let alphabet: &[u8] = b"MA7=a\x00\x80\xc3\xa9\xff";
    let mut v: Vec<Vec<u8>> = vec![vec![]];
    let mut level = v.clone();
    for _ in 0..3 {
        level = level.iter().flat_map(|w| alphabet.iter().map(move |b| [&w[..], &[*b]].concat())).collect();
        v.extend(level.clone());
    }
    for b in 0..=255u8 {
        v.push(vec![b'M', b'Z', b'X', b]);
        v.push(vec![b'M', b'Z', b'X', b'W', b'6', b'Y', b'T', b]);
    }
    v
}

pub fn c20(run: &mut Run) {
    let vs = types::all();
    run.note("derive sites", vs.len() as u64);
    texts(run, &vs, run.thorough, 3, 4, text);
    let deep = run.thorough;
    let chars: Vec<char> = ('\0'..=char::MAX).filter(|&c| deep || (c as u32) < 0x800 || (c as u32) % 97 == 0 || c.is_whitespace()).collect();
    let all: Vec<&V> = vs.iter().filter(|v| v.fam != Fam::Phone && !v.name.starts_with("RegexA")).collect();
    run.cases("characters", &chars, |c, x| {
        for v in &all {
            prim(v, &Prim::Char(*c), &show(&c.to_string()), x);
        }
    });
    run.cases("values which are no text", &prims(deep), |p, c| {
        let label = format!("{p:?}");
        for v in &vs {
            prim(v, p, &label, c);
        }
    });
    run.cases("JSON values", &json_values(true), |x, c| json(&vs, x, c));
    let lens = lens();
    run.cases("collections", &collections(), |t, c| collection(&lens, t, c));
    for l in ["collection accept", "collection reject", "collection malformed"] {
        run.require(l, 100);
    }
    for fam in ["B32", "B64", "B64U", "Size", "Bool", "Net", "Mail", "Url", "Json", "Text", "Mac", "Num", "Phone", "Semver", "Int", "Uuid"] {
        for kind in ["Str", "Borrowed", "Owned"] {
            run.require(&format!("{fam} {kind} accept"), 3);
            run.require(&format!("{fam} {kind} reject"), 20);
        }
        if fam != "Json" && fam != "Phone" {
            run.require(&format!("{fam} read back"), 20);
        }
    }
    for l in ["B32 Bytes accept", "B64 ByteBuf accept", "B64U Bytes accept", "Bool Char accept", "Bool I8 accept", "Bool U128 accept", "Bool Bool accept", "Int I128 accept", "Int U64 accept", "Int U64 reject", "Num F32 accept", "Num F64 accept", "Num I64 accept", "Num U64 reject", "Size U128 accept", "Json U64 accept", "Json Bool accept"] {
        run.require(l, 1);
    }
}
