//! C21: the Result wrapper.
use crate::ops::*;
use crate::ser::{self, captures, int_prims, json_want, more_ints, show_want, want, Want};
use crate::val::{Prim, Val};
use crate::{caught, float_values, json_values, texts, types};
use engine::{show, Ctx, Run, R};
use serde::de::DeserializeOwned;
use serde::Deserialize;
use serde_json::Value;
use std::fmt::Debug;
use std::ops::{Deref, DerefMut};
use validators::prelude::*;
use validators::Result as W;

/// One construction of the wrapper for each kind of source.
#[derive(Default)]
pub struct Wraps {
    pub c: Option<fn(char) -> Out>,
    pub i: Option<Vec<fn(i128) -> Option<Out>>>,
    pub u: Option<Vec<fn(u128) -> Option<Out>>>,
    pub n: Option<(fn(f64) -> Out, fn(f32) -> Out)>,
    pub o: Option<fn(bool) -> Out>,
    pub j: Option<fn(Value) -> Out>,
    pub de: Option<Des>,
}
pub struct Des {
    pub prim: fn(&Prim, bool) -> Option<Out>,
    pub text: fn(&str) -> Option<Out>,
    pub value: fn(Value) -> Option<Out>,
}
/// What a wrapper holds, after going through every accessor and conversion.
fn held<T: Debug, E: Fails>(mut w: W<T, E>) -> Out {
    let debug = format!("{w:?}");
    let all = [
        format!("{:?}", w.as_std_result()),
        format!("{:?}", w.deref()),
        format!("{:?}", w.deref_mut()),
        format!("{:?}", w.as_ref()),
    ];
    let good = w.is_ok();
    let std: Result<T, E> = w.into();
    let a = format!("{std:?}");
    let w: W<T, E> = W::from(std);
    let b = format!("{w:?}");
    let std = w.into_std_result();
    let c = format!("{std:?}");
    let w: W<T, E> = W::new(std);
    let d = format!("{w:?}");
    let r = w.into_std_result();
    assert!(all.iter().chain([&a, &b, &c, &d]).all(|x| *x == debug) && r.is_ok() == good && debug == format!("{r:?}"), "the wrapper changes its outcome: {debug} {all:?} {a} {b} {c} {d}");
    out(r)
}
pub fn strs<T: ValidateString<Error = E> + Debug, E: Fails>() -> [(&'static str, fn(&str) -> Out); 3] {
    [
        ("From<&str>", |s| held(W::<T, E>::from(s))),
        ("From<String>", |s| held(W::<T, E>::from(s.to_string()))),
        ("FromStr", |s| match s.parse::<W<T, E>>() {
            Ok(w) => held(w),
            Err(_) => panic!("FromStr raises the error"),
        }),
    ]
}
pub fn bytes<T: ValidateBytes<Error = E> + Debug, E: Fails>() -> [(&'static str, fn(&[u8]) -> Out); 2] {
    [("From<&[u8]>", |s| held(W::<T, E>::from(s))), ("From<Vec<u8>>", |s| held(W::<T, E>::from(s.to_vec())))]
}
pub fn cw<T: ValidateChar<Error = E> + Debug, E: Fails>() -> fn(char) -> Out {
    |x| held(W::<T, E>::from(x))
}
pub fn ow<T: ValidateBoolean<Error = E> + Debug, E: Fails>() -> fn(bool) -> Out {
    |x| held(W::<T, E>::from(x))
}
pub fn jw<T: ValidateJsonValue<Error = E> + Debug, E: Fails>() -> fn(Value) -> Out {
    |x| held(W::<T, E>::from(x))
}
pub fn nw<T: ValidateNumber<Error = E> + Debug, E: Fails>() -> (fn(f64) -> Out, fn(f32) -> Out) {
    (|x| held(W::<T, E>::from(x)), |x| held(W::<T, E>::from(x)))
}
macro_rules! ints {
    ($f:ident $t:ident $big:ident $($w:ident)*) => {
        /// in the order of the entry points in `ops`
        pub fn $f<T: $t<Error = E> + Debug, E: Fails>() -> Vec<fn($big) -> Option<Out>> {
            vec![$(|x| Some(held(W::<T, E>::from(<$w>::try_from(x).ok()?)))),*]
        }
    };
}
ints!(iw ValidateSignedInteger i128 i128 i8 i16 i32 i64 isize);
ints!(uw ValidateUnsignedInteger u128 u128 u8 u16 u32 u64 usize);
pub fn dw<T: Debug, E: Fails>() -> Des
where
    W<T, E>: DeserializeOwned,
{
    Des {
        prim: |p, readable| W::<T, E>::deserialize(Val(p, readable)).ok().map(held),
        text: |t| serde_json::from_str::<W<T, E>>(t).ok().map(held),
        value: |v| serde_json::from_value::<W<T, E>>(v).ok().map(held),
    }
}

fn same(v: &V, input: &str, what: &str, entry: &R<Out>, got: &R<Out>, ctx: &mut Ctx) {
    ctx.exec(1);
    if entry.is_err() || entry != got {
        ctx.fail(v.name, input, format!("{what} holds {got:?}, the entry point gives {entry:?}"));
    }
}
fn prim(v: &V, p: &Prim, label: &str, ctx: &mut Ctx) {
    let Some(d) = &v.w.de else { return };
    for readable in [true, false] {
        ctx.exec(1);
        let w = match want(v, p, readable) {
            Ok(w) => w,
            Err(e) => return ctx.fail(v.name, label, format!("{p:?}: the entry point: {e}")),
        };
        let got = caught(|| (d.prim)(p, readable));
        if let (Want::Is(o), Ok(Some(_))) = (&w, &got) {
            ctx.outcome(&format!("{:?} {} {}", v.fam, engine::kind(p), if o.is_ok() { "holds a value" } else { "captures" }), || label.to_string());
        }
        match &got {
            Ok(g) if captures(&w, g) => (),
            _ => ctx.fail(v.name, label, format!("{p:?} (human-readable: {readable}): {got:?}, the entry point gives {}", show_want(&w))),
        }
    }
}
fn text(vs: &[&V], s: &str, ctx: &mut Ctx) {
    let label = show(s);
    let quoted = serde_json::to_string(s).unwrap();
    let prims = [Prim::Str(s.into()), Prim::Borrowed(s.into()), Prim::Owned(s.into()), Prim::Bytes(s.into()), Prim::ByteBuf(s.into())];
    for v in vs {
        if let Some(o) = &v.s {
            let e = caught(|| (o.str)(s));
            for (what, f) in &o.wrap {
                same(v, &label, what, &e, &caught(|| f(s)), ctx);
            }
        }
        if let Some(o) = &v.b {
            let e = caught(|| (o.slice)(s.as_bytes()));
            for (what, f) in &o.wrap {
                same(v, &label, what, &e, &caught(|| f(s.as_bytes())), ctx);
            }
        }
        for p in &prims {
            prim(v, p, &label, ctx);
        }
        let x = Value::String(s.into());
        json(v, &x, &quoted, ctx);
    }
}
fn json(v: &V, x: &Value, t: &str, ctx: &mut Ctx) {
    let Some(d) = &v.w.de else { return };
    ctx.exec(2);
    let w = caught(|| json_want(v, x));
    let a = caught(|| (d.text)(t));
    let b = caught(|| (d.value)(x.clone()));
    if !matches!((&w, &a, &b), (Ok(w), Ok(a), Ok(b)) if captures(w, a) && captures(w, b)) {
        ctx.fail(v.name, t, format!("JSON text gives {a:?}, JSON value {b:?}, the entry point {:?}", w.as_ref().map(show_want)));
    }
}

pub fn c21(run: &mut Run) {
    let vs = types::all();
    run.note("derive sites", vs.len() as u64);
    texts(run, &vs, run.thorough, 3, 4, text);
    let deep = run.thorough;
    let chars: Vec<char> = ('\0'..=char::MAX).filter(|&c| deep || (c as u32) < 0x800 || (c as u32) % 97 == 0 || c.is_whitespace()).collect();
    run.cases("characters", &chars, |&ch, c| {
        let label = show(&ch.to_string());
        for v in &vs {
            if let (Some(f), Some(g)) = (v.c, v.w.c) {
                same(v, &label, "From<char>", &caught(|| f(ch).0), &caught(|| g(ch)), c);
                prim(v, &Prim::Char(ch), &label, c);
            }
        }
    });
    run.cases("booleans", &[true, false], |&x, c| {
        for v in &vs {
            if let (Some(f), Some(g)) = (v.o, v.w.o) {
                same(v, &x.to_string(), "From<bool>", &caught(|| f(x).0), &caught(|| g(x)), c);
            }
        }
    });
    run.cases("integers", &more_ints(deep), |&x, c| {
        let label = x.to_string();
        for v in &vs {
            if let (Some(o), Some(w)) = (&v.i, &v.w.i) {
                assert_eq!(o.len(), w.len());
                for ((what, f), g) in o.iter().zip(w) {
                    if let (Ok(Some(e)), g) = (caught(|| f(x)), caught(|| g(x))) {
                        c.outcome(&format!("{:?} signed", v.fam), || label.clone());
                        same(v, &label, what, &Ok(e.0), &g.map(|g| g.expect("same width")), c);
                    }
                }
            }
            if let (Some(o), Some(w), Ok(x)) = (&v.u, &v.w.u, u128::try_from(x)) {
                assert_eq!(o.len(), w.len());
                for ((what, f), g) in o.iter().zip(w) {
                    if let (Ok(Some(e)), g) = (caught(|| f(x)), caught(|| g(x))) {
                        c.outcome(&format!("{:?} unsigned", v.fam), || label.clone());
                        same(v, &label, what, &Ok(e.0), &g.map(|g| g.expect("same width")), c);
                    }
                }
            }
            for p in int_prims(x) {
                prim(v, &p, &label, c);
            }
        }
    });
    run.cases("floats", &float_values(), |&x, c| {
        let label = format!("{x:?}");
        for v in &vs {
            if let (Some(f), Some(g)) = (v.n, v.w.n) {
                same(v, &label, "From<f64>", &caught(|| f.0(x).0), &caught(|| g.0(x)), c);
                same(v, &label, "From<f32>", &caught(|| f.1(x as f32).0), &caught(|| g.1(x as f32)), c);
            }
        }
    });
    run.cases("values which are no text", &ser::prims(deep), |p, c| {
        let label = format!("{p:?}");
        for v in &vs {
            prim(v, p, &label, c);
        }
    });
    run.cases("byte words", &ser::byte_words(), |b, c| {
        let label = format!("bytes {b:02x?}");
        for v in &vs {
            if let Some(o) = &v.b {
                let e = caught(|| (o.slice)(b));
                for (what, f) in &o.wrap {
                    same(v, &label, what, &e, &caught(|| f(b)), c);
                }
            }
        }
    });
    run.cases("JSON values", &json_values(true), |x, c| {
        let label = x.to_string();
        for v in &vs {
            if let (Some(f), Some(g)) = (v.j, v.w.j) {
                same(v, &label, "From<Value>", &caught(|| f(x.clone()).0), &caught(|| g(x.clone())), c);
            }
            json(v, x, &label, c);
        }
    });
    let lens = ser::lens();
    run.cases("collections", &ser::collections(), |t, c| {
        for l in &lens {
            c.exec(1);
            let w = caught(|| (l.entry)(t));
            let g = caught(|| (l.wrap)(t));
            c.outcome(match &w { Ok(Some(Ok(_))) => "collection held", Ok(Some(Err(_))) => "collection captured", _ => "no collection" }, || t.to_string());
            if w.is_err() || w != g {
                c.fail(l.name, t, format!("the wrapper {g:?}, the entry point {w:?}"));
            }
        }
    });
    for l in ["collection held", "collection captured"] {
        run.require(l, 50);
    }
    for fam in ["B32", "B64", "B64U", "Size", "Bool", "Net", "Mail", "Url", "Json", "Text", "Mac", "Num", "Phone", "Semver", "Int", "Uuid"] {
        for kind in ["Str", "Borrowed", "Owned"] {
            run.require(&format!("{fam} {kind} holds a value"), 3);
            run.require(&format!("{fam} {kind} captures"), 20);
        }
    }
    for l in ["B32 Bytes holds", "B64U ByteBuf captures", "Bool Char holds", "Bool Char captures", "Bool I64 captures", "Int U64 captures", "Int I128 holds", "Num F64 captures", "Num U64 holds", "Size U128 holds", "Size U128 captures", "Json Bool holds", "Json Bool captures", "Int signed", "Bool unsigned"] {
        run.require(l, 1);
    }
}
