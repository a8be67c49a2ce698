//! C15
use crate::{Kind, Range};
use crate::Name;
use engine::{guard, Ctx, Run, Space, R};
use validators::{errors::NumberError, prelude::*};

#[derive(Clone, Copy, PartialEq)]
pub enum Nan {
    Must,
    Allow,
    Disallow,
}
pub struct Ops {
    strs: [(&'static str, fn(&str) -> R<f64>); 2],
    vstr: fn(&str) -> R<()>,
    p64: fn(f64) -> R<f64>,
    v64: fn(f64) -> R<()>,
    p32: fn(f32) -> R<f64>,
    v32: fn(f32) -> R<()>,
}
pub struct Cfg {
    name: &'static str,
    /// stored as f32
    single: bool,
    nan: Nan,
    range: Range<f64>,
    ops: Ops,
}
pub trait Holds {
    fn get(&self) -> f64;
}
fn ops<T: Holds + ValidateString<Error = NumberError> + ValidateNumber<Error = NumberError>>() -> Ops {
    Ops {
        strs: [
            ("parse_str", |s| T::parse_str(s).map(|v| v.get()).map_err(|e| e.name())),
            ("parse_string", |s| T::parse_string(s.to_string()).map(|v| v.get()).map_err(|e| e.name())),
        ],
        vstr: |s| T::validate_str(s).map_err(|e| e.name()),
        p64: |x| T::parse_f64(x).map(|v| v.get()).map_err(|e| e.name()),
        v64: |x| T::validate_f64(x).map_err(|e| e.name()),
        p32: |x| T::parse_f32(x).map(|v| v.get()).map_err(|e| e.name()),
        v32: |x| T::validate_f32(x).map_err(|e| e.name()),
    }
}
impl_kind!(NumberError: TooSmall TooLarge Forbidden NaNMust NaNDisallow ParseFloatError(_));
mod gen {
    use super::*;
    use crate::{Kind, Range};
    include!(concat!(env!("OUT_DIR"), "/number.rs"));
}

/// The errors a value deserves (none: accepted).  An `f32` widened to `f64` compares like the `f32`.
fn model(c: &Cfg, x: f64) -> [Option<&'static str>; 2] {
    if x.is_nan() {
        [(c.nan == Nan::Disallow).then_some("NaNDisallow"), None]
    } else {
        [(c.nan == Nan::Must).then_some("NaNMust"), c.range.judge(x)]
    }
}
fn same(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan()
}

/// `want`: the value in the width of the struct.
fn judge(c: &Cfg, want: f64, inp: &dyn Fn() -> String, what: &str, got: &R<f64>, ctx: &mut Ctx) {
    ctx.exec(1);
    let m = model(c, want);
    let ok = match got {
        Ok(y) => m == [None, None] && same(*y, want),
        Err(e) => m.iter().flatten().any(|x| x == e),
    };
    if !ok {
        ctx.fail(c.name, &inp(), format!("{what}: value {want:?}, model {m:?}, code {got:?}"));
    }
}
fn label(c: &Cfg, x: f64) -> &'static str {
    let k = c.range.kind;
    match model(c, x) {
        [None, None] if x.is_nan() => "accept NaN",
        [None, None] if x.is_infinite() => "accept infinity",
        [None, None] if k == Kind::Inside => "accept inside",
        [None, None] if k == Kind::Outside => "accept outside",
        [None, None] => "accept unlimited",
        [None, Some(e)] | [Some(e), _] => e,
    }
}
fn value(cfgs: &[Cfg], x: f64, ctx: &mut Ctx) {
    let inp = || format!("{x:?} = {:#x}", x.to_bits());
    for c in cfgs {
        let want = if c.single { x as f32 as f64 } else { x };
        ctx.outcome(label(c, want), inp);
        judge(c, want, &inp, "parse_f64", &guard(|| (c.ops.p64)(x)), ctx);
        judge(c, want, &inp, "validate_f64", &guard(|| (c.ops.v64)(x)).map(|_| want), ctx);
    }
}
fn single(cfgs: &[&Cfg], x: f32, ctx: &mut Ctx) {
    let want = x as f64;
    let inp = || format!("{x:?}f32 = {:#x}", x.to_bits());
    for c in cfgs {
        judge(c, want, &inp, "parse_f32", &guard(|| (c.ops.p32)(x)), ctx);
        judge(c, want, &inp, "validate_f32", &guard(|| (c.ops.v32)(x)).map(|_| want), ctx);
    }
}
fn text(cfgs: &[&Cfg], s: &str, ctx: &mut Ctx) {
    for c in cfgs {
        let want = if c.single { s.parse::<f32>().map(|x| x as f64) } else { s.parse::<f64>() };
        let mut results = [("", Ok(0.0)), ("", Ok(0.0)), ("validate_str", Err("".into()))];
        for (i, (what, f)) in c.ops.strs.iter().enumerate() {
            results[i] = (what, guard(|| f(s)));
        }
        results[2].1 = guard(|| (c.ops.vstr)(s)).map(|_| want.clone().unwrap_or_default());
        for (what, got) in &results {
            match want {
                Ok(x) => {
                    ctx.outcome("text is a number", || engine::show(s));
                    judge(c, x, &|| s.to_string(), what, got, ctx);
                }
                Err(_) => {
                    ctx.exec(1);
                    ctx.outcome("text is no number", || engine::show(s));
                    if !matches!(got, Err(e) if e == "ParseFloatError") {
                        ctx.fail(c.name, s, format!("{what}: no number, code {got:?}"));
                    }
                }
            }
        }
    }
}

pub fn explore(run: &mut Run) {
    let cfgs = gen::cfgs();
    let all: Vec<&Cfg> = cfgs.iter().collect();
    run.note("configurations", cfgs.len() as u64);
    let few: Vec<&Cfg> = cfgs.iter().step_by(run.pick(23, 5)).collect();
    // every f64 exponent and sign with extreme and middling mantissas
    let mut v = vec![];
    for e in 0..4096u64 {
        for m in [0u64, 1, 0x8000000000000, 0xfffffffffffff, 0x999999999999a, 0x5555555555555, 0x20000000, 0x10000000, 0x1fffffff] {
            v.push(f64::from_bits(e << 52 | m));
        }
    }
    // neighbourhoods of every limit in both widths
    let mut keys = vec![0.0f64, 1.0, 255.0, 16777215.0, 9007199254740992.0, f32::MAX as f64, f32::MIN_POSITIVE as f64, f64::MAX, f64::MIN_POSITIVE, 0.1f32 as f64];
    for c in &cfgs {
        keys.extend([c.range.min, c.range.max].into_iter().flatten());
    }
    keys.sort_by(|a, b| a.total_cmp(b));
    keys.dedup();
    for &k in &keys {
        for k in [k, -k] {
            for d in -40i64..=40 {
                v.push(f64::from_bits((k.to_bits() as i64).wrapping_add(d) as u64));
                let w = (k as f32).to_bits() as i32;
                let w = f32::from_bits(w.wrapping_add(d as i32) as u32) as f64;
                v.push(w);
                // around the rounding border between two f32
                for e in [-1i64, 1, 0x10000000, 0xfffffff, 0x10000001] {
                    v.push(f64::from_bits((w.to_bits() as i64).wrapping_add(e) as u64));
                }
            }
        }
    }
    v.sort_by(|a, b| a.total_cmp(b));
    v.dedup_by_key(|x| x.to_bits());
    run.cases("f64 values", &v, |&x, c| value(&cfgs, x, c));
    let high: Vec<u32> = (0..1 << 16).collect();
    run.cases("f32 values: every high half", &high, |&h, c| {
        for l in [0u32, 1, 0x7fff, 0x8000, 0xffff, 0xcccd, 0xfffe] {
            single(&few, f32::from_bits(h << 16 | l), c);
        }
    });
    let near: Vec<f32> = v.iter().map(|&x| x as f32).collect();
    run.cases("f32 values near the limits", &near, |&x, c| single(&all, x, c));
    if run.thorough {
        let some: Vec<&Cfg> = cfgs.iter().filter(|c| c.single).step_by(29).collect();
        run.note("configurations for all f32", some.len() as u64);
        run.cases("all 2^32 f32 values", &high, |&h, c| {
            for l in 0..1u32 << 16 {
                single(&some, f32::from_bits(h << 16 | l), c);
            }
        });
    }
    // text
    run.explore(&Space::chars("number words", &[""], "0125.-+eEinfa _x", run.pick(5, 6)), |s, c| text(&few, s, c));
    run.explore(&Space::new("number texts", &["", "-", "+"], &["1", "2", "5", "0", ".", "e", "-", "inf", "INFINITY", "nan", "NaN", "9007199254740993", "3402823", "38", " "], run.pick(3, 4)), |s, c| text(&all, s, c));
    run.cases("texts of the values", &v, |x, c| {
        text(&few, &format!("{x}"), c);
        text(&few, &format!("{x:e}"), c);
        text(&few, &format!("{x:?}"), c);
    });
    let near: Vec<f64> = keys.iter().flat_map(|&k| (-3i64..=3).flat_map(move |d| [f64::from_bits((k.to_bits() as i64).wrapping_add(d) as u64), f32::from_bits(((k as f32).to_bits() as i32).wrapping_add(d as i32) as u32) as f64])).collect();
    run.cases("texts of the values near the limits", &near, |x, c| {
        text(&all, &format!("{x:?}"), c);
        text(&all, &format!("{:?}", -x), c);
        text(&all, &format!("{x:.60}"), c);
        text(&all, &format!("{:?}", *x as f32), c);
    });
    let lone: Vec<&Cfg> = [0, cfgs.len() / 2, cfgs.len() - 1].map(|i| &cfgs[i]).into();
    run.scalars("numbers", &["1.5", "-2e1", "inf", "nan", ""], 0x110000, |s, c| text(&lone, s, c));
    for l in ["accept NaN", "accept infinity", "accept inside", "accept outside", "accept unlimited", "TooSmall", "TooLarge", "Forbidden", "NaNMust", "NaNDisallow", "text is a number", "text is no number"] {
        run.require(l, 100);
    }
}
