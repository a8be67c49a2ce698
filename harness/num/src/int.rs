//! C16
use crate::{Kind, Range};
use crate::Name;
use engine::{guard, Ctx, Run, Space, R};
use std::fmt::{Debug, Display};
use validators::{errors::{SignedIntegerError, UnsignedIntegerError}, prelude::*};

/// One entry point for integers: nothing if the wide integer does not fit its argument.
type Entry<W> = (&'static str, fn(W) -> Option<R<Option<W>>>);

pub struct Ops<W> {
    strs: [(&'static str, fn(&str) -> R<Option<W>>); 3],
    ints: Vec<Entry<W>>,
}
pub struct Cfg<W> {
    name: &'static str,
    low: W,
    high: W,
    range: Range<W>,
    ops: Ops<W>,
}
pub trait Holds<W> {
    fn get(&self) -> W;
}
macro_rules! make_ops {
    ($f:ident $wide:ident $tr:ident $err:ident: $($ty:ident $p:ident $v:ident),*) => {
        fn $f<T: Holds<$wide> + ValidateString<Error = $err> + $tr<Error = $err>>() -> Ops<$wide> {
            Ops {
                strs: [
                    ("parse_str", |s| T::parse_str(s).map(|v| Some(v.get())).map_err(|e| e.name())),
                    ("parse_string", |s| T::parse_string(s.to_string()).map(|v| Some(v.get())).map_err(|e| e.name())),
                    ("validate_str", |s| T::validate_str(s).map(|_| None).map_err(|e| e.name())),
                ],
                ints: vec![$(
                    (stringify!($p), |x| $ty::try_from(x).ok().map(|x| T::$p(x).map(|v| Some(v.get())).map_err(|e| e.name()))),
                    (stringify!($v), |x| $ty::try_from(x).ok().map(|x| T::$v(x).map(|_| None).map_err(|e| e.name()))),
                )*],
            }
        }
    };
}
make_ops!(signed_integer_ops i128 ValidateSignedInteger SignedIntegerError: i8 parse_i8 validate_i8, i16 parse_i16 validate_i16, i32 parse_i32 validate_i32, i64 parse_i64 validate_i64, i128 parse_i128 validate_i128, isize parse_isize validate_isize);
make_ops!(unsigned_integer_ops u128 ValidateUnsignedInteger UnsignedIntegerError: u8 parse_u8 validate_u8, u16 parse_u16 validate_u16, u32 parse_u32 validate_u32, u64 parse_u64 validate_u64, u128 parse_u128 validate_u128, usize parse_usize validate_usize);


impl_kind!(SignedIntegerError: TooSmall TooLarge Forbidden ParseIntError(_));
impl_kind!(UnsignedIntegerError: TooSmall TooLarge Forbidden ParseIntError(_));
mod gen {
    use super::*;
    use crate::{Kind, Range};
    include!(concat!(env!("OUT_DIR"), "/int.rs"));
}

pub trait Wide: Copy + PartialOrd + Debug + Display + std::fmt::LowerHex + Sync + 'static {
    const SIGNED: bool;
    /// The value of ASCII digits, or whether it lies above all others.
    fn read(negative: bool, digits: &str) -> Result<Self, bool>;
}
macro_rules! wide {
    ($t:ident $signed:literal) => {
        impl Wide for $t {
            const SIGNED: bool = $signed;
            fn read(negative: bool, digits: &str) -> Result<Self, bool> {
                let mut x: $t = 0;
                for d in digits.bytes() {
                    let d = (d - b'0') as $t;
                    let next = x.checked_mul(10);
                    x = (if negative { next.and_then(|x| x.checked_sub(d)) } else { next.and_then(|x| x.checked_add(d)) }).ok_or(!negative)?;
                }
                Ok(x)
            }
        }
    };
}
wide!(i128 true);
wide!(u128 false);

fn model<W: Wide>(c: &Cfg<W>, x: W) -> Option<&'static str> {
    if x < c.low {
        Some("TooSmall")
    } else if x > c.high {
        Some("TooLarge")
    } else {
        c.range.judge(x)
    }
}
fn value<W: Wide>(cfgs: &[&Cfg<W>], x: W, ctx: &mut Ctx) {
    for c in cfgs {
        let m = model(c, x);
        let fits = x >= c.low && x <= c.high;
        ctx.outcome(
            match (m, c.range.kind) {
                (None, Kind::Unlimited) => "accept unlimited",
                (None, Kind::Inside) => "accept inside",
                (None, Kind::Outside) => "accept outside",
                (Some("TooSmall"), _) if !fits => "below the type",
                (Some(_), _) if !fits => "above the type",
                (Some(e), _) => e,
            },
            || x.to_string(),
        );
        for (what, f) in &c.ops.ints {
            let Some(got) = guard(|| f(x).transpose()).transpose() else { continue };
            ctx.exec(1);
            let ok = match (&m, &got) {
                (None, Ok(y)) => y.is_none_or(|y| x == y),
                (Some(e), Err(f)) => e == f,
                _ => false,
            };
            if !ok {
                ctx.fail(c.name, &x.to_string(), format!("{what}: model {m:?}, code {got:?}"));
            }
        }
    }
}
fn text<W: Wide>(cfgs: &[&Cfg<W>], s: &str, ctx: &mut Ctx) {
    let (negative, digits) = match s.as_bytes().first() {
        Some(b'+') => (false, &s[1..]),
        Some(b'-') if W::SIGNED => (true, &s[1..]),
        _ => (false, s),
    };
    let number = !digits.is_empty() && digits.bytes().all(|b| b.is_ascii_digit());
    let read = number.then(|| W::read(negative, digits));
    ctx.outcome(if number { "text is an integer" } else { "text is no integer" }, || engine::show(s));
    for c in cfgs {
        // text out of the type may also be reported by the number parser
        let (m, outside) = match read {
            None => (Some("ParseIntError"), false),
            Some(Err(above)) => (Some(if above { "TooLarge" } else { "TooSmall" }), true),
            Some(Ok(x)) => (model(c, x), x < c.low || x > c.high),
        };
        for (what, f) in &c.ops.strs {
            ctx.exec(1);
            let got = guard(|| f(s));
            let ok = match (&m, &got) {
                (None, Ok(y)) => y.is_none_or(|y| read == Some(Ok(y))),
                (Some(e), Err(f)) => e == f || outside && f == "ParseIntError",
                _ => false,
            };
            if !ok {
                ctx.fail(c.name, s, format!("{what}: model {m:?}, code {got:?}"));
            }
        }
    }
}

fn side<W: Wide>(run: &mut Run, name: &str, cfgs: Vec<Cfg<W>>, near: &[W], wide: &[W]) {
    run.note("configurations", cfgs.len() as u64);
    let all: Vec<&Cfg<W>> = cfgs.iter().collect();
    let small: Vec<&Cfg<W>> = cfgs.iter().filter(|c| c.name.ends_with('8') && !c.name.ends_with("28")).collect();
    run.cases(&format!("{name}: all integers around zero"), near, |&x, c| value(&small, x, c));
    run.cases(&format!("{name}: around every power of two"), wide, |&x, c| value(&all, x, c));
    run.explore(&Space::chars(&format!("{name}: words"), &["", "+", "-", "0", "12", "-12"], "0125789+- _.", run.pick(4, 5)), |s, c| text(&all, s, c));
    run.cases(&format!("{name}: decimal text"), wide, |&x, c| {
        for s in [format!("{x}"), format!("+{x}"), format!("-{x}"), format!("0{x}"), format!("{x}0"), format!(" {x}"), format!("{x} "), format!("{x:#x}"), format!("{x}.0"), format!("{x}_0")] {
            text(&all, &s, c);
        }
        let s = x.to_string();
        let (sign, digits) = s.split_at(s.starts_with('-') as usize);
        text(&all, &format!("{sign}000{digits}"), c);
    });
    let lone: Vec<&Cfg<W>> = [0, cfgs.len() / 2, cfgs.len() - 1].map(|i| &cfgs[i]).into();
    run.scalars(name, &["12", "-5", "+5", "0", ""], 0x110000, |s, c| text(&lone, s, c));
    run.cases(&format!("{name}: text of integers around zero"), near, |&x, c| text(&small, &x.to_string(), c));
}
pub fn explore(run: &mut Run) {
    let reach = run.pick(70000i128, 20_000_000);
    let spread = run.pick(6i128, 300);
    let mut near: Vec<i128> = (-reach..=reach).collect();
    let mut wide = vec![];
    for k in 0..=127 {
        for d in -spread..=spread {
            for s in [1i128, -1] {
                let p = if k == 127 { i128::MIN } else { s << k };
                wide.push(p.wrapping_add(d));
            }
        }
    }
    wide.extend(-300..=300);
    for e in 0..38 {
        for d in [-1, 0, 1] {
            wide.extend([10i128.pow(e) + d, -(10i128.pow(e)) + d]);
        }
    }
    wide.sort();
    wide.dedup();
    side(run, "signed", gen::signed_integer_cfgs(), &near, &wide);
    near.retain(|x| *x >= 0);
    let near: Vec<u128> = near.into_iter().map(|x| x as u128).collect();
    let mut wide: Vec<u128> = vec![];
    for k in 0..=128u32 {
        for d in -spread..=spread {
            wide.push(1u128.checked_shl(k).unwrap_or(0).wrapping_add(d as u128));
        }
    }
    wide.extend(0..=600);
    for e in 0..39 {
        for d in [-1i128, 0, 1] {
            wide.push(10u128.pow(e).wrapping_add(d as u128));
        }
    }
    wide.sort();
    wide.dedup();
    side(run, "unsigned", gen::unsigned_integer_cfgs(), &near, &wide);
    for l in ["accept unlimited", "accept inside", "accept outside", "below the type", "above the type", "TooSmall", "TooLarge", "Forbidden", "text is an integer", "text is no integer"] {
        run.require(l, 100);
    }
}
