//! C18
use crate::Range;
use crate::Name;
use engine::{guard, Ctx, Run, Space, R};
use validators::byte_unit::{Bit, Byte};
use validators::{errors::{BitError, ByteError}, prelude::*};

type Entry = (&'static str, fn(u128) -> Option<R<Option<u128>>>);
pub struct Ops {
    strs: [(&'static str, fn(&str) -> R<Option<u128>>); 3],
    ints: Vec<Entry>,
}
pub struct Cfg {
    name: &'static str,
    bit: bool,
    ignore_case: bool,
    range: Range<u128>,
    ops: Ops,
}
pub trait Holds {
    fn get(&self) -> u128;
}
macro_rules! ints {
    ($T:ident: $($ty:ident $p:ident $v:ident),*) => {
        vec![$(
            (stringify!($p), |x| $ty::try_from(x).ok().map(|x| $T::$p(x).map(|v| Some(v.get())).map_err(|e| e.name()))),
            (stringify!($v), |x| $ty::try_from(x).ok().map(|x| $T::$v(x).map(|_| None).map_err(|e| e.name()))),
        )*]
    };
}
fn ops<T: Holds + ValidateString + ValidateUnsignedInteger>() -> Ops
where
    <T as ValidateString>::Error: Name,
    <T as ValidateUnsignedInteger>::Error: Name,
{
    Ops {
        strs: [
            ("parse_str", |s| T::parse_str(s).map(|v| Some(v.get())).map_err(|e| e.name())),
            ("parse_string", |s| T::parse_string(s.to_string()).map(|v| Some(v.get())).map_err(|e| e.name())),
            ("validate_str", |s| T::validate_str(s).map(|_| None).map_err(|e| e.name())),
        ],
        ints: ints!(T: u8 parse_u8 validate_u8, u16 parse_u16 validate_u16, u32 parse_u32 validate_u32, u64 parse_u64 validate_u64, u128 parse_u128 validate_u128, usize parse_usize validate_usize),
    }
}
impl_kind!(BitError: TooSmall TooLarge ParseError(_));
impl_kind!(ByteError: TooSmall TooLarge ParseError(_));
mod gen {
    use super::*;
    use crate::{Kind, Range};
    use validators::byte_unit;
    include!(concat!(env!("OUT_DIR"), "/size.rs"));
}

fn judge(c: &Cfg, m: Result<u128, &'static str>, inp: &dyn Fn() -> String, what: &str, got: R<Option<u128>>, ctx: &mut Ctx) {
    ctx.exec(1);
    let ok = match (&m, &got) {
        (Ok(a), Ok(b)) => b.is_none_or(|b| *a == b),
        (Err(a), Err(b)) => a == b,
        _ => false,
    };
    if !ok {
        ctx.fail(c.name, &inp(), format!("{what}: model {m:?}, code {got:?}"));
    }
}
/// Size and unit recognised without the size library: digits, optional fraction, blanks, unit name.
fn plausible(s: &str) -> bool {
    let s = s.trim();
    let b = s.as_bytes();
    let n = b.iter().take_while(|x| x.is_ascii_digit()).count();
    if n == 0 {
        return false;
    }
    let mut rest = &s[n..];
    if let Some(r) = rest.strip_prefix('.') {
        let k = r.bytes().take_while(|x| x.is_ascii_digit()).count();
        if k == 0 {
            return false;
        }
        rest = &r[k..];
    }
    let unit = rest.trim_start_matches(' ').to_ascii_lowercase();
    let unit = unit.strip_prefix(['k', 'm', 'g', 't', 'p', 'e', 'z', 'y']).map(|u| u.strip_prefix('i').unwrap_or(u)).unwrap_or(&unit);
    matches!(unit, "" | "b" | "bit" | "bits" | "byte" | "bytes" | "bi" | "by")
}
fn text(cfgs: &[Cfg], s: &str, ctx: &mut Ctx) {
    let bit = Bit::parse_str(s).map(|v| v.as_u128()).map_err(|_| "ParseError");
    let byte = [false, true].map(|ic| Byte::parse_str(s, ic).map(|v| v.as_u128()).map_err(|_| "ParseError"));
    if (bit.is_ok() || byte[0].is_ok() || byte[1].is_ok()) && !plausible(s) {
        ctx.fail("byte_unit", s, "the size library accepts text that is no size");
    }
    for c in cfgs {
        let m = if c.bit { bit } else { byte[c.ignore_case as usize] };
        let m = m.and_then(|x| match c.range.judge(x) {
            None => Ok(x),
            Some(e) => Err(e),
        });
        ctx.outcome(m.map(|_| if c.bit { "bit text accepted" } else { "byte text accepted" }).unwrap_or_else(|e| e), || engine::show(s));
        for (what, f) in &c.ops.strs {
            judge(c, m, &|| s.to_string(), what, guard(|| f(s)), ctx);
        }
    }
}
fn value(cfgs: &[Cfg], x: u128, ctx: &mut Ctx) {
    for c in cfgs {
        let fits = if c.bit { Bit::from_u128(x).is_some() } else { Byte::from_u128(x).is_some() };
        let m = match c.range.judge(x) {
            _ if !fits => Err("TooLarge"),
            None => Ok(x),
            Some(e) => Err(e),
        };
        ctx.outcome(m.map(|_| "integer accepted").unwrap_or_else(|e| e), || x.to_string());
        for (what, f) in &c.ops.ints {
            if let Some(got) = guard(|| f(x).transpose()).transpose() {
                judge(c, m, &|| x.to_string(), what, got, ctx);
            }
        }
    }
}

pub fn explore(run: &mut Run) {
    let cfgs = gen::cfgs();
    run.note("configurations", cfgs.len() as u64);
    let few: Vec<Cfg> = gen::cfgs().into_iter().step_by(11).collect();
    run.explore(&Space::chars("size words", &["", "1", "1.5 "], "019. kKMbBiE-+", run.pick(5, 6)), |s, c| text(&few, s, c));
    run.explore(&Space::new("sizes with units", &["", "1", "0", "8", "123456", "18446744073709551615"], &["0", ".5", " ", "k", "M", "Ki", "e", "y", "b", "B", "bit", "byte", "s", "é"], run.pick(3, 4)), |s, c| text(&cfgs, s, c));
    let units: Vec<String> = ["", "b", "B", "bit", "byte", "bits", "bytes", "Bit", "BIT", "Byte", "BYTES"]
        .iter()
        .flat_map(|u| ["", "k", "K", "m", "M", "g", "G", "t", "T", "p", "P", "e", "E", "z", "Z", "y", "Y", "x", "u"].into_iter().flat_map(move |p| ["", "i", "I"].into_iter().map(move |i| format!("{p}{i}{u}"))))
        .collect();
    let nums = ["0", "1", "7", "8", "9", "124", "125", "126", "127", "128", "129", "999", "1000", "1001", "1023", "1024", "1025", "123455", "123456", "123457", "0.001", "0.0009", "0.125", "1.024", "123.456", "0.9765625", "0.976", "18446744073709551614", "18446744073709551615", "18446744073709551616", "2305843009213693951", "2305843009213693952", "18446744073709.551615", "79228162514264337593543950335", "79228162514264337593543950336", "1.", ".5", "-1", "+1", "1e3", "0x10", "1 0", "00012", "1.0000000000000000000000000000", "1.00000000000000000000000000000"];
    let cases: Vec<String> = nums.iter().flat_map(|n| units.iter().flat_map(move |u| ["", " ", "   ", "\t"].into_iter().map(move |b| format!("{n}{b}{u}")))).collect();
    run.cases("number and unit table", &cases, |s, c| text(&cfgs, s, c));
    let pads: Vec<String> = ["12 kB", "12", "1.5 MiB"].iter().flat_map(|s| [" ", "\t", "\n", "\u{a0}", "\u{3000}", "x", "é", "中"].into_iter().flat_map(move |p| [format!("{p}{s}"), format!("{s}{p}"), format!("{p}{s}{p}")].into_iter().chain((0..s.len()).map(move |i| format!("{}{p}{}", &s[..i], &s[i..]))))).collect();
    run.cases("surroundings", &pads, |s, c| text(&cfgs, s, c));
    run.scalars("sizes", &["12 kB", "1.5MiB", "8b", "7"], run.pick(0x3100, 0x110000), |s, c| text(&few, s, c));
    let mut vals: Vec<u128> = (0..=run.pick(3000u128, 300000)).chain(123000..=124000).collect();
    for k in 0..=128u32 {
        for d in -4..=4i128 {
            vals.push(1u128.checked_shl(k).unwrap_or(0).wrapping_add(d as u128));
        }
    }
    vals.sort();
    vals.dedup();
    run.cases("integers", &vals, |&x, c| value(&cfgs, x, c));
    run.cases("text of integers", &vals, |&x, c| {
        text(&cfgs, &x.to_string(), c);
        text(&cfgs, &format!("{x} B"), c);
        text(&cfgs, &format!("{x}b"), c);
        text(&cfgs, &format!("{}.{:03} kB", x / 1000, x % 1000), c);
        text(&cfgs, &format!("{}.{:03} kbit", x / 1000, x % 1000), c);
    });
    for l in ["bit text accepted", "byte text accepted", "integer accepted", "TooSmall", "TooLarge", "ParseError"] {
        run.require(l, 100);
    }
}
