//! C17
use engine::{guard, Ctx, Run, Space, R};
use validators::prelude::*;

#[derive(Validator)]
#[validator(boolean)]
struct B(pub bool);
#[derive(Validator)]
#[validator(boolean())]
struct C(pub bool);

fn spelled(s: &str) -> Option<bool> {
    for (words, v) in [(["y", "yes", "t", "true", "on", "1"], true), (["n", "no", "f", "false", "off", "0"], false)] {
        if words.iter().any(|w| w.len() == s.len() && w.bytes().zip(s.bytes()).all(|(a, b)| a == b || a.is_ascii_lowercase() && a - 32 == b)) {
            return Some(v);
        }
    }
    None
}
macro_rules! ask {
    ($ctx:ident $inp:expr, $m:expr; $($e:ident($x:expr)),*) => {
        $(
            $ctx.exec(2);
            let got: [R<Option<bool>>; 2] = [guard(|| B::$e($x).map(|v| v.value()).map_err(|_| "Invalid".into())), guard(|| C::$e($x).map(|v| v.value()).map_err(|_| "Invalid".into()))];
            for got in got {
                let ok = match (&$m, &got) {
                    (Some(a), Ok(b)) => b.is_none_or(|b| *a == b),
                    (None, Err(e)) => !e.starts_with("PANIC"),
                    _ => false,
                };
                if !ok {
                    $ctx.fail("boolean", &$inp, format!("{}: model {:?}, code {got:?}", stringify!($e), $m));
                }
            }
        )*
    };
}
/// The result of a parse or a validation.
trait Value {
    fn value(&self) -> Option<bool>;
}
impl Value for B {
    fn value(&self) -> Option<bool> {
        Some(self.0)
    }
}
impl Value for C {
    fn value(&self) -> Option<bool> {
        Some(self.0)
    }
}
impl Value for () {
    fn value(&self) -> Option<bool> {
        None
    }
}

fn text(s: &str, ctx: &mut Ctx) {
    let m = spelled(s);
    ctx.outcome(
        match m {
            Some(true) => "text true",
            Some(false) => "text false",
            None => "text rejected",
        },
        || engine::show(s),
    );
    ask!(ctx s, m; parse_str(s), parse_string(s.to_string()), validate_str(s));
}

pub fn explore(run: &mut Run) {
    // every spelling is made of these letters
    run.explore(&Space::chars("letters of the spellings", &[""], "yestrunofalYESTRUNOFAL10x ", run.pick(5, 6)), |s, c| text(s, c));
    run.explore(&Space::chars("ASCII", &[""], &(0..128u8).map(|b| b as char).collect::<String>(), run.pick(3, 4)), |s, c| text(s, c));
    run.explore(&Space::chars("lower case and near spellings", &["", "tru", "fals", "ye", "of"], "yestrunofal10ſKı", run.pick(4, 6)), |s, c| text(s, c));
    // every scalar value, alone and in place of / next to each letter of each spelling
    let blocks: Vec<u32> = (0..0x110000 / 0x100).collect();
    run.cases("every character", &blocks, |&b, c| {
        for x in b * 0x100..(b + 1) * 0x100 {
            let Some(ch) = char::from_u32(x) else { continue };
            let m = match ch {
                'y' | 'Y' | 't' | 'T' | '1' => Some(true),
                'n' | 'N' | 'f' | 'F' | '0' => Some(false),
                _ => None,
            };
            c.outcome(if m.is_some() { "character accepted" } else { "character rejected" }, || ch.to_string());
            let inp = ch.to_string();
            ask!(c inp, m; parse_char(ch), validate_char(ch));
            text(&inp, c);
            for w in ["yes", "true", "on", "no", "false", "off", "1", "0"] {
                for i in 0..=w.len() {
                    text(&format!("{}{ch}{}", &w[..i], &w[i..]), c);
                    if i < w.len() {
                        text(&format!("{}{ch}{}", &w[..i], &w[i + 1..]), c);
                    }
                }
            }
        }
    });
    let words: Vec<&str> = vec!["y", "yes", "t", "true", "on", "1", "n", "no", "f", "false", "off", "0"];
    run.cases("every letter case of every spelling, extended by every pair", &words, |w, c| {
        for m in 0..1u32 << w.len() {
            let s: String = w.chars().enumerate().map(|(i, x)| if m >> i & 1 == 1 { x.to_ascii_uppercase() } else { x }).collect();
            text(&s, c);
            for a in 0..128u8 {
                text(&format!("{s}{}", a as char), c);
                text(&format!("{}{s}", a as char), c);
                for b in 0..128u8 {
                    text(&format!("{s}{}{}", a as char, b as char), c);
                    text(&format!("{}{s}{}", a as char, b as char), c);
                }
            }
        }
        for v in &words {
            text(&format!("{w}{v}"), c);
        }
    });
    run.cases("booleans", &[true, false], |&b, c| {
        c.outcome("boolean", || b.to_string());
        ask!(c b.to_string(), Some(b); parse_bool(b), validate_bool(b));
    });
    let mut ints: Vec<i128> = (-70000..=70000).collect();
    let mut uints: Vec<u128> = (0..=70000).collect();
    for k in 0..=127 {
        for d in -3..=3i128 {
            ints.extend([(1i128 << k).wrapping_add(d), (-1i128 << k).wrapping_add(d)]);
            uints.push((1u128 << k).wrapping_add(d as u128));
        }
    }
    ints.sort();
    ints.dedup();
    uints.sort();
    uints.dedup();
    macro_rules! each {
        ($c:ident $x:ident $m:ident: $($t:ident $p:ident $v:ident),*) => {$(
            #[allow(irrefutable_let_patterns)]
            if let Ok(i) = $t::try_from($x) {
                ask!($c $x.to_string(), $m; $p(i), $v(i));
            }
        )*};
    }
    run.cases("signed integers", &ints, |&x, c| {
        let m = [Some(false), Some(true)].get(usize::try_from(x).unwrap_or(9)).copied().flatten();
        c.outcome(if m.is_some() { "integer accepted" } else { "integer rejected" }, || x.to_string());
        each!(c x m: i8 parse_i8 validate_i8, i16 parse_i16 validate_i16, i32 parse_i32 validate_i32, i64 parse_i64 validate_i64, i128 parse_i128 validate_i128, isize parse_isize validate_isize);
    });
    run.cases("unsigned integers", &uints, |&x, c| {
        let m = [Some(false), Some(true)].get(usize::try_from(x).unwrap_or(9)).copied().flatten();
        c.outcome(if m.is_some() { "integer accepted" } else { "integer rejected" }, || x.to_string());
        each!(c x m: u8 parse_u8 validate_u8, u16 parse_u16 validate_u16, u32 parse_u32 validate_u32, u64 parse_u64 validate_u64, u128 parse_u128 validate_u128, usize parse_usize validate_usize);
    });
    run.require("text true", 60);
    run.require("text false", 60);
    run.require("text rejected", 100000);
    run.require("character accepted", 10);
    run.require("character rejected", 1000000);
    run.require("integer accepted", 4);
    run.require("integer rejected", 100000);
    run.require("boolean", 2);
}
