use engine::{guard, kind, show, Ctx, Run, Space, R};
use validators::prelude::*;

pub struct Ops {
    strs: [(&'static str, fn(&str) -> R<String>); 2],
    validate: fn(&str) -> R<()>,
}
pub struct Cfg {
    name: &'static str,
    line: bool,
    bytes: bool,
    min: Option<usize>,
    tmin: Option<usize>,
    max: Option<usize>,
    ops: Ops,
}
pub trait Content {
    fn content(self) -> String;
}
fn ops<T: ValidateString + Content>() -> Ops
where
    T::Error: std::fmt::Debug,
{
    Ops {
        strs: [
            ("parse_str", |s| guard(|| T::parse_str(s).map(|v| v.content()).map_err(|e| kind(&e).into()))),
            ("parse_string", |s| guard(|| T::parse_string(s.to_string()).map(|v| v.content()).map_err(|e| kind(&e).into()))),
        ],
        validate: |s| guard(|| T::validate_str(s).map_err(|e| kind(&e).into())),
    }
}
mod gen {
    use super::*;
    include!(concat!(env!("OUT_DIR"), "/utf8.rs"));
}
pub use gen::utf8_cfgs;

// ------------------------------------------------------------ the model

fn forbidden(line: bool, c: char) -> bool {
    let x = c as u32;
    x == 0x7f || (x < 0x20 && x != 9 && (line || !(x == 0x0a || x == 0x0b || x == 0x0d)))
}
/// Unicode White_Space.
fn white(c: char) -> bool {
    matches!(c as u32, 9..=13 | 0x20 | 0x85 | 0xa0 | 0x1680 | 0x2000..=0x200a | 0x2028 | 0x2029 | 0x202f | 0x205f | 0x3000)
}

/// Lengths and flaws of one input, computed once for all configurations.
struct Facts {
    bad: [bool; 2],
    len: [usize; 2],
    trimmed: [usize; 2],
}
fn facts(s: &str) -> Facts {
    let cs: Vec<char> = s.chars().collect();
    let a = cs.iter().position(|&c| !white(c)).unwrap_or(cs.len());
    let b = cs.iter().rposition(|&c| !white(c)).map(|x| x + 1).unwrap_or(a);
    let t: &[char] = if a < b { &cs[a..b] } else { &[] };
    Facts {
        bad: [cs.iter().any(|&c| forbidden(false, c)), cs.iter().any(|&c| forbidden(true, c))],
        len: [cs.len(), cs.iter().map(|c| c.len_utf8()).sum()],
        trimmed: [t.len(), t.iter().map(|c| c.len_utf8()).sum()],
    }
}
/// The errors that may be reported (none: the input is accepted).
fn model(c: &Cfg, f: &Facts) -> Vec<&'static str> {
    let (l, t) = (f.len[c.bytes as usize], f.trimmed[c.bytes as usize]);
    let mut e = vec![];
    if f.bad[c.line as usize] {
        e.push("Invalid");
    }
    if c.max.is_some_and(|m| l > m) {
        e.push("TooLong");
    }
    if c.min.is_some_and(|m| l < m) || c.tmin.is_some_and(|m| t < m) {
        e.push("TooShort");
    }
    e
}

fn check(cfgs: &[&Cfg], s: &str, errors: bool, ctx: &mut Ctx) {
    let f = facts(s);
    for c in cfgs {
        let m = model(c, &f);
        let v = if c.line { "line" } else { "text" };
        match m[..] {
            [] => ctx.outcome(if c.line { "line accept" } else { "text accept" }, || show(s)),
            ["Invalid"] => ctx.outcome(if c.line { "line control" } else { "text control" }, || show(s)),
            ["TooLong"] => ctx.outcome("too long", || show(s)),
            ["TooShort"] => ctx.outcome("too short", || show(s)),
            _ => ctx.outcome("several", || show(s)),
        }
        let _ = v;
        let judge = |what: &str, got: &Result<(), &str>, ctx: &mut Ctx| {
            ctx.exec(1);
            let ok = match got {
                Ok(()) => m.is_empty(),
                Err(e) if e.starts_with("PANIC") => false,
                Err(e) => !m.is_empty() && (!errors || f.bad[c.line as usize] || m.contains(e)),
            };
            if !ok {
                ctx.fail(c.name, s, format!("{what}: model {}, code {got:?}", if m.is_empty() { "accepts".to_string() } else { format!("{m:?}") }));
            }
        };
        for (what, op) in &c.ops.strs {
            match op(s) {
                Ok(x) => {
                    judge(what, &Ok(()), ctx);
                    if x != s {
                        ctx.fail(c.name, s, format!("{what}: stored {x:?}"));
                    }
                }
                Err(e) => judge(what, &Err(&e), ctx),
            }
        }
        match (c.ops.validate)(s) {
            Ok(()) => judge("validate_str", &Ok(()), ctx),
            Err(e) => judge("validate_str", &Err(&e), ctx),
        }
    }
}

/// Every scalar value in every context.
fn scalars(run: &mut Run, cfgs: &[&Cfg], contexts: &[(&str, &str)], errors: bool) {
    let lim = run.pick(0x3100u32, 0x110000);
    let mut v: Vec<u32> = (0..lim).collect();
    if !run.thorough {
        v.extend([0xd7ff, 0xe000, 0xfeff, 0xffff, 0x10000, 0xe0020, 0x10ffff, 0x180e, 0x200b, 0x2060]);
    }
    run.cases("every scalar value in context", &v, |&x, c| {
        if let Some(ch) = char::from_u32(x) {
            for (a, b) in contexts {
                check(cfgs, &format!("{a}{ch}{b}"), errors, c);
            }
        }
    });
}

pub fn c10(run: &mut Run) {
    let all = utf8_cfgs();
    let all: Vec<&Cfg> = all.iter().collect();
    let lean: Vec<&Cfg> = all.iter().copied().filter(|c| [None, Some(2)].contains(&c.min) && [None, Some(0), Some(1)].contains(&c.tmin) && [None, Some(5), Some(4)].contains(&c.max)).collect();
    let big: Vec<&Cfg> = all.iter().copied().filter(|c| c.max.is_none_or(|m| m > 60) && c.min.is_none_or(|m| m < 2 || m > 60)).collect();
    run.explore(&Space::chars("control words", &[""], "a \t\n\u{b}\u{c}\r\u{1}\u{7f}é", run.pick(5, 6)), |s, c| check(&all, s, false, c));
    run.explore(&Space::chars("longer control words", &[""], "a \n\u{8}é", run.pick(8, 10)), |s, c| check(&lean, s, false, c));
    // every control character at every position of strings of every length
    let places: Vec<(usize, usize)> = (1..=run.pick(80usize, 300)).flat_map(|n| (0..n).map(move |i| (n, i))).collect();
    run.cases("every control character at every position", &places, |&(n, i), c| {
        for fill in ["a", " ", "é", "a\u{3000}"] {
            let mut cs: Vec<char> = fill.chars().cycle().take(n).collect();
            let all_c: Vec<u32> = (0..0x20).chain(0x7e..0xa1).collect();
            for x in all_c {
                if (x > 0x20 && x != 0x7f && n > 12) || (n > 24 && ![0, 8, 9, 10, 11, 12, 13, 14, 0x1f, 0x7f].contains(&x)) {
                    continue;
                }
                cs[i] = char::from_u32(x).unwrap();
                let s: String = cs.iter().collect();
                check(if n <= 8 { &all } else { &lean }, &s, false, c);
            }
        }
    });
    let far: Vec<(usize, u32)> = [4095usize, 4096, 65535, 65536, 70001].into_iter().flat_map(|n| (0..0x20).chain([0x20, 0x61, 0x7f, 0x80, 0x85]).map(move |x| (n, x))).collect();
    run.cases("control characters far inside", &far, |&(n, x), c| {
        let x = char::from_u32(x).unwrap();
        for (fill, post) in [("x", 0), ("x", 1), ("é", 2), (" ", 3), ("x", 5000)] {
            check(&big, &format!("{}{x}{}", fill.repeat(n / fill.len()), fill.repeat(post)), false, c);
        }
    });
    scalars(run, &lean, &[("", ""), ("ab", "cd"), (" ", ""), ("", " "), ("a ", " b"), ("é", ""), (" é", " ")], false);
    for l in ["line accept", "text accept", "line control", "text control"] {
        run.require(l, 1000);
    }
}

pub fn c11(run: &mut Run) {
    let all = utf8_cfgs();
    let all: Vec<&Cfg> = all.iter().collect();
    let lean: Vec<&Cfg> = all.iter().copied().filter(|c| c.tmin.is_some() || c.max.is_some_and(|m| m > 5)).filter(|c| c.min != Some(0) && c.tmin != Some(0)).collect();
    let big: Vec<&Cfg> = all.iter().copied().filter(|c| [c.min, c.tmin, c.max].iter().flatten().any(|&m| m > 60)).collect();
    run.explore(&Space::chars("words over widths and white space", &[""], "aé中😀 \u{3000}\u{85}\t", run.pick(6, 7)), |s, c| check(&all, s, true, c));
    run.explore(&Space::chars("longer words", &[""], "a中 \u{a0}", run.pick(8, 11)), |s, c| check(&lean, s, true, c));
    run.explore(&Space::chars("text with line breaks", &[""], "a\n\r\u{b}\u{2028}é", run.pick(6, 7)), |s, c| check(&all, s, true, c));
    // l leading, m middle and t trailing white space around characters of every width
    let mut fam = vec![];
    for l in 0..=run.pick(6usize, 20) {
        for t in 0..=run.pick(6usize, 20) {
            for core in 0..=run.pick(22usize, 70) {
                for mid in [0usize, 1, 3] {
                    fam.push((l, core, mid, t));
                }
            }
        }
    }
    run.cases("padded cores", &fam, |&(l, core, mid, t), c| {
        for w in [" ", "\u{3000}", "\u{85}"] {
            for ch in ["x", "é", "中", "😀"] {
                let h = core / 2;
                let s = format!("{}{}{}{}{}", w.repeat(l), ch.repeat(h), w.repeat(mid), ch.repeat(core - h), w.repeat(t));
                check(if core < 5 { &all } else { &lean }, &s, true, c);
            }
        }
    });
    let lens: Vec<usize> = (0..=run.pick(300, 1200)).collect();
    run.cases("lengths around 16, 64, 255 and 256", &lens, |&n, c| {
        for ch in ["x", "é", "中", "😀", " "] {
            for pre in ["", " ", "\u{3000}", "é"] {
                for post in ["", " ", "\u{2003}\u{2003}", "é"] {
                    check(&all, &format!("{pre}{}{post}", ch.repeat(n)), true, c);
                }
            }
        }
    });
    let vast: Vec<usize> = [4096usize, 65536, 131072].iter().flat_map(|&n| n - 3..=n + 2).collect();
    run.cases("lengths around 2^12, 2^16 and 2^17", &vast, |&n, c| {
        for ch in ["x", "é", "中", "😀", " "] {
            for (pre, post) in [("", ""), (" ", ""), ("", "\u{3000}"), ("\u{2003}a", "é ")] {
                check(&big, &format!("{pre}{}{post}", ch.repeat(n)), true, c);
                check(&big, &format!("{pre}{}{post}", ch.repeat(n / ch.len())), true, c);
            }
        }
    });
    scalars(run, &lean, &[("", ""), ("a", ""), ("", "a"), ("a", "a"), (" a", "a "), ("", "aa"), ("aa", ""), ("aé", "b ")], true);
    for l in ["line accept", "text accept", "too long", "too short"] {
        run.require(l, 1000);
    }
}
