//! C13, C14: MAC address and UUID validators.
use engine::{guard, kind, show, Ctx, Run, Space, R};
use validators::prelude::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Case {
    Any,
    Upper,
    Lower,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Sep {
    Must(u8),
    Allow(u8),
    Disallow,
}

struct Cfg {
    name: &'static str,
    /// digits in each group
    groups: &'static [usize],
    case: Case,
    sep: Sep,
    strs: [(&'static str, fn(&str) -> R<(u128, String)>); 2],
    validate: fn(&str) -> R<()>,
    print: fn(u128) -> R<String>,
}

const MAC: &[usize] = &[2; 6];
const UUID: &[usize] = &[8, 4, 4, 4, 12];

macro_rules! cfgs {
    ($f:ident $v:ident $ty:ty, $groups:ident, $to:ident; $($t:ident $case:ident $sep:ident $(($c:literal))?;)*) => {
        $(
            #[derive(Validator, Debug, Clone, PartialEq)]
            #[validator($v(case($case), separator($sep $(($c))?)))]
            struct $t(pub $ty);
        )*
        fn $f() -> Vec<Cfg> {
            vec![$(Cfg {
                name: concat!(stringify!($v), "(case(", stringify!($case), "), separator(", stringify!($sep $(($c))?), "))"),
                groups: $groups,
                case: Case::$case,
                sep: Sep::$sep $(($c))?,
                strs: [
                    ("parse_str", |s| guard(|| $t::parse_str(s).map(|v| (v.0 as u128, v.$to())).map_err(|e| kind(&e).into()))),
                    ("parse_string", |s| guard(|| $t::parse_string(s.to_string()).map(|v| (v.0 as u128, v.$to())).map_err(|e| kind(&e).into()))),
                ],
                validate: |s| guard(|| $t::validate_str(s).map_err(|e| kind(&e).into())),
                print: |x| guard(|| Ok($t(x as $ty).$to())),
            },)*]
        }
    };
}
cfgs! { macs mac_address u64, MAC, to_mac_address_string;
    M1 Any Must(b':'); M2 Upper Must(b':'); M3 Lower Must(b':');
    M4 Any Allow(b':'); M5 Upper Allow(b':'); M6 Lower Allow(b':');
    M7 Any Disallow; M8 Upper Disallow; M9 Lower Disallow;
    M10 Any Must(b'-'); M11 Upper Allow(b'-'); M12 Lower Allow(b'-');
    M13 Any Allow(b'.'); M14 Upper Must(b'.'); M15 Lower Must(b'-');
    M16 Any Allow(b'@'); M17 Any Must(b'G'); M18 Any Allow(b'`'); M19 Lower Allow(b'{'); M20 Upper Allow(b'/'); M21 Any Allow(b'g');
}
cfgs! { uuids uuid u128, UUID, to_uuid_string;
    U1 Any Must(b'-'); U2 Upper Must(b'-'); U3 Lower Must(b'-');
    U4 Any Allow(b'-'); U5 Upper Allow(b'-'); U6 Lower Allow(b'-');
    U7 Any Disallow; U8 Upper Disallow; U9 Lower Disallow;
    U10 Any Must(b':'); U11 Upper Allow(b':'); U12 Lower Allow(b':');
    U13 Any Allow(b'_'); U14 Upper Must(b'_'); U15 Lower Must(b'.');
    U16 Any Allow(b'@'); U17 Any Must(b'G'); U18 Any Allow(b'`'); U19 Lower Allow(b'{'); U20 Upper Allow(b'/'); U21 Any Allow(b'g');
}

include!(concat!(env!("OUT_DIR"), "/all.rs"));

// ------------------------------------------------------------ the model

fn digit(case: Case, c: char) -> Option<u32> {
    match c {
        '0'..='9' => Some(c as u32 - 48),
        'a'..='f' if case != Case::Upper => Some(c as u32 - 87),
        'A'..='F' if case != Case::Lower => Some(c as u32 - 55),
        _ => None,
    }
}

/// The value of `s`, reading group after group.
fn read(groups: &[usize], case: Case, sep: Sep, s: &str) -> Option<u128> {
    let mut it = s.chars().peekable();
    let mut x = 0u128;
    for (i, &n) in groups.iter().enumerate() {
        if i > 0 {
            match sep {
                Sep::Must(c) => {
                    if it.next()? != c as char {
                        return None;
                    }
                }
                Sep::Allow(c) => {
                    if *it.peek()? == c as char {
                        it.next();
                    }
                }
                Sep::Disallow => (),
            }
        }
        for _ in 0..n {
            x = x << 4 | digit(case, it.next()?)? as u128;
        }
    }
    it.next().is_none().then_some(x)
}

fn print(groups: &[usize], case: Case, sep: Sep, x: u128) -> String {
    let total: usize = groups.iter().sum();
    let mut out = String::new();
    let mut done = 0;
    for (i, &n) in groups.iter().enumerate() {
        if let (Sep::Must(c) | Sep::Allow(c), true) = (sep, i > 0) {
            out.push(c as char);
        }
        for _ in 0..n {
            done += 1;
            let d = (x >> (4 * (total - done)) & 15) as u8;
            out.push((if d < 10 { b'0' + d } else { (if case == Case::Lower { b'a' } else { b'A' }) + d - 10 }) as char);
        }
    }
    out
}

fn label(c: &Cfg, s: &str, m: Option<u128>) -> &'static str {
    match m {
        Some(_) => {
            let seps = match c.sep {
                Sep::Must(x) | Sep::Allow(x) => s.bytes().filter(|&b| b == x).count(),
                _ => 0,
            };
            match seps {
                0 => "accept without separators",
                n if n == c.groups.len() - 1 => "accept with separators",
                _ => "accept some separators",
            }
        }
        None if read(c.groups, Case::Any, c.sep, s).is_some() => "reject case",
        None => match c.sep {
            Sep::Must(x) | Sep::Allow(x) if read(c.groups, Case::Any, Sep::Allow(x), s).is_some() => "reject separator",
            Sep::Disallow if read(c.groups, Case::Any, Sep::Allow(b':'), s).or(read(c.groups, Case::Any, Sep::Allow(b'-'), s)).is_some() => "reject separator",
            _ => "reject malformed",
        },
    }
}

/// May this error be reported?  Only the setting in force is named, and it is when nothing else is wrong.
fn named(c: &Cfg, s: &str, e: &str) -> bool {
    let (name, otherwise) = match c.sep {
        Sep::Must(x) => ("SeparatorMust", read(c.groups, c.case, Sep::Allow(x), s)),
        Sep::Disallow => ("SeparatorDisallow", s.bytes().find(|b| b.is_ascii() && !b.is_ascii_hexdigit()).and_then(|x| read(c.groups, c.case, Sep::Allow(x), s))),
        Sep::Allow(_) => return e == "Invalid",
    };
    e == name || e == "Invalid" && otherwise.is_none()
}

fn check(cfgs: &[Cfg], s: &str, ctx: &mut Ctx) {
    for c in cfgs {
        let m = read(c.groups, c.case, c.sep, s);
        ctx.outcome(label(c, s, m), || show(s));
        for (what, f) in &c.strs {
            ctx.exec(1);
            let got = f(s);
            let ok = match (&m, &got) {
                (Some(x), Ok((y, t))) => x == y && *t == print(c.groups, c.case, c.sep, *x),
                (None, Err(e)) => named(c, s, e),
                _ => false,
            };
            if !ok {
                ctx.fail(c.name, s, format!("{what}: model {m:x?}, code {got:x?}"));
            }
        }
        ctx.exec(1);
        let got = (c.validate)(s);
        if got.is_ok() != m.is_some() || matches!(&got, Err(e) if !named(c, s, e)) {
            ctx.fail(c.name, s, format!("validate_str: model {m:x?}, code {got:?}"));
        }
    }
}

fn round(cfgs: &[Cfg], x: u128, ctx: &mut Ctx) {
    for c in cfgs {
        let want = print(c.groups, c.case, c.sep, x);
        ctx.exec(2);
        let got = (c.print)(x);
        if got.as_deref() != Ok(&want) {
            ctx.fail(c.name, &want, format!("text of {x:x}: {got:?}"));
        }
        if let Ok(t) = got {
            let back = (c.strs[0].1)(&t);
            if !matches!(&back, Ok((y, u)) if *y == x && *u == t) {
                ctx.fail(c.name, &t, format!("text of {x:x} parses to {back:?}"));
            }
        }
        ctx.outcome("round trip", || want.clone());
    }
}

/// `s` with a separator before the groups selected by `mask`.
fn group(groups: &[usize], digits: &str, mask: usize, sep: &str) -> String {
    let mut out = String::new();
    let mut at = 0;
    for (i, &n) in groups.iter().enumerate() {
        if i > 0 && mask >> (i - 1) & 1 == 1 {
            out.push_str(sep);
        }
        out.push_str(&digits[at..at + n]);
        at += n;
    }
    out
}

/// One validator against every subset of its separator, and against its neighbours.
fn separator(c: &Cfg, deep: bool, ctx: &mut Ctx) {
    let me = std::slice::from_ref(c);
    let (Sep::Must(x) | Sep::Allow(x)) = c.sep else { return };
    let (total, bounds) = (c.groups.iter().sum::<usize>(), c.groups.len() - 1);
    let x = x as char;
    let mixed: String = "0aF93eDb7C15".chars().cycle().take(total).collect();
    for digits in [mixed.to_lowercase(), mixed.to_uppercase(), mixed] {
        for mask in 0..1usize << bounds {
            let s = group(c.groups, &digits, mask, &x.to_string());
            check(me, &s, ctx);
            for i in 0..=s.len() {
                let (a, b) = s.split_at(i);
                let cut = &b[b.len().min(1)..];
                check(me, &format!("{a}{x}{b}"), ctx);
                check(me, &format!("{a}{x}{cut}"), ctx);
                check(me, &format!("{a}{cut}"), ctx);
                for y in [x as u8 ^ 0x20, x as u8 ^ 1, x as u8 ^ 0x40, x as u8 | 0x80, b':', b'-'].into_iter().chain(if deep { 0..=255u8 } else { 0..=0 }) {
                    check(me, &format!("{a}{}{cut}", y as char), ctx);
                }
            }
            for y in 0..=255u8 {
                check(me, &group(c.groups, &digits, mask, &(y as char).to_string()), ctx);
            }
        }
    }
    for k in 0..total * 4 {
        round(me, 1 << k, ctx);
        round(me, (1 << k) - 1, ctx);
    }
}

fn explore(run: &mut Run, cfgs: &[Cfg], every: &[Cfg]) {
    let at: Vec<usize> = (0..every.len()).collect();
    run.note("configurations with every separator", every.len() as u64);
    let deep = run.thorough;
    run.cases("every ASCII separator", &at, |&i, c| separator(&every[i], deep, c));
    let groups = cfgs[0].groups;
    let mac = groups.len() == 6;
    let total: usize = groups.iter().sum();
    let bounds = groups.len() - 1;
    let mixed: String = "0aF93eDb7C15".chars().cycle().take(total).collect();
    let lower = mixed.to_lowercase();
    let upper = mixed.to_uppercase();
    let nums: String = "0123456789".chars().cycle().take(total).collect();

    // arrangements of digit chunks, single digits and separators
    let (chunk, depth) = if mac { ("1e", run.pick(12, 14)) } else { ("1e07", run.pick(12, 14)) };
    run.explore(&Space::new("arrangements of groups and separators", &[""], &[chunk, if mac { ":" } else { "-" }, "A"], depth), |s, c| check(cfgs, s, c));
    // both sides of each boundary, digits in full: every word around the first, second and last boundary
    let heads: Vec<String> = (0..=bounds)
        .flat_map(|k| {
            let n: usize = groups[..k].iter().sum();
            [group(&groups[..k], &lower, usize::MAX, ":"), group(&groups[..k], &upper, usize::MAX, "-"), group(&groups[..k], &nums, 0, ""), nums[..n].to_string()]
        })
        .collect();
    let heads: Vec<&str> = heads.iter().map(|s| s.as_str()).collect();
    run.explore(&Space::chars("words behind complete groups", &heads, "0aF:-g", run.pick(5, 7)), |s, c| {
        check(cfgs, s, c);
        // completed to the full number of digits without / with separators
        let n = s.bytes().filter(|b| b.is_ascii_hexdigit()).count();
        if n < total {
            let rest = &nums[..total - n];
            check(cfgs, &format!("{s}{rest}"), c);
            let mut t = s.to_string();
            let mut k = n;
            for &d in rest.as_bytes() {
                if groups.iter().scan(0, |a, g| { *a += g; Some(*a) }).any(|b| b == k) {
                    t.push(if s.contains(':') { ':' } else { '-' });
                }
                t.push(d as char);
                k += 1;
            }
            check(cfgs, &t, c);
        }
    });

    // every subset of separators, with every single edit
    let seps = [":", "-", ".", "@", "G", "`", "{", "/", "g", "_"];
    let mut bases = vec![];
    for digits in [&mixed, &lower, &upper, &nums] {
        for sep in seps {
            for mask in 0..1usize << bounds {
                bases.push(group(groups, digits, mask, sep));
            }
        }
    }
    bases.sort();
    bases.dedup();
    run.cases("every single edit of every separator subset", &bases, |s, c| {
        check(cfgs, s, c);
        for i in 0..=s.len() {
            let (a, b) = s.split_at(i);
            let cut = &b[b.len().min(1)..];
            check(cfgs, &format!("{a}{cut}"), c);
            for x in 0..128u8 {
                check(cfgs, &format!("{a}{}{cut}", x as char), c);
            }
            for x in ["0", "f", "A", ":", "-", "g", "é", "٠", "\u{ff10}", "\u{1f600}", "a:", "::"] {
                check(cfgs, &format!("{a}{x}{b}"), c);
                check(cfgs, &format!("{a}{x}{cut}"), c);
            }
        }
    });
    // every pair of edits
    let mut pairs = vec![];
    for (i, sep) in [(0, ""), (usize::MAX, ":"), (usize::MAX, "-"), (0b01010, ":"), (0b00101, "-"), (1, "-"), (1 << (bounds - 1), ":")] {
        let s = group(groups, if sep == ":" { &lower } else { &upper }, i, sep);
        for p in 0..=s.len() {
            for q in p..=s.len() {
                pairs.push((s.clone(), p, q));
            }
        }
    }
    run.cases("every pair of edits", &pairs, |(s, p, q), c| {
        let edits: &[(usize, &str)] = &[(1, ""), (0, ":"), (0, "-"), (1, ":"), (1, "-"), (0, "0"), (1, "b"), (1, "B"), (1, "g"), (1, "é"), (0, "7:"), (0, "F")];
        for &(da, a) in edits {
            for &(db, b) in edits {
                let mid = (*p + da).min(*q);
                let end = (*q + db).min(s.len());
                check(cfgs, &format!("{}{a}{}{b}{}", &s[..*p], &s[mid..*q], &s[end..]), c);
            }
        }
    });
    // letter case at every position
    let masks: Vec<u32> = (0..1u32 << 12).collect();
    run.cases("every mix of letter case", &masks, |&m, c| {
        for shift in (0..total).step_by(12.min(total)) {
            let digits: String = (0..total).map(|i| { let up = i >= shift && i < shift + 12 && m >> (i - shift) & 1 == 1; (if up { b'A' } else { b'a' } + (i % 6) as u8) as char }).collect();
            for (mask, sep) in [(0, ""), (usize::MAX, ":"), (usize::MAX, "-"), (1, ":"), (1, "-")] {
                check(cfgs, &group(groups, &digits, mask, sep), c);
                check(cfgs, &group(groups, &digits.chars().map(|c| if c.is_lowercase() { '4' } else { c }).collect::<String>(), mask, sep), c);
                check(cfgs, &group(groups, &digits.chars().map(|c| if c.is_uppercase() { '4' } else { c }).collect::<String>(), mask, sep), c);
            }
        }
    });
    // lengths
    let lens: Vec<usize> = (0..=run.pick(140usize, 1100)).collect();
    run.cases("every length", &lens, |&n, c| {
        for x in ["0", "a", "A", ":", "-", "g", "é"] {
            check(cfgs, &x.repeat(n), c);
        }
        for step in [2usize, 4, 8, 12] {
            for sep in [":", "-"] {
                let s: String = (0..n).map(|i| if i % (step + 1) == step { sep } else { "3" }).collect();
                check(cfgs, &s, c);
            }
        }
    });
    // a good text with whole turns of a small counter of digits or groups in it
    let mut far = vec![];
    for turn in [256usize, 65536, 1 << 17] {
        for (mask, sep) in [(0, ""), (usize::MAX, ":"), (usize::MAX, "-"), (1, "-"), (2, ":")] {
            let s = group(groups, &lower, mask, sep);
            for (a, b) in [(0, s.len()), (2, s.len() - 2), (s.len(), 0), (s.len() - 2, 2)] {
                for unit in ["0", "a", "0a", ":", "-", "00:", "0000-"] {
                    far.push(format!("{}{}{}", &s[..a], unit.repeat(turn / unit.len()), &s[s.len() - b.min(s.len() - a)..]));
                    far.push(format!("{}{}{}", &s[..a], unit.repeat(turn), &s[s.len() - b.min(s.len() - a)..]));
                }
            }
        }
    }
    run.cases("one turn of a small counter later", &far, |s, c| check(cfgs, s, c));
    // values
    let mut vals = vec![0u128];
    let all = if mac { (1u128 << 48) - 1 } else { u128::MAX };
    for i in 0..total * 4 {
        for j in i..total * 4 {
            vals.push(1 << i | 1 << j);
            vals.push(all ^ (1 << i | 1 << j));
        }
    }
    for i in 0..total / 2 {
        for j in 0..total / 2 {
            for b in 0..=255u128 {
                vals.push(b << (8 * i) | (b ^ 0x5a) << (8 * j));
                vals.push(all & !(255 << (8 * i)) | b << (8 * i));
            }
        }
    }
    let pat: u128 = 0x0123456789abcdeffedcba9876543210;
    for r in 0..128 {
        vals.push(pat.rotate_left(r) & all);
    }
    vals.sort();
    vals.dedup();
    run.cases("round trip of values", &vals, |&x, c| {
        round(cfgs, x, c);
        let s = print(groups, Case::Lower, Sep::Must(b'-'), x);
        check(cfgs, &s, c);
        check(cfgs, &s.to_uppercase().replace('-', ":"), c);
        check(cfgs, &s.replace('-', ""), c);
    });
    let texts = if mac { ["08:00:27:b2:46:c3", "080027B246C3"] } else { ["550e8400-e29b-41d4-a716-446655440000", "550E8400E29B41D4A716446655440000"] };
    run.scalars("addresses and ids", &texts, run.pick(0x3100, 0x110000), |s, c| check(cfgs, s, c));
    for l in ["accept with separators", "accept some separators", "accept without separators", "reject case", "reject separator", "reject malformed", "round trip"] {
        run.require(l, 1000);
    }
}

fn main() {
    let id = std::env::args().nth(1).expect("property id");
    Run::main(&id, |run| match id.as_str() {
        "C13" => explore(run, &macs(), &macs_all()),
        "C14" => explore(run, &uuids(), &uuids_all()),
        _ => panic!("unknown property"),
    })
}
