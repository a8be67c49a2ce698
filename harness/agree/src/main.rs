//! C19 (entry points agree), C20 (serde), C21 (Result wrapper), on one derive site per shape of all 31 validators.
mod ops;
mod spaces;
mod types;
#[cfg(feature = "serde")]
mod val;
#[cfg(feature = "serde")]
mod ser;
#[cfg(any(feature = "rocket", feature = "axum"))]
mod web;
#[cfg(feature = "wrap")]
mod wrap;
use engine::{guard, show, Ctx, Run, Space, R};
use ops::*;

fn caught<T>(f: impl FnOnce() -> T) -> R<T> {
    guard(|| Ok(f()))
}
/// The outcome without the parsed value.
fn verdict(o: &R<Out>) -> R<Result<(), String>> {
    o.clone().map(|o| o.map(|_| ()))
}
fn agree(ctx: &mut Ctx, v: &V, input: &str, what: &str, a: &R<Out>, b: &R<Out>, values: bool) {
    let bad = |o: &R<Out>| o.is_err();
    let same = if values { a == b } else { verdict(a) == verdict(b) };
    if bad(a) || bad(b) || !same {
        ctx.fail(v.name, input, format!("{what}: {a:?} and {b:?}"));
    }
}

fn text(vs: &[&V], s: &str, ctx: &mut Ctx) {
    for v in vs {
        let Some(o) = &v.s else { continue };
        ctx.exec(3);
        let a = caught(|| (o.str)(s));
        let b = caught(|| (o.string)(s));
        let c = caught(|| (o.validate)(s));
        ctx.outcome(&format!("{:?} text {}", v.fam, if matches!(a, Ok(Ok(_))) { "accept" } else { "reject" }), || show(s));
        agree(ctx, v, s, "parse_str and parse_string", &a, &b, true);
        agree(ctx, v, s, "parse_str and validate_str", &a, &c, false);
        if let Some(b) = &v.b {
            bytes_of(v, b, s.as_bytes(), s, ctx);
        }
        if let (Some(f), Some(ch)) = (v.c, one(s)) {
            char_of(v, f, ch, ctx);
        }
    }
}
fn one(s: &str) -> Option<char> {
    let mut i = s.chars();
    i.next().filter(|_| i.next().is_none())
}
fn char_of(v: &V, f: fn(char) -> Pair, ch: char, ctx: &mut Ctx) {
    ctx.exec(2);
    let s = ch.to_string();
    let p = caught(|| f(ch));
    let (p, q) = (p.clone().map(|x| x.0), p.map(|x| x.1));
    ctx.outcome(&format!("{:?} char {}", v.fam, if matches!(p, Ok(Ok(_))) { "accept" } else { "reject" }), || show(&s));
    agree(ctx, v, &s, "parse_char and validate_char", &p, &q, false);
    let t = caught(|| (v.s.as_ref().unwrap().str)(&s));
    agree(ctx, v, &s, "parse_char and parse_str", &p, &t, true);
}
fn bytes_of(v: &V, o: &BOps, b: &[u8], label: &str, ctx: &mut Ctx) {
    ctx.exec(3);
    let x = caught(|| (o.slice)(b));
    let y = caught(|| (o.vec)(b));
    let z = caught(|| (o.validate)(b));
    ctx.outcome(&format!("{:?} bytes {}", v.fam, if matches!(x, Ok(Ok(_))) { "accept" } else { "reject" }), || label.to_string());
    agree(ctx, v, label, "parse_u8_slice and parse_vec_u8", &x, &y, true);
    agree(ctx, v, label, "parse_u8_slice and validate_u8_slice", &x, &z, false);
    if let Ok(s) = std::str::from_utf8(b) {
        let a = caught(|| (v.s.as_ref().unwrap().str)(s));
        agree(ctx, v, label, "parse_str and parse_u8_slice", &a, &x, true);
    } else if let Ok(Ok(_)) = x {
        ctx.fail(v.name, label, "bytes that are no text are accepted");
    }
}
fn bytes(vs: &[V], b: &[u8], ctx: &mut Ctx) {
    let label = format!("bytes {b:02x?}");
    for v in vs {
        if let Some(o) = &v.b {
            bytes_of(v, o, b, &label, ctx);
        }
    }
}

#[derive(Clone, Copy, Debug)]
enum Int {
    I(i128),
    U(u128),
}
fn int(vs: &[V], x: Int, ctx: &mut Ctx) {
    let (i, u) = match x {
        Int::I(i) => (Some(i), u128::try_from(i).ok()),
        Int::U(u) => (i128::try_from(u).ok(), Some(u)),
    };
    let label = i.map(|i| i.to_string()).or(u.map(|u| u.to_string())).unwrap();
    for v in vs {
        let mut all: Vec<(&str, R<Pair>)> = vec![];
        if let (Some(o), Some(i)) = (&v.i, i) {
            all.extend(o.iter().filter_map(|(w, f)| caught(|| f(i)).map_or_else(|e| Some((*w, Err(e))), |o| o.map(|o| (*w, Ok(o))))));
        }
        if let (Some(o), Some(u)) = (&v.u, u) {
            all.extend(o.iter().filter_map(|(w, f)| caught(|| f(u)).map_or_else(|e| Some((*w, Err(e))), |o| o.map(|o| (*w, Ok(o))))));
        }
        let Some((w0, p0)) = all.first().cloned() else { continue };
        let p0 = p0.map(|p| p.0);
        ctx.outcome(&format!("{:?} integer {}", v.fam, if matches!(p0, Ok(Ok(_))) { "accept" } else { "reject" }), || label.clone());
        for (w, p) in &all {
            ctx.exec(2);
            let a = p.clone().map(|p| p.0);
            agree(ctx, v, &label, &format!("{w0} and {w}"), &p0, &a, true);
            agree(ctx, v, &label, &format!("{w} and its validation"), &a, &p.clone().map(|p| p.1), false);
        }
        // the decimal text of an integer (sizes and booleans have their own reading of text)
        if v.fam == Fam::Int {
            let t = caught(|| (v.s.as_ref().unwrap().str)(&label));
            let ok = |o: &R<Out>| o.as_ref().ok().and_then(|o| o.clone().ok());
            if ok(&t) != ok(&p0) || t.is_err() {
                ctx.fail(v.name, &label, format!("{w0} and parse_str: {p0:?} and {t:?}"));
            }
        }
    }
}
fn float(vs: &[V], x: f64, ctx: &mut Ctx) {
    for v in vs {
        let Some((f64s, f32s)) = v.n else { continue };
        ctx.exec(2);
        let label = format!("{x:?}");
        let p = caught(|| f64s(x));
        let (a, b) = (p.clone().map(|p| p.0), p.map(|p| p.1));
        ctx.outcome(&format!("{:?} float {}", v.fam, if matches!(a, Ok(Ok(_))) { "accept" } else { "reject" }), || label.clone());
        agree(ctx, v, &label, "parse_f64 and validate_f64", &a, &b, false);
        let y = x as f32;
        if y as f64 == x || x.is_nan() {
            ctx.exec(2);
            let p = caught(|| f32s(y));
            let (c, d) = (p.clone().map(|p| p.0), p.map(|p| p.1));
            agree(ctx, v, &label, "parse_f64 and parse_f32", &a, &c, true);
            agree(ctx, v, &label, "parse_f32 and validate_f32", &c, &d, false);
        }
    }
}
fn value(vs: &[V], x: &serde_json::Value, ctx: &mut Ctx) {
    let label = x.to_string();
    for v in vs {
        let Some(f) = v.j else { continue };
        ctx.exec(2);
        let p = caught(|| f(x.clone()));
        let (a, b) = (p.clone().map(|p| p.0), p.map(|p| p.1));
        ctx.outcome(&format!("{:?} value {}", v.fam, if matches!(a, Ok(Ok(_))) { "accept" } else { "reject" }), || label.clone());
        agree(ctx, v, &label, "parse_json_value and validate_json_value", &a, &b, false);
        let t = caught(|| (v.s.as_ref().unwrap().str)(&label));
        let ok = |o: &R<Out>| o.as_ref().ok().and_then(|o| o.clone().ok());
        if ok(&t) != ok(&a) || t.is_err() {
            ctx.fail(v.name, &label, format!("parse_json_value and parse_str: {a:?} and {t:?}"));
        }
    }
}

pub fn int_values() -> Vec<i128> {
    let mut v: Vec<i128> = (-300..=300).collect();
    for k in 0..=126u32 {
        for d in -2..=2i128 {
            v.extend([(1i128 << k) + d, -(1i128 << k) + d]);
        }
    }
    for k in 0..=38u32 {
        v.extend([10i128.pow(k), -(10i128.pow(k)), 10i128.pow(k) / 10 * 17]);
    }
    v.extend([i128::MAX, i128::MAX - 1, i128::MIN, i128::MIN + 1]);
    v.sort();
    v.dedup();
    v
}
pub fn float_values() -> Vec<f64> {
    let mut v: Vec<f64> = vec![f64::NAN, -f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MIN_POSITIVE, 5e-324, f64::MAX, f64::MIN, f32::MAX as f64, f32::MIN as f64, f32::MIN_POSITIVE as f64, 1e-45, 0.1, 0.1f32 as f64, 100.25, -1.5, 2.5];
    for base in v.clone() {
        v.extend([f64::from_bits(base.to_bits().wrapping_add(1)), f64::from_bits(base.to_bits().wrapping_sub(1)), f32::from_bits((base as f32).to_bits().wrapping_add(1)) as f64, f32::from_bits((base as f32).to_bits().wrapping_sub(1)) as f64]);
    }
    for i in -2100..=2100 {
        v.push(i as f64 / 16.0);
    }
    for e in 0..2048u64 {
        for m in [0u64, 1, 1 << 29, 1 << 51, (1 << 52) - 1] {
            v.extend([f64::from_bits(e << 52 | m), f64::from_bits(1 << 63 | e << 52 | m)]);
        }
    }
    v
}
pub fn json_values(deep: bool) -> Vec<serde_json::Value> {
    use serde_json::{json, Value};
    let leaf = || -> Vec<Value> { vec![json!(null), json!(true), json!(false), json!(0), json!(1), json!(-1), json!(255), json!(256), json!(2147483647), json!(2147483648u64), json!(-2147483648i64), json!(-2147483649i64), json!(u64::MAX), json!(i64::MIN), json!(0.5), json!(-1.5), json!(""), json!("a"), json!("é\n\"\\"), json!([]), json!({})] };
    let mut v = leaf();
    for a in leaf() {
        v.push(json!([a]));
        v.push(json!({ "k": a }));
        for b in leaf() {
            v.push(json!([a, b]));
            v.push(json!({ "k": a, "é": b }));
            v.push(json!({ "k": [a], "l": { "m": b } }));
            if deep {
                for c in leaf() {
                    v.push(json!([a, [b], c]));
                    v.push(json!({ "a": a, "b": b, "c": c }));
                }
            }
        }
    }
    v
}
/// The texts visited for a family; `f` is called in each.
pub fn texts(run: &mut Run, vs: &[V], dense: bool, quick: usize, thorough: usize, f: impl Fn(&[&V], &str, &mut Ctx) + Sync) {
    let mut fams: Vec<Fam> = vs.iter().map(|v| v.fam).collect();
    fams.sort();
    fams.dedup();
    for fam in fams {
        let w = spaces::words(fam);
        let of: Vec<&V> = vs.iter().filter(|v| v.fam == fam).collect();
        let less = matches!(fam, Fam::Phone) as usize;
        run.explore(&Space::new(&format!("{fam:?} words"), w.roots, w.tokens, run.pick(quick, thorough) - less), |s, c| f(&of, s, c));
        run.cases(&format!("{fam:?} words: every single edit of accepted inputs"), w.good, |s, c| {
            let cs: Vec<char> = s.chars().collect();
            f(&of, s, c);
            for i in 0..=cs.len() {
                let a: String = cs[..i].iter().collect();
                let b: String = cs[i..].iter().collect();
                let cut: String = cs[(i + 1).min(cs.len())..].iter().collect();
                f(&of, &format!("{a}{cut}"), c);
                for x in (0..=255u8).map(|x| x as char).filter(|x| match fam {
                    Fam::Phone => "059a+-(); ,#.".contains(*x),
                    _ => dense || "\0\t\n\r !\"#%&'()*+,-./0179:;<=>?@AFZ[\\]^_`afz{|}~\x7f\u{80}\u{ff}".contains(*x),
                }).chain(['中', '\u{3000}', '\u{ff10}', '\u{ff0e}', '\u{3002}', '\u{200d}', '\u{1f600}', 'ſ', 'K', '\u{301}']) {
                    f(&of, &format!("{a}{x}{b}"), c);
                    if i < cs.len() {
                        f(&of, &format!("{a}{x}{cut}"), c);
                    }
                }
                for x in w.tokens {
                    f(&of, &format!("{a}{x}{b}"), c);
                    f(&of, &format!("{a}{x}{cut}"), c);
                    f(&of, &format!("{a}{x}"), c);
                    f(&of, &format!("{x}{b}"), c);
                }
            }
        });
    }
    // validators fed with what is meant for the others
    let everything: Vec<&V> = vs.iter().collect();
    let mut foreign: Vec<String> = vec![];
    for fam in [Fam::B32, Fam::B64, Fam::B64U, Fam::Size, Fam::Bool, Fam::Net, Fam::Mail, Fam::Url, Fam::Json, Fam::Text, Fam::Mac, Fam::Num, Fam::Phone, Fam::Semver, Fam::Int, Fam::Uuid] {
        let w = spaces::words(fam);
        for g in w.good {
            foreign.push(g.to_string());
            for n in [2usize, 3, 40, 300] {
                foreign.push(g.repeat(n));
            }
            for h in w.tokens {
                foreign.push(format!("{g}{h}"));
                foreign.push(format!("{h}{g}"));
            }
        }
        for t in w.tokens {
            for n in [2usize, 3, 63, 64, 65, 254, 255, 256, 2000] {
                foreign.push(t.repeat(n));
            }
        }
    }
    for t in ["a", "0", "1", "[", "{\"a\":", "(", "\"", "=", "A", ".", "a.", ":", "1.", " ", "é", "-", "+1", "\\", "xn--", "http://", ",", ">=1,", "{\"a\":[", "\n"] {
        for n in [4096usize, 66000] {
            foreign.push(t.repeat(n));
            foreign.push(format!("{}@a.b", t.repeat(n)));
            foreign.push(format!("1{}1", t.repeat(n)));
        }
    }
    foreign.sort();
    foreign.dedup();
    run.cases("inputs of every family on every validator", &foreign, |s, c| f(&everything, s, c));
}

fn c19(run: &mut Run) {
    let vs = types::all();
    run.note("derive sites", vs.len() as u64);
    texts(run, &vs, true, 4, 5, text);
    // a regex literal is compiled at each call, and phone numbers are slow to read
    let deep = run.thorough;
    let all: Vec<&V> = vs.iter().filter(|v| deep || v.fam != Fam::Phone && !v.name.starts_with("RegexA")).collect();
    let blocks: Vec<u32> = (0..0x110000 / 256).collect();
    run.cases("every scalar value", &blocks, |&b, c| {
        for x in b * 256..b * 256 + 256 {
            if let Some(ch) = char::from_u32(x) {
                text(&all, &ch.to_string(), c);
                if deep {
                    text(&all, &format!("1{ch}.a"), c);
                }
            }
        }
    });
    let pairs: Vec<u32> = (0..=0xff).collect();
    run.cases("byte strings to length 2", &pairs, |&x, c| {
        if x == 0 {
            bytes(&vs, &[], c);
        }
        bytes(&vs, &[x as u8], c);
        for y in 0..=255u8 {
            bytes(&vs, &[x as u8, y], c);
            bytes(&vs, &[b'M', b'Z', x as u8, y], c);
            bytes(&vs, &[b'M', b'Z', b'X', b'W', b'6', b'Y', x as u8, y], c);
        }
    });
    let alphabet: &[u8] = b"MA7=a\x00\x80\xc3\xa9\xff";
    let heads: Vec<usize> = (0..alphabet.len() * alphabet.len()).collect();
    let depth = run.pick(3u32, 4);
    run.cases("byte words", &heads, |&h, c| {
        let n = alphabet.len();
        for len in 0..=depth {
            for mut k in 0..n.pow(len) {
                let mut b = vec![alphabet[h / n], alphabet[h % n]];
                for _ in 0..len {
                    b.push(alphabet[k % n]);
                    k /= n;
                }
                bytes(&vs, &b, c);
            }
        }
    });
    let mut v: Vec<Int> = int_values().into_iter().map(Int::I).collect();
    v.extend((0..300).map(|d| Int::U(u128::MAX - d)));
    v.extend((0..=126).flat_map(|k| [Int::U(u128::MAX - (1 << k)), Int::U((1 << 127) + (1 << k))]));
    v.extend((-70000..=70000).map(Int::I));
    run.cases("integers", &v, |&x, c| int(&vs, x, c));
    run.cases("floats", &float_values(), |&x, c| float(&vs, x, c));
    run.cases("JSON values", &json_values(run.thorough), |x, c| value(&vs, x, c));
    run.cases("booleans", &[true, false], |&x, c| {
        for v in &vs {
            let Some(f) = v.o else { continue };
            c.exec(2);
            let p = caught(|| f(x));
            agree(c, v, &x.to_string(), "parse_bool and validate_bool", &p.clone().map(|p| p.0), &p.map(|p| p.1), false);
            let t = caught(|| (v.s.as_ref().unwrap().str)(&x.to_string()));
            let b = caught(|| f(x).0);
            let ok = |o: &R<Out>| o.as_ref().ok().and_then(|o| o.clone().ok());
            if ok(&t) != ok(&b) || t.is_err() {
                c.fail(v.name, &x.to_string(), format!("parse_bool and parse_str: {b:?} and {t:?}"));
            }
        }
    });
    for fam in ["B32", "B64", "B64U", "Size", "Bool", "Net", "Mail", "Url", "Json", "Text", "Mac", "Num", "Phone", "Semver", "Int", "Uuid"] {
        run.require(&format!("{fam} text accept"), 3);
        run.require(&format!("{fam} text reject"), 20);
    }
    for l in ["B32 bytes accept", "B64 bytes accept", "B64U bytes accept", "Bool char accept", "Bool char reject", "Bool integer accept", "Size integer accept", "Json integer accept", "Int integer accept", "Int integer reject", "Num float accept", "Num float reject", "Json float accept", "Json value accept", "Json value reject"] {
        run.require(l, 2);
    }
}

fn main() {
    let id = std::env::args().nth(1).expect("property id");
    Run::main(&id, |run| match id.as_str() {
        "C19" => c19(run),
        #[cfg(feature = "serde")]
        "C20" => ser::c20(run),
        #[cfg(feature = "wrap")]
        "C21" => wrap::c21(run),
        #[cfg(feature = "rocket")]
        "C22" => web::c22(run),
        #[cfg(feature = "axum")]
        "C23" => web::c23(run),
        _ => panic!("unknown property"),
    })
}
