use engine::{guard, kind, show, Ctx, Run, Space, R};
use std::collections::*;
use validators::prelude::*;

#[derive(Validator, Debug, Clone)]
#[validator(base32_decoded(padding(Allow)))]
pub struct B32(pub Vec<u8>);
#[derive(Validator, Debug, Clone)]
#[validator(base64_decoded(padding(Allow)))]
pub struct B64(pub Vec<u8>);
#[derive(Validator, Debug, Clone)]
#[validator(base64_url_decoded(padding(Allow)))]
pub struct B64U(pub Vec<u8>);

/// A collection built from a word of insertions and removals, with its content as the model sees it.
pub trait Coll: Sized {
    /// None: this word makes no collection of this type
    fn build(word: &str) -> Option<Self>;
    fn content(&self) -> Vec<String>;
    fn model(word: &str) -> Vec<String>;
}
pub trait Holds<T> {
    fn inner(&self) -> &T;
}

/// letters insert, '-' removes the last inserted one, digits n insert n*100 fresh elements
fn steps(word: &str) -> Vec<Option<u32>> {
    let mut v = vec![];
    let mut fresh = 1000;
    for c in word.chars() {
        match c {
            '-' => v.push(None),
            '0'..='9' => {
                for _ in 0..(c as u32 - 48) * 100 {
                    v.push(Some(fresh));
                    fresh += 1;
                }
            }
            c => v.push(Some(c as u32 - 'a' as u32)),
        }
    }
    v
}
fn list(word: &str) -> Vec<u32> {
    let mut v = vec![];
    for s in steps(word) {
        match s {
            Some(x) => v.push(x),
            None => {
                v.pop();
            }
        }
    }
    v
}
/// keys of a set after the same steps ('-' removes the largest)
fn set(word: &str) -> BTreeSet<u32> {
    let mut v = BTreeSet::new();
    for s in steps(word) {
        match s {
            Some(x) => {
                v.insert(x);
            }
            None => {
                v.pop_last();
            }
        }
    }
    v
}
/// Values of every kind and shape behind the keys: an element counts whatever it is.
fn json(x: u32) -> serde_json::Value {
    use serde_json::{json, Value};
    match x % 9 {
        0 => Value::Null,
        1 => json!(false),
        2 => json!(0),
        3 => json!(""),
        4 => json!([]),
        5 => json!({}),
        6 => json!([null, {"a": 1}]),
        7 => json!(-1.5),
        _ => json!(x.to_string()),
    }
}
fn word(x: u32) -> String {
    if x % 2 == 0 { String::new() } else { x.to_string() }
}
fn opt(x: u32) -> Option<u8> {
    (x % 3 > 0).then_some(byte(x))
}
/// A collection of the user's: its length is neither that of its fields nor stored.
#[derive(Debug)]
pub struct Own(Vec<u8>, u8);
impl CollectionLength for Own {
    fn len(&self) -> usize {
        self.0.iter().map(|&n| n as usize).sum::<usize>() + self.1 as usize
    }
}
/// The same with an opinion on emptiness.
#[derive(Debug)]
pub struct Opinion(usize);
impl CollectionLength for Opinion {
    fn len(&self) -> usize {
        self.0
    }
    fn is_empty(&self) -> bool {
        self.0 == 0
    }
}
fn byte(x: u32) -> u8 {
    (x % 251) as u8
}

macro_rules! coll {
    ($t:ty, build $b:expr, content $c:expr, model $m:expr) => {
        impl Coll for $t {
            fn build(w: &str) -> Option<Self> { let f: fn(&str) -> Option<$t> = $b; f(w) }
            fn content(&self) -> Vec<String> { let f: fn(&$t) -> Vec<String> = $c; f(self) }
            fn model(w: &str) -> Vec<String> { let f: fn(&str) -> Vec<String> = $m; f(w) }
        }
    };
}
fn bset(w: &str) -> BTreeSet<u8> {
    let mut v = BTreeSet::new();
    for s in steps(w) {
        match s {
            Some(x) => {
                v.insert(byte(x));
            }
            None => {
                v.pop_last();
            }
        }
    }
    v
}
fn bstrs(w: &str) -> Vec<String> {
    bset(w).iter().map(|x| x.to_string()).collect()
}
fn blist(w: &str) -> Vec<u8> {
    list(w).into_iter().map(byte).collect()
}
fn bytes_text(v: &[u8]) -> Vec<String> {
    v.iter().map(|x| x.to_string()).collect()
}
coll!(Vec<u8>, build |w| Some(blist(w)), content |c| bytes_text(c), model |w| bytes_text(&blist(w)));
coll!(Vec<String>, build |w| Some(list(w).into_iter().map(word).collect()), content |c| c.clone(), model |w| list(w).into_iter().map(word).collect());
coll!(Vec<Option<u8>>, build |w| Some(list(w).into_iter().map(opt).collect()), content |c| c.iter().map(|x| format!("{x:?}")).collect(), model |w| list(w).into_iter().map(|x| format!("{:?}", opt(x))).collect());
coll!(Own, build |w| { let n = list(w).len(); Some(Own(vec![2; n / 2], (n % 2) as u8)) }, content |c| vec!["own".into(); c.0.len() * 2 + c.1 as usize], model |w| vec!["own".into(); list(w).len()]);
coll!(Opinion, build |w| Some(Opinion(list(w).len())), content |c| vec!["own".into(); c.0], model |w| vec!["own".into(); list(w).len()]);
coll!(Vec<()>, build |w| Some(vec![(); list(w).len()]), content |c| vec!["()".into(); c.len()], model |w| vec!["()".into(); list(w).len()]);
coll!(BinaryHeap<u8>, build |w| Some(blist(w).into()), content |c| bytes_text(&c.clone().into_sorted_vec()), model |w| { let mut v = blist(w); v.sort(); bytes_text(&v) });
coll!(BTreeSet<u8>, build |w| Some(bset(w)), content |c| c.iter().map(|x| x.to_string()).collect(), model bstrs);
coll!(BTreeMap<u8, String>, build |w| Some(bset(w).into_iter().map(|x| (x, word(x as u32))).collect()), content |c| c.iter().map(|x| format!("{x:?}")).collect(), model |w| bset(w).into_iter().map(|x| format!("{:?}", (&x, word(x as u32)))).collect());
coll!(HashSet<u8>, build |w| Some(bset(w).into_iter().collect()), content |c| { let mut v: Vec<u8> = c.iter().copied().collect(); v.sort(); bytes_text(&v) }, model bstrs);
coll!(HashMap<u8, Option<u8>>, build |w| Some(bset(w).into_iter().map(|x| (x, opt(x as u32))).collect()), content |c| { let mut v: Vec<_> = c.iter().collect(); v.sort(); v.iter().map(|x| format!("{x:?}")).collect() }, model |w| bset(w).into_iter().map(|x| format!("{:?}", (&x, &opt(x as u32)))).collect());
coll!(serde_json::Map<String, serde_json::Value>, build |w| Some(set(w).into_iter().map(|x| (x.to_string(), json(x))).collect()), content |c| { let mut v: Vec<String> = c.iter().map(|(k, v)| format!("{k} {v}")).collect(); v.sort(); v }, model |w| { let mut v: Vec<String> = set(w).into_iter().map(|x| format!("{x} {}", json(x))).collect(); v.sort(); v });
coll!(B32, build |w| { let v = blist(w); B32::parse_string(encode(&v, b"ABCDEFGHIJKLMNOPQRSTUVWXYZ234567", 5)).ok() }, content |c| bytes_text(&c.0), model |w| bytes_text(&blist(w)));
coll!(B64, build |w| { let v = blist(w); B64::parse_string(encode(&v, B64S, 6)).ok() }, content |c| bytes_text(&c.0), model |w| bytes_text(&blist(w)));
coll!(B64U, build |w| { let v = blist(w); B64U::parse_string(encode(&v, B64US, 6)).ok() }, content |c| bytes_text(&c.0), model |w| bytes_text(&blist(w)));

const B64S: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
const B64US: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
fn encode(data: &[u8], sym: &[u8], bits: u32) -> String {
    let (mut out, mut acc, mut n) = (String::new(), 0u32, 0);
    for &b in data {
        acc = (acc << 8 | b as u32) & 0xffff;
        n += 8;
        while n >= bits {
            n -= bits;
            out.push(sym[(acc >> n) as usize & ((1 << bits) - 1)] as char);
        }
    }
    if n > 0 {
        out.push(sym[(acc << (bits - n)) as usize & ((1 << bits) - 1)] as char);
    }
    out
}

pub struct Cfg {
    name: &'static str,
    ty: &'static str,
    min: Option<usize>,
    max: Option<usize>,
    run: fn(&str) -> Option<Out>,
}
pub struct Out {
    reported_len: usize,
    reported_empty: bool,
    want: Vec<String>,
    validate: R<()>,
    parse: R<Vec<String>>,
}
fn run<T: Coll + CollectionLength, V: ValidateLength<T> + Holds<T>>(w: &str) -> Option<Out>
where
    V::Error: std::fmt::Debug,
{
    let c = T::build(w)?;
    Some(Out {
        reported_len: CollectionLength::len(&c),
        reported_empty: CollectionLength::is_empty(&c),
        want: T::model(w),
        validate: guard(|| V::validate_collection(&c).map_err(|e| kind(&e).into())),
        parse: guard(|| V::parse_collection(c).map(|v| v.inner().content()).map_err(|e| kind(&e).into())),
    })
}
mod gen {
    use super::*;
    include!(concat!(env!("OUT_DIR"), "/length.rs"));
}

fn check(cfgs: &[Cfg], w: &str, ctx: &mut Ctx) {
    for c in cfgs {
        let Some(o) = (c.run)(w) else {
            ctx.outcome("no such collection", || show(w));
            continue;
        };
        let n = o.want.len();
        let m = if c.min.is_some_and(|x| n < x) {
            Err("TooSmall")
        } else if c.max.is_some_and(|x| n > x) {
            Err("TooLarge")
        } else {
            Ok(())
        };
        ctx.outcome(&format!("{} {m:?}", c.ty), || format!("{n} elements, {}", c.name));
        ctx.exec(4);
        if o.reported_len != n || o.reported_empty != (n == 0) {
            ctx.fail(c.name, w, format!("length {n}, reported {} (empty: {})", o.reported_len, o.reported_empty));
        }
        if o.validate != m.map_err(|e| e.into()) {
            ctx.fail(c.name, w, format!("validate_collection with {n} elements: model {m:?}, code {:?}", o.validate));
        }
        let want: R<Vec<String>> = m.map(|_| o.want.clone()).map_err(|e| e.into());
        if o.parse != want {
            ctx.fail(c.name, w, format!("parse_collection with {n} elements: model {m:?}, code {:?}", o.parse));
        }
    }
}

pub fn c12(run: &mut Run) {
    let cfgs = gen::length_cfgs();
    run.explore(&Space::chars("insertion and removal histories", &[""], "abcdg-", run.pick(6, 8)), |w, c| check(&cfgs, w, c));
    let lens: Vec<usize> = (0..=run.pick(270, 1100)).collect();
    run.cases("every length", &lens, |&n, c| {
        // n distinct single elements: letters from a private range of code points
        let w: String = (0..n as u32).map(|i| char::from_u32('a' as u32 + i).unwrap()).collect();
        check(&cfgs, &w, c)
    });
    let big: Vec<Cfg> = gen::length_cfgs().into_iter().filter(|c| [c.min, c.max].iter().flatten().any(|&m| m > 256)).collect();
    let vast: Vec<usize> = [65280usize, 65536, 65792].iter().flat_map(|&n| n - 2..=n + 1).collect();
    run.cases("lengths around 2^16", &vast, |&n, c| {
        let w: String = "9".repeat(n / 900) + &"1".repeat(n % 900 / 100) + &(0..n as u32 % 100).map(|i| char::from_u32('a' as u32 + i).unwrap()).collect::<String>();
        check(&big, &w, c)
    });
    run.explore(&Space::chars("large collections", &["", "1", "2", "22", "2abc"], "1ab-", run.pick(4, 6)), |w, c| check(&cfgs, w, c));
    for l in ["Ok", "TooSmall", "TooLarge"] {
        run.require(l, 1000);
    }
}
