//! C30: omitted, reordered or respelled parameters do not change a validator.
use crate::model::*;
use crate::ops::Fam;
use crate::inputs::inputs;
use crate::rust;
use engine::{show, Run};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt;

/// Derive sites which must behave the same; the first writes everything out in the documented order.
#[derive(Clone)]
pub struct Group {
    v: &'static str,
    fam: Fam,
    decl: String,
    sites: Vec<(String, String)>,
    /// the implementations every site must have, when that is what is compared: (how it is written, Serialize, Deserialize, FromFormField, FromParam)
    impls: Vec<String>,
}
impl fmt::Debug for Group {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.sites[0].1)
    }
}

fn family(v: &str) -> Fam {
    match v {
        "base32" | "base32_decoded" => Fam::B32,
        "base64" | "base64_decoded" => Fam::B64,
        "base64_url" | "base64_url_decoded" => Fam::B64U,
        "bit" | "byte" => Fam::Size,
        "boolean" => Fam::Bool,
        "domain" | "host" | "ip" | "ipv4" | "ipv6" => Fam::Net,
        "email" => Fam::Mail,
        "http_url" | "http_ftp_url" | "url" => Fam::Url,
        "json" => Fam::Json,
        "line" | "text" | "regex" => Fam::Text,
        "length" | "phone" => Fam::Phone,
        "mac_address" => Fam::Mac,
        "uuid" => Fam::Uuid,
        "number" => Fam::Num,
        "semver" | "semver_req" => Fam::Semver,
        "signed_integer" | "unsigned_integer" => Fam::Int,
        _ => unreachable!(),
    }
}
const FAMS: [Fam; 16] = [Fam::B32, Fam::B64, Fam::B64U, Fam::Size, Fam::Bool, Fam::Net, Fam::Mail, Fam::Url, Fam::Json, Fam::Text, Fam::Mac, Fam::Num, Fam::Phone, Fam::Semver, Fam::Int, Fam::Uuid];

fn permutations<T: Clone>(v: &[T], all: bool) -> Vec<Vec<T>> {
    if all || v.len() <= 3 {
        if v.len() <= 1 {
            return vec![v.to_vec()];
        }
        let mut o = vec![];
        for i in 0..v.len() {
            let mut r = v.to_vec();
            let x = r.remove(i);
            for mut p in permutations(&r, true) {
                p.insert(0, x.clone());
                o.push(p);
            }
        }
        return o;
    }
    // every parameter first, last, and next to every other
    let mut o = vec![v.iter().rev().cloned().collect::<Vec<_>>()];
    for i in 0..v.len() {
        let mut r = v.to_vec();
        r.rotate_left(i);
        o.push(r.clone());
        r.swap(0, 1);
        o.push(r);
    }
    o
}

pub fn groups(deep: bool) -> Vec<Group> {
    let mut o = vec![];
    for v in VALIDATORS {
        for ty in types(v) {
            if deep || !matches!(v, "signed_integer" | "unsigned_integer") || matches!(ty, "i8" | "i64" | "u16" | "u128") {
                configurations(&mut o, v, ty, deep);
            }
        }
    }
    o
}
/// Two values a range or a length can be told apart by on the inputs, in every notation.
fn values(v: &str, name: &'static str, k: K) -> Vec<(String, Vec<Form>)> {
    let mut m: Vec<(String, Vec<Form>)> = vec![];
    for f in forms(v, name, k, true) {
        if let Some(x) = &f.val {
            match m.iter_mut().find(|(y, _)| y == x) {
                Some((_, l)) => l.push(f),
                None => m.push((x.clone(), vec![f])),
            }
        }
    }
    m
}
fn configurations(o: &mut Vec<Group>, v: &'static str, ty: &'static str, deep: bool) {
    let d = defaults(v, ty);
    let ps: Vec<(&'static str, Vec<(String, Vec<Form>)>)> =
        params(v, ty).into_iter().filter(|(_, k)| !matches!(k, K::Serde | K::Rocket)).map(|(n, k)| (n, values(v, n, k))).collect();
    // the index of the value of each parameter, None when it is not given
    let base: Vec<Option<usize>> = ps
        .iter()
        .map(|(n, vals)| match d.get(n) {
            Some(x) => Some(vals.iter().position(|(y, _)| y == x).unwrap_or_else(|| panic!("{v} {n} {x}"))),
            None if *n == "regex" => Some(0),
            None => None,
        })
        .collect();
    let mut configs = vec![base.clone()];
    for i in 0..ps.len() {
        let n = ps[i].1.len();
        let most = if deep { n } else { 12 };
        for j in (0..n).step_by(n.div_ceil(most).max(1)) {
            if base[i] != Some(j) {
                let mut c = base.clone();
                c[i] = Some(j);
                configs.push(c);
            }
        }
    }
    if ps.len() > 1 {
        for pick in [0, 1] {
            let c: Vec<Option<usize>> = ps.iter().zip(&base).map(|((_, vals), b)| (0..vals.len()).filter(|j| Some(*j) != *b).nth(pick * (vals.len() - 1) / 2).or(*b)).collect();
            if !configs.contains(&c) {
                configs.push(c);
            }
        }
    }
    for (nth, c) in configs.iter().enumerate() {
        let given: Vec<usize> = (0..ps.len()).filter(|&i| c[i].is_some()).collect();
        let form = |i: usize, k: usize| &ps[i].1[c[i].unwrap()].1[k];
        let canon: Vec<&Form> = given.iter().map(|&i| form(i, 0)).collect();
        let Ok(s) = settings(v, ty, &canon) else { continue };
        let decl = shape(v, ty, &s).decl("X");
        let text = |fs: &[&Form]| if fs.is_empty() { v.to_string() } else { format!("{v}({})", fs.iter().map(|f| f.text.clone()).collect::<Vec<_>>().join(", ")) };
        let mut sites = vec![("written out".to_string(), text(&canon))];
        let wide = nth == 0 || nth + 2 >= configs.len();
        // leave out parameters at their default
        let at_default: Vec<usize> = (0..given.len()).filter(|&g| c[given[g]] == base[given[g]] && d.contains_key(ps[given[g]].0)).collect();
        for mask in 1u32..1 << at_default.len() {
            let few = mask.count_ones() == 1 || mask.count_ones() as usize == at_default.len();
            if deep || wide || few {
                let left: Vec<&Form> = (0..given.len()).filter(|g| !at_default.iter().position(|x| x == g).is_some_and(|b| mask >> b & 1 == 1)).map(|g| canon[g]).collect();
                sites.push(("with defaults left out".into(), text(&left)));
            }
        }
        // other orders
        for p in if wide || deep { permutations(&canon, deep) } else { vec![canon.iter().rev().cloned().collect()] } {
            sites.push(("in another order".into(), text(&p)));
        }
        // other notations
        for (g, &i) in given.iter().enumerate() {
            for k in 1..ps[i].1[c[i].unwrap()].1.len() {
                let mut f = canon.clone();
                f[g] = form(i, k);
                sites.push(("in another notation".into(), text(&f)));
            }
        }
        let last: Vec<&Form> = given.iter().map(|&i| form(i, ps[i].1[c[i].unwrap()].1.len() - 1)).collect();
        sites.push(("in another notation".into(), text(&last)));
        sites.push(("in another order and notation".into(), text(&last.into_iter().rev().collect::<Vec<_>>())));
        let mut seen = BTreeSet::new();
        sites.retain(|s| seen.insert(s.1.clone()));
        o.push(Group { v, fam: family(v), decl, sites, impls: vec![] });
    }
    // what the framework parameters implement
    if ty == types(v)[0] {
        let req: String = if v == "regex" { "regex = \"a\", ".into() } else { String::new() };
        let rocket = v != "length";
        let decl = shape(v, ty, &d).decl("X");
        let mut sites = vec![];
        let mut impls = vec![];
        let mut put = |text: &str, s: &str, r: &str| {
            sites.push((if text.is_empty() { "frameworks left out" } else { "frameworks" }.to_string(), format!("{v}({req}{text})")));
            impls.push(format!("{s} {}", if rocket { r } else { "no no" }));
        };
        put("", "yes yes", "yes yes");
        let serde: Vec<Form> = forms(v, "serde", K::Serde, true).into_iter().filter(|f| f.val.is_some()).collect();
        let rock: Vec<Form> = if rocket { forms(v, "rocket", K::Rocket, true).into_iter().filter(|f| f.val.is_some()).collect() } else { vec![] };
        for f in &serde {
            put(&f.text, f.val.as_ref().unwrap(), "yes yes");
        }
        for f in &rock {
            put(&f.text, "yes yes", f.val.as_ref().unwrap());
        }
        for f in &serde {
            for g in &rock {
                if deep || (f.val.as_ref().unwrap() != "yes yes" && g.val.as_ref().unwrap() != "yes yes") {
                    put(&format!("{}, {}", f.text, g.text), f.val.as_ref().unwrap(), g.val.as_ref().unwrap());
                }
            }
        }
        o.push(Group { v, fam: family(v), decl, sites, impls });
    }
}

const MAIN: &str = r#"
use std::fmt::Debug;
use std::io::BufRead;
use serde::{Serialize, de::DeserializeOwned};
use rocket::{form::FromFormField, request::FromParam};
type F = fn(&str) -> String;
fn show<T: ValidateString + Debug>(s: &str) -> String where T::Error: Debug {
    match T::parse_str(s) { Ok(v) => format!("ok {v:?}"), Err(e) => format!("error {e:?}") }
}
fn count<T: ValidateLength<Vec<u8>> + Debug>(s: &str) -> String where T::Error: Debug {
    match T::parse_collection(s.bytes().collect()) { Ok(v) => format!("ok {v:?}"), Err(e) => format!("error {e:?}") }
}
fn sorted(m: &HashMap<Id, PhoneNumber>) -> String {
    let mut l: Vec<String> = m.iter().map(|e| format!("{e:?}")).collect();
    l.sort();
    format!("ok {l:?}")
}
pub struct Is<T>(std::marker::PhantomData<T>);
trait NoS { const S: bool = false; }
trait NoD { const D: bool = false; }
trait NoF { const F: bool = false; }
trait NoP { const P: bool = false; }
impl<T> NoS for Is<T> {}
impl<T> NoD for Is<T> {}
impl<T> NoF for Is<T> {}
impl<T> NoP for Is<T> {}
impl<T: Serialize> Is<T> { const S: bool = true; }
impl<T: DeserializeOwned> Is<T> { const D: bool = true; }
impl<T: for<'r> FromFormField<'r>> Is<T> { const F: bool = true; }
impl<T: for<'r> FromParam<'r>> Is<T> { const P: bool = true; }
fn y(b: bool) -> &'static str { if b { "yes" } else { "no" } }
fn run(f: F, s: &str) -> String {
    std::panic::catch_unwind(|| f(s)).unwrap_or_else(|_| "PANIC".into())
}
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let mut inputs: Vec<Vec<String>> = (0..16).map(|_| vec![]).collect();
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        let (f, h) = l.split_once(' ').unwrap();
        let b: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
        inputs[f.parse::<usize>().unwrap()].push(String::from_utf8(b).unwrap());
    }
    for (group, fam, sites) in GROUPS {
        let (mut ok, mut bad) = (0, 0);
        let mut seen = vec![false; sites.len()];
        for (k, s) in inputs[*fam].iter().enumerate() {
            let want = run(sites[0].1, s);
            if want.starts_with("ok") { ok += 1 } else { bad += 1 }
            for (i, (site, f)) in sites.iter().enumerate() {
                let got = if i == 0 && want != "PANIC" { want.clone() } else { run(*f, s) };
                if (got != want || got == "PANIC") && !seen[i] {
                    seen[i] = true;
                    println!("D\t{site}\t{k}\t{:?}\t{:?}", want, got);
                }
            }
        }
        println!("G\t{group}\t{ok}\t{bad}");
    }
    for (site, i) in IMPLS { println!("I\t{site}\t{} {} {} {}", y(i[0]), y(i[1]), y(i[2]), y(i[3])); }
}
"#;

pub fn c30(run: &mut Run) {
    let d = rust::deps("frameworks", false);
    let all = groups(run.thorough);
    let gs: Vec<&Group> = match run.replaying() {
        Some((_, w)) => all.iter().filter(|g| format!("{g:?}") == w).collect(),
        None => all.iter().collect(),
    };
    let words: Vec<Vec<String>> = FAMS.iter().map(|f| inputs(*f, if run.thorough { 3 } else { 2 })).collect();
    let mut input = String::new();
    for (i, w) in words.iter().enumerate() {
        for s in w {
            input += &format!("{i} {}\n", s.bytes().map(|b| format!("{b:02x}")).collect::<String>());
        }
    }
    // number the sites
    let mut first = vec![];
    let mut n = 0;
    for g in &gs {
        first.push(n);
        n += g.sites.len();
    }
    let chunks = if run.thorough { 64 } else { 16 };
    // whole groups, spread so that chunks cost about the same
    let mut order: Vec<usize> = (0..gs.len()).collect();
    let cost = |g: &Group| g.sites.len() * (g.decl.len() + 40);
    order.sort_by_key(|&i| std::cmp::Reverse(cost(gs[i])));
    let mut parts: Vec<(usize, Vec<usize>)> = vec![(0, vec![]); chunks];
    for i in order {
        let p = parts.iter_mut().min_by_key(|p| p.0).unwrap();
        p.0 += cost(gs[i]);
        p.1.push(i);
    }
    let text = |c: usize, bad: &BTreeMap<usize, String>| {
        let mut t = format!("{}{MAIN}", HEADER);
        let mut at = BTreeMap::new();
        let mut line = t.lines().count();
        let (mut table, mut impls) = (String::new(), String::new());
        for &i in &parts[c].1 {
            let g = gs[i];
            let mut row = String::new();
            for (k, (_, a)) in g.sites.iter().enumerate() {
                let site = first[i] + k;
                if bad.contains_key(&site) {
                    continue;
                }
                line += 1;
                at.insert(line, site);
                t += &format!("mod s{site} {{ use super::*; #[derive(Debug, Validator)] #[validator({a})] {} }}\n", g.decl);
                if g.impls.is_empty() {
                    row += &match g.v {
                        "length" => format!("({site}, count::<s{site}::X>), "),
                        // which country's error is reported is not specified
                        "phone" if g.decl.contains("HashMap") => format!("({site}, |s| match s{site}::X::parse_str(s) {{ Ok(v) => sorted(&v.0), Err(_) => \"error\".into() }}), "),
                        _ => format!("({site}, show::<s{site}::X>), "),
                    };
                } else {
                    impls += &format!("({site}, [<Is<s{site}::X>>::S, <Is<s{site}::X>>::D, <Is<s{site}::X>>::F, <Is<s{site}::X>>::P]), ");
                }
            }
            if !row.is_empty() {
                let fam = FAMS.iter().position(|f| *f == g.fam).unwrap();
                table += &format!("({i}, {fam}, &[{row}]),\n");
            }
        }
        t += &format!("static GROUPS: &[(usize, usize, &[(usize, F)])] = &[\n{table}];\nstatic IMPLS: &[(usize, [bool; 4])] = &[{impls}];\n");
        (t, at)
    };
    let (outs, refused) = rust::execute(&d, chunks, &input, text);
    let mut diff: BTreeMap<usize, (String, String, String)> = BTreeMap::new();
    let mut counts: BTreeMap<usize, (u64, u64)> = BTreeMap::new();
    let mut impls: BTreeMap<usize, String> = BTreeMap::new();
    for o in &outs {
        for l in o.lines() {
            let f: Vec<&str> = l.split('\t').collect();
            match f[0] {
                "D" => {
                    let site: usize = f[1].parse().unwrap();
                    let g = (0..gs.len()).rev().find(|&g| first[g] <= site).unwrap();
                    let fam = FAMS.iter().position(|x| *x == gs[g].fam).unwrap();
                    diff.insert(site, (words[fam][f[2].parse::<usize>().unwrap()].clone(), f[3].into(), f[4].into()));
                }
                "G" => {
                    counts.insert(f[1].parse().unwrap(), (f[2].parse().unwrap(), f[3].parse().unwrap()));
                }
                _ => {
                    impls.insert(f[1].parse().unwrap(), f[2].into());
                }
            }
        }
    }
    run.note("derive sites", n as u64);
    run.note("configurations", gs.len() as u64);
    let index: BTreeMap<String, usize> = gs.iter().enumerate().map(|(i, g)| (format!("{g:?}"), i)).collect();
    run.cases("validators written in other ways", &all, |g, c| {
        let Some(&i) = index.get(&format!("{g:?}")) else { return };
        let g = gs[i];
        let (ok, bad) = counts.get(&i).copied().unwrap_or((0, 0));
        c.exec((ok + bad) * g.sites.len() as u64 + g.impls.len() as u64);
        let says = |n: u64| if n > 0 { "some" } else { "no" };
        c.outcome(&format!("{}: {} accepted, {} rejected", g.v, says(ok), says(bad)), || g.sites[0].1.clone());
        for (k, (how, a)) in g.sites.iter().enumerate() {
            c.outcome(how, || a.clone());
            let site = first[i] + k;
            if let Some(m) = refused.get(&site) {
                c.fail(a, "the program", format!("{how}: does not compile: {m}"));
            } else if let Some((input, want, got)) = diff.get(&site) {
                c.fail(a, &show(input), format!("{how}: {got}, while {} gives {want}", g.sites[0].1));
            } else if !g.impls.is_empty() && impls.get(&site) != Some(&g.impls[k]) {
                c.fail(a, "implementations", format!("{how}: Serialize, Deserialize, FromFormField, FromParam: {:?} instead of {:?}", impls.get(&site), g.impls[k]));
            }
        }
    });
    for (l, n) in [("with defaults left out", 100), ("in another order", 100), ("in another notation", 300), ("frameworks", 200)] {
        run.require(l, n);
    }
    for v in VALIDATORS {
        run.require(&format!("{v}: some accepted, some rejected"), 1);
    }
}
