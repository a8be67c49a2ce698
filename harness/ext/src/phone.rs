//! C27.  The phonenumber crate says what a number is; the union over countries is computed here.
use engine::{guard, show, Ctx, Run, Space, R};
use std::collections::HashMap;
use validators::phonenumber::{self, country::Id, PhoneNumber};
use validators::prelude::*;

type Entries = Vec<(Option<Id>, PhoneNumber)>;
pub trait Holds {
    fn get(self) -> Entries;
}
trait ToEntries {
    fn entries(self) -> Entries;
}
impl ToEntries for PhoneNumber {
    fn entries(self) -> Entries {
        vec![(None, self)]
    }
}
impl ToEntries for HashMap<Id, PhoneNumber> {
    fn entries(self) -> Entries {
        let mut v: Entries = self.into_iter().map(|(k, v)| (Some(k), v)).collect();
        v.sort_by_key(|x| format!("{:?}", x.0));
        v
    }
}
pub struct Cfg {
    name: &'static str,
    ids: Vec<Id>,
    ops: [(&'static str, fn(&str) -> R<Option<Entries>>); 3],
}
fn ops<T: ValidateString + Holds>() -> [(&'static str, fn(&str) -> R<Option<Entries>>); 3] {
    [
        ("parse_str", |s| T::parse_str(s).map(|v| Some(v.get())).map_err(|_| "Err".into())),
        ("parse_string", |s| T::parse_string(s.to_string()).map(|v| Some(v.get())).map_err(|_| "Err".into())),
        ("validate_str", |s| T::validate_str(s).map(|_| None).map_err(|_| "Err".into())),
    ]
}
mod gen {
    use super::*;
    include!(concat!(env!("OUT_DIR"), "/phone.rs"));
}

fn valid_in(id: Option<Id>, s: &str) -> R<PhoneNumber> {
    guard(|| {
        let n = phonenumber::parse(id, s).map_err(|_| "parse")?;
        if !n.is_valid() || id.is_some() && n.country().id() != id {
            return Err("invalid".into());
        }
        Ok(n)
    })
}

fn check(cfgs: &[&Cfg], s: &str, ctx: &mut Ctx) {
    let mut known: HashMap<Option<Id>, R<PhoneNumber>> = HashMap::new();
    for c in cfgs {
        let mut one = |id: Option<Id>| known.entry(id).or_insert_with(|| valid_in(id, s)).clone();
        let mut panics = false;
        let m: Entries = match c.ids[..] {
            [] => one(None).into_iter().map(|n| (None, n)).collect(),
            [id] => one(Some(id)).into_iter().map(|n| (None, n)).collect(),
            _ => {
                let mut failed = 0;
                let mut v: Entries = vec![];
                for &id in &c.ids {
                    match one(Some(id)) {
                        Ok(n) => v.push((Some(id), n)),
                        Err(e) => {
                            failed += (e == "parse") as usize;
                            panics |= e.starts_with("PANIC");
                        }
                    }
                }
                if !v.is_empty() {
                    ctx.outcome(if failed > 0 { "several: accept although another country cannot read it" } else if v.len() > 1 { "several: accept in several countries" } else { "several: accept in one country" }, || show(s));
                }
                v.sort_by_key(|x| format!("{:?}", x.0));
                v
            }
        };
        if c.ids.len() < 2 {
            panics = matches!(one(c.ids.first().copied()), Err(e) if e.starts_with("PANIC"));
        }
        ctx.outcome(
            match (c.ids.len(), m.is_empty()) {
                _ if panics => "the library panics",
                (0, true) => "any: reject",
                (0, false) => "any: accept",
                (1, true) => "one: reject",
                (1, false) => "one: accept",
                (_, true) => "several: reject",
                (_, false) => "several: accept",
            },
            || show(s),
        );
        if panics {
            continue;
        }
        for (what, f) in &c.ops {
            ctx.exec(1);
            let got = guard(|| f(s));
            let ok = match &got {
                Ok(Some(v)) => !m.is_empty() && *v == m,
                Ok(None) => !m.is_empty(),
                Err(e) => m.is_empty() && !e.starts_with("PANIC"),
            };
            if !ok {
                ctx.fail(c.name, s, format!("{what}: model {m:?}, code {got:?}"));
            }
        }
    }
}

pub fn explore(run: &mut Run) {
    let cfgs = gen::cfgs();
    run.note("configurations", cfgs.len() as u64);
    let all: Vec<&Cfg> = cfgs.iter().collect();
    // The library caches 100 compiled patterns, so each set of countries is explored on its own.
    let groups: Vec<Vec<&Cfg>> = cfgs.iter().filter(|c| c.ids.len() > 1).map(|c| cfgs.iter().filter(|d| std::ptr::eq(*d, c) || d.ids.len() == 1 && c.ids.contains(&d.ids[0])).collect()).collect();
    let any: Vec<&Cfg> = cfgs.iter().filter(|c| c.ids.is_empty()).collect();
    // national numbers: leading digits and lengths
    let mut v: Vec<String> = vec![];
    for n in 3..=run.pick(13usize, 16) {
        for p in 0..run.pick(100usize, 1000) {
            let p = if run.thorough { format!("{p:03}") } else { format!("{p:02}") };
            for fill in run.pick(&["123456789012345"][..], &["123456789012345", "000000000000000", "2802331280233128"][..]) {
                let s = format!("{p}{fill}");
                v.push(s[..n.max(p.len())].to_string());
            }
        }
    }
    v.sort();
    v.dedup();
    let known = ["+16502530000", "+14165551234", "0912345678", "+886912345678", "0112802331", "8108949647", "010859617", "+390236618300", "0236618300", "0669812345", "+78005553535", "+77710009998", "+441481256789", "+447911123456", "07911 123456", "+81312345678", "03-1234-5678", "+4930123456", "+33123456789", "0123456789", "+61891641234", "+85291234567", "+8613812345678", "13812345678", "+358181234567", "+4779123456", "+212528812345", "+6561234567", "61234567", "+18005550123", "911", "112", "+80012345678", "tel:+16502530000", "+1 650-253-0000 ext. 123", "650.253.0000", "(650) 253-0000", "1-800-FLOWERS", "+１６５０２５３００００", "٠٩١٢٣٤٥٦٧٨"];
    for g in &groups {
        let big = g.len() > 6;
        let name = g.iter().find(|c| c.ids.len() > 1).map(|c| c.name).unwrap_or("");
        if big && !run.thorough {
            continue;
        }
        run.explore(&Space::new(&format!("{name}: notations"), &["", "+", "00", "+1", "("], &["0", "9", "2", "650-", " ", "+", "-", "(", ")", "ext", "."], run.pick(3, 4)), |s, c| check(g, s, c));
        run.explore(&Space::new(&format!("{name}: national numbers"), &[""], &["0", "1", "2", "9", "5550", "8108", "010", "12"], run.pick(4, 5)), |s, c| check(g, s, c));
        run.cases(&format!("{name}: leading digits and lengths"), &v, |s, c| check(g, s, c));
        run.cases(&format!("{name}: known numbers, every single edit"), &known, |s, c| {
            let cs: Vec<char> = s.chars().collect();
            for i in 0..=cs.len() {
                let a: String = cs[..i].iter().collect();
                let b: String = cs[i..].iter().collect();
                let cut: String = cs[(i + 1).min(cs.len())..].iter().collect();
                check(g, &format!("{a}{cut}"), c);
                for x in ["0", "1", "5", "9", " ", "-", "+", "a", "é"] {
                    check(g, &format!("{a}{x}{b}"), c);
                    if i < cs.len() {
                        check(g, &format!("{a}{x}{cut}"), c);
                    }
                }
            }
        });
    }
    let of: Vec<&Cfg> = cfgs.iter().filter(|c| matches!(c.name, n if n.ends_with("(TW))") || n.ends_with("(US))") || n == "phone")).collect();
    assert!(of.len() >= 2, "countries");
    run.scalars("numbers", &["+886912345678", "0912345678", "650-253-0000"], run.pick(0x500, 0x3100), |s, c| check(&of, s, c));
    // international numbers: every calling code
    let mut v: Vec<String> = vec![];
    for code in 1..=run.pick(99usize, 999) {
        for tail in ["2025550123", "912345678", "6502530000", "12345", "1234567890123"] {
            for n in [tail.len(), tail.len() - 2] {
                v.push(format!("+{code}{}", &tail[..n]));
            }
        }
    }
    run.cases("international numbers", &v, |s, c| check(&any, s, c));
    run.cases("known numbers in every country", &known, |s, c| check(&all, s, c));
    for l in ["any: accept", "any: reject", "one: accept", "one: reject", "several: accept", "several: reject", "several: accept although another country cannot read it", "several: accept in several countries", "several: accept in one country"] {
        run.require(l, 10);
    }
}
