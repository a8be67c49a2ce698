//! Instantiates the number, integer, bit and byte validators for a grid of settings.
use std::fmt::Write;

fn opt(n: &str, v: &Option<String>) -> Option<String> {
    v.as_ref().map(|v| format!("{n} = {v}"))
}
fn some(v: &Option<String>, ty: &str) -> String {
    match v {
        Some(v) => format!("Some({v}{ty})"),
        None => "None".into(),
    }
}
struct Range {
    kind: &'static str,
    min: Option<String>,
    max: Option<String>,
    inclusive: bool,
}
impl Range {
    fn params(&self) -> String {
        let mut p: Vec<String> = [opt("min", &self.min), opt("max", &self.max)].into_iter().flatten().collect();
        if !self.inclusive {
            p.push("inclusive = false".into());
        }
        p.join(", ")
    }
    fn attr(&self) -> String {
        match self.kind {
            "Unlimited" => "range(Unlimited)".into(),
            k => format!("range({k}({}))", self.params()),
        }
    }
    fn model(&self, ty: &str) -> String {
        format!("Range {{ kind: Kind::{}, min: {}, max: {}, inclusive: {} }}", self.kind, some(&self.min, ty), some(&self.max, ty), self.inclusive)
    }
}
/// All non-empty ranges over the limits, which are listed in ascending order.
fn ranges(limits: &[String], kinds: &[&'static str]) -> Vec<Range> {
    let mut v = vec![];
    for &kind in kinds {
        for a in 0..=limits.len() {
            for b in 0..=limits.len() {
                for inclusive in [true, false] {
                    let (min, max) = (a.checked_sub(1), b.checked_sub(1));
                    if max.is_none() && !inclusive && a != 1 {
                        continue;
                    }
                    if let (Some(x), Some(y)) = (min, max) {
                        if x > y || (x == y && !inclusive) {
                            continue;
                        }
                    }
                    v.push(Range { kind, min: min.map(|i| limits[i].clone()), max: max.map(|i| limits[i].clone()), inclusive });
                }
            }
        }
    }
    v
}

fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    let out = std::env::var("OUT_DIR").unwrap();
    let on = |f: &str| std::env::var(format!("CARGO_FEATURE_{f}")).is_ok();
    let strs = |v: &[&str]| v.iter().map(|s| s.to_string()).collect::<Vec<_>>();
    if on("NUMBER") {
        let (mut s, mut table) = (String::new(), String::from("pub fn cfgs() -> Vec<Cfg> { vec![\n"));
        let mut n = 0;
        for ty in ["f64", "f32"] {
            let big = if ty == "f32" { "340282350000000000000000000000000000000.0" } else { "16777217.0" };
            let mut all = vec![Range { kind: "Unlimited", min: None, max: None, inclusive: true }];
            all.extend(ranges(&strs(&["-1.5", "0.0", "0.1", "2.5"]), &["Inside", "Outside"]));
            all.extend(ranges(&strs(&["-16777216.0", "0.00000000000000000000000000000000000001", big]), &["Inside", "Outside"]));
            for r in &all {
                for nan in ["Must", "Allow", "Disallow"] {
                    let conflict = if nan == "Must" && r.kind == "Inside" { ", conflict(Allow)" } else { "" };
                    let attr = format!("number(nan({nan}), {}{conflict})", r.attr());
                    let _ = writeln!(s, "#[derive(Validator)]\n#[validator({attr})]\npub struct N{n}(pub {ty});\nimpl Holds for N{n} {{ fn get(&self) -> f64 {{ self.0 as f64 }} }}");
                    let _ = writeln!(table, "Cfg {{ name: {:?}, single: {}, nan: Nan::{nan}, range: {}, ops: ops::<N{n}>() }},", format!("{attr} {ty}"), ty == "f32", r.model(ty).replace("Some(", "Some(1.0*").replace(ty, &format!("{ty} as f64")));
                    n += 1;
                }
            }
        }
        table.push_str("] }\n");
        std::fs::write(format!("{out}/number.rs"), s + &table).unwrap();
    }
    if on("INT") {
        let (mut s, mut tables) = (String::new(), String::new());
        for signed in [true, false] {
            let (v, wide) = if signed { ("signed_integer", "i128") } else { ("unsigned_integer", "u128") };
            let _ = writeln!(tables, "pub fn {v}_cfgs() -> Vec<Cfg<{wide}>> {{ vec![");
            let mut n = 0;
            let tag = wide[..1].to_uppercase();
            for width in ["8", "16", "32", "64", "128", "size"] {
                let ty = format!("{}{width}", &wide[..1]);
                let bits = if width == "size" { 64 } else { width.parse::<u32>().unwrap() };
                let max = if signed { (i128::MAX >> (128 - bits)).to_string() } else { (u128::MAX >> (128 - bits)).to_string() };
                let near = if signed { ((i128::MAX >> (128 - bits)) - 1).to_string() } else { ((u128::MAX >> (128 - bits)) - 1).to_string() };
                let min = if signed { (i128::MIN >> (128 - bits)).to_string() } else { "0".into() };
                let limits = match (width, signed) {
                    ("8", true) => vec![min, "-3".into(), "0".into(), "5".into(), near],
                    ("8", false) => vec![min, "3".into(), "4".into(), near, max],
                    (_, true) => vec![min, "3".into(), near],
                    (_, false) => vec!["3".into(), "4".into(), max],
                };
                let mut all = vec![Range { kind: "Unlimited", min: None, max: None, inclusive: true }];
                all.extend(ranges(&limits, &["Inside", "Outside"]));
                for r in &all {
                    let attr = format!("{v}({})", r.attr());
                    let _ = writeln!(s, "#[derive(Validator)]\n#[validator({attr})]\npub struct {}{width}x{n}(pub {ty});\nimpl Holds<{wide}> for {}{width}x{n} {{ fn get(&self) -> {wide} {{ self.0 as {wide} }} }}", tag, tag);
                    let _ = writeln!(tables, "Cfg {{ name: {:?}, low: {ty}::MIN as {wide}, high: {ty}::MAX as {wide}, range: {}, ops: {v}_ops::<{}{width}x{n}>() }},", format!("{attr} {ty}"), r.model(wide), tag);
                    n += 1;
                }
            }
            tables.push_str("] }\n");
        }
        std::fs::write(format!("{out}/int.rs"), s + &tables).unwrap();
    }
    if on("SIZE") {
        let (mut s, mut table) = (String::new(), String::from("pub fn cfgs() -> Vec<Cfg> { vec![\n"));
        let mut limits = strs(&["0", "1", "1000", "1024", "123456", "18446744073709551614", "18446744073709551615", "18446744073709551616"]);
        if on("WIDE") {
            limits = strs(&["0", "1", "1024", "18446744073709551615", "18446744073709551616", "18446744073709551617", "1000000000000000000000000000", "340282366920938463463374607431768211455"]);
        }
        let mut n = 0;
        for (v, ty, cases) in [("bit", "Bit", &[true][..]), ("byte", "Byte", &[true, false][..])] {
            for &ignore in cases {
                for (i, r) in ranges(&limits, &["Inside"]).iter().enumerate() {
                    if !ignore && i % 7 != 0 {
                        continue;
                    }
                    let mut params = vec![];
                    if r.min.is_some() || r.max.is_some() || !r.inclusive {
                        params.push(format!("range({})", r.params()));
                    }
                    if !ignore {
                        params.push("ignore_case = false".into());
                    }
                    let attr = if params.is_empty() { v.to_string() } else { format!("{v}({})", params.join(", ")) };
                    let _ = writeln!(s, "#[derive(Validator)]\n#[validator({attr})]\npub struct S{n}(pub byte_unit::{ty});\nimpl Holds for S{n} {{ fn get(&self) -> u128 {{ self.0.as_u128() }} }}");
                    let _ = writeln!(table, "Cfg {{ name: {attr:?}, bit: {}, ignore_case: {ignore}, range: {}, ops: ops::<S{n}>() }},", v == "bit", r.model("u128"));
                    n += 1;
                }
            }
        }
        table.push_str("] }\n");
        std::fs::write(format!("{out}/size.rs"), s + &table).unwrap();
    }
}
