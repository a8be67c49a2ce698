//! Instantiates line, text and length validators for a grid of limits.
use std::fmt::Write;

fn opt(n: &str, v: Option<u64>) -> Option<String> {
    v.map(|v| format!("{n} = {v}"))
}
fn join(p: &[Option<String>]) -> String {
    p.iter().flatten().cloned().collect::<Vec<_>>().join(", ")
}
fn some(v: Option<u64>) -> String {
    match v {
        Some(v) => format!("Some({v}usize)"),
        None => "None".into(),
    }
}

fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    let out = std::env::var("OUT_DIR").unwrap();
    let mut s = String::new();
    let mut table = String::from("pub fn utf8_cfgs() -> Vec<Cfg> { vec![\n");
    let mut n = 0;
    let mut limits = vec![];
    for min in [None, Some(0), Some(1), Some(2), Some(4)] {
        for tmin in [None, Some(0), Some(1), Some(2), Some(3)] {
            for max in [None, Some(0), Some(2), Some(4), Some(5)] {
                if min.zip(max).is_some_and(|(a, b)| a > b) || tmin.zip(min).is_some_and(|(a, b)| a > b) || tmin.zip(max).is_some_and(|(a, b)| a > b) {
                    continue;
                }
                limits.push((min, tmin, max));
            }
        }
    }
    limits.extend([(Some(10), Some(7), Some(20)), (None, Some(63), Some(64)), (Some(255), None, Some(256)), (None, None, Some(255)), (Some(64), Some(64), None), (Some(16), Some(16), Some(16)), (None, None, Some(u64::MAX)), (Some(1), None, Some(u64::MAX)), (None, Some(1), Some(u64::MAX)), (Some(2), Some(1), Some(u64::MAX)), (None, None, Some(65535)), (Some(65536), None, Some(65537)), (Some(65536), Some(65535), None), (None, Some(65536), None), (None, None, Some(1 << 32)), (Some(1 << 32), None, None), (Some(1 << 32), Some((1 << 32) - 1), Some(1 << 33))]);
    for v in ["line", "text"] {
        for unit in ["", "byte_length", "char_length"] {
            for &(min, tmin, max) in &limits {
                if (unit.is_empty() || n == 0) != (min.is_none() && tmin.is_none() && max.is_none()) && unit.is_empty() {
                    continue;
                }
                let attr = if unit.is_empty() {
                    v.to_string()
                } else {
                    format!("{v}({unit}({}))", join(&[opt("min", min), opt("trimmed_min", tmin), opt("max", max)]))
                };
                let _ = writeln!(s, "#[derive(validators::Validator, Debug)]\n#[validator({attr})]\npub struct U{n}(pub String);\nimpl Content for U{n} {{ fn content(self) -> String {{ self.0 }} }}");
                let _ = writeln!(table, "Cfg {{ name: {attr:?}, line: {}, bytes: {}, min: {}, tmin: {}, max: {}, ops: ops::<U{n}>() }},", v == "line", unit == "byte_length", some(min), some(tmin), some(max));
                n += 1;
            }
        }
    }
    table.push_str("] }\n");
    std::fs::write(format!("{out}/utf8.rs"), s + &table).unwrap();

    let mut s = String::new();
    let mut table = String::from("pub fn length_cfgs() -> Vec<Cfg> { vec![\n");
    let mut n = 0;
    let types = ["Vec<u8>", "Vec<String>", "Vec<()>", "Vec<Option<u8>>", "Own", "Opinion", "BinaryHeap<u8>", "BTreeSet<u8>", "BTreeMap<u8, String>", "HashSet<u8>", "HashMap<u8, Option<u8>>", "serde_json::Map<String, serde_json::Value>", "B32", "B64", "B64U"];
    let vals = [None, Some(0u64), Some(1), Some(2), Some(3), Some(5), Some(255), Some(256)];
    for t in types {
        let mut pairs = vec![];
        for min in vals {
            for max in vals.iter().copied().chain([Some(u64::MAX)]) {
                if min.zip(max).is_some_and(|(a, b)| a > b) {
                    continue;
                }
                if min.is_none() && max.is_none() {
                    continue;
                }
                pairs.push((min, max));
            }
        }
        pairs.extend([(None, Some(65535)), (Some(65536), None), (Some(65535), Some(65536)), (None, Some(1 << 32)), (Some(1 << 32), None), (Some(1), Some(1 << 32))]);
        {
            for (min, max) in pairs {
                let bare = if t.starts_with('O') { Some("serde = false".to_string()) } else { None };
                let attr = format!("length({})", join(&[opt("min", min), opt("max", max), bare]));
                let _ = writeln!(s, "#[derive(validators::Validator)]\n#[validator({attr})]\npub struct L{n}(pub {t});\nimpl Holds<{t}> for L{n} {{ fn inner(&self) -> &{t} {{ &self.0 }} }}");
                let _ = writeln!(table, "Cfg {{ name: {:?}, ty: {t:?}, min: {}, max: {}, run: run::<{t}, L{n}> }},", format!("{attr} {t}"), some(min), some(max));
                n += 1;
            }
        }
    }
    table.push_str("] }\n");
    std::fs::write(format!("{out}/length.rs"), s + &table).unwrap();
}
