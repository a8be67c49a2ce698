//! Compiling generated programs with rustc.
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;

pub struct Deps {
    dir: PathBuf,
    externs: Vec<(String, String)>,
}
fn target() -> String {
    std::env::var("CARGO_TARGET_DIR").unwrap_or_else(|_| format!("{}/target", engine::verif()))
}
/// Build the validators crate from /repo's working tree (`metadata`: enough to type check against).
pub fn deps(features: &str, metadata: bool) -> Deps {
    let dir = format!("{}/harness/programs/deps", engine::verif());
    let o = Command::new("cargo")
        .arg(if metadata { "check" } else { "build" })
        .args(["--quiet", "--message-format=json", "--features", features])
        .current_dir(&dir)
        .env("CARGO_TARGET_DIR", target())
        .stderr(Stdio::inherit())
        .output()
        .expect("cargo");
    let mut externs = BTreeMap::new();
    for l in String::from_utf8_lossy(&o.stdout).lines() {
        let Ok(v) = serde_json::from_str::<Value>(l) else { continue };
        if v["reason"] == "compiler-artifact" {
            let name = v["target"]["name"].as_str().unwrap().replace('-', "_");
            if ["validators", "serde", "rocket"].contains(&name.as_str()) {
                for f in v["filenames"].as_array().unwrap() {
                    let f = f.as_str().unwrap();
                    if f.ends_with(if metadata { ".rmeta" } else { ".rlib" }) {
                        externs.insert(name.clone(), f.to_string());
                    }
                }
            }
        }
    }
    if !o.status.success() || !externs.contains_key("validators") {
        eprintln!("BUILD FAILED: harness/programs/deps");
        std::process::exit(2);
    }
    Deps { dir: format!("{}/debug/deps", target()).into(), externs: externs.into_iter().collect() }
}

pub fn scratch(name: &str) -> PathBuf {
    let p = PathBuf::from(format!("{}/programs-{}-{name}", target(), std::process::id()));
    std::fs::create_dir_all(&p).unwrap();
    p
}
fn rustc(d: &Deps, src: &Path, out: &Path, metadata: bool) -> Command {
    let mut c = Command::new("rustc");
    c.args(["--edition", "2024", "--error-format=json", "--cap-lints", "allow", "-C", "debuginfo=0", "-C", "opt-level=0"]);
    if metadata {
        c.args(["--crate-type", "lib", "--emit=metadata"]);
    } else {
        c.args(["--crate-type", "bin", "--emit=link", "-C", "debug-assertions=on"]);
    }
    c.arg("-L").arg(format!("dependency={}", d.dir.display()));
    for (n, f) in &d.externs {
        c.arg("--extern").arg(format!("{n}={f}"));
    }
    c.arg(src).arg("-o").arg(out);
    c
}
/// The lines of `file` an error points at, wherever in a macro it happened.
fn lines(span: &Value, file: &str, out: &mut BTreeSet<usize>) {
    if span["file_name"] == file {
        out.insert(span["line_start"].as_u64().unwrap() as usize);
    }
    if !span["expansion"].is_null() {
        lines(&span["expansion"]["span"], file, out);
    }
}
/// line -> first error message
fn errors(stderr: &str, file: &str) -> Result<BTreeMap<usize, String>, String> {
    let mut m = BTreeMap::new();
    for l in stderr.lines() {
        let Ok(v) = serde_json::from_str::<Value>(l) else { return Err(format!("rustc: {l}")) };
        if v["level"] != "error" && v["level"] != "error: internal compiler error" {
            continue;
        }
        let msg = v["message"].as_str().unwrap_or("").to_string();
        let mut at = BTreeSet::new();
        for s in v["spans"].as_array().unwrap() {
            if s["is_primary"] == true {
                lines(s, file, &mut at);
            }
        }
        if at.is_empty() {
            for s in v["spans"].as_array().unwrap() {
                lines(s, file, &mut at);
            }
        }
        if at.is_empty() && !msg.starts_with("aborting due to") && !msg.starts_with("could not compile") {
            return Err(format!("an error without a place: {msg}"));
        }
        for i in at {
            m.entry(i).or_insert_with(|| msg.clone());
        }
    }
    Ok(m)
}

/// Which programs compile: for each, None or the compiler's first message about it.  Every program is
/// one line of a file; files are compiled again without the programs in error until none is left, since
/// the compiler stops at the first phase which finds errors.
pub fn classify(d: &Deps, header: &str, programs: &[String], chunk: usize, stats: &AtomicUsize) -> Vec<Option<String>> {
    let dir = scratch("classify");
    let n = programs.len().div_ceil(chunk).max(1);
    let next = AtomicUsize::new(0);
    let res = Mutex::new(vec![None; programs.len()]);
    let head = header.lines().count();
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let c = next.fetch_add(1, Relaxed);
                if c >= n {
                    break;
                }
                // spread the programs so that files cost about the same
                let mut live: Vec<usize> = (c..programs.len()).step_by(n).collect();
                let (src, out) = (dir.join(format!("c{c}.rs")), dir.join(format!("c{c}.rmeta")));
                while !live.is_empty() {
                    let mut text = format!("{}\n", header.trim_end());
                    for &i in &live {
                        assert!(!programs[i].contains('\n'));
                        text += &format!("mod s{i} {{ use super::*; {} }}\n", programs[i]);
                    }
                    std::fs::write(&src, text).unwrap();
                    let o = rustc(d, &src, &out, true).output().expect("rustc");
                    stats.fetch_add(1, Relaxed);
                    if o.status.success() {
                        break;
                    }
                    let e = errors(&String::from_utf8_lossy(&o.stderr), src.to_str().unwrap()).unwrap_or_else(|e| {
                        eprintln!("ENGINE ERROR: {e} ({})", src.display());
                        std::process::exit(3)
                    });
                    let mut left = vec![];
                    let mut r = res.lock().unwrap();
                    for (k, &i) in live.iter().enumerate() {
                        match e.get(&(head + 1 + k)) {
                            Some(m) => r[i] = Some(m.clone()),
                            None => left.push(i),
                        }
                    }
                    if left.len() == live.len() {
                        eprintln!("ENGINE ERROR: errors outside the programs in {}: {e:?}", src.display());
                        std::process::exit(3)
                    }
                    live = left;
                }
            });
        }
    });
    let _ = std::fs::remove_dir_all(&dir);
    res.into_inner().unwrap()
}

/// Compile chunks of programs into executables and run them on an input.  `text(chunk, refused)` is the
/// source of a chunk without the programs that do not compile, and the program on each of its lines.
/// Returns the standard output of each chunk and the compiler's first message about each refused program.
pub fn execute(d: &Deps, chunks: usize, input: &str, text: impl Fn(usize, &BTreeMap<usize, String>) -> (String, BTreeMap<usize, usize>) + Sync) -> (Vec<String>, BTreeMap<usize, String>) {
    let dir = scratch("execute");
    let stdin = dir.join("input");
    std::fs::write(&stdin, input).unwrap();
    let next = AtomicUsize::new(0);
    let res = Mutex::new(vec![String::new(); chunks]);
    let refused = Mutex::new(BTreeMap::new());
    let die = |m: String| -> ! {
        eprintln!("ENGINE ERROR: {m}");
        std::process::exit(3)
    };
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Relaxed);
                if i >= chunks {
                    break;
                }
                let (src, exe) = (dir.join(format!("m{i}.rs")), dir.join(format!("m{i}")));
                let mut bad: BTreeMap<usize, String> = BTreeMap::new();
                loop {
                    let (t, at) = text(i, &bad);
                    std::fs::write(&src, t).unwrap();
                    let o = rustc(d, &src, &exe, false).output().expect("rustc");
                    if o.status.success() {
                        break;
                    }
                    let e = errors(&String::from_utf8_lossy(&o.stderr), src.to_str().unwrap()).unwrap_or_else(|e| die(e));
                    let n = bad.len();
                    for (l, m) in &e {
                        if let Some(p) = at.get(l) {
                            bad.insert(*p, m.clone());
                        }
                    }
                    if bad.len() == n {
                        die(format!("errors outside the programs in {}: {e:?}", src.display()));
                    }
                }
                let o = Command::new(&exe).stdin(std::fs::File::open(&stdin).unwrap()).stderr(Stdio::null()).output().expect("the compiled program");
                if !o.status.success() {
                    die(format!("{}: {}", src.display(), o.status));
                }
                let _ = std::fs::remove_file(&exe);
                res.lock().unwrap()[i] = String::from_utf8_lossy(&o.stdout).into_owned();
                refused.lock().unwrap().extend(bad);
            });
        }
    });
    let _ = std::fs::remove_dir_all(&dir);
    (res.into_inner().unwrap(), refused.into_inner().unwrap())
}
