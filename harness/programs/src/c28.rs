//! C28: every validator works with only its own feature enabled.
use crate::model::VALIDATORS;
use engine::Run;
use std::collections::HashMap;
use std::fmt;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;

#[derive(Clone, PartialEq)]
struct Config {
    validators: Vec<&'static str>,
    others: &'static str,
    /// "" when it is a single validator
    name: String,
}
impl fmt::Debug for Config {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let v = if self.name.is_empty() { self.validators.join(",") } else { self.name.clone() };
        write!(f, "{v} | {}", self.others)
    }
}
impl Config {
    fn of(validators: &[&'static str], others: &'static str) -> Config {
        Config { validators: validators.to_vec(), others, name: String::new() }
    }
    fn features(&self) -> String {
        let v = self.validators.iter().map(|v| format!("v_{v}"));
        let o = self.others.split(',').filter(|o| !o.is_empty()).map(|o| format!("x_{o}"));
        v.chain(o).collect::<Vec<_>>().join(",")
    }
}
struct Seen {
    executions: u64,
    accepted: u64,
    lines: u64,
    wrong: Vec<(String, String)>,
}
/// The site, the way in and the word, and what came of it.
fn split(l: &str) -> (&str, &str) {
    l.rsplit_once('\t').unwrap_or((l, ""))
}
fn build(c: &Config, slot: &str, depth: usize) -> Result<String, String> {
    let dir = format!("{}/features-{slot}", std::env::var("CARGO_TARGET_DIR").unwrap_or_else(|_| format!("{}/target", engine::verif())));
    let o = Command::new("cargo")
        .args(["build", "--quiet", "--features", &c.features()])
        .current_dir(format!("{}/harness/programs/single", engine::verif()))
        .env("CARGO_TARGET_DIR", &dir)
        .env("CARGO_BUILD_JOBS", if slot == "reference" { "8" } else { "3" })
        .env("CARGO_TERM_COLOR", "never")
        .output()
        .expect("cargo");
    let e = String::from_utf8_lossy(&o.stderr);
    if !o.status.success() {
        if ["`single`", "`validators`", "`validators-derive`"].iter().any(|n| e.contains(&format!("could not compile {n}"))) {
            let first = e.lines().find(|l| l.starts_with("error")).unwrap_or("error").to_string();
            let at = e.lines().find(|l| l.contains("-->")).unwrap_or("").trim().to_string();
            return Err(format!("{first} {at}"));
        }
        eprintln!("BUILD FAILED: harness/programs/single ({c:?})\n{e}");
        std::process::exit(2);
    }
    let o = Command::new(format!("{dir}/debug/single")).arg(depth.to_string()).stderr(Stdio::inherit()).output().expect("single");
    if !o.status.success() {
        return Err(format!("the program ended with {}", o.status));
    }
    Ok(String::from_utf8(o.stdout).expect("text"))
}

pub fn c28(run: &mut Run) {
    let depth = run.pick(1, 2);
    let mut all: Vec<Config> = vec![];
    let mut others = vec!["", "derive", "derive,std", "derive,serde", "derive,std,serde", "derive,test,full", "derive,axum", "derive,rocket"];
    if run.thorough {
        others.extend(["derive,rocket,axum,test,full", "std", "serde", "rocket", "axum", "derive,serde,test", "derive,serde,full"]);
    }
    for o in others {
        for v in VALIDATORS {
            all.push(Config::of(&[v], o));
        }
        all.push(Config { validators: VALIDATORS.to_vec(), others: o, name: "every validator".into() });
        // (the derive macro refuses to be built without any)
        if !o.contains("derive") {
            all.push(Config { validators: vec![], others: o, name: "no validator".into() });
        }
    }
    for v in ["bit", "byte"] {
        all.push(Config::of(&[v], "derive,u128"));
        all.push(Config::of(&[v], "derive,std,serde,u128"));
    }
    all.push(Config::of(&["bit", "byte"], "derive"));
    if run.thorough {
        for o in ["derive", "derive,serde"] {
            for (i, v) in VALIDATORS.iter().enumerate() {
                let rest: Vec<&'static str> = VALIDATORS.iter().copied().filter(|w| w != v).collect();
                all.push(Config { validators: rest, others: o, name: format!("every validator but {v}") });
                for w in &VALIDATORS[..i] {
                    if !(o == "derive,serde") {
                        all.push(Config::of(&[w, v], o));
                    }
                }
            }
        }
    } else {
        // validators which share helpers, two at a time
        let net = ["domain", "host", "ip", "ipv4", "ipv6", "email", "http_url", "http_ftp_url"];
        for (i, v) in net.iter().enumerate() {
            for w in &net[..i] {
                all.push(Config::of(&[w, v], "derive"));
            }
        }
    }
    if let Some((_, word)) = run.replaying() {
        all.retain(|c| word.trim_matches('"') == format!("{c:?}"));
    }
    // everything enabled: what all the other checks are about
    let reference = Config { validators: VALIDATORS.to_vec(), others: if run.thorough { "derive,std,serde,rocket,axum,test,full" } else { "derive,std,serde" }, name: "reference".into() };
    let rocket = reference.others.contains("rocket");
    let want = match build(&reference, "reference", depth) {
        Ok(w) => w,
        Err(e) => {
            run.cases("everything enabled", &[reference], |c, ctx| ctx.fail(&c.features(), "", format!("a crate using it does not build: {e}")));
            return;
        }
    };
    let want: HashMap<&str, &str> = want.lines().map(split).collect();
    // each thread has its own target directory; validators with the same dependencies go to the same
    // (the web frameworks take long to build: each has a place nobody else goes to)
    let place = |c: &Config| match c.validators.first() {
        _ if c.others.contains("rocket") => 8,
        _ if c.others.contains("axum") => 9,
        None => 0,
        _ if c.validators.len() > 5 => 1,
        Some(v) => match *v {
            "phone" => 2,
            "url" | "http_url" | "http_ftp_url" => 3,
            "domain" | "host" | "email" => 4,
            "ip" | "ipv4" | "ipv6" | "line" | "length" => 5,
            "regex" | "bit" | "byte" | "json" => 6,
            "semver" | "semver_req" | "text" | "number" | "signed_integer" | "unsigned_integer" => 0,
            _ => 7,
        },
    };
    let mut places: Vec<Vec<usize>> = vec![vec![]; 10];
    for (i, c) in all.iter().enumerate() {
        places[place(c)].push(i);
    }
    let next: Vec<AtomicUsize> = (0..10).map(|_| AtomicUsize::new(0)).collect();
    let seen: Mutex<HashMap<usize, Result<Seen, String>>> = Mutex::new(HashMap::new());
    std::thread::scope(|s| {
        for t in 0..10 {
            let (all, places, next, seen, want) = (&all, &places, &next, &seen, &want);
            s.spawn(move || {
                // its own place first, then the ones others have not finished
                for k in 0..if t < 8 { 8 } else { 1 } {
                    let p = if t < 8 { (t + k) % 8 } else { t };
                    loop {
                        let n = next[p].fetch_add(1, Relaxed);
                        let Some(&i) = places[p].get(n) else { break };
                        let c = &all[i];
                        let r = build(c, &t.to_string(), depth).map(|got| {
                            let mut o = Seen { executions: 0, accepted: 0, lines: 0, wrong: vec![] };
                            let compare = !c.others.contains("u128");
                            for l in got.lines() {
                                let (at, what) = split(l);
                                o.lines += 1;
                                o.executions += 1;
                                o.accepted += what.starts_with("Ok") as u64;
                                if what == "panics" && o.wrong.len() < 3 {
                                    o.wrong.push((at.to_string(), "panics".to_string()));
                                }
                                if compare && o.wrong.len() < 3 {
                                    match want.get(at) {
                                        Some(w) if *w == what => (),
                                        Some(w) => o.wrong.push((at.to_string(), format!("{what} instead of {w} with everything enabled"))),
                                        // (without rocket in the reference, C22 compares these with the text)
                                        None if !rocket && ["\tform field\t", "\tparameter\t"].iter().any(|w| at.contains(w)) => (),
                                        None => o.wrong.push((at.to_string(), "not in the reference".to_string())),
                                    }
                                }
                            }
                            o
                        });
                        seen.lock().unwrap().insert(i, r);
                    }
                }
            });
        }
    });
    let seen = seen.into_inner().unwrap();
    let index: Vec<(usize, Config)> = all.into_iter().enumerate().collect();
    let cases: Vec<Config> = index.iter().map(|(_, c)| c.clone()).collect();
    run.cases("feature sets", &cases, |c, ctx| {
        let i = index.iter().find(|(_, d)| d == c).unwrap().0;
        match &seen[&i] {
            Err(e) => ctx.fail(&c.features(), "", &format!("a crate using it does not build: {e}")),
            Ok(s) => {
                ctx.exec(s.executions.max(1));
                for (at, what) in &s.wrong {
                    ctx.fail(&c.features(), at, what);
                }
                if c.others.contains("derive") && !c.validators.is_empty() && s.accepted == 0 {
                    ctx.fail(&c.features(), "", "nothing is accepted at any of its sites");
                }
                ctx.outcome(if s.lines > 0 { "builds, runs and agrees" } else { "builds" }, || format!("{c:?}: {} outcomes", s.lines));
            }
        }
    });
    run.require("builds, runs and agrees", 100);
    run.note("outcomes with everything enabled", want.len() as u64);
}
