//! Bounded-exhaustive exploration engine.
//!
//! A *space* is a transition system whose states are the inputs built so far and whose transitions
//! append one token.  Every state within the depth bound is visited exactly once (several token
//! paths may spell the same input; they are merged), and a checker runs the code under test in it
//! and compares it with a reference model.

use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;
use std::fs;
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// Outcome of one execution: the accepted value, or the name of the error (or `PANIC: ...`).
pub type R<T> = Result<T, std::borrow::Cow<'static, str>>;

/// Where this framework lives.
pub fn verif() -> &'static str {
    static V: std::sync::OnceLock<String> = std::sync::OnceLock::new();
    V.get_or_init(|| std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}
const SLOT: u64 = 1024;

/// Run a piece of the code under test; a panic becomes an `Err("PANIC: ...")`.
pub fn guard<T>(f: impl FnOnce() -> R<T>) -> R<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(e) => {
            let m = e
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| e.downcast_ref::<String>().cloned())
                .unwrap_or_else(|| "?".into());
            Err(format!("PANIC: {m}").into())
        }
    }
}

/// The variant name of an error's debug text (`TooLarge(3)` and `TooLarge` are both `TooLarge`).
pub fn kind(e: &impl std::fmt::Debug) -> String {
    let s = format!("{e:?}");
    s.split(|c: char| !c.is_alphanumeric() && c != '_').next().unwrap_or("").to_string()
}

pub fn show(s: &str) -> String {
    if s.len() > 200 {
        let cut = (0..=160).rev().find(|&i| s.is_char_boundary(i)).unwrap();
        format!("{:?}...({} bytes)", &s[..cut], s.len())
    } else {
        format!("{s:?}")
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub space: String,
    pub word: String,
    pub config: String,
    pub input: String,
    pub detail: String,
}

#[derive(Default)]
pub struct Ctx {
    space: String,
    word: String,
    states: u64,
    transitions: u64,
    execs: u64,
    outcomes: HashMap<String, (u64, String)>,
    violations: Vec<Violation>,
    nviol: u64,
}

impl Ctx {
    /// `n` executions of the code under test were compared with the model.
    #[inline]
    pub fn exec(&mut self, n: u64) {
        self.execs += n;
    }
    /// Classify this case (for the non-vacuity histogram).
    pub fn outcome(&mut self, label: &str, input: impl FnOnce() -> String) {
        if let Some(e) = self.outcomes.get_mut(label) {
            e.0 += 1;
        } else {
            self.outcomes.insert(label.to_string(), (1, input()));
        }
    }
    pub fn fail(&mut self, config: &str, input: &str, detail: impl Into<String>) {
        self.nviol += 1;
        if self.violations.len() < 40 {
            self.violations.push(Violation {
                space: self.space.clone(),
                word: self.word.clone(),
                config: config.into(),
                input: input.into(),
                detail: detail.into(),
            });
        }
    }
    /// Compare two printable things.
    pub fn same<T: PartialEq + std::fmt::Debug>(&mut self, config: &str, input: &str, what: &str, model: &T, code: &T) -> bool {
        self.execs += 1;
        if model != code {
            self.fail(config, input, format!("{what}: model {model:?}, code {code:?}"));
            return false;
        }
        true
    }
}

pub struct Space {
    pub name: String,
    pub roots: Vec<String>,
    pub tokens: Vec<String>,
    pub depth: usize,
}

impl Space {
    pub fn new(name: &str, roots: &[&str], tokens: &[&str], depth: usize) -> Self {
        Space {
            name: name.into(),
            roots: roots.iter().map(|s| s.to_string()).collect(),
            tokens: tokens.iter().map(|s| s.to_string()).collect(),
            depth,
        }
    }
    pub fn chars(name: &str, roots: &[&str], alphabet: &str, depth: usize) -> Self {
        let t: Vec<String> = alphabet.chars().map(|c| c.to_string()).collect();
        let t: Vec<&str> = t.iter().map(|s| s.as_str()).collect();
        Self::new(name, roots, &t, depth)
    }
    fn prefix_free(&self) -> bool {
        self.tokens.iter().enumerate().all(|(i, a)| {
            self.tokens.iter().enumerate().all(|(j, b)| i == j || !b.starts_with(a.as_str()))
        })
    }
}

struct Seen(Vec<Mutex<HashMap<u128, u8>>>);
impl Seen {
    fn new() -> Self {
        Seen((0..64).map(|_| Mutex::new(HashMap::new())).collect())
    }
    fn key(s: &str) -> u128 {
        // two independent FNV-style 64-bit hashes
        let (mut a, mut b) = (0xcbf29ce484222325u64, 0x9E3779B97F4A7C15u64);
        for &x in s.as_bytes() {
            a = (a ^ x as u64).wrapping_mul(0x100000001b3);
            b = (b.rotate_left(5) ^ x as u64).wrapping_mul(0xff51afd7ed558ccd);
        }
        ((a as u128) << 64) | b as u128
    }
    /// (first visit?, must be expanded?)
    fn visit(&self, s: &str, remaining: usize) -> (bool, bool) {
        let k = Self::key(s);
        let mut m = self.0[(k >> 64) as usize % 64].lock().unwrap();
        match m.get_mut(&k) {
            None => {
                m.insert(k, remaining as u8);
                (true, true)
            }
            Some(r) if (*r as usize) < remaining => {
                *r = remaining as u8;
                (false, true)
            }
            _ => (false, false),
        }
    }
}

pub struct Run {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    start: Instant,
    deadline: Instant,
    slots: fs::File,
    replay: Option<(String, String)>,
    states: u64,
    transitions: u64,
    execs: u64,
    outcomes: BTreeMap<String, (u64, String)>,
    violations: Vec<Violation>,
    nviol: u64,
    spaces: Vec<String>,
    stop: AtomicBool,
    capped: AtomicBool,
    pub assumptions: Vec<String>,
    pub level: &'static str,
    pub notes: Vec<(String, u64)>,
    pub threads: usize,
}

fn slot_path(id: &str) -> String {
    format!("{}/target/slots-{id}-{}", verif(), std::process::id())
}

impl Run {
    /// Entry point of every check.
    pub fn main(id: &str, body: impl FnOnce(&mut Run)) -> ! {
        let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
            || std::env::args().any(|a| a == "--thorough");
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let _ = fs::create_dir_all(format!("{}/target", verif()));
        let _ = fs::create_dir_all(format!("{}/evidence", verif()));
        let _ = fs::create_dir_all(format!("{}/replays", verif()));
        if let Ok(p) = std::env::var("MC_CHILD") {
            let slots = fs::OpenOptions::new().read(true).write(true).open(&p).expect("slots");
            let replay = std::env::var("MC_REPLAY").ok().map(|f| {
                let t = fs::read_to_string(&f).expect("replay file");
                let get = |k: &str| {
                    t.lines().find_map(|l| l.strip_prefix(k)).map(|s| unhex(s.trim())).expect("field in replay file")
                };
                (get("space-hex:"), get("word-hex:"))
            });
            std::panic::set_hook(Box::new(|i| {
                if std::env::var("MC_LOUD").is_ok() {
                    eprintln!("{i}");
                }
            }));
            let cap = std::env::var("MC_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 6 * 3600 } else { 600 });
            let now = Instant::now();
            let mut r = Run {
                id: id.into(),
                thorough,
                seed,
                start: now,
                deadline: now + Duration::from_secs(cap),
                slots,
                replay,
                states: 0,
                transitions: 0,
                execs: 0,
                outcomes: BTreeMap::new(),
                violations: vec![],
                nviol: 0,
                spaces: vec![],
                stop: AtomicBool::new(false),
                capped: AtomicBool::new(false),
                assumptions: vec![],
                level: "model_checking",
                notes: vec![],
                threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4),
            };
            match catch_unwind(AssertUnwindSafe(|| body(&mut r))) {
                Ok(()) => r.finish(),
                Err(e) => {
                    let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()));
                    eprintln!("ENGINE ERROR: {}", m.unwrap_or_default());
                    std::process::exit(3)
                }
            }
        }
        // parent: watch the child for crashes and hangs of the code under test
        let sp = slot_path(id);
        let f = fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(&sp).expect("slots");
        f.set_len(SLOT * 64).unwrap();
        let t0 = Instant::now();
        let mut child = std::process::Command::new(std::env::current_exe().unwrap())
            .args(std::env::args().skip(1))
            .env("MC_CHILD", &sp)
            .spawn()
            .expect("spawn");
        let mut last: Vec<(u64, Instant)> = vec![(0, Instant::now()); 64];
        let verdict: Option<(String, Vec<(String, String)>)> = loop {
            if let Some(st) = child.try_wait().unwrap() {
                if let Some(c) = st.code() {
                    let _ = fs::remove_file(&sp);
                    std::process::exit(c);
                }
                let sig = st.signal().unwrap_or(0);
                let live = read_slots(&f);
                if (sig == 6 || sig == 11 || sig == 4 || sig == 7 || sig == 8) && !live.is_empty() {
                    break Some((
                        format!("the process died with signal {sig} (stack overflow or abort) while the code under test was running"),
                        live.into_iter().map(|(_, s, w)| (s, w)).collect(),
                    ));
                }
                eprintln!("ENGINE ERROR: child died with signal {sig}");
                let _ = fs::remove_file(&sp);
                std::process::exit(3);
            }
            std::thread::sleep(Duration::from_millis(50));
            let mut hung = vec![];
            for (i, (c, l)) in last.iter_mut().enumerate() {
                let mut b = [0u8; 8];
                let _ = f.read_exact_at(&mut b, i as u64 * SLOT);
                let n = u64::from_le_bytes(b);
                if n != *c {
                    *c = n;
                    *l = Instant::now();
                } else if n % 2 == 1 && l.elapsed() > Duration::from_secs(120) {
                    hung.push(i);
                }
            }
            if !hung.is_empty() {
                let live = read_slots(&f);
                let _ = child.kill();
                let _ = child.wait();
                break Some((
                    "the code under test did not come back within 120 s".into(),
                    live.into_iter().filter(|x| hung.contains(&x.0)).map(|(_, s, w)| (s, w)).collect(),
                ));
            }
        };
        let (why, live) = verdict.unwrap();
        let (space, word) = live[0].clone();
        let v = Violation { space, word: word.clone(), config: format!("one of {live:?}"), input: word, detail: why };
        let path = write_replay(id, &v);
        println!("{}: {}", v.config, v.detail);
        println!("VIOLATION property={id} replay={path}");
        let ev = format!(
            "{{\"property\":\"{id}\",\"tier\":\"{}\",\"seed\":{seed},\"level\":\"model_checking\",\"coverage\":{{\"states\":0,\"transitions\":0,\"traces_validated_against_impl\":0,\"samples\":[{}],\"explanation\":\"aborted: {}\"}},\"wall_s\":{:.3},\"violations\":1}}\n",
            if thorough { "thorough" } else { "quick" },
            js(&v.input),
            v.detail,
            t0.elapsed().as_secs_f64()
        );
        fs::write(format!("{}/evidence/{id}.json", verif()), ev).unwrap();
        let _ = fs::remove_file(&sp);
        std::process::exit(1);
    }

    /// The space and the word of the replay asked for.
    pub fn replaying(&self) -> Option<(&str, &str)> {
        self.replay.as_ref().map(|(s, w)| (s.as_str(), w.as_str()))
    }
    /// quick or thorough bound
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }

    fn enter(&self, slot: usize, n: &mut u64, space: &str, word: &str) {
        *n += 1; // odd: running
        let mut b = [0u8; SLOT as usize];
        b[..8].copy_from_slice(&n.to_le_bytes());
        let s = &space.as_bytes()[..space.len().min(100)];
        let w = &word.as_bytes()[..word.len().min(800)];
        b[8..10].copy_from_slice(&(s.len() as u16).to_le_bytes());
        b[10..12].copy_from_slice(&(w.len() as u16).to_le_bytes());
        b[12..12 + s.len()].copy_from_slice(s);
        b[12 + s.len()..12 + s.len() + w.len()].copy_from_slice(w);
        let _ = self.slots.write_all_at(&b[..12 + s.len() + w.len()], slot as u64 * SLOT);
    }
    fn leave(&self, slot: usize, n: &mut u64) {
        *n += 1;
        let _ = self.slots.write_all_at(&n.to_le_bytes(), slot as u64 * SLOT);
    }

    fn absorb(&mut self, ctxs: Vec<Ctx>) {
        for c in ctxs {
            self.states += c.states;
            self.transitions += c.transitions;
            self.execs += c.execs;
            for (k, (n, s)) in c.outcomes {
                let e = self.outcomes.entry(k).or_insert((0, s.clone()));
                e.0 += n;
                if (s.len(), &s) < (e.1.len(), &e.1) {
                    e.1 = s;
                }
            }
            self.nviol += c.nviol;
            self.violations.extend(c.violations);
        }
        if self.nviol > 0 {
            self.violations.sort_by(|a, b| (a.input.len(), &a.input, &a.config).cmp(&(b.input.len(), &b.input, &b.config)));
            self.violations.truncate(60);
        }
    }

    /// Visit every word of the space and run `f` in each.
    pub fn explore(&mut self, sp: &Space, f: impl Fn(&str, &mut Ctx) + Sync) {
        if let Some((s, w)) = self.replay.clone() {
            if s == sp.name {
                self.cases(&sp.name, &[w], |w, c| f(w, c));
            }
            return;
        }
        if self.nviol > 0 {
            return;
        }
        let before = (self.states, self.transitions, self.execs);
        let t = Instant::now();
        let seen = if sp.roots.len() == 1 && sp.prefix_free() { None } else { Some(Seen::new()) };
        // frontier: words of up to `split` tokens
        let split = sp.depth.min(2);
        let mut items: Vec<(String, usize, usize, bool)> = vec![]; // word, depth, remaining depth, expand
        for r in &sp.roots {
            let mut level = vec![r.clone()];
            for d in 0..=split {
                if d == split {
                    items.extend(level.drain(..).map(|w| (w, d, sp.depth - d, true)));
                    break;
                }
                let mut next = vec![];
                for w in &level {
                    items.push((w.clone(), d, sp.depth - d, false));
                    for t in &sp.tokens {
                        next.push(format!("{w}{t}"));
                    }
                }
                level = next;
            }
        }
        let next = AtomicUsize::new(0);
        let this = &*self;
        let ctxs: Vec<Ctx> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..self.threads)
                .map(|slot| {
                    let (items, next, seen, f) = (&items, &next, &seen, &f);
                    s.spawn(move || {
                        let mut ctx = Ctx { space: sp.name.clone(), ..Default::default() };
                        let mut n = 0u64;
                        loop {
                            let i = next.fetch_add(1, Relaxed);
                            if i >= items.len() || this.stop.load(Relaxed) {
                                break;
                            }
                            let (w, d, rem, expand) = &items[i];
                            let mut w = w.clone();
                            if *d > 0 {
                                ctx.transitions += 1;
                            }
                            this.dfs(sp, seen.as_ref(), &mut w, *rem, *expand, &mut ctx, f, slot, &mut n);
                        }
                        ctx
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|e| std::panic::resume_unwind(e))).collect()
        });
        self.absorb(ctxs);
        let line = format!(
            "{}: depth {} over {} tokens from {} roots: {} states, {} transitions, {} executions compared, {:.1} s",
            sp.name, sp.depth, sp.tokens.len(), sp.roots.len(),
            self.states - before.0, self.transitions - before.1, self.execs - before.2, t.elapsed().as_secs_f64()
        );
        println!("{line}");
        self.spaces.push(line);
    }

    #[allow(clippy::too_many_arguments)]
    fn dfs(&self, sp: &Space, seen: Option<&Seen>, w: &mut String, rem: usize, expand: bool, ctx: &mut Ctx, f: &(impl Fn(&str, &mut Ctx) + Sync), slot: usize, n: &mut u64) {
        if self.stop.load(Relaxed) {
            return;
        }
        let (first, again) = match seen {
            Some(s) => s.visit(w, if expand { rem } else { 0 }),
            None => (true, true),
        };
        if first {
            ctx.states += 1;
            ctx.word.clear();
            ctx.word.push_str(w);
            self.enter(slot, n, &sp.name, w);
            f(w, ctx);
            self.leave(slot, n);
            if ctx.nviol > 400 {
                self.stop.store(true, Relaxed);
            }
            if ctx.states % 64 == 0 && Instant::now() > self.deadline {
                self.capped.store(true, Relaxed);
                self.stop.store(true, Relaxed);
            }
        }
        if expand && again && rem > 0 {
            for t in &sp.tokens {
                let l = w.len();
                w.push_str(t);
                ctx.transitions += 1;
                self.dfs(sp, seen, w, rem - 1, true, ctx, f, slot, n);
                w.truncate(l);
            }
        }
    }

    /// Every Unicode scalar value inserted at every gap of, and put in place of every character of, each sample.
    /// With a `limit`, only those below it and the ones which text handling tends to single out.
    pub fn scalars(&mut self, name: &str, samples: &[&str], limit: u32, f: impl Fn(&str, &mut Ctx) + Sync) {
        let name = format!("{name}: every scalar value inserted and substituted in {} samples", samples.len());
        let blocks: Vec<u32> = (0..0x110000 / 256).collect();
        self.cases(&name, &blocks, |&b, ctx| {
            for x in b * 256..b * 256 + 256 {
                let Some(ch) = char::from_u32(x) else { continue };
                let special = ch.is_whitespace()
                    || ch.to_lowercase().any(|c| c.is_ascii()) || ch.to_uppercase().any(|c| c.is_ascii())
                    || matches!(x, 0x0660..=0x0669 | 0x06f0..=0x06f9 | 0x0966..=0x096f | 0x2000..=0x20ff | 0x2100..=0x218f | 0x3000..=0x3002 | 0xfe00..=0xfe0f | 0xfe50..=0xfeff | 0xff00..=0xffff | 0x1d7ce..=0x1d7ff | 0xe0000..=0xe007f | 0x180e | 0x10ffff);
                if x >= limit && !special {
                    continue;
                }
                for s in samples {
                    let cs: Vec<char> = s.chars().collect();
                    let mut w = String::new();
                    for i in 0..=cs.len() {
                        w.clear();
                        w.extend(&cs[..i]);
                        w.push(ch);
                        w.extend(&cs[i..]);
                        f(&w, ctx);
                        if i < cs.len() {
                            w.clear();
                            w.extend(&cs[..i]);
                            w.push(ch);
                            w.extend(&cs[i + 1..]);
                            f(&w, ctx);
                        }
                    }
                }
            }
        });
    }

    /// Visit every member of an explicitly enumerated family.
    pub fn cases<T: Sync + std::fmt::Debug>(&mut self, name: &str, items: &[T], f: impl Fn(&T, &mut Ctx) + Sync) {
        let replay = match &self.replay {
            Some((s, w)) if s == name => Some(w.clone()),
            Some(_) => return,
            None => None,
        };
        if self.nviol > 0 {
            return;
        }
        let before = (self.states, self.execs);
        let t = Instant::now();
        let next = AtomicUsize::new(0);
        let this = &*self;
        let distinct = AtomicU64::new(0);
        let seen = Seen::new();
        let ctxs: Vec<Ctx> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..self.threads)
                .map(|slot| {
                    let (next, f, seen, distinct, replay) = (&next, &f, &seen, &distinct, &replay);
                    s.spawn(move || {
                        let mut ctx = Ctx { space: name.into(), ..Default::default() };
                        let mut n = 0u64;
                        loop {
                            let i = next.fetch_add(1, Relaxed);
                            if i >= items.len() || this.stop.load(Relaxed) {
                                break;
                            }
                            let mut d = String::new();
                            let _ = write!(d, "{:?}", items[i]);
                            if let Some(r) = replay {
                                if *r != d && format!("{r:?}") != d {
                                    continue;
                                }
                            }
                            ctx.transitions += 1;
                            if seen.visit(&d, 0).0 {
                                distinct.fetch_add(1, Relaxed);
                                ctx.states += 1;
                            } else {
                                continue;
                            }
                            ctx.word = d;
                            let wd = std::mem::take(&mut ctx.word);
                            this.enter(slot, &mut n, name, &wd);
                            ctx.word = wd;
                            f(&items[i], &mut ctx);
                            this.leave(slot, &mut n);
                            if ctx.nviol > 400 {
                                this.stop.store(true, Relaxed);
                            }
                            if Instant::now() > this.deadline {
                                this.capped.store(true, Relaxed);
                                this.stop.store(true, Relaxed);
                            }
                        }
                        ctx
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|e| std::panic::resume_unwind(e))).collect()
        });
        self.absorb(ctxs);
        let line = format!(
            "{name}: enumerated family of {} members: {} distinct states, {} executions compared, {:.1} s",
            items.len(), self.states - before.0, self.execs - before.1, t.elapsed().as_secs_f64()
        );
        println!("{line}");
        self.spaces.push(line);
    }

    /// Require that an outcome label was seen at least `n` times (non-vacuity).
    pub fn require(&self, label: &str, n: u64) {
        if self.replay.is_some() || self.nviol > 0 || self.capped.load(Relaxed) {
            return;
        }
        let got: u64 = self.outcomes.iter().filter(|(k, _)| k.contains(label)).map(|(_, v)| v.0).sum();
        assert!(got >= n, "vacuous exploration: outcome {label:?} seen {got} < {n} times");
    }

    pub fn note(&mut self, name: &str, n: u64) {
        self.notes.push((name.into(), n));
    }

    fn finish(mut self) -> ! {
        // What an earlier build of the same check (with other features) covered: its counts, then its spaces.
        if let Some(part) = std::env::var("MC_WITH").ok().and_then(|p| fs::read_to_string(p).ok()) {
            let mut lines = part.lines();
            let n: Vec<u64> = lines.next().unwrap_or("").split(' ').filter_map(|x| x.parse().ok()).collect();
            if let [a, b, c] = n[..] {
                self.states += a;
                self.transitions += b;
                self.execs += c;
            }
            self.spaces.splice(0..0, lines.map(String::from));
        }
        let mut real = vec![];
        let known = fs::read_to_string(format!("{}/known-findings.txt", verif())).unwrap_or_default();
        let mut reported = std::collections::BTreeSet::new();
        for v in &self.violations {
            let pat = format!("known: property={} config={:?} input={:?}", self.id, v.config, v.input);
            if let Some(l) = known.lines().find(|l| l.starts_with(&pat)) {
                reported.insert(l.to_string());
            } else {
                real.push(v.clone());
            }
        }
        for l in &reported {
            println!("KNOWN-FINDING: {}", l.trim_start_matches("known: "));
        }
        let mut o = String::new();
        let capped = self.capped.load(Relaxed);
        let _ = write!(
            o,
            "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":{},\"coverage\":{{\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"exhaustive\":{},\"capped\":{},",
            js(&self.id),
            js(if self.thorough { "thorough" } else { "quick" }),
            self.seed,
            js(self.level),
            self.states,
            self.transitions,
            self.execs,
            !capped,
            capped
        );
        for (k, n) in &self.notes {
            let _ = write!(o, "{}:{},", js(k), n);
        }
        let _ = write!(o, "\"distinct_outcomes\":{},\"outcomes\":{{", self.outcomes.len());
        for (i, (k, (n, _))) in self.outcomes.iter().enumerate() {
            let _ = write!(o, "{}{}:{}", if i > 0 { "," } else { "" }, js(k), n);
        }
        o.push_str("},\"spaces\":[");
        for (i, s) in self.spaces.iter().enumerate() {
            let _ = write!(o, "{}{}", if i > 0 { "," } else { "" }, js(s));
        }
        o.push_str("],\"samples\":[");
        for (i, (k, (_, s))) in self.outcomes.iter().take(60).enumerate() {
            let _ = write!(o, "{}{}", if i > 0 { "," } else { "" }, js(&format!("{s} => {k}")));
        }
        o.push_str("]},\"assumptions\":[");
        for (i, s) in self.assumptions.iter().enumerate() {
            let _ = write!(o, "{}{}", if i > 0 { "," } else { "" }, js(s));
        }
        let nreal = if real.is_empty() { 0 } else { self.nviol };
        let _ = writeln!(o, "],\"wall_s\":{:.3},\"violations\":{}}}", self.start.elapsed().as_secs_f64(), nreal);
        if let Ok(p) = std::env::var("MC_PART") {
            let spaces: Vec<String> = self.spaces.iter().map(|s| format!("{}: {s}", std::env::var("MC_PART_NAME").unwrap_or_default())).collect();
            fs::write(p, format!("{} {} {}\n{}\n", self.states, self.transitions, self.execs, spaces.join("\n"))).expect("part");
        }
        if self.replay.is_none() {
            fs::write(format!("{}/evidence/{}.json", verif(), self.id), o).expect("evidence");
        }
        println!(
            "{}: {} states, {} transitions, {} executions compared, {} outcomes, {} violations{}, {:.1} s",
            self.id, self.states, self.transitions, self.execs, self.outcomes.len(), nreal,
            if capped { " (TIME CAP HIT)" } else { "" },
            self.start.elapsed().as_secs_f64()
        );
        let _ = std::io::stdout().flush();
        if real.is_empty() {
            std::process::exit(0);
        }
        for v in real.iter().take(8) {
            println!("  [{}] input {} : {}", v.config, show(&v.input), v.detail);
        }
        let path = write_replay(&self.id, &real[0]);
        println!("VIOLATION property={} replay={path}", self.id);
        let _ = std::io::stdout().flush();
        std::process::exit(1);
    }
}

fn read_slots(f: &fs::File) -> Vec<(usize, String, String)> {
    let mut out = vec![];
    for i in 0..64usize {
        let mut b = [0u8; SLOT as usize];
        if f.read_exact_at(&mut b, i as u64 * SLOT).is_err() {
            continue;
        }
        if u64::from_le_bytes(b[..8].try_into().unwrap()) % 2 == 0 {
            continue;
        }
        let s = u16::from_le_bytes(b[8..10].try_into().unwrap()) as usize;
        let w = u16::from_le_bytes(b[10..12].try_into().unwrap()) as usize;
        out.push((
            i,
            String::from_utf8_lossy(&b[12..12 + s]).into_owned(),
            String::from_utf8_lossy(&b[12 + s..12 + s + w]).into_owned(),
        ));
    }
    out
}

fn hex(s: &str) -> String {
    s.bytes().map(|b| format!("{b:02x}")).collect()
}
fn unhex(s: &str) -> String {
    let b: Vec<u8> = (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect();
    String::from_utf8(b).unwrap()
}

fn write_replay(id: &str, v: &Violation) -> String {
    let path = format!("{}/replays/{id}.txt", verif());
    let t = format!(
        "property: {id}\nconfig: {}\ninput: {:?}\ninput-hex: {}\ndetail: {}\nspace: {}\nspace-hex: {}\nword: {:?}\nword-hex: {}\n\nReplay just this case:  MC_REPLAY={path} {}/run.sh {id}\n",
        v.config, v.input, hex(&v.input), v.detail, v.space, hex(&v.space), v.word, hex(&v.word), verif()
    );
    fs::write(&path, t).expect("replay file");
    path
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || c as u32 == 127 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
