//! C08, C09: Base32 / Base64 / Base64URL text and decoded validators.
use engine::{guard, kind, show, Ctx, Run, Space, R};
use validators::prelude::*;


#[derive(Clone, Copy, PartialEq, Debug)]
enum Pad {
    Must,
    Allow,
    Disallow,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Alpha {
    B32,
    B64,
    B64Url,
}

struct Cfg {
    name: &'static str,
    alpha: Alpha,
    pad: Pad,
    decoded: bool,
    strs: [(&'static str, fn(&str) -> R<Vec<u8>>); 2],
    bytes: [(&'static str, fn(&[u8]) -> R<Vec<u8>>); 2],
    vstr: fn(&str) -> R<()>,
    vbytes: fn(&[u8]) -> R<()>,
}

trait Content {
    fn content(self) -> Vec<u8>;
}

macro_rules! cfgs {
    ($($v:ident $alpha:ident $decoded:literal $ty:ty : $($t:ident $pad:ident),*;)*) => {
        $($(
            #[derive(Validator, Debug, Clone, PartialEq)]
            #[validator($v(padding($pad)))]
            struct $t(pub $ty);
            impl Content for $t { fn content(self) -> Vec<u8> { self.0.into() } }
        )*)*
        fn cfgs() -> Vec<Cfg> {
            vec![$($(Cfg {
                name: concat!(stringify!($v), "(padding(", stringify!($pad), "))"),
                alpha: Alpha::$alpha,
                pad: Pad::$pad,
                decoded: $decoded,
                strs: [
                    ("parse_str", |s| guard(|| <$t as ValidateString>::parse_str(s).map(|v| v.content()).map_err(|e| kind(&e).into()))),
                    ("parse_string", |s| guard(|| <$t as ValidateString>::parse_string(s.to_string()).map(|v| v.content()).map_err(|e| kind(&e).into()))),
                ],
                bytes: [
                    ("parse_u8_slice", |s| guard(|| <$t as ValidateBytes>::parse_u8_slice(s).map(|v| v.content()).map_err(|e| kind(&e).into()))),
                    ("parse_vec_u8", |s| guard(|| <$t as ValidateBytes>::parse_vec_u8(s.to_vec()).map(|v| v.content()).map_err(|e| kind(&e).into()))),
                ],
                vstr: |s| guard(|| <$t as ValidateString>::validate_str(s).map_err(|e| kind(&e).into())),
                vbytes: |s| guard(|| <$t as ValidateBytes>::validate_u8_slice(s).map_err(|e| kind(&e).into())),
            },)*)*]
        }
    };
}
cfgs! {
    base32 B32 false String: T1 Must, T2 Allow, T3 Disallow;
    base64 B64 false String: T4 Must, T5 Allow, T6 Disallow;
    base64_url B64Url false String: T7 Must, T8 Allow, T9 Disallow;
    base32_decoded B32 true Vec<u8>: U1 Must, U2 Allow, U3 Disallow;
    base64_decoded B64 true Vec<u8>: U4 Must, U5 Allow, U6 Disallow;
    base64_url_decoded B64Url true Vec<u8>: U7 Must, U8 Allow, U9 Disallow;
}

// ------------------------------------------------------------ the model

impl Alpha {
    fn bits(self) -> usize {
        if self == Alpha::B32 {
            5
        } else {
            6
        }
    }
    fn symbols(self) -> &'static [u8] {
        match self {
            Alpha::B32 => b"ABCDEFGHIJKLMNOPQRSTUVWXYZ234567",
            Alpha::B64 => b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/",
            Alpha::B64Url => b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_",
        }
    }
    /// characters in a full group
    fn group(self) -> usize {
        if self == Alpha::B32 {
            8
        } else {
            4
        }
    }
    fn encode(self, data: &[u8], padded: bool) -> Vec<u8> {
        let mut out = vec![];
        let (mut acc, mut n) = (0u32, 0);
        for &b in data {
            acc = (acc << 8 | b as u32) & 0xffff;
            n += 8;
            while n >= self.bits() {
                n -= self.bits();
                out.push(self.symbols()[(acc >> n) as usize & ((1 << self.bits()) - 1)]);
            }
        }
        if n > 0 {
            out.push(self.symbols()[(acc << (self.bits() - n)) as usize & ((1 << self.bits()) - 1)]);
        }
        while padded && out.len() % self.group() != 0 {
            out.push(b'=');
        }
        out
    }
    /// Well-formed under the padding setting?  Yields (decoded bytes, canonical?).
    fn read(self, v: &[u8], pad: Pad) -> Option<(Vec<u8>, bool)> {
        let body: Vec<u8> = v.iter().copied().take_while(|&b| b != b'=').collect();
        let pads = v.len() - body.len();
        if body.is_empty() || v[body.len()..].iter().any(|&b| b != b'=') {
            return None;
        }
        let mut data = vec![];
        let (mut acc, mut n) = (0u32, 0);
        for &b in &body {
            let x = self.symbols().iter().position(|&s| s == b)?;
            acc = (acc << self.bits() | x as u32) & 0xffff;
            n += self.bits();
            if n >= 8 {
                n -= 8;
                data.push((acc >> n) as u8);
            }
        }
        // a last symbol which carries no data bit cannot come from an encoder
        if n >= self.bits() {
            return None;
        }
        let missing = (self.group() - body.len() % self.group()) % self.group();
        let ok = match pad {
            Pad::Must => pads == missing,
            Pad::Disallow => pads == 0,
            Pad::Allow => pads == 0 || pads == missing,
        };
        if !ok {
            return None;
        }
        Some((data, acc & ((1 << n) - 1) == 0))
    }
}

fn model(c: &Cfg, v: &[u8]) -> Option<Vec<u8>> {
    let (data, canonical) = c.alpha.read(v, c.pad)?;
    match (c.decoded, canonical) {
        (false, _) => Some(v.to_vec()),
        (true, true) => Some(data),
        (true, false) => None,
    }
}

fn label(c: &Cfg, v: &[u8], m: &Option<Vec<u8>>) -> &'static str {
    let x = c.alpha.read(v, c.pad);
    match (m, x) {
        (Some(_), _) if v.contains(&b'=') => "accept padded",
        (Some(_), _) => "accept unpadded",
        (None, Some(_)) => "reject non-canonical",
        (None, None) if c.alpha.read(v, Pad::Allow).is_some() => "reject padding setting",
        _ => "reject malformed",
    }
}

/// May this error be reported?  Only the setting in force is named, and it is when nothing else is wrong.
fn named(c: &Cfg, v: &[u8], e: &str) -> bool {
    let name = match c.pad {
        Pad::Must => "PaddingMust",
        Pad::Disallow => "PaddingDisallow",
        Pad::Allow => "",
    };
    let well = c.alpha.read(v, Pad::Allow).is_some_and(|(_, canonical)| canonical || !c.decoded);
    e == name || !well && (e == "Invalid" || c.decoded && e == "Decode")
}

fn check(cfgs: &[&Cfg], v: &[u8], ctx: &mut Ctx) {
    let s = std::str::from_utf8(v).ok();
    let inp = String::from_utf8_lossy(v);
    for c in cfgs {
        let m = model(c, v);
        ctx.outcome(&format!("{:?} {} {}", c.alpha, if c.decoded { "decoded" } else { "text" }, label(c, v, &m)), || show(&inp));
        let bad = |what: &str, got: String, ctx: &mut Ctx| ctx.fail(c.name, &inp, format!("{what}({v:?}): model {m:?}, code {got}"));
        let one = |what: &str, got: R<Vec<u8>>, ctx: &mut Ctx| {
            ctx.exec(1);
            let ok = match (&m, &got) {
                (Some(a), Ok(b)) => a == b,
                (None, Err(e)) => named(c, v, e),
                _ => false,
            };
            if !ok {
                bad(what, format!("{got:?}"), ctx);
            }
        };
        for (what, f) in &c.bytes {
            one(what, f(v), ctx);
        }
        one("validate_u8_slice", (c.vbytes)(v).map(|_| m.clone().unwrap_or_default()), ctx);
        if let Some(s) = s {
            for (what, f) in &c.strs {
                one(what, f(s), ctx);
            }
            one("validate_str", (c.vstr)(s).map(|_| m.clone().unwrap_or_default()), ctx);
        }
    }
}

fn explore(run: &mut Run, decoded: bool) {
    let all = cfgs();
    let mine: Vec<&Cfg> = all.iter().filter(|c| c.decoded == decoded).collect();
    let b32: Vec<&Cfg> = mine.iter().copied().filter(|c| c.alpha == Alpha::B32).collect();
    let b64: Vec<&Cfg> = mine.iter().copied().filter(|c| c.alpha != Alpha::B32).collect();
    run.cases("empty", &[""], |s, c| check(&mine, s.as_bytes(), c));
    // every word over one symbol of each kind, behind 0..17 full symbols
    let roots: Vec<String> = (0..=run.pick(17, 33)).map(|n| "K".repeat(n)).collect();
    let roots: Vec<&str> = roots.iter().map(|s| s.as_str()).collect();
    run.explore(&Space::chars("base32 words", &roots, "AB=1", run.pick(8, 10)), |s, c| check(&b32, s.as_bytes(), c));
    run.explore(&Space::chars("base32 last symbols", &["", "MZXW6YTB"], "AQ74=", run.pick(8, 9)), |s, c| check(&b32, s.as_bytes(), c));
    run.explore(&Space::chars("base64 words", &roots[..10], "AB/_=.", run.pick(6, 8)), |s, c| check(&b64, s.as_bytes(), c));
    run.explore(&Space::chars("base64 last symbols", &["", "TWFu"], "Aw8Q+-=", run.pick(5, 7)), |s, c| check(&b64, s.as_bytes(), c));
    // every symbol pair / triple at the end
    let pairs: Vec<(usize, u8, u8)> = (0..run.pick(9usize, 17)).flat_map(|n| (0..=255u8).flat_map(move |a| (0..=255u8).map(move |b| (n, a, b)))).collect();
    run.cases("every pair of last bytes", &pairs, |&(n, a, b), c| {
        let mut v = b"KKKKKKKKKKKKKKKKK"[..n].to_vec();
        v.push(a);
        v.push(b);
        check(&mine, &v, c);
        // pad to the next multiple of the group
        while v.len() % 4 != 0 {
            v.push(b'=');
        }
        check(&b64, &v, c);
        while v.len() % 8 != 0 {
            v.push(b'=');
        }
        check(&b32, &v, c);
    });
    // every byte in every position of inputs of every length
    let subs: Vec<(usize, usize)> = (1..=run.pick(24usize, 48)).flat_map(|n| (0..n).map(move |i| (n, i))).collect();
    run.cases("every byte at every position", &subs, |&(n, i), c| {
        for pads in [0usize, 1, 2, 3, 4, 5, 6] {
            if pads >= n {
                continue;
            }
            let mut v = vec![b'A'; n - pads];
            v.resize(n, b'=');
            for b in 0..=255u8 {
                v[i] = b;
                check(&mine, &v, c);
            }
        }
        // multi-byte characters
        for ch in ["é", "中", "\u{ff21}", "\u{1f600}"] {
            let t = format!("{}{ch}{}", "A".repeat(i), "A".repeat(n - i - 1));
            check(&mine, t.as_bytes(), c);
        }
    });
    let long: Vec<usize> = (25..=run.pick(140usize, 1100)).collect();
    run.cases("one wrong byte at every position of long inputs", &long, |&n, c| {
        for pads in [0usize, 1, 2, 3, 4, 6] {
            let mut v = vec![b'Q'; n - pads];
            if let Some(l) = v.last_mut() {
                *l = b'A';
            }
            v.resize(n, b'=');
            check(&mine, &v, c);
            for i in 0..n {
                let old = v[i];
                for b in [b'=', b'.', b'-', b'+'] {
                    v[i] = b;
                    check(&mine, &v, c);
                }
                v[i] = old;
            }
        }
    });
    let vast: Vec<usize> = [(4096usize, 9), (65536, 4), (131072, 1)].iter().flat_map(|&(n, d)| n - d..=n + d).collect();
    run.cases("lengths around 2^12, 2^16 and 2^17", &vast, |&n, c| {
        for pads in [0usize, 1, 2, 3, 4, 6] {
            let mut v = vec![b'Q'; n - pads];
            *v.last_mut().unwrap() = b'A';
            v.resize(n, b'=');
            check(&mine, &v, c);
            for (i, b) in [(0, b'.'), (n - 10, b'.'), (n / 2, b'='), (n - 4000, b' '), (n - 8, b'\n')] {
                let old = v[i];
                v[i] = b;
                check(&mine, &v, c);
                v[i] = old;
            }
        }
    });
    run.scalars("base32 texts", &["MZXW6===", "MZXW6YQ", ""], run.pick(0x3100, 0x110000), |s, c| check(&b32, s.as_bytes(), c));
    run.scalars("base64 texts", &["Zg==", "Zm8", "ab+/", "ab-_"], run.pick(0x3100, 0x110000), |s, c| check(&b64, s.as_bytes(), c));
    // encodings of byte strings
    let mut data: Vec<Vec<u8>> = vec![];
    for n in 0..=2usize {
        for x in 0..1u32 << (8 * n) {
            data.push(x.to_be_bytes()[4 - n..].to_vec());
        }
    }
    for n in 3..=run.pick(12usize, 40) {
        for i in 0..8 * n {
            for fill in [0u8, 0xff, 0xa5] {
                let mut v = vec![fill; n];
                v[i / 8] ^= 1 << (i % 8);
                data.push(v);
            }
        }
    }
    if run.thorough {
        for x in 0..1u32 << 22 {
            data.push((x << 2 | x >> 20).to_be_bytes()[1..].to_vec());
        }
    }
    run.cases("encodings of byte strings", &data, |d, c| {
        for a in [Alpha::B32, Alpha::B64, Alpha::B64Url] {
            for padded in [false, true] {
                let e = a.encode(d, padded);
                check(&mine, &e, c);
                for cfg in mine.iter().filter(|x| x.alpha == a && !d.is_empty()) {
                    let permitted = match cfg.pad {
                        Pad::Must => padded || e.len() % a.group() == 0,
                        Pad::Disallow => !padded || !e.contains(&b'='),
                        Pad::Allow => true,
                    };
                    let want = if decoded { d.clone() } else { e.clone() };
                    let got = (cfg.bytes[0].1)(&e);
                    c.exec(1);
                    if permitted != got.is_ok() || (permitted && got != Ok(want)) {
                        c.fail(cfg.name, &String::from_utf8_lossy(&e), format!("encoding of {d:?}: {got:?}"));
                    }
                }
            }
        }
    });
    for a in ["B32", "B64", "B64Url"] {
        for l in ["accept padded", "accept unpadded", "reject padding setting", "reject malformed"] {
            run.require(&format!("{a} {} {l}", if decoded { "decoded" } else { "text" }), 100);
        }
    }
    if decoded {
        run.require("reject non-canonical", 100);
    }
}

fn main() {
    let id = std::env::args().nth(1).expect("property id");
    Run::main(&id, |run| match id.as_str() {
        "C08" => explore(run, false),
        "C09" => explore(run, true),
        _ => panic!("unknown property"),
    })
}
