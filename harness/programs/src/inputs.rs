//! The words given to every derive site of a family.
use crate::{ops::Fam, spaces};
use std::collections::BTreeSet;

/// Words of at most `depth` tokens, and every edit of an accepted word by one token.
pub fn inputs(f: Fam, depth: usize) -> Vec<String> {
    let w = spaces::words(f);
    let mut o: BTreeSet<String> = w.roots.iter().map(|s| s.to_string()).collect();
    let mut last: Vec<String> = o.iter().cloned().collect();
    for _ in 0..depth {
        last = last.iter().flat_map(|s| w.tokens.iter().map(move |t| format!("{s}{t}"))).collect();
        o.extend(last.iter().cloned());
    }
    for g in w.good {
        o.insert(g.to_string());
        let at: Vec<usize> = g.char_indices().map(|(i, _)| i).chain([g.len()]).collect();
        for (k, &i) in at.iter().enumerate() {
            if let Some(&j) = at.get(k + 1) {
                o.insert(format!("{}{}", &g[..i], &g[j..]));
            }
            for t in w.tokens {
                o.insert(format!("{}{t}{}", &g[..i], &g[i..]));
            }
        }
    }
    o.into_iter().collect()
}
