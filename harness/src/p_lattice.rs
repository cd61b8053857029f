use super::gen::*;
use super::util::*;
use super::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use tokengeex::{Lattice, Model, ScoredToken, TokenID, VecPool};

#[derive(Clone, Serialize, Deserialize)]
pub struct LatCase {
    vocab: Vocab,
    /// strings the lattice is used for one after another
    strings: Vec<B>,
    n: usize,
    pool: (usize, usize),
}
impl LatCase {
    fn shrinks(&self) -> Vec<LatCase> {
        let mut out: Vec<LatCase> = vec![];
        out.extend(shrink_vec(&self.strings).into_iter().map(|s| LatCase { strings: s, ..self.clone() }));
        for (i, s) in self.strings.iter().enumerate() {
            for t in shrink_vec(&s.0) {
                let mut c = self.clone();
                c.strings[i] = B(t);
                out.push(c);
            }
        }
        out.extend(self.vocab.shrinks().into_iter().map(|v| LatCase { vocab: v, ..self.clone() }));
        out
    }
}

fn gen_lat(r: &mut Rng, i: u64, cover: bool, max: usize, kinds: &[usize]) -> LatCase {
    let alpha = *r.pick(ALPHABETS);
    let kind = *r.pick(kinds);
    let mut vocab = if cover {
        let mut v = vocab(r, alpha, kind, 1.0, false, false);
        if r.chance(0.5) {
            // cover only the alphabet
            v.bytes = None;
            for a in alpha {
                for b in a.bytes() {
                    if !v.toks.iter().any(|t| t.v.0 == [b]) {
                        v.toks.push(Tok { v: B(vec![b]), s: F(score(r, kind)), k: false });
                    }
                }
            }
            v.toks.retain(|t| t.v.0.iter().all(|b| alpha.iter().any(|a| a.bytes().any(|x| x == *b))));
        }
        v
    } else {
        vocab(r, alpha, kind, 0.3, true, true)
    };
    if i == 0 && !cover {
        vocab.filler = 70_000;
    }
    let ns = r.range(1, 4);
    let strings = (0..ns)
        .map(|_| {
            let mut b = text(r, alpha, max).into_bytes();
            b.truncate(if max == 14 { 900 } else { max });
            if r.chance(0.2) && !b.is_empty() {
                b.remove(0);
            }
            B(b)
        })
        .collect::<Vec<B>>();
    if cover && vocab.bytes.is_none() {
        for b in strings.iter().flat_map(|s| s.0.clone()) {
            if !vocab.toks.iter().any(|t| t.v.0 == [b]) {
                vocab.toks.push(Tok { v: B(vec![b]), s: F(score(r, kind)), k: false });
            }
        }
    }
    LatCase { vocab, strings, n: r.hint(0.2, 5000).unwrap_or_else(|| *r.pick(&[0, 1, 2, 2, 3, 5, 10, 100])), pool: (r.below(6), r.below(4)) }
}

/// The lattice must hold exactly the occurrences.
fn check_nodes(l: &Lattice, v: &[ScoredToken], ids: &HashMap<Vec<u8>, u32>, s: &[u8]) -> Result<(), String> {
    let n = s.len();
    if l.sentence != s {
        return Err("sentence differs".into());
    }
    if l.begin_nodes.len() != n + 1 || l.end_nodes.len() != n + 1 {
        return Err(format!("tables of {} and {} positions for length {n}", l.begin_nodes.len(), l.end_nodes.len()));
    }
    let mut want: Vec<(usize, u32, usize, u64)> = vec![];
    let maxlen = ids.keys().map(|k| k.len()).max().unwrap_or(0);
    for p in 0..n {
        for q in p + 1..=n.min(p + maxlen) {
            if let Some(&id) = ids.get(&s[p..q]) {
                want.push((p, id, q - p, v[id as usize].score.to_bits()));
            }
        }
    }
    let (bos, eos) = (TokenID::MAX - 1, TokenID::MAX);
    want.push((0, bos, 0, 0f64.to_bits()));
    want.push((n, eos, 0, 0f64.to_bits()));
    want.sort();
    let mut got: Vec<(usize, u32, usize, u64)> = l.nodes.iter().map(|x| (x.pos, x.token_id, x.token_len, x.score.to_bits())).collect();
    got.sort();
    if got != want {
        return Err(format!("nodes {got:?}, expected {want:?}"));
    }
    let mut b: Vec<usize> = l.begin_nodes.iter().flatten().copied().collect();
    let mut e: Vec<usize> = l.end_nodes.iter().flatten().copied().collect();
    b.sort();
    e.sort();
    let wb: Vec<usize> = (0..l.nodes.len()).filter(|i| l.nodes[*i].token_id != bos).collect();
    let we: Vec<usize> = (0..l.nodes.len()).filter(|i| l.nodes[*i].token_id != eos).collect();
    if b != wb || e != we {
        return Err(format!("begin index lists {b:?}, end index lists {e:?} of {} nodes", l.nodes.len()));
    }
    for p in 0..=n {
        for &i in &l.begin_nodes[p] {
            if l.nodes[i].pos != p {
                return Err(format!("node {i} listed as beginning at {p} begins at {}", l.nodes[i].pos));
            }
        }
        for &i in &l.end_nodes[p] {
            if l.nodes[i].pos + l.nodes[i].token_len != p {
                return Err(format!("node {i} listed as ending at {p} ends at {}", l.nodes[i].pos + l.nodes[i].token_len));
            }
        }
    }
    Ok(())
}

fn path_ids(p: &[tokengeex::Node], s: &[u8], v: &[ScoredToken]) -> Result<Vec<u32>, String> {
    let mut pos = 0;
    let mut out = vec![];
    for (k, x) in p.iter().enumerate() {
        if x.token_id == TokenID::MAX && k + 1 == p.len() && x.pos == s.len() {
            break;
        }
        if x.pos != pos || x.token_len == 0 || pos + x.token_len > s.len() || v.get(x.token_id as usize).map_or(true, |t| t.value != s[pos..pos + x.token_len]) {
            return Err(format!("path {:?} is not a segmentation of {s:?}", p.iter().map(|x| (x.pos, x.token_id, x.token_len)).collect::<Vec<_>>()));
        }
        out.push(x.token_id);
        pos += x.token_len;
    }
    if pos != s.len() {
        return Err(format!("path {:?} stops at {pos} of {}", p.iter().map(|x| (x.pos, x.token_id, x.token_len)).collect::<Vec<_>>(), s.len()));
    }
    Ok(out)
}

pub struct C10;
impl Prop for C10 {
    type Case = LatCase;
    const RULE: &'static str = "random vocabularies and sequences of byte strings through one lattice and pool, with Viterbi, n-best and marginals run in between; nodes and indexes compared with all substring occurrences, Viterbi with an independent optimum; non-trivial: two strings and a multi-byte token occurrence";
    fn gen(r: &mut Rng, i: u64) -> LatCase {
        let cover = r.chance(0.4);
        let mut c = gen_lat(r, i, cover, 14, &[0, 1, 2, 5, 4, 7]);
        if i == 1 {
            c.vocab = Vocab { bytes: Some(F(-1.0)), filler: 0, toks: vec![Tok { v: B(vec![b'a'; 300]), s: F(-2.0), k: false }] };
            c.strings = vec![B(vec![b'a'; 400]), B(vec![b'b'; 3])];
        }
        c
    }
    fn run(c: &LatCase) -> Out {
        let v = c.vocab.build();
        let ids = last_ids(&v);
        let m = Model::from(v.clone());
        let mut l = Lattice::default();
        let mut pool = VecPool::with_capacity(c.pool.0, c.pool.1);
        let mut nt = false;
        for (k, s) in c.strings.iter().enumerate() {
            let s = &s.0;
            l.from(s, &mut pool);
            m.populate_nodes(&mut l, if k % 2 == 0 { 0.0 } else { -1.0 });
            if let Err(e) = check_nodes(&l, &v, &ids, s) {
                return Broken(format!("string {k} ({s:?}): {e}"));
            }
            nt |= l.nodes.len() > s.len() + 2 && c.strings.len() > 1;
            let best = best_prefix(&v, &ids, s);
            let reach = (0..s.len()).all(|p| l.begin_nodes[p].is_empty() || best[p].is_some());
            for round in 0..2 {
                let p = l.viterbi();
                if reach {
                    match best[s.len()] {
                        None => {
                            if !p.is_empty() {
                                return Broken(format!("Viterbi finds a path in an unsegmentable {s:?}"));
                            }
                        }
                        Some(b) => {
                            let g = match path_ids(&p, s, &v) {
                                Ok(g) => g,
                                Err(e) => return Broken(format!("Viterbi (run {round}): {e}")),
                            };
                            let sc = lsum(&v, &g);
                            if !(sc >= b) {
                                return Broken(format!("Viterbi score {sc:?} of {g:?} below optimum {b:?} for {s:?}"));
                            }
                        }
                    }
                }
                if let Err(e) = check_nodes(&l, &v, &ids, s) {
                    return Broken(format!("after Viterbi on string {k}: {e}"));
                }
            }
            // leave different traces behind for the next string
            if reach && best[s.len()].is_some() && c.n % 2 == 1 && s.len() < 10 && v.iter().all(|t| t.score.abs() < 1e6) {
                l.nbest(2);
                let mut e = vec![0.0; v.len()];
                l.populate_marginal(&mut e);
            }
        }
        // with full dropout only single bytes remain
        if let Some(s) = c.strings.last() {
            l.from(&s.0, &mut pool);
            m.populate_nodes(&mut l, 1.5);
            let mut o = ids.clone();
            o.retain(|k, _| k.len() == 1);
            if let Err(e) = check_nodes(&l, &v, &o, &s.0) {
                return Broken(format!("full dropout: {e}"));
            }
        }
        Held(nt)
    }
    fn shrink(c: &LatCase) -> Vec<LatCase> {
        c.shrinks()
    }
}

pub struct C18;
impl Prop for C18 {
    type Case = LatCase;
    const RULE: &'static str = "random covering vocabularies and strings up to 12 bytes; constant and expectations compared with the sum over all segmentations (relative tolerance 1e-9), longer strings with an independent matrix recursion; non-trivial: at least three segmentations";
    fn gen(r: &mut Rng, i: u64) -> LatCase {
        let max = if r.chance(0.2) { 60 } else { 11 };
        gen_lat(r, i, true, max, &[0, 1, 2, 5, 6, 7])
    }
    fn run(c: &LatCase) -> Out {
        let v = c.vocab.build();
        let ids = last_ids(&v);
        let m = Model::from(v.clone());
        let mut l = Lattice::default();
        let mut pool = VecPool::with_capacity(c.pool.0, c.pool.1);
        let mut nt = false;
        for s in &c.strings {
            let s = &s.0;
            l.from(s, &mut pool);
            m.populate_nodes(&mut l, 0.0);
            let mut got: Vec<f64> = (0..v.len()).map(|i| (i % 7) as f64).collect();
            let base = got.clone();
            let z = l.populate_marginal(&mut got);
            // forward / backward sums in linear space, scaled by the best score per position
            let best = best_prefix(&v, &ids, s);
            let Some(top) = best[s.len()] else { return Held(false) };
            let (zz, want) = if s.len() <= 11 {
                let Some(all) = all_segs(&ids, s, 3000) else { return Held(false) };
                nt |= all.len() >= 3;
                let mut sum = 0.0;
                let mut e: HashMap<u32, f64> = HashMap::new();
                for g in &all {
                    let w = (lsum(&v, g) - top).exp();
                    sum += w;
                    for &id in g {
                        *e.entry(id).or_insert(0.0) += w;
                    }
                }
                (sum.ln() + top, e.into_iter().map(|(k, x)| (k, x / sum)).collect::<HashMap<_, _>>())
            } else {
                let n = s.len();
                let maxlen = ids.keys().map(|k| k.len()).max().unwrap_or(0);
                let lse = |a: f64, b: f64| {
                    if a == f64::NEG_INFINITY {
                        b
                    } else if b == f64::NEG_INFINITY {
                        a
                    } else {
                        let m = a.max(b);
                        m + ((a - m).exp() + (b - m).exp()).ln()
                    }
                };
                let mut f = vec![f64::NEG_INFINITY; n + 1];
                let mut b = vec![f64::NEG_INFINITY; n + 1];
                f[0] = 0.0;
                b[n] = 0.0;
                for q in 1..=n {
                    for p in q.saturating_sub(maxlen)..q {
                        if let Some(&id) = ids.get(&s[p..q]) {
                            f[q] = lse(f[q], f[p] + v[id as usize].score);
                        }
                    }
                }
                for p in (0..n).rev() {
                    for q in p + 1..=n.min(p + maxlen) {
                        if let Some(&id) = ids.get(&s[p..q]) {
                            b[p] = lse(b[p], b[q] + v[id as usize].score);
                        }
                    }
                }
                let mut e: HashMap<u32, f64> = HashMap::new();
                for p in 0..n {
                    for q in p + 1..=n.min(p + maxlen) {
                        if let Some(&id) = ids.get(&s[p..q]) {
                            *e.entry(id).or_insert(0.0) += (f[p] + v[id as usize].score + b[q] - f[n]).exp();
                        }
                    }
                }
                nt = true;
                (f[n], e)
            };
            let tol = |x: f64| 1e-9 * (1.0 + x.abs());
            if !((z - zz).abs() <= tol(zz)) {
                return Broken(format!("normalisation {z:?}, expected {zz:?} for {s:?}"));
            }
            for i in 0..v.len() {
                let w = want.get(&(i as u32)).copied().unwrap_or(0.0);
                if !((got[i] - base[i] - w).abs() <= tol(w + 7.0)) {
                    return Broken(format!("expectation of token {i} ({:?}) increased by {:?}, expected {w:?} for {s:?}", v[i].value, got[i] - base[i]));
                }
                if !want.contains_key(&(i as u32)) && got[i] != base[i] {
                    return Broken(format!("expectation of absent token {i} changed for {s:?}"));
                }
            }
        }
        Held(nt)
    }
    fn shrink(c: &LatCase) -> Vec<LatCase> {
        c.shrinks()
    }
}

pub struct C21;
impl Prop for C21 {
    type Case = LatCase;
    const RULE: &'static str = "random covering vocabularies, strings up to 9 bytes and n up to 100; compared with all segmentations; non-trivial: n >= 2 and more segmentations than n";
    fn gen(r: &mut Rng, i: u64) -> LatCase {
        let mut c = gen_lat(r, i, true, 9, &[0, 1, 2, 5, 7]);
        if i % 400 == 7 || (!lits().ints.is_empty() && r.chance(0.01)) {
            // thousands of segmentations
            let big = r.chance(0.4);
            let l = if big { r.range(15, 17) } else { r.range(11, 13) };
            let toks = (1..=l).map(|n| Tok { v: B(vec![b'a'; n]), s: F(score(r, 1)), k: false }).collect();
            c.vocab = Vocab { bytes: None, filler: 0, toks };
            c.strings = vec![B(vec![b'a'; l])];
            c.n = if big { r.range(3000, 70000) } else { r.range(500, 5000) };
        }
        c
    }
    fn run(c: &LatCase) -> Out {
        let v = c.vocab.build();
        let ids = last_ids(&v);
        let m = Model::from(v.clone());
        let mut l = Lattice::default();
        let mut pool = VecPool::with_capacity(c.pool.0, c.pool.1);
        let mut nt = false;
        for s in &c.strings {
            let s = &s.0;
            if s.is_empty() || s.iter().any(|b| !ids.contains_key(&vec![*b])) {
                continue;
            }
            let Some(all) = all_segs(&ids, s, 70000) else { continue };
            l.from(s, &mut pool);
            m.populate_nodes(&mut l, 0.0);
            let got = l.nbest(c.n);
            let mut paths = vec![];
            for p in &got {
                match path_ids(p, s, &v) {
                    Ok(g) if g.len() == p.len() => paths.push(g),
                    Ok(_) => return Broken(format!("{}-best of {s:?}: a path carries the end marker", c.n)),
                    Err(e) => return Broken(e),
                }
            }
            if paths.len() != c.n.min(all.len()) {
                return Broken(format!("{}-best of {s:?} returns {} of {} segmentations", c.n, paths.len(), all.len()));
            }
            let mut d = paths.clone();
            d.sort();
            d.dedup();
            if d.len() != paths.len() {
                return Broken(format!("{}-best of {s:?} repeats a segmentation: {paths:?}", c.n));
            }
            let mut sc: Vec<f64> = all.iter().map(|g| lsum(&v, g)).collect();
            sc.sort_by(|a, b| b.partial_cmp(a).unwrap());
            for (k, g) in paths.iter().enumerate() {
                let x = lsum(&v, g);
                if !((x - sc[k]).abs() <= 1e-9 * (1.0 + x.abs())) {
                    return Broken(format!("{}-best of {s:?}: result {k} ({g:?}) scores {x:?}, the {k}-th best is {:?}", c.n, sc[k]));
                }
            }
            nt |= c.n >= 2 && all.len() > c.n;
        }
        Held(nt)
    }
    fn shrink(c: &LatCase) -> Vec<LatCase> {
        c.shrinks()
    }
}
