use super::gen::*;
use super::util::*;
use super::*;
use crate::{IdiomMiner, ModelVocabularyMerger, ModelVocabularyPruner, VocabularyFilter, VocabularyGenerator};
use ::regex::Regex;
use fancy_regex::Regex as FancyRegex;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap, HashSet};
use tokengeex::{Model, ScoredToken};

// ---------------------------------------------------------------------------------------------
#[derive(Clone, Serialize, Deserialize)]
pub struct FilterCase {
    pub vocab: Vocab,
    pub size: usize,
    pub min: Option<F>,
    pub force: bool,
}
impl FilterCase {
    pub fn shrinks(&self) -> Vec<FilterCase> {
        self.vocab.shrinks().into_iter().map(|v| FilterCase { vocab: v, ..self.clone() }).collect()
    }
}
pub fn gen_filter(r: &mut Rng, i: u64) -> FilterCase {
    let alpha = *r.pick(ALPHABETS);
    let kind = *r.pick(&[0usize, 0, 1, 2, 4]);
    let mut vocab = vocab(r, alpha, kind, 0.2, true, true);
    for t in vocab.toks.iter_mut() {
        t.k = r.chance(0.3);
        if r.chance(0.03) {
            t.s = F(f64::NEG_INFINITY);
        }
    }
    if i == 0 {
        vocab.filler = 400;
    }
    let n = vocab.build().len();
    let size = match r.below(6) {
        0 => 0,
        1 => n,
        2 => n + 3,
        3 => n.saturating_sub(1),
        _ => r.range(0, n),
    };
    let min = match r.below(8) {
        0 => None,
        1 => Some(F(f64::INFINITY)),
        2 => Some(F(f64::NEG_INFINITY)),
        3 | 4 if !vocab.toks.is_empty() => Some(r.pick(&vocab.toks).s),
        _ => Some(F(score(r, kind))),
    };
    FilterCase { vocab, size, min, force: r.chance(0.4) }
}
fn key(t: &ScoredToken) -> (Vec<u8>, u64, bool) {
    (t.value.clone(), t.score.to_bits(), t.keep)
}
fn bag<'a>(v: impl IntoIterator<Item = &'a ScoredToken>) -> BTreeMap<(Vec<u8>, u64, bool), usize> {
    let mut m = BTreeMap::new();
    for t in v {
        *m.entry(key(t)).or_insert(0) += 1;
    }
    m
}
pub fn check_filter(v: &[ScoredToken], w: &[ScoredToken], size: usize, min: Option<f64>, force: bool) -> Result<bool, String> {
    let n = v.len();
    let removable = |t: &ScoredToken| min.map_or(false, |m| t.score < m) && (force || !t.keep);
    let k = if n <= size { 0 } else { (n - size).min(v.iter().filter(|t| removable(t)).count()) };
    if w.len() != n - k {
        return Err(format!("{} tokens left of {n}, expected {}", w.len(), n - k));
    }
    if n <= size {
        if bag(v) != bag(w) {
            return Err("vocabulary within the size limit was changed".into());
        }
        return Ok(false);
    }
    let (mut a, b) = (bag(v), bag(w));
    for (x, c) in &b {
        let e = a.get_mut(x);
        match e {
            Some(e) if *e >= *c => *e -= c,
            _ => return Err(format!("survivor {x:?} was not in the vocabulary (so often)")),
        }
    }
    let mut removed: Vec<f64> = vec![];
    for ((t, s, kp), c) in &a {
        if *c == 0 {
            continue;
        }
        let t = ScoredToken::new(t.clone(), f64::from_bits(*s), *kp);
        if !removable(&t) {
            return Err(format!("{t:?} was removed although it is not removable"));
        }
        removed.extend(std::iter::repeat(t.score).take(*c));
    }
    let worst = removed.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
    for t in w {
        if removable(t) && t.score < worst {
            return Err(format!("{t:?} survived although a token scoring {worst:?} was removed"));
        }
    }
    for p in w.windows(2) {
        if p[0].score < p[1].score {
            return Err(format!("survivors out of order: {:?} before {:?}", p[0], p[1]));
        }
    }
    Ok(k > 0)
}
pub struct C11;
impl Prop for C11 {
    type Case = FilterCase;
    const RULE: &'static str = "random vocabularies with ties, keep flags and duplicates; sizes, thresholds equal to a score, infinite thresholds, force; compared with the specified multiset; non-trivial: something was removed";
    fn gen(r: &mut Rng, i: u64) -> FilterCase {
        gen_filter(r, i)
    }
    fn run(c: &FilterCase) -> Out {
        let v = c.vocab.build();
        let mut m = Model::from(v.clone());
        VocabularyFilter::new(c.size, c.min.map(|f| f.0), c.force).filter(&mut m);
        match check_filter(&v, m.vocab(), c.size, c.min.map(|f| f.0), c.force) {
            Ok(nt) => {
                // the model is rebuilt around the survivors
                for (i, t) in m.vocab().iter().enumerate() {
                    let last = m.vocab().iter().rposition(|x| x.value == t.value).unwrap();
                    if m.token_to_id(&t.value) != Some(last as u32) || m.id_to_token(i as u32).as_ref() != Some(t) {
                        return Broken(format!("lookups of {t:?} do not agree with the vocabulary"));
                    }
                }
                for t in &v {
                    if !m.vocab().iter().any(|x| x.value == t.value) && m.token_to_id(&t.value).is_some() {
                        return Broken(format!("removed token {t:?} can still be looked up"));
                    }
                }
                Held(nt)
            }
            Err(e) => Broken(e),
        }
    }
    fn shrink(c: &FilterCase) -> Vec<FilterCase> {
        c.shrinks()
    }
}

// ---------------------------------------------------------------------------------------------
#[derive(Clone, Serialize, Deserialize)]
pub struct PruneCase {
    pub vocab: Vocab,
    pub samples: Vec<String>,
    pub size: usize,
    pub shrink: F,
    pub sub: usize,
    pub dropout: F,
}
fn numeric_panic(p: &str) -> bool {
    p.contains("loss is f64::NaN") || p.contains("normalization constant") || p.contains("contains invalid frequency")
}
pub fn gen_prune(r: &mut Rng, i: u64) -> PruneCase {
    let alpha = *r.pick(&ALPHABETS[..6]);
    let mut vocab = vocab(r, alpha, 6, 1.0, false, false);
    if r.chance(0.5) || i < 4 {
        // small: cover only the alphabet, some of it not protected
        vocab.bytes = None;
        for a in alpha {
            for b in a.bytes() {
                if !vocab.toks.iter().any(|t| t.v.0 == [b]) {
                    vocab.toks.push(Tok { v: B(vec![b]), s: F(-r.unit() * 5.0 - 1.0), k: r.chance(0.8) });
                }
            }
        }
        vocab.toks.retain(|t| t.v.0.iter().all(|b| alpha.iter().any(|a| a.bytes().any(|x| x == *b))));
    }
    if r.chance(0.03) {
        // many rounds, each of which can remove just one token
        let rounds = r.hint(0.6, 150).map_or(0, |n| n + 5).max(r.range(20, 110));
        let l = ["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l"];
        let mut toks: Vec<Tok> = l.iter().chain([&" "]).map(|c| Tok { v: B(c.as_bytes().to_vec()), s: F(-9.0), k: true }).collect();
        let mut s = String::new();
        for i in 0..rounds {
            let w = format!("{}{}{}", l[i % 12], l[i / 12 % 12], if i >= 144 { "a" } else { "" });
            for _ in 0..1 + r.below(3) {
                s += &w;
                s += " ";
            }
            toks.push(Tok { v: B(w.into_bytes()), s: F(-5.0 - r.unit()), k: false });
        }
        return PruneCase { vocab: Vocab { bytes: None, filler: 0, toks }, samples: vec![s], size: 13 + r.below(3), shrink: F(*r.pick(&[0.999, 0.9999])), sub: 0, dropout: F(0.0) };
    }
    let extra = r.range(0, 20);
    for t in toks(r, alpha, extra, 5, 6, false, false) {
        if !vocab.toks.iter().any(|x| x.v == t.v) && (vocab.bytes.is_none() || t.v.0.len() > 1) && t.v.0.iter().all(|b| alpha.iter().any(|a| a.bytes().any(|x| x == *b))) {
            vocab.toks.push(t);
        }
    }
    if !vocab.toks.is_empty() && r.chance(0.15) {
        // some tokens twice, with other keep flags and scores nearby
        for _ in 0..r.range(1, 3) {
            let t = vocab.toks[r.below(vocab.toks.len())].clone();
            let s = if r.chance(0.5) { t.s.0 } else { t.s.0 + r.unit() - 0.5 };
            let at = if r.chance(0.5) { vocab.toks.len() } else { r.below(vocab.toks.len()) };
            let k = r.chance(0.5);
            vocab.toks.insert(at, Tok { s: F(s), k, ..t });
        }
    }
    let ns = r.hint(0.05, 300).unwrap_or_else(|| r.range(1, 12)).max(1);
    let samples = (0..ns)
        .map(|_| loop {
            let t = text(r, alpha, 25);
            if !t.is_empty() {
                return t;
            }
        })
        .collect::<Vec<_>>();
    let n = vocab.build().len();
    let keeps = vocab.build().iter().filter(|t| t.keep).count();
    let size = match r.below(5) {
        0 => r.range(0, n),
        1 => keeps.saturating_sub(1 + r.below(3)),
        2 => n,
        _ => r.range(keeps.min(n), n),
    };
    if r.chance(0.2) && !vocab.toks.is_empty() {
        // one sample, nothing dropped at random: every step is deterministic
        let t: String = (0..r.range(2, 40)).map(|_| if r.chance(0.5) { String::from_utf8_lossy(&vocab.toks[r.below(vocab.toks.len())].v.0).into_owned() } else { r.pick(alpha).to_string() }).filter(|s| !s.contains('\u{fffd}')).collect();
        if !t.is_empty() {
            return PruneCase { vocab, samples: vec![t], size: size.min(keeps + r.below(3)), shrink: F(1.0), sub: 1 + r.below(2), dropout: F(0.0) };
        }
    }
    PruneCase { vocab, samples, size, shrink: F(*r.pick(&[0.8, 0.8, 0.5, 0.9, 0.99, 1.0, 0.1])), sub: *r.pick(&[1usize, 1, 2, 0]), dropout: F(*r.pick(&[0.0, 0.0, 0.01, 0.3])) }
}
pub struct C12;
impl Prop for C12 {
    type Case = PruneCase;
    const RULE: &'static str = "random covering vocabularies (some bytes unprotected), samples, targets below and above the number of protected tokens, shrink factors up to 1, EM iterations 0-2; non-trivial: pruning completed and removed a token";
    fn threads() -> usize {
        4
    }
    fn hang_secs() -> u64 {
        15
    }
    fn gen(r: &mut Rng, i: u64) -> PruneCase {
        gen_prune(r, i)
    }
    fn run(c: &PruneCase) -> Out {
        let v = c.vocab.build();
        let mut m = Model::from(v.clone());
        let ss: Vec<&str> = c.samples.iter().map(|s| s.as_str()).collect();
        let p = ModelVocabularyPruner::new(c.size, c.shrink.0, c.sub, c.dropout.0);
        match guarded(|| p.prune(&mut m, &ss)) {
            Ok(Ok(())) => {}
            Ok(Err(_)) => return Held(false), // the vocabulary stopped covering the samples
            Err(e) if numeric_panic(&e) => return Held(false),
            Err(e) => return Broken(format!("panic: {e}")),
        }
        match check_prune(&v, m.vocab(), c.size) {
            Ok(nt) => {
                if c.shrink.0 == 1.0 && c.dropout.0 == 0.0 && c.samples.len() == 1 {
                    // deterministic, and the pruning step does not depend on the target: the same rounds one by one
                    let mut w = Model::from(v.clone());
                    while w.vocab_size() > c.size {
                        let n = w.vocab_size();
                        let p = ModelVocabularyPruner::new(n - 1, 1.0, c.sub, 0.0);
                        if !matches!(guarded(|| p.prune(&mut w, &ss)), Ok(Ok(()))) {
                            return Held(false);
                        }
                        if w.vocab_size() >= n {
                            break;
                        }
                    }
                    if w.vocab_size() != m.vocab_size() {
                        return Broken(format!("stopped at {} tokens (target {}), round by round {} remain", m.vocab_size(), c.size, w.vocab_size()));
                    }
                }
                if c.shrink.0 < 1.0 && m.vocab_size() > c.size.max(1) {
                    // only a last round that could not remove anything may leave it above the target:
                    // another run must not get any further
                    let k = m.vocab().to_vec();
                    let forced = k.iter().filter(|t| t.keep || t.value.len() == 1).count();
                    let mut m2 = Model::from(k.clone());
                    let q = ModelVocabularyPruner::new(c.size, 0.1, 0, 0.0);
                    if k.len() > forced && c.sub == 0 && guarded(|| q.prune(&mut m2, &ss)).is_ok() && m2.vocab_size() < k.len() && c.dropout.0 == 0.0 {
                        return Broken(format!("stopped at {} tokens (target {}), a further round reaches {}", k.len(), c.size, m2.vocab_size()));
                    }
                }
                Held(nt)
            }
            Err(e) => Broken(e),
        }
    }
    fn shrink(c: &PruneCase) -> Vec<PruneCase> {
        let mut out: Vec<PruneCase> = shrink_vec(&c.samples).into_iter().filter(|s| !s.is_empty()).map(|s| PruneCase { samples: s, ..c.clone() }).collect();
        out.extend(c.vocab.shrinks().into_iter().map(|v| PruneCase { vocab: v, ..c.clone() }));
        out
    }
}
pub fn check_prune(v: &[ScoredToken], w: &[ScoredToken], size: usize) -> Result<bool, String> {
    let b = |v: &[ScoredToken]| {
        let mut m: BTreeMap<(Vec<u8>, bool), usize> = BTreeMap::new();
        for t in v {
            *m.entry((t.value.clone(), t.keep)).or_insert(0) += 1;
        }
        m
    };
    let (a, z) = (b(v), b(w));
    for (k, n) in &z {
        if a.get(k).copied().unwrap_or(0) < *n {
            return Err(format!("{k:?} occurs {n} times after pruning, {} times before", a.get(k).copied().unwrap_or(0)));
        }
    }
    for (k, n) in &a {
        if k.1 && z.get(k).copied().unwrap_or(0) != *n {
            return Err(format!("protected token {k:?} is gone"));
        }
    }
    if let Some(t) = w.iter().find(|t| !t.score.is_finite()) {
        return Err(format!("{t:?} has a score that is not finite"));
    }
    if v.len() <= size && bag(v) != bag(w) {
        return Err("a vocabulary within the target size was changed".into());
    }
    if w.len() > size && w.len() == v.len() && v.len() > size {
        // nothing removed at all: fine only if nothing could be
        return Ok(false);
    }
    Ok(w.len() < v.len())
}

// ---------------------------------------------------------------------------------------------
#[derive(Clone, Serialize, Deserialize)]
pub struct MergeCase {
    pub vocab: Vocab,
    pub samples: Vec<String>,
    pub allow: String,
    pub merges: usize,
    pub step: usize,
    pub scale: F,
    pub maxlen: usize,
}
pub const ALLOWS: &[&str] = &["^.*$", "^(?:[a-c]+)$", "^(?:[ab]+)$|^(?:.)$", "^ ?[a-z]+$", "a", "^(?:你好)$", "x^", "^(?:[^ ]*)$", "^aa$"];
pub fn gen_merge(r: &mut Rng, i: u64) -> MergeCase {
    let alpha = *r.pick(&ALPHABETS[..6]);
    let vocab = vocab(r, alpha, 6, 1.0, false, false);
    let ns = r.hint(0.05, 300).unwrap_or_else(|| r.range(0, 12));
    let samples = (0..ns).map(|_| text(r, alpha, 20)).collect();
    let merges = r.hint(0.1, 60).unwrap_or_else(|| *r.pick(&[0usize, 1, 2, 3, 5, 10, 30]));
    let step = r.hint(0.1, 200).unwrap_or_else(|| *r.pick(&[1usize, 1, 2, 3, 5, 50, 7]));
    MergeCase { vocab, samples, allow: if i == 0 { "^.*$" } else { r.pick(ALLOWS) }.to_string(), merges, step, scale: F(*r.pick(&[0.9, 1.0, 0.5, 0.1, 1.1])), maxlen: *r.pick(&[24usize, 2, 3, 4, 6, 0]) }
}
pub fn check_merge(c: &MergeCase, v: &[ScoredToken], w: &[ScoredToken]) -> Result<bool, String> {
    if w.len() < v.len() || &w[..v.len()] != v {
        return Err("existing tokens changed".into());
    }
    if w.len() > v.len() + c.merges {
        return Err(format!("{} tokens appended, at most {} requested", w.len() - v.len(), c.merges));
    }
    let allow = Regex::new(&c.allow).unwrap();
    let mut cur = v.len();
    loop {
        // one round
        let left = c.merges - (cur - v.len());
        if left == 0 {
            break;
        }
        let base = &w[..cur];
        let m = Model::from(base.to_vec());
        let mut f: HashMap<(u32, u32), usize> = HashMap::new();
        for s in &c.samples {
            let ids = m.encode(s, 0.0).map_err(|e| format!("sample cannot be encoded: {e}"))?;
            for p in ids.windows(2) {
                *f.entry((p[0], p[1])).or_insert(0) += 1;
            }
        }
        let mut cand: Vec<(usize, ScoredToken)> = vec![];
        for ((a, b), n) in f {
            let (a, b) = (&base[a as usize], &base[b as usize]);
            let val = [a.value.clone(), b.value.clone()].concat();
            if val.len() <= c.maxlen && allow.is_match(&String::from_utf8_lossy(&val)) {
                cand.push((n, ScoredToken::new(val, (a.score + b.score) * c.scale.0, false)));
            }
        }
        cand.sort_by(|a, b| b.0.cmp(&a.0));
        let quota = c.step.min(left).min(cand.len());
        if w.len() < cur + quota {
            return Err(format!("stopped after {} appended tokens although {} more merges were possible in this round", w.len() - v.len(), cur + quota - w.len()));
        }
        let mut rest = cand.clone();
        for k in 0..quota {
            let t = &w[cur + k];
            match rest.iter().position(|x| x.0 == cand[k].0 && x.1 == *t) {
                Some(p) => {
                    rest.remove(p);
                }
                None => return Err(format!("appended token {} is {t:?} (score {:?}), not an allowed merge of frequency {}", cur + k, t.score, cand[k].0)),
            }
        }
        cur += quota;
        if quota == 0 {
            break;
        }
    }
    if cur != w.len() {
        return Err(format!("{} tokens appended beyond the possible merges", w.len() - cur));
    }
    Ok(cur > v.len() + 1)
}
pub struct C13;
impl Prop for C13 {
    type Case = MergeCase;
    const RULE: &'static str = "random covering vocabularies, samples, patterns (incl. ones matching nothing), counts, steps, limits; every round replayed by an independent pair count, ties free; non-trivial: at least two merges";
    fn threads() -> usize {
        4
    }
    fn hang_secs() -> u64 {
        15
    }
    fn gen(r: &mut Rng, i: u64) -> MergeCase {
        gen_merge(r, i)
    }
    fn run(c: &MergeCase) -> Out {
        let v = c.vocab.build();
        let mut m = Model::from(v.clone());
        let ss: Vec<&str> = c.samples.iter().map(|s| s.as_str()).collect();
        ModelVocabularyMerger::new(Regex::new(&c.allow).unwrap(), c.merges, c.step, c.scale.0, c.maxlen).merge(&mut m, &ss);
        match check_merge(c, &v, m.vocab()) {
            Ok(nt) => Held(nt),
            Err(e) => Broken(e),
        }
    }
    fn shrink(c: &MergeCase) -> Vec<MergeCase> {
        let mut out: Vec<MergeCase> = shrink_vec(&c.samples).into_iter().map(|s| MergeCase { samples: s, ..c.clone() }).collect();
        for (i, s) in c.samples.iter().enumerate() {
            for t in shrink_str(s) {
                let mut d = c.clone();
                d.samples[i] = t;
                out.push(d);
            }
        }
        out
    }
}

// ---------------------------------------------------------------------------------------------
#[derive(Clone, Serialize, Deserialize)]
pub struct GenCase {
    pub feeds: Vec<Vec<String>>,
    pub size: usize,
    pub allow: Option<String>,
    pub split: Option<String>,
    pub added: Vec<String>,
    pub suggested: Vec<String>,
    pub maxlen: usize,
    pub prob: F,
}
const GALLOW: &[&str] = &["^ ?[a-z]+$", "^.*$", "^(?:[ab]+)$|^(?:.)$", "b", "^(?:é|你好|a+)$", "x^"];
const GSPLIT: &[&str] = &["[a-z]+", " ?[a-z]+|[^a-z]+", "a+(?!b)", ".", "[^ ]+"];
pub fn gen_gen(r: &mut Rng, _i: u64) -> GenCase {
    if r.chance(0.02) {
        // frequency times length almost the same for words of different lengths
        let (a, b) = *r.pick(&[(2usize, 3usize), (2, 5), (3, 4), (3, 2), (4, 3), (5, 2)]);
        let f = r.range(100, 1500);
        let g = (f * b / a + r.below(3)).saturating_sub(1).max(1);
        let (w, x) = ("abcde"[..a].to_string(), "vwxyz"[..b].to_string());
        let n = f.max(g);
        let feed = (0..n).map(|i| match (i < g, i < f) { (true, true) => format!("{w} {x}"), (true, false) => w.clone(), _ => x.clone() }).collect();
        return GenCase { feeds: vec![feed], size: 300, allow: Some(format!("^(?:{w}|{x})$")), split: None, added: vec![], suggested: vec![], maxlen: 6, prob: F(1.0) };
    }
    let alpha = *r.pick(&ALPHABETS[..6]);
    let nf = r.range(0, 3);
    let feeds = (0..nf)
        .map(|_| {
            let n = if r.chance(0.1) { r.range(20, 100) } else { r.range(0, 8) };
            let n = r.hint(0.1, 300).unwrap_or(n);
            (0..n).map(|_| text(r, alpha, 10)).collect()
        })
        .collect();
    let list = |r: &mut Rng| {
        let n = *r.pick(&[0usize, 0, 1, 2, 4]);
        (0..n).map(|_| text(r, alpha, 5)).filter(|s| !s.is_empty()).collect::<Vec<_>>()
    };
    let added = list(r);
    let mut suggested = list(r);
    if r.chance(0.2) {
        suggested.extend(added.iter().cloned());
    }
    GenCase {
        feeds,
        size: r.hint(0.1, 5000).unwrap_or_else(|| *r.pick(&[0usize, 100, 255, 256, 257, 258, 260, 270, 300, 1000])),
        allow: if r.chance(0.6) { Some(r.pick(GALLOW).to_string()) } else { None },
        split: if r.chance(0.4) { Some(r.pick(GSPLIT).to_string()) } else { None },
        added,
        suggested,
        maxlen: r.hint(0.1, 100).unwrap_or_else(|| *r.pick(&[0usize, 1, 2, 3, 4, 6, 24])),
        prob: F(*r.pick(&[1.0, 1.0, 1.0, 1.0, 0.5, 0.0])),
    }
}
pub fn check_gen(c: &GenCase, v: &[ScoredToken]) -> Result<bool, String> {
    // frequency of every candidate: the number of samples it was found in
    let allow = c.allow.as_ref().map(|a| Regex::new(a).unwrap());
    let split = c.split.as_ref().map(|a| FancyRegex::new(a).unwrap());
    let mut freq: HashMap<String, usize> = HashMap::new();
    for t in c.added.iter().chain(&c.suggested) {
        *freq.entry(t.clone()).or_insert(0) += 1;
    }
    let listed: HashSet<&String> = c.added.iter().chain(&c.suggested).collect();
    for s in c.feeds.iter().flatten() {
        let mut found: HashSet<String> = HashSet::new();
        let parts: Vec<String> = match &split {
            Some(x) => x.find_iter(s).map(|m| m.unwrap().as_str().to_string()).collect(),
            None => vec![s.clone()],
        };
        for p in &parts {
            for i in 0..=p.len() {
                for j in i + 1..=p.len() {
                    if p.is_char_boundary(i) && p.is_char_boundary(j) && j - i <= c.maxlen && allow.as_ref().map_or(true, |a| a.is_match(&p[i..j])) {
                        found.insert(p[i..j].to_string());
                    }
                }
            }
        }
        for t in &listed {
            if s.contains(t.as_str()) {
                found.insert(t.to_string());
            }
        }
        for f in found {
            *freq.entry(f).or_insert(0) += 1;
        }
    }
    let exact = c.prob.0 >= 1.0;
    // no duplicates, all bytes, bounded
    let mut pos: HashMap<Vec<u8>, usize> = HashMap::new();
    for (i, t) in v.iter().enumerate() {
        if pos.insert(t.value.clone(), i).is_some() {
            return Err(format!("{t:?} occurs twice"));
        }
        if t.value.is_empty() {
            return Err("empty token".into());
        }
    }
    for b in 0..=255u8 {
        match pos.get(&vec![b]) {
            Some(&i) if v[i].keep => {}
            Some(_) => return Err(format!("byte {b} is not marked keep")),
            None => return Err(format!("byte {b} is missing")),
        }
    }
    if v.len() > c.size.max(256) {
        return Err(format!("{} tokens, limit {}", v.len(), c.size.max(256)));
    }
    // precedence: added, then suggested, then the most frequent
    let room = c.size.max(256) - 256;
    let mut want: Vec<(String, bool)> = vec![];
    for (t, k) in c.added.iter().map(|t| (t, true)).chain(c.suggested.iter().map(|t| (t, false))) {
        if t.len() > 1 && !want.iter().any(|w| w.0 == *t) && want.len() < room {
            want.push((t.clone(), k));
        }
    }
    for (t, k) in &want {
        match pos.get(t.as_bytes()) {
            Some(&i) if v[i].keep == *k => {}
            Some(_) => return Err(format!("listed token {t:?} has the wrong keep flag")),
            None => return Err(format!("listed token {t:?} is missing")),
        }
    }
    let wanted: HashSet<&[u8]> = want.iter().map(|w| w.0.as_bytes()).collect();
    let rest: Vec<&ScoredToken> = v.iter().filter(|t| t.value.len() > 1 && !wanted.contains(&t.value[..])).collect();
    for t in &rest {
        let s = String::from_utf8(t.value.clone()).map_err(|_| format!("{t:?} is not text"))?;
        if t.keep {
            return Err(format!("{t:?} is marked keep"));
        }
        if !freq.contains_key(&s) {
            return Err(format!("{t:?} is not an allowed substring of any sample part"));
        }
    }
    let avail = room - want.len();
    if exact {
        let mut others: Vec<usize> = freq.iter().filter(|(t, _)| t.len() > 1 && !wanted.contains(t.as_bytes())).map(|(_, n)| *n).collect();
        others.sort_by(|a, b| b.cmp(a));
        others.truncate(avail);
        let mut got: Vec<usize> = rest.iter().map(|t| freq[std::str::from_utf8(&t.value).unwrap()]).collect();
        got.sort_by(|a, b| b.cmp(a));
        if got != others {
            return Err(format!("frequencies of the substrings taken {got:?}, the most frequent ones have {others:?}"));
        }
    }
    // scores
    for p in v.windows(2) {
        if !(p[0].score >= p[1].score) {
            return Err(format!("out of order: {:?} before {:?}", p[0], p[1]));
        }
    }
    let sum: f64 = v.iter().map(|t| t.score.exp()).sum();
    if !((sum - 1.0).abs() < 1e-9) {
        return Err(format!("probabilities sum to {sum:?}"));
    }
    if exact {
        let top = freq.values().copied().max().unwrap_or(1) as f64;
        let raw: Vec<f64> = v
            .iter()
            .map(|t| if t.value.len() == 1 { top } else { freq[std::str::from_utf8(&t.value).unwrap()] as f64 * t.value.len() as f64 })
            .collect();
        let total: f64 = raw.iter().sum();
        for (t, x) in v.iter().zip(&raw) {
            let w = (x / total).ln();
            if !((t.score - w).abs() < 1e-9) {
                return Err(format!("score of {t:?} is {:?}, expected {w:?}", t.score));
            }
        }
    }
    Ok(rest.len() >= 2)
}
pub struct C14;
impl Prop for C14 {
    type Case = GenCase;
    const RULE: &'static str = "random samples in several feeds, allow and split patterns, lists with overlaps, sizes around 256; compared with an independent enumeration of substrings and their sample counts; non-trivial: at least two substrings taken";
    fn threads() -> usize {
        4
    }
    fn gen(r: &mut Rng, i: u64) -> GenCase {
        gen_gen(r, i)
    }
    fn run(c: &GenCase) -> Out {
        let mut g = VocabularyGenerator::new(
            c.maxlen,
            c.prob.0,
            c.split.as_ref().map(|s| FancyRegex::new(s).unwrap()),
            c.allow.as_ref().map(|s| Regex::new(s).unwrap()),
            c.added.clone(),
            c.suggested.clone(),
        );
        for f in &c.feeds {
            g.feed(f);
        }
        match check_gen(c, &g.generate(c.size)) {
            Ok(nt) => Held(nt),
            Err(e) => Broken(e),
        }
    }
    fn shrink(c: &GenCase) -> Vec<GenCase> {
        let mut out: Vec<GenCase> = shrink_vec(&c.feeds).into_iter().map(|s| GenCase { feeds: s, ..c.clone() }).collect();
        for (i, s) in c.feeds.iter().enumerate() {
            for t in shrink_vec(s) {
                let mut d = c.clone();
                d.feeds[i] = t;
                out.push(d);
            }
        }
        out.extend(shrink_vec(&c.added).into_iter().map(|s| GenCase { added: s, ..c.clone() }));
        out.extend(shrink_vec(&c.suggested).into_iter().map(|s| GenCase { suggested: s, ..c.clone() }));
        out
    }
}

// ---------------------------------------------------------------------------------------------
#[derive(Clone, Serialize, Deserialize)]
pub struct MineCase {
    pub samples: Vec<String>,
    pub pattern: String,
    pub n: usize,
}
pub const MPAT: &[&str] = &["[a-z]+", "a", "ab|a", "(?:a|b)(?:b|c)?", "[^ ]+ ?", "é|a+", "你好|你", "a.", "aa", "a*", "b?|a", "\\b", ""];
pub fn gen_mine(r: &mut Rng, _i: u64) -> MineCase {
    if r.chance(0.04) {
        // many different words in a sample; some that are rare wherever they occur but occur everywhere
        let words = r.range(20, 700);
        let rare = r.range(1, 3);
        let mut samples: Vec<String> = (0..r.range(2, 12))
            .map(|_| {
                let each = r.range(1, 3);
                let from = r.range(0, words / 2);
                let mut s: Vec<String> = (from..words).flat_map(|w| vec![format!("w{w}"); each]).collect();
                for x in 0..rare {
                    if r.chance(0.8) {
                        let at = r.range(0, s.len());
                        s.insert(at.min(s.len()), format!("z{x}"));
                    }
                }
                s.join(" ")
            })
            .collect();
        for _ in 0..r.range(0, 12) {
            samples.push(format!("z{}", r.range(0, rare)));
        }
        return MineCase { samples, pattern: r"\w+".to_string(), n: *r.pick(&[1usize, 2, 3, 5, 100]) };
    }
    let alpha = *r.pick(&ALPHABETS[..6]);
    let n = if r.chance(0.2) { r.range(40, 200) } else { r.range(0, 12) };
    let n = r.hint(0.1, 1000).unwrap_or(n);
    MineCase { samples: (0..n).map(|_| text(r, alpha, 12)).collect(), pattern: r.pick(MPAT).to_string(), n: r.hint(0.1, 1000).unwrap_or_else(|| *r.pick(&[0usize, 1, 2, 3, 5, 100])) }
}
pub fn check_mine(c: &MineCase, got: &[(String, usize)]) -> Result<bool, String> {
    let re = Regex::new(&c.pattern).unwrap();
    let mut f: HashMap<String, usize> = HashMap::new();
    for s in &c.samples {
        let mut at = 0;
        if re.is_match("") || c.pattern.contains("\\b") {
            for m in re.find_iter(s) {
                *f.entry(m.as_str().to_string()).or_insert(0) += 1;
            }
            continue;
        }
        // leftmost, non-overlapping
        while let Some(m) = re.find_at(s, at) {
            *f.entry(m.as_str().to_string()).or_insert(0) += 1;
            at = m.end();
        }
    }
    if got.len() != c.n.min(f.len()) {
        return Err(format!("{} idioms, expected {}", got.len(), c.n.min(f.len())));
    }
    let mut seen = HashSet::new();
    for (t, n) in got {
        if !seen.insert(t.clone()) {
            return Err(format!("{t:?} is listed twice"));
        }
        if f.get(t) != Some(n) {
            return Err(format!("{t:?} counted {n} times, occurs {:?} times", f.get(t)));
        }
    }
    for p in got.windows(2) {
        if p[0].1 < p[1].1 {
            return Err(format!("out of order: {p:?}"));
        }
    }
    if let Some(low) = got.last() {
        if let Some((t, n)) = f.iter().find(|(t, n)| !seen.contains(*t) && **n > low.1) {
            return Err(format!("{t:?} ({n}) left out in favour of {low:?}"));
        }
    }
    Ok(got.len() >= 2 && c.samples.len() > 1)
}
pub struct C15;
impl Prop for C15 {
    type Case = MineCase;
    const RULE: &'static str = "random sample sets of up to 200 samples (several parallel chunks), patterns and n; compared with an independent sequential count; non-trivial: at least two idioms from two samples";
    fn threads() -> usize {
        4
    }
    fn gen(r: &mut Rng, i: u64) -> MineCase {
        gen_mine(r, i)
    }
    fn run(c: &MineCase) -> Out {
        let ss: Vec<&str> = c.samples.iter().map(|s| s.as_str()).collect();
        let got = IdiomMiner::new(c.n, Regex::new(&c.pattern).unwrap()).mine(&ss);
        match check_mine(c, &got) {
            Ok(nt) => Held(nt),
            Err(e) => Broken(e),
        }
    }
    fn shrink(c: &MineCase) -> Vec<MineCase> {
        let mut out: Vec<MineCase> = shrink_vec(&c.samples).into_iter().map(|s| MineCase { samples: s, ..c.clone() }).collect();
        for (i, s) in c.samples.iter().enumerate() {
            for t in shrink_str(s) {
                let mut d = c.clone();
                d.samples[i] = t;
                out.push(d);
            }
        }
        out
    }
}
