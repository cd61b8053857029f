use super::gen::*;
use super::util::*;
use super::*;
use serde::{Deserialize, Serialize};
use tokengeex::{Error, Model, ScoredToken, Trie};

#[derive(Clone, Serialize, Deserialize)]
pub struct EncCase {
    pub vocab: Vocab,
    /// the last `added` explicit tokens are added through add_tokens
    pub added: usize,
    pub text: String,
    pub repeat: usize,
    pub dropout: F,
}
impl EncCase {
    pub fn model(&self) -> (Vec<ScoredToken>, Model) {
        let v = self.vocab.build();
        let k = v.len() - self.added.min(v.len());
        let mut m = Model::from(v[..k].to_vec());
        m.add_tokens(v[k..].to_vec());
        (v, m)
    }
    pub fn input(&self) -> String {
        self.text.repeat(self.repeat)
    }
    fn shrinks(&self) -> Vec<EncCase> {
        let mut out = vec![];
        if self.repeat > 1 {
            for k in [1, self.repeat / 2, self.repeat - 1] {
                let mut c = self.clone();
                c.repeat = k;
                out.push(c);
            }
        }
        if self.added > 0 {
            let mut c = self.clone();
            c.added = 0;
            out.push(c);
        }
        for v in self.vocab.shrinks() {
            let mut c = self.clone();
            c.vocab = v;
            out.push(c);
        }
        for t in shrink_str(&self.text) {
            let mut c = self.clone();
            c.text = t;
            out.push(c);
        }
        out
    }
}

/// Fixed corner cases first, then random ones.
fn gen_enc(r: &mut Rng, i: u64, dropouts: &[f64], kinds: &[usize]) -> EncCase {
    let mut c = {
        let alpha = *r.pick(ALPHABETS);
        let kind = *r.pick(kinds);
        let vocab = vocab(r, alpha, kind, 0.3, true, true);
        let text = match r.below(20) {
            0 => String::new(),
            1..=14 => text(r, alpha, 12),
            15..=18 => text(r, alpha, 40),
            _ => text(r, alpha, 300),
        };
        EncCase { added: if r.chance(0.3) { r.below(4) } else { 0 }, vocab, text, repeat: 1, dropout: F(*r.pick(dropouts)) }
    };
    if !lits().ints.is_empty() && r.chance(0.03) {
        // long, made of tokens: some lie across a multiple of a hinted length
        let words: Vec<String> = c.vocab.toks.iter().filter_map(|t| String::from_utf8(t.v.0.clone()).ok()).filter(|s| !s.is_empty()).collect();
        if let (Some(n), false) = (r.hint(1.0, 70_000), words.is_empty()) {
            c.text = (0..r.range(1, 4)).map(|_| r.pick(&words).clone()).collect();
            c.repeat = n / c.text.len() + 1 + r.below(3);
        }
    }
    match i {
        // ids beyond 8 and 16 bits
        0 => c.vocab.filler = 70_000,
        1 => c.vocab.filler = 300,
        // tokens longer than 255, 65535
        2 | 3 | 4 => {
            let n = [256usize, 300, 70_000][(i - 2) as usize];
            let mut long = vec![b'a'; n];
            long[0] = b'b';
            c.vocab = Vocab {
                bytes: Some(F(-5.0)),
                filler: 0,
                toks: vec![
                    Tok { v: B(long.clone()), s: F(-7.0), k: false },
                    Tok { v: B(long[..n - 1].to_vec()), s: F(-9.0), k: false },
                ],
            };
            c.text = format!("b{}", "a".repeat(n + 2));
        }
        // long inputs
        5 => {
            c.vocab = Vocab { bytes: Some(F(-2.0)), filler: 0, toks: toks(r, &["a", "b"], 10, 5, 0, true, true) };
            c.text = "abaab".into();
            c.repeat = 30_000;
        }
        6 | 7 => {
            c.vocab = Vocab { bytes: None, filler: 0, toks: toks(r, &["a", "b"], 12, 5, 1, false, false) };
            c.text = text(r, &["a", "b"], 30);
            c.repeat = 100;
        }
        9 => {
            // deep recursion would not survive this
            c.vocab = Vocab { bytes: Some(F(-2.0)), filler: 0, toks: toks(r, &["a", "b"], 3, 3, 0, true, true) };
            c.text = "ab".into();
            c.repeat = 600_000;
        }
        8 => {
            c.vocab = Vocab { bytes: None, filler: 0, toks: vec![] };
        }
        _ => {}
    }
    c
}

pub fn check_lossless(v: &[ScoredToken], ids: &[u32], input: &[u8]) -> Result<(), String> {
    let mut cat = vec![];
    for &id in ids {
        let Some(t) = v.get(id as usize) else {
            return Err(format!("id {id} out of range (vocabulary of {})", v.len()));
        };
        if t.value.is_empty() {
            return Err(format!("id {id} is the empty token"));
        }
        cat.extend_from_slice(&t.value);
    }
    if cat != input {
        return Err(format!("ids {:?} do not spell the input {:?}", &ids[..ids.len().min(50)], &input[..input.len().min(100)]));
    }
    Ok(())
}

pub struct C01;
impl Prop for C01 {
    type Case = EncCase;
    const RULE: &'static str = "random vocabularies (duplicates, empty and non-UTF-8 tokens, ids above 65535, tokens above 65535 bytes), texts and dropouts; non-trivial: encoding succeeded with at least one multi-byte token";
    fn gen(r: &mut Rng, i: u64) -> EncCase {
        gen_enc(r, i, &[0.0, 0.0, 0.0, -1.0, 0.1, 0.5, 0.9, 1.0, 2.0, f64::NAN, f64::INFINITY], &[0, 1, 2, 3, 4, 5])
    }
    fn run(c: &EncCase) -> Out {
        let (v, m) = c.model();
        let s = c.input();
        match m.encode(&s, c.dropout.0) {
            Ok(ids) => match check_lossless(&v, &ids, s.as_bytes()) {
                Ok(()) => Held(ids.iter().any(|&i| v[i as usize].value.len() > 1)),
                Err(e) => Broken(e),
            },
            Err(_) => Held(false),
        }
    }
    fn shrink(c: &EncCase) -> Vec<EncCase> {
        c.shrinks()
    }
}

pub struct C02;
impl Prop for C02 {
    type Case = EncCase;
    const RULE: &'static str = "as C01 without dropout, finite scores incl. ties, subnormals and overflow; compared with an independent prefix optimum and, when small, with every segmentation; non-trivial: at least two segmentations with different scores";
    fn gen(r: &mut Rng, i: u64) -> EncCase {
        gen_enc(r, i, &[0.0, 0.0, 0.0, -1.0, -0.0], &[0, 1, 2, 3, 4, 5])
    }
    fn run(c: &EncCase) -> Out {
        let (v, m) = c.model();
        let s = c.input();
        let ids = last_ids(&v);
        let Ok(got) = m.encode(&s, c.dropout.0) else { return Held(false) };
        if let Err(e) = check_lossless(&v, &got, s.as_bytes()) {
            return Broken(e);
        }
        let sc = lsum(&v, &got);
        let best = best_prefix(&v, &ids, s.as_bytes())[s.len()];
        match best {
            Some(b) if sc >= b => {}
            b => return Broken(format!("score {sc:?} of {:?} below optimum {b:?}", &got[..got.len().min(50)])),
        }
        let mut nt = false;
        if s.len() <= 10 {
            if let Some(all) = all_segs(&ids, s.as_bytes(), 2000) {
                for g in &all {
                    let x = lsum(&v, g);
                    if x > sc {
                        return Broken(format!("score {sc:?} of {got:?} below {x:?} of {g:?}"));
                    }
                    nt |= x < sc;
                }
            }
        } else {
            nt = got.len() > 1;
        }
        Held(nt)
    }
    fn shrink(c: &EncCase) -> Vec<EncCase> {
        c.shrinks()
    }
}

pub struct C03;
impl Prop for C03 {
    type Case = EncCase;
    const RULE: &'static str = "as C01, vocabularies with and without byte coverage; success compared with an independent reachability oracle; non-trivial: unsegmentable text, or dropout on";
    fn gen(r: &mut Rng, i: u64) -> EncCase {
        gen_enc(r, i, &[0.0, 0.0, -1.0, 0.3, 0.999, 1.0, 1.5, f64::NAN, f64::INFINITY, f64::NEG_INFINITY], &[0, 1, 2, 4])
    }
    fn run(c: &EncCase) -> Out {
        let (v, m) = c.model();
        let s = c.input();
        let ids = last_ids(&v);
        let d = c.dropout.0;
        let res = match guarded(|| m.encode(&s, d)) {
            Ok(r) => r,
            Err(p) => return Broken(format!("panic: {p}")),
        };
        let can = best_prefix(&v, &ids, s.as_bytes())[s.len()].is_some();
        let covered = s.bytes().all(|b| ids.contains_key(&vec![b]));
        match &res {
            Ok(_) if !can => return Broken("succeeded although no segmentation exists".into()),
            Err(e) if can && d <= 0.0 => return Broken(format!("failed ({e}) although a segmentation exists")),
            Err(e) if covered => return Broken(format!("failed ({e}) although every byte is a token")),
            Err(Error::NoPath(..)) | Ok(_) => {}
            Err(e) => return Broken(format!("unexpected error {e:?}")),
        }
        if let Ok(g) = &res {
            if d >= 1.0 {
                for &id in g {
                    if v.get(id as usize).map_or(0, |t| t.value.len()) != 1 {
                        return Broken(format!("dropout {d}: id {id} is not a single byte"));
                    }
                }
            }
        }
        Held(!can || d > 0.0)
    }
    fn shrink(c: &EncCase) -> Vec<EncCase> {
        c.shrinks()
    }
}

#[derive(Clone, Serialize, Deserialize)]
pub struct TrieCase {
    keys: Vec<B>,
    query: B,
    buffer: B,
    long: usize,
}
pub struct C05;
impl Prop for C05 {
    type Case = TrieCase;
    const RULE: &'static str = "random insertion sequences over arbitrary byte keys (nested, duplicate, empty, > 65535 bytes) and queries; non-trivial: at least two stored keys are prefixes of the query";
    fn gen(r: &mut Rng, i: u64) -> TrieCase {
        let wide = r.chance(0.3);
        let k = r.range(1, 3);
        let byte = |r: &mut Rng| if wide { r.next() as u8 } else { [0u8, 255, 7][r.below(k)] };
        let nk = r.hint(0.05, 3000).unwrap_or_else(|| r.range(0, 14));
        let ql = r.hint(0.1, 70_000).unwrap_or_else(|| if r.chance(0.01) { r.range(10, 2000) } else { r.range(0, 10) });
        let query: Vec<u8> = (0..ql).map(|_| byte(r)).collect();
        let keys = (0..nk)
            .map(|_| {
                if r.chance(0.5) && ql > 0 {
                    let e = r.range(0, ql);
                    let mut k = query[..e].to_vec();
                    if r.chance(0.3) {
                        k.push(byte(r));
                    }
                    B(k)
                } else {
                    let n = r.range(0, 6);
                    B((0..n).map(|_| byte(r)).collect())
                }
            })
            .collect();
        let buffer = B(if r.chance(0.3) { vec![1, 2, 3] } else { vec![] });
        TrieCase { keys, query: B(query), buffer, long: if i < 3 { [256, 1000, 66_000][i as usize] } else { r.hint(0.1, 70_000).unwrap_or(0) } }
    }
    fn run(c: &TrieCase) -> Out {
        let mut t: Trie<u32> = Trie::default();
        let mut last: std::collections::BTreeMap<Vec<u8>, u32> = Default::default();
        let pad = vec![9u8; c.long];
        for (i, k) in c.keys.iter().enumerate() {
            let mut k = k.0.clone();
            if i % 2 == 0 {
                k.extend_from_slice(&pad);
            }
            t.push(&k, i as u32);
            last.insert(k, i as u32);
        }
        let mut q = c.query.0.clone();
        q.extend_from_slice(&pad);
        // the search may be repeated and must not depend on the buffer's contents
        let mut buf = c.buffer.0.clone();
        for _ in 0..2 {
            let got: Vec<u32> = t.common_prefix_search(q.iter().copied(), &mut buf).collect();
            let want: Vec<u32> = (1..=q.len()).filter_map(|n| last.get(&q[..n]).copied()).collect();
            if got != want {
                return Broken(format!("search yields {got:?}, expected {want:?}"));
            }
        }
        // through the model: ids and lengths, before and after additions
        let toks: Vec<ScoredToken> = c.keys.iter().map(|k| ScoredToken::new(k.0.clone(), -1.0, false)).collect();
        let h = toks.len() / 2;
        let mut m = Model::from(toks[..h].to_vec());
        for upto in [h, toks.len()] {
            if upto > h {
                m.add_tokens(toks[h..].to_vec());
            }
            let ids = last_ids(&toks[..upto]);
            let mut b = c.buffer.0.clone();
            let got: Vec<(u32, u32)> = m.common_prefix_search(&c.query.0, &mut b).collect();
            let want: Vec<(u32, u32)> =
                (1..=c.query.0.len()).filter_map(|n| ids.get(&c.query.0[..n]).map(|&i| (i, n as u32))).collect();
            if got != want {
                return Broken(format!("model search yields {got:?}, expected {want:?}"));
            }
        }
        let n = (1..=q.len()).filter(|n| last.contains_key(&q[..*n])).count();
        Held(n >= 2)
    }
    fn shrink(c: &TrieCase) -> Vec<TrieCase> {
        let mut out = vec![];
        for k in shrink_vec(&c.keys) {
            out.push(TrieCase { keys: k, ..c.clone() });
        }
        for q in shrink_vec(&c.query.0) {
            out.push(TrieCase { query: B(q), ..c.clone() });
        }
        out
    }
}
