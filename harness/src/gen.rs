use super::util::*;
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::collections::HashMap;
use tokengeex::ScoredToken;

/// f64 written as its shortest decimal text, read back exactly.
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct F(pub f64);
impl Serialize for F {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&format!("{:?}", self.0))
    }
}
impl<'de> Deserialize<'de> for F {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<F, D::Error> {
        let s = String::deserialize(d)?;
        s.parse().map(F).map_err(serde::de::Error::custom)
    }
}

/// Bytes, written as text where they are UTF-8.
#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct B(pub Vec<u8>);
#[derive(Serialize, Deserialize)]
#[serde(untagged)]
enum BR {
    S(String),
    V(Vec<u8>),
}
impl Serialize for B {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match String::from_utf8(self.0.clone()) {
            Ok(x) => BR::S(x).serialize(s),
            Err(_) => BR::V(self.0.clone()).serialize(s),
        }
    }
}
impl<'de> Deserialize<'de> for B {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<B, D::Error> {
        Ok(match BR::deserialize(d)? {
            BR::S(s) => B(s.into_bytes()),
            BR::V(v) => B(v),
        })
    }
}

#[derive(Clone, Serialize, Deserialize, Debug, PartialEq)]
pub struct Tok {
    pub v: B,
    pub s: F,
    #[serde(default)]
    pub k: bool,
}

/// A vocabulary: optional block of all 256 bytes first, explicit tokens, optional filler block of
/// n distinct four-byte tokens starting with 0xF9 (never part of any text) placed before them.
#[derive(Clone, Serialize, Deserialize, Debug)]
pub struct Vocab {
    pub bytes: Option<F>,
    pub filler: u32,
    pub toks: Vec<Tok>,
}
impl Vocab {
    pub fn build(&self) -> Vec<ScoredToken> {
        let mut v = vec![];
        if let Some(s) = self.bytes {
            for b in 0..=255u8 {
                v.push(ScoredToken::new(vec![b], s.0, true));
            }
        }
        for i in 0..self.filler {
            v.push(ScoredToken::new(vec![0xF9, (i >> 16) as u8, (i >> 8) as u8, i as u8], -1.0, false));
        }
        for t in &self.toks {
            v.push(ScoredToken::new(t.v.0.clone(), t.s.0, t.k));
        }
        v
    }
    pub fn shrinks(&self) -> Vec<Vocab> {
        let mut out = vec![];
        if self.filler > 0 {
            let mut c = self.clone();
            c.filler = 0;
            out.push(c);
        }
        if self.bytes.is_some() {
            let mut c = self.clone();
            c.bytes = None;
            out.push(c);
        }
        let n = self.toks.len();
        let mut step = n / 2;
        while step >= 1 {
            let mut i = 0;
            while i + step <= n {
                let mut c = self.clone();
                c.toks.drain(i..i + step);
                out.push(c);
                i += step;
            }
            step /= 2;
        }
        out
    }
}

pub fn shrink_str(s: &str) -> Vec<String> {
    let cs: Vec<char> = s.chars().collect();
    let n = cs.len();
    let mut out = vec![];
    let mut step = n / 2;
    if n == 1 {
        step = 1;
    }
    while step >= 1 {
        let mut i = 0;
        while i + step <= n && out.len() < 200 {
            let mut c = cs.clone();
            c.drain(i..i + step);
            out.push(c.into_iter().collect());
            i += step;
        }
        step /= 2;
    }
    out
}

pub fn shrink_vec<T: Clone>(v: &[T]) -> Vec<Vec<T>> {
    let n = v.len();
    let mut out = vec![];
    let mut step = if n == 1 { 1 } else { n / 2 };
    while step >= 1 {
        let mut i = 0;
        while i + step <= n && out.len() < 200 {
            let mut c = v.to_vec();
            c.drain(i..i + step);
            out.push(c);
            i += step;
        }
        step /= 2;
    }
    out
}

pub const ALPHABETS: &[&[&str]] = &[
    &["a", "b"],
    &["a", "b", "c"],
    &["a"],
    &["a", "b", "c", "d", " "],
    &["é", "a", "è"],
    &["你", "好", "a"],
    &["a", "\r", "\n"],
    &["😀", "é", "a", "e\u{301}", "ﬁ", "Å", "\u{e9}"],
    &["<", "|", "a", ">"],
    &["\"", "\\", "a", "\u{0}", "\u{7f}", "\u{2028}"],
];

/// any character but NUL
pub fn wild(r: &mut Rng) -> char {
    const SPECIAL: &[char] = &['\u{feff}', '\u{a0}', '\u{ad}', '\u{85}', '\u{200b}', '\u{200d}', '\u{2028}', '\u{3000}', '\u{fffd}', '\u{fffe}', '\u{ffff}', '\u{10ffff}', '\u{e000}', '\u{d7ff}', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{10000}', '\t', '\u{b}', '\u{1b}', '\r', '\n', 'İ', 'ß', 'ſ', '²', 'µ'];
    loop {
        let c = match r.below(6) {
            0 => r.range(0x80, 0xff) as u32,
            1 => r.range(1, 0x7f) as u32,
            2 => *r.pick(SPECIAL) as u32,
            3 => r.range(0x300, 0x36f) as u32,
            4 => r.range(0x100, 0xffff) as u32,
            _ => r.range(0x10000, 0x10ffff) as u32,
        };
        if let Some(c) = char::from_u32(c) {
            return c;
        }
    }
}

pub fn text(r: &mut Rng, alpha: &[&str], max: usize) -> String {
    let n = r.hint(0.1, max.saturating_mul(10)).unwrap_or_else(|| r.range(0, max));
    let mut s: String = (0..n).map(|_| *r.pick(alpha)).collect();
    if max >= 10 && !lits().ints.is_empty() && r.chance(0.02) {
        // long: the text lies across a multiple of a hinted length
        if let Some(n) = r.hint(1.0, 70_000) {
            let c = *r.pick(alpha);
            let n = n.saturating_sub(r.range(0, s.len() + 1));
            s = c.repeat(n / c.len()) + &s;
        }
    }
    if r.chance(0.08) {
        let x: String = (0..r.range(1, 3)).map(|_| wild(r)).collect();
        let k = r.range(0, s.chars().count());
        let at = s.char_indices().nth(k).map_or(s.len(), |x| x.0);
        s.insert_str(at, &x);
    }
    if r.chance(0.25) {
        if let Some(x) = r.shint() {
            // somewhere in the text, once or twice
            let k = r.range(0, s.chars().count());
            let at = s.char_indices().nth(k).map_or(s.len(), |x| x.0);
            s.insert_str(at, &x);
            if r.chance(0.3) {
                s.push_str(&x);
            }
        }
    }
    s
}

pub fn score(r: &mut Rng, kind: usize) -> f64 {
    if let Some(x) = r.fhint(0.15) {
        // the shape of the kind stays: moderate scores, negative where probabilities are meant
        match kind {
            3 | 4 => return x,
            5 | 6 if x != 0.0 && x.abs() <= 30.0 => return -x.abs(),
            0 | 1 | 2 if x.abs() <= 1000.0 => return x,
            _ => {}
        }
    }
    match kind {
        0 => -(r.range(1, 4) as f64),
        1 => -r.unit() * 20.0,
        2 => (r.range(0, 6) as f64) - 3.0,
        3 => {
            // arbitrary finite doubles
            loop {
                let x = f64::from_bits(r.next());
                if x.is_finite() {
                    return x;
                }
            }
        }
        4 => *r.pick(&[0.0, -0.0, 1.0, -1.0, 1e308, -1e308, 1.7e308, -1.7e308, 5e-324, -5e-324, 0.1, 0.2, 0.3, -1e16]),
        5 => -1.0 - (r.range(0, 3) as f64) * 1e-16 * 4.0,
        7 => -r.unit() * 3000.0,
        _ => -(r.unit() * 12.0 + 0.5),
    }
}

/// Tokens drawn mostly from substrings over the alphabet, with some raw bytes.
pub fn toks(r: &mut Rng, alpha: &[&str], n: usize, maxlen: usize, kind: usize, dups: bool, empties: bool) -> Vec<Tok> {
    let mut v: Vec<Tok> = vec![];
    let mut seen: HashMap<Vec<u8>, ()> = HashMap::new();
    for _ in 0..n * 3 {
        if v.len() >= n {
            break;
        }
        let mut b: Vec<u8> = {
            let l = r.hint(0.05, 600).unwrap_or_else(|| r.range(1, maxlen.max(1)));
            (0..l).map(|_| *r.pick(alpha)).collect::<String>().into_bytes()
        };
        if r.chance(0.15) && b.len() > 1 {
            // cut inside a character
            let i = r.range(1, b.len() - 1);
            if r.chance(0.5) {
                b.truncate(i);
            } else {
                b.drain(..i);
            }
        }
        if r.chance(0.03) {
            b = (0..r.range(1, 4)).map(|_| r.next() as u8).collect();
        }
        if !lits().strs.is_empty() && r.chance(0.05) {
            b = r.pick(&lits().strs).clone().into_bytes();
        }
        if empties && r.chance(0.05) {
            b = vec![];
        }
        if b.is_empty() && !empties {
            continue;
        }
        if seen.insert(b.clone(), ()).is_some() && !dups {
            continue;
        }
        v.push(Tok { v: B(b), s: F(score(r, kind)), k: r.chance(0.2) });
    }
    v
}

pub fn vocab(r: &mut Rng, alpha: &[&str], kind: usize, cover: f64, dups: bool, empties: bool) -> Vocab {
    let n = match r.below(10) {
        0 => 0,
        1..=6 => r.range(1, 8),
        7 | 8 => r.range(5, 30),
        _ => r.range(20, 60),
    };
    let maxlen = r.range(1, 6);
    let mut t = toks(r, alpha, n, maxlen, kind, dups, empties);
    let bytes = if r.chance(cover) { Some(F(score(r, kind))) } else { None };
    if bytes.is_some() {
        if !dups {
            t.retain(|x| x.v.0.len() != 1);
        }
    } else if r.chance(0.5) {
        // every byte of the alphabet
        for a in alpha {
            for b in a.bytes() {
                if dups || !t.iter().any(|x| x.v.0 == [b]) {
                    if t.iter().any(|x| x.v.0 == [b]) && r.chance(0.7) {
                        continue;
                    }
                    t.push(Tok { v: B(vec![b]), s: F(score(r, kind)), k: r.chance(0.2) });
                }
            }
        }
    }
    if r.chance(0.04) {
        nest(r, alpha, &mut t, kind, bytes.is_some());
    }
    let filler = if lits().ints.is_empty() { 0 } else { r.hint(0.02, 70_000).unwrap_or(0) as u32 };
    Vocab { bytes, filler, toks: t }
}

/// Adds many prefixes of one string; the string is remembered for the texts of this case.
pub fn nest(r: &mut Rng, alpha: &[&str], t: &mut Vec<Tok>, kind: usize, singles: bool) {
    let l = r.hint(0.5, 700).unwrap_or_else(|| r.range(8, 70));
    let base: String = (0..l).map(|_| *r.pick(alpha)).collect();
    let b = base.as_bytes();
    let every = if r.chance(0.6) && b.len() <= 200 { 1.0 } else { 0.3f64.min(40.0 / b.len() as f64) };
    for n in 1..=b.len() {
        if (n == b.len() || r.chance(every)) && !(n == 1 && singles) && !t.iter().any(|x| x.v.0 == b[..n]) {
            t.push(Tok { v: B(b[..n].to_vec()), s: F(score(r, kind)), k: false });
        }
    }
    r.1.push(base);
}

/// Last id per token value.
pub fn last_ids(v: &[ScoredToken]) -> HashMap<Vec<u8>, u32> {
    let mut m = HashMap::new();
    for (i, t) in v.iter().enumerate() {
        m.insert(t.value.clone(), i as u32);
    }
    m
}

/// Best left-to-right score of every prefix (None: unreachable).
pub fn best_prefix(v: &[ScoredToken], ids: &HashMap<Vec<u8>, u32>, s: &[u8]) -> Vec<Option<f64>> {
    let mut lens: Vec<usize> = ids.keys().map(|k| k.len()).filter(|l| *l > 0).collect();
    lens.sort_unstable();
    lens.dedup();
    let mut best: Vec<Option<f64>> = vec![None; s.len() + 1];
    best[0] = Some(0.0);
    for q in 1..=s.len() {
        for &l in &lens {
            if l > q {
                break;
            }
            if let Some(b) = best[q - l] {
                if let Some(&id) = ids.get(&s[q - l..q]) {
                    let c = b + v[id as usize].score;
                    if best[q].map_or(true, |x| c > x) {
                        best[q] = Some(c);
                    }
                }
            }
        }
    }
    best
}

/// All segmentations (at most cap).
pub fn all_segs(ids: &HashMap<Vec<u8>, u32>, s: &[u8], cap: usize) -> Option<Vec<Vec<u32>>> {
    fn go(ids: &HashMap<Vec<u8>, u32>, s: &[u8], p: usize, cur: &mut Vec<u32>, out: &mut Vec<Vec<u32>>, cap: usize, steps: &mut usize) -> bool {
        *steps += 1;
        if *steps > 20 * cap {
            return false;
        }
        if p == s.len() {
            if out.len() >= cap {
                return false;
            }
            out.push(cur.clone());
            return true;
        }
        for q in p + 1..=s.len() {
            if let Some(&id) = ids.get(&s[p..q]) {
                cur.push(id);
                let ok = go(ids, s, q, cur, out, cap, steps);
                cur.pop();
                if !ok {
                    return false;
                }
            }
        }
        true
    }
    let mut out = vec![];
    let mut steps = 0;
    if go(ids, s, 0, &mut vec![], &mut out, cap, &mut steps) {
        Some(out)
    } else {
        None
    }
}

pub fn lsum(v: &[ScoredToken], ids: &[u32]) -> f64 {
    ids.iter().fold(0.0, |a, &i| a + v[i as usize].score)
}
