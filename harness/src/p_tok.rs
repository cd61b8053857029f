use super::gen::*;
use super::p_model::check_lossless;
use super::util::*;
use super::*;
use serde::{Deserialize, Serialize};
use std::str::FromStr;
use tokengeex::{CrlfProcessor, Error, Model, Processor, ProcessorWrapper, ScoredToken, Tokenizer, UnicodeProcessor};
use unicode_normalization::UnicodeNormalization;

/// A tokenizer described by plain data.
#[derive(Clone, Serialize, Deserialize, Debug)]
pub struct TokDef {
    pub vocab: Vocab,
    pub processors: Vec<String>,
    pub special: Vec<String>,
}
pub fn wrapper(n: &str) -> ProcessorWrapper {
    match n {
        "crlf" => ProcessorWrapper::Crlf(CrlfProcessor),
        "nfc" => ProcessorWrapper::Unicode(UnicodeProcessor::Nfc),
        "nfd" => ProcessorWrapper::Unicode(UnicodeProcessor::Nfd),
        "nfkc" => ProcessorWrapper::Unicode(UnicodeProcessor::Nfkc),
        _ => ProcessorWrapper::Unicode(UnicodeProcessor::Nfkd),
    }
}
pub const PROCS: &[&str] = &["crlf", "nfc", "nfd", "nfkc", "nfkd"];

/// Independent meaning of one processor.
pub fn apply(n: &str, s: &str) -> String {
    match n {
        "crlf" => {
            let b = s.as_bytes();
            let mut out = vec![];
            let mut i = 0;
            while i < b.len() {
                if b[i] == b'\r' && i + 1 < b.len() && b[i + 1] == b'\n' {
                    out.push(b'\n');
                    i += 2;
                } else {
                    out.push(b[i]);
                    i += 1;
                }
            }
            String::from_utf8(out).unwrap()
        }
        "nfc" => UnicodeNormalization::nfc(s).collect(),
        "nfd" => UnicodeNormalization::nfd(s).collect(),
        "nfkc" => UnicodeNormalization::nfkc(s).collect(),
        _ => UnicodeNormalization::nfkd(s).collect(),
    }
}
pub fn apply_all(ps: &[String], s: &str) -> String {
    ps.iter().fold(s.to_string(), |s, p| apply(p, &s))
}

impl TokDef {
    pub fn build(&self) -> (Vec<ScoredToken>, Tokenizer) {
        let v = self.vocab.build();
        let t = Tokenizer::new(Model::from(v.clone()), self.processors.iter().map(|p| wrapper(p)), self.special.clone());
        (v, t)
    }
    /// special tokens in registration order, duplicates ignored
    pub fn specials(&self) -> Vec<String> {
        let mut v: Vec<String> = vec![];
        for s in &self.special {
            if !v.contains(s) {
                v.push(s.clone());
            }
        }
        v
    }
    pub fn shrinks(&self) -> Vec<TokDef> {
        let mut out = vec![];
        for v in self.vocab.shrinks() {
            out.push(TokDef { vocab: v, ..self.clone() });
        }
        for p in shrink_vec(&self.processors) {
            out.push(TokDef { processors: p, ..self.clone() });
        }
        for p in shrink_vec(&self.special) {
            out.push(TokDef { special: p, ..self.clone() });
        }
        out
    }
}

fn specials(r: &mut Rng, alpha: &[&str]) -> Vec<String> {
    let n = match r.below(6) {
        0 => 0,
        1..=3 => r.range(1, 3),
        4 => r.range(3, 8),
        _ => r.range(1, 5),
    };
    let n = r.hint(0.05, 300).unwrap_or(n);
    let mut v: Vec<String> = vec![];
    for _ in 0..n {
        let s = match r.below(12) {
            0 => String::new(),
            1 => "<|eos|>".to_string(),
            2 => "<|e".to_string(),
            5 if !lits().strs.is_empty() => r.pick(&lits().strs).clone(),
            3 if !v.is_empty() => r.pick(&v).clone(),
            4 if !v.is_empty() => format!("{}{}", r.pick(&v), r.pick(alpha)),
            _ => {
                let k = r.range(1, 3);
                (0..k).map(|_| *r.pick(alpha)).collect()
            }
        };
        v.push(s);
    }
    v
}

fn procs(r: &mut Rng) -> Vec<String> {
    let n = *r.pick(&[0usize, 0, 1, 1, 2, 3]);
    (0..n).map(|_| r.pick(PROCS).to_string()).collect()
}

pub fn tokdef(r: &mut Rng, alpha: &[&str], with_procs: bool, cover: f64, dups: bool, empties: bool) -> TokDef {
    let kind = *r.pick(&[0usize, 1, 1, 2]);
    TokDef {
        vocab: vocab(r, alpha, kind, cover, dups, empties),
        processors: if with_procs { procs(r) } else { vec![] },
        special: specials(r, alpha),
    }
}

pub fn text_with_specials(r: &mut Rng, alpha: &[&str], sp: &[String], max: usize) -> String {
    let n = r.hint(0.1, max * 10).unwrap_or_else(|| r.range(0, max));
    let mut s = String::new();
    let hinted = r.chance(0.2);
    for _ in 0..n {
        if hinted && r.chance(0.3) {
            if let Some(x) = r.shint() {
                s.push_str(&x);
            }
        }
        if !sp.is_empty() && r.chance(0.25) {
            let t = r.pick(sp);
            if r.chance(0.2) && t.chars().count() > 1 {
                // a broken special token
                s.extend(t.chars().take(t.chars().count() - 1));
            } else {
                s.push_str(t);
            }
        } else if r.chance(0.01) {
            s.push(wild(r));
        } else {
            s.push_str(*r.pick(alpha));
        }
    }
    s
}

/// The specified split: (text, index of special token).
pub fn split(text: &str, sp: &[String]) -> Vec<(String, Option<usize>)> {
    let mut out: Vec<(String, Option<usize>)> = vec![];
    let mut plain = String::new();
    let mut pos = 0;
    let cs: Vec<char> = text.chars().collect();
    let sps: Vec<Vec<char>> = sp.iter().map(|s| s.chars().collect()).collect();
    while pos < cs.len() {
        let hit = sps.iter().position(|s| !s.is_empty() && pos + s.len() <= cs.len() && cs[pos..pos + s.len()] == s[..]);
        match hit {
            Some(k) => {
                if !plain.is_empty() {
                    out.push((std::mem::take(&mut plain), None));
                }
                out.push((sp[k].clone(), Some(k)));
                pos += sps[k].len();
            }
            None => {
                plain.push(cs[pos]);
                pos += 1;
            }
        }
    }
    if !plain.is_empty() {
        out.push((plain, None));
    }
    out
}

// ---------------------------------------------------------------------------------------------
#[derive(Clone, Serialize, Deserialize)]
pub struct DecCase {
    def: TokDef,
    ids: Vec<u32>,
    text: String,
    include: bool,
    /// how often ids and text are repeated
    #[serde(default = "once")]
    repeat: usize,
}
fn once() -> usize {
    1
}
/// Mostly 1; else so many that something of length len grows beyond the limits code may have for large inputs.
fn long(r: &mut Rng, len: usize, force: bool) -> usize {
    if force || r.chance(0.003) {
        *r.pick(&[5_000usize, 9_000, 70_000, 140_000, 300_000]) / len.max(1) + 1
    } else {
        1
    }
}
pub struct C04;
impl Prop for C04 {
    type Case = DecCase;
    const RULE: &'static str = "random tokenizers and id sequences (base, special, out of range, u32::MAX); decode compared with independent concatenation; round trip of a random text; non-trivial: at least two ids of different kinds, or a successful round trip with a special token";
    fn gen(r: &mut Rng, i: u64) -> DecCase {
        let alpha = *r.pick(ALPHABETS);
        let wp = r.chance(0.3);
        let mut def = tokdef(r, alpha, wp, 0.4, true, true);
        if i == 0 {
            def.vocab.filler = 70_000;
        }
        let b = def.vocab.build().len() as u32;
        let s = def.specials().len() as u32;
        let n = r.range(0, 10);
        let bad = r.chance(0.15);
        let ids = (0..n)
            .map(|_| match r.below(10) {
                0 if bad => *r.pick(&[b + s, b + s + 1, u32::MAX, u32::MAX - 1, 1 << 31]),
                1..=3 if s > 0 => b + r.below(s as usize) as u32,
                _ if b > 0 => r.below(b as usize) as u32,
                _ if s > 0 => b + r.below(s as usize) as u32,
                _ => 0,
            })
            .collect();
        let sp = def.specials();
        let text = text_with_specials(r, alpha, &sp, 12);
        let ids: Vec<u32> = ids;
        let repeat = long(r, text.len(), (3..6).contains(&i));
        DecCase { def, ids, text, include: r.chance(0.5), repeat }
    }
    fn run(c: &DecCase) -> Out {
        let long;
        let c = if c.repeat > 1 {
            long = DecCase { ids: c.ids.repeat(c.repeat), text: c.text.repeat(c.repeat), ..c.clone() };
            &long
        } else {
            c
        };
        let (v, t) = c.def.build();
        let sp = c.def.specials();
        let b = v.len() as u32;
        // model decode
        let m = Model::from(v.clone());
        let base_ok = c.ids.iter().all(|&i| i < b);
        match m.decode(&c.ids) {
            Ok(s) => {
                if !base_ok {
                    return Broken(format!("model decoded out-of-range ids {:?}", c.ids));
                }
                let cat: Vec<u8> = c.ids.iter().flat_map(|&i| v[i as usize].value.clone()).collect();
                if s != String::from_utf8_lossy(&cat) {
                    return Broken(format!("model decode of {:?} gives {s:?}", c.ids));
                }
            }
            Err(Error::TokenIdOutOfBounds(x)) => {
                if base_ok || x < b || !c.ids.contains(&x) {
                    return Broken(format!("model decode of {:?} fails with out of bounds {x}", c.ids));
                }
            }
            Err(e) => return Broken(format!("model decode fails with {e:?}")),
        }
        // tokenizer decode
        let lim = b + sp.len() as u32;
        let ok = c.ids.iter().all(|&i| i < lim);
        let want = {
            let mut out = String::new();
            let mut run: Vec<u8> = vec![];
            for &i in &c.ids {
                if i < b {
                    run.extend_from_slice(&v[i as usize].value);
                } else if i < lim {
                    out.push_str(&String::from_utf8_lossy(&run));
                    run.clear();
                    if c.include {
                        out.push_str(&sp[(i - b) as usize]);
                    }
                }
            }
            out.push_str(&String::from_utf8_lossy(&run));
            out
        };
        match t.decode(&c.ids, c.include) {
            Ok(s) => {
                if !ok {
                    return Broken(format!("decoded out-of-range ids {:?}", c.ids));
                }
                if s != want {
                    return Broken(format!("decode of {:?} (include={}) gives {s:?}, expected {want:?}", c.ids, c.include));
                }
            }
            Err(Error::TokenIdOutOfBounds(x)) => {
                if ok || x < lim || !c.ids.contains(&x) {
                    return Broken(format!("decode of {:?} fails with out of bounds {x}", c.ids));
                }
            }
            Err(e) => return Broken(format!("decode fails with {e:?}")),
        }
        // round trip
        let mut nt = c.ids.iter().any(|&i| i < b) && c.ids.iter().any(|&i| i >= b);
        if c.def.processors.is_empty() {
            if let Ok(ids) = t.encode(&c.text, 0.0) {
                match t.decode(&ids, true) {
                    Ok(s) if s == c.text => nt |= ids.iter().any(|&i| i >= b),
                    r => return Broken(format!("decode(encode({:?})) = {r:?}", c.text)),
                }
            }
            if let Ok(ids) = t.encode_ordinary(&c.text, 0.0) {
                match t.decode(&ids, c.include) {
                    Ok(s) if s == c.text => {}
                    r => return Broken(format!("decode(encode_ordinary({:?})) = {r:?}", c.text)),
                }
            }
        }
        Held(nt)
    }
    fn shrink(c: &DecCase) -> Vec<DecCase> {
        let mut out: Vec<DecCase> = vec![];
        if c.repeat > 1 {
            out.push(DecCase { repeat: c.repeat / 2, ..c.clone() });
            out.push(DecCase { repeat: c.repeat - 1, ..c.clone() });
        }
        for i in shrink_vec(&c.ids) {
            out.push(DecCase { ids: i, ..c.clone() });
        }
        for i in shrink_str(&c.text) {
            out.push(DecCase { text: i, ..c.clone() });
        }
        out.extend(c.def.shrinks().into_iter().map(|d| DecCase { def: d, ..c.clone() }));
        out
    }
}

// ---------------------------------------------------------------------------------------------
#[derive(Clone, Serialize, Deserialize)]
pub enum Op {
    Base(Vec<Tok>),
    Special(Vec<String>),
    Clone,
    Reload,
}
#[derive(Clone, Serialize, Deserialize)]
pub struct HistCase {
    def: TokDef,
    ops: Vec<Op>,
    probes: Vec<B>,
}
pub struct C06;
impl C06 {
    fn check(t: &Tokenizer, base: &[ScoredToken], sp: &[String], probes: &[B]) -> Result<(), String> {
        let b = base.len() as u32;
        let s = sp.len() as u32;
        macro_rules! eq {
            ($a:expr, $b:expr, $($w:tt)*) => {{ let (x, y) = ($a, $b); if x != y { return Err(format!("{}: {:?}, expected {:?}", format!($($w)*), x, y)); } }};
        }
        eq!(t.base_vocab_size(), base.len(), "base_vocab_size");
        eq!(t.special_vocab_size(), sp.len(), "special_vocab_size");
        eq!(t.vocab_size(), base.len() + sp.len(), "vocab_size");
        eq!(t.special_tokens(), sp.to_vec(), "special_tokens");
        eq!(t.model().vocab_size(), base.len(), "model vocab_size");
        if t.model().vocab() != base {
            return Err("model vocabulary differs".into());
        }
        let mut ids: Vec<u32> = if b < 400 { (0..b).collect() } else { vec![0, 1, 254, 255, 256, 257, b / 2, b - 2, b - 1] };
        ids.extend(b..b + s + 2);
        ids.extend([u32::MAX, u32::MAX - 1, 1 << 31]);
        for id in ids {
            let isb = id < b;
            let iss = id >= b && id - b < s;
            eq!(t.is_base(id), isb, "is_base({id})");
            eq!(t.is_special(id), iss, "is_special({id})");
            eq!(t.id_to_base_token(id), if isb { Some(base[id as usize].clone()) } else { None }, "id_to_base_token({id})");
            eq!(t.model().id_to_token(id), if isb { Some(base[id as usize].clone()) } else { None }, "model id_to_token({id})");
            eq!(t.id_to_special_token(id), if iss { Some(sp[(id - b) as usize].clone()) } else { None }, "id_to_special_token({id})");
            eq!(
                t.id_to_token(id),
                if isb {
                    Some(base[id as usize].value.clone())
                } else if iss {
                    Some(sp[(id - b) as usize].clone().into_bytes())
                } else {
                    None
                },
                "id_to_token({id})"
            );
        }
        let last = last_ids(base);
        let mut ps: Vec<Vec<u8>> = probes.iter().map(|p| p.0.clone()).collect();
        ps.extend(base.iter().take(300).map(|t| t.value.clone()));
        ps.extend(base.iter().rev().take(10).map(|t| t.value.clone()));
        ps.extend(sp.iter().map(|t| t.clone().into_bytes()));
        for p in &ps {
            let wb = last.get(p).copied();
            let ws = std::str::from_utf8(p).ok().and_then(|x| sp.iter().position(|y| y == x)).map(|k| b + k as u32);
            eq!(t.base_token_to_id(p), wb, "base_token_to_id({p:?})");
            eq!(t.model().token_to_id(p), wb, "model token_to_id({p:?})");
            if let Ok(x) = std::str::from_utf8(p) {
                eq!(t.special_token_to_id(x), ws, "special_token_to_id({p:?})");
            }
            eq!(t.token_to_id(p), wb.or(ws), "token_to_id({p:?})");
        }
        Ok(())
    }
}
impl Prop for C06 {
    type Case = HistCase;
    const RULE: &'static str = "random histories of base and special additions (duplicates, overlaps between kinds, clones) with every lookup checked after every step, incl. vocabularies above 65536 entries; non-trivial: at least two additions of each kind took effect";
    fn gen(r: &mut Rng, i: u64) -> HistCase {
        let alpha = *r.pick(ALPHABETS);
        let mut def = tokdef(r, alpha, false, 0.2, true, true);
        if i < 2 {
            def.vocab.filler = [70_000, 254][i as usize];
        }
        let n = r.range(0, 6);
        let mut ops = vec![];
        for _ in 0..n {
            ops.push(match r.below(9) {
                0..=3 => {
                    let k = r.range(0, 4);
                    Op::Base(toks(r, alpha, k, 3, 1, true, true))
                }
                4..=7 => Op::Special(specials(r, alpha)),
                _ => Op::Clone,
            });
        }
        let probes = (0..3).map(|_| B(text(r, alpha, 4).into_bytes())).chain([B(vec![255]), B(vec![])]).collect();
        HistCase { def, ops, probes }
    }
    fn run(c: &HistCase) -> Out {
        let (mut base, mut t) = c.def.build();
        let mut sp = c.def.specials();
        let (mut nb, mut ns) = (0, 0);
        let mut step = || -> Result<(), String> {
            C06::check(&t, &base, &sp, &c.probes).map_err(|e| format!("after construction: {e}"))?;
            for (k, op) in c.ops.iter().enumerate() {
                match op {
                    Op::Base(v) => {
                        let v: Vec<ScoredToken> = v.iter().map(|x| ScoredToken::new(x.v.0.clone(), x.s.0, x.k)).collect();
                        nb += v.len();
                        base.extend(v.clone());
                        t.add_base_tokens(v);
                    }
                    Op::Special(v) => {
                        for s in v {
                            if !sp.contains(s) {
                                sp.push(s.clone());
                                ns += 1;
                            }
                        }
                        t.add_special_tokens(v.clone());
                    }
                    Op::Clone => t = t.clone(),
                    Op::Reload => {
                        let (m, p, s) = t.clone().into_inner();
                        t = Tokenizer::new(m, p, s);
                    }
                }
                C06::check(&t, &base, &sp, &c.probes).map_err(|e| format!("after step {k}: {e}"))?;
            }
            // ids survive taking the tokenizer apart and reassembling it
            let (m, p, s) = t.clone().into_inner();
            C06::check(&Tokenizer::new(m, p, s), &base, &sp, &c.probes).map_err(|e| format!("reassembled: {e}"))?;
            // the prefix search agrees with the lookups at the end of the history
            let last = last_ids(&base);
            for p in &c.probes {
                let mut buf = vec![];
                let got: Vec<(u32, u32)> = t.model().common_prefix_search(&p.0, &mut buf).collect();
                let want: Vec<(u32, u32)> = (1..=p.0.len()).filter_map(|n| last.get(&p.0[..n]).map(|&i| (i, n as u32))).collect();
                if got != want {
                    return Err(format!("prefix search of {p:?}: {got:?}, expected {want:?}"));
                }
            }
            Ok(())
        };
        match step() {
            Ok(()) => Held(nb >= 2 && ns >= 2),
            Err(e) => Broken(e),
        }
    }
    fn shrink(c: &HistCase) -> Vec<HistCase> {
        let mut out: Vec<HistCase> = vec![];
        out.extend(shrink_vec(&c.ops).into_iter().map(|o| HistCase { ops: o, ..c.clone() }));
        out.extend(c.def.shrinks().into_iter().map(|d| HistCase { def: d, ..c.clone() }));
        out
    }
}

// ---------------------------------------------------------------------------------------------
#[derive(Clone, Serialize, Deserialize)]
pub struct TextCase {
    def: TokDef,
    text: String,
    repeat: usize,
    dropout: F,
}
impl TextCase {
    fn shrinks(&self) -> Vec<TextCase> {
        let mut out: Vec<TextCase> = vec![];
        if self.repeat > 1 {
            out.push(TextCase { repeat: 1, ..self.clone() });
        }
        out.extend(shrink_str(&self.text).into_iter().map(|t| TextCase { text: t, ..self.clone() }));
        out.extend(self.def.shrinks().into_iter().map(|d| TextCase { def: d, ..self.clone() }));
        out
    }
}
pub struct C07;
impl Prop for C07 {
    type Case = TextCase;
    const RULE: &'static str = "random special-token lists (nested, overlapping, empty, multi-byte, duplicate) and texts with complete and broken occurrences; compared with an independent char-based splitter; non-trivial: at least two special tokens and one ordinary stretch";
    fn gen(r: &mut Rng, i: u64) -> TextCase {
        let alpha = *r.pick(ALPHABETS);
        let wp = r.chance(0.3);
        let mut def = tokdef(r, alpha, wp, 0.7, true, true);
        if r.chance(0.3) {
            // specials that also occur as base tokens
            for s in def.special.clone() {
                if !s.is_empty() && r.chance(0.5) {
                    def.vocab.toks.push(Tok { v: B(s.into_bytes()), s: F(-0.5), k: false });
                }
            }
        }
        let sp = def.specials();
        let text = text_with_specials(r, alpha, &sp, 14);
        {
            let repeat = if i == 7 { 500 } else { long(r, text.len(), i == 8) };
            TextCase { def, text, repeat, dropout: F(0.0) }
        }
    }
    fn run(c: &TextCase) -> Out {
        let (v, t) = c.def.build();
        let text = c.text.repeat(c.repeat);
        let sp = c.def.specials();
        let b = v.len() as u32;
        let parts = split(&text, &sp);
        let mut want: Result<Vec<u32>, ()> = Ok(vec![]);
        for (s, k) in &parts {
            match (k, &mut want) {
                (Some(k), Ok(w)) => w.push(b + *k as u32),
                (None, Ok(w)) => match t.encode_ordinary(s, 0.0) {
                    Ok(ids) => {
                        if check_lossless(&v, &ids, apply_all(&c.def.processors, s).as_bytes()).is_err() {
                            return Broken(format!("ordinary encoding of {s:?} is not a segmentation of it: {ids:?}"));
                        }
                        w.extend(ids)
                    }
                    Err(_) => want = Err(()),
                },
                _ => {}
            }
        }
        match (t.encode(&text, 0.0), want) {
            (Ok(g), Ok(w)) if g == w => {}
            (Err(_), Err(())) => {}
            (g, w) => return Broken(format!("encode gives {g:?}, expected {w:?} (parts {parts:?})")),
        }
        Held(parts.iter().filter(|p| p.1.is_some()).count() >= 2 && parts.iter().any(|p| p.1.is_none()))
    }
    fn shrink(c: &TextCase) -> Vec<TextCase> {
        c.shrinks()
    }
}

pub struct C09;
impl Prop for C09 {
    type Case = TextCase;
    const RULE: &'static str = "random processor lists and texts with CR, LF, combining and compatibility characters; preprocessing, its order, and identity postprocessing compared with an independent implementation; non-trivial: the text changed";
    fn gen(r: &mut Rng, i: u64) -> TextCase {
        const CH: &[&str] = &["a", "\r", "\n", "\r\n", "\r\r\n", "\u{0d}", "e\u{301}", "é", "ﬁ", "Å", "\u{212b}", "가", "\u{1100}\u{1161}", "①", "ｱ", "\u{323}\u{307}", "s\u{307}\u{323}", "ẛ\u{323}", "你", " ", "½", "\u{2126}", "\u{0958}", "\u{1F71}"];
        let mut def = tokdef(r, CH, true, 1.0, false, false);
        if def.processors.is_empty() || r.chance(0.4) {
            let n = r.range(1, 3);
            def.processors = (0..n).map(|_| r.pick(PROCS).to_string()).collect();
        }
        if i < 5 {
            def.processors = vec![PROCS[i as usize].to_string()];
        }
        def.special.retain(|s| s.starts_with('<'));
        if i >= 5 && i < 5 + 0x1100 {
            // every character once, apart from its neighbours
            let text: String = (0..256).filter_map(|k| char::from_u32((i as u32 - 5) * 256 + k)).flat_map(|c| [c, 'x']).collect();
            def.processors = PROCS.iter().map(|p| p.to_string()).collect();
            return TextCase { def, text, repeat: 1, dropout: F(0.0) };
        }
        let text = text(r, CH, 10);
        TextCase { def, text, repeat: 1, dropout: F(0.0) }
    }
    fn run(c: &TextCase) -> Out {
        let (v, t) = c.def.build();
        let want = apply_all(&c.def.processors, &c.text);
        for p in &c.def.processors {
            let w = wrapper(p);
            let g = w.preprocess(&c.text);
            if g != apply(p, &c.text) {
                return Broken(format!("{p} turns {:?} into {g:?}, expected {:?}", c.text, apply(p, &c.text)));
            }
            if w.postprocess(&c.text) != c.text {
                return Broken(format!("{p} postprocessing changes {:?}", c.text));
            }
            let (d1, d2) = match &w {
                ProcessorWrapper::Crlf(x) => (x.preprocess(&c.text), x.postprocess(&c.text)),
                ProcessorWrapper::Unicode(x) => (x.preprocess(&c.text), x.postprocess(&c.text)),
            };
            if d1 != apply(p, &c.text) || d2 != c.text {
                return Broken(format!("{p} (direct) turns {:?} into {d1:?} / {d2:?}", c.text));
            }
        }
        let m = Model::from(v.clone());
        let (a, b) = (t.encode_ordinary(&c.text, 0.0), m.encode(&want, 0.0));
        match (&a, &b) {
            (Ok(x), Ok(y)) if x == y => {}
            (Err(_), Err(_)) => {}
            _ => return Broken(format!("encode_ordinary({:?}) = {a:?}, encoding the processed text {want:?} gives {b:?}", c.text)),
        }
        if let Ok(ids) = a {
            match t.decode(&ids, true) {
                Ok(s) if s == want => {}
                r => return Broken(format!("decoding gives {r:?}, expected the processed text {want:?}")),
            }
        }
        // through the special-token path as well
        let sp = c.def.specials();
        let parts = split(&c.text, &sp);
        let mut w: Option<Vec<u32>> = Some(vec![]);
        for (s, k) in &parts {
            match k {
                Some(k) => {
                    if let Some(w) = w.as_mut() {
                        w.push(v.len() as u32 + *k as u32)
                    }
                }
                None => match (m.encode(&apply_all(&c.def.processors, s), 0.0), w.as_mut()) {
                    (Ok(x), Some(w)) => w.extend(x),
                    (Err(_), _) => w = None,
                    _ => {}
                },
            }
        }
        let g = t.encode(&c.text, 0.0).ok();
        if g != w {
            return Broken(format!("encode({:?}) = {g:?}, expected {w:?}", c.text));
        }
        Held(want != c.text)
    }
    fn shrink(c: &TextCase) -> Vec<TextCase> {
        c.shrinks()
    }
}

// ---------------------------------------------------------------------------------------------
#[derive(Clone, Serialize, Deserialize)]
pub struct SaveCase {
    def: TokDef,
    text: String,
    /// a defect introduced into the saved form, which must be rejected
    damage: Option<String>,
}
/// serde_json (built without its float_roundtrip feature) may read a score back one unit in the
/// last place off; see known_findings. Only exactly that deviation is excused.
pub fn json_score(x: f64) -> f64 {
    serde_json::from_str::<f64>(&serde_json::to_string(&x).unwrap()).unwrap()
}
pub struct C08;
impl C08 {
    /// the score with these bits does not come back from a saved token
    pub fn known(bits: &str) -> bool {
        let x = f64::from_bits(u64::from_str_radix(bits.trim_start_matches("0x"), 16).unwrap());
        let t = ScoredToken::new(b"a".to_vec(), x, false);
        serde_json::from_str::<ScoredToken>(&serde_json::to_string(&t).unwrap()).map_or(true, |y| y.score.to_bits() != x.to_bits())
    }
    pub fn find_known() -> Option<(f64, String)> {
        (1..100000).map(|i| -(i as f64).ln()).find(|x| C08::known(&format!("{:x}", x.to_bits()))).map(|x| (x, format!("{:#x}", x.to_bits())))
    }
    fn same(a: &Tokenizer, v: &[ScoredToken], c: &SaveCase, how: &str) -> Result<(), String> {
        let w = a.model().vocab();
        if w.len() != v.len() {
            return Err(format!("{how}: {} tokens, expected {}", w.len(), v.len()));
        }
        for (i, (x, y)) in w.iter().zip(v).enumerate() {
            if x.value != y.value || x.keep != y.keep {
                return Err(format!("{how}: token {i} is {x:?}, expected {y:?}"));
            }
            if x.score.to_bits() != y.score.to_bits() && x.score.to_bits() != json_score(y.score).to_bits() {
                return Err(format!("{how}: score of token {i} is {:?}, expected {:?}", x.score, y.score));
            }
        }
        if a.special_tokens() != c.def.specials() {
            return Err(format!("{how}: special tokens {:?}, expected {:?}", a.special_tokens(), c.def.specials()));
        }
        let names: Vec<String> = a
            .processors()
            .iter()
            .map(|p| {
                match p {
                    ProcessorWrapper::Crlf(_) => "crlf",
                    ProcessorWrapper::Unicode(UnicodeProcessor::Nfc) => "nfc",
                    ProcessorWrapper::Unicode(UnicodeProcessor::Nfd) => "nfd",
                    ProcessorWrapper::Unicode(UnicodeProcessor::Nfkc) => "nfkc",
                    ProcessorWrapper::Unicode(UnicodeProcessor::Nfkd) => "nfkd",
                }
                .to_string()
            })
            .collect();
        if names != c.def.processors {
            return Err(format!("{how}: processors {names:?}, expected {:?}", c.def.processors));
        }
        Ok(())
    }
}
impl Prop for C08 {
    type Case = SaveCase;
    const RULE: &'static str = "random tokenizers (non-UTF-8 tokens, escapes, extreme finite scores, keep flags, specials needing JSON escapes) through to_string/from_str, save/from_file and single tokens; damaged documents must be rejected; non-trivial: a non-UTF-8 token or an escape or a damaged document";
    fn gen(r: &mut Rng, i: u64) -> SaveCase {
        let alpha = if r.chance(0.4) { ALPHABETS[9] } else { *r.pick(ALPHABETS) };
        let kind = *r.pick(&[0usize, 1, 3, 4]);
        let mut def = TokDef { vocab: vocab(r, alpha, kind, 0.3, true, true), processors: procs(r), special: specials(r, alpha) };
        if i < 5 {
            def.processors = vec![PROCS[i as usize].to_string()];
        }
        for t in def.vocab.toks.iter_mut() {
            if r.chance(0.3) {
                t.k = !t.k;
            }
        }
        const D: &[&str] = &["no-version", "version", "version-type", "field", "tok-field", "no-value", "no-score", "bad-base64", "cut", "processor"];
        let damage = if r.chance(0.4) { Some(r.pick(D).to_string()) } else { None };
        if damage.is_some() && def.vocab.toks.is_empty() {
            def.vocab.toks.push(Tok { v: B(b"zz".to_vec()), s: F(-1.0), k: false });
        }
        SaveCase { def, text: text(r, alpha, 10), damage }
    }
    fn run(c: &SaveCase) -> Out {
        let (v, t) = c.def.build();
        let js = t.to_string();
        if let Some(d) = &c.damage {
            let mut j: Value = serde_json::from_str(&js).unwrap();
            let last = j["vocab"].as_array().map_or(0, |a| a.len()) - 1;
            let text = match d.as_str() {
                "no-version" => {
                    j.as_object_mut().unwrap().remove("version");
                    j.to_string()
                }
                "version" => {
                    j["version"] = json!(["1.0", "2", "2.0 ", "", "2.1", "3.0", "20"][c.text.len() % 7]);
                    j.to_string()
                }
                "version-type" => {
                    j["version"] = json!(2.0);
                    j.to_string()
                }
                "field" => {
                    j["unknown"] = json!([1]);
                    j.to_string()
                }
                "tok-field" => {
                    j["vocab"][last]["extra"] = json!(1);
                    j.to_string()
                }
                "no-value" => {
                    j["vocab"][last].as_object_mut().unwrap().remove("value");
                    j.to_string()
                }
                "no-score" => {
                    j["vocab"][last].as_object_mut().unwrap().remove("score");
                    j.to_string()
                }
                "bad-base64" => {
                    j["vocab"][last]["encoded"] = json!(true);
                    j["vocab"][last]["value"] = json!(["a", "a==", "*", "YQ==", "YQ=", "YR"][c.text.len() % 6]);
                    j.to_string()
                }
                "processor" => {
                    j["processors"] = [json!([{"type": "unicode", "form": "nfx"}]), json!([{"type": "unicode"}]), json!([{"type": "other"}])][c.text.len() % 3].clone();
                    j.to_string()
                }
                _ => {
                    let mut s = js.clone();
                    s.pop();
                    s
                }
            };
            return match Tokenizer::from_str(&text) {
                Ok(_) => Broken(format!("damaged document ({d}) accepted: {text}")),
                Err(_) => Held(true),
            };
        }
        match Tokenizer::from_str(&js) {
            Ok(u) => {
                if let Err(e) = C08::same(&u, &v, c, "from_str(to_string)") {
                    return Broken(e);
                }
                let (a, b) = (t.encode(&c.text, 0.0), u.encode(&c.text, 0.0));
                let exact = v.iter().all(|x| json_score(x.score) == x.score);
                if exact && a.as_ref().ok() != b.as_ref().ok() {
                    return Broken(format!("loaded tokenizer encodes {:?} to {b:?}, original {a:?}", c.text));
                }
                let all: Vec<u32> = (0..t.vocab_size() as u32).collect();
                if t.decode(&all, true).ok() != u.decode(&all, true).ok() {
                    return Broken("loaded tokenizer decodes differently".into());
                }
            }
            Err(e) => return Broken(format!("loading {js} fails: {e}")),
        }
        let sc = Scratch::new();
        let p = sc.path("t.json");
        if let Err(e) = t.save(&p) {
            return Broken(format!("save fails: {e}"));
        }
        match Tokenizer::from_file(&p) {
            Ok(u) => {
                if let Err(e) = C08::same(&u, &v, c, "from_file(save)") {
                    return Broken(e);
                }
            }
            Err(e) => return Broken(format!("from_file(save) fails: {e}")),
        }
        for x in v.iter().rev().take(20) {
            let s = serde_json::to_string(x).unwrap();
            match serde_json::from_str::<ScoredToken>(&s) {
                Ok(y) if y.value == x.value && y.keep == x.keep && (y.score.to_bits() == x.score.to_bits() || y.score.to_bits() == json_score(x.score).to_bits()) => {}
                y => return Broken(format!("token {x:?} saved as {s} loads as {y:?}")),
            }
        }
        Held(v.iter().any(|x| std::str::from_utf8(&x.value).is_err()) || c.def.special.iter().any(|s| s.contains(['"', '\\', '\n', '\0'])))
    }
    fn shrink(c: &SaveCase) -> Vec<SaveCase> {
        let mut out: Vec<SaveCase> = c.def.shrinks().into_iter().map(|d| SaveCase { def: d, ..c.clone() }).collect();
        if c.damage.is_none() {
            out.extend(shrink_str(&c.text).into_iter().map(|t| SaveCase { text: t, ..c.clone() }));
        }
        out
    }
}

// ---------------------------------------------------------------------------------------------
#[derive(Clone, Serialize, Deserialize)]
pub struct BatchCase {
    def: TokDef,
    texts: Vec<String>,
    ids: Vec<Vec<u32>>,
    include: bool,
    /// how often the first text and the first ids are repeated
    #[serde(default = "once")]
    repeat: usize,
}
/// a text that differs little from the given one, or not at all
fn near(r: &mut Rng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    if c.is_empty() || r.chance(0.2) {
        return s.to_string();
    }
    let i = r.below(c.len());
    match r.below(4) {
        0 => {
            c.remove(i);
        }
        1 => c.insert(i, c[i]),
        _ => {
            let k = *r.pick(&[1u32, 0x20, 0x80, 0x100, 0x10000, 0x10000, 0x20000, 0x100000]);
            if let Some(x) = char::from_u32(c[i] as u32 ^ k) {
                c[i] = x;
            }
        }
    }
    c.into_iter().collect()
}
pub struct C16;
impl Prop for C16 {
    type Case = BatchCase;
    const RULE: &'static str = "random tokenizers and batches of 0 to 300 texts / id lists, some failing; compared with the individual operations; non-trivial: at least two different successful results";
    fn threads() -> usize {
        4
    }
    fn gen(r: &mut Rng, i: u64) -> BatchCase {
        let alpha = *r.pick(ALPHABETS);
        let def = tokdef(r, alpha, true, 0.7, true, true);
        let sp = def.specials();
        let n = match r.below(6) {
            0 => r.range(0, 1),
            1..=4 => r.range(2, 12),
            _ => r.range(30, 300),
        };
        let n = r.hint(0.1, 2000).unwrap_or(n);
        let mut texts: Vec<String> = vec![];
        for _ in 0..n {
            let t = match texts.last() {
                // like the text before it
                Some(p) if r.chance(0.2) => near(r, p),
                _ => text_with_specials(r, alpha, &sp, 8),
            };
            texts.push(t);
        }
        let lim = def.vocab.build().len() + sp.len();
        let bad = r.chance(0.2);
        let ids = (0..n)
            .map(|_| {
                let k = r.range(0, 5);
                (0..k).map(|_| r.below(lim + if bad || lim == 0 { 1 } else { 0 }) as u32).collect()
            })
            .collect();
        let ids: Vec<Vec<u32>> = ids;
        let mut def = def;
        let repeat = long(r, texts.first().map_or(1, |t| t.len()), (3..8).contains(&i));
        if let (true, Some(t)) = (repeat > 1, texts.first()) {
            // tokens that lie across wherever the text might be cut
            if r.chance(0.7) {
                def.special.clear();
            }
            if !t.is_empty() {
                def.vocab.toks.push(Tok { v: B(t.clone().into_bytes()), s: F(-0.5), k: false });
            }
        }
        BatchCase { def, texts, ids, include: r.chance(0.5), repeat }
    }
    fn run(c: &BatchCase) -> Out {
        let long;
        let c = if c.repeat > 1 {
            let mut d = c.clone();
            if let Some(t) = d.texts.first_mut() {
                *t = t.repeat(c.repeat);
            }
            if let Some(t) = d.ids.first_mut() {
                *t = t.repeat(c.repeat);
            }
            long = d;
            &long
        } else {
            c
        };
        let (_, t) = c.def.build();
        let mut nt = false;
        let one: Vec<Option<Vec<u32>>> = c.texts.iter().map(|s| t.encode(s, 0.0).ok()).collect();
        let two: Vec<Option<Vec<u32>>> = c.texts.iter().map(|s| t.encode_ordinary(s, 0.0).ok()).collect();
        for (name, one, got) in [
            ("encode_batch", one, t.encode_batch(c.texts.clone(), 0.0).ok()),
            ("encode_ordinary_batch", two, t.encode_ordinary_batch(c.texts.clone(), 0.0).ok()),
        ] {
            let want: Option<Vec<Vec<u32>>> = one.iter().cloned().collect();
            if got != want {
                return Broken(format!("{name} gives {got:?}, individually {want:?}"));
            }
            nt |= want.map_or(false, |w| w.iter().any(|x| *x != w[0]));
        }
        let want: Option<Vec<String>> = c.ids.iter().map(|i| t.decode(i, c.include).ok()).collect();
        let got = t.decode_batch(c.ids.clone(), c.include).ok();
        if got != want {
            return Broken(format!("decode_batch gives {got:?}, individually {want:?}"));
        }
        // an id sequence decodes in a batch as the specification says, too
        Held(nt)
    }
    fn shrink(c: &BatchCase) -> Vec<BatchCase> {
        let mut out: Vec<BatchCase> = vec![];
        if c.repeat > 1 {
            out.push(BatchCase { repeat: c.repeat / 2, ..c.clone() });
            out.push(BatchCase { repeat: c.repeat - 1, ..c.clone() });
        }
        out.extend(shrink_vec(&c.texts).into_iter().map(|o| BatchCase { texts: o, ..c.clone() }));
        out.extend(shrink_vec(&c.ids).into_iter().map(|o| BatchCase { ids: o, ..c.clone() }));
        out.extend(c.def.shrinks().into_iter().map(|d| BatchCase { def: d, ..c.clone() }));
        out
    }
}
