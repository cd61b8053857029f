use super::gen::*;
use super::p_tok::{apply_all, tokdef, TokDef, PROCS};
use super::p_train::*;
use super::util::*;
use super::*;
use ::regex::Regex;
use serde::{Deserialize, Serialize};
use tokengeex::{Model, ScoredToken, Tokenizer};

// ---------------------------------------------------------------------------------------------
#[derive(Clone, Serialize, Deserialize)]
pub struct Src {
    name: String,
    data: B,
    proportion: Option<String>,
}
#[derive(Clone, Serialize, Deserialize)]
pub struct SrcCase {
    sources: Vec<Src>,
    processors: Vec<String>,
    /// malformed source strings; {} stands for a readable file
    bad: Option<String>,
}
pub struct C17;
impl C17 {
    fn expected(c: &SrcCase) -> Option<Vec<(String, Vec<String>)>> {
        let mut out = vec![];
        for s in &c.sources {
            let mut samples = vec![];
            for p in s.data.0.split(|b| *b == 0) {
                let t = String::from_utf8(p.to_vec()).ok()?;
                if !t.is_empty() {
                    samples.push(t);
                }
            }
            let take = match &s.proportion {
                None => samples.len(),
                Some(p) => {
                    let x: f64 = p.parse().ok()?;
                    ((samples.len() as f64 * x) as usize).min(samples.len())
                }
            };
            samples.truncate(take);
            let done = samples.iter().map(|s| apply_all(&c.processors, s)).filter(|s| !s.is_empty()).collect();
            out.push((s.name.clone(), done));
        }
        Some(out)
    }
}
impl Prop for C17 {
    type Case = SrcCase;
    const RULE: &'static str = "random source files (empty samples, trailing NULs, invalid UTF-8), proportions (0, 1, > 1, fractions, garbage), processors and malformed source strings; compared with an independent reader; non-trivial: at least two samples loaded, or an abort";
    fn threads() -> usize {
        4
    }
    fn gen(r: &mut Rng, _i: u64) -> SrcCase {
        let alpha = *r.pick(&[ALPHABETS[1], ALPHABETS[6], ALPHABETS[7]]);
        let ns = r.range(0, 3);
        let badutf = r.chance(0.1);
        let badprop = r.chance(0.1);
        let sources = (0..ns)
            .map(|k| {
                let n = if r.chance(0.3) { r.range(10, 60) } else { r.range(0, 9) };
                let mut d: Vec<u8> = vec![];
                for _ in 0..n {
                    if r.chance(0.15) {
                        d.push(0);
                    }
                    d.extend(text(r, alpha, 5).into_bytes());
                    if r.chance(0.9) {
                        d.push(0);
                    }
                }
                if badutf {
                    d.push(0xC3);
                }
                let proportion = match r.below(3) {
                    0 => None,
                    _ => Some(if badprop {
                        r.pick(&["x", "", "0,5", "50%"]).to_string()
                    } else {
                        match r.below(4) {
                            0 => format!("0.{}", r.range(1, 9)),
                            1 => format!("0.{:02}", r.range(1, 99)),
                            2 if n > 1 => format!("{}", r.range(1, n as u64 as usize) as f64 / n as f64),
                            _ => r.pick(&["0", "1", "1.0", "0.5", "0.25", "0.1", "0.9", "0.333", "0.99", "2", "1e0", "0.75", "1.5", ".5"]).to_string(),
                        }
                    }),
                };
                Src { name: format!("n{k}"), data: B(d), proportion }
            })
            .collect();
        let np = r.below(3);
        let processors = (0..np).map(|_| r.pick(PROCS).to_string()).collect();
        let bad = if r.chance(0.15) { Some(r.pick(&["nopath", "", "a:{}:1:2", "a:{}:0.5:", "a:{}missing"]).to_string()) } else { None };
        SrcCase { sources, processors, bad }
    }
    fn run(c: &SrcCase) -> Out {
        let sc = Scratch::new();
        let mut specs: Vec<String> = vec![];
        for (i, s) in c.sources.iter().enumerate() {
            let p = sc.file(&format!("s{i}.bin"), &s.data.0);
            specs.push(match &s.proportion {
                None => format!("{}:{}", s.name, p),
                Some(x) => format!("{}:{}:{}", s.name, p, x),
            });
        }
        if let Some(b) = &c.bad {
            let p = sc.file("bad.bin", b"ok\0");
            specs.push(b.replace("{}", &p));
        }
        let ps = match guarded(|| crate::load_processors(&c.processors)) {
            Ok(p) => p,
            Err(e) => return Broken(format!("load_processors panics: {e}")),
        };
        let got = guarded(|| crate::load_sources(&specs, &ps, "train"));
        let want = if c.bad.is_some() { None } else { C17::expected(c) };
        match (got, want) {
            (Ok(g), Some(w)) => {
                let g: Vec<(String, Vec<String>)> = g.into_iter().map(|s| (s.name, s.processed_samples)).collect();
                if g != w {
                    return Broken(format!("loaded {g:?}, expected {w:?} from {:?}", c.sources.iter().map(|s| &s.proportion).collect::<Vec<_>>()));
                }
                Held(w.iter().map(|x| x.1.len()).sum::<usize>() >= 2)
            }
            (Err(_), None) => Held(true),
            (Ok(g), None) => Broken(format!("malformed source accepted: {specs:?} gives {:?}", g.into_iter().map(|s| s.processed_samples).collect::<Vec<_>>())),
            (Err(e), Some(_)) => Broken(format!("well-formed source {specs:?} aborts: {e}")),
        }
    }
    fn shrink(c: &SrcCase) -> Vec<SrcCase> {
        let mut out: Vec<SrcCase> = vec![];
        out.extend(shrink_vec(&c.sources).into_iter().map(|s| SrcCase { sources: s, ..c.clone() }));
        out.extend(shrink_vec(&c.processors).into_iter().map(|s| SrcCase { processors: s, ..c.clone() }));
        for (i, s) in c.sources.iter().enumerate() {
            for t in shrink_vec(&s.data.0) {
                let mut d = c.clone();
                d.sources[i].data = B(t);
                out.push(d);
            }
        }
        out
    }
}

// ---------------------------------------------------------------------------------------------
#[derive(Clone, Serialize, Deserialize)]
pub struct ReCase {
    patterns: Vec<String>,
    strings: Vec<String>,
}
pub struct C19;
const PIECES: &[&str] = &["a", "b", "[ab]", "a|b", "ab|a", "a+", "(?:ab)+", "b?a", "你", "a{1,2}", "[^a]", " a", "a ", "a|ab", "(?i)A", "\\.", "c|b|a", "[ab]+|c", ".", "abc|ab", "a(?:b|c)", "^a|b$", "^a$", "^ab|c", "^(?:a|b)$", "a|^b", "(?:a)|(?:b)", "[a|b]", "(a)|b", "\\|", "(?i:a)b|c"];
const NAMES: &[&str] = &["word", "lowercase-word", "space-word", "any-char", "indent", "newline-indent", "chinese-word", "short-number", "space-punct-space", "english-contraction", "space-operator-space", "capitalized-word", "repeated-punct", "no-such-name"];
impl Prop for C19 {
    type Case = ReCase;
    const RULE: &'static str = "random lists of patterns (top-level alternations, prefixes of each other, flags, named and unknown names) and strings; allow compared with whole-string matching of each part, mining with a leftmost-first simulation; non-trivial: some string accepted and some rejected";
    fn gen(r: &mut Rng, _i: u64) -> ReCase {
        let n = r.range(1, 4);
        let patterns = (0..n)
            .map(|_| match r.below(5) {
                // a predefined name, or something that only looks like one
                0 => {
                    let s = if r.chance(0.5) { r.pick(NAMES).to_string() } else { crate::PATTERNS[r.below(crate::PATTERNS.len())].0.to_string() };
                    match r.below(10) {
                        0 => s.to_uppercase(),
                        1 => s[..1].to_uppercase() + &s[1..],
                        2 => s.replace('-', "_"),
                        3 => s[..s.len() - 1].to_string(),
                        4 => s + r.pick(&[" ", "s", "+", "\n"]),
                        5 => r.pick(&[" ", "a", "(?i)"]).to_string() + &s,
                        _ => s,
                    }
                }
                1 => format!("{}{}", r.pick(PIECES), r.pick(PIECES)),
                _ if r.chance(0.04) => String::new(),
                _ => r.pick(PIECES).to_string(),
            })
            .collect();
        let alpha: &[&str] = &["a", "b", "c", "A", " ", "你", "\n", ".", "1", "a", "b"];
        let strings = (0..12).map(|_| text(r, alpha, 5)).collect();
        ReCase { patterns, strings }
    }
    fn run(c: &ReCase) -> Out {
        let parts: Vec<Regex> = c
            .patterns
            .iter()
            .map(|p| {
                crate::PATTERNS.iter().find(|x| x.0 == p).map(|x| (x.1)()).unwrap_or_else(|| Regex::new(p).unwrap())
            })
            .collect();
        let loaded = crate::load_patterns(&c.patterns);
        let (a, b): (Vec<&str>, Vec<&str>) = (parts.iter().map(|r| r.as_str()).collect(), loaded.iter().map(|r| r.as_str()).collect());
        if a != b {
            return Broken(format!("patterns {:?} loaded as {b:?}, expected {a:?}", c.patterns));
        }
        let allow = crate::build_allow_regex(loaded.clone());
        let mine = crate::build_mine_regex(loaded);
        let whole: Vec<Regex> = parts.iter().map(|p| Regex::new(&format!("\\A(?:{})\\z", p.as_str())).unwrap()).collect();
        let here: Vec<Regex> = parts.iter().map(|p| Regex::new(&format!("\\A(?:{})", p.as_str())).unwrap()).collect();
        // saved and loaded the way the commands do it
        let sc = Scratch::new();
        let f = sc.path("re");
        crate::regex_cmd(&Some(f.clone()), &c.patterns);
        let reread = crate::load_regex(&f);
        let raw = std::fs::read_to_string(&f).unwrap();
        let (mut yes, mut no) = (false, false);
        for s in &c.strings {
            let w = whole.iter().any(|r| r.is_match(s));
            if allow.is_match(s) != w {
                return Broken(format!("allow pattern of {:?} {} {s:?}", c.patterns, if w { "rejects" } else { "accepts" }));
            }
            // the file form loses line breaks inside the pattern (load_regex strips them)
            if !raw.contains(['\n', '\r']) && reread.is_match(s) != w {
                return Broken(format!("saved allow pattern of {:?} {} {s:?}", c.patterns, if w { "rejects" } else { "accepts" }));
            }
            yes |= w;
            no |= !w;
            // the simulation below restarts at each position, which anchors would notice
            if parts.iter().any(|p| p.is_match("") || p.as_str().replace("[^", "").contains(['^', '$'])) {
                continue;
            }
            let mut want = vec![];
            let mut at = 0;
            while at < s.len() {
                match here.iter().find_map(|r| r.find(&s[at..])) {
                    Some(m) => {
                        want.push(m.as_str());
                        at += m.end();
                    }
                    None => at += s[at..].chars().next().unwrap().len_utf8(),
                }
            }
            let got: Vec<&str> = mine.find_iter(s).map(|m| m.as_str()).collect();
            if got != want {
                return Broken(format!("mining pattern of {:?} finds {got:?} in {s:?}, expected {want:?}", c.patterns));
            }
        }
        Held(yes && no)
    }
    fn shrink(c: &ReCase) -> Vec<ReCase> {
        let mut out: Vec<ReCase> = vec![];
        out.extend(shrink_vec(&c.strings).into_iter().map(|s| ReCase { strings: s, ..c.clone() }));
        out.extend(shrink_vec(&c.patterns).into_iter().filter(|p| !p.is_empty()).map(|s| ReCase { patterns: s, ..c.clone() }));
        out
    }
}

// ---------------------------------------------------------------------------------------------
#[derive(Clone, Serialize, Deserialize)]
pub enum Cmd {
    Filter(FilterCase),
    Merge(MergeCase),
    Prune(PruneCase),
    Generate(GenCase),
    Mine(MineCase),
}
#[derive(Clone, Serialize, Deserialize)]
pub struct CmdCase {
    processors: Vec<String>,
    special: Vec<String>,
    cmd: Cmd,
    /// through the real command line in a process of its own
    process: bool,
}
pub struct C20;
impl C20 {
    fn train(sc: &Scratch, name: &str, samples: &[String]) -> String {
        let mut d = vec![];
        for s in samples {
            d.extend_from_slice(s.as_bytes());
            d.push(0);
        }
        format!("{name}:{}", sc.file(&format!("{name}.bin"), &d))
    }
    fn cli(args: &[String]) -> Result<(), String> {
        let exe = std::env::current_exe().map_err(|e| e.to_string())?;
        let mut ch = std::process::Command::new(exe)
            .args(args)
            .env("HARNESS_CLI", "1")
            .env_remove("RUST_LOG")
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::piped())
            .spawn()
            .map_err(|e| e.to_string())?;
        let t0 = std::time::Instant::now();
        loop {
            match ch.try_wait().map_err(|e| e.to_string())? {
                Some(st) if st.success() => return Ok(()),
                Some(_) => {
                    let mut s = String::new();
                    use std::io::Read;
                    let _ = ch.stderr.take().unwrap().read_to_string(&mut s);
                    return Err(s);
                }
                None if t0.elapsed().as_secs() > 12 => {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    return Err("did not finish within 12 s".into());
                }
                None => std::thread::sleep(std::time::Duration::from_millis(3)),
            }
        }
    }
}
fn usable(samples: &[String]) -> Vec<String> {
    samples.iter().filter(|s| !s.is_empty() && !s.contains('\0')).cloned().collect()
}
impl Prop for C20 {
    type Case = CmdCase;
    const RULE: &'static str = "random input tokenizers and command parameters through the command functions and through the real command line in its own process; processors, special tokens and vocabulary of the written file compared; non-trivial: processors and special tokens present";
    fn threads() -> usize {
        6
    }
    fn gen(r: &mut Rng, i: u64) -> CmdCase {
        let d: TokDef = tokdef(r, ALPHABETS[3], true, 0.0, false, false);
        let mut processors = d.processors;
        if r.chance(0.5) {
            processors.push(r.pick(PROCS).to_string());
        }
        let mut special: Vec<String> = vec!["<|eos|>".into(), "<|pad|>".into()];
        special.extend(d.special.into_iter().filter(|s| s.trim() == *s && !s.is_empty() && !s.starts_with('-')));
        if r.chance(0.2) {
            special.clear();
        }
        let cmd = match r.below(5) {
            0 => Cmd::Filter(gen_filter(r, 9)),
            1 => Cmd::Merge(gen_merge(r, 9)),
            2 => Cmd::Prune(gen_prune(r, 9)),
            3 => Cmd::Generate(gen_gen(r, 9)),
            _ => Cmd::Mine(gen_mine(r, 9)),
        };
        let _ = i;
        CmdCase { processors, special, cmd, process: r.chance(0.5) }
    }
    fn run(c: &CmdCase) -> Out {
        let sc = Scratch::new();
        let (inp, outp) = (sc.path("in.json"), sc.path("out.json"));
        let ps = || c.processors.iter().map(|p| super::p_tok::wrapper(p)).collect::<Vec<_>>();
        let mut special: Vec<String> = vec![];
        for s in &c.special {
            if !special.contains(s) {
                special.push(s.clone());
            }
        }
        // scores as the file format gives them back
        let canon = |v: &mut Vec<ScoredToken>| {
            v.retain(|t| t.score.is_finite());
            for t in v.iter_mut() {
                t.score = super::p_tok::json_score(t.score);
                // and gives them back unchanged from then on
                if super::p_tok::json_score(t.score) != t.score {
                    t.score = -2.0;
                }
            }
        };
        let a = |s: &str| s.to_string();
        let check_rest = |t: &Tokenizer| -> Result<(), String> {
            let j = serde_json::to_value(t.processors()).unwrap();
            let w = serde_json::to_value(ps()).unwrap();
            if j != w {
                return Err(format!("processors written {j}, expected {w}"));
            }
            if t.special_tokens() != special {
                return Err(format!("special tokens written {:?}, expected {special:?}", t.special_tokens()));
            }
            Ok(())
        };
        let same = |v: &[ScoredToken], w: &[ScoredToken]| {
            v.len() == w.len() && v.iter().zip(w).all(|(x, y)| x.value == y.value && x.keep == y.keep && super::p_tok::json_score(x.score) == y.score)
        };
        let processed = |s: &[String]| usable(s).iter().map(|s| apply_all(&c.processors, s)).filter(|s| !s.is_empty()).collect::<Vec<_>>();
        let res: Result<bool, String> = (|| {
            match &c.cmd {
                Cmd::Filter(f) => {
                    let mut v = f.vocab.build();
                    canon(&mut v);
                    Tokenizer::new(Model::from(v.clone()), ps(), c.special.clone()).save(&inp).unwrap();
                    let min = f.min.filter(|m| m.0.is_finite());
                    if c.process {
                        let mut args = vec![a("filter"), a("--input"), inp.clone(), a("--output"), outp.clone()];
                        if f.size > 0 {
                            args.extend([a("--vocab-size"), f.size.to_string()]);
                        }
                        if let Some(m) = min {
                            if m.0 < 0.0 {
                                // the argument parser takes a leading minus for a flag
                                return Ok(false);
                            }
                            args.extend([a("--min-score"), format!("{:?}", m.0)]);
                        }
                        if f.force {
                            args.extend([a("--force"), a("true")]);
                        }
                        C20::cli(&args)?;
                    } else {
                        crate::filter_cmd(&inp, &outp, f.size, min.map(|x| x.0), f.force);
                    }
                    let t = Tokenizer::from_file(&outp).map_err(|e| e.to_string())?;
                    check_rest(&t)?;
                    check_filter(&v, t.model().vocab(), f.size, min.map(|x| x.0), f.force)?;
                }
                Cmd::Merge(m) => {
                    let mut m = m.clone();
                    m.samples = usable(&m.samples);
                    m.allow = format!("(?:{})", m.allow.replace('\n', "\\n").replace('\r', "\\r"));
                    let mut v = m.vocab.build();
                    if v.iter().filter(|t| t.value.len() == 1).count() < 256 {
                        return Ok(false);
                    }
                    canon(&mut v);
                    Tokenizer::new(Model::from(v.clone()), ps(), c.special.clone()).save(&inp).unwrap();
                    let tr = C20::train(&sc, "x", &m.samples);
                    let al = sc.file("allow", m.allow.as_bytes());
                    if c.process {
                        let mut args = vec![a("merge"), a("--input"), inp.clone(), a("--output"), outp.clone(), a("--train"), tr, a("--allow"), al];
                        args.extend([a("--num-merges"), m.merges.to_string(), a("--step"), m.step.to_string()]);
                        args.extend([a("--scale-factor"), format!("{:?}", m.scale.0), a("--max-token-length"), m.maxlen.to_string()]);
                        C20::cli(&args)?;
                    } else {
                        crate::merge_cmd(&inp, &outp, &[tr], &al, m.merges, m.step, m.scale.0, m.maxlen);
                    }
                    let t = Tokenizer::from_file(&outp).map_err(|e| e.to_string())?;
                    check_rest(&t)?;
                    // scores of merged tokens pass through the file format: compare up to rounding
                    let w = t.model().vocab();
                    if w.len() < v.len() || !same(&v, &w[..v.len()]) {
                        return Err("existing tokens changed".into());
                    }
                    if w.len() > v.len() + m.merges {
                        return Err("too many merges".into());
                    }
                    let re = Regex::new(&m.allow).unwrap();
                    let ss = processed(&m.samples);
                    let model = Model::from(w.to_vec());
                    let _ = (&ss, &model);
                    for x in &w[v.len()..] {
                        if x.value.len() > m.maxlen || !re.is_match(&String::from_utf8_lossy(&x.value)) || x.keep {
                            return Err(format!("merged token {x:?} is not allowed"));
                        }
                    }
                    // the algorithm run on its own gives the same number of merges and the same first token frequency class
                    let mut own = Model::from(v.clone());
                    let refs: Vec<&str> = ss.iter().map(|s| s.as_str()).collect();
                    if refs.len() <= 1 {
                        crate::ModelVocabularyMerger::new(re, m.merges, m.step, m.scale.0, m.maxlen).merge(&mut own, &refs);
                        if own.vocab_size() != w.len() {
                            return Err(format!("{} tokens written, the algorithm computes {}", w.len(), own.vocab_size()));
                        }
                    }
                }
                Cmd::Prune(p) => {
                    let mut p = p.clone();
                    p.samples = usable(&p.samples);
                    p.samples.truncate(1);
                    if p.samples.is_empty() || processed(&p.samples).is_empty() || p.vocab.bytes.is_none() {
                        return Ok(false);
                    }
                    let mut v = p.vocab.build();
                    canon(&mut v);
                    Tokenizer::new(Model::from(v.clone()), ps(), c.special.clone()).save(&inp).unwrap();
                    let tr = C20::train(&sc, "x", &p.samples);
                    let ss = processed(&p.samples);
                    let refs: Vec<&str> = ss.iter().map(|s| s.as_str()).collect();
                    let mut own = Model::from(v.clone());
                    let r = guarded(|| crate::ModelVocabularyPruner::new(p.size, p.shrink.0, p.sub, 0.0).prune(&mut own, &refs));
                    if !matches!(r, Ok(Ok(()))) {
                        return Ok(false);
                    }
                    if c.process {
                        let mut args = vec![a("prune"), a("--input"), inp.clone(), a("--output"), outp.clone(), a("--train"), tr, a("--vocab-size"), p.size.to_string()];
                        args.extend([a("--dropout"), a("0"), a("--shrink-factor"), format!("{:?}", p.shrink.0), a("--em-subiters"), p.sub.to_string()]);
                        C20::cli(&args)?;
                    } else {
                        crate::prune_cmd(&inp, &outp, p.size, &[tr], 0.0, p.shrink.0, p.sub);
                    }
                    let t = Tokenizer::from_file(&outp).map_err(|e| e.to_string())?;
                    check_rest(&t)?;
                    let b = |v: &[ScoredToken]| {
                        let mut x: Vec<(Vec<u8>, bool)> = v.iter().map(|t| (t.value.clone(), t.keep)).collect();
                        x.sort();
                        x
                    };
                    if b(own.vocab()) != b(t.model().vocab()) {
                        return Err(format!("{} tokens written, the algorithm computes {}", t.model().vocab_size(), own.vocab_size()));
                    }
                }
                Cmd::Generate(g) => {
                    let mut g = g.clone();
                    // the commands read patterns from files and trim them
                    for p in [&mut g.allow, &mut g.split] {
                        *p = p.as_ref().map(|p| format!("(?:{})", p.replace('\n', "\\n").replace('\r', "\\r")));
                    }
                    let mut args = vec![a("generate"), a("--output"), outp.clone(), a("--vocab-size"), g.size.to_string()];
                    let mut srcs = vec![];
                    for (k, f) in g.feeds.iter_mut().enumerate() {
                        *f = usable(f);
                        srcs.push(C20::train(&sc, &format!("f{k}"), f));
                        *f = f.iter().map(|s| apply_all(&c.processors, s)).filter(|s| !s.is_empty()).collect();
                    }
                    let opt = |name: &str, x: &Option<String>| x.as_ref().map(|p| sc.file(name, p.as_bytes()));
                    let (al, sp) = (opt("allow", &g.allow), opt("split", &g.split));
                    let list = |name: &str, x: &[String]| vec![sc.file(name, serde_json::to_string(x).unwrap().as_bytes())];
                    let (ad, su) = (list("added", &g.added), list("suggested", &g.suggested));
                    if c.process {
                        for s in &srcs {
                            args.extend([a("--train"), s.clone()]);
                        }
                        for s in &c.processors {
                            args.extend([a("--processor"), s.clone()]);
                        }
                        for s in &c.special {
                            args.extend([a("--special"), s.clone()]);
                        }
                        args.extend([a("--added"), ad[0].clone(), a("--suggested"), su[0].clone()]);
                        if let Some(x) = &al {
                            args.extend([a("--allow"), x.clone()]);
                        }
                        if let Some(x) = &sp {
                            args.extend([a("--split"), x.clone()]);
                        }
                        args.extend([a("--insert-probability"), format!("{:?}", g.prob.0), a("--max-token-length"), g.maxlen.to_string()]);
                        C20::cli(&args)?;
                    } else {
                        crate::generate_cmd(&outp, g.size, &srcs, &c.processors, &c.special, &su, &ad, sp, al, g.prob.0, g.maxlen);
                    }
                    let t = Tokenizer::from_file(&outp).map_err(|e| e.to_string())?;
                    check_rest(&t)?;
                    check_gen(&g, t.model().vocab())?;
                }
                Cmd::Mine(m) => {
                    let mut m = m.clone();
                    m.samples = usable(&m.samples);
                    let tr = C20::train(&sc, "x", &m.samples);
                    if c.process {
                        C20::cli(&[a("mine"), a("--num-idioms"), m.n.to_string(), a("--output"), outp.clone(), a("--train"), tr, a("--pattern"), m.pattern.clone()])?;
                    } else {
                        crate::mine_cmd(m.n, &outp, &[tr], &[m.pattern.clone()]);
                    }
                    let got: Vec<String> = serde_json::from_str(&std::fs::read_to_string(&outp).unwrap()).map_err(|e| e.to_string())?;
                    let re = Regex::new(&m.pattern).unwrap();
                    let counted: Vec<(String, usize)> = got
                        .iter()
                        .map(|g| (g.clone(), m.samples.iter().map(|s| re.find_iter(s).filter(|x| x.as_str() == g).count()).sum()))
                        .collect();
                    check_mine(&m, &counted)?;
                }
            }
            Ok(!c.processors.is_empty() && !special.is_empty())
        })();
        match res {
            Ok(nt) => Held(nt),
            Err(e) => Broken(e),
        }
    }
}
