PRE = '''use tokengeex::*;
#[allow(dead_code)] fn t(v: &[u8], s: f64) -> ScoredToken { ScoredToken::new(v.to_vec(), s, false) }
#[allow(dead_code)] fn k(v: &[u8], s: f64) -> ScoredToken { ScoredToken::new(v.to_vec(), s, true) }
#[allow(dead_code)] fn bytes() -> Vec<ScoredToken> { (0..=255u8).map(|b| t(&[b], -10.0)).collect() }
#[allow(dead_code)] fn none() -> Vec<ProcessorWrapper> { vec![] }
'''
PY = '''import json, os, subprocess, sys
B, T = sys.argv[1], sys.argv[2]
p = lambda n: os.path.join(T, n)
def tok(vocab, special=[], processors=[]):
    json.dump({"version": "2.0", "special_tokens": special, "processors": processors, "vocab": vocab}, open(p("in.json"), "w"))
def train(samples, name="train.bin"):
    open(p(name), "wb").write(b"\\0".join(s.encode() for s in samples))
def run(*a, ok=True, out="out.json"):
    r = subprocess.run([B] + list(a), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200)
    assert (r.returncode == 0) == ok, r.stderr[-500:]
    return json.load(open(p(out))) if ok else None
def v(o): return {t["value"]: t for t in o["vocab"] if not t.get("encoded")}
def by(): 
    import base64
    o = []
    for b in range(256):
        try: o.append({"value": bytes([b]).decode(), "score": -8.0, "keep": True})
        except UnicodeDecodeError: o.append({"value": base64.b64encode(bytes([b])).decode().rstrip("="), "score": -8.0, "encoded": True, "keep": True})
    return o
'''
PYB = '''#!/bin/bash
# calls the Python module that build.sh built; cwd is the repository
D="$(cd "$(dirname "$0")" && pwd)"
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
cp bindings/python/target/debug/libtokengeex.so "$T/tokengeex.so" || exit 3
cd "$T" && PYTHONPATH="$T" timeout 100 /usr/bin/python3 -B "$D/demo.py"
'''
SEEDS = [
 dict(id="C01-c", property="C01", edits=[("src/model.rs", '''        // For each position i in dp, we store the best tokenization of the
        // input sequence up to position i.
        let mut dp = vec![
            Node {
                id: 0,
                score: 0.0,
                start: None,
            };
            input.len() + 1
        ];
''', '''        // For each position i in dp, we store the best tokenization of the
        // input sequence up to position i. The table is kept between calls.
        thread_local! {
            static TABLE: std::cell::RefCell<Vec<Node>> = const { std::cell::RefCell::new(Vec::new()) };
        }
        let empty = Node {
            id: 0,
            score: 0.0,
            start: None,
        };
        let mut dp = TABLE.with(|t| t.take());
        dp.truncate(input.len() + 1);
        dp[..].iter_mut().skip(1).rev().skip(1).for_each(|n| *n = empty.clone());
        dp.resize(input.len() + 1, empty);
'''), ("src/model.rs", '''        // Reverse to maintain original order since we built it backwards.
''', '''        TABLE.with(|t| *t.borrow_mut() = dp);

        // Reverse to maintain original order since we built it backwards.
''')],
  needs="a text encoded on a thread that encoded a longer text with another model before", breaks="the last entry of the table left over from the longer text survives, so the ids belong to the other text or model",
  rs=PRE+'''fn main() {
    let mut v = bytes(); v.push(t(b"abc", -0.001)); v.push(t(b"xyz", -90.0));
    let m = Model::from(v);
    assert_eq!(m.encode("abcd", 0.0).unwrap(), vec![256, 100]);
    for s in ["abcdef", "xyz", "abcabc", "xyzx", "a", "ab", "yyy"] {
        let ids = m.encode(s, 0.0).unwrap();
        assert_eq!(m.decode(&ids).unwrap(), s);
        assert_eq!(ids, Model::from(m.vocab().to_vec()).encode(s, 0.0).unwrap());
        assert_eq!(std::thread::scope(|x| x.spawn(|| m.encode(s, 0.0).unwrap()).join().unwrap()), ids);
    }
}
'''),
 dict(id="C02-c", property="C02", edits=[("src/model.rs", '''        let mut buff = Vec::<u8>::with_capacity(256);
        let input = input.as_bytes();

        #[derive''', '''        let mut buff = Vec::<u8>::with_capacity(256);
        let input = input.as_bytes();

        // A long text that is a token of its own needs no search.
        if dropout <= 0.0 && input.len() >= 20 {
            if let Some(&id) = self.token_to_ids.get(input) {
                return Ok(vec![id]);
            }
        }

        #[derive''')],
  needs="a text of at least 20 bytes that is a token of its own and has a better segmentation", breaks="the token is returned although a segmentation scores higher",
  rs=PRE+'''fn main() {
    let w = vec![b'q'; 20]; let h = vec![b'q'; 10];
    let m = Model::from(vec![t(b"q", -1.0), t(&w, -9.0), t(&h, -2.0)]);
    assert_eq!(m.encode(&"q".repeat(20), 0.0).unwrap(), vec![2, 2]);
    assert_eq!(m.encode(&"q".repeat(21), 0.0).unwrap().len(), 3);
}
'''),
 dict(id="C03-c", property="C03", edits=[("src/model.rs", '''    pub fn encode(&self, input: &str, dropout: f64) -> Result<Vec<u32>> {
        let mut buff''', '''    pub fn encode(&self, input: &str, dropout: f64) -> Result<Vec<u32>> {
        // Very long texts are encoded piece by piece to bound the memory used.
        const MAX_PIECE: usize = 16_384;
        if input.len() > MAX_PIECE {
            let mut cut = MAX_PIECE;
            while !input.is_char_boundary(cut) {
                cut -= 1;
            }
            let mut ids = self.encode(&input[..cut], dropout)?;
            ids.extend(self.encode(&input[cut..], dropout)?);
            return Ok(ids);
        }

        let mut buff''')],
  needs="a text of more than 16,384 bytes that can only be segmented across a multiple of that length", breaks="encoding fails although the text can be segmented",
  rs=PRE+'''fn main() {
    let m = Model::from(vec![t(b"abc", -1.0), t(b"x", -1.0)]);
    for n in [1usize, 100, 5461, 5462, 6000, 20000] {
        assert_eq!(m.encode(&"abc".repeat(n), 0.0).map(|i| i.len()).unwrap_or(0), n);
    }
}
'''),
 dict(id="C04-c", property="C04", edits=[("src/model.rs", "        Ok(String::from_utf8_lossy(&res).into_owned())\n", '''        let text = String::from_utf8_lossy(&res);

        // A byte order mark is not part of the text.
        Ok(text.strip_prefix('\\u{feff}').unwrap_or(&text).to_string())
''')],
  needs="a run that begins with a byte order mark", breaks="the mark is dropped, so decoding does not give back the text",
  rs=PRE+'''fn main() {
    let m = Model::from((0..=255u8).map(|b| t(&[b], -1.0)).collect());
    let s = "\\u{feff}ab";
    assert_eq!(m.decode(&m.encode(s, 0.0).unwrap()).unwrap(), s);
}
'''),
 dict(id="C06-c", property="C06", edits=[("src/tokenizer.rs", '''        for token in tokens {
            if self.special_tokens_map.contains_key(token.as_ref()) {
                continue;
            }
''', '''        let start = self.special_tokens.len();

        for token in tokens {
            // The map is only filled below, so look at what came before.
            if self.special_tokens[..start].iter().any(|t| t == token.as_ref()) {
                continue;
            }
''')],
  needs="the same new special token twice in one call", breaks="it is registered twice, so later special tokens get other ids",
  rs=PRE+'''fn main() {
    let mut z = Tokenizer::new(Model::from(vec![t(b"a", -1.0)]), none(), vec!["<x>"]);
    z.add_special_tokens(vec!["<y>", "<x>", "<y>", "<z>"]);
    assert_eq!(z.special_tokens(), vec!["<x>", "<y>", "<z>"]);
    assert_eq!(z.special_token_to_id("<z>"), Some(3));
}
'''),
 dict(id="C07-c", property="C07", edits=[("src/tokenizer.rs", '''        let input = &self.input[self.cursor..];

        for (i, _) in input.char_indices() {
''', '''        let input = &self.input[self.cursor..];

        // Only a character some special token begins with can start one. Short
        // lists are not worth the set.
        let first: std::collections::HashSet<char> = if self.special_tokens.len() > 12 {
            self.special_tokens.iter().filter_map(|t| t.chars().last()).collect()
        } else {
            Default::default()
        };

        for (i, c) in input.char_indices() {
            if self.special_tokens.len() > 12 && !first.contains(&c) {
                continue;
            }

''')],
  needs="more than twelve special tokens, one of which begins with a character none of them ends with", breaks="that special token is not recognised",
  rs=PRE+'''fn main() {
    let sp: Vec<String> = (0..13).map(|i| format!("<{i}>")).collect();
    let z = Tokenizer::new(Model::from(bytes()), none(), sp);
    assert_eq!(z.encode("a<3>", 0.0).unwrap(), vec![97, 259]);
}
'''),
 dict(id="C09-c", property="C09", edits=[("src/processor.rs", '''        s.replace("\\r\\n", "\\n")
''', '''        // Work on pieces that stay in the cache.
        let mut out = String::with_capacity(s.len());
        let mut rest = s;
        while rest.len() > 4096 {
            let mut cut = 4096;
            while !rest.is_char_boundary(cut) {
                cut -= 1;
            }
            out.push_str(&rest[..cut].replace("\\r\\n", "\\n"));
            rest = &rest[cut..];
        }
        out.push_str(&rest.replace("\\r\\n", "\\n"));
        out
''')],
  needs="a text of more than 4,096 bytes with a CR LF across a multiple of that length", breaks="that CR LF is not replaced",
  rs=PRE+'''fn main() {
    for k in 4090..4100 {
        let s = format!("{}\\r\\n{}", "a".repeat(k), "b".repeat(10));
        assert_eq!(CrlfProcessor.preprocess(&s), s.replace("\\r\\n", "\\n"), "{k}");
    }
}
'''),
 dict(id="C10-c", property="C10", edits=[("src/lattice.rs", '''        // Return existing Vecs to the pool and borrow new ones as needed.
        for vec in self.begin_nodes.drain(..) {
            vec_pool.put(vec);
        }
        for vec in self.end_nodes.drain(..) {
            vec_pool.put(vec);
        }
''', '''        if self.begin_nodes.len() == sentence.len() + 1 {
            // The same length again: the Vecs can stay where they are.
            for pos in 0..sentence.len() {
                self.begin_nodes[pos].clear();
                self.end_nodes[pos].clear();
            }
            self.begin_nodes[sentence.len()].clear();
        } else {
            // Return existing Vecs to the pool and borrow new ones as needed.
            for vec in self.begin_nodes.drain(..) {
                vec_pool.put(vec);
            }
            for vec in self.end_nodes.drain(..) {
                vec_pool.put(vec);
            }
        }
''')],
  needs="a lattice set up for two sentences of the same length in a row", breaks="the last position still lists nodes of the first sentence",
  rs=PRE+'''fn main() {
    let mut v = bytes(); v.push(t(b"xyz", -1.0)); v.push(t(b"yz", -1.0));
    let m = Model::from(v);
    let mut p = VecPool::with_capacity(4, 2);
    let mut l = Lattice::default();
    for s in [&b"xyz"[..], b"abc", b"ab", b"cd"] {
        l.from(s, &mut p);
        m.populate_nodes(&mut l, 0.0);
        let mut f = Lattice::default();
        let mut q = VecPool::with_capacity(4, 2);
        f.from(s, &mut q);
        m.populate_nodes(&mut f, 0.0);
        assert_eq!(l.end_nodes, f.end_nodes);
        assert_eq!(l.begin_nodes, f.begin_nodes);
    }
}
'''),
 dict(id="C11-c", property="C11", edits=[("src/filter.rs", '''            if should_keep {
''', '''            if should_keep || removed.contains(&token.value) {
'''), ("src/filter.rs", '''                num_tokens_removed += 1;
''', '''                num_tokens_removed += 1;
                removed.insert(token.value.clone());
'''), ("src/filter.rs", '''        let mut num_tokens_removed = 0;
''', '''        let mut num_tokens_removed = 0;
        let mut removed = std::collections::HashSet::new();
''')],
  needs="a vocabulary in which a removable token occurs twice, both among the lowest scores", breaks="the second entry stays and a higher-scoring token goes in its place, or too few are removed",
  py=PY+'''V = [{"value": "aa", "score": -5.0}, {"value": "bb", "score": -3.0}, {"value": "aa", "score": -6.0}, {"value": "c", "score": -1.0}]
tok(V)
o = run("filter", "--input", p("in.json"), "--output", p("out.json"), "--vocab-size", "2", "--min-score", "-2.0")
assert [t["value"] for t in o["vocab"]] == ["c", "bb"], o
'''),
 dict(id="C15-c", property="C15", edits=[("src/mine.rs", '''            for sample in chunk {
''', '''            let mut last = "";
            for &sample in chunk {
                // Crawled data repeats whole files; one copy is enough.
                if sample.len() > 64 && sample == last {
                    continue;
                }
                last = sample;
''')],
  needs="two equal samples of more than 64 bytes next to each other in a chunk", breaks="the matches of the second are not counted",
  py=PY+'''s = " ".join("w%d" % (i % 7) for i in range(40))
train([s] * 4000 + ["zz " * 20000])
o = run("mine", "--num-idioms", "1", "--output", p("out.json"), "--train", "t:" + p("train.bin"), "--pattern", "[a-z0-9]+")
assert o[0][0] == "w", o
'''),
 dict(id="C16-b", property="C16", edits=[("src/tokenizer.rs", '''        inputs
            .into_par_iter()
            .map(|s| self.decode(s.as_ref(), include_special_tokens))
            .collect()
''', '''        let mut inputs: Vec<I::Item> = inputs.into_par_iter().collect();

        // Begin with the longest inputs of a large batch, for balance.
        let mut order: Vec<usize> = (0..inputs.len()).collect();
        if inputs.len() > 40 {
            order.sort_by_key(|&i| std::cmp::Reverse(inputs[i].as_ref().len()));
            let mut slots: Vec<Option<I::Item>> = inputs.into_iter().map(Some).collect();
            inputs = order.iter().map(|&i| slots[i].take().unwrap()).collect();
        }

        let mut texts = inputs
            .into_par_iter()
            .map(|s| self.decode(s.as_ref(), include_special_tokens))
            .collect::<Result<Vec<String>>>()?;

        // Back into the order of the inputs.
        Ok(order.iter().map(|&i| std::mem::take(&mut texts[i])).collect())
''')],
  needs="a batch of more than 40 inputs whose lengths are not in an order that is its own inverse", breaks="the texts come out in another order than the inputs",
  rs=PRE+'''fn main() {
    let z = Tokenizer::new(Model::from(bytes()), none(), Vec::<String>::new());
    for n in [0usize, 1, 5, 40, 41, 60, 100] {
        let ids: Vec<Vec<u32>> = (0..n).map(|i| vec![97; (i * 7 + 3) % 11]).collect();
        let got = z.decode_batch(ids.clone(), true).unwrap();
        let want: Vec<String> = ids.iter().map(|s| z.decode(s, true).unwrap()).collect();
        assert_eq!(got, want, "{n}");
    }
}
'''),
 dict(id="C17-c", property="C17", edits=[("src/cli.rs", '''            let file_contents = std::fs::read(filepath).unwrap_or_else(|e| {
                panic!("Failed to open/read {:?}: {:?}", filepath, e);
            });
''', '''            let mut file_contents = std::fs::read(filepath).unwrap_or_else(|e| {
                panic!("Failed to open/read {:?}: {:?}", filepath, e);
            });

            // Some tools end the file with a line break.
            if file_contents.len() > 1 && file_contents.ends_with(b"\\0\\n") {
                file_contents.pop();
            }
''')],
  needs="a file whose last sample is a single line feed", breaks="that sample is dropped, which also changes what a proportion selects",
  py=PY+'''train(["a", "b", "\\n"])
o = run("mine", "--num-idioms", "5", "--output", p("out.json"), "--train", "t:" + p("train.bin"), "--pattern", "[a-z]|\\\\n")
assert sorted(o) == ["\\n", "a", "b"], o
'''),
 dict(id="C19-c", property="C19", edits=[("src/regex.rs", '''            .map(|r| format!("^(?:{})$", r.as_str()))
            .collect::<Vec<String>>()
            .join("|"),
    )
    .unwrap()
}

pub fn build_mine''', '''            .map(|r| match r.as_str() {
                // Anchored already.
                s if s.starts_with('^') && s.ends_with('$') => s.to_string(),
                s => format!("^(?:{})$", s),
            })
            .collect::<Vec<String>>()
            .join("|"),
    )
    .unwrap()
}

pub fn build_mine''')],
  needs="a pattern with a top-level alternation that begins with ^ and ends with $", breaks="strings that only begin or end like one of its alternatives are accepted",
  py=PY+'''subprocess.run([B, "regex", "--output", p("re"), "--pattern", "^ab|cd$"], check=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
V = [{"value": c, "score": -1.0} for c in "abcdx"]
tok(V); train(["abx" * 5])
o = run("merge", "--input", p("in.json"), "--output", p("out.json"), "--allow", p("re"), "--num-merges", "3", "--step", "1", "--train", "t:" + p("train.bin"))
assert [t["value"] for t in o["vocab"]][5:] == ["ab"], o
'''),
 dict(id="C20-c", property="C20", edits=[("src/cli.rs", '''    vocab_filter.filter(&mut model);
''', '''    vocab_filter.filter(&mut model);

    // Of several Unicode forms in a row only the last one decides.
    let mut processors = processors;
    processors.reverse();
    processors.dedup_by(|a, b| {
        matches!(
            (a, b),
            (ProcessorWrapper::Unicode(_), ProcessorWrapper::Unicode(_))
        )
    });
    processors.reverse();
''')],
  needs="two Unicode processors in a row", breaks="filter writes only the last of them",
  py=PY+'''V = [{"value": "a", "score": -1.0}, {"value": "b", "score": -2.0}, {"value": "c", "score": -3.0}]
P = [{"type": "unicode", "form": "nfd"}, {"type": "unicode", "form": "nfkc"}, {"type": "crlf"}]
tok(V, ["<s>"], P)
o = run("filter", "--input", p("in.json"), "--output", p("out.json"), "--vocab-size", "2", "--min-score", "-2.0")
assert o["processors"] == P, o
assert o["special_tokens"] == ["<s>"], o
'''),
 dict(id="C21-c", property="C21", edits=[("src/lattice.rs", '''        if self.fx < other.fx {
            Ordering::Less
        } else {
            Ordering::Greater
        }
''', '''        // Of two equally good hypotheses the one that is further along comes first.
        if (self.fx - other.fx).abs() < 1e-7 {
            self.gx.partial_cmp(&other.gx).unwrap_or(Ordering::Equal).reverse()
        } else if self.fx < other.fx {
            Ordering::Less
        } else {
            Ordering::Greater
        }
''')],
  needs="segmentations whose total scores differ by less than 1e-7", breaks="a worse one comes before, or instead of, a better one",
  rs=PRE+'''fn main() {
    let m = Model::from(vec![t(b"a", -1.0), t(b"b", -1.0), t(b"c", -1.0), t(b"d", -1.0), t(b"ab", -2.0 + 1e-8), t(b"cd", -2.0 - 2e-8), t(b"bc", -2.0 - 1e-8), t(b"abc", -3.0 + 3e-8), t(b"bcd", -3.0 + 2e-8), t(b"abcd", -4.0 - 3e-8)]);
    let mut p = VecPool::with_capacity(4, 2);
    let mut l = Lattice::default();
    l.from(b"abcd", &mut p);
    m.populate_nodes(&mut l, 0.0);
    let all: Vec<f64> = l.nbest(100).iter().map(|x| x.iter().map(|n| n.score).sum()).collect();
    assert_eq!(all.len(), 8);
    assert!(all.windows(2).all(|w| w[0] >= w[1] - 1e-12), "{all:?}");
}
'''),
 dict(id="C22-c", property="C22", edits=[("bindings/python/src/lib.rs", '''        let mut buffer = Vec::with_capacity(256);

        let values''', '''        // Longer than any token of a vocabulary in use.
        let text = match text.char_indices().nth(256) {
            Some((end, _)) => &text[..end],
            None => text,
        };
        let mut buffer = Vec::with_capacity(256);

        let values''')],
  needs="a token of more than 256 characters that begins the text", breaks="the Python prefix search does not find it",
  sh=PYB, py='''import json, tokengeex
d = json.dumps({"version": "2.0", "special_tokens": [], "processors": [], "vocab": [{"value": "a", "score": -1.0}, {"value": "a" * 300, "score": -1.0}]})
t = tokengeex.Tokenizer.from_str(d)
assert t.common_prefix_search("a" * 400) == [0, 1]
'''),
]
