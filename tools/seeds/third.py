PRE = '''use tokengeex::*;
#[allow(dead_code)] fn t(v: &[u8], s: f64) -> ScoredToken { ScoredToken::new(v.to_vec(), s, false) }
#[allow(dead_code)] fn k(v: &[u8], s: f64) -> ScoredToken { ScoredToken::new(v.to_vec(), s, true) }
#[allow(dead_code)] fn bytes() -> Vec<ScoredToken> { (0..=255u8).map(|b| t(&[b], -10.0)).collect() }
#[allow(dead_code)] fn none() -> Vec<ProcessorWrapper> { vec![] }
'''
PY = '''import json, os, subprocess, sys
B, T = sys.argv[1], sys.argv[2]
p = lambda n: os.path.join(T, n)
def tok(vocab, special=[], processors=[]):
    json.dump({"version": "2.0", "special_tokens": special, "processors": processors, "vocab": vocab}, open(p("in.json"), "w"))
def train(samples, name="train.bin"):
    open(p(name), "wb").write(b"\\0".join(s.encode() for s in samples))
def run(*a, ok=True, out="out.json"):
    r = subprocess.run([B] + list(a), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200)
    assert (r.returncode == 0) == ok, r.stderr[-500:]
    return json.load(open(p(out))) if ok else None
def v(o): return {t["value"]: t for t in o["vocab"] if not t.get("encoded")}
def by(): 
    import base64
    o = []
    for b in range(256):
        try: o.append({"value": bytes([b]).decode(), "score": -8.0, "keep": True})
        except UnicodeDecodeError: o.append({"value": base64.b64encode(bytes([b])).decode().rstrip("="), "score": -8.0, "encoded": True, "keep": True})
    return o
'''
PYB = '''#!/bin/bash
# calls the Python module that build.sh built; cwd is the repository
D="$(cd "$(dirname "$0")" && pwd)"
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
cp bindings/python/target/debug/libtokengeex.so "$T/tokengeex.so" || exit 3
cd "$T" && PYTHONPATH="$T" timeout 100 /usr/bin/python3 -B "$D/demo.py"
'''
SEEDS = [
 dict(id="C01-b", property="C01", edits=[("src/model.rs", "            trie.push(&token.value, (id as u32, token.len() as u32));", "            trie.push(&token.value, (id as u32, token.len() as u8 as u32));")],
  needs="a token of more than 255 bytes that the text contains", breaks="its length is taken modulo 256, so the ids do not spell the text",
  rs=PRE+'''fn main() {
    let long = vec![b'x'; 300];
    let mut v = bytes(); v.push(t(&long, -1.0));
    let m = Model::from(v);
    let text = format!("a{}b", "x".repeat(300));
    let ids = m.encode(&text, 0.0).unwrap();
    assert_eq!(m.decode(&ids).unwrap(), text);
}
'''),
 dict(id="C02-b", property="C02", edits=[("src/model.rs", "                .common_prefix_search(suffix.iter().copied(), &mut buff)\n            {\n                let len = len as usize;", "                .common_prefix_search(suffix.iter().copied(), &mut buff)\n                .take(24)\n            {\n                let len = len as usize;")],
  needs="more than 24 vocabulary tokens that are prefixes of the text at one position", breaks="the longest of them are not considered, so a better segmentation is missed",
  rs=PRE+'''fn main() {
    let mut v: Vec<ScoredToken> = (1..=40).map(|n| t(&vec![b'a'; n], -5.0)).collect();
    v.push(t(b"b", -1.0));
    let m = Model::from(v);
    assert_eq!(m.encode(&format!("{}b", "a".repeat(40)), 0.0).unwrap(), vec![39, 40]);
}
'''),
 dict(id="C03-b", property="C03", edits=[
  ("src/model.rs", "    trie: Trie<(TokenID, u32)>,\n}", "    trie: Trie<(TokenID, u32)>,\n    max_token_len: usize,\n}"),
  ("src/model.rs", "        Self {\n            vocab,\n            token_to_ids,\n            trie,\n        }", "        let max_token_len = vocab.iter().map(|token| token.len()).max().unwrap_or(0);\n\n        Self {\n            vocab,\n            token_to_ids,\n            trie,\n            max_token_len,\n        }"),
  ("src/model.rs", "        dp[0].start = Some(0);\n", "        dp[0].start = Some(0);\n        let mut last_reachable = 0;\n"),
  ("src/model.rs", "            if dp[pos].start.is_none() {\n                continue;\n            }\n", "            if dp[pos].start.is_none() {\n                // No token is long enough to bridge the gap.\n                if pos - last_reachable >= self.max_token_len {\n                    break;\n                }\n                continue;\n            }\n            last_reachable = pos;\n"),
 ],
  needs="a token longer than any other added after the model was built", breaks="texts that need the added token cannot be encoded",
  rs=PRE+'''fn main() {
    let mut m = Model::from(vec![t(b"a", -1.0), t(b"b", -1.0)]);
    m.add_tokens([t(b"xyz", -1.0)]);
    assert_eq!(m.encode("axyzb", 0.0).unwrap(), vec![0, 2, 1]);
    assert!(m.encode("axyb", 0.0).is_err());
}
'''),
 dict(id="C04-b", property="C04", edits=[("src/tokenizer.rs", "        let mut input = input;\n        let mut output = String::new();\n", "        let base_ids: Vec<TokenID>;\n        let mut input = input;\n        let mut output = String::new();\n\n        // Special tokens that are not part of the output can be skipped up front.\n        if !include_special_tokens {\n            if let Some(&id) = input.iter().find(|&&id| id as usize >= self.vocab_size()) {\n                return Err(Error::TokenIdOutOfBounds(id));\n            }\n            base_ids = input.iter().copied().filter(|&id| self.is_base(id)).collect();\n            input = &base_ids;\n        }\n")],
  needs="the bytes of one character on both sides of a special token, decoded without special tokens", breaks="the runs are joined before the conversion to UTF-8 instead of being converted separately",
  rs=PRE+'''fn main() {
    let m = Tokenizer::new(Model::from(bytes()), none(), ["<s>"]);
    assert_eq!(m.decode(&[0xc3, 0xa9], false).unwrap(), "\\u{e9}");
    assert_eq!(m.decode(&[0xc3, 256, 0xa9], false).unwrap(), "\\u{fffd}\\u{fffd}");
}
'''),
 dict(id="C05-b", property="C05", edits=[("src/trie.rs", "        for b in element.iter() {", "        for b in element.iter().take(256) {")],
  needs="a key of more than 256 bytes", breaks="it is found as a prefix of strings that only share its first 256 bytes, and shares its entry with other long keys",
  rs=PRE+'''fn main() {
    let mut tr: Trie<u32> = Trie::default();
    let key = vec![7u8; 300];
    tr.push(&key, 1);
    tr.push(&key[..10], 2);
    let mut b = vec![];
    assert_eq!(tr.common_prefix_search(key.iter().copied(), &mut b).collect::<Vec<_>>(), vec![2, 1]);
    let short = vec![7u8; 270];
    let mut b = vec![];
    assert_eq!(tr.common_prefix_search(short.iter().copied(), &mut b).collect::<Vec<_>>(), vec![2]);
}
'''),
 dict(id="C06-b", property="C06", edits=[("src/model.rs", "            self.token_to_ids.insert(token.value.clone(), id);\n            self.vocab.push(token);", "            self.token_to_ids.entry(token.value.clone()).or_insert(id);\n            self.vocab.push(token);")],
  needs="adding a base token whose bytes the vocabulary already has", breaks="the lookup returns the older entry's id",
  rs=PRE+'''fn main() {
    let mut m = Tokenizer::new(Model::from(vec![t(b"a", -1.0), t(b"b", -1.0)]), none(), ["<s>"]);
    m.add_base_tokens([t(b"a", -0.5)]);
    assert_eq!(m.base_token_to_id(&b"a".to_vec()), Some(2));
}
'''),
 dict(id="C07-b", property="C07", edits=[("src/tokenizer.rs", "        let mut ids = Vec::new();\n\n        for (substr, is_special) in SpecialTokenSplitter::new(input, self.special_tokens.as_slice())", "        let mut ids = Vec::new();\n        let normalized = self\n            .processors\n            .iter()\n            .fold(input.to_string(), |s, p| p.preprocess(&s));\n\n        for (substr, is_special) in\n            SpecialTokenSplitter::new(&normalized, self.special_tokens.as_slice())")],
  needs="a Unicode processor and a combining character right after a special token, or a special token that the processors change", breaks="the special token is not recognised, because the text is normalised before it is split",
  rs=PRE+'''fn main() {
    let m = Tokenizer::new(Model::from(bytes()), vec![ProcessorWrapper::Unicode(UnicodeProcessor::Nfc)], ["<s>"]);
    let ids = m.encode("a<s>\\u{338}b", 0.0).unwrap();
    assert_eq!(ids, vec![97, 256, 0xcc, 0xb8, 98]);
}
'''),
 dict(id="C08-c", property="C08", edits=[("src/tokenizer.rs", "        let tokenizer = Tokenizer::new(Model::from(vocab), processors, special_tokens);\n\n        Ok(tokenizer)", "        // Repeated entries would shadow each other.\n        vocab.dedup_by(|b, a| a.value == b.value && a.keep == b.keep);\n\n        let tokenizer = Tokenizer::new(Model::from(vocab), processors, special_tokens);\n\n        Ok(tokenizer)")],
  needs="two consecutive entries with the same bytes and keep flag", breaks="one of them is lost by loading and the later ids shift",
  rs=PRE+'''use std::str::FromStr;
fn main() {
    let m = Tokenizer::new(Model::from(vec![t(b"a", -1.0), t(b"a", -2.0), t(b"b", -3.0)]), none(), ["<s>"]);
    let n = Tokenizer::from_str(&m.to_string()).unwrap();
    assert_eq!(n.base_vocab_size(), 3);
    assert_eq!(n.encode("b<s>", 0.0).unwrap(), vec![2, 3]);
}
'''),
 dict(id="C09-b", property="C09", edits=[("src/processor.rs", "            UnicodeProcessor::Nfd => s.nfd().collect::<String>(),", "            UnicodeProcessor::Nfd => s.chars().flat_map(|c| c.to_string().nfd().collect::<Vec<_>>()).collect::<String>(),")],
  needs="the NFD processor and combining characters that are not in canonical order", breaks="they are not put in canonical order, so the text is not NFD",
  rs=PRE+'''fn main() {
    assert_eq!(UnicodeProcessor::Nfd.preprocess("\\u{e9}x"), "e\\u{301}x");
    assert_eq!(UnicodeProcessor::Nfd.preprocess("q\\u{307}\\u{323}"), "q\\u{323}\\u{307}");
}
'''),
 dict(id="C10-b", property="C10", edits=[("src/lattice.rs", "        self.sentence = sentence;\n        self.nodes.clear();", "        // The lattice for this very sentence is already laid out.\n        if !self.nodes.is_empty() && std::ptr::eq(self.sentence, sentence) {\n            return;\n        }\n\n        self.sentence = sentence;\n        self.nodes.clear();")],
  needs="a lattice that is set up twice in a row for the same slice", breaks="the nodes of the first run stay, so every occurrence is recorded twice",
  rs=PRE+'''fn main() {
    let m = Model::from(vec![t(b"a", -1.0), t(b"b", -1.0), t(b"ab", -1.5)]);
    let mut p = VecPool::with_capacity(4, 2);
    let mut l = Lattice::default();
    let s: &[u8] = b"abab";
    for _ in 0..2 {
        l.from(s, &mut p);
        m.populate_nodes(&mut l, 0.0);
        assert_eq!(l.nodes.len(), 8);
    }
}
'''),
 dict(id="C11-b", property="C11", edits=[("src/filter.rs", "        vocab.sort_unstable_by(|a, b| a.score.partial_cmp(&b.score).unwrap());", "        vocab.sort_by_key(|token| (token.score * 1e6) as i64);")],
  needs="removable scores that differ by less than a millionth, and fewer removals than removable tokens", breaks="a higher-scoring token is removed while a lower-scoring one stays",
  py=PY+'''tok([{"value": "a", "score": -1.0}, {"value": "b", "score": -2.0000001}, {"value": "c", "score": -2.0000002}, {"value": "d", "score": -2.0000003}])
o = v(run("filter", "--input", p("in.json"), "--output", p("out.json"), "--vocab-size", "2", "--min-score", "-1.5"))
assert set(o) == {"a", "b"}, o
'''),
 dict(id="C12-b", property="C12", edits=[
  ("src/prune.rs", "            let round_vocab_size = model.vocab_size();\n\n            for subiter", "            for subiter"),
  ("src/prune.rs", "            // Prune the vocabulary.\n", "            let round_vocab_size = model.vocab_size();\n\n            // Prune the vocabulary.\n")],
  needs="a round in which the EM step drops tokens but the pruning step does not", breaks="pruning stops above the target although the round removed tokens",
  py=PY+'''import random
def prune(vocab, samples, n):
    tok(vocab); train(samples)
    return len(run("prune", "--input", p("in.json"), "--output", p("out.json"), "--vocab-size", str(n), "--shrink-factor", "1.0", "--em-subiters", "1", "--train", "t:" + p("train.bin"), "--dropout", "0.0")["vocab"])
for seed in [24, 36]:
    r = random.Random(seed)
    words = sorted({"".join(r.choice("abc") for _ in range(r.randint(2, 4))) for _ in range(20)})
    V = by() + [{"value": w, "score": -9.0} for w in words]
    samples = ["".join(r.choice("abc") for _ in range(r.randint(5, 25))) for _ in range(r.randint(3, 12))]
    one = prune(V, samples, len(V) - 1)   # stops after the first round, which removes tokens
    all_ = prune(V, samples, 256)         # later rounds remove more
    assert all_ < one, (seed, len(V), one, all_)
'''),
 dict(id="C13-c", property="C13", edits=[("src/merge.rs", "                model.add_tokens([token.clone()]);\n\n                merges -= 1;", "                // Merging twice into the same token is pointless.\n                if model.token_to_id(&token.value).is_some() {\n                    continue;\n                }\n\n                model.add_tokens([token.clone()]);\n\n                merges -= 1;")],
  needs="a most frequent pair whose concatenation is already a token", breaks="the most frequent allowed pair is not merged, a less frequent one is",
  py=PY+'''V = [{"value": "a", "score": -1.0}, {"value": "b", "score": -1.0}, {"value": "c", "score": -1.0}, {"value": "ab", "score": -50.0}]
tok(V); train(["ababababc"]); open(p("allow"), "w").write("^.*$")
o = run("merge", "--input", p("in.json"), "--output", p("out.json"), "--allow", p("allow"), "--num-merges", "1", "--step", "1", "--train", "t:" + p("train.bin"))
assert [t["value"] for t in o["vocab"]] == ["a", "b", "c", "ab", "ab"], o
'''),
 dict(id="C14-c", property="C14", edits=[("src/generate.rs", "                    .map(|freq| (*freq * token.len()) as f64)", "                    .map(|freq| (*freq * token.chars().count()) as f64)")],
  needs="an added or suggested token with characters outside ASCII", breaks="its score counts characters instead of bytes",
  py=PY+'''import math
open(p("added.json"), "w").write(json.dumps(["\\u4f60\\u597d", "abcdef"]))
train(["\\u4f60\\u597d abcdef"])
open(p("allow"), "w").write("^zzz$")
o = v(run("generate", "--vocab-size", "258", "--output", p("out.json"), "--train", "t:" + p("train.bin"), "--added", p("added.json"), "--allow", p("allow"), "--insert-probability", "1.0"))
assert abs(o["\\u4f60\\u597d"]["score"] - o["abcdef"]["score"]) < 1e-9, o["abcdef"]
'''),
 dict(id="C15-b", property="C15", edits=[("src/mine.rs", "            for (token, count) in sample_tokens {", "            // The tail of a chunk cannot make it into the result.\n            let mut sample_tokens = sample_tokens.into_iter().collect::<Vec<_>>();\n            sample_tokens.sort_by_key(|(_, count)| Reverse(*count));\n            sample_tokens.truncate(self.num_idioms * 8);\n\n            for (token, count) in sample_tokens {")],
  needs="a chunk with more than eight times as many distinct matches as idioms asked for", breaks="matches in the tail of a chunk are not counted",
  py=PY+'''a = ["w%d w%d" % (i, i) for i in range(30)]
s1 = " ".join(a); s2 = "x1 " + " ".join(a[:15]); 
train([" ".join("l%02d" % i for i in range(40) for _ in range(2)) + " zz", " ".join("m%02d" % i for i in range(40) for _ in range(2)) + " zz", " ".join("n%02d" % i for i in range(40) for _ in range(2)) + " zz"])
o = run("mine", "--num-idioms", "1", "--output", p("out.json"), "--train", "t:" + p("train.bin"), "--pattern", "[a-z0-9]+")
assert o == ["zz"], o
'''),
 dict(id="C17-b", property="C17", edits=[("src/cli.rs", "                .filter(|s| !s.is_empty())\n                .collect();\n\n            let total_bytes", "                .filter(|s| !s.trim().is_empty())\n                .collect();\n\n            let total_bytes")],
  needs="a sample made of white space only", breaks="it is skipped, which also changes what a proportion selects",
  py=PY+'''train(["  ", "ab", "\\n", "ab", "cd", "cd"])
o = run("mine", "--num-idioms", "5", "--output", p("out.json"), "--train", "t:" + p("train.bin") + ":0.5", "--pattern", "[a-z]+|\\\\s+")
assert sorted(o) == ["\\n", "  ", "ab"], o
'''),
 dict(id="C18-b", property="C18", edits=[("src/lattice.rs", "                        lid == self.end_nodes[pos][0],", "                        alpha[rid] == 0.0,")],
  needs="a node whose forward log probability is exactly zero after its first predecessor", breaks="the first contribution is overwritten by the next, so the constant and the expectations are wrong",
  rs=PRE+'''fn main() {
    let m = Model::from(vec![t(b"a", -1.0), t(b"b", -0.5), t(b"ab", 0.0)]);
    let mut p = VecPool::with_capacity(4, 2);
    let mut l = Lattice::default();
    l.from(b"ab", &mut p);
    m.populate_nodes(&mut l, 0.0);
    let mut e = vec![0.0; 3];
    let z = l.populate_marginal(&mut e);
    assert!((z - (1.0 + (-1.5f64).exp()).ln()).abs() < 1e-9, "{z}");
}
'''),
 dict(id="C19-b", property="C19", edits=[("src/cli.rs", "                .find(|(n, _, _, _)| n == name)", "                .find(|(n, _, _, _)| n.eq_ignore_ascii_case(name))")],
  needs="a pattern that equals a predefined name up to case", breaks="it is taken as that predefined pattern instead of a pattern of its own",
  py=PY+'''train(["Word WORD other"])
o = run("mine", "--num-idioms", "5", "--output", p("out.json"), "--train", "t:" + p("train.bin"), "--pattern", "WORD")
assert o == ["WORD"], o
'''),
 dict(id="C20-b", property="C20", edits=[("src/cli.rs", "    let train = load_sources(train, &processors, \"train\");\n    let train_samples = shuffled_train_samples(&train);\n\n    let vocab_pruner", "    let train = load_sources(train, &processors, \"train\");\n    let train_samples = shuffled_train_samples(&train);\n\n    if initial_vocab_size <= vocab_size {\n        log::warn!(\"Nothing to prune\");\n        return;\n    }\n\n    let vocab_pruner")],
  needs="a target that is not below the vocabulary size", breaks="no tokenizer is written",
  py=PY+'''tok(by(), ["<s>"], [{"type": "crlf"}]); train(["ab"])
o = run("prune", "--input", p("in.json"), "--output", p("out.json"), "--vocab-size", "300", "--train", "t:" + p("train.bin"))
assert len(o["vocab"]) == 256 and o["special_tokens"] == ["<s>"], o["special_tokens"]
'''),
 dict(id="C21-b", property="C21", edits=[("src/lattice.rs", "                        let k_max_agenda_size = 100_000;", "                        let k_max_agenda_size = 5_000;")],
  needs="more than 512 best segmentations asked for of a text for which the agenda passes 5,000 entries", breaks="the agenda is cut to 512 entries long before its cap, so fewer segmentations are returned and better ones are left out",
  rs=PRE+'''fn main() {
    // every segmentation into parts of one to four bytes, the fewest parts first
    let m = Model::from((1..=4).map(|k| t(&vec![b'a'; k], -1.0)).collect());
    let mut p = VecPool::with_capacity(4, 2);
    let mut l = Lattice::default();
    let (len, n) = (28usize, 9000usize);
    let s = vec![b'a'; len];
    // ways[k][i]: i bytes in k parts
    let mut ways = vec![vec![0usize; len + 1]; len + 1];
    ways[0][0] = 1;
    for k in 1..=len { for i in 1..=len { ways[k][i] = (1..=4).filter(|j| *j <= i).map(|j| ways[k - 1][i - j]).sum(); } }
    l.from(&s, &mut p);
    m.populate_nodes(&mut l, 0.0);
    let r = l.nbest(n);
    assert_eq!(r.len(), n);
    let mut left = n;
    for k in 0..=len {
        let want = ways[k][len].min(left);
        left -= want;
        assert_eq!(r.iter().filter(|x| x.len() == k).count(), want, "with {k} parts");
    }
}
'''),
 dict(id="C22-b", property="C22", edits=[("bindings/python/src/lib.rs", "        self.tokenizer.special_token_to_id(token)", "        self.tokenizer.token_to_id(&token.as_bytes().to_vec())")],
  needs="a text that is a base token", breaks="the Python special_token_to_id returns the id of a base token",
  sh=PYB, py='''import json, tokengeex
d = json.dumps({"version": "2.0", "special_tokens": ["<s>"], "processors": [], "vocab": [{"value": "a", "score": -1.0}]})
t = tokengeex.Tokenizer.from_str(d)
assert t.special_token_to_id("<s>") == 1
assert t.special_token_to_id("a") is None
'''),
]
