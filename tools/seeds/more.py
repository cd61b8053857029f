PRE = '''use tokengeex::*;
#[allow(dead_code)] fn t(v: &[u8], s: f64) -> ScoredToken { ScoredToken::new(v.to_vec(), s, false) }
#[allow(dead_code)] fn k(v: &[u8], s: f64) -> ScoredToken { ScoredToken::new(v.to_vec(), s, true) }
'''
PY = '''import json, os, subprocess, sys
B, T = sys.argv[1], sys.argv[2]
p = lambda n: os.path.join(T, n)
def tok(vocab, special=[], processors=[]):
    json.dump({"version": "2.0", "special_tokens": special, "processors": processors, "vocab": vocab}, open(p("in.json"), "w"))
def train(samples, name="train.bin"):
    open(p(name), "wb").write(b"\\0".join(s.encode() for s in samples))
def run(*a, ok=True):
    r = subprocess.run([B] + list(a), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200)
    assert (r.returncode == 0) == ok, r.stderr[-500:]
    return json.load(open(p("out.json"))) if ok else None
def v(o): return {t["value"]: t for t in o["vocab"] if not t.get("encoded")}
'''
PYB = '''#!/bin/bash
# calls the Python module that build.sh built; cwd is the repository
D="$(cd "$(dirname "$0")" && pwd)"
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
cp bindings/python/target/debug/libtokengeex.so "$T/tokengeex.so" || exit 3
cd "$T" && PYTHONPATH="$T" timeout 100 /usr/bin/python3 -B "$D/demo.py"
'''
SEEDS = [
 dict(id="C04-a", property="C04", edits=[("src/tokenizer.rs", "                        .get((input[idx] - self.model.vocab_size() as TokenID) as usize)\n                        .ok_or", "                        .get((input[idx] - self.model.vocab_size() as TokenID) as u16 as usize)\n                        .ok_or")],
  needs="an id at least 65536 above a special token's", breaks="an out-of-range id decodes as a special token instead of failing",
  rs=PRE+'''fn main() {
    let m = Tokenizer::new(Model::from(vec![t(b"a", -1.0)]), Vec::<ProcessorWrapper>::new(), ["<s>"]);
    assert_eq!(m.decode(&[0, 1], true).unwrap(), "a<s>");
    assert!(m.decode(&[0, 1 + 65536], true).is_err());
    assert!(m.decode(&[65537 + 65536], false).is_err());
}
'''),
 dict(id="C06-a", property="C06", edits=[("src/tokenizer.rs", "            if self.special_tokens_map.contains_key(token.as_ref()) {", "            if self.token_to_id(&token.as_ref().as_bytes().to_vec()).is_some() {")],
  needs="a special token whose text is already a base token", breaks="such a special token is silently not registered, so the ids of the special tokens shift",
  rs=PRE+'''fn main() {
    let mut m = Tokenizer::new(Model::from(vec![t(b"a", -1.0)]), Vec::<ProcessorWrapper>::new(), ["<s>"]);
    m.add_base_tokens([t(b"<e>", -2.0)]);
    m.add_special_tokens(["<e>", "<f>"]);
    assert_eq!(m.special_tokens(), vec!["<s>", "<e>", "<f>"]);
    assert_eq!(m.special_token_to_id("<e>"), Some(3));
}
'''),
 dict(id="C07-a", property="C07", edits=[("src/tokenizer.rs", "            let suffix = &input[i..];\n\n            for special_token", "            let suffix = &input[i..];\n\n            // Most positions cannot start a special token.\n            if !self\n                .special_tokens\n                .iter()\n                .any(|t| t.as_bytes().first().map(|b| b & 0x7f) == Some(suffix.as_bytes()[0]))\n            {\n                continue;\n            }\n\n            for special_token")],
  needs="a special token that begins with a character outside ASCII", breaks="such a special token is never recognised",
  rs=PRE+'''fn main() {
    let m = Tokenizer::new(Model::from((0..=255u8).map(|b| t(&[b], -1.0)).collect()), Vec::<ProcessorWrapper>::new(), ["<s>", "\\u{ab}end\\u{bb}"]);
    assert_eq!(m.encode("a<s>\\u{ab}end\\u{bb}", 0.0).unwrap(), vec![97, 256, 257]);
}
'''),
 dict(id="C08-a", property="C08", edits=[("src/lib.rs", "            state.serialize_field(\"encoded\", &true)?;\n        }\n        if self.keep {", "            state.serialize_field(\"encoded\", &true)?;\n        } else if self.keep {")],
  needs="a token that is both not valid UTF-8 and marked keep", breaks="its keep flag is lost by saving and loading",
  rs=PRE+'''use std::str::FromStr;
fn main() {
    let m = Tokenizer::new(Model::from(vec![k(&[0xff], -1.0), k(b"a", -2.0), t(&[0xfe], -3.0)]), Vec::<ProcessorWrapper>::new(), Vec::<String>::new());
    let n = Tokenizer::from_str(&m.to_string()).unwrap();
    let keep: Vec<bool> = n.model().vocab().iter().map(|t| t.keep).collect();
    assert_eq!(keep, vec![true, true, false]);
}
'''),
 dict(id="C08-b", property="C08", edits=[("src/tokenizer.rs", "        if version != SERIALIZATION_VERSION {", "        if version.split('.').next() != SERIALIZATION_VERSION.split('.').next() {")],
  needs="a document whose version shares the major number", breaks="a file of a different version is accepted",
  rs=PRE+'''use std::str::FromStr;
fn main() {
    for (v, ok) in [("2.0", true), ("2.1", false), ("1.0", false), ("2", false)] {
        let s = format!("{{\\"version\\":\\"{v}\\",\\"special_tokens\\":[],\\"processors\\":[],\\"vocab\\":[]}}");
        assert_eq!(Tokenizer::from_str(&s).is_ok(), ok, "{v}");
    }
}
'''),
 dict(id="C09-a", property="C09", edits=[("src/processor.rs", '        s.replace("\\r\\n", "\\n")\n', '        let mut s = s.replace("\\r\\n", "\\n");\n        while s.contains("\\r\\n") {\n            s = s.replace("\\r\\n", "\\n");\n        }\n        s\n')],
  needs="two carriage returns before a line feed", breaks="CR CR LF becomes LF: a carriage return that is not part of a CR LF is dropped",
  rs=PRE+'''fn main() {
    assert_eq!(CrlfProcessor.preprocess("a\\r\\nb\\r\\r\\nc"), "a\\nb\\r\\nc");
}
'''),
 dict(id="C10-a", property="C10", edits=[("src/lattice.rs", "        vec.clear(); // Clear the vector before putting it back in the pool.\n        self.pool.push(vec);", "        // Keep the pool small: only vectors that have allocated are worth keeping.\n        if vec.len() < vec.capacity() {\n            vec.clear();\n        }\n        self.pool.push(vec);")],
  needs="a lattice with a position whose index vector is exactly full, reused for another sentence", breaks="the second sentence's indexes contain node numbers of the first",
  rs=PRE+'''fn main() {
    let m = Model::from(vec![t(b"a", -1.0), t(b"aa", -1.5), t(b"aaa", -2.0), t(b"aaaa", -2.5), t(b"b", -1.0)]);
    let (mut l, mut p) = (Lattice::default(), VecPool::default());
    for s in [&b"aaaaaaaa"[..], b"bab", b"aaaa", b"ab"] {
        l.from(s, &mut p);
        m.populate_nodes(&mut l, 0.0);
        let n: usize = l.begin_nodes.iter().map(|v| v.len()).sum();
        let e: usize = l.end_nodes.iter().map(|v| v.len()).sum();
        assert_eq!((n, e), (l.nodes.len() - 1, l.nodes.len() - 1));
    }
}
'''),
 dict(id="C11-a", property="C11", edits=[("src/filter.rs", "a.score.partial_cmp(&b.score).unwrap());", "b.score.abs().partial_cmp(&a.score.abs()).unwrap());")],
  needs="a vocabulary with positive scores below the minimum", breaks="high-scoring tokens are removed although lower-scoring removable ones stay",
  py=PY+'''
tok([{"value": "a", "score": 3.0}, {"value": "b", "score": 1.0}, {"value": "c", "score": -2.0}])
o = run("filter", "-i", p("in.json"), "-o", p("out.json"), "-v", "1", "--min-score", "10")
assert list(v(o)) == ["a"], o
'''),
 dict(id="C12-a", property="C12", edits=[("src/prune.rs", "if *freq < EXPECTED_FREQUENCY_THRESHOLD && !token.keep {", "if *freq < EXPECTED_FREQUENCY_THRESHOLD && (!token.keep || *freq == 0.0 && token.len() > 1) {")],
  needs="a protected multi-byte token that occurs nowhere in the samples", breaks="the protected token is removed",
  py=PY+'''
tok([{"value": c, "score": -2.0, "keep": True} for c in "abcdef"] + [{"value": "zq", "score": -9.0, "keep": True}] + [{"value": x, "score": -3.0} for x in ("ab", "cd", "abc", "ef", "de")])
train(["abcdef", "abcabc", "defdef"] * 4)
o = run("prune", "-i", p("in.json"), "-o", p("out.json"), "-v", "9", "--train", "t:" + p("train.bin"), "--dropout", "0.0")
assert "zq" in v(o) and v(o)["zq"]["keep"], o
'''),
 dict(id="C13-a", property="C13", edits=[("src/merge.rs", "if token.len() > self.max_token_length", "if String::from_utf8_lossy(&token.value).chars().count() > self.max_token_length")],
  needs="a merge of multi-byte characters near the length limit", breaks="the length limit counts characters, so tokens of too many bytes are merged",
  py=PY+'''
tok([{"value": c, "score": -2.0} for c in ("\\u00e9", "\\u00e8", "a")])
open(p("allow.txt"), "w").write(".*")
train(["\\u00e9\\u00e8a"] * 3)
o = run("merge", "-i", p("in.json"), "-o", p("out.json"), "--train", "t:" + p("train.bin"), "--allow", p("allow.txt"), "--num-merges", "4", "--step", "1", "--max-token-length", "3")
assert all(len(x.encode()) <= 3 for x in v(o)), list(v(o))
'''),
 dict(id="C13-b", property="C13", edits=[("src/merge.rs", "*pair_frequencies.entry(pair).or_insert(0) += freq;", "let total = pair_frequencies.entry(pair).or_insert(freq);\n                        *total = freq.max(*total);")],
  needs="a pair spread over several parallel chunks and another concentrated in one", breaks="counts of different chunks are not added, so a less frequent pair is merged first",
  py=PY+'''
tok([{"value": c, "score": -2.0} for c in "abcd"])
open(p("allow.txt"), "w").write("ab|cd")
# fewer samples than threads: one per chunk
train(["ab", "ab", "ab", "cdacd"])
o = run("merge", "-i", p("in.json"), "-o", p("out.json"), "--train", "t:" + p("train.bin"), "--allow", p("allow.txt"), "--num-merges", "1", "--step", "1")
assert list(v(o))[4:] == ["ab"], list(v(o))
'''),
 dict(id="C14-a", property="C14", edits=[("src/generate.rs", "                sample_tokens.clear();\n", "                // Keep the allocation unless it has grown large.\n                if sample_tokens.len() >= 1024 || chunk.len() == 1 {\n                    sample_tokens.clear();\n                }\n")],
  needs="enough samples that a parallel chunk holds more than one", breaks="a substring is counted again for every later sample of its chunk",
  py=PY+'''
import math
n = 5 * 64 * 8
train(["ab"] + ["cd"] * (n - 1))
o = run("generate", "-v", "258", "-o", p("out.json"), "--train", "t:" + p("train.bin"), "--insert-probability", "1.0", "--max-token-length", "2")
d = v(o)["cd"]["score"] - v(o)["ab"]["score"]
assert abs(d - math.log(n - 1)) < 1e-9, d
'''),
 dict(id="C14-b", property="C14", edits=[("src/generate.rs", "            if !seen.contains(&token.as_bytes().to_vec()) && token.len() > 1 {\n                seen.insert(token.as_bytes().to_vec());\n\n                let score", "            if seen.insert(token.as_bytes().to_vec()) && token.chars().count() > 1 {\n                let score")],
  needs="an added or suggested token that is one multi-byte character", breaks="such a token is left out although it was asked for",
  py=PY+'''
train(["xyxy", "zxy"])
json.dump(["\\u00e9", "qq"], open(p("added.json"), "w"))
o = run("generate", "-v", "300", "-o", p("out.json"), "--train", "t:" + p("train.bin"), "--added", p("added.json"), "--insert-probability", "1.0")
assert v(o)["\\u00e9"]["keep"] and v(o)["qq"]["keep"]
'''),
 dict(id="C15-a", property="C15", edits=[("src/mine.rs", "                *frequencies.entry(token).or_insert(0) += count;", "                // Idioms seen once in a large chunk are noise.\n                if count > 1 || chunk.len() < 2 {\n                    *frequencies.entry(token).or_insert(0) += count;\n                }")],
  needs="enough samples that a parallel chunk holds more than one, and an idiom that occurs once in some chunk", breaks="matches are missing from the counts, so the ranking is wrong",
  py=PY+'''
n = 5 * 64 * 8
# "bbb" once in each of many samples spread thinly, "aaa" many times in one sample
s = ["."] * n
for i in range(0, n, 64): s[i] = "bbb"
s[1] = "aaa " * 35
train(s)
open(p("x"), "w")
subprocess.run([B, "mine", "-n", "1", "-o", p("out.json"), "--train", "t:" + p("train.bin"), "-p", "[ab]+"], check=True, timeout=200)
assert json.load(open(p("out.json"))) == ["bbb"], open(p("out.json")).read()
'''),
 dict(id="C16-a", property="C16", edits=[("src/tokenizer.rs", "            .map(|s| self.encode_ordinary(s.as_ref(), dropout))\n            .collect()", "            .filter(|s| !s.as_ref().is_empty())\n            .map(|s| self.encode_ordinary(s.as_ref(), dropout))\n            .collect()")],
  needs="an empty text in a batch for ordinary encoding", breaks="the results are fewer than the inputs and shifted",
  rs=PRE+'''fn main() {
    let m = Tokenizer::new(Model::from(vec![t(b"a", -1.0)]), Vec::<ProcessorWrapper>::new(), Vec::<String>::new());
    let r = m.encode_ordinary_batch(vec!["a", "", "aa"], 0.0).unwrap();
    assert_eq!(r, vec![vec![0], vec![], vec![0, 0]]);
}
'''),
 dict(id="C17-a", property="C17", edits=[("src/cli.rs", "                    s.parse::<f64>().unwrap_or_else(|_| {\n                        panic!(\"Invalid proportion {:?} in source {:?}\", s, source);\n                    })", "                    s.parse::<f32>().map(f64::from).unwrap_or_else(|_| {\n                        panic!(\"Invalid proportion {:?} in source {:?}\", s, source);\n                    })")],
  needs="a proportion whose product with the sample count is a whole number in f64 but not with the proportion rounded to f32", breaks="one sample too few is used",
  py=PY+'''
train(["abc"] * 9 + ["abc"])
train(["x%d" % i for i in range(10)], "b.bin")
# 10 * 0.7 = 7 samples: x6 is used
o = run("generate", "-v", "400", "-o", p("out.json"), "--train", "t:" + p("b.bin") + ":0.7", "--insert-probability", "1.0")
assert "x6" in v(o) and "x7" not in v(o)
'''),
 dict(id="C18-a", property="C18", edits=[("src/lattice.rs", "let k_minus_log_epsilon = 50.0;", "let k_minus_log_epsilon = 8.0;")],
  needs="segmentations whose scores differ by more than 8", breaks="the smaller contribution is dropped, so the constant and the expectations are wrong by far more than rounding",
  rs=PRE+'''fn main() {
    let m = Model::from(vec![t(b"a", -1.0), t(b"b", -1.0), t(b"ab", -10.5)]);
    let (mut l, mut p) = (Lattice::default(), VecPool::default());
    l.from(b"ab", &mut p);
    m.populate_nodes(&mut l, 0.0);
    let mut e = vec![0.0; 3];
    let z = l.populate_marginal(&mut e);
    let want = ((-2.0f64).exp() + (-10.5f64).exp()).ln();
    assert!((z - want).abs() < 1e-9, "{z} {want}");
    assert!((e[2] - (-10.5 - want).exp()).abs() < 1e-9);
}
'''),
 dict(id="C19-a", property="C19", edits=[("src/regex.rs", '            .map(|r| format!("(?:{})", r.as_str()))', '            .map(|r| r.as_str().to_string())')],
  needs="an inline flag in a pattern that is not the last", breaks="the flag leaks into the patterns that follow",
  py=PY+'''
train(["foo FOO bar BAR BAR"])
subprocess.run([B, "mine", "-n", "9", "-o", p("out.json"), "--train", "t:" + p("train.bin"), "-p", "(?i)foo", "-p", "bar"], check=True, timeout=200)
assert sorted(json.load(open(p("out.json")))) == ["FOO", "bar", "foo"], open(p("out.json")).read()
'''),
 dict(id="C20-a", property="C20", edits=[("src/cli.rs", "    let tokenizer = Tokenizer::new(model, processors, special_tokens);\n    tokenizer.save(output).unwrap();\n\n    log::info!(\"Saved merged", "    // A special token that was merged into the vocabulary needs no entry of its own.\n    let special_tokens = special_tokens\n        .into_iter()\n        .filter(|s| !model.vocab().iter().any(|t| t.value == s.as_bytes()))\n        .collect::<Vec<String>>();\n    let tokenizer = Tokenizer::new(model, processors, special_tokens);\n    tokenizer.save(output).unwrap();\n\n    log::info!(\"Saved merged")],
  needs="a special token whose text is also a base token", breaks="merge drops the special token from the written tokenizer",
  py=PY+'''
tok([{"value": c, "score": -2.0} for c in "abcd"], special=["<s>", "a", "ab"], processors=[{"type": "crlf"}])
open(p("allow.txt"), "w").write(".*")
train(["abcd", "cdab"])
o = run("merge", "-i", p("in.json"), "-o", p("out.json"), "--train", "t:" + p("train.bin"), "--allow", p("allow.txt"), "--num-merges", "1")
assert o["special_tokens"] == ["<s>", "a", "ab"], o
'''),
 dict(id="C21-a", property="C21", edits=[("src/lattice.rs", "let k_max_agenda_size = 100_000;", "let k_max_agenda_size = 100;")],
  needs="a string with many segmentations and n above 10", breaks="the agenda is shrunk to more entries than it holds, so n-best panics",
  rs=PRE+'''fn main() {
    let m = Model::from([&b"a"[..], b"aa", b"aaa"].iter().map(|v| t(v, -1.0)).collect());
    let (mut l, mut p) = (Lattice::default(), VecPool::default());
    l.from(b"aaaaaaaaaaaaaa", &mut p);
    m.populate_nodes(&mut l, 0.0);
    assert_eq!(l.nbest(60).len(), 60);
}
'''),
 dict(id="C22-a", property="C22", edits=[("bindings/python/src/lib.rs", "            .encode_ordinary_batch(texts, dropout)\n", "            .encode_batch(texts, dropout)\n")],
  needs="a text with a special token in a batch for ordinary encoding", breaks="the Python method recognises special tokens where the library's does not", sh=PYB,
  py='''import tokengeex
t = tokengeex.Tokenizer.from_str('{"version":"2.0","special_tokens":["ab"],"processors":[],"vocab":[{"value":"a","score":-1.0},{"value":"b","score":-1.0}]}')
assert t.encode_batch(["ab"], 0.0) == [[2]]
assert t.encode_ordinary_batch(["ab"], 0.0) == [[0, 1]]
'''),
]
