import os
_g = {}
exec(open(os.path.join(os.path.dirname(os.path.abspath("/verif/tools/seeds/fourth.py")), "fourth.py")).read().split("SEEDS = [")[0], _g)
PRE, PY, PYB = _g["PRE"], _g["PY"], _g["PYB"]
SEEDS = [
 dict(id="C03-e", property="C03", edits=[("src/model.rs", """        // Backtrack along the best path to recover the tokens.
        let mut pos = input.len();
        let mut ids: Vec<u32> = Vec::with_capacity(input.len() / 2);

        while pos > 0 {
            let node = &dp[pos];

            let start = node.start.ok_or_else(|| Error::NoPath(pos, input.len()))?;

            ids.push(node.id);
            pos = start;
        }

        // Reverse to maintain original order since we built it backwards.
        ids.reverse();

        Ok(ids)
""", """        // Collects the tokens of the best path to a position, in order.
        fn collect(dp: &[Node], pos: usize, ids: &mut Vec<u32>) -> Result<()> {
            if pos > 0 {
                let node = &dp[pos];
                let start = node
                    .start
                    .ok_or_else(|| Error::NoPath(pos, dp.len() - 1))?;

                collect(dp, start, ids)?;
                ids.push(node.id);
            }

            Ok(())
        }

        let mut ids: Vec<u32> = Vec::with_capacity(input.len() / 2);
        collect(&dp, input.len(), &mut ids)?;

        Ok(ids)
""")],
  needs="a text of several hundred thousand tokens", breaks="encoding overflows the stack",
  rs=PRE+'''fn main() {
    let m = Model::from(bytes());
    for n in [10usize, 1000, 1 << 20] {
        assert_eq!(m.encode(&"x".repeat(n), 0.0).unwrap().len(), n);
    }
}
'''),
 dict(id="C04-e", property="C04", edits=[("src/model.rs", """        Ok(String::from_utf8_lossy(&res).into_owned())
    }
""", """        Ok(text + &String::from_utf8_lossy(&res))
    }
"""), ("src/model.rs", """        let mut res = Vec::new();

        for &id in ids {
            if id >= self.vocab_size() as u32 {
""", """        let mut res = Vec::new();
        let mut text = String::new();

        for &id in ids {
            // Do not hold the text twice.
            if res.len() >= 1 << 16 {
                text += &String::from_utf8_lossy(&res);
                res.clear();
            }

            if id >= self.vocab_size() as u32 {
""")],
  needs="more than 65536 bytes with a character of several tokens across the limit", breaks="the character is replaced by replacement characters",
  rs=PRE+'''fn main() {
    let z = Tokenizer::new(Model::from(bytes()), none(), vec!["<s>"]);
    for n in [0usize, 1, 2, 3] {
        let s = format!("{}{}", "x".repeat(n), "\\u{20ac}".repeat(30000));
        let ids = z.encode(&s, 0.0).unwrap();
        assert_eq!(z.decode(&ids, true).unwrap(), s, "{n}");
    }
}
'''),
 dict(id="C11-d", property="C11", edits=[("src/filter.rs", """            let should_keep = num_tokens_removed >= num_tokens_to_remove
""", """            let should_keep = new_vocab.len() >= self.vocab_size
                || num_tokens_removed >= num_tokens_to_remove
"""), ("src/filter.rs", """        vocab.sort_unstable_by(|a, b| a.score.partial_cmp(&b.score).unwrap());

        for""", """        vocab.sort_unstable_by(|a, b| a.score.partial_cmp(&b.score).unwrap());
        if !self.force {
            // Tokens that stay in any case first.
            vocab.sort_by_key(|token| !token.keep);
        }

        for""")],
  needs="at least as many protected tokens as the target size", breaks="removable tokens stay although the vocabulary is too large",
  py=PY+'''tok([{"value": "a", "score": -1.0, "keep": True}, {"value": "b", "score": -1.5, "keep": True}, {"value": "c", "score": -2.0}, {"value": "d", "score": -3.0}])
for n, w in [("3", ["a", "b", "c"]), ("2", ["a", "b"]), ("1", ["a", "b"])]:
    o = run("filter", "-i", p("in.json"), "-o", p("out.json"), "-v", n, "--min-score", "10")
    assert list(v(o)) == w, (n, o)
'''),
 dict(id="C13-f", property="C13", edits=[("src/merge.rs", """                if token.len() > self.max_token_length
                    || !self.allow.is_match(&String::from_utf8_lossy(&token.value))
""", """                if token.len() > self.max_token_length
                    || !std::str::from_utf8(&token.value)
                        .map_or(b.len() > 1, |value| self.allow.is_match(value))
""")],
  needs="tokens that are not valid UTF-8 when put together", breaks="they are merged whatever the allow pattern says, or not merged although it accepts them",
  py=PY+'''tok(by())
open(p("allow"), "w").write("^.*$")
train(["\\u20ac\\u20ac\\u20ac"] * 3)
o = run("merge", "--input", p("in.json"), "--output", p("out.json"), "--allow", p("allow"), "--num-merges", "1", "--step", "1", "--train", "t:" + p("train.bin"))
assert len(o["vocab"]) == 257, len(o["vocab"])
open(p("allow"), "w").write("^[a-z]+$")
o = run("merge", "--input", p("in.json"), "--output", p("out.json"), "--allow", p("allow"), "--num-merges", "1", "--step", "1", "--train", "t:" + p("train.bin"))
assert len(o["vocab"]) == 256, len(o["vocab"])
'''),
 dict(id="C17-f", property="C17", edits=[("src/cli.rs", """                .get(2)
                .map(|s| {
                    s.parse""", """                .get(2)
                .filter(|s| !s.trim().is_empty())
                .map(|s| {
                    s.parse""")],
  needs="a source whose proportion is empty or blank", breaks="it is taken as the whole file instead of aborting",
  py=PY+'''train(["a", "b"])
run("mine", "--num-idioms", "9", "--output", p("out.json"), "--train", "t:" + p("train.bin"), "--pattern", "a|b")
for q in [":", ": "]:
    run("mine", "--num-idioms", "9", "--output", p("out.json"), "--train", "t:" + p("train.bin") + q, "--pattern", "a|b", ok=False)
'''),
 dict(id="C19-e", property="C19", edits=[("src/regex.rs", """            .map(|r| format!("^(?:{})$", r.as_str()))
""", """            .filter(|r| !r.as_str().is_empty())
            .map(|r| format!("^(?:{})$", r.as_str()))
""")],
  needs="an empty pattern among several", breaks="the allow pattern rejects the empty string",
  py=PY+'''r = subprocess.run([B, "regex", "--output", p("re"), "--pattern", "", "--pattern", "a"], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
assert r.returncode == 0, r.stderr
import re
c = re.compile(open(p("re")).read())
assert c.search("a") and c.search("") and not c.search("b")
'''),
 dict(id="C20-e", property="C20", edits=[("src/cli.rs", """    let processors = load_processors(processors);
    let train = load_sources(sources, &processors, "train");
    let allow_regex""", """    let mut names = processors.to_vec();
    names.dedup_by(|a, b| a[..2] == b[..2]);
    let processors = load_processors(&names);
    let train = load_sources(sources, &processors, "train");
    let allow_regex""")],
  needs="two normal forms given one after the other", breaks="generate writes only the first of them",
  py=PY+'''train(["abc abd"])
open(p("allow"), "w").write("^[a-z]+$")
o = run("generate", "--output", p("out.json"), "--vocab-size", "260", "--insert-probability", "1.0", "--max-token-length", "8", "--allow", p("allow"), "--train", "t:" + p("train.bin"), "--processor", "crlf", "--processor", "nfkd", "--processor", "nfc")
assert len(o["processors"]) == 3, o["processors"]
'''),
 dict(id="C16-d", property="C16", edits=[("src/tokenizer.rs", """            .map(|s| self.encode_ordinary(s.as_ref(), dropout))
            .collect()
""", """            .map(|s| {
                let s = s.as_ref();
                // Large inputs are encoded from both ends.
                match s.len() {
                    0..=65536 => self.encode_ordinary(s, dropout),
                    n => {
                        let middle = (0..=n / 2).rev().find(|i| s.is_char_boundary(*i));
                        let (a, b) = s.split_at(middle.unwrap_or(0));
                        let (a, b) = rayon::join(
                            || self.encode_ordinary(a, dropout),
                            || self.encode_ordinary(b, dropout),
                        );
                        let mut ids = a?;
                        ids.extend(b?);
                        Ok(ids)
                    }
                }
            })
            .collect()
""")],
  needs="an input of more than 65536 bytes with a token across its middle", breaks="the batch splits that token",
  rs=PRE+'''fn main() {
    let mut v = bytes(); v.push(t(b"abc", -1.0));
    let z = Tokenizer::new(Model::from(v), none(), Vec::<String>::new());
    for n in [10usize, 30000, 30001] {
        let s = "abc".repeat(n);
        assert_eq!(z.encode_ordinary_batch([s.as_str()], 0.0).unwrap()[0], z.encode_ordinary(&s, 0.0).unwrap());
    }
}
'''),
]
