import os
_g = {}
exec(open(os.path.join(os.path.dirname(os.path.abspath("/verif/tools/seeds/fourth.py")), "fourth.py")).read().split("SEEDS = [")[0], _g)
PRE, PY, PYB = _g["PRE"], _g["PY"], _g["PYB"]
SEEDS = [
 dict(id="C05-c", property="C05", edits=[("src/trie.rs", """            node = node.children.entry(*b).or_default();
""", """            // Children are kept sorted by byte.
            let children = &mut node.children;
            let at = if children.first().map_or(true, |(k, _)| k < b) && children.len() % 8 < 2 {
                // New ones mostly belong at the end.
                children.iter().position(|(k, _)| k == b).unwrap_or(children.len())
            } else {
                children.partition_point(|(k, _)| k < b)
            };
            if children.get(at).map_or(true, |(k, _)| k != b) {
                children.insert(at, (*b, Node::default()));
            }
            node = &mut node.children[at].1;
"""), ("src/trie.rs", """            self.node = match self.node.children.get(&b) {
                Some(child) => child,
                None => return None,
            };
""", """            self.node = match self.node.children.binary_search_by_key(&b, |(k, _)| *k) {
                Ok(at) => &self.node.children[at].1,
                Err(_) => return None,
            };
"""), ("src/trie.rs", "    children: HashMap<u8, Node<Data>, fnv::FnvBuildHasher>,\n", "    children: Vec<(u8, Node<Data>)>,\n"),
   ("src/trie.rs", "            children: HashMap::default(),\n", "            children: Vec::new(),\n"),
   ("src/trie.rs", "use std::collections::HashMap;\n\n", "")],
  needs="a node that has eight or nine children and gets another one that is neither the smallest nor the greatest", breaks="the child goes to the end, so it and others are not found by the binary search",
  rs=PRE+'''fn main() {
    let mut tr: Trie<u32> = Trie::default();
    let keys: Vec<Vec<u8>> = b"abcdefhijg".iter().map(|c| vec![b'x', *c]).collect();
    for (i, key) in keys.iter().enumerate() { tr.push(key, i as u32); }
    for (i, key) in keys.iter().enumerate() {
        let mut b = vec![];
        assert_eq!(tr.common_prefix_search(key.iter().copied(), &mut b).last(), Some(i as u32), "{key:?}");
    }
}
'''),
 dict(id="C08-d", property="C08", edits=[("src/lib.rs", '''        state.serialize_field("score", &self.score)?;
''', '''        // Whole numbers need no fraction.
        if self.score.fract() == 0.0 && self.score != 0.0 {
            state.serialize_field("score", &(self.score as i64))?;
        } else {
            state.serialize_field("score", &self.score)?;
        }
''')],
  needs="a score beyond the range of a 64-bit integer", breaks="it is saved as another number",
  rs=PRE+'''fn main() {
    for s in [0.0, -0.0, 1.0, -3.0, 1e15, -1e18, 1e25, -3e200, 0.5] {
        let z = Tokenizer::new(Model::from(vec![t(b"a", s)]), none(), Vec::<String>::new());
        let y: Tokenizer = z.to_string().parse().unwrap();
        assert_eq!(y.model().vocab()[0].score, s);
    }
}
'''),
 dict(id="C12-c", property="C12", edits=[("src/prune.rs", '''        while model.vocab_size() > self.vocab_size {
            let round_vocab_size = model.vocab_size();
''', '''        // Rounds that remove next to nothing are not worth their time.
        let mut rounds = 0;
        while model.vocab_size() > self.vocab_size && rounds < 32 {
            rounds += 1;
            let round_vocab_size = model.vocab_size();
''')],
  needs="more than 32 rounds, each of which removes something", breaks="pruning stops above the target although the last round removed tokens",
  py=PY+'''V = [{"value": c, "score": -9.0, "keep": True} for c in "abcdefgh "]
import itertools
W = ["".join(x) for x in itertools.product("abcdefgh", repeat=2)]
V += [{"value": w, "score": -5.0} for w in W]
tok(V); train([" ".join(W)] * 30)
o = run("prune", "--input", p("in.json"), "--output", p("out.json"), "--vocab-size", "20", "--dropout", "0.0", "--shrink-factor", "0.99", "--em-subiters", "1", "--train", "t:" + p("train.bin"))
assert len(o["vocab"]) <= 20, len(o["vocab"])
'''),
 dict(id="C13-d", property="C13", edits=[("src/merge.rs", '''            pairs.sort_unstable_by(|a, b| b.1.cmp(&a.1));
''', '''            // Only the first few can be merged in this round.
            let front = self.step.saturating_mul(32);
            if pairs.len() > front && front > 0 {
                pairs.select_nth_unstable_by(front - 1, |a, b| b.1.cmp(&a.1));
                pairs.truncate(front);
            }
            pairs.sort_unstable_by(|a, b| b.1.cmp(&a.1));
''')],
  needs="more than 32 times the step of disallowed pairs that are more frequent than every allowed one", breaks="merging stops although an allowed pair is left",
  py=PY+'''import itertools
A = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOP"
V = [{"value": c, "score": -5.0} for c in A + "01"]
tok(V); train([A] * 5 + ["01"])
open(p("allow"), "w").write("^[01]+$")
o = run("merge", "--input", p("in.json"), "--output", p("out.json"), "--allow", p("allow"), "--num-merges", "1", "--step", "1", "--train", "t:" + p("train.bin"))
assert [t["value"] for t in o["vocab"]][len(A) + 2:] == ["01"], o["vocab"][-2:]
'''),
 dict(id="C14-d", property="C14", edits=[("src/generate.rs", '''        vocab.sort_unstable_by(|a, b| {
            a.partial_cmp(b)
                .unwrap_or(std::cmp::Ordering::Equal)
                .reverse()
        });
''', '''        vocab.sort_by_cached_key(|token| Reverse((token.score.ln() * 1000.0) as i64));
''')],
  needs="two tokens whose frequency times length is within a tenth of a percent of each other but not the same", breaks="the scores are not in non-increasing order",
  py=PY+'''train(["ab xyz"] * 1001 + ["ab"] * 500)
open(p("allow"), "w").write("^(?:ab|xyz)$")
o = run("generate", "--output", p("out.json"), "--vocab-size", "300", "--allow", p("allow"), "--max-token-length", "3", "--insert-probability", "1.0", "--train", "t:" + p("train.bin"))
s = [t["score"] for t in o["vocab"]]
assert all(a >= b for a, b in zip(s, s[1:])), s[:6]
'''),
 dict(id="C18-c", property="C18", edits=[("src/lattice.rs", '''            for &rid in &self.begin_nodes[pos] {
                for &lid in &self.end_nodes[pos] {
                    // Update alpha''', '''            for &rid in &self.begin_nodes[pos] {
                for &lid in self.end_nodes[pos].iter().take(24) {
                    // Update alpha''')],
  needs="a position at which more than 24 tokens end", breaks="the segmentations through the others are left out, so the constant and the expectations are too small",
  rs=PRE+'''fn main() {
    for n in [3usize, 20, 24, 25, 40] {
        let m = Model::from((1..=n).map(|i| t(&vec![b'a'; i], -1.0)).collect());
        let s = vec![b'a'; n];
        let mut p = VecPool::with_capacity(4, 2);
        let mut l = Lattice::default();
        l.from(&s, &mut p);
        m.populate_nodes(&mut l, 0.0);
        let mut e = vec![0.0; n];
        let z = l.populate_marginal(&mut e);
        // compositions of n: sum over k parts of C(n-1, k-1) e^-k = e^-1 (1 + e^-1)^(n-1)
        let want = -1.0 + (n as f64 - 1.0) * (1.0 + (-1f64).exp()).ln();
        assert!((z - want).abs() < 1e-9, "{n} {z} {want}");
    }
}
'''),
 dict(id="C07-d", property="C07", edits=[("src/tokenizer.rs", '''                if suffix.starts_with(special_token) {
                    if i > 0 {
                        self.cursor += i;
                        return Some((&input[..i], false));
                    }
''', '''                if suffix.starts_with(special_token) {
                    if i > 0 {
                        // Whitespace before a special token belongs to nobody.
                        if input[..i].chars().all(|c| c == '\\u{a0}') {
                            self.cursor += i;
                            return self.next();
                        }
                        self.cursor += i;
                        return Some((&input[..i], false));
                    }
''')],
  needs="a run of nothing but no-break spaces before a special token", breaks="it is dropped from the text",
  rs=PRE+'''fn main() {
    let z = Tokenizer::new(Model::from(bytes()), none(), vec!["<s>"]);
    for s in ["a <s>", "\\u{a0}<s>b", "\\u{a0}\\u{a0}<s>", " <s>"] {
        assert_eq!(z.decode(&z.encode(s, 0.0).unwrap(), true).unwrap(), s);
    }
}
'''),
 dict(id="C09-d", property="C09", edits=[("src/processor.rs", '''        s.replace("\\r\\n", "\\n")
''', '''        if !s.contains('\\r') {
            return s.to_string();
        }
        // Line by line.
        let mut out = String::with_capacity(s.len());
        for line in s.split_inclusive('\\n') {
            match line.strip_suffix("\\r\\n") {
                Some(body) => {
                    out.push_str(body.trim_end_matches('\\r'));
                    out.push('\\n');
                }
                None => out.push_str(line),
            }
        }
        out
''')],
  needs="two carriage returns before a line feed", breaks="both are removed instead of one",
  rs=PRE+'''fn main() {
    for s in ["a\\r\\nb", "\\r\\r\\n", "x\\r\\r\\n\\r", "\\r", "\\n\\r\\n"] {
        assert_eq!(CrlfProcessor.preprocess(s), s.replace("\\r\\n", "\\n"));
    }
}
'''),
 dict(id="C16-c", property="C16", edits=[("src/tokenizer.rs", '''        inputs
            .into_par_iter()
            .map(|s| self.encode_ordinary(s.as_ref(), dropout))
            .collect()
''', '''        let inputs: Vec<String> = inputs.into_par_iter().map(|s| s.as_ref().to_string()).collect();

        // Equal neighbours are encoded once.
        let runs: Vec<&[String]> = inputs
            .chunk_by(|a, b| {
                a.len() == b.len() && a.chars().zip(b.chars()).all(|(a, b)| a as u32 as u16 == b as u32 as u16)
            })
            .collect();
        let encoded = runs
            .into_par_iter()
            .map(|run| Ok((self.encode_ordinary(&run[0], dropout)?, run.len())))
            .collect::<Result<Vec<_>>>()?;

        Ok(encoded
            .into_iter()
            .flat_map(|(ids, n)| std::iter::repeat(ids).take(n))
            .collect())
''')],
  needs="two neighbouring texts of one length whose characters differ only above the 16th bit", breaks="the second gets the ids of the first",
  rs=PRE+'''fn main() {
    let z = Tokenizer::new(Model::from(bytes()), none(), Vec::<String>::new());
    let s = vec!["a", "a", "b", "\\u{1f600}", "\\u{2f600}", "\\u{1f600}", ""];
    let got = z.encode_ordinary_batch(s.clone(), 0.0).unwrap();
    let want: Vec<Vec<u32>> = s.iter().map(|s| z.encode_ordinary(s, 0.0).unwrap()).collect();
    assert_eq!(got, want);
}
'''),
 dict(id="C17-d", property="C17", edits=[("src/cli.rs", '''                .fold(sample.to_string(), |s, p| p.preprocess(&s)),
''', '''                .fold(sample.to_string(), |s, p| match p {
                    // Nothing to do in plain ASCII.
                    _ if s.is_ascii() => s,
                    _ => p.preprocess(&s),
                }),
''')] if False else [],
  needs="", breaks="", rs=""),
]
SEEDS = [s for s in SEEDS if s["edits"]]
