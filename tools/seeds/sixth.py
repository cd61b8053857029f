import os
_g = {}
exec(open(os.path.join(os.path.dirname(os.path.abspath("/verif/tools/seeds/fourth.py")), "fourth.py")).read().split("SEEDS = [")[0], _g)
PRE, PY, PYB = _g["PRE"], _g["PY"], _g["PYB"]
SEEDS = [
 dict(id="C02-d", property="C02", edits=[("src/model.rs", """        let mut buff = Vec::<u8>::with_capacity(256);
        let input = input.as_bytes();

        #[derive(Clone, Debug)]
""", """        // Large documents are encoded piece by piece to bound the table.
        if input.len() > 1 << 16 {
            if let Some(at) = input[..input.len() - 1].rfind('\\n').filter(|at| *at > 1 << 15) {
                let mut ids = self.encode(&input[..=at], dropout)?;
                ids.extend(self.encode(&input[at + 1..], dropout)?);
                return Ok(ids);
            }
        }

        let mut buff = Vec::<u8>::with_capacity(256);
        let input = input.as_bytes();

        #[derive(Clone, Debug)]
""")],
  needs="a text of more than 65536 bytes and a token that continues after a line feed", breaks="a better segmentation across the cut is missed",
  rs=PRE+'''fn main() {
    let m = Model::from(vec![t(b"a", -3.0), t(b"\\n", -3.0), t(b"\\na", -1.0)]);
    for n in [10usize, 40000, 70000] {
        let s = format!("{}\\na", "a".repeat(n));
        let ids = m.encode(&s, 0.0).unwrap();
        assert_eq!(*ids.last().unwrap(), 2, "{n}");
        let s = format!("{}\\n", "a\\na".repeat(n / 3));
        assert!(!m.encode(&s, 0.0).unwrap()[..n / 3].contains(&1), "{n}");
    }
}
'''),
 dict(id="C04-d", property="C04", edits=[("src/tokenizer.rs", """                    let special = self
                        .special_tokens
                        .get((input[idx] - self.model.vocab_size() as TokenID) as usize)
                        .ok_or(Error::TokenIdOutOfBounds(input[idx]))?;

                    if include_special_tokens {
                        output.push_str(special);
                    }
""", """                    if include_special_tokens {
                        let special = self
                            .special_tokens
                            .get((input[idx] - self.model.vocab_size() as TokenID) as usize)
                            .ok_or(Error::TokenIdOutOfBounds(input[idx]))?;

                        output.push_str(special);
                    }
""")],
  needs="an id outside the vocabulary, decoded without special tokens", breaks="decoding succeeds",
  rs=PRE+'''fn main() {
    let z = Tokenizer::new(Model::from(bytes()), none(), vec!["<s>"]);
    for inc in [true, false] {
        assert_eq!(z.decode(&[97, 256, 98], inc).unwrap(), if inc { "a<s>b" } else { "ab" });
        assert!(z.decode(&[97, 257, 98], inc).is_err());
    }
}
'''),
 dict(id="C05-d", property="C05", edits=[("src/trie.rs", """pub struct Trie<Data> {
    root: Node<Data>,
}
""", """pub struct Trie<Data> {
    root: Node<Data>,
    /// Length of the longest key.
    depth: u16,
}
"""), ("src/trie.rs", """        let mut node = &mut self.root;

""", """        self.depth = self.depth.max(element.len() as u16);

        let mut node = &mut self.root;

"""), ("src/trie.rs", """            prefix,
            iterator,
        }
    }
}

pub struct""", """            prefix,
            iterator,
            left: self.depth,
        }
    }
}

pub struct"""), ("src/trie.rs", """    prefix: &'b mut Vec<u8>,
    iterator: T,
}
""", """    prefix: &'b mut Vec<u8>,
    iterator: T,
    left: u16,
}
"""), ("src/trie.rs", """            let b = self.iterator.next()?;
""", """            self.left = self.left.checked_sub(1)?;
            let b = self.iterator.next()?;
"""), ("src/trie.rs", """        Self {
            root: Node::default(),
        }
""", """        Self {
            root: Node::default(),
            depth: 0,
        }
""")],
  needs="a key of 65536 or more bytes that no other key makes up for", breaks="it is not found",
  rs=PRE+'''fn main() {
    for n in [1usize, 300, 65535, 65536, 70000] {
        let mut tr: Trie<u32> = Trie::default();
        tr.push(b"xy", 1); tr.push(&vec![b'x'; n], 2);
        let s = vec![b'x'; n + 1];
        let mut b = vec![];
        assert_eq!(tr.common_prefix_search(s.iter().copied(), &mut b).last(), Some(2), "{n}");
    }
}
'''),
 dict(id="C09-e", property="C09", edits=[("src/processor.rs", """            UnicodeProcessor::Nfc => s.nfc().collect::<String>(),
""", """            UnicodeProcessor::Nfc
                if unicode_normalization::is_nfc_quick(s.chars())
                    != unicode_normalization::IsNormalized::No =>
            {
                s.to_string()
            }
            UnicodeProcessor::Nfc => s.nfc().collect::<String>(),
""")],
  needs="a text for which the quick check answers maybe: a base letter and a combining mark that compose", breaks="the text is left decomposed",
  rs=PRE+'''fn main() {
    for (a, b) in [("abc", "abc"), ("e\\u{301}", "\\u{e9}"), ("\\u{1100}\\u{1161}", "\\u{ac00}")] {
        assert_eq!(UnicodeProcessor::Nfc.preprocess(a), b);
    }
}
'''),
 dict(id="C10-d", property="C10", edits=[("src/model.rs", """        let mut buff = Vec::<u8>::with_capacity(256);
        let input = lattice.sentence;

        for pos in 0..input.len() {
            let suffix = &input[pos..];

            buff.clear();
            for (id, len) in self
                .trie
                .common_prefix_search(suffix.iter().copied(), &mut buff)
            {
""", """        let mut buff = Vec::<u8>::with_capacity(256);
        let input = lattice.sentence;
        let mut found: Vec<(TokenID, u32)> = Vec::new();

        for pos in 0..input.len() {
            let suffix = &input[pos..];

            // Inside a long run of one byte the same tokens are found again.
            let repeated = pos > 0
                && suffix.len() >= 16
                && suffix[..16].iter().all(|b| *b == input[pos - 1]);

            if !repeated {
                buff.clear();
                found = self
                    .trie
                    .common_prefix_search(suffix.iter().copied(), &mut buff)
                    .collect();
            }

            for (id, len) in found.iter().copied().filter(|(_, len)| *len as usize <= suffix.len()) {
""")],
  needs="a run of 17 or more equal bytes and a token longer than 16 bytes", breaks="the lattice has tokens that do not occur there, or misses some",
  rs=PRE+'''fn main() {
    let mut v = bytes(); v.push(t(&[b'a'; 18], -1.0)); v.push(t(b"aaaaaaaaaaaaaaaaab", -1.0));
    let m = Model::from(v.clone());
    for n in [3usize, 16, 17, 18, 25] {
        let s = format!("x{}bc", "a".repeat(n));
        let s = s.as_bytes();
        let mut l = Lattice::default(); let mut p = VecPool::default();
        l.from(s, &mut p); m.populate_nodes(&mut l, 0.0);
        let want: usize = (0..s.len()).map(|i| v.iter().filter(|t| s[i..].starts_with(&t.value)).count()).sum();
        assert_eq!(l.nodes.len() - 2, want, "{n}");
        for d in &l.nodes[2..] { assert!(s[d.pos..].starts_with(&v[d.token_id as usize].value)); }
    }
}
'''),
 dict(id="C12-d", property="C12", edits=[("src/prune.rs", """        pruned_vocab.sort_unstable_by(|a, b| b.score.partial_cmp(&a.score).unwrap());

        Ok(pruned_vocab)
""", """        pruned_vocab.sort_unstable_by(|a, b| b.score.partial_cmp(&a.score).unwrap());
        pruned_vocab.dedup_by(|a, b| a.value == b.value && !b.keep);

        Ok(pruned_vocab)
""")],
  needs="a token that occurs twice, the one marked keep right after the one that is not", breaks="the protected entry is removed",
  py=PY+'''V = [{"value": c, "score": -2.0, "keep": True} for c in "bc"] + [{"value": "a", "score": -1.0}, {"value": "a", "score": -1.5, "keep": True}]
V += [{"value": w, "score": -5.0} for w in ["bc", "cb"]]
for order in (V, V[::-1]):
    tok(order); train(["abc", "bca", "aaa"] * 5)
    o = run("prune", "--input", p("in.json"), "--output", p("out.json"), "--vocab-size", "4", "--dropout", "0.0", "--shrink-factor", "0.9", "--em-subiters", "0", "--train", "t:" + p("train.bin"))
    assert sum(1 for t in o["vocab"] if t["value"] == "a" and t.get("keep")) == 1, o["vocab"]
'''),
 dict(id="C14-e", property="C14", edits=[("src/generate.rs", """                        let candidate = &suffix[..ii + c.len_utf8()];

                            if thread_local_allow""".replace("                        let", "                            let"), """                            let candidate = &suffix[..ii + c.len_utf8()];

                            // Longer ones will not be allowed either.
                            if len > 8
                                && thread_local_allow
                                    .as_ref()
                                    .map_or(false, |allow| !allow.is_match(candidate))
                            {
                                break;
                            }

                            if thread_local_allow""")],
  needs="no split pattern, and an allow pattern that accepts a substring but rejects one of its prefixes of more than eight bytes", breaks="the substring is never counted, so more frequent ones are left out",
  py=PY+'''W = "abcdefghijk."
train([W + "x", W + "y", W + "z"])
open(p("allow"), "w").write("^[a-z]+[.]$")
o = run("generate", "--output", p("out.json"), "--vocab-size", "300", "--insert-probability", "1.0", "--max-token-length", "24", "--allow", p("allow"), "--train", "t:" + p("train.bin"))
have = set(v(o))
for i in range(0, 11): assert W[i:] in have, W[i:]
'''),
 dict(id="C17-d", property="C17", edits=[("src/cli.rs", """                .take((samples.len() as f64 * proportion) as usize)
""", """                .take((samples.len() as f32 * proportion as f32) as usize)
""")],
  needs="a proportion and a number of samples whose product is just below a whole number", breaks="one sample too many is used",
  py=PY+'''train(["s%02d" % i for i in range(100)])
open(p("allow"), "w").write("^s[0-9][0-9]$")
for q in ("0.29", "0.57", "0.58", "0.5"):
    o = run("mine", "--output", p("out.json"), "--num-idioms", "1000", "--train", "t:" + p("train.bin") + ":" + q, "--pattern", "s[0-9][0-9]")
    assert len(o) == int(100 * float(q)), (q, len(o))
'''),
 dict(id="C18-d", property="C18", edits=[("src/lattice.rs", """                    alpha[rid] = log_sum_exp(
                        alpha[rid],
                        self.nodes[lid].score + alpha[lid],
                        lid == self.end_nodes[pos][0],
                    );
""", """                    let init = alpha[rid] == 0.0;
                    alpha[rid] = log_sum_exp(alpha[rid], self.nodes[lid].score + alpha[lid], init);
""")],
  needs="the first segmentation that reaches a position has a total score of zero and is not the only one", breaks="the first contribution is overwritten, so the constant and the expectations are wrong",
  rs=PRE+'''fn main() {
    for s in [-1.0f64, -0.25, 0.0] {
        let m = Model::from(vec![t(b"a", -0.25), t(b"b", -0.5), t(b"ab", s)]);
        let mut l = Lattice::default(); let mut p = VecPool::default();
        l.from(b"ab", &mut p); m.populate_nodes(&mut l, 0.0);
        let mut e = vec![0.0; 3];
        let z = l.populate_marginal(&mut e);
        let want = ((-0.75f64).exp() + s.exp()).ln();
        assert!((z - want).abs() < 1e-9, "{s} {z} {want}");
    }
}
'''),
 dict(id="C19-d", property="C19", edits=[("src/regex.rs", """    Regex::new(
        &regexes
            .into_iter()
            .map(|r| format!("(?:{})", r.as_str()))
            .collect::<Vec<String>>()
            .join("|"),
    )
    .unwrap()
""", """    let mut sources: Vec<String> = Vec::new();

    for re in regexes {
        // An alternative that begins with an earlier one is never reached.
        if !sources.iter().any(|s| re.as_str().starts_with(s.as_str())) {
            sources.push(re.as_str().to_string());
        }
    }

    Regex::new(
        &sources
            .into_iter()
            .map(|r| format!("(?:{})", r))
            .collect::<Vec<String>>()
            .join("|"),
    )
    .unwrap()
""")],
  needs="a pattern whose text begins with that of an earlier one although it matches where the earlier one does not", breaks="it is left out of the mining pattern",
  py=PY+'''train(["ab cd ab b b b"])
o = run("mine", "--output", p("out.json"), "--num-idioms", "10", "--train", "t:" + p("train.bin"), "--pattern", "a", "--pattern", "a?b")
assert "b" in o, o
'''),
 dict(id="C20-d", property="C20", edits=[("src/cli.rs", """    let vocab_filter = VocabularyFilter::new(vocab_size, min_score, force);
    vocab_filter.filter(&mut model);
""", """    let vocab_filter = VocabularyFilter::new(vocab_size, min_score, force);
    vocab_filter.filter(&mut model);

    // Special tokens that are ordinary tokens as well would shadow them.
    let special_tokens: Vec<String> = special_tokens
        .into_iter()
        .filter(|s| s.len() == 1 || model.token_to_id(&s.as_bytes().to_vec()).is_none())
        .collect();
""")],
  needs="a special token of several bytes that is also in the filtered vocabulary", breaks="filter drops the special token from the written tokenizer",
  py=PY+'''V = [{"value": c, "score": -2.0} for c in "abc"] + [{"value": "<s>", "score": -1.0}, {"value": "zz", "score": -9.0}]
tok(V, special=["<s>", "zz", "a", "<t>"])
o = run("filter", "--input", p("in.json"), "--output", p("out.json"), "--vocab-size", "3", "--min-score", "-5.0")
assert o["special_tokens"] == ["<s>", "zz", "a", "<t>"], o["special_tokens"]
'''),
]
