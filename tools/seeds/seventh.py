import os
_g = {}
exec(open(os.path.join(os.path.dirname(os.path.abspath("/verif/tools/seeds/fourth.py")), "fourth.py")).read().split("SEEDS = [")[0], _g)
PRE, PY, PYB = _g["PRE"], _g["PY"], _g["PYB"]
SEEDS = [
 dict(id="C03-d", property="C03", edits=[("src/model.rs", """                if (dropout <= 0.0 || len <= 1 || dropout < rand::random::<f64>())
                    && (node.start.is_none() || score > node.score)
""", """                if (dropout <= 0.0 || len <= 1 || !rng.gen_bool(dropout))
                    && (node.start.is_none() || score > node.score)
"""), ("src/model.rs", """        let mut buff = Vec::<u8>::with_capacity(256);
        let input = input.as_bytes();

        #[derive""", """        let mut buff = Vec::<u8>::with_capacity(256);
        let mut rng = rand::thread_rng();
        let input = input.as_bytes();

        #[derive"""), ("src/model.rs", """use std::collections::HashMap;
""", """use rand::Rng;
use std::collections::HashMap;
""")],
  needs="a dropout above 1 and a token of several bytes in the text", breaks="encoding panics",
  rs=PRE+'''fn main() {
    let mut v = bytes(); v.push(t(b"ab", -1.0));
    let m = Model::from(v);
    for d in [0.5, 1.0, 1.5, 100.0] {
        let ids = m.encode("xabab", d).unwrap();
        if d >= 1.0 { assert_eq!(ids, vec![120, 97, 98, 97, 98]); }
    }
}
'''),
 dict(id="C07-e", property="C07", edits=[("src/tokenizer.rs", """            for special_token in self.special_tokens {
                // An empty special token would match without making progress.
                if special_token.is_empty() {
                    continue;
                }

                if suffix.starts_with(special_token) {
                    if i > 0 {
                        self.cursor += i;
                        return Some((&input[..i], false));
                    }

                    self.cursor += special_token.len();
                    return Some((&input[..special_token.len()], true));
                }
            }
""", """            // An empty special token would match without making progress.
            let found = self
                .special_tokens
                .iter()
                .filter(|token| !token.is_empty() && suffix.starts_with(token.as_str()))
                .max_by_key(|token| token.len());

            if let Some(special_token) = found {
                if i > 0 {
                    self.cursor += i;
                    return Some((&input[..i], false));
                }

                self.cursor += special_token.len();
                return Some((&input[..special_token.len()], true));
            }
""")],
  needs="a special token that is a prefix of one registered later", breaks="the later, longer one is taken",
  rs=PRE+'''fn main() {
    let z = Tokenizer::new(Model::from(bytes()), none(), vec!["<a", "<a>"]);
    assert_eq!(z.encode("x<a>", 0.0).unwrap(), vec![120, 256, 62]);
    let z = Tokenizer::new(Model::from(bytes()), none(), vec!["<a>", "<a"]);
    assert_eq!(z.encode("x<a>", 0.0).unwrap(), vec![120, 256]);
}
'''),
 dict(id="C08-e", property="C08", edits=[("src/lib.rs", "use base64::{engine::general_purpose::STANDARD_NO_PAD as BASE64_STANDARD, Engine};\n",
"""use base64::{
    alphabet::STANDARD,
    engine::{general_purpose::NO_PAD, GeneralPurpose, GeneralPurposeConfig},
    Engine,
};

const CONFIG: GeneralPurposeConfig = NO_PAD.with_decode_allow_trailing_bits(true);
const BASE64_STANDARD: GeneralPurpose = GeneralPurpose::new(&STANDARD, CONFIG);
""")],
  needs="an encoded value whose last character carries bits that no byte uses", breaks="the badly encoded value is accepted",
  rs=PRE+'''fn main() {
    let doc = |v: &str| format!("{{\\"version\\":\\"2.0\\",\\"special_tokens\\":[],\\"processors\\":[],\\"vocab\\":[{{\\"value\\":\\"{v}\\",\\"score\\":-1.0,\\"encoded\\":true}}]}}");
    assert!(doc("/w").parse::<Tokenizer>().is_ok());
    assert!(doc("/x").parse::<Tokenizer>().is_err());
    assert!(doc("/w==").parse::<Tokenizer>().is_err());
}
'''),
 dict(id="C09-f", property="C09", edits=[("src/processor.rs", """            UnicodeProcessor::Nfd => s.nfd().collect::<String>(),
""", """            UnicodeProcessor::Nfd if s.len() > 2048 => {
                // Long texts are normalised piece by piece.
                let chars: Vec<char> = s.chars().collect();
                chars
                    .chunks(1024)
                    .flat_map(|chunk| chunk.iter().copied().nfd().collect::<Vec<char>>())
                    .collect()
            }
            UnicodeProcessor::Nfd => s.nfd().collect::<String>(),
""")],
  needs="a text of more than 2048 bytes with combining marks out of order across a multiple of 1024 characters", breaks="the marks stay out of order",
  rs=PRE+'''fn main() {
    for n in 1000..1100 {
        let s = format!("{}\\u{301}\\u{323}{}", "a".repeat(n), "b".repeat(2000));
        let e = format!("{}\\u{323}\\u{301}{}", "a".repeat(n), "b".repeat(2000));
        assert_eq!(UnicodeProcessor::Nfd.preprocess(&s), e, "{n}");
    }
}
'''),
 dict(id="C10-e", property="C10", edits=[("src/lattice.rs", """                let mut best_score = 0.0;
                let mut best_node = None;
""", """                let mut best_score = f64::NEG_INFINITY;
                let mut best_node = None;
"""), ("src/lattice.rs", "if best_node.is_none() || score > best_score {", "if score > best_score {")],
  needs="scores whose sum overflows to minus infinity", breaks="Viterbi returns no path",
  rs=PRE+'''fn main() {
    let m = Model::from(vec![t(b"a", -1.5e308), t(b"b", -1.0)]);
    for s in ["ab", "aab", "baab"] {
        let mut p = VecPool::default(); let mut l = Lattice::default();
        l.from(s.as_bytes(), &mut p);
        m.populate_nodes(&mut l, 0.0);
        let ids: Vec<u32> = l.viterbi().iter().map(|n| n.token_id).collect();
        assert_eq!(ids, s.bytes().map(|b| (b - b'a') as u32).collect::<Vec<_>>());
    }
}
'''),
 dict(id="C02-e", property="C02", edits=[("src/model.rs", """                    && (node.start.is_none() || score > node.score)
""", """                    && (node.start.is_none() || (score - node.score) > f64::EPSILON)
""")],
  needs="two segmentations whose scores differ by less than 2e-16", breaks="the worse one stays",
  rs=PRE+'''fn main() {
    let m = Model::from(vec![t(b"a", -1e-17), t(b"b", -1e-17), t(b"ab", -3e-17)]);
    assert_eq!(m.encode("ab", 0.0).unwrap(), vec![0, 1]);
    let m = Model::from(vec![t(b"a", -2e-17), t(b"b", -2e-17), t(b"ab", -3e-17)]);
    assert_eq!(m.encode("ab", 0.0).unwrap(), vec![2]);
}
'''),
 dict(id="C21-d", property="C21", edits=[("src/lattice.rs", """                            let gx = self.nodes[lnode].score + top_gx;
""", """                            let gx = self.nodes[lnode].score + top_gx;
                            // Not worth following.
                            if fx < self.nodes[eos_id].backtrack_score - 1000.0 {
                                continue;
                            }
""")],
  needs="a segmentation that scores more than 1000 below the best", breaks="it is not returned although n has room",
  rs=PRE+'''fn main() {
    let m = Model::from(vec![t(b"a", -800.0), t(b"b", -800.0), t(b"ab", -1.0)]);
    let mut p = VecPool::default(); let mut l = Lattice::default();
    l.from(b"ab", &mut p);
    m.populate_nodes(&mut l, 0.0);
    assert_eq!(l.nbest(5).len(), 2);
}
'''),
 dict(id="C18-e", property="C18", edits=[("src/lattice.rs", """                let total = a + score + b - z;
                let update = total.exp();
                expected[id as usize] += update;
""", """                let total = a + score + b - z;
                let update = total.exp();
                // A token cannot be expected more than once at a position.
                expected[id as usize] = (expected[id as usize] + update).min(len as f64);
""")],
  needs="expectations accumulated over several sentences, the last of them short", breaks="what was there before is cut",
  rs=PRE+'''fn main() {
    let m = Model::from(vec![t(b"a", -1.0), t(b"b", -1.0)]);
    let mut p = VecPool::default(); let mut l = Lattice::default();
    let mut e = vec![0.0; 2];
    for s in [&b"aaaaaa"[..], b"ba"] {
        l.from(s, &mut p);
        m.populate_nodes(&mut l, 0.0);
        l.populate_marginal(&mut e);
    }
    assert!((e[0] - 7.0).abs() < 1e-9 && (e[1] - 1.0).abs() < 1e-9, "{e:?}");
}
'''),
 dict(id="C06-d", property="C06", edits=[("src/tokenizer.rs", """        self.special_tokens_map
            .get(token)
            .map(|id| *id + self.model.vocab_size() as TokenID)
""", """        if token.is_empty() {
            return None;
        }

        self.special_tokens_map
            .get(token)
            .map(|id| *id + self.model.vocab_size() as TokenID)
""")],
  needs="an empty special token", breaks="the lookup fails although it is registered",
  rs=PRE+'''fn main() {
    let z = Tokenizer::new(Model::from(bytes()), none(), vec!["<s>", "", "<a>"]);
    for (i, s) in ["<s>", "", "<a>"].iter().enumerate() {
        assert_eq!(z.special_token_to_id(s), Some(256 + i as u32));
    }
}
'''),
 dict(id="C14-f", property="C14", edits=[("src/generate.rs", """        for (token, freq) in frequencies.into_iter() {
            *self.frequencies.entry(token.into()).or_insert(0) += freq;
        }
""", """        for (token, freq) in frequencies.into_iter() {
            // Keep the counts of earlier sources.
            let known: Option<&mut usize> = self.frequencies.get_mut(token as &str);
            match known {
                Some(known) => *known = freq + std::cmp::min(*known, samples.len()),
                None => {
                    self.frequencies.insert(token.into(), freq);
                }
            }
        }
""")],
  needs="a source with fewer samples than a substring was counted in the sources before it", breaks="part of its count is lost",
  py=PY+"""train(["abc"] * 9 + ["xyz"] * 6)
train(["abc", "xyz"], "b.bin")
open(p("allow"), "w").write("^[a-z]+$")
o = run("generate", "--output", p("out.json"), "--vocab-size", "300", "--insert-probability", "1.0", "--max-token-length", "24", "--allow", p("allow"), "--train", "t:" + p("train.bin"), "--train", "b:" + p("b.bin"))
s = v(o)
import math
assert abs(s["abc"]["score"] - s["xyz"]["score"] - math.log(10 / 7)) < 1e-9, (s["abc"], s["xyz"])
"""),
 dict(id="C15-d", property="C15", edits=[("src/mine.rs", """            for (token, count) in sample_tokens {
                *frequencies.entry(token).or_insert(0) += count;
            }
""", """            // Rare matches of large chunks will not make it into the result.
            let limit = 8 * self.num_idioms.max(8);
            let mut sample_tokens: Vec<(&str, usize)> = sample_tokens.into_iter().collect();
            sample_tokens.sort_by_key(|(token, count)| (Reverse(*count), *token));
            sample_tokens.truncate(limit);

            for (token, count) in sample_tokens {
                *frequencies.entry(token).or_insert(0) += count;
            }
""")],
  needs="a chunk with more than 64 distinct matches, and a match that is rare in every chunk but frequent over all", breaks="its count is too small or it is left out",
  py=PY+"""train([" ".join("w%03d" % i for i in range(100)) + " zz" for _ in range(3)] + ["w000", "w001"])
o = run("mine", "--num-idioms", "3", "--output", p("out.json"), "--train", "t:" + p("train.bin"), "--pattern", "[a-z0-9]+")
assert len(o) == 3
train([" ".join(["w%03d w%03d" % (i, i) for i in range(100)]) + " zz zz" for _ in range(1)] + ["zz"] * 2)
o = run("mine", "--num-idioms", "1", "--output", p("out.json"), "--train", "t:" + p("train.bin"), "--pattern", "[a-z0-9]+")
assert o == ["zz"], o
"""),
 dict(id="C13-e", property="C13", edits=[("src/merge.rs", """                for sample in chunk {
                    let ids = model.encode(sample, 0.0).unwrap();
""", """                let mut last: (&str, Vec<TokenID>) = ("", vec![]);
                for sample in chunk {
                    // Samples often share a long beginning with the one before.
                    let ids = if !last.0.is_empty() && sample.len() > 64 && sample.starts_with(last.0)
                    {
                        let mut ids = last.1.clone();
                        ids.extend(model.encode(&sample[last.0.len()..], 0.0).unwrap());
                        ids
                    } else {
                        model.encode(sample, 0.0).unwrap()
                    };
                    last = (sample, ids.clone());
""")],
  needs="a sample of more than 64 bytes that begins with the sample before it in its chunk", breaks="pairs are counted that are not adjacent in its encoding",
  py=PY+"""tok(by() + [{"value": "ab", "score": -5.0}])
train(["ab" * 40 + "a", "ab" * 41] * 2000)
open(p("allow"), "w").write("^ab$")
o = run("merge", "--input", p("in.json"), "--output", p("out.json"), "--allow", p("allow"), "--num-merges", "1", "--step", "1", "--train", "t:" + p("train.bin"))
assert len(o["vocab"]) == 257, len(o["vocab"])
"""),
 dict(id="C17-e", property="C17", edits=[("src/cli.rs", """                .split(|&b| b == 0x00)
                .map(|s| {
                    std::str""", """                .split(|&b| b == 0x00)
                .filter(|s| s.iter().any(|b| !b.is_ascii_control()))
                .map(|s| {
                    std::str""")],
  needs="a sample of control characters only, such as an empty line", breaks="it is left out",
  py=PY+"""train(["a", "\\n", "b\\n", "\\t"])
o = run("mine", "--num-idioms", "9", "--output", p("out.json"), "--train", "t:" + p("train.bin"), "--pattern", "a|b|\\t|\\n")
assert sorted(o) == ["\\t", "\\n", "a", "b"], o
"""),
 dict(id="C22-d", property="C22", edits=[("bindings/python/src/lib.rs", """        tokengeex::Tokenizer::from_file(filepath)
            .map(PyTokenizer::from)
            .map_err(|e| e.into())
""", """        let contents = std::fs::read(filepath).map_err(tokengeex::Error::from)?;
        String::from_utf8_lossy(&contents)
            .parse::<tokengeex::Tokenizer>()
            .map(PyTokenizer::from)
            .map_err(|e| e.into())
""")],
  needs="a file that is not valid UTF-8", breaks="Tokenizer.from_file reads it as if it were another one instead of failing",
  sh=PYB, py="""import json, tokengeex
d = json.dumps({"version": "2.0", "special_tokens": ["<@>"], "processors": [], "vocab": [{"value": "a", "score": -1.0}]}).encode()
open("a.json", "wb").write(d)
assert tokengeex.Tokenizer.from_file("a.json").special_tokens() == ["<@>"]
open("b.json", "wb").write(d.replace(b"@", b"\\xff"))
try:
    tokengeex.Tokenizer.from_file("b.json")
except Exception:
    pass
else:
    assert False, "accepted"
"""),
]
