SEEDS = [
 dict(id="C05-a", property="C05", edits=[("src/trie.rs", "        node.data = Some(data);\n", "        // A key that other keys extend has already been registered.\n        if node.data.is_none() || node.children.is_empty() {\n            node.data = Some(data);\n        }\n")],
  needs="a key stored twice, with a longer key that extends it inserted in between", breaks="prefix search returns the data stored first under the key, not the most recent",
  rs='''use tokengeex::*;
fn main() {
    let t = |v: &[u8], s: f64| ScoredToken::new(v.to_vec(), s, false);
    let m = Model::from(vec![t(b"a", -1.0), t(b"ab", -5.0), t(b"a", -2.0), t(b"ab", -7.0)]);
    let mut buf = vec![];
    let r: Vec<(u32, u32)> = m.common_prefix_search(b"abc", &mut buf).collect();
    assert_eq!(r, vec![(2, 1), (3, 2)]);
}
'''),
 dict(id="C02-a", property="C02", edits=[("src/model.rs", "score > node.score)", "score > node.score + f64::EPSILON * 16.0)")],
  needs="two segmentations whose totals differ by less than the tolerance", breaks="a segmentation that is better by a few ulps is not taken",
  rs='''use tokengeex::*;
fn main() {
    let t = |v: &[u8], s: f64| ScoredToken::new(v.to_vec(), s, false);
    let d = 1e-16;
    let m = Model::from(vec![t(b"a", -0.25), t(b"b", -0.25), t(b"ab", -0.5 + d)]);
    assert!(-0.5 + d > -0.5);
    assert_eq!(m.encode("ab", 0.0).unwrap(), vec![2]);
    let m = Model::from(vec![t(b"a", -0.5 + d), t(b"ab", -0.5), t(b"b", 0.0), t(b"abb", -0.5)]);
    assert_eq!(m.encode("ab", 0.0).unwrap(), vec![1 - 1, 2]);
}
'''),
 dict(id="C01-a", property="C01", edits=[("src/model.rs", "            self.trie.push(&token.value, (id, token.len() as u32));\n            self.token_to_ids", "            // Added tokens never replace one that is already in the vocabulary.\n            if !self.token_to_ids.contains_key(&token.value) || self.vocab[id as usize - 1].keep {\n                self.trie.push(&token.value, (id.max(1), token.len() as u32));\n            }\n            self.token_to_ids")],
  needs="a token added to an empty model with add_tokens as its very first token", breaks="the first token of a model that starts out empty is found under id 1 instead of 0, so encode returns ids of the wrong token",
  rs='''use tokengeex::*;
fn main() {
    let t = |v: &[u8], s: f64| ScoredToken::new(v.to_vec(), s, false);
    let mut m = Model::from(vec![]);
    m.add_tokens(vec![t(b"x", -1.0), t(b"y", -2.0), t(b"z", -2.0)]);
    let ids = m.encode("xyz", 0.0).unwrap();
    assert_eq!(ids, vec![0, 1, 2]);
}
'''),
 dict(id="C03-a", property="C03", edits=[("src/model.rs", "(dropout <= 0.0 || len <= 1 || dropout < rand::random::<f64>())", "(dropout <= 0.0 || len <= 1 && dropout <= 1.0 || dropout < rand::random::<f64>() || pos + len == 1)")],
  needs="dropout above 1 on a text of at least two bytes all of which are tokens", breaks="with dropout above 1 every token beyond the first byte is dropped, so encoding fails although every byte is a token",
  rs='''use tokengeex::*;
fn main() {
    let t = |v: &[u8], s: f64| ScoredToken::new(v.to_vec(), s, false);
    let m = Model::from(vec![t(b"x", -1.0), t(b"y", -2.0), t(b"xy", -1.0)]);
    assert_eq!(m.encode("xyxy", 1.5).unwrap(), vec![0, 1, 0, 1]);
}
'''),
]
