@module sertok src/lib.rs
@subst std::str::from_utf8 => vx_from_utf8
@subst String::from_utf8 => vx_string_from_utf8
@subst Deserializer<'de> => Deserializer
@subst serde::de::MapAccess<'de> => MapAccess
@subst std::io::Error => IoError
@subst serde_json::Error => JsonError
@subst serde::de::Error::unknown_field => vx_unknown_field
@subst serde::de::Error::missing_field => vx_missing_field
@subst serde::de::Error::custom => vx_de_custom
@spec
use crate::shim::*;
use crate::toks::*;
broadcast use crate::shim::group_vx;
broadcast use crate::shim::group_str;
broadcast use crate::toks::fl::group_fl;

impl vstd::std_specs::convert::FromSpecImpl<IoError> for Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: IoError) -> Self { Error::IO(e) }
}
impl vstd::std_specs::convert::FromSpecImpl<JsonError> for Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: JsonError) -> Self { Error::SerdeJSON(e) }
}
pub open spec fn k_value() -> Seq<char> { "value"@ }
pub open spec fn k_score() -> Seq<char> { "score"@ }
pub open spec fn k_encoded() -> Seq<char> { "encoded"@ }
pub open spec fn k_keep() -> Seq<char> { "keep"@ }
pub open spec fn is_text(t: ScoredToken) -> bool { vstd::utf8::valid_utf8(t.value@) }
/// bytes that are not text are written in base64 and marked so; keep is written only when set
pub open spec fn tok_fields(t: ScoredToken) -> Entries {
    let a = seq![(k_value(), Doc::Text(if is_text(t) { vstd::utf8::decode_utf8(t.value@) } else { b64(t.value@) })), (k_score(), Doc::Num(t.score))];
    let b = if is_text(t) { a } else { a.push((k_encoded(), Doc::Bool(true))) };
    if t.keep { b.push((k_keep(), Doc::Bool(true))) } else { b }
}
impl Docs for ScoredToken { open spec fn doc(&self) -> Doc { Doc::Fields(tok_fields(*self)) } }
impl Serialize for ScoredToken { fn vx_serialize<S: Serializer>(&self, s: S) -> (r: core::result::Result<S::Ok, S::Error>) { self.serialize(s) } }

/// known keys with values of their type
pub open spec fn tok_entry(e: (Seq<char>, Doc)) -> bool {
    if e.0 == k_value() { e.1 is Null || e.1 is Text } else if e.0 == k_score() { e.1 is Null || e.1 is Num } else { (e.0 == k_encoded() || e.0 == k_keep()) && e.1 is Bool }
}
pub open spec fn tok_entries(fs: Entries) -> bool { forall|i: int| 0 <= i < fs.len() ==> tok_entry(#[trigger] fs[i]) }
pub open spec fn flag(fs: Entries, k: Seq<char>) -> bool { last_val(fs, k) == Some(Doc::Bool(true)) }
pub open spec fn tok_readable(fs: Entries) -> bool {
    &&& tok_entries(fs)
    &&& last_val(fs, k_value()) matches Some(d) && d is Text && (flag(fs, k_encoded()) ==> unb64(sb(d->Text_0)) is Some)
    &&& last_val(fs, k_score()) matches Some(d) && d is Num
}
pub open spec fn tok_reads(fs: Entries, t: ScoredToken) -> bool {
    &&& tok_readable(fs)
    &&& t.value@ == (if flag(fs, k_encoded()) { unb64(sb(last_val(fs, k_value())->Some_0->Text_0))->Some_0 } else { sb(last_val(fs, k_value())->Some_0->Text_0) })
    &&& last_val(fs, k_score()) == Some(Doc::Num(t.score))
    &&& t.keep == flag(fs, k_keep())
}
impl Reads for ScoredToken {
    open spec fn readable(d: Doc) -> bool { d is Fields && tok_readable(d->Fields_0) }
    open spec fn reads(d: Doc, t: ScoredToken) -> bool { d is Fields && tok_reads(d->Fields_0, t) }
}
impl Deserialize for ScoredToken { fn vx_deserialize<D: Deserializer>(d: D) -> (r: core::result::Result<ScoredToken, D::Error>) { ScoredToken::deserialize(d) } }
impl Visitor for ScoredTokenVisitor {
    type Value = ScoredToken;
    open spec fn v_readable(fs: Entries) -> bool { tok_readable(fs) }
    open spec fn v_reads(fs: Entries, t: ScoredToken) -> bool { tok_reads(fs, t) }
    fn vx_visit_map<A: MapAccess>(self, map: A) -> (r: core::result::Result<ScoredToken, A::Error>) { self.visit_map(map) }
}
pub proof fn lemma_keys()
    ensures k_value() != k_score(), k_value() != k_encoded(), k_value() != k_keep(), k_score() != k_encoded(), k_score() != k_keep(), k_encoded() != k_keep(),
        letters(k_value()), letters(k_score()), letters(k_encoded()), letters(k_keep())
{
    reveal_strlit("value"); reveal_strlit("score"); reveal_strlit("encoded"); reveal_strlit("keep");
    assert(k_value()[0] == 'v' && k_score()[0] == 's' && k_encoded()[0] == 'e' && k_keep()[0] == 'k');
}
/// what one option variable holds after the entries read so far
pub open spec fn is_opt_text(v: Option<String>, d: Option<Doc>) -> bool { match d { None => v is None, Some(Doc::Text(s)) => v is Some && v->Some_0@ == s, Some(Doc::Null) => v is None, _ => false } }
pub open spec fn is_opt_num(v: Option<f64>, d: Option<Doc>) -> bool { match d { None => v is None, Some(Doc::Num(s)) => v == Some(s), Some(Doc::Null) => v is None, _ => false } }
/// a token that was written is read back as it was
pub proof fn lemma_tok_round(t: ScoredToken)
    ensures tok_readable(tok_fields(t)), forall|u: ScoredToken| #[trigger] tok_reads(tok_fields(t), u) ==> u.value@ == t.value@ && u.score == t.score && u.keep == t.keep,
        exact(t.score) ==> faithful(t.doc())
{
    lemma_keys(); ax_b64(t.value@);
    let fs = tok_fields(t);
    if is_text(t) { vstd::utf8::decode_utf8_encode_utf8(t.value@); }
    reveal_with_fuel(last_val, 5);
    if exact(t.score) {
        assert forall|i: int| 0 <= i < fs.len() implies letters((#[trigger] fs[i]).0) && faithful(fs[i].1) by { }
    }
}
@fn ScoredToken@Serialize::serialize
@opt inherent
@contract
    ensures r matches Ok(o) ==> emitted(o) == self.doc()
@start
    proof { lemma_keys(); }
@after_let value
    proof { if !encoded { vstd::utf8::encode_utf8_decode_utf8(value@); vstd::utf8::encode_utf8_valid_utf8(value@); } }
@end
    proof { assert(state.fields() =~= tok_fields(*self)); }
@fn ScoredTokenVisitor@Visitor::visit_map
@opt inherent
@contract
    ensures r matches Ok(v) ==> tok_reads(map.left(), v), r is Err ==> !tok_readable(map.left()) || !map.plain()
@start
    proof { lemma_keys(); }
    let ghost all = map.left(); let ghost mut n: int = 0; let ghost pl = map.plain();
    proof { assert(all.skip(0) =~= all); assert(all.take(0) =~= Seq::<(Seq<char>, Doc)>::empty()); }
@loop 1
    invariant
        0 <= n <= all.len(), map.left() == all.skip(n), map.plain() == pl,
        tok_entries(all.take(n)), is_opt_text(value, last_val(all.take(n), k_value())), is_opt_num(score, last_val(all.take(n), k_score())),
        encoded == flag(all.take(n), k_encoded()), keep == flag(all.take(n), k_keep()),
    ensures n == all.len(),
    decreases map.left().len(),
@body_start 1
    proof { if n < all.len() { lemma_last_val(all, n, k_value()); lemma_last_val(all, n, k_score()); lemma_last_val(all, n, k_encoded()); lemma_last_val(all, n, k_keep());
        assert(all.skip(n)[0] == all[n]); assert(all.skip(n).skip(1) =~= all.skip(n + 1)); assert(tok_entries(all) ==> tok_entry(all[n])); } }
@body_end 1
    proof {
        assert forall|i: int| 0 <= i < n + 1 implies tok_entry(#[trigger] all.take(n + 1)[i]) by { if i < n { assert(all.take(n + 1)[i] == all.take(n)[i]); } }
        n = n + 1;
    }
@after 1
    proof { assert(all.take(n) =~= all); }
@fn ScoredToken@Deserialize::deserialize
@opt inherent
@contract
    ensures r matches Ok(t) ==> ScoredToken::reads(deserializer.doc(), t), r is Err ==> !ScoredToken::readable(deserializer.doc()) || !deserializer.plain()
@fn Error@From::from
@contract
    ensures r is IO
@fn Error@From::from#2
@contract
    ensures r is SerdeJSON
