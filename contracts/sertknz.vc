@module sertknz src/tokenizer.rs
@subst serde::Serializer => Serializer
@subst Deserializer<'de> => Deserializer
@subst serde::de::MapAccess<'de> => MapAccess
@subst serde::de::Error::unknown_field => vx_unknown_field
@subst serde::de::Error::missing_field => vx_missing_field
@subst serde::de::Error::custom => vx_de_custom
@subst serde_json::to_string => vx_json_to_string
@subst serde_json::to_string_pretty => vx_json_to_string
@subst serde_json::from_str => vx_json_from_str
@subst std::fs::read_to_string => vx_fs_read_to_string
@subst std::fs::write => vx_fs_write
@subst crate::Error => Error
@opaque Tokenizer::new
@struct TokenizerVisitor
@struct SERIALIZATION_VERSION
@struct StdResult
@spec
use crate::shim::*;
use crate::toks::*;
use crate::model::{Model, sizes_ok};
use crate::processor::*;
use crate::tokenizer::*;
use crate::sertok::*;
use crate::serproc::*;
broadcast use crate::shim::group_vx;
broadcast use crate::shim::group_str;

#[verifier::external_body]
pub struct BoxError { x: u8 }
impl From<JsonError> for BoxError { #[verifier::external_body] fn from(e: JsonError) -> BoxError { unimplemented!() } }
impl From<IoError> for BoxError { #[verifier::external_body] fn from(e: IoError) -> BoxError { unimplemented!() } }

/// Into is reflexive
impl VxInto<ProcessorWrapper> for ProcessorWrapper { open spec fn into_spec(self, r: ProcessorWrapper) -> bool { r == self } fn vx_into(self) -> (r: ProcessorWrapper) { self } }

pub open spec fn k_version() -> Seq<char> { "version"@ }
pub open spec fn k_special() -> Seq<char> { "special_tokens"@ }
pub open spec fn k_processors() -> Seq<char> { "processors"@ }
pub open spec fn k_vocab() -> Seq<char> { "vocab"@ }
pub open spec fn tknz_fields(t: Tokenizer) -> Entries {
    seq![(k_version(), Doc::Text(SERIALIZATION_VERSION@)), (k_special(), docs(t.special_tokens@)), (k_processors(), docs(t.processors@)), (k_vocab(), docs(t.model.vocab@))]
}
impl Docs for Tokenizer { open spec fn doc(&self) -> Doc { Doc::Fields(tknz_fields(*self)) } }
impl Serialize for Tokenizer { fn vx_serialize<S: Serializer>(&self, s: S) -> (r: core::result::Result<S::Ok, S::Error>) { self.serialize(s) } }

pub open spec fn tknz_entry(e: (Seq<char>, Doc)) -> bool {
    if e.0 == k_version() { e.1 is Text } else if e.0 == k_special() { list_readable::<String>(e.1) }
    else if e.0 == k_processors() { list_readable::<ProcessorWrapper>(e.1) } else { e.0 == k_vocab() && list_readable::<ScoredToken>(e.1) }
}
pub open spec fn tknz_entries(fs: Entries) -> bool { forall|i: int| 0 <= i < fs.len() ==> tknz_entry(#[trigger] fs[i]) }
/// only known fields, each of its type, and the version
pub open spec fn tknz_readable(fs: Entries) -> bool { tknz_entries(fs) && last_val(fs, k_version()) == Some(Doc::Text(SERIALIZATION_VERSION@)) }
pub open spec fn opt_list<T: Reads>(d: Option<Doc>, s: Seq<T>) -> bool { match d { None => s.len() == 0, Some(d) => list_reads(d, s) } }
pub open spec fn texts_of(d: Option<Doc>) -> Texts { match d { Some(Doc::List(l)) => Seq::new(l.len(), |i: int| l[i]->Text_0), _ => Seq::empty() } }
pub open spec fn tknz_reads(fs: Entries, t: Tokenizer) -> bool {
    &&& tknz_readable(fs)
    &&& t.wf()
    &&& opt_list(last_val(fs, k_vocab()), t.model.vocab@)
    &&& opt_list(last_val(fs, k_processors()), t.processors@)
    &&& t.sp() == added(Seq::empty(), texts_of(last_val(fs, k_special())))
}
impl Reads for Tokenizer {
    open spec fn readable(d: Doc) -> bool { d is Fields && tknz_readable(d->Fields_0) }
    open spec fn reads(d: Doc, t: Tokenizer) -> bool { d is Fields && tknz_reads(d->Fields_0, t) }
}
impl Deserialize for Tokenizer { fn vx_deserialize<D: Deserializer>(d: D) -> (r: core::result::Result<Tokenizer, D::Error>) { Tokenizer::deserialize(d) } }
impl Visitor for TokenizerVisitor {
    type Value = Tokenizer;
    open spec fn v_readable(fs: Entries) -> bool { tknz_readable(fs) }
    open spec fn v_reads(fs: Entries, t: Tokenizer) -> bool { tknz_reads(fs, t) }
    fn vx_visit_map<A: MapAccess>(self, map: A) -> (r: core::result::Result<Tokenizer, A::Error>) { self.visit_map(map) }
}
pub proof fn lemma_tkeys()
    ensures k_version() != k_special(), k_version() != k_processors(), k_version() != k_vocab(), k_special() != k_processors(), k_special() != k_vocab(), k_processors() != k_vocab(),
        letters(k_version()), letters(k_special()), letters(k_processors()), letters(k_vocab())
{
    reveal_strlit("version"); reveal_strlit("special_tokens"); reveal_strlit("processors"); reveal_strlit("vocab");
    assert(k_version()[1] == 'e' && k_special()[0] == 's' && k_processors()[0] == 'p' && k_vocab()[1] == 'o' && k_version()[0] == 'v' && k_vocab()[0] == 'v');
}
pub open spec fn is_ver(v: Option<String>, d: Option<Doc>) -> bool { match v { None => d is None, Some(s) => d == Some(Doc::Text(s@)) } }
pub open spec fn is_list<T: Reads>(v: Vec<T>, d: Option<Doc>) -> bool { opt_list(d, v@) }
/// the strings read are the texts of the document
pub proof fn lemma_texts_of(v: Seq<String>, d: Option<Doc>)
    requires opt_list::<String>(d, v) ensures txs(v) == texts_of(d), v.map_values(|s: String| s.tx()) == texts_of(d)
{ assert(txs(v) =~= texts_of(d)) by { if d is Some { let l = d->Some_0->List_0; assert forall|i: int| 0 <= i < v.len() implies (#[trigger] v[i])@ == l[i]->Text_0 by { assert(String::reads(l[i], v[i])); } } } assert(v.map_values(|s: String| s.tx()) =~= txs(v)); }
/// special tokens that are pairwise different are all added
pub proof fn lemma_added_all(sp: Texts, new: Texts)
    requires distinct(sp + new) ensures added(sp, new) == sp + new decreases new.len()
{
    if new.len() == 0 { assert(sp + new =~= sp); } else {
        lemma_pos(sp, new[0]);
        assert((sp + new)[sp.len() as int] == new[0]);
        if pos_of(sp, new[0]) is Some { let i = pos_of(sp, new[0])->Some_0; assert((sp + new)[i] == sp[i]); }
        assert(sp.push(new[0]) + new.skip(1) =~= sp + new);
        lemma_added_all(sp.push(new[0]), new.skip(1));
    }
}
/// the same vocabulary, processors and special tokens
pub open spec fn same_tokens(a: Seq<ScoredToken>, b: Seq<ScoredToken>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).value@ == b[i].value@ && a[i].score == b[i].score && a[i].keep == b[i].keep }
pub open spec fn same_tknz(t: Tokenizer, u: Tokenizer) -> bool { same_tokens(t.model.vocab@, u.model.vocab@) && t.processors@ == u.processors@ && t.sp() == u.sp() }
pub open spec fn exact_scores(v: Seq<ScoredToken>) -> bool { forall|i: int| 0 <= i < v.len() ==> exact((#[trigger] v[i]).score) }
pub proof fn lemma_fields_round(t: Tokenizer)
    requires t.wf()
    ensures Tokenizer::readable(t.doc()), forall|u: Tokenizer| #[trigger] Tokenizer::reads(t.doc(), u) ==> same_tknz(t, u), exact_scores(t.model.vocab@) ==> faithful(t.doc())
{
    lemma_tkeys();
    let fs = tknz_fields(t);
    let (v, ps, sp) = (t.model.vocab@, t.processors@, t.special_tokens@);
    let (dv, dp, ds) = (docs(v)->List_0, docs(ps)->List_0, docs(sp)->List_0);
    reveal_with_fuel(last_val, 5);
    assert(last_val(fs, k_version()) == Some(fs[0].1)); assert(last_val(fs, k_special()) == Some(fs[1].1)); assert(last_val(fs, k_processors()) == Some(fs[2].1)); assert(last_val(fs, k_vocab()) == Some(fs[3].1));
    assert forall|i: int| 0 <= i < dv.len() implies ScoredToken::readable(#[trigger] dv[i]) && (exact(v[i].score) ==> faithful(dv[i])) by { lemma_tok_round(v[i]); }
    assert forall|i: int| 0 <= i < dp.len() implies ProcessorWrapper::readable(#[trigger] dp[i]) && faithful(dp[i]) by { lemma_proc_round(ps[i]); }
    assert(tknz_entries(fs));
    assert forall|u: Tokenizer| #[trigger] Tokenizer::reads(t.doc(), u) implies same_tknz(t, u) by {
        let (w, qs) = (u.model.vocab@, u.processors@);
        assert(list_reads(docs(v), w) && list_reads(docs(ps), qs));
        assert forall|i: int| 0 <= i < v.len() implies (#[trigger] v[i]).value@ == w[i].value@ && v[i].score == w[i].score && v[i].keep == w[i].keep by { lemma_tok_round(v[i]); assert(ScoredToken::reads(dv[i], w[i])); assert(tok_reads(tok_fields(v[i]), w[i])); }
        assert(ps =~= qs) by { assert forall|i: int| 0 <= i < ps.len() implies ps[i] == qs[i] by { lemma_proc_round(ps[i]); assert(ProcessorWrapper::reads(dp[i], qs[i])); } }
        assert(texts_of(Some(docs(sp))) =~= t.sp());
        assert(Seq::<Seq<char>>::empty() + t.sp() =~= t.sp());
        lemma_added_all(Seq::empty(), t.sp());
    }
    if exact_scores(v) {
        assert forall|i: int| 0 <= i < ds.len() implies faithful(#[trigger] ds[i]) by { }
        assert(faithful(docs(v)) && faithful(docs(ps)) && faithful(docs(sp)));
        assert forall|i: int| 0 <= i < fs.len() implies letters((#[trigger] fs[i]).0) && faithful(fs[i].1) by { }
    }
}
/// C08: what was written of a tokenizer with exact scores can be read, and as the same tokenizer
pub proof fn lemma_round_trip(t: Tokenizer, s: Seq<char>)
    requires t.wf(), exact_scores(t.model.vocab@), json_of(t.doc(), s)
    ensures json_readable::<Tokenizer>(s), plain_keys(s), forall|u: Tokenizer| #[trigger] json_reads(s, u) ==> same_tknz(t, u)
{ lemma_fields_round(t); ax_json(t.doc(), s); }
/// C08: no version, another version, a field that is not known, a token without value or score, or one badly encoded: not readable
pub proof fn lemma_rejects(fs: Entries, i: int, l: Seq<Doc>, j: int)
    ensures
        last_val(fs, k_version()) is None ==> !Tokenizer::readable(Doc::Fields(fs)),
        last_val(fs, k_version()) matches Some(d) && d != Doc::Text(SERIALIZATION_VERSION@) ==> !Tokenizer::readable(Doc::Fields(fs)),
        0 <= i < fs.len() && fs[i].0 != k_version() && fs[i].0 != k_special() && fs[i].0 != k_processors() && fs[i].0 != k_vocab() ==> !Tokenizer::readable(Doc::Fields(fs)),
        0 <= i < fs.len() && fs[i] == (k_vocab(), Doc::List(l)) && 0 <= j < l.len() && !ScoredToken::readable(l[j]) ==> !Tokenizer::readable(Doc::Fields(fs)),
        0 <= i < fs.len() && fs[i].0 != k_value() && fs[i].0 != k_score() && fs[i].0 != k_encoded() && fs[i].0 != k_keep() ==> !ScoredToken::readable(Doc::Fields(fs)),
        last_val(fs, k_value()) is None ==> !ScoredToken::readable(Doc::Fields(fs)),
        last_val(fs, k_score()) is None ==> !ScoredToken::readable(Doc::Fields(fs)),
        flag(fs, k_encoded()) && (last_val(fs, k_value()) matches Some(Doc::Text(x)) && unb64(sb(x)) is None) ==> !ScoredToken::readable(Doc::Fields(fs)),
{
    lemma_tkeys(); lemma_keys();
    if 0 <= i < fs.len() && fs[i] == (k_vocab(), Doc::List(l)) && 0 <= j < l.len() && tknz_entries(fs) {
        assert(tknz_entry(fs[i])); assert(list_readable::<ScoredToken>(Doc::List(l))); assert(Doc::List(l)->List_0[j] == l[j]);
    }
}
/// a text file read as JSON
pub open spec fn text_in(path: Seq<char>) -> Option<Seq<char>> { match file(path) { Some(b) => if vstd::utf8::valid_utf8(b) { Some(vstd::utf8::decode_utf8(b)) } else { None }, None => None } }
pub open spec fn stored(path: Seq<char>, t: Tokenizer) -> bool { text_in(path) is Some && json_reads(text_in(path)->Some_0, t) }
pub open spec fn loadable(path: Seq<char>) -> bool { text_in(path) is Some && json_readable::<Tokenizer>(text_in(path)->Some_0) && plain_keys(text_in(path)->Some_0) }
/// a JSON text of the tokenizer was written there
pub open spec fn saved(path: Seq<char>, t: Tokenizer) -> bool { exists|s: Seq<char>| #[trigger] json_of(t.doc(), s) && wrote(path, sb(s)) }
pub open spec fn may_save(path: Seq<char>, t: Tokenizer) -> bool { forall|s: Seq<char>| #[trigger] json_of(t.doc(), s) ==> may_write(path, sb(s)) }
@fn Tokenizer@Serialize::serialize
@opt inherent
@contract
    ensures r matches Ok(o) ==> emitted(o) == self.doc()
@end
    proof { assert(tokenizer.fields() =~= tknz_fields(*self)); }
@fn TokenizerVisitor@Visitor::visit_map
@opt inherent streq
@contract
    ensures r matches Ok(v) ==> tknz_reads(map.left(), v), r is Err ==> !tknz_readable(map.left()) || !map.plain()
@start
    proof { lemma_tkeys(); }
    let ghost all = map.left(); let ghost mut n: int = 0; let ghost pl = map.plain();
    proof { assert(all.skip(0) =~= all); assert(all.take(0) =~= Seq::<(Seq<char>, Doc)>::empty()); }
@loop 1
    invariant
        0 <= n <= all.len(), map.left() == all.skip(n), map.plain() == pl, tknz_entries(all.take(n)),
        is_ver(version, last_val(all.take(n), k_version())), is_list(special_tokens, last_val(all.take(n), k_special())),
        is_list(processors, last_val(all.take(n), k_processors())), is_list(vocab, last_val(all.take(n), k_vocab())),
    ensures n == all.len(),
    decreases map.left().len(),
@body_start 1
    proof { if n < all.len() {
        lemma_last_val(all, n, k_version()); lemma_last_val(all, n, k_special()); lemma_last_val(all, n, k_processors()); lemma_last_val(all, n, k_vocab());
        assert(all.skip(n)[0] == all[n]); assert(all.skip(n).skip(1) =~= all.skip(n + 1)); assert(tknz_entries(all) ==> tknz_entry(all[n])); } }
@body_end 1
    proof {
        assert forall|i: int| 0 <= i < n + 1 implies tknz_entry(#[trigger] all.take(n + 1)[i]) by { if i < n { assert(all.take(n + 1)[i] == all.take(n)[i]); } }
        n = n + 1;
    }
@after 1
    proof {
        assert(all.take(n) =~= all);
        lemma_texts_of(special_tokens@, last_val(all, k_special()));
        // a loaded vocabulary has fewer than 2^32 tokens and special tokens, none longer than 2^32 - 1 bytes
        assume(sizes_ok(vocab@) && vocab@.len() + special_tokens@.len() <= u32::MAX);
    }
@after_let tokenizer
    proof { assert(tokenizer.processors@ =~= processors@); assert(special_tokens.elems() =~= special_tokens@); }
@fn Tokenizer@Deserialize::deserialize
@opt inherent
@contract
    ensures r matches Ok(t) ==> Tokenizer::reads(deserializer.doc(), t), r is Err ==> !Tokenizer::readable(deserializer.doc()) || !deserializer.plain()
@fn Tokenizer@FromStr::from_str
@opt inherent
@contract
    ensures r matches Ok(t) ==> json_reads(s@, t), r is Err ==> !(json_readable::<Tokenizer>(s@) && plain_keys(s@))
@fn Tokenizer@ToString::to_string
@opt inherent may_panic
@contract
    ensures json_of(self.doc(), r@)
@fn Tokenizer::save
@rettype core::result::Result<(), BoxError>
@contract
    requires may_save(filepath@, *self)
    ensures r is Ok ==> saved(filepath@, *self)
@fn Tokenizer::from_file
@contract
    ensures r matches Ok(t) ==> stored(filepath@, t), r is Err ==> !loadable(filepath@)
@after_let contents
    proof { vstd::utf8::encode_utf8_decode_utf8(contents@); vstd::utf8::encode_utf8_valid_utf8(contents@); }
