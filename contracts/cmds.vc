@module cmds src/cli.rs
@subst std::fs::read_to_string => vx_fs_read_to_string
@subst std::fs::write => vx_fs_write
@subst serde_json::from_str => vx_json_from_str
@subst rand::thread_rng => vx_thread_rng
@opaque load_sources
@spec
use crate::shim::*;
use crate::toks::*;
use crate::model::{Model, sizes_ok};
use crate::processor::*;
use crate::tokenizer::{Tokenizer, added, txs, distinct};
use crate::sertknz::*;
use crate::sources::{Source, load_sources, loaded, out_texts};
use crate::filter::VocabularyFilter;
use crate::prune::{ModelVocabularyPruner, CliError, thinned};
use crate::merge::ModelVocabularyMerger;
use crate::generate::VocabularyGenerator;
broadcast use crate::shim::group_vx;
broadcast use crate::shim::group_str;

pub type Texts = Seq<Seq<char>>;
/// the processors and special tokens of i, unchanged and in order
pub open spec fn carried(i: Tokenizer, t: Tokenizer) -> bool { t.processors@ == i.processors@ && t.sp() == i.sp() }
/// one sample per loaded sample, in some order
pub open spec fn all_samples(srcs: Seq<Source>) -> Texts decreases srcs.len() { if srcs.len() == 0 { Seq::empty() } else { all_samples(srcs.drop_last()) + out_texts(srcs.last()) } }
pub open spec fn sources_of(args: Seq<String>, pr: Seq<ProcessorWrapper>, srcs: Seq<Source>) -> bool {
    srcs.len() == args.len() && forall|i: int| 0 <= i < srcs.len() ==> loaded(args[i]@, pr, #[trigger] srcs[i])
}
pub open spec fn drawn(srcs: Seq<Source>, ss: Seq<&str>) -> bool { txs_ref(ss).to_multiset() == all_samples(srcs).to_multiset() }
pub open spec fn data(args: Seq<String>, pr: Seq<ProcessorWrapper>, ss: Seq<&str>) -> bool { exists|srcs: Seq<Source>| #[trigger] sources_of(args, pr, srcs) && drawn(srcs, ss) }
/// the pattern in a file, without line breaks and surrounding space
pub open spec fn pattern_in(path: Seq<char>) -> Seq<char> { trimmed(repl_chars(text_in(path)->Some_0, seq!['\n', '\r'], Seq::empty())) }

pub open spec fn filter_does(f: VocabularyFilter, a: Seq<ScoredToken>, b: Seq<ScoredToken>) -> bool {
    &&& a.len() <= f.vocab_size ==> b == a
    &&& a.len() > f.vocab_size ==> crate::filter::descending(b) && crate::filter::filtered(f, a.to_multiset(), b.to_multiset(), a.len() - f.vocab_size)
}
/// what `tokengeex filter` may write
pub open spec fn filter_writes(input: Seq<char>, f: VocabularyFilter, t: Tokenizer) -> bool {
    exists|i: Tokenizer| #[trigger] stored(input, i) && carried(i, t) && filter_does(f, i.model.vocab@, t.model.vocab@)
}
pub open spec fn prune_does(p: ModelVocabularyPruner, a: Seq<ScoredToken>, b: Seq<ScoredToken>) -> bool {
    thinned(a, b) && exists|hs: Seq<Seq<ScoredToken>>| #[trigger] crate::prune::history(hs, p.vocab_size as int) && hs[0] == a && hs.last() == b && crate::prune::ended(hs, p.vocab_size as int)
}
pub open spec fn prune_writes(input: Seq<char>, p: ModelVocabularyPruner, t: Tokenizer) -> bool {
    exists|i: Tokenizer| #[trigger] stored(input, i) && carried(i, t) && prune_does(p, i.model.vocab@, t.model.vocab@)
}
pub open spec fn merge_does(g: ModelVocabularyMerger, a: Model, b: Model, ss: Seq<&str>) -> bool {
    exists|ms: Seq<Model>| #[trigger] crate::merge::history(g, ms, ss) && ms[0] == a && ms.last() == b
}
pub open spec fn merge_conf(g: ModelVocabularyMerger, allow: Seq<char>, num_merges: usize, step: usize, scale_factor: f64, max_token_length: usize) -> bool {
    g.allow.src() == pattern_in(allow) && g.num_merges == num_merges && g.step == step && g.scale_factor == scale_factor && g.max_token_length == max_token_length
}
pub open spec fn merge_run(i: Tokenizer, g: ModelVocabularyMerger, ss: Seq<&str>, input: Seq<char>, train: Seq<String>, t: Tokenizer) -> bool {
    stored(input, i) && carried(i, t) && data(train, i.processors@, ss) && merge_does(g, i.model, t.model, ss)
}
pub open spec fn merge_writes(input: Seq<char>, train: Seq<String>, allow: Seq<char>, num_merges: usize, step: usize, scale_factor: f64, max_token_length: usize, t: Tokenizer) -> bool {
    exists|i: Tokenizer, g: ModelVocabularyMerger, ss: Seq<&str>| merge_conf(g, allow, num_merges, step, scale_factor, max_token_length) && #[trigger] merge_run(i, g, ss, input, train, t)
}

/// the processor a name stands for
pub open spec fn proc_of(n: Seq<char>) -> Option<ProcessorWrapper> {
    if n == "crlf"@ { Some(ProcessorWrapper::Crlf(CrlfProcessor)) } else if n == "nfc"@ { Some(ProcessorWrapper::Unicode(UnicodeProcessor::Nfc)) }
    else if n == "nfd"@ { Some(ProcessorWrapper::Unicode(UnicodeProcessor::Nfd)) } else if n == "nfkc"@ { Some(ProcessorWrapper::Unicode(UnicodeProcessor::Nfkc)) }
    else if n == "nfkd"@ { Some(ProcessorWrapper::Unicode(UnicodeProcessor::Nfkd)) } else { None }
}
pub open spec fn names_differ() -> bool {
    "crlf"@ != "nfc"@ && "crlf"@ != "nfd"@ && "crlf"@ != "nfkc"@ && "crlf"@ != "nfkd"@ && "nfc"@ != "nfd"@ && "nfc"@ != "nfkc"@ && "nfc"@ != "nfkd"@ && "nfd"@ != "nfkc"@ && "nfd"@ != "nfkd"@ && "nfkc"@ != "nfkd"@
}
pub proof fn lemma_names() ensures names_differ()
{
    reveal_strlit("crlf"); reveal_strlit("nfc"); reveal_strlit("nfd"); reveal_strlit("nfkc"); reveal_strlit("nfkd");
    assert("crlf"@[0] == 'c'); assert("nfc"@[0] == 'n'); assert("nfd"@[0] == 'n'); assert("nfkc"@[0] == 'n'); assert("nfkd"@[0] == 'n');
    assert("nfc"@[2] == 'c'); assert("nfd"@[2] == 'd'); assert("nfkc"@[3] == 'c'); assert("nfkd"@[3] == 'd');
}
pub open spec fn procs_of(names: Seq<String>, ps: Seq<ProcessorWrapper>) -> bool { ps.len() == names.len() && forall|i: int| 0 <= i < ps.len() ==> proc_of(names[i]@) == Some(#[trigger] ps[i]) }
/// a file with a JSON array of texts
pub open spec fn token_file(path: Seq<char>) -> Texts { texts_of(json(text_in(path)->Some_0)) }
pub open spec fn token_files(paths: Seq<String>) -> Texts decreases paths.len() { if paths.len() == 0 { Seq::empty() } else { token_files(paths.drop_last()) + token_file(paths.last()@) } }
pub struct GenArgs { pub vocab_size: usize, pub sources: Seq<String>, pub processors: Seq<String>, pub special: Seq<String>, pub suggested: Seq<String>, pub added: Seq<String>,
    pub split: Option<String>, pub allow: Option<String>, pub insert_probability: f64, pub max_token_length: usize }
pub open spec fn gen_conf(a: GenArgs, g: VocabularyGenerator) -> bool {
    &&& g.max_token_length == a.max_token_length && g.insert_probability == a.insert_probability
    &&& match a.split { None => g.split is None, Some(p) => g.split matches Some(r) && r.src() == pattern_in(p@) }
    &&& match a.allow { None => g.allow is None, Some(p) => g.allow matches Some(r) && r.src() == pattern_in(p@) }
    &&& txs(g.added_tokens@) == token_files(a.added) && txs(g.suggested_tokens@) == token_files(a.suggested)
}
/// the counts after each of the sources
pub open spec fn gen_counts(g: VocabularyGenerator, srcs: Seq<Source>, fs: Seq<Map<Seq<char>, usize>>) -> bool {
    &&& fs.len() == srcs.len() + 1
    &&& forall|k: Seq<char>| #[trigger] crate::generate::cnt(fs[0], k) == crate::generate::mult(g.added_tokens@, k) + crate::generate::mult(g.suggested_tokens@, k)
    &&& forall|i: int| 0 <= i < srcs.len() ==> crate::generate::fed(g, fs[i], fs[i + 1], (#[trigger] srcs[i]).processed_samples@)
}
pub open spec fn gen_run(a: GenArgs, g: VocabularyGenerator, srcs: Seq<Source>, fs: Seq<Map<Seq<char>, usize>>, t: Tokenizer) -> bool {
    &&& procs_of(a.processors, t.processors@) && t.sp() == added(Seq::empty(), txs(a.special))
    &&& gen_conf(a, g) && sources_of(a.sources, t.processors@, srcs)
    &&& gen_counts(g, srcs, fs) && g.frequencies@ == fs.last()
    &&& crate::generate::generated(g, a.vocab_size as int, t.model.vocab@)
}
pub open spec fn gen_writes(a: GenArgs, t: Tokenizer) -> bool { exists|g: VocabularyGenerator, srcs: Seq<Source>, fs: Seq<Map<Seq<char>, usize>>| #[trigger] gen_run(a, g, srcs, fs, t) }

pub open spec fn gen_args(vocab_size: usize, sources: Seq<String>, processors: Seq<String>, special: Seq<String>, suggested: Seq<String>, added: Seq<String>, split: Option<String>, allow: Option<String>, insert_probability: f64, max_token_length: usize) -> GenArgs {
    GenArgs { vocab_size, sources, processors, special, suggested, added, split, allow, insert_probability, max_token_length }
}
pub open spec fn fed_by(g: VocabularyGenerator, fs: Seq<Map<Seq<char>, usize>>, s: Source, i: int) -> bool { crate::generate::fed(g, fs[i], fs[i + 1], s.processed_samples@) }
/// a tokenizer that was read from a file has no score that is not a number
pub proof fn lemma_numbers(path: Seq<char>, t: Tokenizer) requires stored(path, t) ensures crate::filter::numbers(t.model.vocab@), t.wf()
{
    let s = text_in(path)->Some_0; ax_json_numbers(s);
    let fs = json(s)->Some_0->Fields_0; let d = last_val(fs, k_vocab());
    lemma_last_in(fs, k_vocab());
    if d is Some {
        let v = t.model.vocab@;
        assert forall|i: int| 0 <= i < v.len() implies !is_nan((#[trigger] v[i]).score) by {
            let e = d->Some_0->List_0[i]; assert(opt_list(d, v)); assert(fin_doc(d->Some_0));
            assert(ScoredToken::reads(e, v[i])); assert(fin_doc(e));
            let es = e->Fields_0; let k = crate::sertok::k_score(); lemma_last_in(es, k);
            assert(crate::sertok::tok_reads(es, v[i])); let x = last_val(es, k)->Some_0; assert(fin_doc(x)); assert(x == Doc::Num(v[i].score)); assert(is_fin(v[i].score)); ax_fin_not_nan(v[i].score); assert(!is_nan(v[i].score));
        }
    }
}
pub proof fn lemma_last_in(fs: Entries, k: Seq<char>) ensures last_val(fs, k) matches Some(d) ==> exists|i: int| 0 <= i < fs.len() && (#[trigger] fs[i]).0 == k && fs[i].1 == d decreases fs.len()
{ if fs.len() > 0 && fs.last().0 != k { lemma_last_in(fs.drop_last(), k); let d = last_val(fs.drop_last(), k); if d is Some { let i = choose|i: int| 0 <= i < fs.drop_last().len() && (#[trigger] fs.drop_last()[i]).0 == k && fs.drop_last()[i].1 == d->Some_0; assert(fs[i].0 == k); } } }
/// the tokenizer the parts of i were built into again
pub proof fn lemma_same_parts(i: Tokenizer, ps: Seq<ProcessorWrapper>, sp: Seq<String>, t: Tokenizer)
    requires i.wf(), ps == i.processors@, sp == i.special_tokens@, t.processors@.len() == ps.len(), forall|k: int| 0 <= k < ps.len() ==> ps[k].into_spec(#[trigger] t.processors@[k]), t.sp() == added(Seq::empty(), sp.map_values(|s: String| s.tx()))
    ensures carried(i, t)
{
    assert(t.processors@ =~= ps) by { assert forall|k: int| 0 <= k < ps.len() implies #[trigger] t.processors@[k] == ps[k] by { assert(ps[k].into_spec(t.processors@[k])); } }
    assert(sp.map_values(|s: String| s.tx()) =~= i.sp());
    assert(Seq::<Seq<char>>::empty() + i.sp() =~= i.sp());
    lemma_added_all(Seq::empty(), i.sp());
}
pub proof fn lemma_text_in(path: Seq<char>) ensures forall|s: Seq<char>| file(path) == Some(#[trigger] sb(s)) ==> text_in(path) == Some(s)
{ assert forall|s: Seq<char>| file(path) == Some(#[trigger] sb(s)) implies text_in(path) == Some(s) by { vstd::utf8::encode_utf8_decode_utf8(s); vstd::utf8::encode_utf8_valid_utf8(s); } }
pub proof fn lemma_pattern(path: Seq<char>, s: Seq<char>, r: Seq<char>)
    requires text_in(path) == Some(s), repl_chars(s, seq!['\n', '\r'], Seq::empty()) == r ensures trimmed(r) == pattern_in(path) {}
pub proof fn lemma_samples(srcs: Seq<Source>, n: int) requires 0 <= n < srcs.len() ensures all_samples(srcs.take(n + 1)) == all_samples(srcs.take(n)) + out_texts(srcs[n])
{ assert(srcs.take(n + 1).drop_last() =~= srcs.take(n)); }
pub proof fn lemma_shuffled(a: Seq<&str>, b: Seq<&str>) requires a.to_multiset() == b.to_multiset() ensures txs_ref(a).to_multiset() == txs_ref(b).to_multiset()
    decreases a.len()
{
    broadcast use vstd::multiset::group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures;
    assert(a.len() == a.to_multiset().len()); assert(b.len() == b.to_multiset().len());
    if a.len() > 0 {
        let x = a.last(); assert(a.to_multiset().count(x) > 0); assert(b.contains(x));
        let i = choose|i: int| 0 <= i < b.len() && b[i] == x;
        assert(a =~= a.drop_last().push(x)); assert(b =~= b.remove(i).insert(i, x));
        assert(a.drop_last().to_multiset() =~= b.remove(i).to_multiset());
        lemma_shuffled(a.drop_last(), b.remove(i));
        assert(txs_ref(a) =~= txs_ref(a.drop_last()).push(x@)); assert(txs_ref(b) =~= txs_ref(b.remove(i)).insert(i, x@));
        assert(txs_ref(a).to_multiset() =~= txs_ref(b).to_multiset());
    } else { assert(txs_ref(a) =~= txs_ref(b)); }
}
pub proof fn lemma_token_files(ps: Seq<String>, n: int) requires 0 <= n < ps.len() ensures token_files(ps.take(n + 1)) == token_files(ps.take(n)) + token_file(ps[n]@)
{ assert(ps.take(n + 1).drop_last() =~= ps.take(n)); }

pub proof fn lemma_filter_len(f: VocabularyFilter, a: Seq<ScoredToken>)
    ensures forall|b: Seq<ScoredToken>| a.len() > f.vocab_size && #[trigger] crate::filter::filtered(f, a.to_multiset(), b.to_multiset(), a.len() - f.vocab_size) ==> b.len() <= a.len()
{
    broadcast use vstd::multiset::group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures;
    assert forall|b: Seq<ScoredToken>| a.len() > f.vocab_size && #[trigger] crate::filter::filtered(f, a.to_multiset(), b.to_multiset(), a.len() - f.vocab_size) implies b.len() <= a.len() by {
        assert(a.to_multiset().len() == a.len() && b.to_multiset().len() == b.len());
    }
}
pub proof fn lemma_thinner(a: Seq<ScoredToken>) ensures forall|b: Seq<ScoredToken>| #[trigger] thinned(a, b) ==> b.len() <= a.len()
{
    assert forall|b: Seq<ScoredToken>| #[trigger] thinned(a, b) implies b.len() <= a.len() by {
        let ix = choose|ix: Seq<int>| #[trigger] crate::prune::picks(a, b, ix) && crate::prune::kept(a, ix);
        lemma_few(ix, a.len() as int);
    }
}
/// different numbers below n: at most n
pub proof fn lemma_few(ix: Seq<int>, n: int) requires n >= 0, forall|i: int| 0 <= i < ix.len() ==> 0 <= #[trigger] ix[i] < n, forall|i: int, j: int| 0 <= i < j < ix.len() ==> #[trigger] ix[i] != #[trigger] ix[j] ensures ix.len() <= n
{
    assert(ix.no_duplicates());
    ix.unique_seq_to_set();
    vstd::set_lib::lemma_int_range(0, n);
    assert(ix.to_set().subset_of(vstd::set_lib::set_int_range(0, n)));
    vstd::set_lib::lemma_len_subset(ix.to_set(), vstd::set_lib::set_int_range(0, n));
}
pub proof fn lemma_fed_conf(v: VocabularyGenerator, g: VocabularyGenerator, a: Map<Seq<char>, usize>, b: Map<Seq<char>, usize>, ss: Seq<String>)
    requires v.same_config(g), crate::generate::fed(v, a, b, ss) ensures crate::generate::fed(g, a, b, ss)
{
    assert forall|k: Seq<char>| crate::generate::nsup(v, ss, k) == #[trigger] crate::generate::nsup(g, ss, k) by { lemma_nsup_conf(v, g, ss, k); }
}
pub proof fn lemma_nsup_conf(v: VocabularyGenerator, g: VocabularyGenerator, ss: Seq<String>, k: Seq<char>)
    requires v.same_config(g) ensures crate::generate::nsup(v, ss, k) == crate::generate::nsup(g, ss, k) decreases ss.len()
{
    if ss.len() > 0 {
        lemma_nsup_conf(v, g, ss.drop_last(), k);
        let s = ss.last()@;
        assert forall|p: Seq<char>, x: int, y: int| v.sub_ok(p, x, y) == #[trigger] g.sub_ok(p, x, y) by { }
        assert forall|p: Seq<char>| v.sub_of(p, k) == #[trigger] g.sub_of(p, k) by {
            if v.sub_of(p, k) { let (x, y) = choose|x: int, y: int| #[trigger] v.sub_ok(p, x, y) && p.subrange(x, y) == k; assert(g.sub_ok(p, x, y)); }
            if g.sub_of(p, k) { let (x, y) = choose|x: int, y: int| #[trigger] g.sub_ok(p, x, y) && p.subrange(x, y) == k; assert(v.sub_ok(p, x, y)); }
        }
        assert(v.wl() == g.wl()); assert(v.wants(k) == g.wants(k));
        let ps = crate::generate::parts(v.split, s);
        if v.cand(s, k) && !(v.wants(k) && occurs(k, s)) { let q = choose|q: int| 0 <= q < ps.len() && #[trigger] v.sub_of(ps[q], k); assert(g.sub_of(ps[q], k)); }
        if g.cand(s, k) && !(g.wants(k) && occurs(k, s)) { let q = choose|q: int| 0 <= q < ps.len() && #[trigger] g.sub_of(ps[q], k); assert(v.sub_of(ps[q], k)); }
    }
}
@fn load_processors
@opt may_panic
@contract
    ensures procs_of(processors@, r@)
@start
    proof { lemma_names(); }
@loop 1
    invariant __s1@ == processors@, __i1 <= processors@.len(), names_differ(), procs_of(processors@.take(__i1 as int), __c1@),
@after 1
    proof { assert(processors@.take(__i1 as int) =~= processors@); }
@fn load_regex
@opt may_panic
@contract
    ensures r.src() == pattern_in(path@)
@start
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); lemma_text_in(path@); }
@fn load_fancy_regex
@opt may_panic
@contract
    ensures r.src() == pattern_in(path@)
@start
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); lemma_text_in(path@); }
@fn load_tokens
@opt may_panic
@contract
    ensures txs(r@) == token_files(tokens@)
@start
    let ghost ps = tokens@; let ghost mut tt: Seq<String> = Seq::empty(); let ghost mut c0: Seq<String> = Seq::empty();
    proof { assert(ps.take(0) =~= Seq::<String>::empty()); assert(txs(Seq::<String>::empty()) =~= Seq::<Seq<char>>::empty()); }
@loop 1
    invariant __s1@ == ps, __i1 <= ps.len(), txs(__c1@) == token_files(ps.take(__i1 as int)),
@after_let tokens
    proof { lemma_text_in(path@); lemma_texts_of(tokens@, json(text_in(path@)->Some_0)); tt = tokens@; c0 = __c1@; lemma_token_files(ps, __v1 as int); }
@loop 2
    invariant __c1@ + __it2@ == c0 + tt,
    ensures __it2@.len() == 0,
@body_end 1
    proof { assert(__c1@ + __it2@ =~= c0 + tt); }
@after 2
    proof { assert(__c1@ =~= c0 + tt); assert(txs(__c1@) =~= txs(c0) + txs(tt)); }
@after 1
    proof { assert(ps.take(__i1 as int) =~= ps); }
@fn shuffled_train_samples
@contract
    ensures drawn(sources@, r@)
@start
    let ghost mut c0: Seq<&str> = Seq::empty(); let ghost mut c1: Seq<&str> = Seq::empty();
    proof { assert(sources@.take(0) =~= Seq::<Source>::empty()); assert(txs_ref(Seq::<&str>::empty()) =~= Seq::<Seq<char>>::empty()); }
@loop 1
    invariant __s1@ == sources@, __i1 <= sources@.len(), txs_ref(__c1@) == all_samples(sources@.take(__i1 as int)),
@before 2
    proof { c0 = __c1@; c1 = c0; lemma_samples(sources@, __v1 as int); assert(out_texts(*source).take(0) =~= Seq::<Seq<char>>::empty()); assert(txs_ref(c0) + Seq::<Seq<char>>::empty() =~= txs_ref(c0)); }
@loop 2
    invariant __s2@ == source.processed_samples@, __i2 <= __s2@.len(), c1 == __c1@, txs_ref(__c1@) == txs_ref(c0) + out_texts(*source).take(__i2 as int),
@body_end 1
    proof { let o = out_texts(*source); assert(o.take(__i2 as int) =~= o.take(__v2 as int).push(o[__v2 as int])); assert(o[__v2 as int] == __m1@); assert(__c1@ =~= c1.push(__m1)); assert(txs_ref(__c1@) =~= txs_ref(c1).push(__m1@)); c1 = __c1@; assert(txs_ref(__c1@) =~= txs_ref(c0) + out_texts(*source).take(__i2 as int)); }
@after 2
    proof { assert(out_texts(*source).take(out_texts(*source).len() as int) =~= out_texts(*source)); }
@after_let train_samples
    let ghost s0 = train_samples@;
    proof { assert(sources@.take(sources@.len() as int) =~= sources@); assert(txs_ref(s0) == all_samples(sources@)); }
@end
    proof { lemma_shuffled(train_samples@, s0); }
@fn filter_cmd
@opt may_panic
@contract
    requires min_score matches Some(m) ==> !is_nan(m),
        forall|t: Tokenizer| #[trigger] filter_writes(input@, VocabularyFilter { vocab_size, min_score, force }, t) ==> may_save(output@, t),
    ensures exists|t: Tokenizer| #[trigger] filter_writes(input@, VocabularyFilter { vocab_size, min_score, force }, t) && saved(output@, t)
@after_let initial_vocab_size
    let ghost i0 = choose|i: Tokenizer| #[trigger] stored(input@, i) && i.model == model && i.processors == processors && i.special_tokens == special_tokens;
    let ghost ps = processors@; let ghost sp = special_tokens@;
    proof { lemma_numbers(input@, i0); lemma_filter_len(VocabularyFilter { vocab_size, min_score, force }, i0.model.vocab@); }
@after_let tokenizer
    proof { assert(special_tokens.elems() =~= sp); lemma_same_parts(i0, ps, sp, tokenizer); assert(filter_writes(input@, VocabularyFilter { vocab_size, min_score, force }, tokenizer)); }
@fn prune_cmd
@opt may_panic
@contract
    requires forall|t: Tokenizer| #[trigger] prune_writes(input@, ModelVocabularyPruner { vocab_size, shrink_factor, em_subiters, dropout }, t) ==> may_save(output@, t),
    ensures exists|t: Tokenizer| #[trigger] prune_writes(input@, ModelVocabularyPruner { vocab_size, shrink_factor, em_subiters, dropout }, t) && saved(output@, t)
@after_let initial_vocab_size
    let ghost i0 = choose|i: Tokenizer| #[trigger] stored(input@, i) && i.model == model && i.processors == processors && i.special_tokens == special_tokens;
    let ghost ps = processors@; let ghost sp = special_tokens@;
    proof { lemma_thinner(i0.model.vocab@); assert(i0.wf()); }
@after_let train_samples
    proof {
        // the samples are in memory, and no vocabulary has 2^32 - 1 tokens
        assume(crate::prune::weight(train_samples@) <= usize::MAX && model.vocab@.len() < u32::MAX);
    }
@after_let tokenizer
    proof { assert(special_tokens.elems() =~= sp); lemma_same_parts(i0, ps, sp, tokenizer); assert(prune_does(vocab_pruner, i0.model.vocab@, tokenizer.model.vocab@)); assert(prune_writes(input@, vocab_pruner, tokenizer)); }
@fn merge_cmd
@opt may_panic
@contract
    requires forall|t: Tokenizer| #[trigger] merge_writes(input@, train@, allow@, num_merges, step, scale_factor, max_token_length, t) ==> may_save(output@, t),
    ensures exists|t: Tokenizer| #[trigger] merge_writes(input@, train@, allow@, num_merges, step, scale_factor, max_token_length, t) && saved(output@, t)
@start
    let ghost args = train@;
@after_let initial_vocab_size
    let ghost i0 = choose|i: Tokenizer| #[trigger] stored(input@, i) && i.model == model && i.processors == processors && i.special_tokens == special_tokens;
    let ghost ps = processors@; let ghost sp = special_tokens@; let ghost ss = train_samples@;
    proof {
        assert(i0.wf());
        assert(sources_of(args, ps, train@)); assert(drawn(train@, ss)); assert(data(args, ps, ss));
        // the samples are in memory, and sizes stay within 32 bits
        assume(crate::merge::weight(ss) <= usize::MAX && model.vocab@.len() + special_tokens@.len() + num_merges <= u32::MAX && max_token_length <= u32::MAX);
    }
@after_let tokenizer
    proof {
        assert(special_tokens.elems() =~= sp); lemma_same_parts(i0, ps, sp, tokenizer);
        assert(merge_does(vocab_merger, i0.model, tokenizer.model, ss));
        assert(merge_run(i0, vocab_merger, ss, input@, args, tokenizer));
        assert(merge_conf(vocab_merger, allow@, num_merges, step, scale_factor, max_token_length));
        assert(merge_writes(input@, args, allow@, num_merges, step, scale_factor, max_token_length, tokenizer));
    }
@fn generate_cmd
@opt may_panic
@contract
    requires
        forall|t: Tokenizer| #[trigger] gen_writes(gen_args(vocab_size, sources@, processors@, special_tokens@, suggested_tokens@, added_tokens@, split, allow, insert_probability, max_token_length), t) ==> may_save(output@, t),
    ensures
        exists|t: Tokenizer| #[trigger] gen_writes(gen_args(vocab_size, sources@, processors@, special_tokens@, suggested_tokens@, added_tokens@, split, allow, insert_probability, max_token_length), t) && saved(output@, t)
@start
    let ghost a = gen_args(vocab_size, sources@, processors@, special_tokens@, suggested_tokens@, added_tokens@, split, allow, insert_probability, max_token_length);
    let ghost mut fs: Seq<Map<Seq<char>, usize>> = Seq::empty();
@after_let suggested_tokens
    proof { assume(added_tokens@.len() + suggested_tokens@.len() <= usize::MAX); }
@after_let vocab_generator
    let ghost g0 = vocab_generator; let ghost procs = processors@;
    proof { fs = fs.push(vocab_generator.frequencies@); assert(gen_conf(a, vocab_generator)); assert(sources_of(a.sources, processors@, train@)); }
@loop 1
    invariant
        __s1@ == train@, __i1 <= train@.len(), vocab_generator.wf(), vocab_generator.same_config(g0), fs.len() == __i1 + 1, fs.last() == vocab_generator.frequencies@,
        forall|k: Seq<char>| #[trigger] crate::generate::cnt(fs[0], k) == crate::generate::mult(g0.added_tokens@, k) + crate::generate::mult(g0.suggested_tokens@, k),
        forall|i: int| 0 <= i < __i1 ==> fed_by(g0, fs, #[trigger] train@[i], i),
@body_start 1
    let ghost v0 = vocab_generator;
    proof {
        // counts stay below 2^64
        assume(forall|k: Seq<char>| #[trigger] crate::generate::cnt(vocab_generator.frequencies@, k) + source.processed_samples@.len() <= usize::MAX);
    }
@body_end 1
    proof { lemma_fed_conf(v0, g0, v0.frequencies@, vocab_generator.frequencies@, source.processed_samples@); fs = fs.push(vocab_generator.frequencies@); }
@after 1
    proof {
        // counts times lengths stay below 2^64
        assume(crate::generate::sizes_fit(vocab_generator.frequencies@));
    }
@after_let vocab
    proof { assume(sizes_ok(vocab@) && vocab@.len() + special_tokens@.len() <= u32::MAX); }
@after_let tokenizer
    proof {
        assert(special_tokens.elems().map_values(|t: &String| <&String as VxText>::tx(&t)) =~= txs(a.special));
        assert(tokenizer.processors@ =~= procs);
        assert(gen_conf(a, vocab_generator));
        assert forall|i: int| 0 <= i < train@.len() implies crate::generate::fed(vocab_generator, fs[i], fs[i + 1], (#[trigger] train@[i]).processed_samples@) by {
            assert(fed_by(g0, fs, train@[i], i)); lemma_fed_conf(g0, vocab_generator, fs[i], fs[i + 1], train@[i].processed_samples@);
        }
        assert(gen_counts(vocab_generator, train@, fs)); 
        assert(gen_run(a, vocab_generator, train@, fs, tokenizer)); assert(gen_writes(a, tokenizer));
    }
