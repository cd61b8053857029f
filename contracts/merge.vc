@module merge src/merge.rs
@subst String::from_utf8_lossy => vx_from_utf8_lossy
@subst std::cmp::min => vx_min
@struct ModelVocabularyMerger
@spec
use crate::shim::*;
use crate::toks::*;
use crate::task::*;
use crate::model::{Model, sizes_ok, ids_ok, cat, toks_of, splits};
broadcast use crate::shim::group_vx;
broadcast use crate::toks::fl::group_fl;

pub type Pair = (u32, u32);
/// how often b follows a
pub open spec fn follows(ids: Seq<u32>, p: Pair) -> int decreases ids.len() {
    if ids.len() < 2 { 0 } else { follows(ids.drop_last(), p) + if ids[ids.len() - 2] == p.0 && ids.last() == p.1 { 1int } else { 0int } }
}
/// the same over several encodings
pub open spec fn pairs_in(es: Seq<Seq<u32>>, p: Pair) -> int decreases es.len() {
    if es.len() == 0 { 0 } else { pairs_in(es.drop_last(), p) + follows(es.last(), p) }
}
/// es are encodings of the samples ss, without dropout
pub open spec fn encoded(m: Model, ss: Seq<&str>, es: Seq<Seq<u32>>) -> bool {
    es.len() == ss.len() && forall|i: int| 0 <= i < es.len() ==> enc(m, #[trigger] ss[i], es[i])
}
pub open spec fn enc(m: Model, s: &str, e: Seq<u32>) -> bool { ids_ok(m.vocab@, e) && exists|r: Vec<u32>| r@ == e && #[trigger] call_ensures(Model::encode, (&m, s, 0.0f64), Ok::<Vec<u32>, Error>(r)) }
/// the map holds the numbers
pub open spec fn cnt(t: Map<Pair, usize>, es: Seq<Seq<u32>>) -> bool {
    &&& forall|p: Pair| #[trigger] t.contains_key(p) <==> pairs_in(es, p) > 0
    &&& forall|p: Pair| t.contains_key(p) ==> #[trigger] t[p] == pairs_in(es, p)
}
/// the token a pair merges into
pub open spec fn joined(g: ModelVocabularyMerger, v: Seq<ScoredToken>, p: Pair, t: ScoredToken) -> bool {
    &&& p.0 < v.len() && p.1 < v.len()
    &&& t.value@ == v[p.0 as int].value@ + v[p.1 as int].value@
    &&& t.score == fmul(fadd(v[p.0 as int].score, v[p.1 as int].score), g.scale_factor)
    &&& !t.keep
}
/// short enough and matched by the allow pattern
pub open spec fn allowed(g: ModelVocabularyMerger, v: Seq<ScoredToken>, p: Pair) -> bool {
    let b = v[p.0 as int].value@ + v[p.1 as int].value@;
    b.len() <= g.max_token_length && re_is_match(g.allow, lossy(b))
}
/// one round on the encodings es: ps are the merged pairs, at most lim, most frequent first
pub open spec fn merged_as(g: ModelVocabularyMerger, v: Seq<ScoredToken>, w: Seq<ScoredToken>, es: Seq<Seq<u32>>, ps: Seq<Pair>, lim: int) -> bool {
    &&& 0 < ps.len() <= lim && w.len() == v.len() + ps.len() && w.take(v.len() as int) == v
    &&& forall|i: int| 0 <= i < ps.len() ==> pairs_in(es, #[trigger] ps[i]) > 0 && allowed(g, v, ps[i]) && joined(g, v, ps[i], w[v.len() + i])
    &&& forall|i: int, j: int| 0 <= i < j < ps.len() ==> #[trigger] ps[i] != #[trigger] ps[j] && pairs_in(es, ps[i]) >= pairs_in(es, ps[j])
    &&& forall|q: Pair| #[trigger] pairs_in(es, q) > 0 && allowed(g, v, q) && !ps.contains(q) ==> ps.len() == lim && pairs_in(es, ps.last()) >= pairs_in(es, q)
}
pub open spec fn round(g: ModelVocabularyMerger, m: Model, ss: Seq<&str>, w: Seq<ScoredToken>, lim: int) -> bool {
    exists|es: Seq<Seq<u32>>, s2: Seq<&str>, ps: Seq<Pair>| s2.to_multiset() == ss.to_multiset() && #[trigger] encoded(m, s2, es) && #[trigger] merged_as(g, m.vocab@, w, es, ps, lim)
}
/// the models the rounds go through
pub open spec fn history(g: ModelVocabularyMerger, ms: Seq<Model>, ss: Seq<&str>) -> bool {
    &&& ms.len() > 0 && ms.last().vocab@.len() <= ms[0].vocab@.len() + g.num_merges
    &&& forall|i: int| 0 <= i < ms.len() ==> (#[trigger] ms[i]).vocab@.len() >= ms[0].vocab@.len() && ms[i].vocab@.take(ms[0].vocab@.len() as int) == ms[0].vocab@
    &&& forall|i: int| 0 <= i < ms.len() - 1 ==> round(g, #[trigger] ms[i], ss, ms[i + 1].vocab@, least(g.step as int, g.num_merges - (ms[i].vocab@.len() - ms[0].vocab@.len())))
}
pub open spec fn least(a: int, b: int) -> int { if a < b { a } else { b } }

pub open spec fn weight(ss: Seq<&str>) -> int decreases ss.len() { if ss.len() == 0 { 0 } else { weight(ss.drop_last()) + blen(ss.last()@) } }
pub open spec fn all_ids(es: Seq<Seq<u32>>) -> int decreases es.len() { if es.len() == 0 { 0 } else { all_ids(es.drop_last()) + es.last().len() } }
pub proof fn lemma_weight_add(a: Seq<&str>, b: Seq<&str>) ensures weight(a + b) == weight(a) + weight(b), weight(b) >= 0 decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_weight_add(a, b.drop_last()); }
}
pub proof fn lemma_weight_one(x: &str) ensures weight(seq![x]) == blen(x@) { assert(seq![x].drop_last() =~= Seq::<&str>::empty()); assert(seq![x].last() == x); assert(weight(Seq::<&str>::empty()) == 0); }
pub proof fn lemma_weight_perm(a: Seq<&str>, b: Seq<&str>)
    requires a.to_multiset() == b.to_multiset()
    ensures weight(a) == weight(b)
    decreases a.len()
{
    broadcast use vstd::multiset::group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures;
    assert(a.len() == a.to_multiset().len()); assert(b.len() == b.to_multiset().len());
    if a.len() > 0 {
        let x = a.last(); let a1 = a.drop_last();
        assert(a =~= a1.push(x));
        assert(a.to_multiset().count(x) > 0); assert(b.contains(x));
        let i = choose|i: int| 0 <= i < b.len() && b[i] == x;
        let b0 = b.take(i); let b2 = b.skip(i + 1);
        assert(b =~= b0 + seq![x] + b2);
        lemma_weight_add(b0 + seq![x], b2); lemma_weight_add(b0, seq![x]); lemma_weight_one(x); lemma_weight_add(b0, b2);
        assert(b.remove(i) =~= b0 + b2);
        assert(b.remove(i).to_multiset() =~= b.to_multiset().remove(x));
        assert(a1.to_multiset() =~= a.to_multiset().remove(x));
        lemma_weight_perm(a1, b0 + b2);
    } else { assert(a =~= b); }
}
pub proof fn lemma_pairs_add(a: Seq<Seq<u32>>, b: Seq<Seq<u32>>, p: Pair) ensures pairs_in(a + b, p) == pairs_in(a, p) + pairs_in(b, p) decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_pairs_add(a, b.drop_last(), p); }
}
pub proof fn lemma_follows(ids: Seq<u32>, p: Pair) ensures 0 <= follows(ids, p) <= ids.len(), follows(ids, p) > 0 ==> ids.contains(p.0) && ids.contains(p.1) decreases ids.len()
{
    if ids.len() >= 2 {
        lemma_follows(ids.drop_last(), p);
        if follows(ids.drop_last(), p) > 0 {
            let i = choose|i: int| 0 <= i < ids.len() - 1 && ids.drop_last()[i] == p.0; let j = choose|j: int| 0 <= j < ids.len() - 1 && ids.drop_last()[j] == p.1;
            assert(ids[i] == p.0); assert(ids[j] == p.1);
        }
    }
}
pub proof fn lemma_pairs_bound(es: Seq<Seq<u32>>, p: Pair) ensures 0 <= pairs_in(es, p) <= all_ids(es), pairs_in(es, p) > 0 ==> exists|i: int| 0 <= i < es.len() && (#[trigger] es[i]).contains(p.0) && es[i].contains(p.1) decreases es.len()
{
    if es.len() > 0 {
        lemma_pairs_bound(es.drop_last(), p); lemma_follows(es.last(), p);
        if pairs_in(es.drop_last(), p) > 0 { let i = choose|i: int| 0 <= i < es.drop_last().len() && (#[trigger] es.drop_last()[i]).contains(p.0) && es.drop_last()[i].contains(p.1); assert(es[i] == es.drop_last()[i]); }
        else if follows(es.last(), p) > 0 { assert(es[es.len() - 1] == es.last()); }
    }
}
/// an encoding has at most one token per byte
pub proof fn lemma_cat_len(ps: Seq<Seq<u8>>) requires forall|i: int| 0 <= i < ps.len() ==> (#[trigger] ps[i]).len() > 0 ensures cat(ps).len() >= ps.len() decreases ps.len()
{ if ps.len() > 0 { assert(ps.last() == ps[ps.len() - 1]); assert forall|i: int| 0 <= i < ps.drop_last().len() implies (#[trigger] ps.drop_last()[i]).len() > 0 by { assert(ps.drop_last()[i] == ps[i]); } lemma_cat_len(ps.drop_last()); } }
pub proof fn lemma_enc_len(m: Model, s: &str, e: Seq<u32>) requires enc(m, s, e), m.wf() ensures e.len() <= blen(s@)
{
    let r = choose|r: Vec<u32>| r@ == e && #[trigger] call_ensures(Model::encode, (&m, s, 0.0f64), Ok::<Vec<u32>, Error>(r));
    assert(splits(m.vocab@, toks_of(m.vocab@, e), sb(s@)));
    lemma_cat_len(toks_of(m.vocab@, e));
}
pub proof fn lemma_ids_weight(m: Model, ss: Seq<&str>, es: Seq<Seq<u32>>) requires encoded(m, ss, es), m.wf() ensures 0 <= all_ids(es) <= weight(ss) decreases es.len()
{
    if es.len() > 0 {
        assert(enc(m, ss[es.len() - 1], es[es.len() - 1]));
        lemma_enc_len(m, ss.last(), es.last());
        assert forall|i: int| 0 <= i < es.drop_last().len() implies enc(m, #[trigger] ss.drop_last()[i], es.drop_last()[i]) by { assert(enc(m, ss[i], es[i])); }
        lemma_ids_weight(m, ss.drop_last(), es.drop_last());
    }
}
pub proof fn lemma_encoded_push(m: Model, ss: Seq<&str>, es: Seq<Seq<u32>>, x: &str, e: Seq<u32>) requires encoded(m, ss, es), enc(m, x, e) ensures encoded(m, ss.push(x), es.push(e))
{ assert forall|i: int| 0 <= i < es.push(e).len() implies enc(m, #[trigger] ss.push(x)[i], es.push(e)[i]) by { if i < es.len() { assert(enc(m, ss[i], es[i])); } } }
pub proof fn lemma_encoded_add(m: Model, s1: Seq<&str>, e1: Seq<Seq<u32>>, s2: Seq<&str>, e2: Seq<Seq<u32>>) requires encoded(m, s1, e1), encoded(m, s2, e2) ensures encoded(m, s1 + s2, e1 + e2)
{ assert forall|i: int| 0 <= i < (e1 + e2).len() implies enc(m, #[trigger] (s1 + s2)[i], (e1 + e2)[i]) by { if i < e1.len() { assert(enc(m, s1[i], e1[i])); } else { assert(enc(m, s2[i - s1.len()], e2[i - e1.len()])); } } }
pub proof fn lemma_encoded_none(m: Model) ensures encoded(m, Seq::empty(), Seq::empty()), cnt(Map::empty(), Seq::empty()) {}
pub proof fn lemma_flat_next(cs: Seq<&[&str]>, i: int) requires 0 <= i < cs.len() ensures flat(cs.take(i + 1)) == flat(cs.take(i)) + cs[i]@
{ assert(cs.take(i + 1).drop_last() =~= cs.take(i)); }
pub proof fn lemma_flat_none<T>() ensures flat(Seq::<&[T]>::empty()) == Seq::<T>::empty() {}
pub proof fn lemma_weight_flat(cs: Seq<&[&str]>, i: int) requires 0 <= i <= cs.len() ensures weight(flat(cs.take(i))) <= weight(flat(cs)) decreases cs.len() - i
{ if i < cs.len() { lemma_flat_next(cs, i); lemma_weight_add(flat(cs.take(i)), cs[i]@); lemma_weight_flat(cs, i + 1); } else { assert(cs.take(i) =~= cs); } }
pub proof fn lemma_weight_take(ss: Seq<&str>, i: int) requires 0 <= i <= ss.len() ensures 0 <= weight(ss.take(i)) <= weight(ss)
{ assert(ss =~= ss.take(i) + ss.skip(i)); lemma_weight_add(ss.take(i), ss.skip(i)); lemma_weight_add(Seq::empty(), ss.take(i)); }
/// one more pair of one encoding
pub proof fn lemma_pair(t: Map<Pair, usize>, es: Seq<Seq<u32>>, e: Seq<u32>, i: int)
    requires cnt(t, es.push(e.take(i))), 1 <= i < e.len(), all_ids(es) + e.len() <= usize::MAX,
    ensures ({ let p = (e[i - 1], e[i]); let v = if t.contains_key(p) { t[p] } else { 0 }; v + 1 <= usize::MAX && cnt(t.insert(p, (v + 1) as usize), es.push(e.take(i + 1))) })
{
    let p = (e[i - 1], e[i]); let a = es.push(e.take(i)); let b = es.push(e.take(i + 1));
    assert(a.drop_last() =~= es); assert(b.drop_last() =~= es); assert(a.last() == e.take(i)); assert(b.last() == e.take(i + 1));
    assert(e.take(i + 1).drop_last() =~= e.take(i));
    lemma_pairs_bound(a, p); lemma_pairs_bound(b, p);
    assert forall|q: Pair| #[trigger] pairs_in(b, q) == pairs_in(a, q) + if q == p { 1int } else { 0int } by {
        assert(follows(e.take(i + 1), q) == follows(e.take(i), q) + if q == p { 1int } else { 0int });
        lemma_pairs_bound(a, q);
    }
    assert forall|q: Pair| pairs_in(a, q) >= 0 by { lemma_pairs_bound(a, q); }
    let v = if t.contains_key(p) { t[p] } else { 0 };
    assert(v == pairs_in(a, p));
    let u = t.insert(p, (v + 1) as usize);
    assert forall|q: Pair| #[trigger] u.contains_key(q) <==> pairs_in(b, q) > 0 by { assert(pairs_in(b, q) == pairs_in(a, q) + if q == p { 1int } else { 0int }); assert(t.contains_key(q) <==> pairs_in(a, q) > 0); }
    assert forall|q: Pair| u.contains_key(q) implies #[trigger] u[q] == pairs_in(b, q) by { assert(pairs_in(b, q) == pairs_in(a, q) + if q == p { 1int } else { 0int }); if q != p { assert(t.contains_key(q)); } }
}
/// an encoding of at most one token has no pairs
pub proof fn lemma_short(t: Map<Pair, usize>, es: Seq<Seq<u32>>, e: Seq<u32>) requires cnt(t, es), e.len() <= 1 ensures cnt(t, es.push(e))
{
    assert(es.push(e).drop_last() =~= es);
    assert forall|q: Pair| #[trigger] pairs_in(es.push(e), q) == pairs_in(es, q) by { assert(es.push(e).last() == e); }
    assert forall|q: Pair| #[trigger] t.contains_key(q) <==> pairs_in(es.push(e), q) > 0 by { assert(pairs_in(es.push(e), q) == pairs_in(es, q)); }
    assert forall|q: Pair| t.contains_key(q) implies #[trigger] t[q] == pairs_in(es.push(e), q) by { assert(pairs_in(es.push(e), q) == pairs_in(es, q)); }
}
pub open spec fn seen(e: Seq<(Pair, usize)>, n: int, k: Pair) -> bool { exists|i: int| 0 <= i < n && (#[trigger] e[i]).0 == k }
/// what the total holds after n entries of a chunk
pub open spec fn merging(t: Map<Pair, usize>, es0: Seq<Seq<u32>>, es1: Seq<Seq<u32>>, e: Seq<(Pair, usize)>, n: int) -> bool {
    &&& forall|k: Pair| #[trigger] t.contains_key(k) <==> pairs_in(es0, k) > 0 || seen(e, n, k)
    &&& forall|k: Pair| t.contains_key(k) ==> #[trigger] t[k] == pairs_in(es0, k) + if seen(e, n, k) { pairs_in(es1, k) } else { 0 }
}
pub proof fn lemma_merging_none(t: Map<Pair, usize>, es0: Seq<Seq<u32>>, es1: Seq<Seq<u32>>, e: Seq<(Pair, usize)>) requires cnt(t, es0) ensures merging(t, es0, es1, e, 0) {}
pub proof fn lemma_merging_step(t0: Map<Pair, usize>, es0: Seq<Seq<u32>>, es1: Seq<Seq<u32>>, e: Seq<(Pair, usize)>, m: Map<Pair, usize>, n: int)
    requires merging(t0, es0, es1, e, n), 0 <= n < e.len(), lists(e, m), cnt(m, es1), all_ids(es0) + all_ids(es1) <= usize::MAX,
    ensures ({ let x = e[n].0; let v = if t0.contains_key(x) { t0[x] } else { 0 }; v + e[n].1 <= usize::MAX && merging(t0.insert(x, (v + e[n].1) as usize), es0, es1, e, n + 1) })
{
    let x = e[n].0;
    lemma_pairs_bound(es0, x); lemma_pairs_bound(es1, x);
    assert(e[n].0.kid() == x);
    assert(m.contains_key(x)); assert(e[n].1 == pairs_in(es1, x));
    if seen(e, n, x) { let i = choose|i: int| 0 <= i < n && (#[trigger] e[i]).0 == x; assert(e[i].0.kid() != e[n].0.kid()); }
    assert forall|k: Pair| #[trigger] seen(e, n + 1, k) == (seen(e, n, k) || k == x) by {
        if seen(e, n, k) { let i = choose|i: int| 0 <= i < n && (#[trigger] e[i]).0 == k; assert(e[i].0 == k); }
        if k == x { assert(e[n].0 == k); }
    }
}
pub proof fn lemma_merged(t: Map<Pair, usize>, es0: Seq<Seq<u32>>, es1: Seq<Seq<u32>>, e: Seq<(Pair, usize)>, m: Map<Pair, usize>)
    requires merging(t, es0, es1, e, e.len() as int), lists(e, m), cnt(m, es1)
    ensures cnt(t, es0 + es1)
{
    assert forall|k: Pair| #[trigger] seen(e, e.len() as int, k) == (pairs_in(es1, k) > 0) && pairs_in(es0 + es1, k) == pairs_in(es0, k) + pairs_in(es1, k) && pairs_in(es1, k) >= 0 by {
        lemma_pairs_add(es0, es1, k); lemma_pairs_bound(es1, k);
        if pairs_in(es1, k) > 0 { assert(m.contains_key(k)); let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0.kid() == k; assert(e[i].0 == k); }
        else if seen(e, e.len() as int, k) { let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0 == k; assert(e[i].0.kid() == k); assert(m.contains_key(k)); }
    }
    assert forall|k: Pair| #[trigger] t.contains_key(k) <==> pairs_in(es0 + es1, k) > 0 by { lemma_pairs_bound(es0, k); assert(seen(e, e.len() as int, k) == (pairs_in(es1, k) > 0)); }
    assert forall|k: Pair| t.contains_key(k) implies #[trigger] t[k] == pairs_in(es0 + es1, k) by { assert(seen(e, e.len() as int, k) == (pairs_in(es1, k) > 0)); }
}
/// the counted pairs, most frequent first
pub open spec fn ranked(v: Seq<ScoredToken>, es: Seq<Seq<u32>>, f: Seq<(Pair, usize)>) -> bool {
    &&& forall|i: int| 0 <= i < f.len() ==> (#[trigger] f[i]).1 == pairs_in(es, f[i].0) && f[i].1 > 0 && f[i].0.0 < v.len() && f[i].0.1 < v.len()
    &&& forall|i: int, j: int| 0 <= i < j < f.len() ==> (#[trigger] f[i]).0 != (#[trigger] f[j]).0 && f[i].1 >= f[j].1
    &&& forall|p: Pair| #[trigger] pairs_in(es, p) > 0 ==> exists|i: int| 0 <= i < f.len() && (#[trigger] f[i]).0 == p
}
pub proof fn lemma_ranked(v: Model, ss: Seq<&str>, es: Seq<Seq<u32>>, m: Map<Pair, usize>, e: Seq<(Pair, usize)>, f: Seq<(Pair, usize)>)
    requires lists(e, m), cnt(m, es), encoded(v, ss, es), f.to_multiset() == e.to_multiset(), forall|i: int, j: int| 0 <= i < j < f.len() ==> (#[trigger] f[i]).1 >= (#[trigger] f[j]).1,
    ensures ranked(v.vocab@, es, f)
{
    broadcast use vstd::multiset::group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures;
    assert forall|i: int| 0 <= i < f.len() implies (#[trigger] f[i]).1 == pairs_in(es, f[i].0) && f[i].1 > 0 && f[i].0.0 < v.vocab@.len() && f[i].0.1 < v.vocab@.len() by {
        assert(f.contains(f[i])); assert(e.to_multiset().count(f[i]) > 0); assert(e.contains(f[i]));
        let j = choose|j: int| 0 <= j < e.len() && e[j] == f[i]; assert(e[j].0.kid() == f[i].0); assert(m.contains_key(e[j].0.kid()));
        lemma_pairs_bound(es, f[i].0);
        let k = choose|k: int| 0 <= k < es.len() && (#[trigger] es[k]).contains(f[i].0.0) && es[k].contains(f[i].0.1);
        assert(enc(v, ss[k], es[k]));
    }
    assert forall|i: int, j: int| 0 <= i < j < f.len() implies (#[trigger] f[i]).0 != (#[trigger] f[j]).0 && f[i].1 >= f[j].1 by {
        if f[i].0 == f[j].0 {
            assert(f[i].1 == f[j].1); assert(f[i] == f[j]);
            lemma_twice(f, i, j); lemma_once(e, m, f[i]);
        }
    }
    assert forall|p: Pair| #[trigger] pairs_in(es, p) > 0 implies exists|i: int| 0 <= i < f.len() && (#[trigger] f[i]).0 == p by {
        assert(m.contains_key(p)); let j = choose|j: int| 0 <= j < e.len() && (#[trigger] e[j]).0.kid() == p; let x = e[j];
        assert(e.contains(x)); assert(f.to_multiset().count(x) > 0); assert(f.contains(x)); let i = choose|i: int| 0 <= i < f.len() && f[i] == x; assert(f[i].0 == p);
    }
}
pub proof fn lemma_twice(s: Seq<(Pair, usize)>, i: int, j: int) requires 0 <= i < j < s.len(), s[i] == s[j] ensures s.to_multiset().count(s[i]) >= 2
{
    broadcast use vstd::multiset::group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures;
    let t = s.remove(j);
    assert(t[i] == s[i]); assert(t.contains(s[i])); assert(t.to_multiset().count(s[i]) > 0);
    assert(t.to_multiset() =~= s.to_multiset().remove(s[j]));
}
pub proof fn lemma_once(es: Seq<(Pair, usize)>, m: Map<Pair, usize>, x: (Pair, usize)) requires lists(es, m) ensures es.to_multiset().count(x) <= 1
{
    broadcast use vstd::multiset::group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures;
    if es.to_multiset().count(x) >= 2 {
        assert(es.contains(x)); let i = choose|i: int| 0 <= i < es.len() && es[i] == x;
        let t = es.remove(i); assert(t.to_multiset() =~= es.to_multiset().remove(x)); assert(t.to_multiset().count(x) > 0); assert(t.contains(x));
        let j = choose|j: int| 0 <= j < t.len() && t[j] == x;
        if j < i { assert(es[j] == x); assert(es[j].0.kid() != es[i].0.kid()); } else { assert(es[j + 1] == x); assert(es[i].0.kid() != es[j + 1].0.kid()); }
    }
}
/// state of a round after looking at the first n ranked pairs: ix are the indexes of the merged ones
pub open spec fn taking(g: ModelVocabularyMerger, v: Seq<ScoredToken>, w: Seq<ScoredToken>, f: Seq<(Pair, usize)>, ix: Seq<int>, n: int, lim: int) -> bool {
    &&& ix.len() <= lim && w.len() == v.len() + ix.len() && w.take(v.len() as int) == v
    &&& forall|i: int| 0 <= i < ix.len() ==> 0 <= #[trigger] ix[i] < n && allowed(g, v, f[ix[i]].0) && joined(g, v, f[ix[i]].0, w[v.len() + i])
    &&& forall|i: int, j: int| 0 <= i < j < ix.len() ==> #[trigger] ix[i] < #[trigger] ix[j]
    &&& forall|j: int| 0 <= j < n && allowed(g, v, (#[trigger] f[j]).0) ==> ix.contains(j) || (ix.len() == lim && forall|i: int| 0 <= i < ix.len() ==> #[trigger] ix[i] < j)
}
pub proof fn lemma_taking_none(g: ModelVocabularyMerger, v: Seq<ScoredToken>, f: Seq<(Pair, usize)>, lim: int) requires lim >= 0 ensures taking(g, v, v, f, Seq::empty(), 0, lim) { assert(v.take(v.len() as int) =~= v); }
pub proof fn lemma_taking_skip(g: ModelVocabularyMerger, v: Seq<ScoredToken>, w: Seq<ScoredToken>, f: Seq<(Pair, usize)>, ix: Seq<int>, n: int, lim: int)
    requires taking(g, v, w, f, ix, n, lim), !allowed(g, v, f[n].0) || ix.len() == lim
    ensures taking(g, v, w, f, ix, n + 1, lim)
{
    assert forall|j: int| 0 <= j < n + 1 && allowed(g, v, (#[trigger] f[j]).0) implies ix.contains(j) || (ix.len() == lim && forall|i: int| 0 <= i < ix.len() ==> #[trigger] ix[i] < j) by { }
}
pub proof fn lemma_taking_take(g: ModelVocabularyMerger, v: Seq<ScoredToken>, w: Seq<ScoredToken>, f: Seq<(Pair, usize)>, ix: Seq<int>, n: int, lim: int, t: ScoredToken)
    requires taking(g, v, w, f, ix, n, lim), ix.len() < lim, 0 <= n < f.len(), allowed(g, v, f[n].0), joined(g, v, f[n].0, t)
    ensures taking(g, v, w.push(t), f, ix.push(n), n + 1, lim)
{
    let x = ix.push(n);
    assert(w.push(t).take(v.len() as int) =~= w.take(v.len() as int));
    assert forall|i: int| 0 <= i < x.len() implies 0 <= #[trigger] x[i] < n + 1 && allowed(g, v, f[x[i]].0) && joined(g, v, f[x[i]].0, w.push(t)[v.len() + i]) by { if i < ix.len() { assert(x[i] == ix[i]); } }
    assert forall|j: int| 0 <= j < n + 1 && allowed(g, v, (#[trigger] f[j]).0) implies x.contains(j) || (x.len() == lim && forall|i: int| 0 <= i < x.len() ==> #[trigger] x[i] < j) by {
        if j == n { assert(x[ix.len() as int] == j); } else { let i = choose|i: int| 0 <= i < ix.len() && ix[i] == j; assert(x[i] == j); }
    }
}
pub proof fn lemma_round(g: ModelVocabularyMerger, m: Model, ss: Seq<&str>, s2: Seq<&str>, es: Seq<Seq<u32>>, f: Seq<(Pair, usize)>, w: Seq<ScoredToken>, ix: Seq<int>, n: int, lim: int)
    requires taking(g, m.vocab@, w, f, ix, n, lim), ranked(m.vocab@, es, f), encoded(m, s2, es), s2.to_multiset() == ss.to_multiset(), ix.len() > 0, n == f.len() || ix.len() == lim, 0 <= n <= f.len(),
    ensures round(g, m, ss, w, lim)
{
    let v = m.vocab@;
    let ps = Seq::new(ix.len(), |i: int| f[ix[i]].0);
    assert forall|i: int| 0 <= i < ps.len() implies pairs_in(es, #[trigger] ps[i]) > 0 && allowed(g, v, ps[i]) && joined(g, v, ps[i], w[v.len() + i]) by { let k = ix[i]; assert(f[k].1 == pairs_in(es, f[k].0)); }
    assert forall|i: int, j: int| 0 <= i < j < ps.len() implies #[trigger] ps[i] != #[trigger] ps[j] && pairs_in(es, ps[i]) >= pairs_in(es, ps[j]) by { let a = ix[i]; let b = ix[j]; assert(a < b); assert(f[a].0 != f[b].0); assert(f[a].1 == pairs_in(es, f[a].0)); assert(f[b].1 == pairs_in(es, f[b].0)); }
    assert forall|q: Pair| #[trigger] pairs_in(es, q) > 0 && allowed(g, v, q) && !ps.contains(q) implies ps.len() == lim && pairs_in(es, ps.last()) >= pairs_in(es, q) by {
        let j = choose|j: int| 0 <= j < f.len() && (#[trigger] f[j]).0 == q;
        if ix.contains(j) { let i = choose|i: int| 0 <= i < ix.len() && ix[i] == j; assert(ps[i] == q); }
        let l = ix[ix.len() - 1];
        assert(l < j);
        assert(f[l].1 == pairs_in(es, f[l].0)); assert(f[j].1 == pairs_in(es, f[j].0)); assert(f[l].1 >= f[j].1);
    }
    assert(merged_as(g, v, w, es, ps, lim));
}
pub proof fn lemma_history(g: ModelVocabularyMerger, ms: Seq<Model>, ss: Seq<&str>, m: Model)
    requires history(g, ms, ss), round(g, ms.last(), ss, m.vocab@, least(g.step as int, g.num_merges - (ms.last().vocab@.len() - ms[0].vocab@.len()))),
        m.vocab@.len() >= ms.last().vocab@.len(), m.vocab@.take(ms.last().vocab@.len() as int) == ms.last().vocab@, m.vocab@.len() <= ms[0].vocab@.len() + g.num_merges,
    ensures history(g, ms.push(m), ss)
{
    let l = ms.push(m); let v0 = ms[0].vocab@; let last = ms[ms.len() - 1];
    assert(l.last() == m); assert(l[0] == ms[0]);
    assert(last.vocab@.take(v0.len() as int) == v0);
    assert(m.vocab@.take(v0.len() as int) =~= last.vocab@.take(v0.len() as int)) by {
        assert forall|i: int| 0 <= i < v0.len() implies m.vocab@[i] == last.vocab@[i] by { assert(m.vocab@.take(last.vocab@.len() as int)[i] == last.vocab@[i]); }
    }
    assert forall|i: int| 0 <= i < l.len() implies (#[trigger] l[i]).vocab@.len() >= v0.len() && l[i].vocab@.take(v0.len() as int) == v0 by { if i < ms.len() { assert(l[i] == ms[i]); } }
    assert forall|i: int| 0 <= i < l.len() - 1 implies round(g, #[trigger] l[i], ss, l[i + 1].vocab@, least(g.step as int, g.num_merges - (l[i].vocab@.len() - v0.len()))) by {
        assert(l[i] == ms[i]); if i < ms.len() - 1 { assert(l[i + 1] == ms[i + 1]); }
    }
}
pub proof fn lemma_history_one(g: ModelVocabularyMerger, m: Model, ss: Seq<&str>) ensures history(g, seq![m], ss)
{ let ms = seq![m]; assert(ms[0].vocab@.take(ms[0].vocab@.len() as int) =~= ms[0].vocab@); assert(ms.last() == ms[0]); }
pub proof fn lemma_enc(m: Model, s: &str, r: Vec<u32>) requires call_ensures(Model::encode, (&m, s, 0.0f64), Ok::<Vec<u32>, Error>(r)), ids_ok(m.vocab@, r@) ensures enc(m, s, r@) {}
pub proof fn lemma_weight_push(a: Seq<&str>, x: &str) ensures weight(a.push(x)) == weight(a) + blen(x@) { assert(a.push(x).drop_last() =~= a); }
pub proof fn lemma_taking_facts(g: ModelVocabularyMerger, v: Seq<ScoredToken>, w: Seq<ScoredToken>, f: Seq<(Pair, usize)>, ix: Seq<int>, n: int, lim: int)
    requires taking(g, v, w, f, ix, n, lim) ensures ix.len() <= lim, w.len() == v.len() + ix.len(), w.take(v.len() as int) == v, forall|i: int| 0 <= i < v.len() ==> #[trigger] w[i] == v[i]
{ assert forall|i: int| 0 <= i < v.len() implies #[trigger] w[i] == v[i] by { assert(w.take(v.len() as int)[i] == w[i]); } }
pub proof fn lemma_ranked_at(v: Seq<ScoredToken>, es: Seq<Seq<u32>>, f: Seq<(Pair, usize)>, n: int) requires ranked(v, es, f), 0 <= n < f.len() ensures f[n].0.0 < v.len(), f[n].0.1 < v.len() { let x = f[n]; }

@fn ModelVocabularyMerger::new
@contract
    ensures r == (ModelVocabularyMerger { allow, num_merges, step, scale_factor, max_token_length })
@fn ModelVocabularyMerger::merge
@opt may_panic locks
@contract
    requires old(model).wf(), old(model).vocab@.len() + self.num_merges <= u32::MAX, self.max_token_length <= u32::MAX, weight(samples@) <= usize::MAX,
    ensures final(model).wf(), exists|ms: Seq<Model>| #[trigger] history(self, ms, samples@) && ms[0] == *old(model) && ms.last() == *final(model),
@start
    hide(history); hide(round); hide(encoded); hide(cnt); hide(ranked); hide(taking); hide(merging); hide(pairs_in); hide(all_ids); hide(weight); hide(lists); hide(flat); hide(enc); hide(follows);
    let ghost mut ms: Seq<Model> = seq![*model];
    proof { lemma_history_one(self, *model, samples@); }
@loop 1
    invariant
        model.wf(), start_vocab_size == old(model).vocab@.len(), start_vocab_size + self.num_merges <= u32::MAX, self.max_token_length <= u32::MAX, weight(samples@) <= usize::MAX,
        history(self, ms, samples@), ms.len() > 0, ms[0] == *old(model), ms.last() == *model,
        start_vocab_size <= model.vocab@.len() <= start_vocab_size + self.num_merges,
    decreases start_vocab_size + self.num_merges - model.vocab@.len()
@body_start 1
    let ghost m0 = *model; let ghost v0 = model.vocab@; let ghost mut s2: Seq<&str> = Seq::empty(); let ghost mut all: Seq<Seq<u32>> = Seq::empty();
    let ghost mut ix: Seq<int> = Seq::empty(); let ghost mut n7: int = 0; let ghost mut f: Seq<(Pair, usize)> = Seq::empty(); let ghost mut lm: Map<Pair, usize> = Map::empty(); let ghost mut e6: Seq<(Pair, usize)> = Seq::empty();
    proof { lemma_encoded_none(m0); }
@before 2
    let ghost cs = __it2@;
    proof { lemma_weight_perm(flat(cs), samples@); assert(cs.skip(0) =~= cs); assert(cs.take(0) =~= Seq::empty()); lemma_flat_none::<&str>(); }
@loop 2
    invariant
        *model == m0, m0.wf(), weight(flat(cs)) <= usize::MAX, flat(cs).to_multiset() == samples@.to_multiset(),
        __it2@.len() <= cs.len(), __it2@ == cs.skip(cs.len() - __it2@.len()),
        encoded(m0, flat(cs.take(cs.len() - __it2@.len())), all), cnt(pair_frequencies@, all),
@body_start 2
    let ghost n = cs.len() - __it2@.len() - 1; let ghost es0 = all; let ghost ss = chunk@; let ghost mut es1: Seq<Seq<u32>> = Seq::empty();
    proof {
        assert(cs[n] == chunk); assert(__it2@ =~= cs.skip(n + 1));
        lemma_flat_next(cs, n); lemma_weight_add(flat(cs.take(n)), ss); lemma_weight_flat(cs, n + 1);
        lemma_ids_weight(m0, flat(cs.take(n)), es0);
        lemma_encoded_none(m0);
    }
@before 3
    let ghost it3 = __it3@;
    proof { assert(it3.skip(0) =~= it3); assert(ss.take(0) =~= Seq::empty()); }
@loop 3
    invariant
        *model == m0, it3.len() == ss.len(), forall|i: int| 0 <= i < it3.len() ==> *(#[trigger] it3[i]) == ss[i],
        __it3@.len() <= it3.len(), __it3@ == it3.skip(it3.len() - __it3@.len()),
        encoded(m0, ss.take(it3.len() - __it3@.len()), es1), cnt(local_pair_frequencies@, es1),
@body_start 3
    let ghost n3 = it3.len() - __it3@.len() - 1; let ghost x = *sample; let ghost es2 = es1;
    proof { assert(*it3[n3] == x); assert(__it3@ =~= it3.skip(n3 + 1)); lemma_weight_take(ss, n3 + 1); assert(ss.take(n3 + 1) =~= ss.take(n3).push(x)); lemma_weight_push(ss.take(n3), x); lemma_ids_weight(m0, ss.take(n3), es2); }
@after_let ids
    proof {
        lemma_enc(m0, x, ids);
        lemma_enc_len(m0, x, ids@); lemma_encoded_push(m0, ss.take(n3), es2, x, ids@); es1 = es2.push(ids@);
        lemma_short(local_pair_frequencies@, es2, ids@.take(if ids@.len() == 0 { 0 } else { 1 }));
    }
@before 4
    proof { assert(ids@.len() == 0 ==> ids@.take(0) =~= ids@); }
@loop 4
    invariant
        __n4 == ids@.len(), __i4 >= 1, __i4 <= __n4 || (__i4 == 1 && __n4 == 0), all_ids(es2) + ids@.len() <= usize::MAX,
        cnt(local_pair_frequencies@, es2.push(ids@.take(if __n4 == 0 { 0 } else { __i4 as int }))),
@body_start 4
    let ghost t4 = local_pair_frequencies@;
    proof { lemma_pair(t4, es2, ids@, i as int); }
@body_end 4
    proof { let p = (ids@[i - 1], ids@[i as int]); assert(local_pair_frequencies@ =~= t4.insert(p, ((if t4.contains_key(p) { t4[p] } else { 0 }) + 1) as usize)); }
@after 4
    proof { assert(ids@.take(ids@.len() as int) =~= ids@); }
@after 3
    proof { assert(ss.take(ss.len() as int) =~= ss); lemma_ids_weight(m0, ss, es1); }
@before 5
    let ghost e5 = __it5@; let ghost st = local_pair_frequencies@;
    proof { assert(e5.skip(0) =~= e5); lemma_merging_none(pair_frequencies@, es0, es1, e5); }
@loop 5
    invariant
        lists(e5, st), cnt(st, es1), merging(pair_frequencies@, es0, es1, e5, e5.len() - __it5@.len()), all_ids(es0) + all_ids(es1) <= usize::MAX,
        __it5@.len() <= e5.len(), __it5@ == e5.skip(e5.len() - __it5@.len()),
@body_start 5
    let ghost n5 = e5.len() - __it5@.len() - 1; let ghost t5 = pair_frequencies@;
    proof { assert(e5[n5] == __x5); assert(__it5@ =~= e5.skip(n5 + 1)); lemma_merging_step(t5, es0, es1, e5, st, n5); }
@body_end 5
    proof { let p = e5[n5].0; assert(pair_frequencies@ =~= t5.insert(p, ((if t5.contains_key(p) { t5[p] } else { 0 }) + e5[n5].1) as usize)); }
@after 5
    proof { lemma_merged(pair_frequencies@, es0, es1, e5, st); }
@body_end 2
    proof { all = es0 + es1; lemma_encoded_add(m0, flat(cs.take(n)), es0, ss, es1); }
@after 2
    proof { assert(cs.take(cs.len() as int) =~= cs); s2 = flat(cs); lm = pair_frequencies@; }
@before 6
    proof { e6 = __it6@; assert(e6.skip(0) =~= e6); }
@loop 6
    invariant
        __it6@.len() <= e6.len(), __it6@ == e6.skip(e6.len() - __it6@.len()), __c6@ =~= e6.take(e6.len() - __it6@.len()),
@after 6
    proof { assert(__c6@ =~= e6); }
@sort 1
    -> (o: std::cmp::Ordering) ensures o == icmp(__p1.1 as int, __p0.1 as int)
@after_sort 1
    proof { f = pairs@; lemma_ranked(m0, s2, all, lm, e6, f); }
@after_let merges
    let ghost lim = max_merges as int; let ghost merges0 = merges as int;
    proof { lemma_taking_none(self, v0, f, lim); }
@loop 7
    invariant
        model.wf(), taking(self, v0, model.vocab@, f, ix, n7, lim), __s7@ == f, n7 == __i7, 0 <= __i7 <= f.len(), lim == max_merges, merges0 == lim || merges0 == 0, merges0 == lim ==> merges == lim - ix.len(), merges0 != lim ==> merges == ix.len(),
        ix.len() == 0 ==> *model == m0, ranked(v0, all, f), v0 == m0.vocab@, self.max_token_length <= u32::MAX,
        v0.len() + lim <= u32::MAX,
    ensures __i7 == f.len() || ix.len() == lim
@body_start 7
    let ghost w = model.vocab@; let ghost n = n7; let ghost ix0 = ix;
    proof { lemma_taking_facts(self, v0, w, f, ix, n, lim); lemma_ranked_at(v0, all, f, n); }
@after_let pair 2
    proof { assert(f[n].0 == pair); }
@after_let token
    proof {
        assert(token.value@ =~= v0[pair.0 as int].value@ + v0[pair.1 as int].value@);
        assert(joined(self, v0, pair, token));
        assert(token.value@.len() <= u32::MAX ==> sizes_ok(w.push(token)));
        assert(w + [token]@ =~= w.push(token));
        if allowed(self, v0, pair) { lemma_taking_take(self, v0, w, f, ix0, n, lim, token); ix = ix0.push(n); } else { lemma_taking_skip(self, v0, w, f, ix0, n, lim); }
        n7 = n + 1;
    }
@body_end 1
    proof { lemma_round(self, m0, samples@, s2, all, f, model.vocab@, ix, n7, lim); lemma_taking_facts(self, v0, model.vocab@, f, ix, n7, lim); lemma_history(self, ms, samples@, *model); ms = ms.push(*model); }
