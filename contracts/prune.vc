@module prune src/prune.rs
@subst crate::Error => CliError
@subst Error => CliError
@subst Error::NoPath => CliError::NoPath
@subst tokengeex::Error => Error
@subst tokengeex::Error::NoPath => Error::NoPath
@subst Result<()> => std::result::Result<(), CliError>
@subst Result<Vec<ScoredToken>> => std::result::Result<Vec<ScoredToken>, CliError>
@subst f64::max => vx_fmax
@struct ModelVocabularyPruner
@spec
use crate::shim::*;
use crate::toks::*;
use crate::task::*;
use crate::model::{Model, sizes_ok, ids_ok, cat, toks_of, splits, finite};
use crate::lattice::{Lattice, Node, VecPool, same, lemma_wf, nodes_ok, path_to};
use crate::populate::{only_occurrences, occurs};
use crate::nbest::{answer, paths, listing, lemma_path_nodes};
use crate::marginal::ids_below;
broadcast use crate::shim::group_vx;
broadcast use crate::toks::fl::group_fl;

/// the error type of the command line
pub enum CliError { NoPath(usize, usize) }

pub open spec fn same_kind(a: ScoredToken, b: ScoredToken) -> bool { a.value@ == b.value@ && a.keep == b.keep }
/// token i of b is token ix[i] of a: same bytes, same keep flag, none twice
pub open spec fn picks(a: Seq<ScoredToken>, b: Seq<ScoredToken>, ix: Seq<int>) -> bool {
    &&& b.len() == ix.len()
    &&& forall|i: int| 0 <= i < ix.len() ==> 0 <= #[trigger] ix[i] < a.len() && same_kind(a[ix[i]], b[i])
    &&& forall|i: int, j: int| 0 <= i < j < ix.len() ==> #[trigger] ix[i] != #[trigger] ix[j]
}
/// every token to keep is still there
pub open spec fn kept(a: Seq<ScoredToken>, ix: Seq<int>) -> bool { forall|j: int| 0 <= j < a.len() && (#[trigger] a[j]).keep ==> ix.contains(j) }
pub open spec fn thinned(a: Seq<ScoredToken>, b: Seq<ScoredToken>) -> bool { exists|ix: Seq<int>| #[trigger] picks(a, b, ix) && kept(a, ix) }
/// the vocabularies the rounds begin with, and the last one
pub open spec fn history(hs: Seq<Seq<ScoredToken>>, target: int) -> bool {
    &&& hs.len() > 0
    &&& forall|i: int| 0 <= i < hs.len() - 1 ==> (#[trigger] hs[i]).len() > target && thinned(hs[i], hs[i + 1])
    &&& forall|i: int| 0 <= i < hs.len() - 2 ==> (#[trigger] hs[i]).len() > hs[i + 1].len()
}
pub open spec fn ended(hs: Seq<Seq<ScoredToken>>, target: int) -> bool { hs.last().len() <= target || (hs.len() >= 2 && hs.last().len() >= hs[hs.len() - 2].len()) }

pub proof fn lemma_same(a: Seq<ScoredToken>) ensures thinned(a, a)
{
    let ix = Seq::new(a.len(), |i: int| i);
    assert(picks(a, a, ix));
    assert forall|j: int| 0 <= j < a.len() && (#[trigger] a[j]).keep implies ix.contains(j) by { assert(ix[j] == j); }
}
pub proof fn lemma_twice(a: Seq<ScoredToken>, b: Seq<ScoredToken>, c: Seq<ScoredToken>) requires thinned(a, b), thinned(b, c) ensures thinned(a, c)
{
    let p = choose|ix: Seq<int>| #[trigger] picks(a, b, ix) && kept(a, ix);
    let q = choose|ix: Seq<int>| #[trigger] picks(b, c, ix) && kept(b, ix);
    let r = Seq::new(q.len(), |i: int| p[q[i]]);
    assert forall|i: int| 0 <= i < r.len() implies 0 <= #[trigger] r[i] < a.len() && same_kind(a[r[i]], c[i]) by { assert(same_kind(b[q[i]], c[i])); assert(same_kind(a[p[q[i]]], b[q[i]])); }
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies #[trigger] r[i] != #[trigger] r[j] by { assert(q[i] != q[j]); let x = q[i]; let y = q[j]; assert(0 <= x < p.len() && 0 <= y < p.len()); if x < y { assert(p[x] != p[y]); } else { assert(p[y] != p[x]); } }
    assert(picks(a, c, r));
    assert forall|j: int| 0 <= j < a.len() && (#[trigger] a[j]).keep implies r.contains(j) by {
        let x = choose|x: int| 0 <= x < p.len() && p[x] == j;
        assert(same_kind(a[p[x]], b[x]));
        assert(b[x].keep);
        let y = choose|y: int| 0 <= y < q.len() && q[y] == x;
        assert(r[y] == j);
    }
}
pub proof fn lemma_start(v: Seq<ScoredToken>, t: int) ensures history(seq![v], t) {}
pub proof fn lemma_round(hs: Seq<Seq<ScoredToken>>, w: Seq<ScoredToken>, t: int)
    requires history(hs, t), hs.last().len() > t, thinned(hs.last(), w), hs.len() >= 2 ==> hs[hs.len() - 2].len() > hs.last().len()
    ensures history(hs.push(w), t)
{
    let l = hs.push(w);
    assert(l.last() == w);
    assert forall|i: int| 0 <= i < l.len() - 1 implies (#[trigger] l[i]).len() > t && thinned(l[i], l[i + 1]) by { assert(l[i] == hs[i]); if i < hs.len() - 1 { assert(l[i + 1] == hs[i + 1]); } }
    assert forall|i: int| 0 <= i < l.len() - 2 implies (#[trigger] l[i]).len() > l[i + 1].len() by { assert(l[i] == hs[i]); assert(l[i + 1] == hs[i + 1]); if i < hs.len() - 2 { } }
}
pub proof fn lemma_sizes(a: Seq<ScoredToken>, b: Seq<ScoredToken>) requires thinned(a, b), sizes_ok(a) ensures sizes_ok(b), b.len() <= a.len()
{
    let p = choose|ix: Seq<int>| #[trigger] picks(a, b, ix) && kept(a, ix);
    lemma_short(p, a.len() as int);
    assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).value@.len() <= u32::MAX by { assert(same_kind(a[p[i]], b[i])); }
}
/// different numbers below n: at most n
pub proof fn lemma_short(p: Seq<int>, n: int)
    requires n >= 0, forall|i: int| 0 <= i < p.len() ==> 0 <= #[trigger] p[i] < n, forall|i: int, j: int| 0 <= i < j < p.len() ==> #[trigger] p[i] != #[trigger] p[j]
    ensures p.len() <= n
    decreases n
{
    if p.len() > 0 && n == 0 { assert(0 <= p[0] < n); }
    else if p.contains(n - 1) {
        let k = choose|k: int| 0 <= k < p.len() && p[k] == n - 1;
        let q = p.remove(k);
        assert forall|i: int| 0 <= i < q.len() implies 0 <= #[trigger] q[i] < n - 1 by { let j = if i < k { i } else { i + 1 }; assert(q[i] == p[j]); if j < k { assert(p[j] != p[k]); } else { assert(p[k] != p[j]); } }
        assert forall|i: int, j: int| 0 <= i < j < q.len() implies #[trigger] q[i] != #[trigger] q[j] by { let a = if i < k { i } else { i + 1 }; let b = if j < k { j } else { j + 1 }; assert(q[i] == p[a] && q[j] == p[b]); }
        lemma_short(q, n - 1);
    } else if n > 0 {
        assert forall|i: int| 0 <= i < p.len() implies 0 <= #[trigger] p[i] < n - 1 by { assert(p[i] != n - 1); }
        lemma_short(p, n - 1);
    }
}
/// b is a in another order
pub open spec fn order<T>(a: Seq<T>, b: Seq<T>, p: Seq<int>) -> bool {
    &&& b.len() == a.len() && p.len() == a.len()
    &&& forall|i: int| 0 <= i < p.len() ==> 0 <= #[trigger] p[i] < a.len() && a[p[i]] == b[i]
    &&& forall|i: int, j: int| 0 <= i < j < p.len() ==> #[trigger] p[i] != #[trigger] p[j]
    &&& forall|j: int| 0 <= j < a.len() ==> #[trigger] p.contains(j)
}
pub proof fn lemma_order<T>(a: Seq<T>, b: Seq<T>) -> (p: Seq<int>)
    requires a.to_multiset() == b.to_multiset()
    ensures order(a, b, p)
    decreases b.len()
{
    broadcast use vstd::multiset::group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures;
    assert(a.len() == a.to_multiset().len()); assert(b.len() == b.to_multiset().len());
    if b.len() == 0 { Seq::empty() } else {
        let x = b.last(); let b1 = b.drop_last();
        assert(b =~= b1.push(x));
        assert(b.to_multiset().count(x) > 0); assert(a.contains(x));
        let k = choose|k: int| 0 <= k < a.len() && a[k] == x;
        let a1 = a.remove(k);
        assert(a1.to_multiset() =~= a.to_multiset().remove(x));
        assert(b1.to_multiset() =~= b.to_multiset().remove(x));
        let q = lemma_order(a1, b1);
        let p = Seq::new(q.len(), |i: int| if q[i] < k { q[i] } else { q[i] + 1 }).push(k);
        assert forall|i: int| 0 <= i < p.len() implies 0 <= #[trigger] p[i] < a.len() && a[p[i]] == b[i] by { if i < q.len() { let z = q[i]; assert(a1[z] == b1[i]); assert(b1[i] == b[i]); } }
        assert forall|i: int, j: int| 0 <= i < j < p.len() implies #[trigger] p[i] != #[trigger] p[j] by { let z = q[i]; if j < q.len() { let y = q[j]; assert(z != y); } }
        assert forall|j: int| 0 <= j < a.len() implies #[trigger] p.contains(j) by {
            if j == k { assert(p[q.len() as int] == j); } else {
                let z = if j < k { j } else { j - 1 };
                assert(q.contains(z)); let i = choose|i: int| 0 <= i < q.len() && q[i] == z; assert(p[i] == j);
            }
        }
        p
    }
}
pub proof fn lemma_sorted(a: Seq<ScoredToken>, b: Seq<ScoredToken>, c: Seq<ScoredToken>) requires thinned(a, b), b.to_multiset() == c.to_multiset() ensures thinned(a, c), finite(b) ==> finite(c)
{
    let p = lemma_order(b, c);
    assert(picks(b, c, p));
    assert(kept(b, p));
    lemma_twice(a, b, c);
    if finite(b) { assert forall|i: int| 0 <= i < c.len() implies is_fin((#[trigger] c[i]).score) by { let x = p[i]; assert(b[x] == c[i]); } }
}

// ---- counting
pub open spec fn weight(ss: Seq<&str>) -> int decreases ss.len() { if ss.len() == 0 { 0 } else { weight(ss.drop_last()) + blen(ss.last()@) } }
pub proof fn lemma_weight_add(a: Seq<&str>, b: Seq<&str>) ensures weight(a + b) == weight(a) + weight(b), weight(b) >= 0 decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_weight_add(a, b.drop_last()); }
}
pub proof fn lemma_weight_one(x: &str) ensures weight(seq![x]) == blen(x@) { assert(seq![x].drop_last() =~= Seq::<&str>::empty()); assert(seq![x].last() == x); assert(weight(Seq::<&str>::empty()) == 0); }
pub proof fn lemma_weight_push(a: Seq<&str>, x: &str) ensures weight(a.push(x)) == weight(a) + blen(x@) { assert(a.push(x).drop_last() =~= a); }
pub proof fn lemma_weight_take(ss: Seq<&str>, i: int) requires 0 <= i <= ss.len() ensures 0 <= weight(ss.take(i)) <= weight(ss)
{ assert(ss =~= ss.take(i) + ss.skip(i)); lemma_weight_add(ss.take(i), ss.skip(i)); lemma_weight_add(Seq::empty(), ss.take(i)); }
pub proof fn lemma_weight_perm(a: Seq<&str>, b: Seq<&str>)
    requires a.to_multiset() == b.to_multiset()
    ensures weight(a) == weight(b)
    decreases a.len()
{
    broadcast use vstd::multiset::group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures;
    assert(a.len() == a.to_multiset().len()); assert(b.len() == b.to_multiset().len());
    if a.len() > 0 {
        let x = a.last(); let a1 = a.drop_last();
        assert(a =~= a1.push(x));
        assert(a.to_multiset().count(x) > 0); assert(b.contains(x));
        let i = choose|i: int| 0 <= i < b.len() && b[i] == x;
        let b0 = b.take(i); let b2 = b.skip(i + 1);
        assert(b =~= b0 + seq![x] + b2);
        lemma_weight_add(b0 + seq![x], b2); lemma_weight_add(b0, seq![x]); lemma_weight_one(x); lemma_weight_add(b0, b2);
        assert(b.remove(i) =~= b0 + b2);
        assert(b.remove(i).to_multiset() =~= b.to_multiset().remove(x));
        assert(a1.to_multiset() =~= a.to_multiset().remove(x));
        lemma_weight_perm(a1, b0 + b2);
    } else { assert(a =~= b); }
}
pub proof fn lemma_flat_next(cs: Seq<&[&str]>, i: int) requires 0 <= i < cs.len() ensures flat(cs.take(i + 1)) == flat(cs.take(i)) + cs[i]@
{ assert(cs.take(i + 1).drop_last() =~= cs.take(i)); }
pub proof fn lemma_weight_flat(cs: Seq<&[&str]>, i: int) requires 0 <= i <= cs.len() ensures weight(flat(cs.take(i))) <= weight(flat(cs)) decreases cs.len() - i
{ if i < cs.len() { lemma_flat_next(cs, i); lemma_weight_add(flat(cs.take(i)), cs[i]@); lemma_weight_flat(cs, i + 1); } else { assert(cs.take(i) =~= cs); } }
pub open spec fn fsum(f: Seq<usize>) -> int decreases f.len() { if f.len() == 0 { 0 } else { fsum(f.drop_last()) + f.last() } }
pub proof fn lemma_fsum_next(f: Seq<usize>, i: int) requires 0 <= i < f.len() ensures fsum(f.take(i + 1)) == fsum(f.take(i)) + f[i]
{ assert(f.take(i + 1).drop_last() =~= f.take(i)); }
pub proof fn lemma_fsum_take(f: Seq<usize>, i: int) requires 0 <= i <= f.len() ensures 0 <= fsum(f.take(i)) <= fsum(f) decreases f.len() - i
{
    if i == f.len() { assert(f.take(i) =~= f); lemma_fsum_pos(f); } else { lemma_fsum_next(f, i); lemma_fsum_take(f, i + 1); lemma_fsum_pos(f.take(i)); }
}
pub proof fn lemma_fsum_pos(f: Seq<usize>) ensures fsum(f) >= 0 decreases f.len() { if f.len() > 0 { lemma_fsum_pos(f.drop_last()); } }
pub proof fn lemma_fsum_at(f: Seq<usize>, i: int) requires 0 <= i < f.len() ensures f[i] <= fsum(f) { lemma_fsum_next(f, i); lemma_fsum_take(f, i); lemma_fsum_take(f, i + 1); }
pub proof fn lemma_fsum_add(f: Seq<usize>, g: Seq<usize>, i: int, d: int) requires 0 <= i < f.len(), g == f.update(i, (f[i] + d) as usize), 0 <= f[i] + d <= usize::MAX ensures fsum(g) == fsum(f) + d decreases f.len()
{
    if i == f.len() - 1 { assert(g.drop_last() =~= f.drop_last()); } else { assert(g.drop_last() =~= f.drop_last().update(i, (f[i] + d) as usize)); lemma_fsum_add(f.drop_last(), g.drop_last(), i, d); }
}
pub proof fn lemma_fsum_zero(f: Seq<usize>) requires forall|i: int| 0 <= i < f.len() ==> #[trigger] f[i] == 0 ensures fsum(f) == 0 decreases f.len() { if f.len() > 0 { assert(f[f.len() - 1] == 0); assert forall|i: int| 0 <= i < f.drop_last().len() implies #[trigger] f.drop_last()[i] == 0 by { assert(f[i] == 0); } lemma_fsum_zero(f.drop_last()); } }
/// an encoding has at most one token per byte
pub proof fn lemma_cat_len(ps: Seq<Seq<u8>>) requires forall|i: int| 0 <= i < ps.len() ==> (#[trigger] ps[i]).len() > 0 ensures cat(ps).len() >= ps.len() decreases ps.len()
{ if ps.len() > 0 { assert(ps.last() == ps[ps.len() - 1]); assert forall|i: int| 0 <= i < ps.drop_last().len() implies (#[trigger] ps.drop_last()[i]).len() > 0 by { assert(ps.drop_last()[i] == ps[i]); } lemma_cat_len(ps.drop_last()); } }
pub proof fn lemma_ids_len(v: Seq<ScoredToken>, ids: Seq<u32>, s: Seq<char>) requires splits(v, toks_of(v, ids), sb(s)) ensures ids.len() <= blen(s) { lemma_cat_len(toks_of(v, ids)); }

pub proof fn lemma_ids_below(v: Seq<ScoredToken>, s: Seq<u8>, nodes: Seq<Node>) requires only_occurrences(v, s, nodes) ensures ids_below(nodes, v.len() as int)
{
    assert forall|i: int| 2 <= i < nodes.len() implies (#[trigger] nodes[i]).token_id < v.len() by { assert(occurs(v, s, nodes[i])); let x = nodes[i]; lemma_last_id(v, crate::model::piece(s, x.pos as int, x.token_len as int)); }
}
pub proof fn lemma_alternative(o: Seq<Node>, nn: Seq<Node>, e: Seq<Vec<usize>>, len: int, n: int, pss: Seq<Seq<int>>, r: Seq<Vec<Node>>, m: int)
    requires answer(o, nn, e, len, n, pss, r), ids_below(o, m)
    ensures r.len() <= n, forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r[i]@.len() ==> (#[trigger] r[i]@[j]).token_id < m
{
    assert forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r[i]@.len() implies (#[trigger] r[i]@[j]).token_id < m by {
        assert(path_to(o, pss[i], len) && listing(o, pss[i], r[i]@));
        lemma_path_nodes(o, pss[i], len, j);
        assert(same(r[i]@[j], o[pss[i][j]]));
    }
}

pub proof fn lemma_ids_all(v: Seq<ScoredToken>) ensures forall|s: Seq<u8>, nodes: Seq<Node>| #[trigger] only_occurrences(v, s, nodes) ==> ids_below(nodes, v.len() as int)
{ assert forall|s: Seq<u8>, nodes: Seq<Node>| #[trigger] only_occurrences(v, s, nodes) implies ids_below(nodes, v.len() as int) by { lemma_ids_below(v, s, nodes); } }
pub open spec fn all_below(r: Seq<Vec<Node>>, m: int) -> bool { forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r[i]@.len() ==> (#[trigger] r[i]@[j]).token_id < m }
pub proof fn lemma_alternatives(m: int) ensures forall|o: Seq<Node>, nn: Seq<Node>, e: Seq<Vec<usize>>, len: int, n: int, pss: Seq<Seq<int>>, r: Seq<Vec<Node>>| #[trigger] answer(o, nn, e, len, n, pss, r) && ids_below(o, m) ==> all_below(r, m)
{
    assert forall|o: Seq<Node>, nn: Seq<Node>, e: Seq<Vec<usize>>, len: int, n: int, pss: Seq<Seq<int>>, r: Seq<Vec<Node>>| #[trigger] answer(o, nn, e, len, n, pss, r) && ids_below(o, m) implies all_below(r, m) by { lemma_alternative(o, nn, e, len, n, pss, r, m); }
}
pub open spec fn alts_ok(a: Seq<Vec<u32>>, m: int) -> bool { forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a[i]@.len() ==> (#[trigger] a[i]@[j]) < m }

// ---- picking tokens in the order of the vocabulary
/// state after the first n tokens
pub open spec fn picking(v: Seq<ScoredToken>, b: Seq<ScoredToken>, ix: Seq<int>, n: int) -> bool {
    &&& picks(v, b, ix)
    &&& forall|i: int| 0 <= i < ix.len() ==> #[trigger] ix[i] < n
    &&& forall|j: int| 0 <= j < n && (#[trigger] v[j]).keep ==> ix.contains(j)
}
pub proof fn lemma_picking_none(v: Seq<ScoredToken>) ensures picking(v, Seq::empty(), Seq::empty(), 0), same_tokens(v, Seq::empty(), Seq::empty()) {}
pub proof fn lemma_picking_skip(v: Seq<ScoredToken>, b: Seq<ScoredToken>, ix: Seq<int>, n: int) requires picking(v, b, ix, n), 0 <= n < v.len(), !v[n].keep ensures picking(v, b, ix, n + 1) {}
pub proof fn lemma_picking_next(v: Seq<ScoredToken>, b: Seq<ScoredToken>, ix: Seq<int>, n: int, t: ScoredToken)
    requires picking(v, b, ix, n), 0 <= n < v.len(), same_kind(v[n], t) ensures picking(v, b.push(t), ix.push(n), n + 1)
{ lemma_pick(v, b, ix, n, t); let p = ix.push(n); assert forall|j: int| 0 <= j < n + 1 && (#[trigger] v[j]).keep implies p.contains(j) by { if j == n { assert(p[ix.len() as int] == n); } else { let i = choose|i: int| 0 <= i < ix.len() && ix[i] == j; assert(p[i] == j); } } }
pub proof fn lemma_pick(v: Seq<ScoredToken>, b: Seq<ScoredToken>, ix: Seq<int>, n: int, t: ScoredToken)
    requires picks(v, b, ix), 0 <= n < v.len(), same_kind(v[n], t), !ix.contains(n) ensures picks(v, b.push(t), ix.push(n))
{
    let p = ix.push(n); let c = b.push(t);
    assert forall|i: int| 0 <= i < p.len() implies 0 <= #[trigger] p[i] < v.len() && same_kind(v[p[i]], c[i]) by { if i < ix.len() { assert(p[i] == ix[i]); } }
    assert forall|i: int, j: int| 0 <= i < j < p.len() implies #[trigger] p[i] != #[trigger] p[j] by { assert(p[i] == ix[i]); if j < ix.len() { assert(p[j] == ix[j]); } else { assert(ix.contains(ix[i])); } }
}
pub proof fn lemma_kept_more(v: Seq<ScoredToken>, ix: Seq<int>, n: int) requires kept(v, ix) ensures kept(v, ix.push(n))
{ let p = ix.push(n); assert forall|j: int| 0 <= j < v.len() && (#[trigger] v[j]).keep implies p.contains(j) by { let i = choose|i: int| 0 <= i < ix.len() && ix[i] == j; assert(p[i] == j); } }
pub proof fn lemma_below(v: Seq<ScoredToken>, b: Seq<ScoredToken>, ix: Seq<int>, n: int) requires picking(v, b, ix, n) ensures forall|i: int| 0 <= i < ix.len() ==> #[trigger] ix[i] < n {}
pub proof fn lemma_flat_none() ensures flat(Seq::<&[&str]>::empty()) == Seq::<&str>::empty(), weight(Seq::<&str>::empty()) == 0 {}
pub open spec fn positive(b: Seq<ScoredToken>) -> bool { forall|i: int| 0 <= i < b.len() ==> fle(0.0f64, (#[trigger] b[i]).score) }
/// the very tokens, scores included
pub open spec fn same_tokens(v: Seq<ScoredToken>, b: Seq<ScoredToken>, ix: Seq<int>) -> bool { b.len() == ix.len() && (forall|i: int| 0 <= i < ix.len() ==> 0 <= #[trigger] ix[i] < v.len()) && (forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] == v[ix[i]]) }
pub proof fn lemma_same_tokens_push(v: Seq<ScoredToken>, b: Seq<ScoredToken>, ix: Seq<int>, n: int) requires same_tokens(v, b, ix), 0 <= n < v.len() ensures same_tokens(v, b.push(v[n]), ix.push(n))
{
    let c = b.push(v[n]); let p = ix.push(n);
    assert forall|i: int| 0 <= i < p.len() implies 0 <= #[trigger] p[i] < v.len() by { if i < ix.len() { assert(p[i] == ix[i]); } else { assert(p[i] == n); } }
    assert forall|i: int| 0 <= i < c.len() implies #[trigger] c[i] == v[p[i]] by { if i < b.len() { assert(b[i] == v[ix[i]]); assert(c[i] == b[i]); assert(p[i] == ix[i]); } else { assert(p[i] == n); assert(c[i] == v[n]); } }
}
/// candidates for removal: different tokens that are not picked yet
pub open spec fn pending(c: Seq<(usize, f64)>, ix: Seq<int>, n: int) -> bool {
    &&& forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]).0 < n && !ix.contains(c[i].0 as int)
    &&& forall|i: int, j: int| 0 <= i < j < c.len() ==> (#[trigger] c[i]).0 != (#[trigger] c[j]).0
}
pub proof fn lemma_pending_none(n: int) ensures pending(Seq::empty(), Seq::empty(), n) {}
pub proof fn lemma_pending_push(c: Seq<(usize, f64)>, ix: Seq<int>, n: usize, x: (usize, f64)) requires pending(c, ix, n as int), x.0 == n, forall|i: int| 0 <= i < ix.len() ==> #[trigger] ix[i] < n, n < usize::MAX ensures pending(c.push(x), ix, n + 1)
{ if ix.contains(n as int) { let i = choose|i: int| 0 <= i < ix.len() && ix[i] == n; } assert forall|i: int| 0 <= i < c.len() + 1 implies (#[trigger] c.push(x)[i]).0 < n + 1 && !ix.contains(c.push(x)[i].0 as int) by { if i < c.len() { assert(c.push(x)[i] == c[i]); } } }
/// a picked token that comes later than all candidates
pub proof fn lemma_pending_later(c: Seq<(usize, f64)>, ix: Seq<int>, n: int) requires pending(c, ix, n) ensures pending(c, ix.push(n), n + 1), pending(c, ix, n + 1)
{ assert forall|i: int| 0 <= i < c.len() implies (#[trigger] c[i]).0 < n + 1 && !ix.push(n).contains(c[i].0 as int) by { let x = c[i].0 as int; if ix.push(n).contains(x) { let k = choose|k: int| 0 <= k < ix.push(n).len() && ix.push(n)[k] == x; if k < ix.len() { assert(ix[k] == x); } } } }
pub proof fn lemma_pending_sorted(c: Seq<(usize, f64)>, d: Seq<(usize, f64)>, ix: Seq<int>, n: int) requires pending(c, ix, n), c.to_multiset() == d.to_multiset() ensures pending(d, ix, n)
{
    let p = lemma_order(c, d);
    assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]).0 < n && !ix.contains(d[i].0 as int) by { let x = p[i]; assert(c[x] == d[i]); }
    assert forall|i: int, j: int| 0 <= i < j < d.len() implies (#[trigger] d[i]).0 != (#[trigger] d[j]).0 by { assert(p[i] != p[j]); let x = p[i]; let y = p[j]; assert(c[x] == d[i] && c[y] == d[j]); if x < y { assert(c[x].0 != c[y].0); } else { assert(c[y].0 != c[x].0); } }
}
/// one of the candidates is picked
pub proof fn lemma_pending_take(c: Seq<(usize, f64)>, k: int, ix: Seq<int>, n: int) requires 0 <= k < c.len(), pending(c.skip(k), ix, n) ensures c[k].0 < n, !ix.contains(c[k].0 as int), pending(c.skip(k + 1), ix.push(c[k].0 as int), n), pending(c.skip(k + 1), ix, n)
{
    let d = c.skip(k); let e = c.skip(k + 1); let q = ix.push(c[k].0 as int);
    assert(d[0] == c[k]);
    assert forall|i: int| 0 <= i < e.len() implies (#[trigger] e[i]).0 < n && !ix.contains(e[i].0 as int) && !q.contains(e[i].0 as int) by {
        assert(e[i] == d[i + 1]); assert(d[0].0 != d[i + 1].0);
        let x = e[i].0 as int; if q.contains(x) { let m = choose|m: int| 0 <= m < q.len() && q[m] == x; if m < ix.len() { assert(ix[m] == x); } }
    }
    assert forall|i: int, j: int| 0 <= i < j < e.len() implies (#[trigger] e[i]).0 != (#[trigger] e[j]).0 by { assert(e[i] == d[i + 1] && e[j] == d[j + 1]); }
}
pub proof fn lemma_same_finite(v: Seq<ScoredToken>, b: Seq<ScoredToken>, ix: Seq<int>) requires same_tokens(v, b, ix), finite(v) ensures finite(b)
{ assert forall|i: int| 0 <= i < b.len() implies is_fin((#[trigger] b[i]).score) by { let x = ix[i]; assert(b[i] == v[x]); } }
pub proof fn lemma_picked(v: Seq<ScoredToken>, b: Seq<ScoredToken>, ix: Seq<int>) requires picks(v, b, ix), kept(v, ix) ensures thinned(v, b) {}
pub proof fn lemma_all_picked(v: Seq<ScoredToken>, b: Seq<ScoredToken>, ix: Seq<int>) requires picking(v, b, ix, v.len() as int) ensures picks(v, b, ix), kept(v, ix) {}
pub proof fn lemma_rescored(v: Seq<ScoredToken>, b: Seq<ScoredToken>, c: Seq<ScoredToken>, ix: Seq<int>)
    requires picking(v, b, ix, v.len() as int), c.len() == b.len(), forall|i: int| 0 <= i < c.len() ==> same_kind(b[i], #[trigger] c[i]) && is_fin(c[i].score)
    ensures thinned(v, c), finite(c)
{
    assert forall|i: int| 0 <= i < ix.len() implies 0 <= #[trigger] ix[i] < v.len() && same_kind(v[ix[i]], c[i]) by { assert(same_kind(v[ix[i]], b[i])); assert(same_kind(b[i], c[i])); }
    assert(picks(v, c, ix)); assert(kept(v, ix));
}
pub proof fn lemma_fcmp_total()
    ensures forall|a: f64, b: f64| !is_nan(a) && !is_nan(b) ==> #[trigger] fcmp(a, b) == flip(fcmp(b, a)),
        forall|a: f64, b: f64, c: f64| !is_nan(a) && !is_nan(b) && !is_nan(c) && #[trigger] fcmp(a, b) != std::cmp::Ordering::Greater && #[trigger] fcmp(b, c) != std::cmp::Ordering::Greater ==> fcmp(a, c) != std::cmp::Ordering::Greater,
{
    assert forall|a: f64, b: f64, c: f64| !is_nan(a) && !is_nan(b) && !is_nan(c) && #[trigger] fcmp(a, b) != std::cmp::Ordering::Greater && #[trigger] fcmp(b, c) != std::cmp::Ordering::Greater implies fcmp(a, c) != std::cmp::Ordering::Greater by { ax_le_trans(a, b, c); }
}

@fn ModelVocabularyPruner::new
@contract
    ensures r == (ModelVocabularyPruner { vocab_size, shrink_factor, em_subiters, dropout })
@fn ModelVocabularyPruner::prune
@contract
    requires old(model).wf(), old(model).vocab@.len() < u32::MAX, weight(samples@) <= usize::MAX,
    ensures r is Ok ==> final(model).wf(),
        r is Ok ==> thinned(old(model).vocab@, final(model).vocab@),
        r is Ok && finite(old(model).vocab@) ==> finite(final(model).vocab@),
        r is Ok ==> exists|hs: Seq<Seq<ScoredToken>>| #[trigger] history(hs, self.vocab_size as int) && hs[0] == old(model).vocab@ && hs.last() == final(model).vocab@ && ended(hs, self.vocab_size as int),
@start
    hide(history); hide(thinned); hide(finite); hide(weight); hide(sizes_ok);
    let ghost target = self.vocab_size as int;
    let ghost mut hs: Seq<Seq<ScoredToken>> = seq![model.vocab@];
    proof { lemma_start(model.vocab@, target); lemma_same(model.vocab@); }
@loop 1
    invariant_except_break
        hs.len() >= 2 ==> hs[hs.len() - 2].len() > hs.last().len(),
    invariant
        model.wf(), model.vocab@.len() < u32::MAX, weight(samples@) <= usize::MAX, target == self.vocab_size,
        history(hs, target), hs.len() > 0, hs[0] == old(model).vocab@, hs.last() == model.vocab@,
        thinned(old(model).vocab@, model.vocab@), finite(old(model).vocab@) ==> finite(model.vocab@),
    ensures ended(hs, target)
    decreases model.vocab@.len()
@body_start 1
    let ghost v0 = model.vocab@; let ghost h0 = hs;
    proof { lemma_same(v0); }
@loop 2
    invariant model.wf(), model.vocab@.len() < u32::MAX, thinned(v0, model.vocab@), finite(v0) ==> finite(model.vocab@),
@body_start 2
    let ghost v1 = model.vocab@;
@body_end 2
    proof { lemma_twice(v0, v1, model.vocab@); }
@after_let vocab 1
    proof { lemma_sizes(v1, vocab@); }
@before 2
    let ghost mut v2 = v0;
@after 2
    proof { v2 = model.vocab@; }
@after_let vocab 2
    proof { lemma_sizes(model.vocab@, vocab@); lemma_twice(v0, model.vocab@, vocab@); lemma_round(h0, vocab@, target); lemma_twice(old(model).vocab@, v0, vocab@); hs = h0.push(vocab@); }
@fn ModelVocabularyPruner::run_e_step
@opt may_panic locks fassign
@contract
    requires model.wf(), model.vocab@.len() < u32::MAX
    ensures r@.len() == model.vocab@.len()
@loop 1
    invariant acc_expected_frequencies@.len() == model.vocab@.len()
@loop 2
    invariant acc_expected_frequencies@.len() == model.vocab@.len(), expected_frequencies@.len() == model.vocab@.len(), pool.wf()
@loop 3
    invariant acc_expected_frequencies@.len() == model.vocab@.len(), expected_frequencies@.len() == model.vocab@.len(), pool.wf()
@body_start 3
    proof { lemma_ids_all(model.vocab@); }
@loop 4
    invariant acc_expected_frequencies@.len() == model.vocab@.len(), __i4 <= acc_expected_frequencies@.len()
@fn ModelVocabularyPruner::run_m_step
@opt may_panic fassign
@contract
    requires model.wf()
    ensures thinned(model.vocab@, r@), finite(r@)
@start
    hide(picking); hide(thinned); hide(finite); hide(picks); hide(kept);
    let ghost v = model.vocab@; let ghost mut ix: Seq<int> = Seq::empty(); let ghost mut av: Seq<ScoredToken> = Seq::empty();
    proof { ax_half(); lemma_picking_none(v); }
@loop 1
    invariant
        v == model.vocab@, __z1_1@ == v, __s1@.len() == v.len(), __i1 <= v.len(), positive(alternative_vocab@),
        picking(v, alternative_vocab@, ix, __i1 as int),
@body_start 1
    let ghost b0 = alternative_vocab@; let ghost n = __v1 as int;
    proof { if !v[n].keep { lemma_picking_skip(v, b0, ix, n); } }
@body_end 1
    proof {
        if alternative_vocab@.len() > b0.len() {
            let t = alternative_vocab@.last(); assert(alternative_vocab@ =~= b0.push(t));
            ax_le_trans(0.0f64, 0.5f64, t.score);
            lemma_picking_next(v, b0, ix, n, t); ix = ix.push(n);
        }
    }
@loop 2
    invariant fle(0.0f64, __c2), __s2@ == alternative_vocab@, __i2 <= __s2@.len(), positive(alternative_vocab@)
@body_start 2
    proof { assert(fle(0.0f64, alternative_vocab@[__v2 as int].score)); ax_add_pos(__c2, alternative_vocab@[__v2 as int].score); }
@loop 3
    invariant __s3@ == alternative_vocab@, __i3 <= __s3@.len(), __c3@.len() == __i3, positive(alternative_vocab@)
@before 3
    proof { assert forall|i: int| 0 <= i < alternative_vocab@.len() implies !flt((#[trigger] alternative_vocab@[i]).score, 0.0f64) by { assert(fle(0.0f64, alternative_vocab@[i].score)); } }
@loop 4
    invariant __s4@ == scores@, __i4 <= scores@.len(), forall|i: int| 0 <= i < __i4 ==> is_fin(#[trigger] scores@[i]), scores@.len() == alternative_vocab@.len()
@before 5
    let ghost sc = __z5_1@; let ghost it5 = __it5@;
    proof { av = it5; assert(it5.skip(0) =~= it5); assert(sc.skip(0) =~= sc); }
@loop 5
    invariant
        it5.len() == sc.len(), __it5@.len() <= it5.len(), __it5@ == it5.skip(it5.len() - __it5@.len()), __z5_1@ == sc.skip(it5.len() - __it5@.len()),
        forall|i: int| 0 <= i < sc.len() ==> is_fin(#[trigger] sc[i]),
        __c5@.len() == it5.len() - __it5@.len(), forall|i: int| 0 <= i < __c5@.len() ==> same_kind(it5[i], #[trigger] __c5@[i]) && is_fin(__c5@[i].score),
    ensures __c5@.len() == it5.len()
@body_start 5
    proof { let k = it5.len() - __it5@.len() - 1; assert(it5[k] == __x5); assert(sc[k] == __z5_1_y); assert(__it5@ =~= it5.skip(k + 1)); assert(__z5_1@ =~= sc.skip(k + 1)); }
@after 5
    proof { lemma_rescored(v, av, __c5@, ix); }
@fn ModelVocabularyPruner::prune_vocab
@opt may_panic locks fassign
@contract
    requires model.wf(), model.vocab@.len() < u32::MAX, weight(samples@) <= usize::MAX
    ensures r matches Ok(w) ==> thinned(model.vocab@, w@) && (finite(model.vocab@) ==> finite(w@))
@start
    hide(picking); hide(thinned); hide(finite); hide(picks); hide(kept); hide(weight); hide(fsum); hide(flat); hide(pending); hide(same_tokens); hide(splits); hide(answer); hide(only_occurrences);
    let ghost v = model.vocab@; let ghost m = v.len() as int; let ghost mut ix: Seq<int> = Seq::empty();
    proof { lemma_fcmp_total(); }
@loop 1
    invariant __s1@ == v, v == model.vocab@, __i1 <= v.len(), pool.wf(), always_keep@.len() == m, alternatives@.len() == m, alts_ok(alternatives@, m)
@body_start 1
    proof { lemma_ids_all(v); lemma_alternatives(m); }
@loop 2
    invariant __s2@ == nbests@[1]@, __i2 <= __s2@.len(), nbests@.len() > 1, all_below(nbests@, m), always_keep@.len() == m, alternatives@.len() == m, alts_ok(alternatives@, m), id < m
@body_start 2
    let ghost a0 = alternatives@;
    proof { assert(nbests@[1]@[__v2 as int].token_id < m); }
@body_end 2
    proof {
        assert forall|i: int, j: int| 0 <= i < alternatives@.len() && 0 <= j < alternatives@[i]@.len() implies (#[trigger] alternatives@[i]@[j]) < m by {
            if i == id { assert(alternatives@[i]@ == a0[i]@.push(alt_id)); if j < a0[i]@.len() { assert(a0[i]@[j] < m); } } else { assert(alternatives@[i] == a0[i]); assert(a0[i]@[j] < m); }
        }
    }
@before 3
    let ghost cs = __it3@;
    proof { lemma_weight_perm(flat(cs), samples@); assert(cs.skip(0) =~= cs); assert(cs.take(0) =~= Seq::empty()); lemma_fsum_zero(acc_frequencies@); lemma_weight_flat(cs, 0); lemma_flat_none(); }
@loop 3
    invariant_except_break __r3 is None
    invariant
        v == model.vocab@, acc_frequencies@.len() == m, weight(flat(cs)) <= usize::MAX,
        __it3@.len() <= cs.len(), __it3@ == cs.skip(cs.len() - __it3@.len()),
        fsum(acc_frequencies@) <= weight(flat(cs.take(cs.len() - __it3@.len()))),
@after_let frequencies
    let ghost n3 = cs.len() - __it3@.len() - 1; let ghost ss = chunk@; let ghost acc0 = fsum(acc_frequencies@);
@before 4
    let ghost it4 = __it4@;
    proof {
        assert(cs[n3] == chunk); assert(__it3@ =~= cs.skip(n3 + 1));
        lemma_flat_next(cs, n3); lemma_weight_add(flat(cs.take(n3)), ss); lemma_weight_flat(cs, n3 + 1);
        lemma_fsum_zero(frequencies@); assert(it4.skip(0) =~= it4); assert(ss.take(0) =~= Seq::empty()); lemma_weight_take(ss, 0); lemma_fsum_pos(acc_frequencies@);
    }
@loop 4
    invariant
        v == model.vocab@, acc_frequencies@.len() == m, frequencies@.len() == m, acc0 == fsum(acc_frequencies@), 0 <= acc0, acc0 + weight(ss) <= usize::MAX,
        it4.len() == ss.len(), forall|i: int| 0 <= i < it4.len() ==> *(#[trigger] it4[i]) == ss[i],
        __it4@.len() <= it4.len(), __it4@ == it4.skip(it4.len() - __it4@.len()),
        fsum(frequencies@) <= weight(ss.take(it4.len() - __it4@.len())),
@body_start 4
    let ghost n4 = it4.len() - __it4@.len() - 1; let ghost x = *sample; let ghost g0 = fsum(frequencies@);
    proof { assert(*it4[n4] == x); assert(__it4@ =~= it4.skip(n4 + 1)); lemma_weight_take(ss, n4 + 1); assert(ss.take(n4 + 1) =~= ss.take(n4).push(x)); lemma_weight_push(ss.take(n4), x); }
@after_let ids
    proof { lemma_ids_len(v, ids@, x@); lemma_fsum_pos(frequencies@); }
@before 5
    let ghost it5 = __it5@;
    proof { assert(it5.skip(0) =~= it5); }
@loop 5
    invariant
        v == model.vocab@, acc_frequencies@.len() == m, frequencies@.len() == m, acc0 == fsum(acc_frequencies@), ids_ok(v, it5), g0 + it5.len() <= usize::MAX,
        __it5@.len() <= it5.len(), __it5@ == it5.skip(it5.len() - __it5@.len()),
        fsum(frequencies@) == g0 + it5.len() - __it5@.len(),
@body_start 5
    let ghost f5 = frequencies@; let ghost n5 = it5.len() - __it5@.len() - 1;
    proof { assert(it5[n5] == id); assert(__it5@ =~= it5.skip(n5 + 1)); lemma_fsum_at(f5, id as int); }
@body_end 5
    proof { lemma_fsum_add(f5, frequencies@, id as int, 1); }
@before 6
    let ghost fr = __z6_1@; let ghost mut a6 = acc_frequencies@;
    proof { assert(ss.take(ss.len() as int) =~= ss); assert(fr.take(0) =~= Seq::empty()); lemma_fsum_take(fr, 0); lemma_fsum_zero(fr.take(0)); }
@loop 6
    invariant
        a6 == acc_frequencies@, __z6_1@ == fr, fr.len() == m, acc_frequencies@.len() == m, __i6 <= m, acc0 + fsum(fr) <= usize::MAX,
        fsum(acc_frequencies@) == acc0 + fsum(fr.take(__i6 as int)),
@body_start 6
    proof { lemma_fsum_next(fr, __v6 as int); lemma_fsum_take(fr, __v6 + 1); lemma_fsum_at(a6, __v6 as int); }
@body_end 6
    proof { lemma_fsum_add(a6, acc_frequencies@, __v6 as int, fr[__v6 as int] as int); a6 = acc_frequencies@; }
@after 6
    proof { assert(fr.take(fr.len() as int) =~= fr); }
@after 3
    proof { assert(cs.take(cs.len() as int) =~= cs); lemma_weight_flat(cs, cs.len() - __it3@.len()); }
@before 7
    proof { assert(token_frequencies@.take(0) =~= Seq::empty()); lemma_fsum_take(token_frequencies@, 0); lemma_fsum_zero(token_frequencies@.take(0)); }
@loop 7
    invariant __s7@ == token_frequencies@, __i7 <= __s7@.len(), __c7 == fsum(token_frequencies@.take(__i7 as int)), fsum(token_frequencies@) <= usize::MAX
@body_start 7
    proof { lemma_fsum_next(token_frequencies@, __v7 as int); lemma_fsum_take(token_frequencies@, __v7 + 1); }
@before 8
    proof { lemma_picking_none(v); lemma_pending_none(0); assert(candidates@ =~= Seq::empty()); assert(pruned_vocab@ =~= Seq::empty()); }
@loop 8
    invariant
        __s8@ == v, v == model.vocab@, __i8 <= v.len(), picking(v, pruned_vocab@, ix, __i8 as int), same_tokens(v, pruned_vocab@, ix), pending(candidates@, ix, __i8 as int),
        alternatives@.len() == m, always_keep@.len() == m, token_frequencies@.len() == m, alts_ok(alternatives@, m),
@body_start 8
    let ghost b8 = pruned_vocab@; let ghost c8 = candidates@; let ghost n8 = __v8 as int; let ghost ix0 = ix;
    proof {
        lemma_picking_next(v, b8, ix0, n8, v[n8]); lemma_same_tokens_push(v, b8, ix0, n8); lemma_pending_later(c8, ix0, n8);
        if v[n8].keep { ix = ix0.push(n8); } else { lemma_picking_skip(v, b8, ix0, n8); lemma_below(v, b8, ix0, n8); }
    }
@body_end 8
    proof {
        if pruned_vocab@.len() > b8.len() { assert(pruned_vocab@ =~= b8.push(v[n8])); ix = ix0.push(n8); assert(pending(candidates@, ix, n8 + 1)); }
        else if candidates@.len() > c8.len() { let x = candidates@.last(); assert(candidates@ =~= c8.push(x)); lemma_pending_push(c8, ix0, __v8, x); assert(pending(candidates@, ix, n8 + 1)); } else { assert(pending(candidates@, ix, n8 + 1)); }
    }
@loop 9
    invariant __s9@ == alternatives@[id as int]@, id < m, __i9 <= __s9@.len(), alternatives@.len() == m, token_frequencies@.len() == m, alts_ok(alternatives@, m)
@body_start 9
    proof { assert(alternatives@[id as int]@[__v9 as int] < m); }
@sort 1
    -> (o: std::cmp::Ordering) ensures !is_nan(__p0.1), !is_nan(__p1.1), o == fcmp(__p1.1, __p0.1)
@before_sort 1
    let ghost c0 = candidates@;
    proof { lemma_all_picked(v, pruned_vocab@, ix); }
@after_sort 1
    proof { lemma_pending_sorted(c0, candidates@, ix, m); }
@before 10
    let ghost it10 = __it10@;
    proof { assert(it10.skip(0) =~= it10); }
@loop 10
    invariant
        v == model.vocab@, __it10@.len() <= it10.len(), __it10@ == it10.skip(it10.len() - __it10@.len()), pending(__it10@, ix, m),
        picks(v, pruned_vocab@, ix), kept(v, ix), same_tokens(v, pruned_vocab@, ix),
@body_start 10
    let ghost n10 = it10.len() - __it10@.len() - 1; let ghost b10 = pruned_vocab@;
    proof { assert(it10[n10] == __x10); assert(it10.skip(n10 + 1) =~= __it10@); lemma_pending_take(it10, n10, ix, m); lemma_pick(v, b10, ix, id as int, v[id as int]); lemma_same_tokens_push(v, b10, ix, id as int); lemma_kept_more(v, ix, id as int); }
@body_end 10
    proof { ix = ix.push(id as int); }
@sort 2
    -> (o: std::cmp::Ordering) ensures !is_nan(__p0.score), !is_nan(__p1.score), o == fcmp(__p1.score, __p0.score)
@before_sort 2
    let ghost pv = pruned_vocab@;
    proof { lemma_picked(v, pv, ix); if finite(v) { lemma_same_finite(v, pv, ix); } }
@after_sort 2
    proof { lemma_sorted(v, pv, pruned_vocab@); }
@fn digamma
@opt fassign
@contract
    requires !flt(x, 0.0f64)
@loop 1
    invariant !flt(x, 0.0f64)
    decreases below7(x)
@body_start 1
    proof { ax_below7(x); }
