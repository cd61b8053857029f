@module filter src/filter.rs
@subst f64::NEG_INFINITY => vx_neg_inf()
@struct VocabularyFilter
@spec
use crate::shim::*;
use crate::toks::*;
use crate::model::{Model, sizes_ok};
use core::cmp::Ordering;
use vstd::multiset::*;
broadcast use crate::shim::group_vx;
broadcast use crate::toks::fl::group_fl;
broadcast use vstd::multiset::group_multiset_axioms;
broadcast use vstd::seq_lib::group_to_multiset_ensures;

/// scores are numbers
pub open spec fn numbers(v: Seq<ScoredToken>) -> bool { forall|i: int| 0 <= i < v.len() ==> !is_nan((#[trigger] v[i]).score) }
pub open spec fn descending(v: Seq<ScoredToken>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> fle((#[trigger] v[j]).score, (#[trigger] v[i]).score) }
pub open spec fn ascending(v: Seq<ScoredToken>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> fle((#[trigger] v[i]).score, (#[trigger] v[j]).score) }
/// below the minimum and not protected
pub open spec fn removable(f: VocabularyFilter, t: ScoredToken) -> bool {
    f.min_score is Some && flt(t.score, f.min_score->Some_0) && (!t.keep || f.force)
}
pub open spec fn removables(f: VocabularyFilter, v: Multiset<ScoredToken>) -> Multiset<ScoredToken> { v.filter(|t: ScoredToken| removable(f, t)) }
pub open spec fn least(a: int, b: int) -> int { if a < b { a } else { b } }
/// after is before without n lowest-scoring removable tokens, or all of them if there are fewer
pub open spec fn filtered(f: VocabularyFilter, before: Multiset<ScoredToken>, after: Multiset<ScoredToken>, n: int) -> bool {
    exists|gone: Multiset<ScoredToken>| #[trigger] after.add(gone) == before && taken(f, before, after, gone, n)
}
pub open spec fn taken(f: VocabularyFilter, before: Multiset<ScoredToken>, after: Multiset<ScoredToken>, gone: Multiset<ScoredToken>, n: int) -> bool {
    &&& gone.len() == least(n, removables(f, before).len() as int)
    &&& forall|t: ScoredToken| #[trigger] gone.contains(t) ==> removable(f, t)
    &&& forall|t: ScoredToken, u: ScoredToken| #[trigger] gone.contains(t) && #[trigger] after.contains(u) && removable(f, u) ==> fle(t.score, u.score)
}
pub proof fn lemma_removables_insert(f: VocabularyFilter, v: Multiset<ScoredToken>, t: ScoredToken)
    ensures removables(f, v.insert(t)) == if removable(f, t) { removables(f, v).insert(t) } else { removables(f, v) }
{
    let a = removables(f, v.insert(t));
    let b = if removable(f, t) { removables(f, v).insert(t) } else { removables(f, v) };
    assert forall|x: ScoredToken| #[trigger] a.count(x) == b.count(x) by { }
    assert(a =~= b);
}
pub proof fn lemma_perm_numbers(a: Seq<ScoredToken>, b: Seq<ScoredToken>)
    requires a.to_multiset() == b.to_multiset(),
    ensures forall|i: int| 0 <= i < b.len() ==> a.contains(#[trigger] b[i]), numbers(a) ==> numbers(b), sizes_ok(a) ==> forall|i: int| 0 <= i < b.len() ==> (#[trigger] b[i]).value@.len() <= u32::MAX
{
    assert forall|i: int| 0 <= i < b.len() implies a.contains(#[trigger] b[i]) by { assert(b.to_multiset().count(b[i]) > 0) by { assert(b.contains(b[i])); } }
}
pub proof fn lemma_fcmp_total()
    ensures forall|a: f64, b: f64| !is_nan(a) && !is_nan(b) ==> #[trigger] fcmp(a, b) == flip(fcmp(b, a)),
        forall|a: f64, b: f64, c: f64| !is_nan(a) && !is_nan(b) && !is_nan(c) && #[trigger] fcmp(a, b) != Ordering::Greater && #[trigger] fcmp(b, c) != Ordering::Greater ==> fcmp(a, c) != Ordering::Greater,
{
    assert forall|a: f64, b: f64, c: f64| !is_nan(a) && !is_nan(b) && !is_nan(c) && #[trigger] fcmp(a, b) != Ordering::Greater && #[trigger] fcmp(b, c) != Ordering::Greater implies fcmp(a, c) != Ordering::Greater by { ax_le_trans(a, b, c); }
}

@fn VocabularyFilter::new
@contract
    ensures r == (VocabularyFilter { vocab_size, min_score, force })
@fn VocabularyFilter::filter
@contract
    requires old(model).wf(), numbers(old(model).vocab@), self.min_score matches Some(m) ==> !is_nan(m)
    ensures final(model).wf(),
        old(model).vocab@.len() <= self.vocab_size ==> final(model).vocab@ == old(model).vocab@,
        old(model).vocab@.len() > self.vocab_size ==> descending(final(model).vocab@)
            && filtered(*self, old(model).vocab@.to_multiset(), final(model).vocab@.to_multiset(), old(model).vocab@.len() - self.vocab_size),
@start
    proof { lemma_fcmp_total(); }
    let ghost v = model.vocab@; let ghost n = v.len() - self.vocab_size; let ghost mut gone: Multiset<ScoredToken> = Multiset::empty();
@sort 1
    -> (o: Ordering) requires !is_nan(__p0.score), !is_nan(__p1.score) ensures o == fcmp(__p0.score, __p1.score)
@after_sort 1
    proof { lemma_perm_numbers(v, vocab@); assert(ascending(vocab@)); }
@before 1
    proof {
        assert(vocab@.take(0) =~= Seq::<ScoredToken>::empty());
        assert(removables(*self, Seq::<ScoredToken>::empty().to_multiset()) =~= Multiset::<ScoredToken>::empty());
        assert(new_vocab@.to_multiset().add(gone) =~= vocab@.take(0).to_multiset());
    }
@loop 1
    invariant
        v == model.vocab@, v.len() <= usize::MAX, n == num_tokens_to_remove, v.to_multiset() == vocab@.to_multiset(), ascending(vocab@), numbers(vocab@), __i1 <= vocab@.len(), __s1@ == vocab@,
        self.min_score matches Some(m) ==> !is_nan(m),
        new_vocab@.to_multiset().add(gone) == vocab@.take(__i1 as int).to_multiset(),
        gone.len() == num_tokens_removed <= n,
        num_tokens_removed == least(n, removables(*self, vocab@.take(__i1 as int).to_multiset()).len() as int),
        forall|t: ScoredToken| #[trigger] gone.contains(t) ==> removable(*self, t) && vocab@.take(__i1 as int).contains(t),
        forall|t: ScoredToken, u: ScoredToken| #[trigger] gone.contains(t) && #[trigger] new_vocab@.to_multiset().contains(u) && removable(*self, u) ==> fle(t.score, u.score),
        num_tokens_removed < n ==> forall|u: ScoredToken| #[trigger] new_vocab@.to_multiset().contains(u) ==> !removable(*self, u),
@body_start 1
    let ghost nv0 = new_vocab@; let ghost r0 = num_tokens_removed; let ghost d0 = vocab@.take(__v1 as int);
    proof {
        assert(vocab@.take(__i1 as int) =~= d0.push(*token));
        lemma_removables_insert(*self, d0.to_multiset(), *token);
    }
@body_end 1
    proof {
        let d1 = vocab@.take(__i1 as int);
        assert(d1.to_multiset() == d0.to_multiset().insert(*token));
        let g0 = gone;
        if new_vocab@ == nv0 {
            gone = gone.insert(*token);
            assert(new_vocab@.to_multiset().add(gone) =~= d1.to_multiset());
        } else {
            assert(new_vocab@ == nv0.push(*token));
            assert(new_vocab@.to_multiset() == nv0.to_multiset().insert(*token));
            assert forall|u: ScoredToken| num_tokens_removed < n && #[trigger] new_vocab@.to_multiset().contains(u) implies !removable(*self, u) by {
                if u == *token { } else { assert(nv0.to_multiset().contains(u)); }
            }
            assert(new_vocab@.to_multiset().add(gone) =~= d1.to_multiset());
        }
        assert forall|t: ScoredToken| #[trigger] gone.contains(t) implies removable(*self, t) && d1.contains(t) by {
            if g0.contains(t) { let i = choose|i: int| 0 <= i < d0.len() && d0[i] == t; assert(d1[i] == t); } else { assert(d1[__v1 as int] == t); }
        }
        assert forall|t: ScoredToken, u: ScoredToken| #[trigger] gone.contains(t) && #[trigger] new_vocab@.to_multiset().contains(u) && removable(*self, u) implies fle(t.score, u.score) by {
            if nv0.to_multiset().contains(u) {
            } else {
                let i = choose|i: int| 0 <= i < d1.len() && d1[i] == t;
                assert(vocab@[i] == t);
                assert(u == *token);
                assert(i <= __v1);
            }
        }
    }
@after 1
    proof { assert(vocab@.take(vocab@.len() as int) =~= vocab@); }
@before_sort 2
    let ghost nv = new_vocab@;
    proof {
        assert forall|i: int| 0 <= i < nv.len() implies !is_nan((#[trigger] nv[i]).score) && nv[i].value@.len() <= u32::MAX by {
            assert(nv.contains(nv[i])); assert(nv.to_multiset().count(nv[i]) > 0);
            assert(v.to_multiset().count(nv[i]) > 0); assert(v.contains(nv[i]));
        }
        assert(nv.len() <= v.len()) by { assert(nv.len() == nv.to_multiset().len()); assert(v.len() == v.to_multiset().len()); }
    }
@sort 2
    -> (o: Ordering) requires !is_nan(__p0.score), !is_nan(__p1.score) ensures o == fcmp(__p1.score, __p0.score)
@after_sort 2
    proof { lemma_perm_numbers(nv, new_vocab@); assert(descending(new_vocab@)); assert(taken(*self, v.to_multiset(), new_vocab@.to_multiset(), gone, n)); }
