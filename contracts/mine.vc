@module mine src/mine.rs
@struct IdiomMiner
@spec
use crate::shim::*;
use crate::task::*;
use vstd::multiset::*;
broadcast use crate::shim::group_vx;

/// all matches over the samples, with multiplicity
pub open spec fn bag(p: Regex, ss: Seq<&str>) -> Multiset<Seq<char>> decreases ss.len() {
    if ss.len() == 0 { Multiset::empty() } else { bag(p, ss.drop_last()).add(re_matches(p, ss.last()@).to_multiset()) }
}
/// the map holds the multiplicities
pub open spec fn counts(m: Map<Seq<char>, usize>, b: Multiset<Seq<char>>) -> bool {
    &&& forall|k: Seq<char>| #[trigger] m.contains_key(k) <==> b.count(k) > 0
    &&& forall|k: Seq<char>| m.contains_key(k) ==> #[trigger] m[k] == b.count(k)
}
pub open spec fn returned(r: Seq<(String, usize)>, k: Seq<char>) -> bool { exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0@ == k }
/// the n most frequent matches, most frequent first, with their counts
pub open spec fn mined(b: Multiset<Seq<char>>, n: int, r: Seq<(String, usize)>) -> bool {
    &&& r.len() <= n
    &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] r[i]).0@ != (#[trigger] r[j]).0@
    &&& forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).1 == b.count(r[i].0@) && r[i].1 > 0
    &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] r[i]).1 >= (#[trigger] r[j]).1
    &&& forall|k: Seq<char>| #[trigger] b.count(k) > 0 && !returned(r, k) ==> r.len() == n && forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).1 >= b.count(k)
}
pub proof fn lemma_bag_add(p: Regex, a: Seq<&str>, b: Seq<&str>) ensures bag(p, a + b) == bag(p, a).add(bag(p, b)) decreases b.len()
{ broadcast use vstd::multiset::group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures;
    if b.len() == 0 { assert(a + b =~= a); assert(bag(p, a).add(bag(p, b)) =~= bag(p, a)); }
    else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_bag_add(p, a, b.drop_last());
        assert(bag(p, a + b) =~= bag(p, a).add(bag(p, b)));
    }
}
pub proof fn lemma_bag_one(p: Regex, x: &str) ensures bag(p, seq![x]) == re_matches(p, x@).to_multiset()
{ broadcast use vstd::multiset::group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures; assert(seq![x].drop_last() =~= Seq::<&str>::empty()); assert(bag(p, Seq::<&str>::empty()) == Multiset::<Seq<char>>::empty()); assert(seq![x].last() == x); assert(bag(p, seq![x]) =~= re_matches(p, x@).to_multiset()); }
/// the order of the samples does not matter
pub proof fn lemma_bag_perm(p: Regex, a: Seq<&str>, b: Seq<&str>)
    requires a.to_multiset() == b.to_multiset()
    ensures bag(p, a) == bag(p, b)
    decreases a.len()
{ broadcast use vstd::multiset::group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures;
    assert(a.len() == a.to_multiset().len()); assert(b.len() == b.to_multiset().len());
    if a.len() > 0 {
        let x = a.last(); let a1 = a.drop_last();
        assert(a =~= a1.push(x));
        assert(a.to_multiset().count(x) > 0); assert(b.contains(x));
        let i = choose|i: int| 0 <= i < b.len() && b[i] == x;
        let b0 = b.take(i); let b2 = b.skip(i + 1);
        assert(b =~= b0 + seq![x] + b2);
        lemma_bag_add(p, b0 + seq![x], b2); lemma_bag_add(p, b0, seq![x]); lemma_bag_one(p, x); lemma_bag_add(p, b0, b2);
        assert(b.remove(i) =~= b0 + b2);
        assert(b.remove(i).to_multiset() =~= b.to_multiset().remove(x));
        assert(a1.to_multiset() =~= a.to_multiset().remove(x));
        lemma_bag_perm(p, a1, b0 + b2);
        assert(bag(p, a) =~= bag(p, b));
    } else { assert(a =~= b); }
}
pub proof fn lemma_flat_next(cs: Seq<&[&str]>, i: int) requires 0 <= i < cs.len() ensures flat(cs.take(i + 1)) == flat(cs.take(i)) + cs[i]@
{ broadcast use vstd::multiset::group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures; assert(cs.take(i + 1).drop_last() =~= cs.take(i)); }
pub proof fn lemma_flat_mono(p: Regex, cs: Seq<&[&str]>, i: int, k: Seq<char>) requires 0 <= i <= cs.len()
    ensures bag(p, flat(cs.take(i))).count(k) <= bag(p, flat(cs)).count(k)
    decreases cs.len() - i
{ broadcast use vstd::multiset::group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures;
    if i < cs.len() { lemma_flat_next(cs, i); lemma_bag_add(p, flat(cs.take(i)), cs[i]@); lemma_flat_mono(p, cs, i + 1, k); }
    else { assert(cs.take(i) =~= cs); }
}
pub proof fn lemma_bag_mono(p: Regex, ss: Seq<&str>, i: int, k: Seq<char>) requires 0 <= i <= ss.len() ensures bag(p, ss.take(i)).count(k) <= bag(p, ss).count(k)
{ broadcast use vstd::multiset::group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures; assert(ss =~= ss.take(i) + ss.skip(i)); lemma_bag_add(p, ss.take(i), ss.skip(i)); }
pub proof fn lemma_bag_next(p: Regex, ss: Seq<&str>, i: int) requires 0 <= i < ss.len() ensures bag(p, ss.take(i + 1)) == bag(p, ss.take(i)).add(re_matches(p, ss[i]@).to_multiset())
{ broadcast use vstd::multiset::group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures; assert(ss.take(i + 1).drop_last() =~= ss.take(i)); }
pub proof fn lemma_take_count(s: Seq<Seq<char>>, i: int, k: Seq<char>) requires 0 <= i <= s.len() ensures s.take(i).to_multiset().count(k) <= s.to_multiset().count(k)
{ broadcast use vstd::multiset::group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures; assert(s =~= s.take(i) + s.skip(i)); vstd::seq_lib::lemma_multiset_commutative(s.take(i), s.skip(i)); }
pub proof fn lemma_counts_insert(m: Map<Seq<char>, usize>, b: Multiset<Seq<char>>, k: Seq<char>, v: usize)
    requires counts(m, b), v == b.count(k) + 1
    ensures counts(m.insert(k, v), b.insert(k))
{ broadcast use vstd::multiset::group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures;}
/// entries of a map up to n
pub open spec fn seen<V>(e: Seq<(&str, V)>, n: int, k: Seq<char>) -> bool { exists|i: int| 0 <= i < n && (#[trigger] e[i]).0.kid() == k }
/// what the total holds after n entries of a chunk
pub open spec fn merged<V>(t: Map<Seq<char>, usize>, b0: Multiset<Seq<char>>, b1: Multiset<Seq<char>>, e: Seq<(&str, V)>, n: int) -> bool {
    &&& forall|k: Seq<char>| #[trigger] t.contains_key(k) <==> b0.count(k) > 0 || seen(e, n, k)
    &&& forall|k: Seq<char>| t.contains_key(k) ==> #[trigger] t[k] == b0.count(k) + if seen(e, n, k) { b1.count(k) } else { 0 }
}
pub proof fn lemma_merged(t: Map<Seq<char>, usize>, b0: Multiset<Seq<char>>, b1: Multiset<Seq<char>>, e: Seq<(&str, usize)>, m: Map<Seq<char>, usize>)
    requires merged(t, b0, b1, e, e.len() as int), lists(e, m), counts(m, b1)
    ensures counts(t, b0.add(b1))
{ broadcast use vstd::multiset::group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures;
    assert forall|k: Seq<char>| #[trigger] seen(e, e.len() as int, k) == (b1.count(k) > 0) by {
        if b1.count(k) > 0 { assert(m.contains_key(k)); let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0.kid() == k; assert(seen(e, e.len() as int, k)); }
        else if seen(e, e.len() as int, k) { let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0.kid() == k; assert(m.contains_key(k)); }
    }
}
pub proof fn lemma_merge_step(t0: Map<Seq<char>, usize>, b0: Multiset<Seq<char>>, b1: Multiset<Seq<char>>, e: Seq<(&str, usize)>, m: Map<Seq<char>, usize>, n: int)
    requires merged(t0, b0, b1, e, n), 0 <= n < e.len(), lists(e, m), counts(m, b1), forall|k: Seq<char>| #[trigger] b0.count(k) + b1.count(k) <= usize::MAX,
    ensures ({ let x = e[n].0.kid(); let v = if t0.contains_key(x) { t0[x] } else { 0 }; v + e[n].1 <= usize::MAX && merged(t0.insert(x, (v + e[n].1) as usize), b0, b1, e, n + 1) })
{ broadcast use vstd::multiset::group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures;
    let x = e[n].0.kid();
    assert(m.contains_key(x)); assert(e[n].1 == b1.count(x)); assert(b0.count(x) + b1.count(x) <= usize::MAX);
    if seen(e, n, x) { let i = choose|i: int| 0 <= i < n && (#[trigger] e[i]).0.kid() == x; assert(e[i].0.kid() != e[n].0.kid()); }
    assert forall|k: Seq<char>| #[trigger] seen(e, n + 1, k) == (seen(e, n, k) || k == x) by {
        if seen(e, n, k) { let i = choose|i: int| 0 <= i < n && (#[trigger] e[i]).0.kid() == k; assert(e[i].0.kid() == k); }
        if k == x { assert(e[n].0.kid() == k); }
    }
}
pub proof fn lemma_nothing(p: Regex) ensures counts(Map::empty(), bag(p, Seq::empty())), counts(Map::empty(), bag(p, Seq::empty()).add(Seq::<Seq<char>>::empty().to_multiset()))
{ broadcast use vstd::multiset::group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures; }
pub proof fn lemma_merged_none(t: Map<Seq<char>, usize>, b0: Multiset<Seq<char>>, b1: Multiset<Seq<char>>, e: Seq<(&str, usize)>) requires counts(t, b0) ensures merged(t, b0, b1, e, 0)
{}
pub proof fn lemma_no_match(b: Multiset<Seq<char>>) ensures b.add(Seq::<Seq<char>>::empty().to_multiset()) == b
{ broadcast use vstd::multiset::group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures; assert(b.add(Seq::<Seq<char>>::empty().to_multiset()) =~= b); }
/// one more chunk
pub proof fn lemma_chunk(p: Regex, cs: Seq<&[&str]>, n: int)
    requires 0 <= n < cs.len(), bag(p, flat(cs)).len() <= usize::MAX,
    ensures bag(p, flat(cs.take(n + 1))) == bag(p, flat(cs.take(n))).add(bag(p, cs[n]@)),
        forall|k: Seq<char>| #[trigger] bag(p, flat(cs.take(n))).count(k) + bag(p, cs[n]@).count(k) <= usize::MAX,
{ broadcast use vstd::multiset::group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures;
    lemma_flat_next(cs, n); lemma_bag_add(p, flat(cs.take(n)), cs[n]@);
    assert forall|k: Seq<char>| #[trigger] bag(p, flat(cs.take(n))).count(k) + bag(p, cs[n]@).count(k) <= usize::MAX by { lemma_flat_mono(p, cs, n + 1, k); assert(bag(p, flat(cs)).count(k) <= bag(p, flat(cs)).len()); }
}
/// one more match
pub proof fn lemma_match(p: Regex, cs: Seq<&[&str]>, n: int, n2: int, n3: int, m0: Map<Seq<char>, usize>)
    requires 0 <= n < cs.len(), bag(p, flat(cs)).len() <= usize::MAX, 0 <= n2 < cs[n]@.len(), 0 <= n3 < re_matches(p, cs[n]@[n2]@).len(),
        counts(m0, bag(p, cs[n]@.take(n2)).add(re_matches(p, cs[n]@[n2]@).take(n3).to_multiset())),
    ensures ({ let ms = re_matches(p, cs[n]@[n2]@); let k = ms[n3]; let v = if m0.contains_key(k) { m0[k] } else { 0 };
        v + 1 <= usize::MAX && counts(m0.insert(k, (v + 1) as usize), bag(p, cs[n]@.take(n2)).add(ms.take(n3 + 1).to_multiset())) })
{ broadcast use vstd::multiset::group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures;
    let ss = cs[n]@; let ms = re_matches(p, ss[n2]@); let k = ms[n3]; let b2 = bag(p, ss.take(n2));
    lemma_chunk(p, cs, n); lemma_bag_next(p, ss, n2);
    lemma_bag_mono(p, ss, n2 + 1, k); lemma_take_count(ms, n3 + 1, k);
    assert(bag(p, flat(cs.take(n))).count(k) + bag(p, ss).count(k) <= usize::MAX);
    assert(ms.take(n3 + 1) =~= ms.take(n3).push(k));
    assert(b2.add(ms.take(n3 + 1).to_multiset()) =~= b2.add(ms.take(n3).to_multiset()).insert(k));
}
pub proof fn lemma_pick(es: Seq<(&str, usize)>, f: Seq<(&str, usize)>, m: Map<Seq<char>, usize>, b: Multiset<Seq<char>>, n: int, r: Seq<(String, usize)>)
    requires lists(es, m), counts(m, b), f.to_multiset() == es.to_multiset(), f.len() == es.len(), n >= 0,
        forall|i: int, j: int| 0 <= i < j < f.len() ==> (#[trigger] f[i]).1 >= (#[trigger] f[j]).1,
        r.len() == if n < f.len() { n } else { f.len() as int }, forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).0@ == f[i].0@ && r[i].1 == f[i].1,
    ensures mined(b, n, r)
{ broadcast use vstd::multiset::group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures;
    assert forall|i: int| 0 <= i < f.len() implies (#[trigger] f[i]).1 == b.count(f[i].0@) && f[i].1 > 0 by {
        assert(f.contains(f[i])); assert(es.to_multiset().count(f[i]) > 0); assert(es.contains(f[i]));
        let j = choose|j: int| 0 <= j < es.len() && es[j] == f[i]; assert(m.contains_key(es[j].0.kid()));
    }
    assert forall|i: int, j: int| 0 <= i < j < f.len() implies (#[trigger] f[i]).0@ != (#[trigger] f[j]).0@ by {
        if f[i].0@ == f[j].0@ {
            // the entry would be there twice
            assert(f[i].1 == f[j].1); let x = f[i];
            assert(f[i].0 == f[j].0) by { axiom_str_ext(f[i].0, f[j].0); }
            lemma_twice(f, i, j); assert(es.to_multiset().count(x) >= 2); lemma_once(es, m, x);
        }
    }
    assert forall|k: Seq<char>| #[trigger] b.count(k) > 0 && !returned(r, k) implies r.len() == n && forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).1 >= b.count(k) by {
        assert(m.contains_key(k)); let j = choose|j: int| 0 <= j < es.len() && (#[trigger] es[j]).0.kid() == k; let x = es[j];
        assert(es.contains(x)); assert(f.to_multiset().count(x) > 0); assert(f.contains(x)); let i = choose|i: int| 0 <= i < f.len() && f[i] == x;
        if i < r.len() { assert(r[i].0@ == k); }
    }
}
pub proof fn lemma_twice(s: Seq<(&str, usize)>, i: int, j: int) requires 0 <= i < j < s.len(), s[i] == s[j] ensures s.to_multiset().count(s[i]) >= 2
{ broadcast use vstd::multiset::group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures;
    let t = s.remove(j);
    assert(t[i] == s[i]); assert(t.contains(s[i])); assert(t.to_multiset().count(s[i]) > 0);
    assert(t.to_multiset() =~= s.to_multiset().remove(s[j]));
}
pub proof fn lemma_once(es: Seq<(&str, usize)>, m: Map<Seq<char>, usize>, x: (&str, usize)) requires lists(es, m) ensures es.to_multiset().count(x) <= 1
{ broadcast use vstd::multiset::group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures;
    if es.to_multiset().count(x) >= 2 {
        assert(es.contains(x)); let i = choose|i: int| 0 <= i < es.len() && es[i] == x;
        let t = es.remove(i); assert(t.to_multiset() =~= es.to_multiset().remove(x)); assert(t.to_multiset().count(x) > 0); assert(t.contains(x));
        let j = choose|j: int| 0 <= j < t.len() && t[j] == x;
        if j < i { assert(es[j] == x); assert(es[j].0.kid() != es[i].0.kid()); } else { assert(es[j + 1] == x); assert(es[i].0.kid() != es[j + 1].0.kid()); }
    }
}
pub proof fn lemma_flat_none<T>() ensures flat(Seq::<&[T]>::empty()) == Seq::<T>::empty() {}

@fn IdiomMiner::new
@contract
    ensures r == (IdiomMiner { num_idioms, pattern })
@fn IdiomMiner::mine
@opt ctype6:Vec<(String,usize)>
@contract
    requires bag(self.pattern, samples@).len() <= usize::MAX
    ensures mined(bag(self.pattern, samples@), self.num_idioms as int, r@),
@start
    hide(counts); hide(merged); hide(mined); hide(lists); hide(bag); hide(flat);
    let ghost p = self.pattern; let ghost b = bag(p, samples@);
    let ghost mut e5: Seq<(&str, usize)> = Seq::empty(); let ghost mut f5: Seq<(&str, usize)> = Seq::empty(); let ghost mut fm: Map<Seq<char>, usize> = Map::empty();
@before 1
    let ghost cs = __it1@;
    proof {
        lemma_bag_perm(p, flat(cs), samples@);
        assert(cs.skip(0) =~= cs); assert(cs.take(0) =~= Seq::empty()); lemma_flat_none::<&str>(); lemma_nothing(p);
    }
@loop 1
    invariant
        p == self.pattern, bag(p, flat(cs)) == bag(p, samples@), bag(p, samples@).len() <= usize::MAX,
        __it1@.len() <= cs.len(), __it1@ == cs.skip(cs.len() - __it1@.len()),
        counts(frequencies@, bag(p, flat(cs.take(cs.len() - __it1@.len())))),
@body_start 1
    let ghost n = cs.len() - __it1@.len() - 1; let ghost f0 = frequencies@; let ghost b0 = bag(p, flat(cs.take(n))); let ghost ss = chunk@;
    proof {
        assert(cs[n] == chunk);
        assert(__it1@ =~= cs.skip(n + 1));
        lemma_chunk(p, cs, n);
    }
@before 2
    let ghost es = __it2@;
    proof { assert(es.skip(0) =~= es); assert(ss.take(0) =~= Seq::empty()); lemma_nothing(p); }
@loop 2
    invariant
        es.len() == ss.len(), forall|i: int| 0 <= i < es.len() ==> *(#[trigger] es[i]) == ss[i],
        __it2@.len() <= es.len(), __it2@ == es.skip(es.len() - __it2@.len()), 
        thread_local_pattern == p,
        counts(sample_tokens@, bag(p, ss.take(es.len() - __it2@.len()))),
@body_start 2
    let ghost n2 = es.len() - __it2@.len() - 1; let ghost ms = re_matches(p, ss[n2]@); let ghost b2 = bag(p, ss.take(n2));
    proof {
        assert(*es[n2] == *sample);
        assert(__it2@ =~= es.skip(n2 + 1));
        lemma_bag_next(p, ss, n2);
    }
@before 3
    let ghost es3 = __it3@;
    proof { assert(es3.skip(0) =~= es3); assert(ms.take(0) =~= Seq::empty()); lemma_no_match(b2); }
@loop 3
    invariant
        es3.len() == ms.len(), forall|i: int| 0 <= i < es3.len() ==> (#[trigger] es3[i]).text() == ms[i],
        __it3@.len() <= es3.len(), __it3@ == es3.skip(es3.len() - __it3@.len()),
        counts(sample_tokens@, b2.add(ms.take(es3.len() - __it3@.len()).to_multiset())),
@body_start 3
    let ghost n3 = es3.len() - __it3@.len() - 1; let ghost m0 = sample_tokens@;
    proof {
        assert(es3[n3] == __x3); assert(__it3@ =~= es3.skip(n3 + 1));
        lemma_match(p, cs, n, n2, n3, m0);
    }
@body_end 3
    proof { assert(sample_tokens@ =~= m0.insert(ms[n3], ((if m0.contains_key(ms[n3]) { m0[ms[n3]] } else { 0 }) + 1) as usize)); }
@after 3
    proof { assert(ms.take(ms.len() as int) =~= ms); }
@after 2
    proof { assert(ss.take(ss.len() as int) =~= ss); }
@before 4
    let ghost e4 = __it4@; let ghost st = sample_tokens@; let ghost b1 = bag(p, ss);
    proof { assert(e4.skip(0) =~= e4); lemma_merged_none(frequencies@, b0, b1, e4); }
@loop 4
    invariant
        lists(e4, st), counts(st, b1), merged(frequencies@, b0, b1, e4, e4.len() - __it4@.len()),
        forall|k: Seq<char>| #[trigger] b0.count(k) + b1.count(k) <= usize::MAX,
        __it4@.len() <= e4.len(), __it4@ == e4.skip(e4.len() - __it4@.len()),
@body_start 4
    let ghost n4 = e4.len() - __it4@.len() - 1; let ghost t0 = frequencies@;
    proof { assert(e4[n4] == __x4); assert(__it4@ =~= e4.skip(n4 + 1)); lemma_merge_step(t0, b0, b1, e4, st, n4); }
@body_end 4
    proof { let x = e4[n4].0.kid(); assert(frequencies@ =~= t0.insert(x, ((if t0.contains_key(x) { t0[x] } else { 0 }) + e4[n4].1) as usize)); }
@after 4
    proof { lemma_merged(frequencies@, b0, b1, e4, st); }
@after 1
    proof { assert(cs.take(cs.len() as int) =~= cs); }
    proof { fm = frequencies@; }
@before 5
    proof { e5 = __it5@; assert(e5.skip(0) =~= e5); }
@loop 5
    invariant
        __it5@.len() <= e5.len(), __it5@ == e5.skip(e5.len() - __it5@.len()), __c5@ =~= e5.take(e5.len() - __it5@.len()),
@after 5
    proof { assert(__c5@ =~= e5); }
@sort 1
    -> (o: std::cmp::Ordering) ensures o == icmp(__p1.1 as int, __p0.1 as int)
@after_sort 1
    proof { f5 = frequencies@; }
@before 6
    let ghost e6 = __it6@;
    proof { assert(e6.skip(0) =~= e6); }
@loop 6
    invariant
        __it6@.len() <= e6.len(), __it6@ == e6.skip(e6.len() - __it6@.len()), __c6@.len() == e6.len() - __it6@.len(),
        forall|i: int| 0 <= i < __c6@.len() ==> (#[trigger] __c6@[i]).0@ == e6[i].0@ && __c6@[i].1 == e6[i].1,
@after 6
    proof { lemma_pick(e5, f5, fm, b, self.num_idioms as int, __c6@); }
