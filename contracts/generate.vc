@module generate src/generate.rs
@subst Token => Vec<u8>
@subst rand::thread_rng => vx_thread_rng
@struct VocabularyGenerator
@spec
use crate::shim::*;
use crate::toks::*;
use crate::task::*;
use std::cmp::Ordering;
broadcast use crate::shim::group_vx;
broadcast use crate::shim::group_str;
broadcast use crate::shim::ax_lt_le;
broadcast use crate::toks::fl::group_fl;
pub type G = VocabularyGenerator;

/// how often k is counted
pub open spec fn cnt(m: Map<Seq<char>, usize>, k: Seq<char>) -> int { if m.contains_key(k) { m[k] as int } else { 0 } }
pub open spec fn positive(m: Map<Seq<char>, usize>) -> bool { forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> m[k] >= 1 }
/// occurrences in a list
pub open spec fn mult(l: Seq<String>, k: Seq<char>) -> int decreases l.len() { if l.len() == 0 { 0 } else { mult(l.drop_last(), k) + if l.last()@ == k { 1int } else { 0 } } }
pub proof fn lemma_mult(l: Seq<String>, k: Seq<char>) ensures 0 <= mult(l, k) <= l.len(), forall|i: int| 0 <= i < l.len() && (#[trigger] l[i])@ == k ==> mult(l, k) > 0 decreases l.len()
{
    if l.len() > 0 {
        lemma_mult(l.drop_last(), k);
        assert forall|i: int| 0 <= i < l.len() && (#[trigger] l[i])@ == k implies mult(l, k) > 0 by { if i < l.len() - 1 { assert(l.drop_last()[i]@ == k); } }
    }
}
/// the texts in which candidates are looked for
pub open spec fn parts(split: Option<FancyRegex>, s: Seq<char>) -> Seq<Seq<char>> { match split { None => seq![s], Some(r) => fre_matches(r, s) } }
impl VocabularyGenerator {
    pub open spec fn allowed(self, k: Seq<char>) -> bool { match self.allow { None => true, Some(r) => re_is_match(r, k) } }
    /// p[a..b] is a token that may be taken
    pub open spec fn sub_ok(self, p: Seq<char>, a: int, b: int) -> bool { 0 <= a < b <= p.len() && blen(p.subrange(a, b)) <= self.max_token_length && self.allowed(p.subrange(a, b)) }
    pub open spec fn sub_of(self, p: Seq<char>, k: Seq<char>) -> bool { exists|a: int, b: int| #[trigger] self.sub_ok(p, a, b) && p.subrange(a, b) == k }
    /// added tokens, then suggested tokens
    pub open spec fn wl(self) -> Seq<String> { self.added_tokens@ + self.suggested_tokens@ }
    pub open spec fn wants(self, k: Seq<char>) -> bool { exists|i: int| 0 <= i < self.wl().len() && (#[trigger] self.wl()[i])@ == k }
    pub open spec fn adds(self, k: Seq<char>) -> bool { exists|i: int| 0 <= i < self.added_tokens@.len() && (#[trigger] self.added_tokens@[i])@ == k }
    /// k may be counted for the sample s
    pub open spec fn cand(self, s: Seq<char>, k: Seq<char>) -> bool {
        ||| exists|q: int| 0 <= q < parts(self.split, s).len() && #[trigger] self.sub_of(parts(self.split, s)[q], k)
        ||| self.wants(k) && occurs(k, s)
    }
    /// nothing is left to chance
    pub open spec fn sure(self) -> bool { fle(1.0f64, self.insert_probability) }
    pub open spec fn same_config(self, o: G) -> bool {
        self.max_token_length == o.max_token_length && self.insert_probability == o.insert_probability && self.split == o.split && self.allow == o.allow
            && self.added_tokens == o.added_tokens && self.suggested_tokens == o.suggested_tokens
    }
    /// every key has been counted, and added and suggested tokens are keys
    pub open spec fn wf(self) -> bool {
        positive(self.frequencies@) && forall|i: int| 0 <= i < self.wl().len() ==> self.frequencies@.contains_key((#[trigger] self.wl()[i])@)
    }
}
/// in how many of the samples k is a candidate
pub open spec fn nsup(g: G, ss: Seq<String>, k: Seq<char>) -> int decreases ss.len() { if ss.len() == 0 { 0 } else { nsup(g, ss.drop_last(), k) + if g.cand(ss.last()@, k) { 1int } else { 0 } } }
pub proof fn lemma_nsup_le(g: G, ss: Seq<String>, k: Seq<char>) ensures 0 <= nsup(g, ss, k) <= ss.len() decreases ss.len() { if ss.len() > 0 { lemma_nsup_le(g, ss.drop_last(), k); } }
pub proof fn lemma_nsup_add(g: G, a: Seq<String>, b: Seq<String>, k: Seq<char>) ensures nsup(g, a + b, k) == nsup(g, a, k) + nsup(g, b, k) decreases b.len()
{ if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_nsup_add(g, a, b.drop_last(), k); } }
pub proof fn lemma_nsup_one(g: G, x: String, k: Seq<char>) ensures nsup(g, seq![x], k) == if g.cand(x@, k) { 1int } else { 0 }
{ assert(seq![x].drop_last() =~= Seq::<String>::empty()); assert(nsup(g, Seq::<String>::empty(), k) == 0); }
/// the order of the samples does not matter
pub proof fn lemma_nsup_perm(g: G, a: Seq<String>, b: Seq<String>, k: Seq<char>)
    requires a.to_multiset() == b.to_multiset()
    ensures nsup(g, a, k) == nsup(g, b, k)
    decreases a.len()
{
    broadcast use vstd::multiset::group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures;
    assert(a.len() == a.to_multiset().len()); assert(b.len() == b.to_multiset().len());
    if a.len() > 0 {
        let x = a.last(); let a1 = a.drop_last();
        assert(a =~= a1.push(x));
        assert(a.to_multiset().count(x) > 0); assert(b.contains(x));
        let i = choose|i: int| 0 <= i < b.len() && b[i] == x;
        let b0 = b.take(i); let b2 = b.skip(i + 1);
        assert(b =~= b0 + seq![x] + b2);
        lemma_nsup_add(g, b0 + seq![x], b2, k); lemma_nsup_add(g, b0, seq![x], k); lemma_nsup_one(g, x, k); lemma_nsup_add(g, b0, b2, k);
        assert(b.remove(i) =~= b0 + b2);
        assert(b.remove(i).to_multiset() =~= b.to_multiset().remove(x));
        assert(a1.to_multiset() =~= a.to_multiset().remove(x));
        lemma_nsup_perm(g, a1, b0 + b2, k);
    } else { assert(a =~= b); }
}
/// what the counts may be after the samples ss
pub open spec fn counted(g: G, m: Map<Seq<char>, usize>, ss: Seq<String>) -> bool {
    &&& positive(m)
    &&& forall|k: Seq<char>| #[trigger] cnt(m, k) <= nsup(g, ss, k)
    &&& g.sure() ==> forall|k: Seq<char>| #[trigger] cnt(m, k) == nsup(g, ss, k)
}
/// every candidate of the parts before q, of part q starting before a, and of part q starting at a and ending up to e is in the set
pub open spec fn before(q: int, a: int, e: int, q1: int, a1: int, b1: int) -> bool { q1 < q || q1 == q && (a1 < a || a1 == a && b1 <= e) }
pub open spec fn cov(g: G, st: Set<Seq<char>>, ps: Seq<Seq<char>>, q: int, a: int, e: int) -> bool {
    forall|q1: int, a1: int, b1: int| 0 <= q1 < ps.len() && before(q, a, e, q1, a1, b1) && #[trigger] g.sub_ok(ps[q1], a1, b1) ==> st.contains(ps[q1].subrange(a1, b1))
}
pub proof fn lemma_cov_start(g: G, st: Set<Seq<char>>, ps: Seq<Seq<char>>) ensures cov(g, st, ps, 0, 0, 0) {}
pub proof fn lemma_cov_row(g: G, st: Set<Seq<char>>, ps: Seq<Seq<char>>, q: int, a: int)
    requires 0 <= q < ps.len(), cov(g, st, ps, q, a, ps[q].len() as int)
    ensures cov(g, st, ps, q, a + 1, a + 1), cov(g, st, ps, q, a + 1, 0)
{}
pub proof fn lemma_cov_zero(g: G, st: Set<Seq<char>>, ps: Seq<Seq<char>>, q: int, a: int) requires cov(g, st, ps, q, a, 0) ensures cov(g, st, ps, q, a, a) {}
pub proof fn lemma_cov_part(g: G, st: Set<Seq<char>>, ps: Seq<Seq<char>>, q: int)
    requires 0 <= q < ps.len(), cov(g, st, ps, q, ps[q].len() as int, 0)
    ensures cov(g, st, ps, q + 1, 0, 0)
{}
/// one more end position
pub proof fn lemma_cov_step(g: G, st: Set<Seq<char>>, st2: Set<Seq<char>>, ps: Seq<Seq<char>>, q: int, a: int, e: int)
    requires 0 <= q < ps.len(), cov(g, st, ps, q, a, e), st.subset_of(st2), g.sub_ok(ps[q], a, e + 1) ==> st2.contains(ps[q].subrange(a, e + 1))
    ensures cov(g, st2, ps, q, a, e + 1)
{}
/// longer ones are too long as well
pub proof fn lemma_cov_break(g: G, st: Set<Seq<char>>, ps: Seq<Seq<char>>, q: int, a: int, e: int)
    requires 0 <= q < ps.len(), 0 <= a <= e < ps[q].len(), cov(g, st, ps, q, a, e), blen(ps[q].subrange(a, e + 1)) > g.max_token_length
    ensures cov(g, st, ps, q, a, ps[q].len() as int)
{
    let p = ps[q];
    assert forall|b: int| e < b <= p.len() implies !#[trigger] g.sub_ok(p, a, b) by {
        assert(p.subrange(a, b) =~= p.subrange(a, e + 1) + p.subrange(e + 1, b));
        lemma_blen_add(p.subrange(a, e + 1), p.subrange(e + 1, b)); lemma_blen_pos(p.subrange(e + 1, b));
    }
}
pub open spec fn sound(g: G, s: Seq<char>, st: Set<Seq<char>>) -> bool { forall|k: Seq<char>| #[trigger] st.contains(k) ==> g.cand(s, k) }
pub proof fn lemma_sound_sub(g: G, s: Seq<char>, st: Set<Seq<char>>, q: int, a: int, b: int)
    requires sound(g, s, st), 0 <= q < parts(g.split, s).len(), g.sub_ok(parts(g.split, s)[q], a, b)
    ensures sound(g, s, st.insert(parts(g.split, s)[q].subrange(a, b)))
{ let p = parts(g.split, s)[q]; assert(g.sub_of(p, p.subrange(a, b))); }
pub proof fn lemma_sound_want(g: G, s: Seq<char>, st: Set<Seq<char>>, i: int)
    requires sound(g, s, st), 0 <= i < g.wl().len(), occurs(g.wl()[i]@, s)
    ensures sound(g, s, st.insert(g.wl()[i]@))
{ assert(g.wants(g.wl()[i]@)); }
/// the first n added or suggested tokens that occur are in the set
pub open spec fn cov_w(g: G, st: Set<Seq<char>>, s: Seq<char>, n: int) -> bool { forall|i: int| 0 <= i < n && occurs((#[trigger] g.wl()[i])@, s) ==> st.contains(g.wl()[i]@) }
pub proof fn lemma_cov_mono(g: G, st: Set<Seq<char>>, st2: Set<Seq<char>>, ps: Seq<Seq<char>>, q: int, a: int, e: int, s: Seq<char>, n: int)
    requires st.subset_of(st2)
    ensures cov(g, st, ps, q, a, e) ==> cov(g, st2, ps, q, a, e), cov_w(g, st, s, n) ==> cov_w(g, st2, s, n)
{}
pub proof fn lemma_complete(g: G, s: Seq<char>, st: Set<Seq<char>>)
    requires cov(g, st, parts(g.split, s), parts(g.split, s).len() as int, 0, 0), cov_w(g, st, s, g.wl().len() as int)
    ensures forall|k: Seq<char>| #[trigger] g.cand(s, k) ==> st.contains(k)
{
    let ps = parts(g.split, s);
    assert forall|k: Seq<char>| #[trigger] g.cand(s, k) implies st.contains(k) by {
        if exists|q: int| 0 <= q < ps.len() && #[trigger] g.sub_of(ps[q], k) {
            let q = choose|q: int| 0 <= q < ps.len() && #[trigger] g.sub_of(ps[q], k);
            let (a, b) = choose|a: int, b: int| #[trigger] g.sub_ok(ps[q], a, b) && ps[q].subrange(a, b) == k;
            assert(before(ps.len() as int, 0, 0, q, a, b));
        } else { let i = choose|i: int| 0 <= i < g.wl().len() && (#[trigger] g.wl()[i])@ == k; }
    }
}
/// entries up to n
pub open spec fn among<T: Key<Id = Seq<char>>>(e: Seq<&T>, n: int, k: Seq<char>) -> bool { exists|i: int| 0 <= i < n && (#[trigger] e[i]).kid() == k }
pub open spec fn bumped<T: Key<Id = Seq<char>>>(m0: Map<Seq<char>, usize>, m: Map<Seq<char>, usize>, e: Seq<&T>, n: int) -> bool {
    &&& positive(m)
    &&& forall|k: Seq<char>| #[trigger] cnt(m, k) == cnt(m0, k) + if among(e, n, k) { 1int } else { 0 }
}
pub open spec fn distinct<T: Key<Id = Seq<char>>>(e: Seq<&T>) -> bool { forall|i: int, j: int| 0 <= i < j < e.len() ==> (#[trigger] e[i]).kid() != (#[trigger] e[j]).kid() }
pub proof fn lemma_bump<T: Key<Id = Seq<char>>>(m0: Map<Seq<char>, usize>, m: Map<Seq<char>, usize>, e: Seq<&T>, n: int)
    requires bumped(m0, m, e, n), 0 <= n < e.len(), distinct(e), cnt(m0, e[n].kid()) < usize::MAX
    ensures cnt(m, e[n].kid()) < usize::MAX, bumped(m0, m.insert(e[n].kid(), (cnt(m, e[n].kid()) + 1) as usize), e, n + 1)
{
    let x = e[n].kid();
    assert(!among(e, n, x)) by { if among(e, n, x) { let i = choose|i: int| 0 <= i < n && (#[trigger] e[i]).kid() == x; } }
    assert forall|k: Seq<char>| #[trigger] among(e, n + 1, k) == (among(e, n, k) || k == x) by {
        if among(e, n, k) { let i = choose|i: int| 0 <= i < n && (#[trigger] e[i]).kid() == k; assert(e[i].kid() == k); }
        if k == x { assert(e[n].kid() == k); }
    }
    let m2 = m.insert(x, (cnt(m, x) + 1) as usize);
    assert forall|k: Seq<char>| #[trigger] cnt(m2, k) == cnt(m0, k) + if among(e, n + 1, k) { 1int } else { 0 } by { assert(cnt(m, k) == cnt(m0, k) + if among(e, n, k) { 1int } else { 0 }); }
}
pub proof fn lemma_bumped_none<T: Key<Id = Seq<char>>>(m0: Map<Seq<char>, usize>, e: Seq<&T>) requires positive(m0) ensures bumped(m0, m0, e, 0) {}
pub proof fn lemma_counted_next<T: Key<Id = Seq<char>>>(g: G, m0: Map<Seq<char>, usize>, m: Map<Seq<char>, usize>, e: Seq<&T>, st: Set<Seq<char>>, ss: Seq<String>, x: String)
    requires counted(g, m0, ss), bumped(m0, m, e, e.len() as int), sound(g, x@, st), g.sure() ==> forall|k: Seq<char>| #[trigger] g.cand(x@, k) ==> st.contains(k),
        forall|i: int| 0 <= i < e.len() ==> st.contains((#[trigger] e[i]).kid()),
        forall|k: Seq<char>| #[trigger] st.contains(k) ==> exists|i: int| 0 <= i < e.len() && (#[trigger] e[i]).kid() == k,
    ensures counted(g, m, ss.push(x))
{
    assert(ss.push(x).drop_last() =~= ss);
    assert forall|k: Seq<char>| #[trigger] among(e, e.len() as int, k) == st.contains(k) by {
        if among(e, e.len() as int, k) { let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).kid() == k; assert(st.contains(e[i].kid())); }
    }
    assert forall|k: Seq<char>| #[trigger] cnt(m, k) <= nsup(g, ss.push(x), k) by { assert(cnt(m0, k) <= nsup(g, ss, k)); assert(among(e, e.len() as int, k) == st.contains(k)); }
    if g.sure() { assert forall|k: Seq<char>| #[trigger] cnt(m, k) == nsup(g, ss.push(x), k) by { assert(cnt(m0, k) == nsup(g, ss, k)); assert(among(e, e.len() as int, k) == st.contains(k)); } }
}
pub proof fn lemma_counted_le(g: G, m: Map<Seq<char>, usize>, ss: Seq<String>, k: Seq<char>) requires counted(g, m, ss) ensures cnt(m, k) <= ss.len() { lemma_nsup_le(g, ss, k); assert(cnt(m, k) <= nsup(g, ss, k)); }
pub proof fn lemma_flat_next(cs: Seq<&[String]>, i: int) requires 0 <= i < cs.len() ensures flat(cs.take(i + 1)) == flat(cs.take(i)) + cs[i]@
{ assert(cs.take(i + 1).drop_last() =~= cs.take(i)); }
pub proof fn lemma_flat_len(cs: Seq<&[String]>, i: int) requires 0 <= i <= cs.len() ensures flat(cs.take(i)).len() <= flat(cs).len() decreases cs.len() - i
{ if i < cs.len() { lemma_flat_next(cs, i); lemma_flat_len(cs, i + 1); } else { assert(cs.take(i) =~= cs); } }
pub proof fn lemma_perm_len(a: Seq<String>, b: Seq<String>) requires a.to_multiset() == b.to_multiset() ensures a.len() == b.len()
{ broadcast use vstd::seq_lib::group_to_multiset_ensures; assert(a.len() == a.to_multiset().len()); assert(b.len() == b.to_multiset().len()); }
pub proof fn lemma_counted_none(g: G) ensures counted(g, Map::empty(), Seq::empty()) {}
/// adding the new counts
pub open spec fn seen_k(e: Seq<(&str, usize)>, n: int, k: Seq<char>) -> bool { exists|i: int| 0 <= i < n && (#[trigger] e[i]).0.kid() == k }
pub open spec fn added_up(f0: Map<Seq<char>, usize>, f: Map<Seq<char>, usize>, m: Map<Seq<char>, usize>, e: Seq<(&str, usize)>, n: int) -> bool {
    &&& positive(f)
    &&& forall|k: Seq<char>| #[trigger] f0.contains_key(k) ==> f.contains_key(k)
    &&& forall|k: Seq<char>| #[trigger] cnt(f, k) == cnt(f0, k) + if seen_k(e, n, k) { cnt(m, k) } else { 0 }
}
pub proof fn lemma_add_up(f0: Map<Seq<char>, usize>, f: Map<Seq<char>, usize>, m: Map<Seq<char>, usize>, e: Seq<(&str, usize)>, n: int)
    requires added_up(f0, f, m, e, n), lists(e, m), 0 <= n < e.len(), positive(m), cnt(f0, e[n].0.kid()) + cnt(m, e[n].0.kid()) <= usize::MAX
    ensures ({ let x = e[n].0.kid(); cnt(f, x) + e[n].1 <= usize::MAX && added_up(f0, f.insert(x, (cnt(f, x) + e[n].1) as usize), m, e, n + 1) })
{
    let x = e[n].0.kid();
    assert(m.contains_key(x)); assert(e[n].1 == m[x]);
    assert(!seen_k(e, n, x)) by { if seen_k(e, n, x) { let i = choose|i: int| 0 <= i < n && (#[trigger] e[i]).0.kid() == x; assert(e[i].0.kid() != e[n].0.kid()); } }
    assert forall|k: Seq<char>| #[trigger] seen_k(e, n + 1, k) == (seen_k(e, n, k) || k == x) by {
        if seen_k(e, n, k) { let i = choose|i: int| 0 <= i < n && (#[trigger] e[i]).0.kid() == k; assert(e[i].0.kid() == k); }
        if k == x { assert(e[n].0.kid() == k); }
    }
    let f2 = f.insert(x, (cnt(f, x) + e[n].1) as usize);
    assert(cnt(f, x) == cnt(f0, x));
    assert forall|k: Seq<char>| #[trigger] cnt(f2, k) == cnt(f0, k) + if seen_k(e, n + 1, k) { cnt(m, k) } else { 0 } by { assert(cnt(f, k) == cnt(f0, k) + if seen_k(e, n, k) { cnt(m, k) } else { 0 }); }
}
pub proof fn lemma_added_up_none(f0: Map<Seq<char>, usize>, m: Map<Seq<char>, usize>, e: Seq<(&str, usize)>) requires positive(f0) ensures added_up(f0, f0, m, e, 0) {}
/// what feeding samples does to the counts
pub open spec fn fed(g: G, f0: Map<Seq<char>, usize>, f: Map<Seq<char>, usize>, ss: Seq<String>) -> bool {
    &&& forall|k: Seq<char>| #[trigger] cnt(f0, k) <= cnt(f, k) && cnt(f, k) <= cnt(f0, k) + nsup(g, ss, k)
    &&& g.sure() ==> forall|k: Seq<char>| #[trigger] cnt(f, k) == cnt(f0, k) + nsup(g, ss, k)
    &&& forall|k: Seq<char>| #[trigger] f.contains_key(k) ==> f0.contains_key(k) || nsup(g, ss, k) > 0
}
pub proof fn lemma_fed(g: G, f0: Map<Seq<char>, usize>, f: Map<Seq<char>, usize>, m: Map<Seq<char>, usize>, e: Seq<(&str, usize)>, s2: Seq<String>, ss: Seq<String>)
    requires added_up(f0, f, m, e, e.len() as int), lists(e, m), counted(g, m, s2), s2.to_multiset() == ss.to_multiset()
    ensures fed(g, f0, f, ss)
{
    assert forall|k: Seq<char>| #[trigger] seen_k(e, e.len() as int, k) == (cnt(m, k) > 0) by {
        if seen_k(e, e.len() as int, k) { let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0.kid() == k; assert(m.contains_key(e[i].0.kid())); }
        if cnt(m, k) > 0 { assert(m.contains_key(k)); let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0.kid() == k; }
    }
    assert forall|k: Seq<char>| cnt(f, k) == cnt(f0, k) + cnt(m, k) && cnt(m, k) <= #[trigger] nsup(g, ss, k) && (g.sure() ==> cnt(m, k) == nsup(g, ss, k)) by {
        lemma_nsup_perm(g, s2, ss, k); assert(cnt(m, k) <= nsup(g, s2, k)); if m.contains_key(k) { assert(m[k] >= 1); } assert(seen_k(e, e.len() as int, k) == (cnt(m, k) > 0));
        assert(cnt(f, k) == cnt(f0, k) + if seen_k(e, e.len() as int, k) { cnt(m, k) } else { 0 });
    }
    assert forall|k: Seq<char>| #[trigger] cnt(f0, k) <= cnt(f, k) && cnt(f, k) <= cnt(f0, k) + nsup(g, ss, k) by { assert(cnt(m, k) <= nsup(g, ss, k)); }
    if g.sure() { assert forall|k: Seq<char>| #[trigger] cnt(f, k) == cnt(f0, k) + nsup(g, ss, k) by { assert(cnt(m, k) <= nsup(g, ss, k)); } }
    assert forall|k: Seq<char>| #[trigger] f.contains_key(k) implies f0.contains_key(k) || nsup(g, ss, k) > 0 by { assert(cnt(m, k) <= nsup(g, ss, k)); assert(f[k] >= 1); }
}
/// the initial counts
pub proof fn lemma_new_count(m: Map<Seq<char>, usize>, a: Seq<String>, i: int, c: int)
    requires 0 <= i < a.len(), 0 <= c, c + a.len() <= usize::MAX, cnt(m, a[i]@) <= c + mult(a.take(i), a[i]@),
    ensures cnt(m, a[i]@) < usize::MAX, forall|k: Seq<char>| #[trigger] mult(a.take(i + 1), k) == mult(a.take(i), k) + if a[i]@ == k { 1int } else { 0 }
{ lemma_mult(a.take(i), a[i]@); assert(a.take(i + 1).drop_last() =~= a.take(i)); }
pub proof fn lemma_off(p: Seq<char>, a: int) requires 0 <= a <= p.len(), blen(p) <= isize::MAX ensures blen(p.take(a)) <= blen(p), bound_at(p, blen(p.take(a)), a), blen(p.take(a)) >= 0
{ assert(p =~= p.take(a) + p.skip(a)); lemma_blen_add(p.take(a), p.skip(a)); }
pub proof fn lemma_take_step(p: Seq<char>, e: int) requires 0 <= e < p.len(), blen(p) <= isize::MAX
    ensures blen(p.take(e + 1)) == blen(p.take(e)) + blen(seq![p[e]]), blen(p.take(e + 1)) <= blen(p), bound_at(p, blen(p.take(e + 1)), e + 1), is_bound(p, blen(p.take(e + 1)))
{ lemma_off(p, e + 1); assert(p.take(e + 1) =~= p.take(e) + seq![p[e]]); lemma_blen_add(p.take(e), seq![p[e]]); }
pub proof fn lemma_le_trans_here(a: f64, b: f64, c: f64) requires flt(a, b), fle(b, c) ensures flt(a, c) { ax_lt_le(a, b, c); }
pub proof fn lemma_flat_none<T>() ensures flat(Seq::<&[T]>::empty()) == Seq::<T>::empty() {}
pub proof fn lemma_set_start(g: G, s: Seq<char>, st: Set<Seq<char>>, ps: Seq<Seq<char>>) requires st == Set::<Seq<char>>::empty() ensures sound(g, s, st), cov(g, st, ps, 0, 0, 0) {}
pub proof fn lemma_wl(g: G) ensures g.wl() == g.added_tokens@ + g.suggested_tokens@ {}

pub proof fn lemma_cov_w0(g: G, st: Set<Seq<char>>, s: Seq<char>) ensures cov_w(g, st, s, 0) {}
pub proof fn lemma_cov_w(g: G, st: Set<Seq<char>>, s: Seq<char>, n: int) requires cov_w(g, st, s, n), occurs(g.wl()[n]@, s) ==> st.contains(g.wl()[n]@) ensures cov_w(g, st, s, n + 1) {}
pub proof fn lemma_counted_pos(g: G, m: Map<Seq<char>, usize>, ss: Seq<String>) requires counted(g, m, ss) ensures positive(m) {}
pub proof fn lemma_wf_kept(g: G, h: G, m: Map<Seq<char>, usize>, e: Seq<(&str, usize)>, n: int) requires g.wf(), h.same_config(g), added_up(g.frequencies@, h.frequencies@, m, e, n) ensures h.wf() { assert(h.wl() == g.wl()); assert forall|i: int| 0 <= i < h.wl().len() implies h.frequencies@.contains_key((#[trigger] h.wl()[i])@) by { assert(g.frequencies@.contains_key(g.wl()[i]@)); } }
pub proof fn lemma_sub_iff(g: G, p: Seq<char>, a: int, b: int) ensures g.sub_ok(p, a, b) == (0 <= a < b <= p.len() && blen(p.subrange(a, b)) <= g.max_token_length && g.allowed(p.subrange(a, b))) {}

// ------------------------------------------------ logprobs
pub open spec fn isum(w: Seq<int>) -> int decreases w.len() { if w.len() == 0 { 0 } else { isum(w.drop_last()) + w.last() } }
/// the scores are the weights w
pub open spec fn weighs(v: Seq<ScoredToken>, w: Seq<int>) -> bool { v.len() == w.len() && forall|i: int| 0 <= i < v.len() ==> #[trigger] w[i] > 0 && apx(v[i].score, w[i] as real) }
/// the logarithm of w[i]'s share of the total
pub open spec fn share(w: Seq<int>, i: int) -> real { lnr(w[i] as real) - lnr(isum(w) as real) }
pub open spec fn normed(v: Seq<ScoredToken>, w: Seq<int>) -> bool { v.len() == w.len() && forall|i: int| 0 <= i < v.len() ==> apx((#[trigger] v[i]).score, share(w, i)) }
pub open spec fn all_pos(v: Seq<ScoredToken>) -> bool { forall|i: int| 0 <= i < v.len() ==> is_fin((#[trigger] v[i]).score) && flt(0.0f64, v[i].score) }
pub open spec fn same_tokens(a: Seq<ScoredToken>, b: Seq<ScoredToken>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] b[i]).value == a[i].value && b[i].keep == a[i].keep }
pub open spec fn falling(v: Seq<ScoredToken>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> fle((#[trigger] v[j]).score, (#[trigger] v[i]).score) }
pub proof fn lemma_isum_pos(w: Seq<int>) requires forall|i: int| 0 <= i < w.len() ==> #[trigger] w[i] > 0 ensures isum(w) >= 0, w.len() > 0 ==> isum(w) > 0 decreases w.len()
{ if w.len() > 0 { assert(w.last() > 0); assert forall|i: int| 0 <= i < w.drop_last().len() implies #[trigger] w.drop_last()[i] > 0 by { assert(w[i] > 0); } lemma_isum_pos(w.drop_last()); } }
/// the shares sum to one
pub open spec fn share_sum(w: Seq<int>, n: int) -> real decreases n { if n <= 0 { 0real } else { share_sum(w, n - 1) + expr(share(w, n - 1)) } }
pub proof fn lemma_shares(w: Seq<int>) requires w.len() > 0, forall|i: int| 0 <= i < w.len() ==> #[trigger] w[i] > 0 ensures share_sum(w, w.len() as int) == 1real
{
    lemma_isum_pos(w); let s = isum(w) as real;
    lemma_share_sum(w, w.len() as int); assert(w.take(w.len() as int) =~= w);
    assert(share_sum(w, w.len() as int) * s == s);
    assert(share_sum(w, w.len() as int) == 1real) by(nonlinear_arith) requires share_sum(w, w.len() as int) * s == s, s > 0real;
}
pub proof fn lemma_share_sum(w: Seq<int>, n: int) requires 0 <= n <= w.len(), w.len() > 0, forall|i: int| 0 <= i < w.len() ==> #[trigger] w[i] > 0
    ensures share_sum(w, n) * (isum(w) as real) == isum(w.take(n)) as real decreases n
{
    let s = isum(w) as real; lemma_isum_pos(w);
    if n > 0 {
        lemma_share_sum(w, n - 1);
        assert(w.take(n).drop_last() =~= w.take(n - 1)); assert(w[n - 1] > 0);
        let x = share(w, n - 1); let l = lnr(s);
        ax_ln(s); ax_ln(w[n - 1] as real); ax_exp(x, l);
        assert(x + l == lnr(w[n - 1] as real));
        assert(expr(x) * s == w[n - 1] as real);
        let p = share_sum(w, n - 1);
        assert((p + expr(x)) * s == p * s + expr(x) * s) by(nonlinear_arith);
        assert(isum(w.take(n)) as real == isum(w.take(n - 1)) as real + w[n - 1] as real);
    } else { assert(w.take(0) =~= Seq::<int>::empty()); let p = share_sum(w, 0); assert(p * s == 0real) by(nonlinear_arith) requires p == 0real; }
}
/// s is the sum of the scores, added from left to right
pub open spec fn fsum(z: f64, v: Seq<ScoredToken>) -> f64 decreases v.len() { if v.len() == 0 { z } else { fadd(fsum(z, v.drop_last()), v.last().score) } }
pub proof fn lemma_fsum(z: f64, v: Seq<ScoredToken>, w: Seq<int>)
    requires apx(z, 0real), v.len() == w.len(), forall|i: int| 0 <= i < v.len() ==> apx((#[trigger] v[i]).score, w[i] as real)
    ensures apx(fsum(z, v), isum(w) as real) decreases v.len()
{
    if v.len() > 0 {
        let n = v.len() - 1;
        assert forall|i: int| 0 <= i < v.drop_last().len() implies apx((#[trigger] v.drop_last()[i]).score, w.drop_last()[i] as real) by { assert(apx(v[i].score, w[i] as real)); }
        lemma_fsum(z, v.drop_last(), w.drop_last());
        assert(apx(v[n].score, w[n] as real));
        ax_apx_add(fsum(z, v.drop_last()), isum(w.drop_last()) as real, v.last().score, w.last() as real);
        assert(isum(w) as real == isum(w.drop_last()) as real + w.last() as real);
    }
}
pub proof fn lemma_fsum_num(z: f64, v: Seq<ScoredToken>) requires fle(0.0f64, z), all_pos(v) ensures fle(0.0f64, fsum(z, v)) decreases v.len()
{
    if v.len() > 0 {
        assert forall|i: int| 0 <= i < v.drop_last().len() implies is_fin((#[trigger] v.drop_last()[i]).score) && flt(0.0f64, v.drop_last()[i].score) by { assert(is_fin(v[i].score)); }
        lemma_fsum_num(z, v.drop_last()); assert(is_fin(v[v.len() - 1].score)); ax_add_pos(fsum(z, v.drop_last()), v.last().score);
    }
}
/// what logprobs makes of the scores, l being the logarithm of their sum
pub open spec fn logged(v0: Seq<ScoredToken>, v: Seq<ScoredToken>, l: f64, n: int) -> bool {
    same_tokens(v0, v) && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).score == if i < n { fsub(fln(v0[i].score), l) } else { v0[i].score }
}
pub proof fn lemma_logged(z: f64, v0: Seq<ScoredToken>, v: Seq<ScoredToken>)
    requires apx(z, 0real), fle(0.0f64, z), logged(v0, v, fln(fsum(z, v0)), v0.len() as int)
    ensures forall|w: Seq<int>| #[trigger] weighs(v0, w) ==> normed(v, w), all_pos(v0) && falling(v0) ==> falling(v)
{
    let s = fsum(z, v0); let l = fln(s);
    assert forall|w: Seq<int>| #[trigger] weighs(v0, w) implies normed(v, w) by {
        assert forall|i: int| 0 <= i < v0.len() implies apx((#[trigger] v0[i]).score, w[i] as real) by { assert(w[i] > 0); }
        lemma_fsum(z, v0, w); lemma_isum_pos(w);
        assert forall|i: int| 0 <= i < v.len() implies apx((#[trigger] v[i]).score, share(w, i)) by {
            assert(w[i] > 0);
            ax_apx_ln(s, isum(w) as real); ax_apx_ln(v0[i].score, w[i] as real); ax_apx_sub(fln(v0[i].score), lnr(w[i] as real), l, lnr(isum(w) as real));
        }
    }
    if all_pos(v0) && falling(v0) {
        lemma_fsum_num(z, v0); ax_ln_num(s);
        assert forall|i: int, j: int| 0 <= i < j < v.len() implies fle((#[trigger] v[j]).score, (#[trigger] v[i]).score) by {
            let a = v0[j].score; let b = v0[i].score;
            assert(is_fin(v0[i].score) && is_fin(v0[j].score)); assert(fle(a, b));
            ax_ln_mono(a, b); ax_ln_num(a); ax_ln_num(b); ax_sub_mono(fln(a), fln(b), l);
        }
    }
}

// ------------------------------------------------ generate
/// the highest count, or 1
pub open spec fn is_hi(m: Map<Seq<char>, usize>, h: int) -> bool {
    &&& forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> m[k] <= h
    &&& (exists|k: Seq<char>| #[trigger] m.contains_key(k) && m[k] == h) || h == 1 && forall|k: Seq<char>| !#[trigger] m.contains_key(k)
}
pub open spec fn sizes_fit(m: Map<Seq<char>, usize>) -> bool { forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> m[k] * blen(k) <= usize::MAX }
impl VocabularyGenerator {
    pub open spec fn freq(self, k: Seq<char>) -> int { self.frequencies@[k] as int }
    pub open spec fn known(self, k: Seq<char>) -> bool { self.frequencies@.contains_key(k) }
}
/// frequency times length (bytes: the highest frequency)
pub open spec fn wt_of(g: G, hi: int, x: Seq<u8>, w: int) -> bool { x.len() == 1 && w == hi || exists|k: Seq<char>| #[trigger] g.known(k) && sb(k) == x && blen(k) > 1 && w == g.freq(k) * blen(k) }
pub open spec fn inlist(ks: Seq<Seq<char>>, k: Seq<char>) -> bool { exists|i: int| 0 <= i < ks.len() && #[trigger] ks[i] == k }
pub open spec fn first_wanted(g: G, n: int, k: Seq<char>) -> bool { exists|j: int| 0 <= j < n && (#[trigger] g.wl()[j])@ == k }
/// the choice of tokens of more than one byte: the first n of the added and suggested tokens, then, if these are all, the most frequent
pub open spec fn picked(g: G, size: int, ks: Seq<Seq<char>>, na: int, n: int) -> bool {
    &&& 0 <= na <= ks.len() && 0 <= n <= g.wl().len() && (ks.len() > 0 ==> 256 + ks.len() <= size)
    &&& forall|i: int, j: int| 0 <= i < j < ks.len() ==> #[trigger] ks[i] != #[trigger] ks[j]
    &&& forall|i: int| 0 <= i < ks.len() ==> g.known(#[trigger] ks[i]) && blen(ks[i]) > 1
    // the wanted ones
    &&& forall|i: int| 0 <= i < na ==> first_wanted(g, n, #[trigger] ks[i])
    &&& forall|j: int| 0 <= j < n && blen((#[trigger] g.wl()[j])@) > 1 ==> inlist(ks, g.wl()[j]@)
    &&& n < g.wl().len() ==> 256 + ks.len() >= size && na == ks.len()
    // the frequent ones
    &&& forall|i: int| na <= i < ks.len() ==> !g.wants(#[trigger] ks[i])
    &&& forall|k: Seq<char>| #[trigger] g.known(k) && blen(k) > 1 && !inlist(ks, k) ==> 256 + ks.len() >= size && forall|i: int| na <= i < ks.len() ==> g.freq(#[trigger] ks[i]) >= g.freq(k)
}
/// r holds the bytes and ks, each once; bytes and added tokens are to be kept
pub open spec fn token_in(r: Seq<ScoredToken>, x: Seq<u8>, keep: bool) -> bool { exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).value@ == x && r[i].keep == keep }
pub open spec fn holds_tokens(g: G, ks: Seq<Seq<char>>, r: Seq<ScoredToken>) -> bool {
    &&& r.len() == 256 + ks.len()
    &&& forall|b: u8| #[trigger] token_in(r, seq![b], true)
    &&& forall|i: int| 0 <= i < ks.len() ==> token_in(r, sb(#[trigger] ks[i]), g.adds(ks[i]))
    &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] r[i]).value@ != (#[trigger] r[j]).value@
}
pub open spec fn truthful(g: G, hi: int, r: Seq<ScoredToken>, w: Seq<int>) -> bool { is_hi(g.frequencies@, hi) && normed(r, w) && forall|i: int| 0 <= i < r.len() ==> #[trigger] w[i] > 0 && wt_of(g, hi, r[i].value@, w[i]) }
pub open spec fn generated(g: G, size: int, r: Seq<ScoredToken>) -> bool {
    &&& falling(r)
    &&& exists|ks: Seq<Seq<char>>, na: int, n: int| #[trigger] picked(g, size, ks, na, n) && holds_tokens(g, ks, r)
    &&& exists|hi: int, w: Seq<int>| #[trigger] truthful(g, hi, r, w)
}
/// before sorting
pub open spec fn base(g: G, hi: int, v: Seq<ScoredToken>, ks: Seq<Seq<char>>) -> bool {
    &&& v.len() == 256 + ks.len()
    &&& forall|b: int| 0 <= b < 256 ==> (#[trigger] v[b]).value@ == seq![b as u8] && v[b].score == f_of(hi) && v[b].keep
    &&& forall|i: int| 0 <= i < ks.len() ==> (#[trigger] v[256 + i]).value@ == sb(ks[i]) && v[256 + i].score == f_of(g.freq(ks[i]) * blen(ks[i])) && v[256 + i].keep == g.adds(ks[i])
    &&& forall|i: int| 0 <= i < ks.len() ==> g.known(#[trigger] ks[i]) && blen(ks[i]) > 1
    &&& forall|i: int, j: int| 0 <= i < j < ks.len() ==> #[trigger] ks[i] != #[trigger] ks[j]
}
pub open spec fn seen_is(st: Set<Seq<u8>>, ks: Seq<Seq<char>>) -> bool { forall|x: Seq<u8>| #[trigger] st.contains(x) <==> x.len() == 1 || exists|i: int| 0 <= i < ks.len() && sb(#[trigger] ks[i]) == x }
pub open spec fn small(size: int, ks: Seq<Seq<char>>) -> bool { ks.len() > 0 ==> 256 + ks.len() <= size }
pub proof fn lemma_seen(st: Set<Seq<u8>>, ks: Seq<Seq<char>>, k: Seq<char>) requires seen_is(st, ks), blen(k) > 1 ensures st.contains(sb(k)) == inlist(ks, k)
{
    if st.contains(sb(k)) { let i = choose|i: int| 0 <= i < ks.len() && sb(#[trigger] ks[i]) == sb(k); lemma_sb_inj(ks[i], k); }
    if inlist(ks, k) { let i = choose|i: int| 0 <= i < ks.len() && #[trigger] ks[i] == k; assert(sb(ks[i]) == sb(k)); }
}
/// one more token
pub proof fn lemma_push(g: G, hi: int, v: Seq<ScoredToken>, ks: Seq<Seq<char>>, st: Set<Seq<u8>>, t: ScoredToken, k: Seq<char>)
    requires base(g, hi, v, ks), seen_is(st, ks), g.known(k), blen(k) > 1, !st.contains(sb(k)), t.value@ == sb(k), t.score == f_of(g.freq(k) * blen(k)), t.keep == g.adds(k)
    ensures base(g, hi, v.push(t), ks.push(k)), seen_is(st.insert(sb(k)), ks.push(k)), !inlist(ks, k), inlist(ks.push(k), k), forall|k1: Seq<char>| #[trigger] inlist(ks, k1) ==> inlist(ks.push(k), k1)
{
    lemma_seen(st, ks, k);
    let k2 = ks.push(k); let v2 = v.push(t);
    assert(k2[ks.len() as int] == k);
    assert forall|k1: Seq<char>| #[trigger] inlist(ks, k1) implies inlist(k2, k1) by { let i = choose|i: int| 0 <= i < ks.len() && #[trigger] ks[i] == k1; assert(k2[i] == k1); }
    assert forall|i: int, j: int| 0 <= i < j < k2.len() implies #[trigger] k2[i] != #[trigger] k2[j] by { if j == ks.len() { assert(ks[i] == k2[i]); } else { assert(ks[i] != ks[j]); } }
    assert forall|i: int| 0 <= i < k2.len() implies (#[trigger] v2[256 + i]).value@ == sb(k2[i]) && v2[256 + i].score == f_of(g.freq(k2[i]) * blen(k2[i])) && v2[256 + i].keep == g.adds(k2[i]) by { if i < ks.len() { assert(v[256 + i].value@ == sb(ks[i])); } }
    assert forall|i: int| 0 <= i < k2.len() implies g.known(#[trigger] k2[i]) && blen(k2[i]) > 1 by { if i < ks.len() { assert(g.known(ks[i])); } }
    assert forall|b: int| 0 <= b < 256 implies (#[trigger] v2[b]).value@ == seq![b as u8] && v2[b].score == f_of(hi) && v2[b].keep by { assert(v[b].value@ == seq![b as u8]); }
    let s2 = st.insert(sb(k));
    assert forall|x: Seq<u8>| #[trigger] s2.contains(x) <==> x.len() == 1 || exists|i: int| 0 <= i < k2.len() && sb(#[trigger] k2[i]) == x by {
        if st.contains(x) && x.len() != 1 { let i = choose|i: int| 0 <= i < ks.len() && sb(#[trigger] ks[i]) == x; assert(sb(k2[i]) == x); }
        if x == sb(k) { assert(sb(k2[ks.len() as int]) == x); }
        if exists|i: int| 0 <= i < k2.len() && sb(#[trigger] k2[i]) == x { let i = choose|i: int| 0 <= i < k2.len() && sb(#[trigger] k2[i]) == x; if i < ks.len() { assert(sb(ks[i]) == x); } }
    }
}
/// the first n wanted tokens have been dealt with
pub open spec fn wpre(g: G, ks: Seq<Seq<char>>, n: int) -> bool {
    &&& forall|i: int| 0 <= i < ks.len() ==> first_wanted(g, n, #[trigger] ks[i])
    &&& forall|j: int| 0 <= j < n && blen((#[trigger] g.wl()[j])@) > 1 ==> inlist(ks, g.wl()[j]@)
}
pub proof fn lemma_first_mono(g: G, n: int, k: Seq<char>) requires 0 <= n < g.wl().len() ensures first_wanted(g, n, k) ==> first_wanted(g, n + 1, k), g.wl()[n]@ == k ==> first_wanted(g, n + 1, k)
{ if first_wanted(g, n, k) { let j = choose|j: int| 0 <= j < n && (#[trigger] g.wl()[j])@ == k; assert(g.wl()[j]@ == k); } }
pub proof fn lemma_wpre_next(g: G, ks: Seq<Seq<char>>, k2: Seq<Seq<char>>, n: int)
    requires wpre(g, ks, n), 0 <= n < g.wl().len(), k2 == ks && (blen(g.wl()[n]@) > 1 ==> inlist(ks, g.wl()[n]@)) || k2 == ks.push(g.wl()[n]@)
    ensures wpre(g, k2, n + 1)
{
    assert forall|i: int| 0 <= i < k2.len() implies first_wanted(g, n + 1, #[trigger] k2[i]) by { if i < ks.len() { assert(first_wanted(g, n, ks[i])); } lemma_first_mono(g, n, k2[i]); }
    assert forall|j: int| 0 <= j < n + 1 && blen((#[trigger] g.wl()[j])@) > 1 implies inlist(k2, g.wl()[j]@) by {
        let k = g.wl()[j]@;
        if j < n { assert(inlist(ks, k)); let i = choose|i: int| 0 <= i < ks.len() && #[trigger] ks[i] == k; assert(k2[i] == k); }
        else if k2 != ks { assert(k2[ks.len() as int] == k); }
    }
}
/// the keep flag that goes with position n
pub proof fn lemma_keep(g: G, ks: Seq<Seq<char>>, n: int)
    requires wpre(g, ks, n), 0 <= n < g.wl().len(), blen(g.wl()[n]@) > 1, !inlist(ks, g.wl()[n]@)
    ensures g.adds(g.wl()[n]@) == (n < g.added_tokens@.len()), g.wants(g.wl()[n]@)
{
    let k = g.wl()[n]@;
    if n < g.added_tokens@.len() { assert(g.added_tokens@[n]@ == k); }
    if g.adds(k) { let i = choose|i: int| 0 <= i < g.added_tokens@.len() && (#[trigger] g.added_tokens@[i])@ == k; assert(g.wl()[i]@ == k); assert(!(i < n)); }
}
pub proof fn lemma_adds_wants(g: G, k: Seq<char>) ensures g.adds(k) ==> g.wants(k)
{ if g.adds(k) { let i = choose|i: int| 0 <= i < g.added_tokens@.len() && (#[trigger] g.added_tokens@[i])@ == k; assert(g.wl()[i]@ == k); } }
/// the entries of the counts, most frequent first
pub open spec fn ranked(m: Map<Seq<char>, usize>, f: Seq<(&String, &usize)>) -> bool {
    &&& forall|i: int| 0 <= i < f.len() ==> m.contains_key((#[trigger] f[i]).0@) && m[f[i].0@] == *f[i].1
    &&& forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < f.len() && (#[trigger] f[i]).0@ == k
    &&& forall|i: int, j: int| 0 <= i < j < f.len() ==> *(#[trigger] f[i]).1 >= *(#[trigger] f[j]).1
}
pub proof fn lemma_ranked(m: Map<Seq<char>, usize>, e: Seq<(&String, &usize)>, f: Seq<(&String, &usize)>)
    requires lists_ref(e, m), e.to_multiset() == f.to_multiset(), forall|i: int, j: int| 0 <= i < j < f.len() ==> *(#[trigger] f[i]).1 >= *(#[trigger] f[j]).1
    ensures ranked(m, f)
{
    broadcast use vstd::multiset::group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures;
    assert forall|i: int| 0 <= i < f.len() implies m.contains_key((#[trigger] f[i]).0@) && m[f[i].0@] == *f[i].1 by {
        assert(f.contains(f[i])); assert(e.to_multiset().count(f[i]) > 0); assert(e.contains(f[i]));
        let j = choose|j: int| 0 <= j < e.len() && e[j] == f[i]; assert(m.contains_key(e[j].0.kid()));
    }
    assert forall|k: Seq<char>| #[trigger] m.contains_key(k) implies exists|i: int| 0 <= i < f.len() && (#[trigger] f[i]).0@ == k by {
        let j = choose|j: int| 0 <= j < e.len() && (#[trigger] e[j]).0.kid() == k;
        assert(e.contains(e[j])); assert(f.to_multiset().count(e[j]) > 0); assert(f.contains(e[j]));
        let i = choose|i: int| 0 <= i < f.len() && f[i] == e[j]; assert(f[i].0@ == k);
    }
}
pub proof fn lemma_hi(m: Map<Seq<char>, usize>, f: Seq<(&String, &usize)>, hi: int)
    requires ranked(m, f), positive(m), f.len() > 0 ==> hi == *f[0].1, f.len() == 0 ==> hi == 1
    ensures is_hi(m, hi), 0 < hi <= usize::MAX
{
    if f.len() > 0 { assert(m.contains_key(f[0].0@)); }
    assert forall|k: Seq<char>| #[trigger] m.contains_key(k) implies m[k] <= hi by { let i = choose|i: int| 0 <= i < f.len() && (#[trigger] f[i]).0@ == k; if i > 0 { assert(*f[0].1 >= *f[i].1); } }
}
/// the first n entries have been dealt with
pub open spec fn ranked_in(f: Seq<(&String, &usize)>, lo: int, n: int, k: Seq<char>) -> bool { exists|j: int| lo <= j < n && (#[trigger] f[j]).0@ == k }
pub open spec fn fpre(g: G, f: Seq<(&String, &usize)>, ks: Seq<Seq<char>>, na: int, n: int) -> bool {
    &&& forall|i: int| na <= i < ks.len() ==> ranked_in(f, 0, n, #[trigger] ks[i]) && !g.wants(ks[i])
    &&& forall|j: int| 0 <= j < n && blen((#[trigger] f[j]).0@) > 1 ==> inlist(ks, f[j].0@)
}
pub proof fn lemma_fpre_next(g: G, f: Seq<(&String, &usize)>, ks: Seq<Seq<char>>, k2: Seq<Seq<char>>, na: int, n: int)
    requires fpre(g, f, ks, na, n), 0 <= n < f.len(), 0 <= na <= ks.len(), k2 == ks && (blen(f[n].0@) > 1 ==> inlist(ks, f[n].0@)) || k2 == ks.push(f[n].0@) && !g.wants(f[n].0@)
    ensures fpre(g, f, k2, na, n + 1)
{
    assert forall|i: int| na <= i < k2.len() implies ranked_in(f, 0, n + 1, #[trigger] k2[i]) && !g.wants(k2[i]) by {
        if i < ks.len() { assert(ranked_in(f, 0, n, ks[i])); let j = choose|j: int| 0 <= j < n && (#[trigger] f[j]).0@ == ks[i]; assert(f[j].0@ == k2[i]); } else { assert(f[n].0@ == k2[i]); }
    }
    assert forall|j: int| 0 <= j < n + 1 && blen((#[trigger] f[j]).0@) > 1 implies inlist(k2, f[j].0@) by {
        let k = f[j].0@;
        if j < n { assert(inlist(ks, k)); let i = choose|i: int| 0 <= i < ks.len() && #[trigger] ks[i] == k; assert(k2[i] == k); }
        else if k2 != ks { assert(k2[ks.len() as int] == k); }
    }
}
pub proof fn lemma_picked(g: G, size: int, ks: Seq<Seq<char>>, na: int, n: int, f: Seq<(&String, &usize)>, m: int, hi: int, v: Seq<ScoredToken>)
    requires base(g, hi, v, ks), small(size, ks), 0 <= na <= ks.len(), 0 <= n <= g.wl().len(), wpre(g, ks.take(na), n), ranked(g.frequencies@, f), fpre(g, f, ks, na, m), 0 <= m <= f.len(),
        n < g.wl().len() ==> 256 + na >= size && na == ks.len(), m < f.len() ==> 256 + ks.len() >= size,
    ensures picked(g, size, ks, na, n)
{
    let w = ks.take(na);
    assert forall|i: int| 0 <= i < na implies first_wanted(g, n, #[trigger] ks[i]) by { assert(w[i] == ks[i]); }
    assert forall|j: int| 0 <= j < n && blen((#[trigger] g.wl()[j])@) > 1 implies inlist(ks, g.wl()[j]@) by { let k = g.wl()[j]@; assert(inlist(w, k)); let i = choose|i: int| 0 <= i < w.len() && #[trigger] w[i] == k; assert(ks[i] == k); }
    assert forall|k: Seq<char>| #[trigger] g.known(k) && blen(k) > 1 && !inlist(ks, k) implies 256 + ks.len() >= size && forall|i: int| na <= i < ks.len() ==> g.freq(#[trigger] ks[i]) >= g.freq(k) by {
        let j = choose|j: int| 0 <= j < f.len() && (#[trigger] f[j]).0@ == k;
        assert(!(j < m));
        assert forall|i: int| na <= i < ks.len() implies g.freq(#[trigger] ks[i]) >= g.freq(k) by {
            assert(ranked_in(f, 0, m, ks[i])); let q = choose|q: int| 0 <= q < m && (#[trigger] f[q]).0@ == ks[i]; assert(*f[q].1 >= *f[j].1);
        }
    }
}
/// the weight of an unsorted token
pub open spec fn tok_wt(g: G, hi: int, t: ScoredToken, w: int) -> bool { t.score == f_of(w) && 0 < w <= usize::MAX && wt_of(g, hi, t.value@, w) }
pub open spec fn some_wt(g: G, hi: int, t: ScoredToken) -> bool { exists|w: int| #[trigger] tok_wt(g, hi, t, w) }
pub proof fn lemma_some_wt(g: G, hi: int, v: Seq<ScoredToken>, ks: Seq<Seq<char>>, i: int)
    requires base(g, hi, v, ks), 0 <= i < v.len(), 0 < hi <= usize::MAX, positive(g.frequencies@), sizes_fit(g.frequencies@)
    ensures some_wt(g, hi, v[i]), is_fin(v[i].score), flt(0.0f64, v[i].score)
{
    if i < 256 { assert(v[i].value@ == seq![i as u8]); assert(tok_wt(g, hi, v[i], hi)); ax_f_of(hi); }
    else {
        let j = i - 256; assert(v[256 + j].value@ == sb(ks[j])); let k = ks[j]; assert(g.known(k)); let w = g.freq(k) * blen(k);
        assert(w > 0) by(nonlinear_arith) requires g.freq(k) >= 1, blen(k) > 1, w == g.freq(k) * blen(k);
        assert(tok_wt(g, hi, v[i], w)); ax_f_of(w);
    }
}
pub proof fn lemma_all_wt(g: G, hi: int, v: Seq<ScoredToken>, ks: Seq<Seq<char>>)
    requires base(g, hi, v, ks), 0 < hi <= usize::MAX, positive(g.frequencies@), sizes_fit(g.frequencies@)
    ensures all_pos(v), forall|i: int| 0 <= i < v.len() ==> some_wt(g, hi, #[trigger] v[i])
{ assert forall|i: int| 0 <= i < v.len() implies some_wt(g, hi, #[trigger] v[i]) && is_fin(v[i].score) && flt(0.0f64, v[i].score) by { lemma_some_wt(g, hi, v, ks, i); } }
pub proof fn lemma_base_distinct(g: G, hi: int, v: Seq<ScoredToken>, ks: Seq<Seq<char>>, i: int, j: int)
    requires base(g, hi, v, ks), 0 <= i < j < v.len()
    ensures v[i].value@ != v[j].value@
{
    if i < 256 { assert(v[i].value@ == seq![i as u8]); assert(v[i].value@.len() == 1); assert(v[i].value@[0] == i as u8); } else { assert(v[256 + (i - 256)].value@ == sb(ks[i - 256])); assert(blen(ks[i - 256]) > 1) by { assert(g.known(ks[i - 256])); } }
    if j < 256 { assert(v[j].value@ == seq![j as u8]); assert(v[j].value@[0] == j as u8); } else { assert(v[256 + (j - 256)].value@ == sb(ks[j - 256])); assert(blen(ks[j - 256]) > 1) by { assert(g.known(ks[j - 256])); } }
    if i >= 256 && v[i].value@ == v[j].value@ { lemma_sb_inj(ks[i - 256], ks[j - 256]); assert(ks[i - 256] != ks[j - 256]); }
}
/// the elements of a permutation
pub proof fn lemma_perm_els(a: Seq<ScoredToken>, b: Seq<ScoredToken>) requires a.to_multiset() == b.to_multiset()
    ensures a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> el_of(#[trigger] a[i], b), forall|i: int| 0 <= i < b.len() ==> el_of(#[trigger] b[i], a)
{
    broadcast use vstd::multiset::group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures;
    assert(a.len() == a.to_multiset().len()); assert(b.len() == b.to_multiset().len());
    assert forall|i: int| 0 <= i < a.len() implies el_of(#[trigger] a[i], b) by { assert(a.contains(a[i])); assert(b.to_multiset().count(a[i]) > 0); assert(b.contains(a[i])); }
    assert forall|i: int| 0 <= i < b.len() implies el_of(#[trigger] b[i], a) by { assert(b.contains(b[i])); assert(a.to_multiset().count(b[i]) > 0); assert(a.contains(b[i])); }
}
pub open spec fn el_of(x: ScoredToken, s: Seq<ScoredToken>) -> bool { exists|j: int| 0 <= j < s.len() && #[trigger] s[j] == x }
pub open spec fn el_at(x: ScoredToken, s: Seq<ScoredToken>) -> int { choose|j: int| 0 <= j < s.len() && #[trigger] s[j] == x }
pub proof fn lemma_sorted_weights(g: G, hi: int, v0: Seq<ScoredToken>, ks: Seq<Seq<char>>, v1: Seq<ScoredToken>, r: Seq<ScoredToken>)
    requires base(g, hi, v0, ks), is_hi(g.frequencies@, hi), 0 < hi <= usize::MAX, positive(g.frequencies@), sizes_fit(g.frequencies@),
        v1.len() == v0.len(), forall|i: int| 0 <= i < v1.len() ==> el_of(#[trigger] v1[i], v0), same_tokens(v1, r), forall|w: Seq<int>| #[trigger] weighs(v1, w) ==> normed(r, w),
    ensures all_pos(v1), exists|hi: int, w: Seq<int>| #[trigger] truthful(g, hi, r, w)
{
    hide(base); hide(is_hi); hide(wt_of); hide(normed);
    lemma_all_wt(g, hi, v0, ks);
    assert forall|i: int| 0 <= i < v1.len() implies is_fin((#[trigger] v1[i]).score) && flt(0.0f64, v1[i].score) by { let j = el_at(v1[i], v0); assert(v0[j] == v1[i]); assert(is_fin(v0[j].score)); }
    let w = Seq::new(v1.len(), |i: int| choose|x: int| #[trigger] tok_wt(g, hi, v1[i], x));
    assert forall|i: int| 0 <= i < v1.len() implies tok_wt(g, hi, v1[i], #[trigger] w[i]) by { let j = el_at(v1[i], v0); assert(v0[j] == v1[i]); assert(some_wt(g, hi, v0[j])); }
    assert forall|i: int| 0 <= i < v1.len() implies #[trigger] w[i] > 0 && apx(v1[i].score, w[i] as real) by { assert(tok_wt(g, hi, v1[i], w[i])); ax_f_of(w[i]); }
    assert(weighs(v1, w)); assert(normed(r, w));
    assert forall|i: int| 0 <= i < r.len() implies #[trigger] w[i] > 0 && wt_of(g, hi, r[i].value@, w[i]) by { assert(tok_wt(g, hi, v1[i], w[i])); assert(r[i].value == v1[i].value); }
    assert(truthful(g, hi, r, w));
}
pub proof fn lemma_sorted_tokens(g: G, hi: int, v0: Seq<ScoredToken>, ks: Seq<Seq<char>>, v1: Seq<ScoredToken>, r: Seq<ScoredToken>)
    requires base(g, hi, v0, ks), v1.to_multiset() == v0.to_multiset(), same_tokens(v1, r),
    ensures holds_tokens(g, ks, r)
{
    lemma_perm_els(v0, v1);
    assert forall|j: int| 0 <= j < v0.len() implies token_in(r, (#[trigger] v0[j]).value@, v0[j].keep) by { let i = el_at(v0[j], v1); assert(v1[i] == v0[j]); assert(r[i].value == v1[i].value); }
    assert forall|b: u8| #[trigger] token_in(r, seq![b], true) by { assert(v0[b as int].value@ == seq![b as int as u8]); assert(token_in(r, v0[b as int].value@, v0[b as int].keep)); }
    assert forall|i: int| 0 <= i < ks.len() implies token_in(r, sb(#[trigger] ks[i]), g.adds(ks[i])) by { assert(v0[256 + i].value@ == sb(ks[i])); assert(token_in(r, v0[256 + i].value@, v0[256 + i].keep)); }
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies (#[trigger] r[i]).value@ != (#[trigger] r[j]).value@ by { lemma_sorted_distinct(g, hi, v0, ks, v1, i, j); assert(r[i].value == v1[i].value && r[j].value == v1[j].value); }
}
pub proof fn lemma_sorted_distinct(g: G, hi: int, v0: Seq<ScoredToken>, ks: Seq<Seq<char>>, v1: Seq<ScoredToken>, i: int, j: int)
    requires base(g, hi, v0, ks), v1.to_multiset() == v0.to_multiset(), 0 <= i < j < v1.len()
    ensures v1[i].value@ != v1[j].value@
{
    hide(base); lemma_perm_els(v0, v1);
    let a = el_at(v1[i], v0); let b = el_at(v1[j], v0); assert(el_of(v1[i], v0)); assert(el_of(v1[j], v0)); assert(v0[a] == v1[i]); assert(v0[b] == v1[j]);
    if a < b { lemma_base_distinct(g, hi, v0, ks, a, b); } else if b < a { lemma_base_distinct(g, hi, v0, ks, b, a); }
    else { lemma_twice(v1, i, j); lemma_once(g, hi, v0, ks, v0[a]); }
}
/// sorting and taking logarithms
pub proof fn lemma_sorted(g: G, size: int, hi: int, v0: Seq<ScoredToken>, ks: Seq<Seq<char>>, na: int, n: int, v1: Seq<ScoredToken>, r: Seq<ScoredToken>)
    requires base(g, hi, v0, ks), picked(g, size, ks, na, n), is_hi(g.frequencies@, hi), 0 < hi <= usize::MAX, positive(g.frequencies@), sizes_fit(g.frequencies@),
        v1.to_multiset() == v0.to_multiset(), falling(v1), same_tokens(v1, r), forall|w: Seq<int>| #[trigger] weighs(v1, w) ==> normed(r, w), all_pos(v1) && falling(v1) ==> falling(r),
    ensures generated(g, size, r)
{
    hide(base); hide(picked); hide(is_hi); hide(normed); hide(weighs); hide(holds_tokens); hide(truthful); hide(falling); hide(all_pos);
    lemma_perm_els(v0, v1);
    lemma_sorted_weights(g, hi, v0, ks, v1, r);
    lemma_sorted_tokens(g, hi, v0, ks, v1, r);
    assert(picked(g, size, ks, na, n) && holds_tokens(g, ks, r));
}
pub proof fn lemma_twice(s: Seq<ScoredToken>, i: int, j: int) requires 0 <= i < j < s.len(), s[i] == s[j] ensures s.to_multiset().count(s[i]) >= 2
{ broadcast use vstd::multiset::group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures;
    let t = s.remove(j);
    assert(t[i] == s[i]); assert(t.contains(s[i])); assert(t.to_multiset().count(s[i]) > 0);
    assert(t.to_multiset() =~= s.to_multiset().remove(s[j]));
}
pub proof fn lemma_once(g: G, hi: int, v: Seq<ScoredToken>, ks: Seq<Seq<char>>, x: ScoredToken) requires base(g, hi, v, ks) ensures v.to_multiset().count(x) <= 1
{ broadcast use vstd::multiset::group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures;
    if v.to_multiset().count(x) >= 2 {
        assert(v.contains(x)); let i = choose|i: int| 0 <= i < v.len() && v[i] == x;
        let t = v.remove(i); assert(t.to_multiset() =~= v.to_multiset().remove(x)); assert(t.to_multiset().count(x) > 0); assert(t.contains(x));
        let j = choose|j: int| 0 <= j < t.len() && t[j] == x;
        if j < i { assert(v[j] == x); lemma_base_distinct(g, hi, v, ks, j, i); } else { assert(v[j + 1] == x); lemma_base_distinct(g, hi, v, ks, i, j + 1); }
    }
}
pub proof fn lemma_fcmp_total()
    ensures forall|a: f64, b: f64| !is_nan(a) && !is_nan(b) ==> #[trigger] fcmp(a, b) == flip(fcmp(b, a)),
        forall|a: f64, b: f64, c: f64| !is_nan(a) && !is_nan(b) && !is_nan(c) && #[trigger] fcmp(a, b) != Ordering::Greater && #[trigger] fcmp(b, c) != Ordering::Greater ==> fcmp(a, c) != Ordering::Greater,
{
    assert forall|a: f64, b: f64, c: f64| !is_nan(a) && !is_nan(b) && !is_nan(c) && #[trigger] fcmp(a, b) != Ordering::Greater && #[trigger] fcmp(b, c) != Ordering::Greater implies fcmp(a, c) != Ordering::Greater by { ax_le_trans(a, b, c); }
}
/// bytes only
pub open spec fn bytes_to(v: Seq<ScoredToken>, st: Set<Seq<u8>>, hi: int, n: int) -> bool {
    &&& v.len() == n
    &&& forall|b: int| 0 <= b < n ==> (#[trigger] v[b]).value@ == seq![b as u8] && v[b].score == f_of(hi) && v[b].keep
    &&& forall|x: Seq<u8>| #[trigger] st.contains(x) <==> x.len() == 1 && x[0] < n
}
pub proof fn lemma_byte(v: Seq<ScoredToken>, st: Set<Seq<u8>>, hi: int, b: u8, t: ScoredToken)
    requires bytes_to(v, st, hi, b as int), t.value@ == seq![b], t.score == f_of(hi), t.keep
    ensures bytes_to(v.push(t), st.insert(seq![b]), hi, b + 1)
{
    let v2 = v.push(t); let s2 = st.insert(seq![b]);
    assert forall|i: int| 0 <= i < b + 1 implies (#[trigger] v2[i]).value@ == seq![i as u8] && v2[i].score == f_of(hi) && v2[i].keep by { if i < b { assert(v[i].value@ == seq![i as u8]); } }
    assert forall|x: Seq<u8>| #[trigger] s2.contains(x) <==> x.len() == 1 && x[0] < b + 1 by { if x.len() == 1 && x[0] == b { assert(x =~= seq![b]); } }
}
pub proof fn lemma_bytes_base(g: G, hi: int, v: Seq<ScoredToken>, st: Set<Seq<u8>>) requires bytes_to(v, st, hi, 256) ensures base(g, hi, v, Seq::empty()), seen_is(st, Seq::empty()), wpre(g, Seq::empty(), 0)
{ assert forall|x: Seq<u8>| #[trigger] st.contains(x) <==> x.len() == 1 || exists|i: int| 0 <= i < Seq::<Seq<char>>::empty().len() && sb(#[trigger] Seq::<Seq<char>>::empty()[i]) == x by { } }
pub proof fn lemma_fit(g: G, k: Seq<char>) requires sizes_fit(g.frequencies@), g.known(k) ensures g.freq(k) * blen(k) <= usize::MAX, g.freq(k) == g.frequencies@[k] {}
pub proof fn lemma_base_len(g: G, hi: int, v: Seq<ScoredToken>, ks: Seq<Seq<char>>) requires base(g, hi, v, ks) ensures v.len() == 256 + ks.len() {}
pub proof fn lemma_known(g: G, f: Seq<(&String, &usize)>, n: int) requires ranked(g.frequencies@, f), 0 <= n < f.len() ensures g.known(f[n].0@), g.freq(f[n].0@) == *f[n].1 {}
pub proof fn lemma_wants_known(g: G, n: int) requires g.wf(), 0 <= n < g.wl().len() ensures g.known(g.wl()[n]@), g.wants(g.wl()[n]@) {}
pub proof fn lemma_wants_in(g: G, ks: Seq<Seq<char>>, k: Seq<char>, na: int) requires wpre(g, ks.take(na), g.wl().len() as int), 0 <= na <= ks.len(), blen(k) > 1, g.wants(k) ensures inlist(ks, k)
{ let i = choose|i: int| 0 <= i < g.wl().len() && (#[trigger] g.wl()[i])@ == k; assert(inlist(ks.take(na), k)); let j = choose|j: int| 0 <= j < ks.take(na).len() && #[trigger] ks.take(na)[j] == k; assert(ks[j] == k); }
pub proof fn lemma_fpre0(g: G, f: Seq<(&String, &usize)>, ks: Seq<Seq<char>>) ensures fpre(g, f, ks, ks.len() as int, 0) {}
pub proof fn lemma_pos_num(v: Seq<ScoredToken>, i: int) requires all_pos(v), 0 <= i < v.len() ensures !is_nan(v[i].score) {}
pub proof fn lemma_bytes0(hi: int) ensures bytes_to(Seq::empty(), Set::empty(), hi, 0) {}
pub proof fn lemma_known_is(g: G, k: Seq<char>) ensures g.known(k) == g.frequencies@.contains_key(k), g.known(k) ==> g.freq(k) == g.frequencies@[k] {}
pub proof fn lemma_perm_num(a: Seq<ScoredToken>, b: Seq<ScoredToken>) requires a.to_multiset() == b.to_multiset(), all_pos(a) ensures forall|i: int| 0 <= i < b.len() ==> !is_nan((#[trigger] b[i]).score)
{ broadcast use vstd::multiset::group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures;
    assert forall|i: int| 0 <= i < b.len() implies !is_nan((#[trigger] b[i]).score) by { assert(b.contains(b[i])); assert(a.to_multiset().count(b[i]) > 0); assert(a.contains(b[i])); let j = choose|j: int| 0 <= j < a.len() && a[j] == b[i]; lemma_pos_num(a, j); } }

@fn VocabularyGenerator::new
@contract
    requires added_tokens@.len() + suggested_tokens@.len() <= usize::MAX
    ensures r.max_token_length == max_token_length, r.insert_probability == insert_probability, r.split == split, r.allow == allow, r.added_tokens == added_tokens, r.suggested_tokens == suggested_tokens,
        r.wf(), forall|k: Seq<char>| #[trigger] cnt(r.frequencies@, k) == mult(added_tokens@, k) + mult(suggested_tokens@, k),
@before 1
    proof { assert(added_tokens@.take(0) =~= Seq::empty()); }
@loop 1
    invariant __s1@ == added_tokens@, __i1 <= __s1@.len(), added_tokens@.len() + suggested_tokens@.len() <= usize::MAX, positive(frequencies@),
        forall|k: Seq<char>| #[trigger] cnt(frequencies@, k) == mult(added_tokens@.take(__i1 as int), k),
@body_start 1
    let ghost m0 = frequencies@;
    proof { lemma_new_count(m0, added_tokens@, __v1 as int, 0); }
@body_end 1
    proof {
        let x = added_tokens@[__v1 as int]@; assert(frequencies@ =~= m0.insert(x, (cnt(m0, x) + 1) as usize));
        assert forall|k: Seq<char>| #[trigger] cnt(frequencies@, k) == mult(added_tokens@.take(__i1 as int), k) by { assert(cnt(m0, k) == mult(added_tokens@.take(__v1 as int), k)); }
    }
@before 2
    proof { assert(added_tokens@.take(added_tokens@.len() as int) =~= added_tokens@); assert(suggested_tokens@.take(0) =~= Seq::empty()); }
@loop 2
    invariant __s2@ == suggested_tokens@, __i2 <= __s2@.len(), added_tokens@.len() + suggested_tokens@.len() <= usize::MAX, positive(frequencies@),
        forall|k: Seq<char>| #[trigger] cnt(frequencies@, k) == mult(added_tokens@, k) + mult(suggested_tokens@.take(__i2 as int), k),
@body_start 2
    let ghost m0 = frequencies@;
    proof { let x = suggested_tokens@[__v2 as int]@; lemma_mult(added_tokens@, x); lemma_new_count(m0, suggested_tokens@, __v2 as int, added_tokens@.len() as int); }
@body_end 2
    proof {
        let x = suggested_tokens@[__v2 as int]@; assert(frequencies@ =~= m0.insert(x, (cnt(m0, x) + 1) as usize));
        assert forall|k: Seq<char>| #[trigger] cnt(frequencies@, k) == mult(added_tokens@, k) + mult(suggested_tokens@.take(__i2 as int), k) by { assert(cnt(m0, k) == mult(added_tokens@, k) + mult(suggested_tokens@.take(__v2 as int), k)); }
    }
@after 2
    proof {
        assert(suggested_tokens@.take(suggested_tokens@.len() as int) =~= suggested_tokens@);
        let w = added_tokens@ + suggested_tokens@;
        assert forall|i: int| 0 <= i < w.len() implies frequencies@.contains_key((#[trigger] w[i])@) by {
            let k = w[i]@; lemma_mult(added_tokens@, k); lemma_mult(suggested_tokens@, k);
            if i < added_tokens@.len() { assert(added_tokens@[i]@ == k); } else { assert(suggested_tokens@[i - added_tokens@.len()]@ == k); }
            assert(cnt(frequencies@, k) > 0);
        }
    }
@fn VocabularyGenerator::feed
@opt may_panic fassign keep:as_ref map:sample_tokens
@contract
    requires old(self).wf(), forall|k: Seq<char>| #[trigger] cnt(old(self).frequencies@, k) + samples@.len() <= usize::MAX
    ensures final(self).same_config(*old(self)), final(self).wf(), fed(*old(self), old(self).frequencies@, final(self).frequencies@, samples@),
@start
    hide(cov); hide(cov_w); hide(sound); hide(counted); hide(bumped); hide(added_up); hide(fed); hide(lists); hide(flat); hide(VocabularyGenerator::sub_ok); hide(VocabularyGenerator::cand); hide(nsup); hide(VocabularyGenerator::wants); hide(occurs); hide(VocabularyGenerator::wl);
    let ghost g = *self; let ghost fr0 = self.frequencies@; let ghost mut s2: Seq<String> = Seq::empty();
@before 1
    let ghost cs = __it1@;
    proof {
        assert(cs.skip(0) =~= cs); assert(cs.take(0) =~= Seq::empty()); lemma_flat_none::<String>(); lemma_counted_none(g); lemma_perm_len(flat(cs), samples@);
        assert(frequencies@ == Map::<Seq<char>, usize>::empty());
    }
@loop 1
    invariant
        __it1@.len() <= cs.len(), __it1@ == cs.skip(cs.len() - __it1@.len()),
        counted(g, frequencies@, flat(cs.take(cs.len() - __it1@.len()))),
    ensures __it1@.len() == 0,
    decreases __it1.vx_left()
@body_start 1
    let ghost n1 = cs.len() - __it1@.len() - 1; let ghost ch = chunk@; let ghost d1 = flat(cs.take(n1));
    proof { assert(cs[n1] == chunk); assert(__it1@ =~= cs.skip(n1 + 1)); lemma_flat_next(cs, n1); lemma_flat_len(cs, n1 + 1); }
@before 2
    let ghost es2 = __it2@;
    proof { assert(es2.skip(0) =~= es2); assert(d1 + ch.take(0) =~= d1); }
@loop 2
    invariant
        es2.len() == ch.len(), forall|i: int| 0 <= i < es2.len() ==> *(#[trigger] es2[i]) == ch[i],
        __it2@.len() <= es2.len(), __it2@ == es2.skip(es2.len() - __it2@.len()), sample_tokens@ == Set::<Seq<char>>::empty(),
        counted(g, frequencies@, d1 + ch.take(es2.len() - __it2@.len())),
    ensures __it2@.len() == 0,
    decreases __it2.vx_left()
@body_start 2
    let ghost n2 = es2.len() - __it2@.len() - 1; let ghost s = sample@; let ghost ps = parts(g.split, s); let ghost m0 = frequencies@; let ghost d2 = d1 + ch.take(n2);
    proof {
        assert(*es2[n2] == *sample); assert(__it2@ =~= es2.skip(n2 + 1));
        lemma_set_start(g, s, sample_tokens@, ps);
    }
@before 3
    let ghost es3 = __it3@;
    proof { assert(es3.skip(0) =~= es3); assert(ps == fre_matches(*split, s)); }
@loop 3
    invariant
        __it3@.len() <= es3.len(), __it3@ == es3.skip(es3.len() - __it3@.len()), sound(g, s, sample_tokens@),
        forall|i: int| 0 <= i < es3.len() - __it3@.len() ==> (#[trigger] es3[i]) is Ok,
        g.sure() ==> cov(g, sample_tokens@, ps, es3.len() - __it3@.len(), 0, 0),
    ensures __it3@.len() == 0,
    decreases __it3.vx_left()
@body_start 3
    let ghost n3 = es3.len() - __it3@.len() - 1;
    proof { assert(es3[n3] == part); assert(__it3@ =~= es3.skip(n3 + 1)); }
@body_end 3
    proof { if g.sure() { lemma_cov_part(g, sample_tokens@, ps, n3); } }
@after 3
    proof { assert(es3.len() == ps.len()); }
@before 4
    let ghost p = part@; let ghost sq: int = n3;
    proof { assert(ps[sq] == p); assert(blen(p) <= isize::MAX); }
@loop 4
    invariant
        __it4@ == p, 0 <= __it4.pos() <= p.len(), sound(g, s, sample_tokens@), g.sure() ==> cov(g, sample_tokens@, ps, sq, __it4.pos(), 0),
    ensures __it4.pos() == p.len(),
    decreases __it4.vx_left()
@body_start 4
    let ghost a = __it4.pos() - 1;
    proof {
        lemma_off(p, a); assert(is_bound(p, i as int));
        if g.sure() { lemma_cov_zero(g, sample_tokens@, ps, sq, a); }
    }
@before 5
    proof { assert(suffix@ == p.skip(a)); assert(suffix@.take(0) =~= Seq::empty()); lemma_blen_pos(suffix@.take(0)); assert(blen(suffix@) <= isize::MAX); }
@loop 5
    invariant_except_break
        g.sure() ==> cov(g, sample_tokens@, ps, sq, a, a + __it5.pos()),
    invariant
        __it5@ == suffix@, 0 <= __it5.pos() <= suffix@.len(), len as int == blen(suffix@.take(__it5.pos())), sound(g, s, sample_tokens@),
    ensures g.sure() ==> cov(g, sample_tokens@, ps, sq, a, p.len() as int),
    decreases __it5.vx_left()
@body_start 5
    let ghost e = __it5.pos() - 1; let ghost st0 = sample_tokens@;
    proof {
        lemma_take_step(suffix@, e); lemma_off(suffix@, e);
        assert(p.subrange(a, a + e + 1) =~= suffix@.take(e + 1));
        if g.sure() && blen(suffix@.take(e + 1)) > g.max_token_length { lemma_cov_break(g, st0, ps, sq, a, a + e); }
    }
@body_end 5
    proof {
        let st1 = sample_tokens@;
        assert(candidate@ == p.subrange(a, a + e + 1));
        lemma_sub_iff(g, p, a, a + e + 1);
        assert(g.allowed(candidate@) <==> g.sub_ok(p, a, a + e + 1));
        assert(st1 == st0 || (g.sub_ok(p, a, a + e + 1) && st1 == st0.insert(candidate@)));
        if g.sub_ok(p, a, a + e + 1) { lemma_sound_sub(g, s, st0, sq, a, a + e + 1); }
        if g.sure() { lemma_cov_step(g, st0, st1, ps, sq, a, a + e); }
    }
@body_end 4
    proof { if g.sure() { lemma_cov_row(g, sample_tokens@, ps, sq, a); } }
@before 6
    let ghost p = s; let ghost sq: int = 0;
    proof { assert(ps[sq] == p); assert(blen(p) <= isize::MAX); }
@loop 6
    invariant
        __it6@ == p, 0 <= __it6.pos() <= p.len(), sound(g, s, sample_tokens@), g.sure() ==> cov(g, sample_tokens@, ps, sq, __it6.pos(), 0),
    ensures __it6.pos() == p.len(),
    decreases __it6.vx_left()
@body_start 6
    let ghost a = __it6.pos() - 1;
    proof {
        lemma_off(p, a); assert(is_bound(p, i as int));
        if g.sure() { lemma_cov_zero(g, sample_tokens@, ps, sq, a); }
    }
@before 7
    proof { assert(suffix@ == p.skip(a)); assert(suffix@.take(0) =~= Seq::empty()); lemma_blen_pos(suffix@.take(0)); assert(blen(suffix@) <= isize::MAX); }
@loop 7
    invariant_except_break
        g.sure() ==> cov(g, sample_tokens@, ps, sq, a, a + __it7.pos()),
    invariant
        __it7@ == suffix@, 0 <= __it7.pos() <= suffix@.len(), len as int == blen(suffix@.take(__it7.pos())), sound(g, s, sample_tokens@),
    ensures g.sure() ==> cov(g, sample_tokens@, ps, sq, a, p.len() as int),
    decreases __it7.vx_left()
@body_start 7
    let ghost e = __it7.pos() - 1; let ghost st0 = sample_tokens@;
    proof {
        lemma_take_step(suffix@, e); lemma_off(suffix@, e);
        assert(p.subrange(a, a + e + 1) =~= suffix@.take(e + 1));
        if g.sure() && blen(suffix@.take(e + 1)) > g.max_token_length { lemma_cov_break(g, st0, ps, sq, a, a + e); }
    }
@body_end 7
    proof {
        let st1 = sample_tokens@;
        assert(candidate@ == p.subrange(a, a + e + 1));
        lemma_sub_iff(g, p, a, a + e + 1);
        assert(g.allowed(candidate@) <==> g.sub_ok(p, a, a + e + 1));
        assert(st1 == st0 || (g.sub_ok(p, a, a + e + 1) && st1 == st0.insert(candidate@)));
        if g.sub_ok(p, a, a + e + 1) { lemma_sound_sub(g, s, st0, sq, a, a + e + 1); }
        if g.sure() { lemma_cov_step(g, st0, st1, ps, sq, a, a + e); }
    }
@body_end 6
    proof { if g.sure() { lemma_cov_row(g, sample_tokens@, ps, sq, a); } }
@after 6
    proof { if g.sure() { lemma_cov_part(g, sample_tokens@, ps, 0); } }
@before 8
    let ghost es8 = __it8@; let ghost w = g.wl();
    proof {
        lemma_wl(g);
        assert(es8.skip(0) =~= es8); assert(es8.len() == w.len());
        assert forall|i: int| 0 <= i < es8.len() implies *(#[trigger] es8[i]) == w[i] by { }
        lemma_cov_w0(g, sample_tokens@, s);
    }
@loop 8
    invariant
        __it8@.len() <= es8.len(), __it8@ == es8.skip(es8.len() - __it8@.len()), sound(g, s, sample_tokens@),
        g.sure() ==> cov(g, sample_tokens@, ps, ps.len() as int, 0, 0) && cov_w(g, sample_tokens@, s, es8.len() - __it8@.len()),
    ensures __it8@.len() == 0,
    decreases __it8.vx_left()
@body_start 8
    let ghost n8 = es8.len() - __it8@.len() - 1; let ghost st8 = sample_tokens@;
    proof { assert(es8[n8] == token); assert(*token == w[n8]); assert(__it8@ =~= es8.skip(n8 + 1)); }
@before 9
    let ghost c9 = __it9@.len();
@loop 9
    invariant_except_break
        sample_tokens@ == st8, g.sure() ==> __it9@.len() == c9, __it9@.len() <= c9,
    ensures
        sample_tokens@ == st8 || occurs(token@, s) && sample_tokens@ == st8.insert(token@), g.sure() && occurs(token@, s) ==> sample_tokens@.contains(token@),
    decreases __it9.vx_left()
@before 1009
    let ghost c9 = __it9@.len();
@loop 1009
    invariant_except_break
        !__c9, sample_tokens@ == st8, g.sure() ==> __it9@.len() == c9, __it9@.len() <= c9,
    ensures
        sample_tokens@ == st8, __c9 ==> occurs(token@, s), g.sure() && occurs(token@, s) ==> __c9,
    decreases __it9.vx_left()
@body_end 8
    proof {
        assert(sample_tokens@ == st8 || occurs(token@, s) && sample_tokens@ == st8.insert(token@));
        assert(g.sure() && occurs(token@, s) ==> sample_tokens@.contains(token@));
        if occurs(w[n8]@, s) { lemma_sound_want(g, s, st8, n8); }
        lemma_cov_mono(g, st8, sample_tokens@, ps, ps.len() as int, 0, 0, s, n8);
        if g.sure() { lemma_cov_w(g, sample_tokens@, s, n8); }
    }
@before 10
    let ghost es10 = __it10@; let ghost st = sample_tokens@;
    proof { assert(es10.skip(0) =~= es10); lemma_counted_pos(g, m0, d2); lemma_bumped_none(m0, es10); assert(distinct(es10)); if g.sure() { lemma_complete(g, s, st); } }
@loop 10
    invariant
        __it10@.len() <= es10.len(), __it10@ == es10.skip(es10.len() - __it10@.len()), bumped(m0, frequencies@, es10, es10.len() - __it10@.len()),
    ensures __it10@.len() == 0,
    decreases __it10.vx_left()
@body_start 10
    let ghost n10 = es10.len() - __it10@.len() - 1; let ghost t0 = frequencies@;
    proof {
        assert(es10[n10] == __x10); assert(__it10@ =~= es10.skip(n10 + 1));
        lemma_counted_le(g, m0, d2, es10[n10].kid());
        lemma_bump(m0, t0, es10, n10);
    }
@body_end 10
    proof { let x = es10[n10].kid(); assert(frequencies@ =~= t0.insert(x, (cnt(t0, x) + 1) as usize)); }
@after 10
    proof { lemma_counted_next(g, m0, frequencies@, es10, st, d2, ch[n2]); assert(d2.push(ch[n2]) =~= d1 + ch.take(n2 + 1)); }
@after 2
    proof { assert(ch.take(ch.len() as int) =~= ch); }
@after 1
    proof { assert(cs.take(cs.len() as int) =~= cs); s2 = flat(cs); lemma_counted_pos(g, frequencies@, s2); }
@before 11
    let ghost es11 = __it11@; let ghost m11 = frequencies@;
    proof { assert(es11.skip(0) =~= es11); lemma_added_up_none(fr0, m11, es11); }
@loop 11
    invariant
        self.same_config(g),
        __it11@.len() <= es11.len(), __it11@ == es11.skip(es11.len() - __it11@.len()), added_up(fr0, self.frequencies@, m11, es11, es11.len() - __it11@.len()),
    ensures __it11@.len() == 0,
    decreases __it11.vx_left()
@body_start 11
    let ghost n11 = es11.len() - __it11@.len() - 1; let ghost t0 = self.frequencies@;
    proof {
        assert(es11[n11] == __x11); assert(__it11@ =~= es11.skip(n11 + 1));
        let x = es11[n11].0.kid();
        lemma_counted_le(g, m11, s2, x); assert(cnt(fr0, x) + samples@.len() <= usize::MAX);
        lemma_add_up(fr0, t0, m11, es11, n11);
    }
@body_end 11
    proof { let x = es11[n11].0.kid(); assert(self.frequencies@ =~= t0.insert(x, (cnt(t0, x) + es11[n11].1) as usize)); }
@after 11
    proof { lemma_fed(g, fr0, self.frequencies@, m11, es11, s2, samples@); lemma_wf_kept(g, *self, m11, es11, es11.len() as int); }
@fn VocabularyGenerator::current_size
@contract
    ensures r == self.frequencies@.dom().len()
@fn VocabularyGenerator::generate
@opt may_panic fassign map:frequencies ctype4:Vec<(&String,bool)> ctype5:Vec<(&String,bool)>
@contract
    requires old(self).wf(), sizes_fit(old(self).frequencies@)
    ensures *final(self) == *old(self), generated(*old(self), size as int, r@),
@start
    hide(base); hide(seen_is); hide(wpre); hide(fpre); hide(picked); hide(generated); hide(bytes_to); hide(ranked); hide(lists_ref); hide(normed); hide(weighs); hide(is_hi); hide(VocabularyGenerator::known); hide(VocabularyGenerator::freq); hide(VocabularyGenerator::wl); hide(VocabularyGenerator::adds); hide(VocabularyGenerator::wants);
    let ghost g = *self; let ghost fm = self.frequencies@; let ghost mut e1: Seq<(&String, &usize)> = Seq::empty(); let ghost mut ks: Seq<Seq<char>> = Seq::empty(); let ghost mut nw: int = 0; let ghost mut nf: int = 0;
    let ghost mut ft: Seq<(&String, &usize)> = Seq::empty(); let ghost mut v1: Seq<ScoredToken> = Seq::empty(); let ghost mut na: int = 0; let ghost mut v0: Seq<ScoredToken> = Seq::empty();
@before 1
    proof { e1 = __it1@; assert(e1.skip(0) =~= e1); }
@loop 1
    invariant
        __it1@.len() <= e1.len(), __it1@ == e1.skip(e1.len() - __it1@.len()), __c1@ =~= e1.take(e1.len() - __it1@.len()),
    ensures __it1@.len() == 0,
    decreases __it1.vx_left()
@after 1
    proof { assert(__c1@ =~= e1); }
@sort 1
    -> (o: Ordering) ensures o == icmp(*__p1.1 as int, *__p0.1 as int)
@after_sort 1
    proof { ft = frequent_tokens@; lemma_ranked(fm, e1, ft); }
@after_let highest_freq
    let ghost hi = highest_freq as int; let ghost mut st2: Set<Seq<u8>> = Set::empty(); let ghost mut c2: Seq<ScoredToken> = Seq::empty();
    proof { lemma_hi(fm, ft, hi); lemma_bytes0(hi); assert(seen@ == st2); }
@loop 2
    invariant
        __n2 == 255, st2 == seen@, c2 == __c2@, bytes_to(c2, st2, hi, if __d2 { 256 } else { __i2 as int }),
@body_end 2
    proof { assert(c2.push(__c2@.last()) =~= __c2@); assert(seen@ =~= st2.insert(seq![__v2])); lemma_byte(c2, st2, hi, __v2, __c2@.last()); st2 = seen@; c2 = __c2@; }
@after 2
    proof { lemma_bytes_base(g, hi, __c2@, seen@); }
@loop 4
    invariant __c4@.len() == __i4, __i4 <= __s4@.len(), forall|i: int| 0 <= i < __c4@.len() ==> *(#[trigger] __c4@[i]).0 == g.added_tokens@[i] && __c4@[i].1 == true,
@loop 5
    invariant __c5@.len() == __i5, __i5 <= __s5@.len(), forall|i: int| 0 <= i < __c5@.len() ==> *(#[trigger] __c5@[i]).0 == g.suggested_tokens@[i] && __c5@[i].1 == false,
@before 3
    let ghost es3 = __it3@; let ghost w = g.wl();
    proof {
        lemma_wl(g); assert(es3.skip(0) =~= es3); assert(es3.len() == w.len());
        assert forall|i: int| 0 <= i < es3.len() implies *(#[trigger] es3[i]).0 == w[i] && es3[i].1 == (i < g.added_tokens@.len()) by { }
        assert(vocab@.len() >= 0);
    }
@loop 3
    invariant_except_break
        nw == es3.len() - __it3@.len(),
    invariant
        __it3@.len() <= es3.len(), __it3@ == es3.skip(es3.len() - __it3@.len()), 0 <= nw <= es3.len(),
        base(g, hi, vocab@, ks), seen_is(seen@, ks), small(size as int, ks), wpre(g, ks, nw),
    ensures nw < es3.len() ==> 256 + ks.len() >= size,
    decreases __it3.vx_left()
@body_start 3
    let ghost n3 = es3.len() - __it3@.len() - 1; let ghost k = token@; let ghost sv = seen@; let ghost vv = vocab@;
    proof {
        assert(es3[n3] == __x3); assert(*token == w[n3]); assert(__it3@ =~= es3.skip(n3 + 1));
        lemma_base_len(g, hi, vocab@, ks); lemma_wants_known(g, n3); lemma_fit(g, k); lemma_known_is(g, k);
        if blen(k) > 1 { lemma_seen(sv, ks, k); if !inlist(ks, k) { lemma_keep(g, ks, n3); } }
    }
@body_end 3
    proof {
        if !sv.contains(sb(k)) && blen(k) > 1 {
            lemma_push(g, hi, vv, ks, sv, vocab@.last(), k); assert(vv.push(vocab@.last()) =~= vocab@);
            lemma_wpre_next(g, ks, ks.push(k), n3); ks = ks.push(k);
        } else { assert(seen@ =~= sv); lemma_wpre_next(g, ks, ks, n3); }
        nw = n3 + 1;
    }
@before 6
    proof { na = ks.len() as int; lemma_fpre0(g, ft, ks); assert(ks.take(na) =~= ks); lemma_wl(g); lemma_base_len(g, hi, vocab@, ks); }
@loop 6
    invariant_except_break
        nf == __i6,
    invariant
        __s6@ == ft, 0 <= nf <= ft.len(), __i6 <= ft.len(), 0 <= na <= ks.len(), wpre(g, ks.take(na), nw),
        base(g, hi, vocab@, ks), seen_is(seen@, ks), small(size as int, ks), fpre(g, ft, ks, na, nf),
        nw < g.wl().len() ==> na == ks.len(), 0 <= nw <= g.wl().len(), nw < g.wl().len() ==> 256 + na >= size,
    ensures nf < ft.len() ==> 256 + ks.len() >= size,
@body_start 6
    let ghost n6 = __v6 as int; let ghost k = token@; let ghost sv = seen@; let ghost vv = vocab@;
    proof {
        lemma_base_len(g, hi, vocab@, ks); lemma_known(g, ft, n6); lemma_fit(g, k); lemma_adds_wants(g, k);
        if blen(k) > 1 { lemma_seen(sv, ks, k); if nw == g.wl().len() && g.wants(k) { lemma_wants_in(g, ks, k, na); } }
    }
@body_end 6
    proof {
        if !sv.contains(sb(k)) && blen(k) > 1 {
            assert(nw == g.wl().len());
            lemma_push(g, hi, vv, ks, sv, vocab@.last(), k); assert(vv.push(vocab@.last()) =~= vocab@);
            lemma_fpre_next(g, ft, ks, ks.push(k), na, n6); assert(ks.push(k).take(na) =~= ks.take(na)); ks = ks.push(k);
        } else { assert(seen@ =~= sv); lemma_fpre_next(g, ft, ks, ks, na, n6); }
        nf = n6 + 1;
    }
@before_sort 2
    proof {
        v0 = vocab@;
        lemma_picked(g, size as int, ks, na, nw, ft, nf, hi, v0); lemma_all_wt(g, hi, v0, ks); lemma_fcmp_total();
        assert forall|i: int| 0 <= i < v0.len() implies !is_nan((#[trigger] v0[i]).score) by { lemma_pos_num(v0, i); }
    }
@sort 2
    -> (o: Ordering) requires !is_nan(__p0.score), !is_nan(__p1.score) ensures o == fcmp(__p1.score, __p0.score)
@after_sort 2
    proof { v1 = vocab@; lemma_perm_num(v0, v1); assert(falling(v1)); }
@before 7
    let ghost v2 = vocab@;
    proof { lemma_sorted(g, size as int, hi, v0, ks, na, nw, v1, v2); }
@loop 7
    invariant vocab@ == v2,
@fn logprobs
@opt fassign
@contract
    ensures same_tokens(old(pieces)@, final(pieces)@), forall|w: Seq<int>| #[trigger] weighs(old(pieces)@, w) ==> normed(final(pieces)@, w), all_pos(old(pieces)@) && falling(old(pieces)@) ==> falling(final(pieces)@),
@start
    hide(weighs); hide(normed); hide(all_pos); hide(falling);
    let ghost v0 = pieces@; let ghost mut z: f64 = 0.0f64;
@before 1
    proof { z = __c1; assert(v0.take(0) =~= Seq::empty()); }
@loop 1
    invariant pieces@ == v0, __i1 <= v0.len(), __c1 == fsum(z, v0.take(__i1 as int)),
@body_end 1
    proof { assert(v0.take(__i1 as int).drop_last() =~= v0.take(__v1 as int)); }
@after 1
    proof { assert(v0.take(v0.len() as int) =~= v0); }
@loop 2
    invariant __i2 <= v0.len(), logged(v0, pieces@, logsum, __i2 as int), logsum == fln(fsum(z, v0)),
@after 2
    proof { lemma_logged(z, v0, pieces@); }
