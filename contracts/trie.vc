@module trie src/trie.rs
@subst fnv::FnvBuildHasher => ()
@subst Iterator<Item = u8> => ByteSource
@struct Node
@struct Trie
@struct TrieIterator
@spec
use crate::shim::*;
broadcast use crate::shim::group_vx;

/// The data stored under key k below node n.
pub open spec fn look<D>(n: Node<D>, k: Seq<u8>) -> Option<D> decreases k.len() {
    if k.len() == 0 { n.data } else if n.children@.contains_key(k[0] as int) { look(n.children@[k[0] as int], k.drop_first()) } else { None }
}
pub open spec fn empty_node<D>(n: Node<D>) -> bool { n.data is None && n.children@ == Map::<int, Node<D>>::empty() }
/// n1 is n0 with key k bound to d and every other key unchanged
pub open spec fn bound<D>(n0: Node<D>, n1: Node<D>, k: Seq<u8>, d: D) -> bool {
    forall|q: Seq<u8>| #[trigger] look(n1, q) == if q == k { Some(d) } else { look(n0, q) }
}
pub proof fn lemma_empty<D>(n: Node<D>, k: Seq<u8>) requires empty_node(n) ensures look(n, k) is None decreases k.len() { }
pub proof fn lemma_last<D>(n0: Node<D>, n1: Node<D>, d: D)
    requires n1.data == Some(d), n1.children == n0.children,
    ensures bound(n0, n1, Seq::<u8>::empty(), d)
{
    assert forall|q: Seq<u8>| #[trigger] look(n1, q) == if q == Seq::<u8>::empty() { Some(d) } else { look(n0, q) } by {
        if q.len() == 0 { assert(q =~= Seq::<u8>::empty()); } else { assert(q != Seq::<u8>::empty()); }
    }
}
pub proof fn lemma_step<D>(n0: Node<D>, n1: Node<D>, c0: Node<D>, c1: Node<D>, k: Seq<u8>, d: D)
    requires k.len() > 0,
        n1.data == n0.data, n1.children@ == n0.children@.insert(k[0] as int, c1),
        n0.children@.contains_key(k[0] as int) ==> c0 == n0.children@[k[0] as int],
        !n0.children@.contains_key(k[0] as int) ==> empty_node(c0),
    ensures bound(c0, c1, k.drop_first(), d) ==> bound(n0, n1, k, d)
{
    if bound(c0, c1, k.drop_first(), d) {
        assert forall|q: Seq<u8>| #[trigger] look(n1, q) == if q == k { Some(d) } else { look(n0, q) } by {
            if q.len() > 0 && q[0] == k[0] {
                let t = q.drop_first();
                assert(look(n1, q) == look(c1, t));
                if !n0.children@.contains_key(k[0] as int) { lemma_empty(c0, t); }
                if t == k.drop_first() { assert(q =~= seq![q[0]] + t); assert(k =~= seq![k[0]] + k.drop_first()); assert(q == k); }
                if q == k { assert(t == k.drop_first()); }
            }
        }
    }
}

/// What a search over the bytes `s` below node `n` yields, in order: (length, data) for every
/// stored key that is a non-empty prefix of `s`; `d` bytes were consumed before.
pub open spec fn hits<D>(n: Node<D>, s: Seq<u8>, d: nat) -> Seq<(nat, D)> decreases s.len() {
    if s.len() == 0 || !n.children@.contains_key(s[0] as int) { Seq::empty() } else {
        let c = n.children@[s[0] as int];
        let rest = hits(c, s.drop_first(), d + 1);
        match c.data { Some(x) => seq![(d + 1, x)] + rest, None => rest }
    }
}
/// the first element of hits() from a child that holds data
pub open spec fn here<D>(n: Node<D>, d: nat) -> Seq<(nat, D)> {
    match n.data { Some(x) => seq![(d, x)], None => Seq::empty() }
}
pub proof fn lemma_hits_unfold<D>(n: Node<D>, s: Seq<u8>, d: nat)
    ensures
        s.len() > 0 && n.children@.contains_key(s[0] as int) ==> hits(n, s, d) == here(n.children@[s[0] as int], d + 1) + hits(n.children@[s[0] as int], s.drop_first(), d + 1),
        !(s.len() > 0 && n.children@.contains_key(s[0] as int)) ==> hits(n, s, d).len() == 0,
{
    if s.len() > 0 && n.children@.contains_key(s[0] as int) {
        let c = n.children@[s[0] as int];
        let r = hits(c, s.drop_first(), d + 1);
        assert(hits(n, s, d) =~= here(c, d + 1) + r);
    }
}
pub proof fn lemma_look_take<D>(n: Node<D>, s: Seq<u8>, k: int)
    requires 0 < k <= s.len(),
    ensures
        n.children@.contains_key(s[0] as int) ==> look(n, s.take(k)) == look(n.children@[s[0] as int], s.drop_first().take(k - 1)),
        !n.children@.contains_key(s[0] as int) ==> look(n, s.take(k)) is None,
        n.children@.contains_key(s[0] as int) && k == 1 ==> look(n, s.take(k)) == n.children@[s[0] as int].data,
{
    assert(s.take(k)[0] == s[0]);
    assert(s.take(k).drop_first() =~= s.drop_first().take(k - 1));
}
/// every hit is a stored prefix
pub proof fn lemma_hits_sound<D>(n: Node<D>, s: Seq<u8>, d: nat, j: int)
    requires 0 <= j < hits(n, s, d).len(),
    ensures d < hits(n, s, d)[j].0 <= d + s.len(), look(n, s.take(hits(n, s, d)[j].0 - d)) == Some(hits(n, s, d)[j].1),
    decreases s.len()
{
    lemma_hits_unfold(n, s, d);
    let c = n.children@[s[0] as int];
    let hd = here(c, d + 1);
    if j < hd.len() {
        lemma_look_take(n, s, 1);
    } else {
        lemma_hits_sound(c, s.drop_first(), d + 1, j - hd.len());
        lemma_look_take(n, s, hits(n, s, d)[j].0 - d);
    }
}
/// every stored prefix is a hit
pub proof fn lemma_hits_complete<D>(n: Node<D>, s: Seq<u8>, d: nat, k: int) -> (j: int)
    requires 0 < k <= s.len(), look(n, s.take(k)) is Some,
    ensures 0 <= j < hits(n, s, d).len(), hits(n, s, d)[j].0 == d + k,
    decreases s.len()
{
    lemma_hits_unfold(n, s, d);
    lemma_look_take(n, s, k);
    let c = n.children@[s[0] as int];
    let hd = here(c, d + 1);
    if k == 1 { assert(hd[0].0 == d + 1); 0 } else {
        let j = lemma_hits_complete(c, s.drop_first(), d + 1, k - 1);
        j + hd.len()
    }
}
/// shortest first
pub proof fn lemma_hits_sorted<D>(n: Node<D>, s: Seq<u8>, d: nat, i: int, j: int)
    requires 0 <= i < j < hits(n, s, d).len(),
    ensures hits(n, s, d)[i].0 < hits(n, s, d)[j].0,
    decreases s.len()
{
    lemma_hits_unfold(n, s, d);
    let c = n.children@[s[0] as int];
    let hd = here(c, d + 1);
    let r = hits(c, s.drop_first(), d + 1);
    assert(hits(n, s, d)[j] == r[j - hd.len()]);
    if i < hd.len() {
        lemma_hits_sound(c, s.drop_first(), d + 1, j - hd.len());
    } else {
        lemma_hits_sorted(c, s.drop_first(), d + 1, i - hd.len(), j - hd.len());
    }
}
/// C05: hits() is exactly the stored prefixes, shortest first
pub proof fn lemma_hits<D>(n: Node<D>, s: Seq<u8>, d: nat)
    ensures
        forall|j: int| 0 <= j < hits(n, s, d).len() ==> d < (#[trigger] hits(n, s, d)[j]).0 <= d + s.len()
            && look(n, s.take(hits(n, s, d)[j].0 - d)) == Some(hits(n, s, d)[j].1),
        forall|k: int| 0 < k <= s.len() && (#[trigger] look(n, s.take(k))) is Some
            ==> exists|j: int| 0 <= j < hits(n, s, d).len() && (#[trigger] hits(n, s, d)[j]).0 == d + k,
        forall|i: int, j: int| 0 <= i < j < hits(n, s, d).len() ==> (#[trigger] hits(n, s, d)[i]).0 < (#[trigger] hits(n, s, d)[j]).0,
{
    let h = hits(n, s, d);
    assert forall|j: int| 0 <= j < h.len() implies d < (#[trigger] h[j]).0 <= d + s.len() && look(n, s.take(h[j].0 - d)) == Some(h[j].1) by { lemma_hits_sound(n, s, d, j); }
    assert forall|k: int| 0 < k <= s.len() && (#[trigger] look(n, s.take(k))) is Some implies exists|j: int| 0 <= j < h.len() && (#[trigger] h[j]).0 == d + k by {
        let j = lemma_hits_complete(n, s, d, k);
        assert(h[j].0 == d + k);
    }
    assert forall|i: int, j: int| 0 <= i < j < h.len() implies (#[trigger] h[i]).0 < (#[trigger] h[j]).0 by { lemma_hits_sorted(n, s, d, i, j); }
}

/// the data of hits()
pub open spec fn vals<D>(n: Node<D>, s: Seq<u8>) -> Seq<D> decreases s.len() {
    if s.len() == 0 || !n.children@.contains_key(s[0] as int) { Seq::empty() } else {
        let c = n.children@[s[0] as int];
        let rest = vals(c, s.drop_first());
        match c.data { Some(x) => seq![x] + rest, None => rest }
    }
}
pub proof fn lemma_vals<D>(n: Node<D>, s: Seq<u8>, d: nat)
    ensures vals(n, s).len() == hits(n, s, d).len(),
        forall|j: int| 0 <= j < hits(n, s, d).len() ==> #[trigger] vals(n, s)[j] == hits(n, s, d)[j].1,
        vals(n, s).len() <= s.len(),
    decreases s.len()
{
    if s.len() > 0 && n.children@.contains_key(s[0] as int) {
        lemma_vals(n.children@[s[0] as int], s.drop_first(), d + 1);
    }
}
impl<'a, 'b, Data, T: ByteSource> TrieIterator<'a, 'b, Data, T> {
    /// what remains to be yielded
    pub open spec fn vals(&self) -> Seq<Data> { vals(*self.node, self.iterator.rem()) }
    pub open spec fn vx_left(&self) -> nat { self.vals().len() }
    pub fn vx_into_iter(self) -> (r: Self) ensures r == self { self }
}

@fn Node@Default::default
@contract
    ensures empty_node(r)

@fn Trie@Default::default
@contract
    ensures empty_node(r.root), forall|k: Seq<u8>| (#[trigger] look(r.root, k)) is None
@start
    proof { assert forall|n: Node<Data>, k: Seq<u8>| #[trigger] empty_node(n) implies (#[trigger] look(n, k)) is None by { lemma_empty(n, k); } }

@fn Trie::push
@contract
    ensures bound(old(self).root, final(self).root, element@, data)
@after_let node
    let ghost rf = *final(node);
    let ghost r0 = *node;
@loop 1
    invariant
        __i1 <= element@.len(),
        bound(*node, *final(node), element@.skip(__i1 as int), data) ==> bound(r0, rf, element@, data),
@before 1
    proof { assert(element@.skip(0) =~= element@); }
@body_start 1
    let ghost n0 = *node; let ghost n1 = *final(node);
@body_end 1
    proof {
        let k = element@.skip(__i1 as int - 1);
        assert(k.drop_first() =~= element@.skip(__i1 as int));
        lemma_step(n0, n1, *node, *final(node), k, data);
    }
@after 1
    proof {
        assert(element@.skip(element@.len() as int) =~= Seq::<u8>::empty());
        assert forall|n0: Node<Data>, n1: Node<Data>| #![trigger bound(n0, n1, Seq::<u8>::empty(), data)]
            n1.data == Some(data) && n1.children == n0.children implies bound(n0, n1, Seq::<u8>::empty(), data) by { lemma_last(n0, n1, data); }
    }

@fn Trie::common_prefix_search
@contract
    ensures r.vals() == vals(self.root, iterator.rem())

@fn TrieIterator@Iterator::next
@contract
    ensures
        old(self).vals().len() == 0 ==> r is None,
        old(self).vals().len() > 0 ==> r == Some(old(self).vals()[0])
            && final(self).vals() == old(self).vals().drop_first(),
@loop 1
    invariant
        self.vals() == old(self).vals(),
    decreases self.iterator.rem().len()
