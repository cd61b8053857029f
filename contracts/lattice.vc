@module lattice src/lattice.rs
@struct Node
@struct Lattice
@struct VecPool
@spec
use crate::shim::*;
use crate::toks::TokenID;
broadcast use crate::shim::group_vx;

/// the buffers handed back are empty
impl VecPool {
    pub closed spec fn wf(&self) -> bool { forall|i: int| 0 <= i < self.pool@.len() ==> (#[trigger] self.pool@[i])@.len() == 0 }
}
/// same token at the same place
pub open spec fn same(a: Node, b: Node) -> bool { a.pos == b.pos && a.token_id == b.token_id && a.token_len == b.token_len && a.score == b.score }
pub open spec fn same_all(a: Seq<Node>, b: Seq<Node>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> same(#[trigger] a[i], b[i]) }
pub open spec fn end(n: Node) -> int { n.pos + n.token_len }
/// node 0 is the start, node 1 the end of the n bytes, the others are tokens in between
pub open spec fn nodes_ok(nodes: Seq<Node>, n: int) -> bool {
    &&& 2 <= nodes.len() <= usize::MAX && 0 <= n <= usize::MAX
    &&& nodes[0] == Node { pos: 0, token_id: (u32::MAX - 1) as u32, token_len: 0, score: 0.0f64, prev: None, backtrack_score: 0.0f64 }
    &&& same(nodes[1], Node { pos: n as usize, token_id: u32::MAX, token_len: 0, score: 0.0f64, prev: None, backtrack_score: 0.0f64 })
    &&& forall|i: int| 2 <= i < nodes.len() ==> (#[trigger] nodes[i]).token_len > 0 && end(nodes[i]) <= n
}
/// every node is indexed exactly once by where it begins ...
pub open spec fn begins(nodes: Seq<Node>, b: Seq<Vec<usize>>) -> bool {
    &&& forall|p: int, j: int| 0 <= p < b.len() && 0 <= j < b[p]@.len() ==> 1 <= #[trigger] b[p]@[j] < nodes.len() && nodes[b[p]@[j] as int].pos == p
    &&& forall|p: int, j: int, k: int| 0 <= p < b.len() && 0 <= j < k < b[p]@.len() ==> #[trigger] b[p]@[j] != #[trigger] b[p]@[k]
    &&& forall|i: usize| 1 <= i < nodes.len() ==> b[(#[trigger] nodes[i as int]).pos as int]@.contains(i)
}
/// ... and by where it ends
pub open spec fn ends(nodes: Seq<Node>, e: Seq<Vec<usize>>) -> bool {
    &&& forall|q: int, j: int| 0 <= q < e.len() && 0 <= j < e[q]@.len() ==> #[trigger] e[q]@[j] != 1 && e[q]@[j] < nodes.len() && end(nodes[e[q]@[j] as int]) == q
    &&& forall|q: int, j: int, k: int| 0 <= q < e.len() && 0 <= j < k < e[q]@.len() ==> #[trigger] e[q]@[j] != #[trigger] e[q]@[k]
    &&& forall|i: usize| i < nodes.len() && i != 1 ==> e[end(#[trigger] nodes[i as int])]@.contains(i)
}
impl<'a> Lattice<'a> {
    pub closed spec fn wf(&self) -> bool {
        let n = self.sentence@.len() as int;
        &&& self.begin_nodes@.len() == n + 1 && self.end_nodes@.len() == n + 1
        &&& self.bos_idx == 0 && self.eos_idx == 1
        &&& nodes_ok(self.nodes@, n)
        &&& begins(self.nodes@, self.begin_nodes@)
        &&& ends(self.nodes@, self.end_nodes@)
    }
    /// no tokens yet
    pub open spec fn fresh(&self) -> bool { self.nodes@.len() == 2 }
    /// where a token begins, another one (or the start) ends
    pub open spec fn connected(&self) -> bool { joined(self.nodes@, self.end_nodes@) }
}
pub proof fn lemma_wf(l: Lattice)
    requires l.wf(),
    ensures l.begin_nodes@.len() == l.sentence@.len() + 1, l.end_nodes@.len() == l.sentence@.len() + 1,
        nodes_ok(l.nodes@, l.sentence@.len() as int), begins(l.nodes@, l.begin_nodes@), ends(l.nodes@, l.end_nodes@)
{}
pub proof fn lemma_bos(l: Lattice) requires l.wf() ensures l.bos_idx == 0, l.eos_idx == 1 {}
/// one more token
pub proof fn lemma_insert(n0: Seq<Node>, b0: Seq<Vec<usize>>, e0: Seq<Vec<usize>>, n1: Seq<Node>, b1: Seq<Vec<usize>>, e1: Seq<Vec<usize>>, n: int, x: Node)
    requires nodes_ok(n0, n), begins(n0, b0), ends(n0, e0), b0.len() == n + 1, e0.len() == n + 1, n0.len() < usize::MAX,
        x.token_len > 0, end(x) <= n,
        n1 == n0.push(x), b1.len() == b0.len(), e1.len() == e0.len(),
        forall|p: int| 0 <= p < b0.len() ==> (#[trigger] b1[p])@ == if p == x.pos { b0[p]@.push(n0.len() as usize) } else { b0[p]@ },
        forall|q: int| 0 <= q < e0.len() ==> (#[trigger] e1[q])@ == if q == end(x) { e0[q]@.push(n0.len() as usize) } else { e0[q]@ },
    ensures nodes_ok(n1, n), begins(n1, b1), ends(n1, e1)
{
    let m = n0.len() as usize;
    assert forall|p: int, j: int| 0 <= p < b1.len() && 0 <= j < b1[p]@.len() implies 1 <= #[trigger] b1[p]@[j] < n1.len() && n1[b1[p]@[j] as int].pos == p by {
        if j < b0[p]@.len() { assert(b1[p]@[j] == b0[p]@[j]); }
    }
    assert forall|p: int, j: int, k: int| 0 <= p < b1.len() && 0 <= j < k < b1[p]@.len() implies #[trigger] b1[p]@[j] != #[trigger] b1[p]@[k] by {
        assert(b1[p]@[j] == b0[p]@[j]);
        if k < b0[p]@.len() { assert(b1[p]@[k] == b0[p]@[k]); }
    }
    assert forall|i: usize| 1 <= i < n1.len() implies b1[(#[trigger] n1[i as int]).pos as int]@.contains(i) by {
        if i < m {
            assert(n1[i as int] == n0[i as int]);
            let p = n0[i as int].pos as int;
            let j = choose|j: int| 0 <= j < b0[p]@.len() && b0[p]@[j] == i;
            assert(b1[p]@[j] == i);
        } else { let p = x.pos as int; assert(b1[p]@[b0[p]@.len() as int] == m); }
    }
    assert forall|q: int, j: int| 0 <= q < e1.len() && 0 <= j < e1[q]@.len() implies #[trigger] e1[q]@[j] != 1 && e1[q]@[j] < n1.len() && end(n1[e1[q]@[j] as int]) == q by {
        if j < e0[q]@.len() { assert(e1[q]@[j] == e0[q]@[j]); }
    }
    assert forall|q: int, j: int, k: int| 0 <= q < e1.len() && 0 <= j < k < e1[q]@.len() implies #[trigger] e1[q]@[j] != #[trigger] e1[q]@[k] by {
        assert(e1[q]@[j] == e0[q]@[j]);
        if k < e0[q]@.len() { assert(e1[q]@[k] == e0[q]@[k]); }
    }
    assert forall|i: usize| i < n1.len() && i != 1 implies e1[end(#[trigger] n1[i as int])]@.contains(i) by {
        if i < m {
            assert(n1[i as int] == n0[i as int]);
            let q = end(n0[i as int]);
            if i != 0 { assert(n0[i as int].token_len > 0); }
            let j = choose|j: int| 0 <= j < e0[q]@.len() && e0[q]@[j] == i;
            assert(e1[q]@[j] == i);
        } else { let q = end(x); assert(e1[q]@[e0[q]@.len() as int] == m); }
    }
    assert forall|i: int| 2 <= i < n1.len() implies (#[trigger] n1[i]).token_len > 0 && end(n1[i]) <= n by { if i < m { assert(n1[i] == n0[i]); } }
}

// ---- paths
/// ps are nodes that follow one another from the start to position q
pub open spec fn path_to(nodes: Seq<Node>, ps: Seq<int>, q: int) -> bool decreases ps.len() {
    if ps.len() == 0 { q == 0 } else {
        2 <= ps.last() < nodes.len() && end(nodes[ps.last()]) == q && path_to(nodes, ps.drop_last(), nodes[ps.last()].pos as int)
    }
}
/// score of a path, added left to right in f64
pub open spec fn score_of(nodes: Seq<Node>, ps: Seq<int>) -> f64 decreases ps.len() {
    if ps.len() == 0 { 0.0f64 } else { fadd(score_of(nodes, ps.drop_last()), nodes[ps.last()].score) }
}
pub open spec fn fin(nodes: Seq<Node>) -> bool { forall|i: int| 0 <= i < nodes.len() ==> is_fin((#[trigger] nodes[i]).score) }
pub proof fn lemma_paths_same(a: Seq<Node>, b: Seq<Node>, ps: Seq<int>, q: int)
    requires same_all(a, b), path_to(a, ps, q),
    ensures path_to(b, ps, q), score_of(a, ps) == score_of(b, ps),
    decreases ps.len()
{
    if ps.len() > 0 { assert(same(a[ps.last()], b[ps.last()])); lemma_paths_same(a, b, ps.drop_last(), a[ps.last()].pos as int); }
}
/// r has its best predecessor
pub open spec fn best(nodes: Seq<Node>, e: Seq<Vec<usize>>, r: int) -> bool {
    &&& nodes[r].prev is Some
    &&& e[nodes[r].pos as int]@.contains(nodes[r].prev->Some_0)
    &&& nodes[r].backtrack_score == fadd(nodes[nodes[r].prev->Some_0 as int].backtrack_score, nodes[r].score)
    &&& forall|j: int| 0 <= j < e[nodes[r].pos as int]@.len() ==> beats(nodes, nodes[r].backtrack_score, #[trigger] e[nodes[r].pos as int]@[j] as int, r)
}
pub open spec fn beats(nodes: Seq<Node>, x: f64, l: int, r: int) -> bool { !flt(x, fadd(nodes[l].backtrack_score, nodes[r].score)) }
pub open spec fn best_before(nodes: Seq<Node>, e: Seq<Vec<usize>>, pos: int) -> bool {
    forall|r: int| 1 <= r < nodes.len() && (#[trigger] nodes[r]).pos < pos ==> best(nodes, e, r)
}
/// the path the predecessors spell, ending with node i
pub open spec fn back(nodes: Seq<Node>, i: int) -> Seq<int> decreases nodes[i].pos {
    if i == 0 { Seq::empty() } else {
        match nodes[i].prev {
            Some(p) => if p == 0 { seq![i] } else if nodes[p as int].pos < nodes[i].pos { back(nodes, p as int).push(i) } else { seq![i] },
            None => seq![i],
        }
    }
}
pub proof fn lemma_back(nodes: Seq<Node>, e: Seq<Vec<usize>>, n: int, i: int)
    requires nodes_ok(nodes, n), ends(nodes, e), e.len() == n + 1, best_before(nodes, e, n + 1), i == 0 || 2 <= i < nodes.len(),
    ensures path_to(nodes, back(nodes, i), end(nodes[i])), score_of(nodes, back(nodes, i)) == nodes[i].backtrack_score,
    decreases nodes[i].pos
{
    if i != 0 {
        assert(nodes[i].token_len > 0);
        assert(best(nodes, e, i));
        let p = nodes[i].prev->Some_0 as int;
        lemma_prev(nodes, e, n, i);
        if p == 0 { reveal_with_fuel(path_to, 2); reveal_with_fuel(score_of, 2); assert(nodes[i].pos == 0); assert(seq![i].drop_last() =~= Seq::<int>::empty()); assert(back(nodes, i) == seq![i]); } else {
            lemma_back(nodes, e, n, p);
            assert(back(nodes, i) == back(nodes, p).push(i));
            assert(back(nodes, p).push(i).drop_last() =~= back(nodes, p));
        }
    }
}
/// the predecessor ends where the node begins
pub proof fn lemma_prev(nodes: Seq<Node>, e: Seq<Vec<usize>>, n: int, i: int)
    requires nodes_ok(nodes, n), ends(nodes, e), e.len() == n + 1, 1 <= i < nodes.len(), best(nodes, e, i), i > 1 || nodes[i].pos == n
    ensures ({ let p = nodes[i].prev->Some_0 as int; p < nodes.len() && p != 1 && end(nodes[p]) == nodes[i].pos && (p == 0 || (p >= 2 && nodes[p].pos < nodes[i].pos)) })
{
    let p = nodes[i].prev->Some_0;
    if i > 1 { assert(nodes[i].token_len > 0); }
    let q = nodes[i].pos as int;
    let j = choose|j: int| 0 <= j < e[q]@.len() && e[q]@[j] == p;
    assert(e[q]@[j] == p);
    if p >= 2 { assert(nodes[p as int].token_len > 0); }
}
pub open spec fn tip(ps: Seq<int>) -> int { if ps.len() == 0 { 0 } else { ps.last() } }
/// no path to a node scores better than what the node records
pub proof fn lemma_best(nodes: Seq<Node>, e: Seq<Vec<usize>>, n: int, ps: Seq<int>, q: int)
    requires nodes_ok(nodes, n), ends(nodes, e), e.len() == n + 1, best_before(nodes, e, n + 1), fin(nodes), path_to(nodes, ps, q), 0 <= q <= n,
    ensures fle(score_of(nodes, ps), nodes[tip(ps)].backtrack_score),
    decreases ps.len()
{
    if ps.len() > 0 {
        let i = ps.last();
        let t = ps.drop_last();
        let l = tip(t);
        assert(nodes[i].token_len > 0);
        lemma_best(nodes, e, n, t, nodes[i].pos as int);
        assert(best(nodes, e, i));
        reveal_with_fuel(path_to, 2);
        assert(end(nodes[l]) == nodes[i].pos);
        assert(0 <= l < nodes.len());
        let lu = l as usize;
        assert(nodes[lu as int] == nodes[l]);
        assert(e[nodes[i].pos as int]@.contains(lu));
        let j = choose|j: int| 0 <= j < e[nodes[i].pos as int]@.len() && e[nodes[i].pos as int]@[j] == lu;
        assert(beats(nodes, nodes[i].backtrack_score, e[nodes[i].pos as int]@[j] as int, i));
        let c = nodes[i].score;
        ax_add_num(score_of(nodes, t), c);
        ax_add_num(nodes[l].backtrack_score, c);
        ax_add_mono(score_of(nodes, t), nodes[l].backtrack_score, c);
        lemma_back_num(nodes, e, n, i);
        ax_le_trans(score_of(nodes, ps), fadd(nodes[l].backtrack_score, c), nodes[i].backtrack_score);
    }
}
pub proof fn lemma_back_num(nodes: Seq<Node>, e: Seq<Vec<usize>>, n: int, i: int)
    requires nodes_ok(nodes, n), ends(nodes, e), e.len() == n + 1, best_before(nodes, e, n + 1), fin(nodes), i == 0 || 2 <= i < nodes.len(),
    ensures !is_nan(nodes[i].backtrack_score),
    decreases nodes[i].pos
{
    if i != 0 {
        assert(nodes[i].token_len > 0);
        assert(best(nodes, e, i));
        lemma_prev(nodes, e, n, i);
        let p = nodes[i].prev->Some_0 as int;
        if p != 0 { lemma_back_num(nodes, e, n, p); }
        ax_add_num(nodes[p].backtrack_score, nodes[i].score);
    }
}
/// the best path to the end
pub proof fn lemma_viterbi(nodes: Seq<Node>, e: Seq<Vec<usize>>, n: int)
    requires nodes_ok(nodes, n), ends(nodes, e), e.len() == n + 1, best_before(nodes, e, n + 1),
    ensures ({ let l = nodes[1].prev->Some_0 as int; l < nodes.len() && l != 1 && path_to(nodes, back(nodes, l), n)
        && (fin(nodes) ==> forall|ps: Seq<int>| #[trigger] path_to(nodes, ps, n) ==> fle(score_of(nodes, ps), score_of(nodes, back(nodes, l)))) }),
{
    let l = nodes[1].prev->Some_0 as int;
    assert(best(nodes, e, 1));
    lemma_prev(nodes, e, n, 1);
    lemma_back(nodes, e, n, l);
    if fin(nodes) {
        lemma_back_num(nodes, e, n, l);
        assert forall|ps: Seq<int>| #[trigger] path_to(nodes, ps, n) implies fle(score_of(nodes, ps), score_of(nodes, back(nodes, l))) by {
            lemma_best(nodes, e, n, ps, n);
            let t = tip(ps);
            lemma_back_num(nodes, e, n, t);
            let tu = t as usize;
            assert(nodes[tu as int] == nodes[t]);
            assert(e[n]@.contains(tu));
            let j = choose|j: int| 0 <= j < e[n]@.len() && e[n]@[j] == tu;
            assert(beats(nodes, nodes[1].backtrack_score, e[n]@[j] as int, 1));
            let x = nodes[l].backtrack_score;
            let y = nodes[t].backtrack_score;
            ax_add_zero(x); ax_add_zero(y);
            ax_le_trans(y, fadd(y, 0.0f64), fadd(x, 0.0f64));
            ax_le_trans(y, fadd(x, 0.0f64), x);
            ax_le_trans(score_of(nodes, ps), y, x);
        }
    }
}
/// writing a node at position pos leaves what was found before it
pub proof fn lemma_keep(n0: Seq<Node>, n1: Seq<Node>, e: Seq<Vec<usize>>, n: int, r: int, c: int)
    requires nodes_ok(n0, n), ends(n0, e), e.len() == n + 1, 1 <= r < n0.len(), 1 <= c < n0.len(), c != r, same_all(n0, n1), n0[c].pos <= n0[r].pos,
        forall|i: int| 0 <= i < n0.len() && i != r ==> #[trigger] n1[i] == n0[i],
        best(n0, e, c), r == 1 ==> n0[r].pos == n,
    ensures best(n1, e, c)
{
    let pos = n0[c].pos as int;
    let p = n0[c].prev->Some_0;
    assert(n1[c] == n0[c]);
    assert(0 <= pos <= n) by { if c >= 2 { assert(n0[c].token_len > 0); } }
    assert forall|j: int| 0 <= j < e[pos]@.len() implies #[trigger] e[pos]@[j] != r by {
        if e[pos]@[j] == r { assert(end(n0[r as int]) == pos); if r >= 2 { assert(n0[r].token_len > 0); } }
    }
    let j = choose|j: int| 0 <= j < e[pos]@.len() && e[pos]@[j] == p;
    assert(e[pos]@[j] != r);
    assert(n1[p as int] == n0[p as int]);
    assert forall|j: int| 0 <= j < e[pos]@.len() implies beats(n1, n1[c].backtrack_score, #[trigger] e[pos]@[j] as int, c) by {
        assert(beats(n0, n0[c].backtrack_score, e[pos]@[j] as int, c));
        assert(n1[e[pos]@[j] as int] == n0[e[pos]@[j] as int]);
    }
}
/// the indexes only look at what a search leaves alone
pub proof fn lemma_wf_same(n0: Seq<Node>, n1: Seq<Node>, b: Seq<Vec<usize>>, e: Seq<Vec<usize>>, n: int)
    requires nodes_ok(n0, n), begins(n0, b), ends(n0, e), same_all(n0, n1), n1[0] == n0[0],
    ensures nodes_ok(n1, n), begins(n1, b), ends(n1, e)
{
    assert forall|i: int| 2 <= i < n1.len() implies (#[trigger] n1[i]).token_len > 0 && end(n1[i]) <= n by { assert(same(n0[i], n1[i])); }
    assert(same(n0[1], n1[1]));
    assert forall|i: usize| 1 <= i < n1.len() implies b[(#[trigger] n1[i as int]).pos as int]@.contains(i) by { assert(same(n0[i as int], n1[i as int])); }
    assert forall|i: usize| i < n1.len() && i != 1 implies e[end(#[trigger] n1[i as int])]@.contains(i) by { assert(same(n0[i as int], n1[i as int])); }
}
/// the k-th node that begins at pos gets its best predecessor l
pub proof fn lemma_write(n0: Seq<Node>, n1: Seq<Node>, b: Seq<Vec<usize>>, e: Seq<Vec<usize>>, n: int, r: int, pos: int, k: int, l: usize)
    requires nodes_ok(n0, n), begins(n0, b), ends(n0, e), e.len() == n + 1, b.len() == n + 1, 0 <= pos <= n, 0 <= k < b[pos]@.len(), r == b[pos]@[k],
        1 <= r < n0.len(), n1 == n0.update(r, n1[r]), same(n0[r], n1[r]),
        best_before(n0, e, pos), forall|j: int| 0 <= j < k ==> best(n0, e, #[trigger] b[pos]@[j] as int),
        e[pos]@.contains(l), n1[r].prev == Some(l), n1[r].backtrack_score == fadd(n0[l as int].backtrack_score, n0[r].score),
        forall|j: int| 0 <= j < e[pos]@.len() ==> beats(n0, n1[r].backtrack_score, #[trigger] e[pos]@[j] as int, r),
    ensures best_before(n1, e, pos), forall|j: int| 0 <= j <= k ==> best(n1, e, #[trigger] b[pos]@[j] as int),
        same_all(n0, n1), nodes_ok(n1, n), begins(n1, b), ends(n1, e),
{
    assert(n0[r].pos == pos);
    assert(same_all(n0, n1));
    assert forall|j: int| 0 <= j < e[pos]@.len() implies #[trigger] e[pos]@[j] != r by {
        if e[pos]@[j] == r { assert(end(n0[r]) == pos); if r >= 2 { assert(n0[r].token_len > 0); } }
    }
    assert(n1[l as int] == n0[l as int]) by { let j = choose|j: int| 0 <= j < e[pos]@.len() && e[pos]@[j] == l; assert(e[pos]@[j] != r); }
    assert forall|j: int| 0 <= j < e[pos]@.len() implies beats(n1, n1[r].backtrack_score, #[trigger] e[pos]@[j] as int, r) by {
        assert(beats(n0, n1[r].backtrack_score, e[pos]@[j] as int, r));
        assert(n1[e[pos]@[j] as int] == n0[e[pos]@[j] as int]);
    }
    assert(best(n1, e, r));
    assert forall|c: int| 1 <= c < n1.len() && (#[trigger] n1[c]).pos < pos implies best(n1, e, c) by {
        assert(same(n0[c], n1[c]));
        lemma_keep(n0, n1, e, n, r, c);
    }
    assert forall|j: int| 0 <= j <= k implies best(n1, e, #[trigger] b[pos]@[j] as int) by {
        if j < k { assert(b[pos]@[j] != b[pos]@[k]); lemma_keep(n0, n1, e, n, r, b[pos]@[j] as int); }
    }
    lemma_wf_same(n0, n1, b, e, n);
}
pub proof fn lemma_column(nodes: Seq<Node>, b: Seq<Vec<usize>>, e: Seq<Vec<usize>>, n: int, pos: int)
    requires nodes_ok(nodes, n), begins(nodes, b), best_before(nodes, e, pos), forall|j: int| 0 <= j < b[pos]@.len() ==> best(nodes, e, #[trigger] b[pos]@[j] as int),
    ensures best_before(nodes, e, pos + 1)
{
    assert forall|c: int| 1 <= c < nodes.len() && (#[trigger] nodes[c]).pos < pos + 1 implies best(nodes, e, c) by {
        if nodes[c].pos == pos {
            let cu = c as usize;
            assert(nodes[cu as int] == nodes[c]);
            assert(b[pos]@.contains(cu));
            let j = choose|j: int| 0 <= j < b[pos]@.len() && b[pos]@[j] == cu;
            assert(best(nodes, e, b[pos]@[j] as int));
        }
    }
}
pub open spec fn joined(nodes: Seq<Node>, e: Seq<Vec<usize>>) -> bool { forall|i: int| 1 <= i < nodes.len() ==> e[(#[trigger] nodes[i]).pos as int]@.len() > 0 }
/// when every node has its best predecessor
pub proof fn lemma_found(o: Seq<Node>, nn: Seq<Node>, b: Seq<Vec<usize>>, e: Seq<Vec<usize>>, n: int)
    requires nodes_ok(nn, n), begins(nn, b), ends(nn, e), e.len() == n + 1, b.len() == n + 1, best_before(nn, e, n + 1), same_all(o, nn),
    ensures joined(o, e), b[n]@.len() > 0, b[n]@[0] == 1, nn[1].prev is Some, nn[1].prev->Some_0 < nn.len(), nn[1].prev->Some_0 != 1,
{
    assert(best(nn, e, 1));
    lemma_viterbi(nn, e, n);
    assert(b[nn[1usize as int].pos as int]@.contains(1usize));
    assert(b[n]@[0] == 1) by {
        let i = b[n]@[0] as int;
        assert(nn[i].pos == n);
        if i >= 2 { assert(nn[i].token_len > 0); }
    }
    assert forall|i: int| 1 <= i < o.len() implies e[(#[trigger] o[i]).pos as int]@.len() > 0 by {
        assert(same(o[i], nn[i]));
        if i >= 2 { assert(nn[i].token_len > 0); }
        assert(best(nn, e, i));
    }
}
/// r holds the nodes of acc, last first
pub open spec fn reversed(nodes: Seq<Node>, acc: Seq<int>, r: Seq<Node>) -> bool {
    r.len() == acc.len() && forall|j: int| 0 <= j < acc.len() ==> 0 <= (#[trigger] acc[j]) < nodes.len() && r[acc.len() - 1 - j] == nodes[acc[j]]
}
pub proof fn lemma_walk(nn: Seq<Node>, acc: Seq<int>, i0: int, p: int, l0: int, r0: Seq<Node>, r1: Seq<Node>)
    requires 0 <= i0 < nn.len(), i0 != 0, nn[i0].prev == Some(p as usize), 0 <= p <= usize::MAX, p == 0 || nn[p].pos < nn[i0].pos,
        back(nn, l0) == back(nn, i0) + acc, reversed(nn, acc, r0), r1 == r0.push(nn[i0]),
    ensures back(nn, l0) == back(nn, p) + (seq![i0] + acc), reversed(nn, seq![i0] + acc, r1)
{
    let a1 = seq![i0] + acc;
    assert(back(nn, i0) =~= back(nn, p).push(i0));
    assert(back(nn, p) + a1 =~= back(nn, i0) + acc);
    assert forall|j: int| 0 <= j < a1.len() implies 0 <= (#[trigger] a1[j]) < nn.len() && r1[a1.len() - 1 - j] == nn[a1[j]] by {
        if j > 0 { assert(a1[j] == acc[j - 1]); assert(r1[a1.len() - 1 - j] == r0[a1.len() - 1 - j]); }
    }
}
/// rs are nodes of a best path through the n bytes
pub open spec fn best_path(nodes: Seq<Node>, rs: Seq<Node>, n: int) -> bool {
    exists|ps: Seq<int>| #[trigger] path_to(nodes, ps, n) && rs.len() == ps.len() && (forall|j: int| 0 <= j < ps.len() ==> same(#[trigger] rs[j], nodes[ps[j]]))
        && (fin(nodes) ==> forall|qs: Seq<int>| #[trigger] path_to(nodes, qs, n) ==> fle(score_of(nodes, qs), score_of(nodes, ps)))
}
pub proof fn lemma_done(o: Seq<Node>, nn: Seq<Node>, e: Seq<Vec<usize>>, n: int, acc: Seq<int>, rs: Seq<Node>)
    requires nodes_ok(nn, n), ends(nn, e), e.len() == n + 1, best_before(nn, e, n + 1), same_all(o, nn),
        acc == back(nn, nn[1].prev->Some_0 as int), reversed(nn, acc, rs.reverse()),
    ensures best_path(o, rs, n)
{
    lemma_viterbi(nn, e, n);
    assert forall|j: int| 0 <= j < acc.len() implies same(#[trigger] rs[j], o[acc[j]]) by {
        assert(rs.reverse()[acc.len() - 1 - j] == rs[j]);
        assert(same(o[acc[j]], nn[acc[j]]));
    }
    assert forall|i: int| 0 <= i < o.len() implies same(#[trigger] nn[i], o[i]) by { assert(same(o[i], nn[i])); }
    lemma_paths_same(nn, o, acc, n);
    if fin(o) {
        assert(fin(nn)) by { assert forall|i: int| 0 <= i < nn.len() implies is_fin((#[trigger] nn[i]).score) by { assert(same(o[i], nn[i])); } }
        assert forall|qs: Seq<int>| #[trigger] path_to(o, qs, n) implies fle(score_of(o, qs), score_of(o, acc)) by { lemma_paths_same(o, nn, qs, n); }
    }
}

pub proof fn lemma_wf_of(l0: Lattice, l1: Lattice)
    requires l0.wf(), l1.sentence == l0.sentence, l1.begin_nodes == l0.begin_nodes, l1.end_nodes == l0.end_nodes, l1.bos_idx == l0.bos_idx, l1.eos_idx == l0.eos_idx,
        same_all(l0.nodes@, l1.nodes@), l1.nodes@[0] == l0.nodes@[0],
    ensures l1.wf()
{ lemma_wf_same(l0.nodes@, l1.nodes@, l0.begin_nodes@, l0.end_nodes@, l0.sentence@.len() as int); }
pub proof fn lemma_gap(o: Seq<Node>, nn: Seq<Node>, e: Seq<Vec<usize>>, r: int)
    requires same_all(o, nn), 1 <= r < nn.len(), e[nn[r].pos as int]@.len() == 0
    ensures !joined(o, e)
{ assert(same(o[r], nn[r])); }
pub proof fn lemma_same_refl(a: Seq<Node>) ensures same_all(a, a) {}
/// what the search reads of the indexes
pub proof fn lemma_at(nodes: Seq<Node>, b: Seq<Vec<usize>>, e: Seq<Vec<usize>>, n: int, pos: int, j: int)
    requires nodes_ok(nodes, n), begins(nodes, b), b.len() == n + 1, 0 <= pos <= n, 0 <= j < b[pos]@.len()
    ensures 1 <= b[pos]@[j] < nodes.len(), nodes[b[pos]@[j] as int].pos == pos
{}
pub proof fn lemma_left(nodes: Seq<Node>, e: Seq<Vec<usize>>, n: int, pos: int, j: int, r: int)
    requires nodes_ok(nodes, n), ends(nodes, e), e.len() == n + 1, 0 <= pos <= n, 0 <= j < e[pos]@.len(), 1 <= r < nodes.len(), nodes[r].pos == pos,
    ensures e[pos]@[j] < nodes.len(), e[pos]@[j] != r, e[pos]@.contains(e[pos]@[j])
{
    if e[pos]@[j] == r { assert(end(nodes[r]) == pos); if r >= 2 { assert(nodes[r].token_len > 0); } }
}
pub proof fn lemma_step_back(nodes: Seq<Node>, e: Seq<Vec<usize>>, n: int, i: int)
    requires nodes_ok(nodes, n), ends(nodes, e), e.len() == n + 1, best_before(nodes, e, n + 1), 2 <= i < nodes.len(),
    ensures nodes[i].prev is Some, ({ let p = nodes[i].prev->Some_0 as int; p < nodes.len() && p != 1 && (p == 0 || nodes[p].pos < nodes[i].pos) })
{
    assert(nodes[i].token_len > 0);
    assert(best(nodes, e, i));
    lemma_prev(nodes, e, n, i);
}
pub proof fn lemma_zero(nodes: Seq<Node>, n: int) requires nodes_ok(nodes, n) ensures nodes[0].prev is None, nodes.len() >= 2 {}
pub proof fn lemma_none(o: Seq<Node>, b: Seq<Vec<usize>>, e: Seq<Vec<usize>>, n: int)
    ensures same_all(o, o), best_before(o, e, 0), forall|r: int| 1 <= r < o.len() && e[(#[trigger] o[r]).pos as int]@.len() == 0 ==> !joined(o, e)
{}
pub proof fn lemma_same_trans(o: Seq<Node>, a: Seq<Node>, c: Seq<Node>, r: int)
    requires same_all(o, a), c.len() == a.len(), 0 <= r < a.len(), same(a[r], c[r]), forall|i: int| 0 <= i < a.len() && i != r ==> c[i] == a[i],
    ensures same_all(o, c)
{
    assert forall|i: int| 0 <= i < c.len() implies same(#[trigger] o[i], c[i]) by { assert(same(o[i], a[i])); if i == r { } else { assert(c[i] == a[i]); } }
}

@fn VecPool::with_capacity
@contract
    ensures r.wf()
@fn VecPool::get
@contract
    requires old(self).wf()
    ensures final(self).wf(), r@.len() == 0
@fn VecPool::put
@contract
    requires old(self).wf()
    ensures final(self).wf()
@fn Node::new
@contract
    ensures r == (Node { pos, token_id, token_len, score, prev: None, backtrack_score: 0.0f64 })
@fn Lattice::new
@fn Lattice@Default::default
@opt inherent
@contract
@fn Lattice::from
@contract
    requires old(vec_pool).wf()
    ensures final(vec_pool).wf(), final(self).wf(), final(self).fresh(), final(self).sentence == sentence
@loop 1
    invariant vec_pool.wf(), self.end_nodes@ == old(self).end_nodes@, self.nodes@.len() == 0, self.sentence == sentence, self.begin_nodes@.len() == 0
@loop 2
    invariant vec_pool.wf(), self.nodes@.len() == 0, self.sentence == sentence, self.begin_nodes@.len() == 0, self.end_nodes@.len() == 0
@loop 3
    invariant vec_pool.wf(), self.nodes@.len() == 0, self.sentence == sentence, self.end_nodes@.len() == 0,
        __n3 == sentence@.len() + 1, self.begin_nodes@.len() <= __n3, forall|i: int| 0 <= i < self.begin_nodes@.len() ==> (#[trigger] self.begin_nodes@[i])@.len() == 0,
@loop 4
    invariant vec_pool.wf(), self.nodes@.len() == 0, self.sentence == sentence, self.begin_nodes@.len() == sentence@.len() + 1,
        forall|i: int| 0 <= i < self.begin_nodes@.len() ==> (#[trigger] self.begin_nodes@[i])@.len() == 0,
        __n4 == sentence@.len() + 1, self.end_nodes@.len() <= __n4, forall|i: int| 0 <= i < self.end_nodes@.len() ==> (#[trigger] self.end_nodes@[i])@.len() == 0,
@end
    proof {
        assert(self.begin_nodes@[sentence@.len() as int]@[0] == 1);
        assert(self.end_nodes@[0]@[0] == 0);
    }
@fn Lattice::insert
@contract
    requires old(self).wf(), token_len > 0, pos + token_len <= old(self).sentence@.len(), old(self).nodes@.len() < usize::MAX
    ensures final(self).wf(), final(self).sentence == old(self).sentence,
        final(self).nodes@ == old(self).nodes@.push(Node { pos, token_id, token_len, score, prev: None, backtrack_score: 0.0f64 }),
@end
    proof {
        let x = Node { pos, token_id, token_len, score, prev: None, backtrack_score: 0.0f64 };
        lemma_insert(old(self).nodes@, old(self).begin_nodes@, old(self).end_nodes@, self.nodes@, self.begin_nodes@, self.end_nodes@, self.sentence@.len() as int, x);
    }
@fn Lattice::viterbi
@contract
    requires old(self).wf()
    ensures final(self).wf(), final(self).sentence == old(self).sentence, same_all(old(self).nodes@, final(self).nodes@),
        final(self).begin_nodes == old(self).begin_nodes, final(self).end_nodes == old(self).end_nodes,
        old(self).connected() ==> best_path(old(self).nodes@, r@, old(self).sentence@.len() as int),
        old(self).connected() ==> best_before(final(self).nodes@, final(self).end_nodes@, old(self).sentence@.len() as int + 1),
@start
    hide(best_before); hide(begins); hide(ends); hide(nodes_ok); hide(same_all); hide(best_path); hide(joined); hide(best); hide(Lattice::wf);
    let ghost n = self.sentence@.len() as int; let ghost o = self.nodes@; let ghost e = self.end_nodes@; let ghost b = self.begin_nodes@;
    proof { lemma_wf(*self); lemma_none(o, b, e, n); }
@loop 1
    invariant
        n == old(self).sentence@.len(), o == old(self).nodes@, e == old(self).end_nodes@, b == old(self).begin_nodes@, old(self).wf(),
        self.wf(), self.sentence == old(self).sentence, self.begin_nodes == old(self).begin_nodes, self.end_nodes == old(self).end_nodes, self.bos_idx == old(self).bos_idx, self.eos_idx == old(self).eos_idx,
        same_all(o, self.nodes@),
        __n1 == n, 0 <= __i1 <= n, __d1 ==> __i1 == n,
        best_before(self.nodes@, e, if __d1 { n + 1 } else { __i1 as int }),
@body_start 1
    proof { lemma_wf(*self); }
@loop 2
    invariant
        n == old(self).sentence@.len(), o == old(self).nodes@, e == old(self).end_nodes@, b == old(self).begin_nodes@, old(self).wf(),
        self.wf(), self.sentence == old(self).sentence, self.begin_nodes == old(self).begin_nodes, self.end_nodes == old(self).end_nodes, self.bos_idx == old(self).bos_idx, self.eos_idx == old(self).eos_idx,
        same_all(o, self.nodes@), pos <= n,
        __s2@ == b[pos as int]@, __i2 <= __s2@.len(),
        best_before(self.nodes@, e, pos as int),
        forall|j: int| 0 <= j < __i2 ==> best(self.nodes@, e, #[trigger] b[pos as int]@[j] as int),
@body_start 2
    let ghost me = *self; let ghost n0 = self.nodes@; let ghost r = rnode_idx as int;
    proof { lemma_wf(*self); assert(b[pos as int]@[__v2 as int] == rnode_idx); lemma_at(n0, b, e, n, pos as int, __v2 as int); }
@loop 3
    invariant
        n == old(self).sentence@.len(), o == old(self).nodes@, e == old(self).end_nodes@,
        self.sentence == old(self).sentence, self.begin_nodes == old(self).begin_nodes, self.end_nodes == old(self).end_nodes, self.bos_idx == old(self).bos_idx, self.eos_idx == old(self).eos_idx,
        e.len() == n + 1, ends(n0, e), nodes_ok(n0, n), self.nodes@.len() == n0.len(), pos <= n,
        me.wf(), me.nodes@ == n0, me.sentence == self.sentence, me.begin_nodes == self.begin_nodes, me.end_nodes == self.end_nodes, me.bos_idx == self.bos_idx, me.eos_idx == self.eos_idx,
        1 <= r < n0.len(), r == rnode_idx, n0[r].pos == pos, self.nodes@ == n0.update(r, self.nodes@[r]), same(n0[r], self.nodes@[r]),
        __s3@ == e[pos as int]@, __i3 <= __s3@.len(),
        best_node is None <==> __i3 == 0,
        best_node matches Some(l) ==> e[pos as int]@.contains(l) && l != r && best_score == fadd(n0[l as int].backtrack_score, n0[r].score),
        forall|j: int| 0 <= j < __i3 ==> beats(n0, best_score, #[trigger] e[pos as int]@[j] as int, r),
@body_start 3
    let ghost b0 = best_score;
    proof {
        assert(e[pos as int]@[__v3 as int] == lnode_idx);
        lemma_left(n0, e, n, pos as int, __v3 as int, r);
    }
@body_end 3
    proof {
        assert forall|j: int| 0 <= j < __i3 implies beats(n0, best_score, #[trigger] e[pos as int]@[j] as int, r) by {
            if j < __v3 { assert(beats(n0, b0, e[pos as int]@[j] as int, r)); }
        }
    }
@after 3
    proof { lemma_same_trans(o, n0, self.nodes@, r); lemma_same_refl(n0); lemma_same_trans(n0, n0, self.nodes@, r); lemma_wf_of(me, *self); if best_node is None { lemma_gap(o, n0, e, r); } }
@body_end 2
    proof {
        lemma_same_trans(o, n0, self.nodes@, r);
        assert(self.nodes@ =~= n0.update(r, self.nodes@[r]));
        lemma_same_refl(n0); lemma_same_trans(n0, n0, self.nodes@, r); lemma_wf_of(me, *self);
        lemma_write(n0, self.nodes@, b, e, n, r, pos as int, __v2 as int, best_node->Some_0);
    }
@after 2
    proof {
        lemma_wf(*self);
        lemma_column(self.nodes@, b, e, n, pos as int);
    }
@after_let results
    let ghost nn = self.nodes@;
    let ghost l0 = nn[1].prev->Some_0 as int;
    let ghost mut acc: Seq<int> = Seq::empty();
    proof {
        lemma_wf(*self);
        lemma_zero(nn, n);
        lemma_found(o, nn, b, e, n);
    }
@before 4
    proof { assert(back(nn, l0) + acc =~= back(nn, l0)); }
@loop 4
    invariant
        n == old(self).sentence@.len(), o == old(self).nodes@, e == old(self).end_nodes@, b == old(self).begin_nodes@, old(self).wf(),
        self.wf(), self.sentence == old(self).sentence, self.begin_nodes == old(self).begin_nodes, self.end_nodes == old(self).end_nodes, self.bos_idx == old(self).bos_idx, self.eos_idx == old(self).eos_idx,
        same_all(o, self.nodes@), nn == self.nodes@, best_before(nn, e, n + 1),
        node_idx < nn.len(), node_idx != 1,
        back(nn, l0) == back(nn, node_idx as int) + acc,
        reversed(nn, acc, results@),
    ensures node_idx == 0
    decreases (if node_idx == 0 { 0int } else { nn[node_idx as int].pos + 1 })
@body_start 4
    let ghost i0 = node_idx as int; let ghost r0 = results@;
    proof {
        lemma_wf(*self);
        if i0 != 0 { lemma_step_back(nn, e, n, i0); }
        lemma_zero(nn, n);
    }
@body_end 4
    proof {
        lemma_walk(nn, acc, i0, node_idx as int, l0, r0, results@);
        acc = seq![i0] + acc;
    }
@end
    proof {
        assert(back(nn, 0) + acc =~= acc);
        let rs = results@; assert(rs.reverse().reverse() =~= rs); lemma_done(o, nn, e, n, acc, rs);
    }
