@module nbest src/lattice.rs
@subst Rc<RefCell<Hypothesis>> => Rc<Hypothesis>
@subst min => vx_min
@struct Hypothesis
@struct HypothesisRef
@struct Agenda
@opaque Lattice::viterbi
@opaque Lattice::wf
@spec
use crate::shim::*;
use crate::toks::TokenID;
use crate::lattice::{Lattice, Node, lemma_wf, lemma_bos, nodes_ok, begins, ends, same, same_all, end, path_to, joined, best_before, best_path, best, beats, fin, lemma_paths_same, lemma_prev, lemma_back_num, lemma_same_refl};
use crate::toks::ScoredToken;
use crate::model::piece;
use crate::toks::last_id;
use crate::populate::{once, before, found, all_before};
use core::cmp::Ordering;
use std::rc::Rc;
broadcast use crate::shim::group_vx;
broadcast use crate::nbest::fl::group_fl;

impl VxHeap for Hypothesis {
    open spec fn lower(&self, o: &Hypothesis) -> bool { flt(self.fx, o.fx) }
    open spec fn proper(&self) -> bool { !is_nan(self.fx) }
}
// ---- chains: nodes from some position on to the end, the last one being node 1
pub open spec fn chain(h: Hypothesis) -> Seq<int> decreases h {
    seq![h.node_idx as int] + (match h.next { Some(r) => chain(*r), None => Seq::empty() })
}
pub open spec fn un(r: Rc<Hypothesis>) -> Hypothesis { *r }
/// node c[i] ends where c[i+1] begins
pub open spec fn stp(nodes: Seq<Node>, c: Seq<int>, i: int) -> bool {
    0 <= c[i] < nodes.len() && c[i] != 1 && c[i + 1] != 0 && end(nodes[c[i]]) == nodes[c[i + 1]].pos
}
pub open spec fn okc(nodes: Seq<Node>, c: Seq<int>) -> bool {
    c.len() >= 1 && c.last() == 1 && forall|i: int| 0 <= i < c.len() - 1 ==> #[trigger] stp(nodes, c, i)
}
pub open spec fn complete(nodes: Seq<Node>, c: Seq<int>) -> bool { okc(nodes, c) && c[0] == 0 }
/// without the two ends
pub open spec fn mid(c: Seq<int>) -> Seq<int> { c.subrange(1, c.len() - 1) }
pub open spec fn whole(ps: Seq<int>) -> Seq<int> { seq![0int] + ps + seq![1int] }
/// score of a chain, right to left
pub open spec fn gxc(nodes: Seq<Node>, c: Seq<int>) -> f64 decreases c.len() {
    if c.len() <= 1 { nodes[c[0]].score } else { fadd(nodes[c[0]].score, gxc(nodes, c.skip(1))) }
}
/// with the best way to get to it
pub open spec fn fxc(nodes: Seq<Node>, c: Seq<int>) -> f64 {
    if c.len() <= 1 { nodes[c[0]].score } else { fadd(nodes[c[0]].backtrack_score, gxc(nodes, c.skip(1))) }
}
/// total score of a path, as the search adds it up
pub open spec fn total(nodes: Seq<Node>, ps: Seq<int>) -> f64 { fxc(nodes, whole(ps)) }
pub proof fn lemma_okc_tail(nodes: Seq<Node>, c: Seq<int>)
    requires okc(nodes, c), c.len() > 1
    ensures okc(nodes, c.skip(1)), stp(nodes, c, 0)
{
    let d = c.skip(1);
    assert(stp(nodes, c, 0));
    assert forall|i: int| 0 <= i < d.len() - 1 implies #[trigger] stp(nodes, d, i) by { assert(stp(nodes, c, i + 1)); assert(d[i] == c[i + 1] && d[i + 1] == c[i + 2]); }
}
pub proof fn lemma_okc_cons(nodes: Seq<Node>, c: Seq<int>, l: int)
    requires okc(nodes, c), 0 <= l < nodes.len(), l != 1, c[0] != 0, end(nodes[l]) == nodes[c[0]].pos,
    ensures okc(nodes, seq![l] + c), (seq![l] + c).skip(1) == c, (seq![l] + c).len() == c.len() + 1, (seq![l] + c)[0] == l,
        gxc(nodes, seq![l] + c) == fadd(nodes[l].score, gxc(nodes, c)), fxc(nodes, seq![l] + c) == fadd(nodes[l].backtrack_score, gxc(nodes, c)),
{
    let d = seq![l] + c;
    assert(d.skip(1) =~= c);
    assert forall|i: int| 0 <= i < d.len() - 1 implies #[trigger] stp(nodes, d, i) by {
        if i == 0 { assert(d[1] == c[0]); } else { assert(stp(nodes, c, i - 1)); assert(d[i] == c[i - 1] && d[i + 1] == c[i]); }
    }
    assert(d.last() == c.last());
}
pub proof fn lemma_okc_suffix(nodes: Seq<Node>, c: Seq<int>, k: int)
    requires okc(nodes, c), 0 <= k < c.len()
    ensures okc(nodes, c.skip(k))
{
    let d = c.skip(k);
    assert forall|i: int| 0 <= i < d.len() - 1 implies #[trigger] stp(nodes, d, i) by { assert(stp(nodes, c, i + k)); assert(d[i] == c[i + k] && d[i + 1] == c[i + k + 1]); }
}
/// inner nodes of a chain are tokens
pub proof fn lemma_inner(nodes: Seq<Node>, c: Seq<int>, i: int)
    requires okc(nodes, c), 0 < i < c.len() - 1
    ensures 2 <= c[i] < nodes.len()
{ assert(stp(nodes, c, i)); assert(stp(nodes, c, i - 1)); assert(c[i - 1 + 1] != 0); }
/// a complete chain is a path ...
pub proof fn lemma_path_pre(nodes: Seq<Node>, n: int, c: Seq<int>, k: int)
    requires nodes_ok(nodes, n), complete(nodes, c), 1 <= k < c.len(),
    ensures path_to(nodes, c.subrange(1, k), nodes[c[k]].pos as int)
    decreases k
{
    let p = c.subrange(1, k);
    assert(stp(nodes, c, k - 1));
    assert(c[k - 1 + 1] == c[k]);
    if k > 1 {
        lemma_inner(nodes, c, k - 1);
        lemma_path_pre(nodes, n, c, k - 1);
        assert(p.drop_last() =~= c.subrange(1, k - 1));
        assert(p.last() == c[k - 1]);
    }
}
pub proof fn lemma_is_path(nodes: Seq<Node>, n: int, c: Seq<int>)
    requires nodes_ok(nodes, n), complete(nodes, c)
    ensures path_to(nodes, mid(c), n), whole(mid(c)) == c, c.len() >= 2
{
    lemma_path_pre(nodes, n, c, c.len() - 1);
    assert(c[c.len() - 1] == 1);
    assert(whole(mid(c)) =~= c) by {
        assert forall|i: int| 0 <= i < c.len() implies #[trigger] whole(mid(c))[i] == c[i] by { if 0 < i < c.len() - 1 { assert(mid(c)[i - 1] == c[i]); } }
    }
}
/// ... and the other way round
pub proof fn lemma_path_nodes(nodes: Seq<Node>, ps: Seq<int>, q: int, i: int)
    requires path_to(nodes, ps, q), 0 <= i < ps.len()
    ensures 2 <= ps[i] < nodes.len(), nodes[ps[i]].pos == (if i == 0 { 0 } else { end(nodes[ps[i - 1]]) }), i == ps.len() - 1 ==> end(nodes[ps[i]]) == q
    decreases ps.len()
{
    reveal_with_fuel(path_to, 2);
    let t = ps.drop_last();
    let r = nodes[ps.last()].pos as int;
    if i < ps.len() - 1 { lemma_path_nodes(nodes, t, r, i); assert(t[i] == ps[i]); if i > 0 { assert(t[i - 1] == ps[i - 1]); } }
    else if i > 0 { lemma_path_nodes(nodes, t, r, i - 1); assert(t[i - 1] == ps[i - 1]); }
}
pub proof fn lemma_is_chain(nodes: Seq<Node>, n: int, ps: Seq<int>)
    requires nodes_ok(nodes, n), path_to(nodes, ps, n)
    ensures complete(nodes, whole(ps)), mid(whole(ps)) == ps
{
    let c = whole(ps);
    assert(mid(c) =~= ps);
    assert forall|i: int| 0 <= i < c.len() - 1 implies #[trigger] stp(nodes, c, i) by {
        if i < ps.len() { lemma_path_nodes(nodes, ps, n, i); assert(c[i + 1] == ps[i]); }
        if i > 0 { lemma_path_nodes(nodes, ps, n, i - 1); assert(c[i] == ps[i - 1]); }
    }
}

// ---- no chain is the end of another one
pub open spec fn suf(a: Seq<int>, b: Seq<int>) -> bool { a.len() <= b.len() && b.skip(b.len() - a.len()) == a }
pub open spec fn anti(s: Seq<Seq<int>>) -> bool { forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j ==> !suf(#[trigger] s[i], #[trigger] s[j]) }
pub open spec fn covered(s: Seq<Seq<int>>, c: Seq<int>) -> bool { exists|i: int| 0 <= i < s.len() && suf(#[trigger] s[i], c) }
/// every segmentation ends with some chain of s
pub open spec fn covers(nodes: Seq<Node>, s: Seq<Seq<int>>) -> bool { forall|c: Seq<int>| #[trigger] complete(nodes, c) ==> covered(s, c) }
pub proof fn lemma_suf_trans(a: Seq<int>, b: Seq<int>, c: Seq<int>)
    requires suf(a, b), suf(b, c) ensures suf(a, c)
{ assert(c.skip(c.len() - a.len()) =~= c.skip(c.len() - b.len()).skip(b.len() - a.len())); }
/// two ends of the same sequence
pub proof fn lemma_suf_lin(a: Seq<int>, b: Seq<int>, c: Seq<int>)
    requires suf(a, c), suf(b, c), a.len() <= b.len() ensures suf(a, b)
{ assert(c.skip(c.len() - a.len()) =~= c.skip(c.len() - b.len()).skip(b.len() - a.len())); }
pub proof fn lemma_suf_cons(l: int, c: Seq<int>) ensures suf(c, seq![l] + c) { assert((seq![l] + c).skip(1) =~= c); }
/// what ends in [l]+c or is it
pub proof fn lemma_suf_of_cons(s: Seq<int>, l: int, c: Seq<int>)
    requires suf(s, seq![l] + c) ensures suf(s, c) || s == seq![l] + c
{
    let d = seq![l] + c;
    if s.len() <= c.len() { assert(d.skip(d.len() - s.len()) =~= c.skip(c.len() - s.len())); } else { assert(d.skip(0) =~= d); }
}
/// the same chains in another order, or fewer of them
pub open spec fn picks(s: Seq<Seq<int>>, t: Seq<Seq<int>>, f: spec_fn(int) -> int) -> bool {
    &&& forall|i: int| 0 <= i < t.len() ==> 0 <= #[trigger] f(i) < s.len() && t[i] == s[f(i)]
    &&& forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && i != j ==> #[trigger] f(i) != #[trigger] f(j)
}
pub proof fn lemma_anti_pick(s: Seq<Seq<int>>, t: Seq<Seq<int>>, f: spec_fn(int) -> int)
    requires anti(s), picks(s, t, f) ensures anti(t)
{
    assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && i != j implies !suf(#[trigger] t[i], #[trigger] t[j]) by {
        assert(f(i) != f(j)); assert(t[i] == s[f(i)] && t[j] == s[f(j)]);
    }
}
pub open spec fn chains(ag: Seq<Hypothesis>) -> Seq<Seq<int>> { Seq::new(ag.len(), |i: int| chain(ag[i])) }
/// element k of the second part moves to the end of the first
pub proof fn lemma_move(a: Seq<Seq<int>>, b: Seq<Seq<int>>, k: int)
    requires 0 <= k < b.len()
    ensures anti(a + b) ==> anti(a.push(b[k]) + b.remove(k)), forall|c: Seq<int>| covered(a + b, c) ==> #[trigger] covered(a.push(b[k]) + b.remove(k), c)
{
    let s = a + b;
    let t = a.push(b[k]) + b.remove(k);
    let d = a.len() as int;
    let f = |i: int| if i < d { i } else if i == d { d + k } else if i - d - 1 < k { i - 1 } else { i };
    let g = |i: int| if i < d { i } else if i == d + k { d } else if i - d < k { i + 1 } else { i };
    if anti(s) { assert(picks(s, t, f)); lemma_anti_pick(s, t, f); }
    assert forall|c: Seq<int>| covered(s, c) implies #[trigger] covered(t, c) by {
        let i = choose|i: int| 0 <= i < s.len() && suf(#[trigger] s[i], c);
        assert(t[g(i)] == s[i]);
    }
}
/// what a chain is extended to
pub open spec fn kids(ls: Seq<int>, c: Seq<int>) -> Seq<Seq<int>> { Seq::new(ls.len(), |j: int| seq![ls[j]] + c) }
pub proof fn lemma_expand_anti(a: Seq<Seq<int>>, b: Seq<Seq<int>>, k: int, ls: Seq<int>)
    requires 0 <= k < b.len(), anti(a + b), ls.no_duplicates()
    ensures anti(a + (b.remove(k) + kids(ls, b[k])))
{
    let s = a + b;
    let c = b[k];
    let r = b.remove(k);
    let ks = kids(ls, c);
    let t = a + (r + ks);
    let d = a.len() as int;
    let m = d + r.len();
    let f = |i: int| if i < d { i } else if i - d < k { i } else { i + 1 };
    assert(s[d + k] == c);
    assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && i != j implies !suf(#[trigger] t[i], #[trigger] t[j]) by {
        if i < m { assert(t[i] == s[f(i)] && f(i) != d + k); }
        if j < m { assert(t[j] == s[f(j)] && f(j) != d + k); }
        if i < m && j < m {
            assert(f(i) != f(j));
        } else if i < m {
            let l = ls[j - m];
            assert(t[j] == seq![l] + c);
            if suf(t[i], t[j]) {
                lemma_suf_of_cons(t[i], l, c);
                if t[i] == seq![l] + c { lemma_suf_cons(l, c); assert(suf(s[d + k], s[f(i)])); } else { assert(suf(s[f(i)], s[d + k])); }
            }
        } else if j < m {
            let l = ls[i - m];
            assert(t[i] == seq![l] + c);
            if suf(t[i], t[j]) { lemma_suf_cons(l, c); lemma_suf_trans(c, t[i], t[j]); assert(suf(s[d + k], s[f(j)])); }
        } else {
            let (x, y) = (ls[i - m], ls[j - m]);
            assert(t[i] == seq![x] + c && t[j] == seq![y] + c);
            if suf(t[i], t[j]) { assert(t[j].skip(0) =~= t[j]); assert(t[i][0] == x && t[j][0] == y); }
        }
    }
}
pub proof fn lemma_expand_cover(nodes: Seq<Node>, a: Seq<Seq<int>>, b: Seq<Seq<int>>, k: int, ls: Seq<int>)
    requires 0 <= k < b.len(), covers(nodes, a + b), okc(nodes, b[k]), b[k][0] != 0,
        forall|l: int| 0 <= l < nodes.len() && l != 1 && end(nodes[l]) == nodes[b[k][0]].pos ==> #[trigger] ls.contains(l),
    ensures covers(nodes, a + (b.remove(k) + kids(ls, b[k])))
{
    let s = a + b;
    let c = b[k];
    let r = b.remove(k);
    let ks = kids(ls, c);
    let t = a + (r + ks);
    let d = a.len() as int;
    let m = d + r.len();
    let g = |i: int| if i < d + k { i } else { i - 1 };
    assert forall|x: Seq<int>| #[trigger] complete(nodes, x) implies covered(t, x) by {
        assert(covered(s, x));
        let i = choose|i: int| 0 <= i < s.len() && suf(#[trigger] s[i], x);
        if i != d + k {
            assert(t[g(i)] == s[i]);
        } else {
            let o = x.len() - c.len();
            assert(x[o] == x.skip(o)[0]);
            assert(o > 0);
            let l = x[o - 1];
            assert(stp(nodes, x, o - 1));
            assert(x[o - 1 + 1] == c[0]);
            assert(ls.contains(l));
            let j = choose|j: int| 0 <= j < ls.len() && ls[j] == l;
            assert(x.skip(o - 1) =~= seq![l] + c);
            assert(t[m + j] == seq![l] + c);
            assert(suf(t[m + j], x));
        }
    }
}

// ---- how much there is to explore
/// chains that begin with node v and go on to the left
pub open spec fn tree(nodes: Seq<Node>, e: Seq<Vec<usize>>, v: int) -> nat decreases nodes[v].pos, 1int, 0int {
    1 + (if v == 0 || e.len() <= nodes[v].pos { 0 } else { trees(nodes, e, nodes[v].pos as int, e[nodes[v].pos as int]@.len()) })
}
/// of the first k nodes that end at position p
pub open spec fn trees(nodes: Seq<Node>, e: Seq<Vec<usize>>, p: int, k: nat) -> nat decreases p, 0int, k {
    if k == 0 || p < 0 { 0 } else {
        let v = e[p]@[k - 1] as int;
        trees(nodes, e, p, (k - 1) as nat) + (if v == 0 || nodes[v].pos >= p { 1 } else { tree(nodes, e, v) })
    }
}
pub open spec fn todo(nodes: Seq<Node>, e: Seq<Vec<usize>>, ag: Seq<Hypothesis>) -> nat decreases ag.len() {
    if ag.len() == 0 { 0 } else { todo(nodes, e, ag.drop_last()) + tree(nodes, e, ag.last().node_idx as int) }
}
pub proof fn lemma_todo_push(nodes: Seq<Node>, e: Seq<Vec<usize>>, ag: Seq<Hypothesis>, h: Hypothesis)
    ensures todo(nodes, e, ag.push(h)) == todo(nodes, e, ag) + tree(nodes, e, h.node_idx as int)
{ assert(ag.push(h).drop_last() =~= ag); }
pub proof fn lemma_todo_remove(nodes: Seq<Node>, e: Seq<Vec<usize>>, ag: Seq<Hypothesis>, k: int)
    requires 0 <= k < ag.len()
    ensures todo(nodes, e, ag.remove(k)) + tree(nodes, e, ag[k].node_idx as int) == todo(nodes, e, ag)
    decreases ag.len()
{
    if k == ag.len() - 1 { assert(ag.remove(k) =~= ag.drop_last()); }
    else {
        lemma_todo_remove(nodes, e, ag.drop_last(), k);
        assert(ag.remove(k).drop_last() =~= ag.drop_last().remove(k));
        assert(ag.remove(k).last() == ag.last());
    }
}
pub proof fn lemma_todo_len(nodes: Seq<Node>, e: Seq<Vec<usize>>, ag: Seq<Hypothesis>)
    ensures todo(nodes, e, ag) >= ag.len()
    decreases ag.len()
{ if ag.len() > 0 { lemma_todo_len(nodes, e, ag.drop_last()); } }

// ---- order
/// the sums along a chain do not round
pub open spec fn assoc(nodes: Seq<Node>, c: Seq<int>, l: int) -> bool {
    fadd(nodes[l].backtrack_score, fadd(nodes[c[0]].score, gxc(nodes, c.skip(1)))) == fadd(fadd(nodes[l].backtrack_score, nodes[c[0]].score), gxc(nodes, c.skip(1)))
}
pub open spec fn exact(nodes: Seq<Node>) -> bool {
    forall|c: Seq<int>| #[trigger] okc(nodes, c) ==> is_fin(gxc(nodes, c)) && (c.len() >= 2 ==> forall|l: int| 0 <= l < nodes.len() && l != 1 ==> #[trigger] assoc(nodes, c, l))
}
pub proof fn lemma_fx_num(nn: Seq<Node>, e: Seq<Vec<usize>>, n: int, c: Seq<int>)
    requires nodes_ok(nn, n), ends(nn, e), e.len() == n + 1, best_before(nn, e, n + 1), fin(nn), exact(nn), okc(nn, c)
    ensures !is_nan(fxc(nn, c))
{
    if c.len() >= 2 {
        lemma_okc_tail(nn, c);
        lemma_back_num(nn, e, n, c[0]);
        ax_add_num(nn[c[0]].backtrack_score, gxc(nn, c.skip(1)));
    } else { assert(is_fin(nn[1].score)); }
}
pub proof fn lemma_fx_step(nn: Seq<Node>, e: Seq<Vec<usize>>, n: int, c: Seq<int>)
    requires nodes_ok(nn, n), ends(nn, e), e.len() == n + 1, best_before(nn, e, n + 1), fin(nn), exact(nn), okc(nn, c), c.len() >= 3
    ensures fle(fxc(nn, c), fxc(nn, c.skip(1)))
{
    let d = c.skip(1);
    lemma_okc_tail(nn, c);
    lemma_okc_tail(nn, d);
    lemma_inner(nn, c, 1);
    let (l, r) = (c[0], c[1]);
    let g = gxc(nn, d.skip(1));
    assert(d[0] == r);
    assert(assoc(nn, d, l));
    assert(nn[r].token_len > 0);
    assert(best(nn, e, r));
    let lu = l as usize;
    assert(nn[lu as int] == nn[l]);
    assert(stp(nn, c, 0));
    assert(e[end(nn[lu as int])]@.contains(lu));
    let p = nn[r].pos as int;
    let j = choose|j: int| 0 <= j < e[p]@.len() && e[p]@[j] == lu;
    assert(beats(nn, nn[r].backtrack_score, e[p]@[j] as int, r));
    let x = fadd(nn[l].backtrack_score, nn[r].score);
    lemma_back_num(nn, e, n, l); lemma_back_num(nn, e, n, r);
    ax_add_num(nn[l].backtrack_score, nn[r].score);
    ax_add_mono(x, nn[r].backtrack_score, g);
}
pub proof fn lemma_fx_suffix(nn: Seq<Node>, e: Seq<Vec<usize>>, n: int, a: Seq<int>, c: Seq<int>)
    requires nodes_ok(nn, n), ends(nn, e), e.len() == n + 1, best_before(nn, e, n + 1), fin(nn), exact(nn), okc(nn, c), suf(a, c), a.len() >= 2
    ensures fle(fxc(nn, c), fxc(nn, a))
    decreases c.len()
{
    lemma_fx_num(nn, e, n, c);
    if a.len() == c.len() { assert(c.skip(0) =~= c); } else {
        let d = c.skip(1);
        lemma_okc_tail(nn, c);
        lemma_fx_step(nn, e, n, c);
        assert(d.skip(d.len() - a.len()) =~= c.skip(c.len() - a.len()));
        lemma_fx_suffix(nn, e, n, a, d);
        ax_le_trans(fxc(nn, c), fxc(nn, d), fxc(nn, a));
    }
}

// ---- the state of the search
pub open spec fn good(nodes: Seq<Node>, h: Hypothesis) -> bool { okc(nodes, chain(h)) && h.gx == gxc(nodes, chain(h)) && h.fx == fxc(nodes, chain(h)) }
pub open spec fn state(nodes: Seq<Node>, done: Seq<Seq<int>>, ag: Seq<Hypothesis>) -> bool {
    &&& forall|k: int| 0 <= k < ag.len() ==> good(nodes, #[trigger] ag[k])
    &&& forall|i: int| 0 <= i < done.len() ==> complete(nodes, #[trigger] done[i])
    &&& anti(done + chains(ag))
}
/// best first so far, and nothing left is better
pub open spec fn ranked(nodes: Seq<Node>, done: Seq<Seq<int>>, ag: Seq<Hypothesis>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < done.len() ==> fle(fxc(nodes, #[trigger] done[j]), fxc(nodes, #[trigger] done[i]))
    &&& forall|i: int, k: int| 0 <= i < done.len() && 0 <= k < ag.len() ==> fle((#[trigger] ag[k]).fx, fxc(nodes, #[trigger] done[i]))
}
pub open spec fn idx_of(hs: Seq<usize>, c: Seq<int>) -> bool { hs.len() == mid(c).len() && forall|j: int| 0 <= j < hs.len() ==> #[trigger] hs[j] as int == mid(c)[j] }
pub open spec fn all_idx(hs: Seq<Vec<usize>>, done: Seq<Seq<int>>) -> bool { hs.len() == done.len() && forall|i: int| 0 <= i < hs.len() ==> idx_of((#[trigger] hs[i])@, done[i]) }
pub open spec fn sorting(nn: Seq<Node>, e: Seq<Vec<usize>>, n: int) -> bool { best_before(nn, e, n + 1) && fin(nn) && exact(nn) }
pub proof fn lemma_init(nn: Seq<Node>, n: int, h: Hypothesis)
    requires nodes_ok(nn, n), h.node_idx == 1, h.next is None, h.gx == nn[1].score, h.fx == nn[1].score
    ensures state(nn, Seq::empty(), seq![h]), covers(nn, Seq::<Seq<int>>::empty() + chains(seq![h])), ranked(nn, Seq::empty(), seq![h]), chain(h) == seq![1int],
{
    reveal_with_fuel(chain, 2);
    assert(chain(h) =~= seq![1int]);
    let s = Seq::<Seq<int>>::empty() + chains(seq![h]);
    assert(s =~= seq![seq![1int]]);
    assert forall|c: Seq<int>| #[trigger] complete(nn, c) implies covered(s, c) by {
        assert(c.skip(c.len() - 1) =~= seq![1int]);
        assert(suf(s[0], c));
    }
}
pub proof fn lemma_finish(nn: Seq<Node>, e: Seq<Vec<usize>>, n: int, done: Seq<Seq<int>>, ag0: Seq<Hypothesis>, ag1: Seq<Hypothesis>, h: Hypothesis, k: int)
    requires nodes_ok(nn, n), ends(nn, e), e.len() == n + 1, state(nn, done, ag0), popped(ag0, ag1, h, k), h.node_idx == 0,
    ensures state(nn, done.push(chain(h)), ag1), covers(nn, done + chains(ag0)) ==> covers(nn, done.push(chain(h)) + chains(ag1)),
        sorting(nn, e, n) && ranked(nn, done, ag0) ==> ranked(nn, done.push(chain(h)), ag1), complete(nn, chain(h)), chain(h).len() >= 2,
{
    let c = chain(h);
    assert(good(nn, ag0[k]));
    assert(c[0] == 0);
    assert(chains(ag0)[k] == c);
    assert(chains(ag1) =~= chains(ag0).remove(k));
    lemma_move(done, chains(ag0), k);
    if covers(nn, done + chains(ag0)) {
        assert forall|x: Seq<int>| #[trigger] complete(nn, x) implies covered(done.push(c) + chains(ag1), x) by { assert(covered(done + chains(ag0), x)); }
    }
    assert forall|i: int| 0 <= i < ag1.len() implies good(nn, #[trigger] ag1[i]) by { assert(ag1[i] == ag0[if i < k { i } else { i + 1 }]); }
    if sorting(nn, e, n) && ranked(nn, done, ag0) { lemma_top(nn, e, n, done, ag0, ag1, h, k); lemma_fx_num(nn, e, n, c); }
}
/// the popped one is a best one
pub proof fn lemma_top(nn: Seq<Node>, e: Seq<Vec<usize>>, n: int, done: Seq<Seq<int>>, ag0: Seq<Hypothesis>, ag1: Seq<Hypothesis>, h: Hypothesis, k: int)
    requires nodes_ok(nn, n), ends(nn, e), e.len() == n + 1, state(nn, done, ag0), popped(ag0, ag1, h, k), sorting(nn, e, n), ranked(nn, done, ag0),
    ensures forall|i: int| 0 <= i < ag1.len() ==> fle((#[trigger] ag1[i]).fx, h.fx), forall|i: int| 0 <= i < done.len() ==> fle(h.fx, fxc(nn, #[trigger] done[i])), ranked(nn, done, ag1)
{
    assert forall|i: int| 0 <= i < ag0.len() implies (#[trigger] ag0[i]).proper() by { assert(good(nn, ag0[i])); lemma_fx_num(nn, e, n, chain(ag0[i])); }
    assert forall|i: int| 0 <= i < ag1.len() implies fle((#[trigger] ag1[i]).fx, h.fx) by {
        let j = if i < k { i } else { i + 1 };
        assert(ag1[i] == ag0[j]);
        assert(ag0[j].proper() && ag0[k].proper());
        assert(!h.lower(&ag0[j]));
    }
    assert forall|i: int| 0 <= i < done.len() implies fle(h.fx, fxc(nn, #[trigger] done[i])) by { assert(fle(ag0[k].fx, fxc(nn, done[i]))); }
    assert forall|i: int, q: int| 0 <= i < done.len() && 0 <= q < ag1.len() implies fle((#[trigger] ag1[q]).fx, fxc(nn, #[trigger] done[i])) by {
        assert(ag1[q] == ag0[if q < k { q } else { q + 1 }]);
    }
}
/// the nodes a hypothesis is extended with
pub open spec fn lefts(v: Seq<usize>) -> Seq<int> { Seq::new(v.len(), |j: int| v[j] as int) }
pub open spec fn is_kid(nn: Seq<Node>, h: Hypothesis, l: int, x: Hypothesis) -> bool {
    x.node_idx == l && chain(x) == seq![l] + chain(h) && x.fx == fadd(nn[l].backtrack_score, h.gx) && x.gx == fadd(nn[l].score, h.gx)
}
pub open spec fn extended(nn: Seq<Node>, ag1: Seq<Hypothesis>, ag2: Seq<Hypothesis>, h: Hypothesis, ls: Seq<int>, m: int) -> bool {
    &&& ag2.len() == ag1.len() + m && 0 <= m <= ls.len() && forall|i: int| 0 <= i < ag1.len() ==> #[trigger] ag2[i] == ag1[i]
    &&& forall|j: int| #![trigger ag2[ag1.len() + j]] 0 <= j < m ==> is_kid(nn, h, ls[j], ag2[ag1.len() + j])
}
pub proof fn lemma_lefts(nn: Seq<Node>, e: Seq<Vec<usize>>, n: int, p: int)
    requires nodes_ok(nn, n), ends(nn, e), e.len() == n + 1, 0 <= p <= n
    ensures lefts(e[p]@).no_duplicates(),
        forall|l: int| 0 <= l < nn.len() && l != 1 && end(nn[l]) == p ==> #[trigger] lefts(e[p]@).contains(l),
        forall|j: int| 0 <= j < e[p]@.len() ==> 0 <= (#[trigger] lefts(e[p]@)[j]) < nn.len() && lefts(e[p]@)[j] != 1 && end(nn[lefts(e[p]@)[j]]) == p,
{
    let ls = lefts(e[p]@);
    assert forall|i: int, j: int| 0 <= i < ls.len() && 0 <= j < ls.len() && i != j implies ls[i] != ls[j] by {
        if i < j { assert(e[p]@[i] != e[p]@[j]); } else { assert(e[p]@[j] != e[p]@[i]); }
    }
    assert forall|l: int| 0 <= l < nn.len() && l != 1 && end(nn[l]) == p implies #[trigger] ls.contains(l) by {
        let lu = l as usize;
        assert(nn[lu as int] == nn[l]);
        assert(e[end(nn[lu as int])]@.contains(lu));
        let j = choose|j: int| 0 <= j < e[p]@.len() && e[p]@[j] == lu;
        assert(ls[j] == l);
    }
    assert forall|j: int| 0 <= j < e[p]@.len() implies 0 <= (#[trigger] ls[j]) < nn.len() && ls[j] != 1 && end(nn[ls[j]]) == p by { assert(e[p]@[j] != 1); }
}
pub proof fn lemma_expand(nn: Seq<Node>, e: Seq<Vec<usize>>, n: int, done: Seq<Seq<int>>, ag0: Seq<Hypothesis>, ag1: Seq<Hypothesis>, ag2: Seq<Hypothesis>, h: Hypothesis, k: int)
    requires nodes_ok(nn, n), ends(nn, e), e.len() == n + 1, state(nn, done, ag0), popped(ag0, ag1, h, k), h.node_idx != 0, nn[h.node_idx as int].pos <= n,
        extended(nn, ag1, ag2, h, lefts(e[nn[h.node_idx as int].pos as int]@), e[nn[h.node_idx as int].pos as int]@.len() as int),
    ensures state(nn, done, ag2), covers(nn, done + chains(ag0)) ==> covers(nn, done + chains(ag2)),
        sorting(nn, e, n) && ranked(nn, done, ag0) ==> ranked(nn, done, ag2),
{
    let c = chain(h);
    let p = nn[h.node_idx as int].pos as int;
    let ls = lefts(e[p]@);
    let m1 = ag1.len() as int;
    lemma_lefts(nn, e, n, p);
    assert(good(nn, ag0[k]));
    assert(c[0] == h.node_idx);
    assert(chains(ag0)[k] == c);
    assert(chains(ag2) =~= chains(ag0).remove(k) + kids(ls, c)) by {
        assert forall|i: int| 0 <= i < ag2.len() implies chain(#[trigger] ag2[i]) == (chains(ag0).remove(k) + kids(ls, c))[i] by {
            if i < m1 { assert(ag2[i] == ag1[i]); assert(ag1[i] == ag0[if i < k { i } else { i + 1 }]); }
            else { let j = i - m1; assert(is_kid(nn, h, ls[j], ag2[m1 + j])); }
        }
    }
    lemma_expand_anti(done, chains(ag0), k, ls);
    if covers(nn, done + chains(ag0)) { lemma_expand_cover(nn, done, chains(ag0), k, ls); }
    assert forall|i: int| 0 <= i < ag2.len() implies good(nn, #[trigger] ag2[i]) by {
        if i < m1 { assert(ag2[i] == ag1[i]); assert(ag1[i] == ag0[if i < k { i } else { i + 1 }]); }
        else { let j = i - m1; assert(is_kid(nn, h, ls[j], ag2[m1 + j])); lemma_okc_cons(nn, c, ls[j]); }
    }
    if sorting(nn, e, n) && ranked(nn, done, ag0) {
        lemma_top(nn, e, n, done, ag0, ag1, h, k);
        assert forall|i: int, q: int| 0 <= i < done.len() && 0 <= q < ag2.len() implies fle((#[trigger] ag2[q]).fx, fxc(nn, #[trigger] done[i])) by {
            if q < m1 { assert(ag2[q] == ag1[q]); } else {
                let d = chain(ag2[q]);
                assert(good(nn, ag2[q]));
                assert(is_kid(nn, h, ls[q - m1], ag2[m1 + (q - m1)]));
                assert(d.skip(1) =~= c);
                if c.len() >= 2 {
                    lemma_fx_step(nn, e, n, d);
                    ax_le_trans(fxc(nn, d), fxc(nn, c), fxc(nn, done[i]));
                } else {
                    // the root is the end of everything
                    let s = done + chains(ag0);
                    assert(c =~= seq![1int]);
                    let x = done[i];
                    assert(complete(nn, x));
                    assert(x.skip(x.len() - 1) =~= seq![1int]);
                    assert(suf(s[done.len() + k], s[i]));
                }
            }
        }
    }
}
pub proof fn lemma_tree(nn: Seq<Node>, e: Seq<Vec<usize>>, n: int, v: int)
    requires nodes_ok(nn, n), ends(nn, e), e.len() == n + 1, 1 <= v < nn.len()
    ensures tree(nn, e, v) == 1 + trees(nn, e, nn[v].pos as int, e[nn[v].pos as int]@.len()), nn[v].pos <= n
{ if v >= 2 { assert(nn[v].token_len > 0); } }
pub proof fn lemma_tree_next(nn: Seq<Node>, e: Seq<Vec<usize>>, n: int, p: int, m: int)
    requires nodes_ok(nn, n), ends(nn, e), e.len() == n + 1, 0 <= p <= n, 0 <= m < e[p]@.len()
    ensures trees(nn, e, p, (m + 1) as nat) == trees(nn, e, p, m as nat) + tree(nn, e, e[p]@[m] as int), e[p]@[m] < nn.len(), e[p]@[m] != 1
{
    let v = e[p]@[m] as int;
    assert(v != 1);
    if v >= 2 { assert(nn[v].token_len > 0); }
}

// ---- the answer
pub open spec fn listing(nodes: Seq<Node>, ps: Seq<int>, rs: Seq<Node>) -> bool { rs.len() == ps.len() && forall|j: int| 0 <= j < ps.len() ==> same(#[trigger] rs[j], nodes[ps[j]]) }
pub open spec fn paths(nodes: Seq<Node>, n: int, pss: Seq<Seq<int>>, r: Seq<Vec<Node>>) -> bool {
    &&& pss.len() == r.len() && pss.no_duplicates()
    &&& forall|i: int| 0 <= i < r.len() ==> path_to(nodes, #[trigger] pss[i], n) && listing(nodes, pss[i], r[i]@)
}
pub open spec fn all_paths(nodes: Seq<Node>, n: int, pss: Seq<Seq<int>>) -> bool { forall|ps: Seq<int>| #[trigger] path_to(nodes, ps, n) ==> pss.contains(ps) }
pub open spec fn best_first(nn: Seq<Node>, n: int, pss: Seq<Seq<int>>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < pss.len() ==> fle(total(nn, #[trigger] pss[j]), total(nn, #[trigger] pss[i]))
    &&& forall|ps: Seq<int>, i: int| #[trigger] path_to(nn, ps, n) && !pss.contains(ps) && 0 <= i < pss.len() ==> fle(total(nn, ps), total(nn, #[trigger] pss[i]))
}
/// pss are the n best segmentations r lists; complete and best ones while the agenda stays below its cap
pub open spec fn answer(o: Seq<Node>, nn: Seq<Node>, e: Seq<Vec<usize>>, len: int, n: int, pss: Seq<Seq<int>>, r: Seq<Vec<Node>>) -> bool {
    &&& paths(o, len, pss, r) && r.len() <= n
    &&& tree(nn, e, 1) <= 100_000 ==> r.len() == n || all_paths(o, len, pss)
    &&& n >= 2 && tree(nn, e, 1) <= 100_000 && sorting(nn, e, len) ==> best_first(nn, len, pss)
}
pub open spec fn mids(done: Seq<Seq<int>>) -> Seq<Seq<int>> { Seq::new(done.len(), |i: int| mid(done[i])) }
pub proof fn lemma_covered_done(nn: Seq<Node>, n: int, done: Seq<Seq<int>>, i: int, c: Seq<int>)
    requires complete(nn, done[i]), complete(nn, c), suf(done[i], c) ensures done[i] == c
{
    let o = c.len() - done[i].len();
    assert(c.skip(o)[0] == c[o]);
    if o > 0 { assert(stp(nn, c, o - 1)); assert(c[o - 1 + 1] != 0); }
    assert(c.skip(0) =~= c);
}
pub proof fn lemma_answer(o: Seq<Node>, nn: Seq<Node>, e: Seq<Vec<usize>>, len: int, n: int, done: Seq<Seq<int>>, ag: Seq<Hypothesis>, r: Seq<Vec<Node>>)
    requires nodes_ok(nn, len), ends(nn, e), e.len() == len + 1, same_all(o, nn), state(nn, done, ag), r.len() == done.len(), r.len() <= n,
        forall|i: int| 0 <= i < r.len() ==> listing(nn, mid(done[i]), (#[trigger] r[i])@),
        ag.len() == 0 || done.len() == n, n >= 2,
        tree(nn, e, 1) <= 100_000 ==> covers(nn, done + chains(ag)),
        sorting(nn, e, len) ==> ranked(nn, done, ag),
    ensures answer(o, nn, e, len, n, mids(done), r)
{
    let pss = mids(done);
    let s = done + chains(ag);
    assert forall|i: int| 0 <= i < o.len() implies same(#[trigger] nn[i], o[i]) by { assert(same(o[i], nn[i])); }
    assert forall|i: int| 0 <= i < r.len() implies path_to(nn, #[trigger] pss[i], len) && path_to(o, pss[i], len) && listing(o, pss[i], r[i]@) && whole(pss[i]) == done[i] by {
        assert(complete(nn, done[i]));
        lemma_is_path(nn, len, done[i]);
        lemma_paths_same(nn, o, pss[i], len);
        assert forall|j: int| 0 <= j < pss[i].len() implies same(#[trigger] r[i]@[j], o[pss[i][j]]) by {
            assert(same(r[i]@[j], nn[mid(done[i])[j]]));
            assert(listing(nn, mid(done[i]), r[i]@));
            lemma_path_nodes(nn, pss[i], len, j);
        }
    }
    assert forall|i: int, j: int| 0 <= i < pss.len() && 0 <= j < pss.len() && i != j implies pss[i] != pss[j] by {
        if pss[i] == pss[j] { assert(whole(pss[i]) == done[i] && whole(pss[j]) == done[j]); assert(done[i].skip(0) =~= done[i]); assert(s[i] == done[i] && s[j] == done[j]); assert(suf(s[i], s[j])); }
    }
    if tree(nn, e, 1) <= 100_000 {
        assert forall|ps: Seq<int>| #[trigger] path_to(nn, ps, len) && !pss.contains(ps) implies
            exists|k: int| 0 <= k < ag.len() && suf(chain(#[trigger] ag[k]), whole(ps)) by {
            let c = whole(ps);
            lemma_is_chain(nn, len, ps);
            assert(covered(s, c));
            let i = choose|i: int| 0 <= i < s.len() && suf(#[trigger] s[i], c);
            if i < done.len() {
                lemma_covered_done(nn, len, done, i, c);
                assert(pss[i] == ps);
            } else { assert(s[i] == chain(ag[i - done.len()])); }
        }
        if ag.len() == 0 {
            assert forall|ps: Seq<int>| #[trigger] path_to(o, ps, len) implies pss.contains(ps) by { lemma_paths_same(o, nn, ps, len); }
        }
        if sorting(nn, e, len) {
            assert forall|i: int, j: int| 0 <= i < j < pss.len() implies fle(total(nn, #[trigger] pss[j]), total(nn, #[trigger] pss[i])) by {
                assert(whole(pss[i]) == done[i] && whole(pss[j]) == done[j]);
            }
            assert forall|ps: Seq<int>, i: int| #[trigger] path_to(nn, ps, len) && !pss.contains(ps) && 0 <= i < pss.len() implies fle(total(nn, ps), total(nn, #[trigger] pss[i])) by {
                let c = whole(ps);
                let k = choose|k: int| 0 <= k < ag.len() && suf(chain(#[trigger] ag[k]), c);
                let a = chain(ag[k]);
                assert(good(nn, ag[k]));
                lemma_is_chain(nn, len, ps);
                assert(whole(pss[i]) == done[i]);
                if a.len() < 2 {
                    assert(a =~= seq![1int]);
                    let x = done[i];
                    assert(complete(nn, x));
                    assert(x.skip(x.len() - 1) =~= seq![1int]);
                    assert(s[done.len() + k] == a && s[i] == x);
                    assert(suf(s[done.len() + k], s[i]));
                }
                lemma_fx_suffix(nn, e, len, a, c);
                assert(fle(ag[k].fx, fxc(nn, done[i])));
                ax_le_trans(fxc(nn, c), fxc(nn, a), fxc(nn, done[i]));
            }
        }
    }
}
/// when every byte is a token and the lattice holds all occurrences, where a token begins another one (or the start) ends
pub proof fn lemma_bytes(v: Seq<ScoredToken>, t: Seq<u8>, nodes: Seq<Node>, e: Seq<Vec<usize>>)
    requires nodes_ok(nodes, t.len() as int), ends(nodes, e), e.len() == t.len() + 1, all_before(v, t, nodes, t.len() as int),
        forall|p: int| 0 <= p < t.len() ==> last_id(v, #[trigger] piece(t, p, 1)) is Some,
    ensures joined(nodes, e)
{
    assert forall|r: int| 1 <= r < nodes.len() implies e[(#[trigger] nodes[r]).pos as int]@.len() > 0 by {
        let q = nodes[r].pos as int;
        if r >= 2 { assert(nodes[r].token_len > 0); }
        let l = if q == 0 { 0 } else {
            assert(last_id(v, piece(t, q - 1, 1)) is Some);
            assert(found(nodes, q - 1, 1));
            choose|i: int| 2 <= i < nodes.len() && (#[trigger] nodes[i]).pos == q - 1 && nodes[i].token_len == 1
        };
        let lu = l as usize;
        assert(nodes[lu as int] == nodes[l]);
        assert(e[end(nodes[lu as int])]@.contains(lu));
    }
}
/// different paths are different segmentations: they cut the bytes differently
pub open spec fn spans(nodes: Seq<Node>, ps: Seq<int>) -> Seq<(int, int)> { Seq::new(ps.len(), |i: int| (nodes[ps[i]].pos as int, nodes[ps[i]].token_len as int)) }
pub proof fn lemma_different(nodes: Seq<Node>, ps: Seq<int>, qs: Seq<int>, n: int)
    requires once(nodes), path_to(nodes, ps, n), path_to(nodes, qs, n), ps != qs
    ensures spans(nodes, ps) != spans(nodes, qs)
{
    if spans(nodes, ps) == spans(nodes, qs) {
        assert(ps.len() == spans(nodes, ps).len() && qs.len() == spans(nodes, qs).len());
        assert forall|i: int| 0 <= i < ps.len() implies ps[i] == qs[i] by {
            lemma_path_nodes(nodes, ps, n, i); lemma_path_nodes(nodes, qs, n, i);
            assert(spans(nodes, ps)[i] == spans(nodes, qs)[i]);
            if ps[i] < qs[i] { assert(before(nodes[ps[i]], nodes[qs[i]])); }
            if qs[i] < ps[i] { assert(before(nodes[qs[i]], nodes[ps[i]])); }
        }
        assert(ps =~= qs);
    }
}
/// the chain of a hypothesis, from its second node on
pub proof fn lemma_next(h: Hypothesis) ensures chain(h).len() >= 1, chain(h)[0] == h.node_idx, h.next is Some ==> chain(h) == seq![h.node_idx as int] + chain(*h.next->Some_0), h.next is None ==> chain(h) == seq![h.node_idx as int] {
    match h.next { Some(r) => {}, None => { assert(seq![h.node_idx as int] + Seq::<int>::empty() =~= seq![h.node_idx as int]); } }
}

/// what the loop reads of a hypothesis
pub proof fn lemma_node(nn: Seq<Node>, n: int, ag0: Seq<Hypothesis>, ag1: Seq<Hypothesis>, h: Hypothesis, k: int)
    requires nodes_ok(nn, n), good(nn, ag0[k]), popped(ag0, ag1, h, k)
    ensures h.node_idx < nn.len(), 0 <= nn[h.node_idx as int].pos <= n, h.node_idx == 0 ==> h.next is Some, okc(nn, chain(h)), chain(h)[0] == h.node_idx,
{
    let c = chain(h);
    lemma_next(h);
    if c.len() > 1 { assert(stp(nn, c, 0)); } else { assert(c.last() == c[0]); }
    if h.node_idx >= 2 { assert(nn[h.node_idx as int].token_len > 0); }
}
pub proof fn lemma_walked(c: Seq<int>, hs: Seq<usize>, x: int)
    requires c == seq![0int] + lefts(hs) + seq![x]
    ensures idx_of(hs, c)
{
    assert forall|j: int| 0 <= j < hs.len() implies #[trigger] hs[j] as int == mid(c)[j] by { assert(c[j + 1] == lefts(hs)[j]); }
}
pub proof fn lemma_walk(c: Seq<int>, hs: Seq<usize>, l: usize, d: Seq<int>)
    requires c == seq![0int] + lefts(hs) + (seq![l as int] + d)
    ensures c == seq![0int] + lefts(hs.push(l)) + d
{ assert(lefts(hs.push(l)) =~= lefts(hs).push(l as int)); assert(seq![0int] + lefts(hs.push(l)) + d =~= c); }
pub proof fn lemma_listed(nn: Seq<Node>, n: int, done: Seq<Seq<int>>, ag: Seq<Hypothesis>, hs: Seq<Vec<usize>>, i: int)
    requires nodes_ok(nn, n), state(nn, done, ag), all_idx(hs, done), 0 <= i < hs.len()
    ensures forall|j: int| 0 <= j < hs[i]@.len() ==> (#[trigger] hs[i]@[j]) < nn.len(),
        forall|rs: Seq<Node>| rs.len() == hs[i]@.len() && (forall|j: int| 0 <= j < rs.len() ==> #[trigger] rs[j] == nn[hs[i]@[j] as int]) ==> #[trigger] listing(nn, mid(done[i]), rs),
{
    assert(complete(nn, done[i]));
    lemma_is_path(nn, n, done[i]);
    assert(idx_of(hs[i]@, done[i]));
    assert forall|j: int| 0 <= j < hs[i]@.len() implies (#[trigger] hs[i]@[j]) < nn.len() by { lemma_path_nodes(nn, mid(done[i]), n, j); assert(hs[i]@[j] as int == mid(done[i])[j]); }
    assert forall|rs: Seq<Node>| rs.len() == hs[i]@.len() && (forall|j: int| 0 <= j < rs.len() ==> #[trigger] rs[j] == nn[hs[i]@[j] as int]) implies #[trigger] listing(nn, mid(done[i]), rs) by {
        assert forall|j: int| 0 <= j < rs.len() implies same(#[trigger] rs[j], nn[mid(done[i])[j]]) by { assert(hs[i]@[j] as int == mid(done[i])[j]); }
    }
}
pub open spec fn in_range(hs: Seq<usize>, n: int) -> bool { forall|j: int| 0 <= j < hs.len() ==> (#[trigger] hs[j]) < n }
pub proof fn lemma_listed_all(nn: Seq<Node>, n: int, done: Seq<Seq<int>>, ag: Seq<Hypothesis>, hs: Seq<Vec<usize>>)
    requires nodes_ok(nn, n), state(nn, done, ag), all_idx(hs, done)
    ensures forall|i: int| 0 <= i < hs.len() ==> in_range((#[trigger] hs[i])@, nn.len() as int)
{ assert forall|i: int| 0 <= i < hs.len() implies in_range((#[trigger] hs[i])@, nn.len() as int) by { lemma_listed(nn, n, done, ag, hs, i); } }
pub proof fn lemma_kid(nn: Seq<Node>, ag1: Seq<Hypothesis>, ag2: Seq<Hypothesis>, h: Hypothesis, ls: Seq<int>, m: int, x: Hypothesis)
    requires extended(nn, ag1, ag2, h, ls, m), m < ls.len(), is_kid(nn, h, ls[m], x)
    ensures extended(nn, ag1, ag2.push(x), h, ls, m + 1)
{
    let ag3 = ag2.push(x);
    assert forall|j: int| #![trigger ag3[ag1.len() + j]] 0 <= j < m + 1 implies is_kid(nn, h, ls[j], ag3[ag1.len() + j]) by {
        if j < m { assert(ag3[ag1.len() + j] == ag2[ag1.len() + j]); }
    }
}
/// one hypothesis moves to the smaller agenda
pub proof fn lemma_shrink(nn: Seq<Node>, e: Seq<Vec<usize>>, done: Seq<Seq<int>>, a: Seq<Hypothesis>, b0: Seq<Hypothesis>, b1: Seq<Hypothesis>, x: Hypothesis, k: int)
    requires state(nn, done, a + b0), popped(b0, b1, x, k)
    ensures state(nn, done, a.push(x) + b1), ranked(nn, done, a + b0) ==> ranked(nn, done, a.push(x) + b1),
        todo(nn, e, a.push(x)) + todo(nn, e, b1) == todo(nn, e, a) + todo(nn, e, b0)
{
    let s = a + b0;
    let t = a.push(x) + b1;
    let m = a.len() as int;
    let f = |i: int| if i < m { i } else if i == m { m + k } else if i - m - 1 < k { i - 1 } else { i };
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] == s[f(i)] && 0 <= f(i) < s.len() by {
        if i > m { assert(b1[i - m - 1] == b0[if i - m - 1 < k { i - m - 1 } else { i - m }]); }
    }
    assert forall|i: int| 0 <= i < t.len() implies good(nn, #[trigger] t[i]) by { assert(t[i] == s[f(i)]); }
    let d = done.len() as int;
    let g = |i: int| if i < d { i } else { d + f(i - d) };
    let (cs, ct) = (done + chains(s), done + chains(t));
    assert forall|i: int| 0 <= i < ct.len() implies 0 <= #[trigger] g(i) < cs.len() && ct[i] == cs[g(i)] by { if i >= d { assert(t[i - d] == s[f(i - d)]); } }
    assert(picks(cs, ct, g));
    lemma_anti_pick(cs, ct, g);
    if ranked(nn, done, s) {
        assert forall|i: int, q: int| 0 <= i < done.len() && 0 <= q < t.len() implies fle((#[trigger] t[q]).fx, fxc(nn, #[trigger] done[i])) by { assert(t[q] == s[f(q)]); }
    }
    lemma_todo_push(nn, e, a, x);
    lemma_todo_remove(nn, e, b0, k);
}
pub proof fn lemma_shrunk(nn: Seq<Node>, done: Seq<Seq<int>>, a: Seq<Hypothesis>, b: Seq<Hypothesis>)
    requires state(nn, done, a + b)
    ensures state(nn, done, a), ranked(nn, done, a + b) ==> ranked(nn, done, a)
{
    let s = a + b;
    let (cs, ct) = (done + chains(s), done + chains(a));
    let f = |i: int| i;
    assert forall|i: int| 0 <= i < a.len() implies #[trigger] a[i] == s[i] by {}
    assert forall|i: int| 0 <= i < a.len() implies good(nn, #[trigger] a[i]) by { assert(a[i] == s[i]); }
    assert(picks(cs, ct, f));
    lemma_anti_pick(cs, ct, f);
    if ranked(nn, done, s) {
        assert forall|i: int, q: int| 0 <= i < done.len() && 0 <= q < a.len() implies fle((#[trigger] a[q]).fx, fxc(nn, #[trigger] done[i])) by { assert(a[q] == s[q]); }
    }
}
pub proof fn lemma_ids(o: Seq<Node>, nn: Seq<Node>, n: int)
    requires same_all(o, nn), nodes_ok(nn, n), forall|i: int| 2 <= i < o.len() ==> (#[trigger] o[i]).token_id < u32::MAX - 1
    ensures nn.len() >= 2, nn[0].token_id == u32::MAX - 1, forall|i: int| 0 < i < nn.len() ==> (#[trigger] nn[i]).token_id != u32::MAX - 1
{
    assert forall|i: int| 0 < i < nn.len() implies (#[trigger] nn[i]).token_id != u32::MAX - 1 by { assert(same(o[i], nn[i])); }
}

pub proof fn lemma_first(o: Seq<Node>, n: int) requires nodes_ok(o, n) ensures o.len() >= 2 {}
pub proof fn lemma_same_one(o: Seq<Node>, nn: Seq<Node>) requires same_all(o, nn), o.len() >= 2 ensures nn[1].score == o[1].score { assert(same(o[1], nn[1])); }
pub proof fn lemma_start(nn: Seq<Node>, e: Seq<Vec<usize>>, ag: Seq<Hypothesis>)
    requires ag.len() == 1, ag[0].node_idx == 1 ensures todo(nn, e, ag) <= tree(nn, e, 1), all_idx(Seq::<Vec<usize>>::empty(), Seq::empty())
{ reveal_with_fuel(todo, 2); }
pub proof fn lemma_good(nn: Seq<Node>, done: Seq<Seq<int>>, ag: Seq<Hypothesis>, k: int) requires state(nn, done, ag), 0 <= k < ag.len() ensures good(nn, ag[k]) {}
pub proof fn lemma_tree_pos(nn: Seq<Node>, e: Seq<Vec<usize>>, v: int) ensures tree(nn, e, v) >= 1 {}
pub proof fn lemma_all_idx(hs: Seq<Vec<usize>>, done: Seq<Seq<int>>, h: Vec<usize>, c: Seq<int>)
    requires all_idx(hs, done), idx_of(h@, c) ensures all_idx(hs.push(h), done.push(c))
{}
pub proof fn lemma_extended(nn: Seq<Node>, ag1: Seq<Hypothesis>, h: Hypothesis, ls: Seq<int>) ensures extended(nn, ag1, ag1, h, ls, 0) {}
pub proof fn lemma_is_kid(nn: Seq<Node>, h: Hypothesis, l: int, x: Hypothesis)
    requires x.node_idx == l, x.next is Some, *x.next->Some_0 == h, x.fx == fadd(nn[l].backtrack_score, h.gx), x.gx == fadd(nn[l].score, h.gx)
    ensures is_kid(nn, h, l, x)
{ lemma_next(x); }
pub proof fn lemma_todo_nil(nn: Seq<Node>, e: Seq<Vec<usize>>, ag: Seq<Hypothesis>) ensures ag.len() == 0 ==> todo(nn, e, ag) == 0 {}

@fn Hypothesis::new
@contract
    ensures r == (Hypothesis { node_idx, next, fx, gx })
@fn Hypothesis@PartialOrd::partial_cmp
@opt inherent keep:cmp
@contract
    ensures r matches Some(o) && (o == Ordering::Less <==> self.lower(other)) && (other.lower(self) ==> o == Ordering::Greater)
@fn Hypothesis@Ord::cmp
@opt inherent
@contract
    ensures r == Ordering::Less <==> self.lower(other), other.lower(self) ==> r == Ordering::Greater
@fn collect_nodes_from_indices
@contract
    requires in_range(indices@, nodes@.len() as int)
    ensures r@.len() == indices@.len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == nodes@[indices@[i] as int]
@loop 1
    invariant __i1 <= __s1@.len(), __s1@ == indices@, result@.len() == __i1, in_range(indices@, nodes@.len() as int),
        forall|i: int| 0 <= i < result@.len() ==> #[trigger] result@[i] == nodes@[indices@[i] as int]
@fn Lattice::nbest
@opt cells keep:as_ref ctype3:Vec<Vec<Node>> ctype6:Vec<Vec<Node>>
@contract
    requires old(self).wf(), n <= usize::MAX / 10, forall|i: int| 2 <= i < old(self).nodes@.len() ==> (#[trigger] old(self).nodes@[i]).token_id < u32::MAX - 1
    ensures final(self).wf(), final(self).sentence == old(self).sentence, same_all(old(self).nodes@, final(self).nodes@),
        final(self).begin_nodes == old(self).begin_nodes, final(self).end_nodes == old(self).end_nodes,
        n == 0 ==> r@.len() == 0,
        n == 1 ==> r@.len() == 1,
        n == 1 && old(self).connected() ==> best_path(old(self).nodes@, r@[0]@, old(self).sentence@.len() as int),
        n >= 2 ==> exists|pss: Seq<Seq<int>>| #[trigger] answer(old(self).nodes@, final(self).nodes@, final(self).end_nodes@, old(self).sentence@.len() as int, n as int, pss, r@),
        n >= 2 && old(self).connected() ==> best_before(final(self).nodes@, final(self).end_nodes@, old(self).sentence@.len() as int + 1),
@start
    hide(nodes_ok); hide(ends); hide(begins); hide(same_all); hide(state); hide(ranked); hide(covers); hide(anti); hide(okc); hide(answer); hide(all_idx); hide(sorting); hide(best_before); hide(best_path); hide(extended); hide(todo); hide(tree); hide(chain); hide(chains); hide(is_kid);
    let ghost lenx = self.sentence@.len() as int; let ghost o = self.nodes@; let ghost e = self.end_nodes@; let ghost me = *self;
    let ghost mut nn = self.nodes@; let ghost mut done: Seq<Seq<int>> = Seq::empty();
    proof { lemma_wf(*self); lemma_bos(*self); lemma_first(o, lenx); lemma_same_refl(o); }
@before 1
    proof {
        lemma_wf(*self); lemma_bos(*self); nn = self.nodes@;
        lemma_ids(o, nn, lenx);
        lemma_same_one(o, nn);
        lemma_init(nn, lenx, agenda@[0]);
        assert(agenda@ =~= seq![agenda@[0]]);
        lemma_start(nn, e, agenda@);
    }
@loop 1
    invariant
        self.wf(), self.sentence == me.sentence, self.begin_nodes == me.begin_nodes, self.end_nodes == me.end_nodes, self.nodes@ == nn, self.bos_idx == 0,
        e == self.end_nodes@, nodes_ok(nn, lenx), ends(nn, e), e.len() == lenx + 1, same_all(o, nn), lenx == me.sentence@.len(), o == me.nodes@, *old(self) == me,
        me.connected() ==> best_before(nn, e, lenx + 1),
        n >= 2, n <= usize::MAX / 10, nn.len() >= 2, nn[0].token_id == u32::MAX - 1, forall|i: int| 0 < i < nn.len() ==> (#[trigger] nn[i]).token_id != u32::MAX - 1,
        state(nn, done, agenda@), all_idx(hypotheses@, done), hypotheses@.len() < n, hypotheses@.len() == done.len(),
        todo(nn, e, agenda@) <= tree(nn, e, 1),
        tree(nn, e, 1) <= 100_000 ==> covers(nn, done + chains(agenda@)),
        sorting(nn, e, lenx) ==> ranked(nn, done, agenda@),
    decreases todo(nn, e, agenda@)
@body_start 1
    let ghost ag0 = agenda@;
    let ghost mut ag2 = agenda@;
@after_let top
    let ghost h = un(top); let ghost ag1 = agenda@;
    let ghost k = choose|k: int| popped(ag0, ag1, h, k);
    proof {
        lemma_good(nn, done, ag0, k);
        lemma_node(nn, lenx, ag0, ag1, h, k);
        lemma_todo_remove(nn, e, ag0, k);
        lemma_next(h);
        lemma_tree_pos(nn, e, h.node_idx as int);
    }
@after_let next
    proof { lemma_next(un(next)); assert(chain(h) =~= seq![0int] + lefts(hypothesis@) + chain(un(next))); }
@loop 2
    invariant chain(h) == seq![0int] + lefts(hypothesis@) + chain(un(next)),
    decreases chain(un(next)).len()
@body_start 2
    let ghost hs = hypothesis@; let ghost nx = un(next);
    proof { lemma_next(nx); }
@body_end 2
    proof { lemma_walk(chain(h), hs, nx.node_idx, chain(un(next))); }
@after 2
    proof {
        lemma_next(un(next));
        lemma_walked(chain(h), hypothesis@, next.node_idx as int);
        lemma_finish(nn, e, lenx, done, ag0, ag1, h, k);
        lemma_all_idx(hypotheses@, done, hypothesis, chain(h));
        done = done.push(chain(h));
    }
@before 3
    proof { lemma_listed_all(nn, lenx, done, agenda@, hypotheses@); }
@loop 3
    invariant __i3 <= __s3@.len(), __s3@ == hypotheses@, forall|i: int| 0 <= i < hypotheses@.len() ==> in_range((#[trigger] hypotheses@[i])@, nn.len() as int), __c3@.len() == __i3, self.nodes@ == nn, nodes_ok(nn, lenx), state(nn, done, agenda@), all_idx(hypotheses@, done), hypotheses@.len() == done.len(),
        forall|i: int| 0 <= i < __i3 ==> listing(nn, mid(done[i]), (#[trigger] __c3@[i])@),
@body_start 3
    proof { lemma_listed(nn, lenx, done, agenda@, hypotheses@, __v3 as int); }
@after 3
    proof { lemma_answer(o, nn, e, lenx, n as int, done, agenda@, __c3@); }
@before 4
    proof { lemma_tree(nn, e, lenx, node_idx as int); lemma_extended(nn, ag1, h, lefts(e[node_pos as int]@)); }
@loop 4
    invariant
        self.nodes@ == nn, e == self.end_nodes@, nodes_ok(nn, lenx), ends(nn, e), e.len() == lenx + 1, 0 <= node_pos <= lenx,
        h == un(top),
        __s4@ == e[node_pos as int]@, __i4 <= __s4@.len(),
        extended(nn, ag1, agenda@, h, lefts(__s4@), __i4 as int),
        todo(nn, e, agenda@) == todo(nn, e, ag1) + trees(nn, e, node_pos as int, __i4 as nat),
@body_start 4
    let ghost ag = agenda@;
    proof { lemma_tree_next(nn, e, lenx, node_pos as int, __v4 as int); }
@body_end 4
    proof {
        let x = agenda@.last();
        lemma_is_kid(nn, h, lnode as int, x);
        assert(agenda@ == ag.push(x));
        lemma_kid(nn, ag1, ag, h, lefts(__s4@), __v4 as int, x);
        lemma_todo_push(nn, e, ag, x);
    }
@after 4
    proof {
        ag2 = agenda@;
        lemma_expand(nn, e, lenx, done, ag0, ag1, ag2, h, k);
        lemma_todo_len(nn, e, ag2);
    }
@before 5
    proof { assert(new_agenda@ + agenda@ =~= ag2); lemma_todo_nil(nn, e, new_agenda@); }
@loop 5
    invariant
        __n5 == len, __n5 <= 512, __i5 <= __n5, ag2.len() > 100_000, agenda@.len() == ag2.len() - __i5,
        state(nn, done, new_agenda@ + agenda@), sorting(nn, e, lenx) ==> ranked(nn, done, new_agenda@ + agenda@),
        todo(nn, e, new_agenda@) + todo(nn, e, agenda@) == todo(nn, e, ag2),
@body_start 5
    let ghost a0 = new_agenda@; let ghost b0 = agenda@;
@body_end 5
    proof {
        let x = new_agenda@.last();
        assert(new_agenda@ =~= a0.push(x));
        let k = choose|k: int| popped(b0, agenda@, x, k);
        lemma_shrink(nn, e, done, a0, b0, agenda@, x, k);
    }
@after 5
    proof { lemma_shrunk(nn, done, new_agenda@, agenda@); }
@before 6
    proof { lemma_listed_all(nn, lenx, done, agenda@, hypotheses@); }
@loop 6
    invariant __i6 <= __s6@.len(), __s6@ == hypotheses@, forall|i: int| 0 <= i < hypotheses@.len() ==> in_range((#[trigger] hypotheses@[i])@, nn.len() as int), __c6@.len() == __i6, self.nodes@ == nn, nodes_ok(nn, lenx), state(nn, done, agenda@), all_idx(hypotheses@, done), hypotheses@.len() == done.len(),
        forall|i: int| 0 <= i < __i6 ==> listing(nn, mid(done[i]), (#[trigger] __c6@[i])@),
@body_start 6
    proof { lemma_listed(nn, lenx, done, agenda@, hypotheses@, __v6 as int); }
@after 6
    proof { lemma_answer(o, nn, e, lenx, n as int, done, agenda@, __c6@); }
