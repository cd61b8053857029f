@module marginal src/lattice.rs
@opaque Lattice::viterbi
@opaque Lattice::wf
@spec
use crate::shim::*;
use crate::toks::*;
use crate::populate::exact;
use crate::model::piece;
use crate::lattice::{Lattice, Node, lemma_wf, lemma_bos, nodes_ok, begins, ends, end};
broadcast use crate::shim::group_vx;
broadcast use crate::lattice::fl::group_fl;

pub open spec fn ids_below(nodes: Seq<Node>, n: int) -> bool { forall|i: int| 2 <= i < nodes.len() ==> (#[trigger] nodes[i]).token_id < n }

// ---- sums over the segmentations of a prefix and of a suffix
/// exp(score) of a token
pub open spec fn w(ns: Seq<Node>, i: int) -> real { expr(rv(ns[i].score)) }
/// sum over the segmentations of the first p bytes of the product of the w
pub open spec fn fwd(ns: Seq<Node>, e: Seq<Vec<usize>>, p: int) -> real decreases p, 1int, 0int { fwd_k(ns, e, p, e[p]@.len() as int) }
/// the same, when the last token is one of the first k that end at p
pub open spec fn fwd_k(ns: Seq<Node>, e: Seq<Vec<usize>>, p: int, k: int) -> real decreases p, 0int, k {
    if k <= 0 { 0real } else {
        let x = e[p]@[k - 1] as int;
        fwd_k(ns, e, p, k - 1) + (if x == 0 { 1real } else if ns[x].pos < p { fwd(ns, e, ns[x].pos as int) * w(ns, x) } else { 0real })
    }
}
/// sum over the segmentations of the bytes from p on
pub open spec fn bwd(ns: Seq<Node>, b: Seq<Vec<usize>>, n: int, p: int) -> real decreases n - p, 1int, 0int { bwd_k(ns, b, n, p, b[p]@.len() as int) }
pub open spec fn bwd_k(ns: Seq<Node>, b: Seq<Vec<usize>>, n: int, p: int, k: int) -> real decreases n - p, 0int, k {
    if k <= 0 { 0real } else {
        let x = b[p]@[k - 1] as int;
        bwd_k(ns, b, n, p, k - 1) + (if x == 1 { 1real } else if p < end(ns[x]) <= n { w(ns, x) * bwd(ns, b, n, end(ns[x])) } else { 0real })
    }
}
/// every position is reached
pub open spec fn covered(b: Seq<Vec<usize>>, e: Seq<Vec<usize>>, n: int) -> bool { forall|p: int| 0 <= p <= n ==> (#[trigger] b[p])@.len() > 0 && e[p]@.len() > 0 }
/// share of the segmentations that go through node x
pub open spec fn share(ns: Seq<Node>, b: Seq<Vec<usize>>, e: Seq<Vec<usize>>, n: int, x: int) -> real { fwd(ns, e, ns[x].pos as int) * w(ns, x) * bwd(ns, b, n, end(ns[x])) / fwd(ns, e, n) }
/// sum of the shares of the occurrences of a token that begin before p ...
pub open spec fn uses(ns: Seq<Node>, b: Seq<Vec<usize>>, e: Seq<Vec<usize>>, n: int, id: int, p: int) -> real decreases p { if p <= 0 { 0real } else { uses(ns, b, e, n, id, p - 1) + uses_k(ns, b, e, n, id, p - 1, b[p - 1]@.len() as int) } }
/// ... and that are among the first k at p
pub open spec fn uses_k(ns: Seq<Node>, b: Seq<Vec<usize>>, e: Seq<Vec<usize>>, n: int, id: int, p: int, k: int) -> real decreases k {
    if k <= 0 { 0real } else { let x = b[p]@[k - 1] as int; uses_k(ns, b, e, n, id, p, k - 1) + (if ns[x].token_id == id { share(ns, b, e, n, x) } else { 0real }) }
}
pub proof fn lemma_fwd_pos(ns: Seq<Node>, b: Seq<Vec<usize>>, e: Seq<Vec<usize>>, n: int, p: int)
    requires nodes_ok(ns, n), ends(ns, e), e.len() == n + 1, covered(b, e, n), 0 <= p <= n
    ensures fwd(ns, e, p) > 0real
    decreases p, 1int, 0int
{ assert(b[p]@.len() > 0); lemma_fwd_k_pos(ns, b, e, n, p, e[p]@.len() as int); }
pub proof fn lemma_fwd_k_pos(ns: Seq<Node>, b: Seq<Vec<usize>>, e: Seq<Vec<usize>>, n: int, p: int, k: int)
    requires nodes_ok(ns, n), ends(ns, e), e.len() == n + 1, covered(b, e, n), 0 <= p <= n, 0 <= k <= e[p]@.len()
    ensures fwd_k(ns, e, p, k) >= 0real, k > 0 ==> fwd_k(ns, e, p, k) > 0real
    decreases p, 0int, k
{
    if k > 0 {
        lemma_fwd_k_pos(ns, b, e, n, p, k - 1);
        let x = e[p]@[k - 1] as int;
        if x != 0 { lemma_fwd_pos(ns, b, e, n, ns[x].pos as int); ax_exp(rv(ns[x].score), 0real); lemma_mul_pos(fwd(ns, e, ns[x].pos as int), w(ns, x)); }
    }
}
pub proof fn lemma_bwd_pos(ns: Seq<Node>, b: Seq<Vec<usize>>, e: Seq<Vec<usize>>, n: int, p: int)
    requires nodes_ok(ns, n), begins(ns, b), b.len() == n + 1, covered(b, e, n), 0 <= p <= n
    ensures bwd(ns, b, n, p) > 0real
    decreases n - p, 1int, 0int
{ assert(b[p]@.len() > 0); lemma_bwd_k_pos(ns, b, e, n, p, b[p]@.len() as int); }
pub proof fn lemma_bwd_k_pos(ns: Seq<Node>, b: Seq<Vec<usize>>, e: Seq<Vec<usize>>, n: int, p: int, k: int)
    requires nodes_ok(ns, n), begins(ns, b), b.len() == n + 1, covered(b, e, n), 0 <= p <= n, 0 <= k <= b[p]@.len()
    ensures bwd_k(ns, b, n, p, k) >= 0real, k > 0 ==> bwd_k(ns, b, n, p, k) > 0real
    decreases n - p, 0int, k
{
    if k > 0 {
        lemma_bwd_k_pos(ns, b, e, n, p, k - 1);
        let x = b[p]@[k - 1] as int;
        if x != 1 { lemma_bwd_pos(ns, b, e, n, end(ns[x])); ax_exp(rv(ns[x].score), 0real); lemma_mul_pos(w(ns, x), bwd(ns, b, n, end(ns[x]))); }
    }
}
pub proof fn lemma_mul_pos(a: real, b: real) by(nonlinear_arith) requires a > 0real, b > 0real ensures a * b > 0real {}
/// ln(x) + s is ln(x * exp(s))
pub proof fn lemma_log_mul(x: real, s: real) requires x > 0real ensures s + lnr(x) == lnr(x * expr(s)), lnr(x) + s == lnr(x * expr(s)), x * expr(s) > 0real
{ ax_exp(lnr(x), s); ax_ln(x); ax_ln(lnr(x) + s); ax_exp(s, 0real); lemma_mul_pos(x, expr(s)); }
/// the sum of two numbers given by their logarithms
pub open spec fn adds(r: f64, x: f64, y: f64, init: bool) -> bool {
    if init { r == y } else { forall|a: real, b: real| #[trigger] apx(x, a) && #[trigger] apx(y, b) ==> apx(r, lnr(expr(a) + expr(b))) }
}
pub proof fn lemma_adds(r: f64, x: f64, y: f64, init: bool, a: real, b: real)
    requires adds(r, x, y, init), !init ==> apx(x, lnr(a)) && a > 0real, init ==> a == 0real, apx(y, lnr(b)), b > 0real
    ensures apx(r, lnr(a + b)), a + b > 0real
{ ax_ln(a); ax_ln(b); if !init { assert(apx(x, lnr(a)) && apx(y, lnr(b))); } else { assert(a + b == b); } }
pub proof fn lemma_term(s: f64, v: f64, x: real) requires apx(v, lnr(x)), x > 0real ensures apx(fadd(s, v), lnr(x * expr(rv(s)))), x * expr(rv(s)) > 0real
{ ax_rv(s); ax_apx_add(s, rv(s), v, lnr(x)); lemma_log_mul(x, rv(s)); }

pub open spec fn fwd_done(ns: Seq<Node>, e: Seq<Vec<usize>>, al: Seq<f64>, i: int) -> bool { apx(al[i], lnr(fwd(ns, e, ns[i].pos as int))) }
/// the nodes that begin before p
pub open spec fn fwd_below(ns: Seq<Node>, e: Seq<Vec<usize>>, al: Seq<f64>, p: int) -> bool { al.len() == ns.len() && al[0] == 0.0f64 && forall|i: int| 1 <= i < ns.len() && (#[trigger] ns[i]).pos < p ==> fwd_done(ns, e, al, i) }
pub open spec fn fwd_row(ns: Seq<Node>, b: Seq<Vec<usize>>, e: Seq<Vec<usize>>, al: Seq<f64>, p: int, j: int) -> bool { forall|i: int| 0 <= i < j ==> fwd_done(ns, e, al, #[trigger] b[p]@[i] as int) }
pub open spec fn bwd_done(ns: Seq<Node>, b: Seq<Vec<usize>>, n: int, be: Seq<f64>, i: int) -> bool { apx(be[i], lnr(bwd(ns, b, n, end(ns[i])))) }
/// the nodes that end after p
pub open spec fn bwd_above(ns: Seq<Node>, b: Seq<Vec<usize>>, n: int, be: Seq<f64>, p: int) -> bool { be.len() == ns.len() && be[1] == 0.0f64 && forall|i: int| 0 <= i < ns.len() && i != 1 && end(#[trigger] ns[i]) > p ==> bwd_done(ns, b, n, be, i) }
pub open spec fn bwd_row(ns: Seq<Node>, b: Seq<Vec<usize>>, e: Seq<Vec<usize>>, n: int, be: Seq<f64>, p: int, j: int) -> bool { forall|i: int| 0 <= i < j ==> bwd_done(ns, b, n, be, #[trigger] e[p]@[i] as int) }

pub proof fn lemma_zero() ensures apx(0.0f64, lnr(1real)) { ax_rv(0.0f64); ax_exp(0real, 0real); ax_ln(0real); }
/// one step of the forward pass
pub proof fn lemma_fwd_step(ns: Seq<Node>, b: Seq<Vec<usize>>, e: Seq<Vec<usize>>, n: int, al: Seq<f64>, p: int, j: int, k: int, r: f64)
    requires nodes_ok(ns, n), begins(ns, b), ends(ns, e), b.len() == n + 1, e.len() == n + 1, covered(b, e, n), 0 <= p <= n, 0 <= j < b[p]@.len(), 0 <= k < e[p]@.len(),
        fwd_below(ns, e, al, p), fwd_row(ns, b, e, al, p, j), k > 0 ==> apx(al[b[p]@[j] as int], lnr(fwd_k(ns, e, p, k))),
        adds(r, al[b[p]@[j] as int], fadd(ns[e[p]@[k] as int].score, al[e[p]@[k] as int]), k == 0),
    ensures ({ let a2 = al.update(b[p]@[j] as int, r); fwd_below(ns, e, a2, p) && fwd_row(ns, b, e, a2, p, j) && apx(a2[b[p]@[j] as int], lnr(fwd_k(ns, e, p, k + 1))) })
{
    let x = e[p]@[k] as int; let i = b[p]@[j] as int; let a2 = al.update(i, r); let s = ns[x].score;
    let t = if x == 0 { 1real } else { fwd(ns, e, ns[x].pos as int) * w(ns, x) };
    if x == 0 { lemma_zero(); lemma_term(s, al[0], 1real); ax_rv(0.0f64); ax_exp(0real, 0real); }
    else { assert(ns[x].pos < p); assert(fwd_done(ns, e, al, x)); lemma_fwd_pos(ns, b, e, n, ns[x].pos as int); lemma_term(s, al[x], fwd(ns, e, ns[x].pos as int)); }
    lemma_fwd_k_pos(ns, b, e, n, p, k);
    lemma_adds(r, al[i], fadd(s, al[x]), k == 0, fwd_k(ns, e, p, k), t);
    assert(fwd_k(ns, e, p, k + 1) == fwd_k(ns, e, p, k) + t);
    assert forall|m: int| 1 <= m < ns.len() && (#[trigger] ns[m]).pos < p implies fwd_done(ns, e, a2, m) by { assert(m != i); assert(fwd_done(ns, e, al, m)); }
    assert forall|m: int| 0 <= m < j implies fwd_done(ns, e, a2, #[trigger] b[p]@[m] as int) by { assert(b[p]@[m] != b[p]@[j]); assert(fwd_done(ns, e, al, b[p]@[m] as int)); }
}
pub proof fn lemma_fwd_row(ns: Seq<Node>, b: Seq<Vec<usize>>, e: Seq<Vec<usize>>, al: Seq<f64>, n: int, p: int, j: int)
    requires 0 <= p <= n, b.len() == n + 1, begins(ns, b), fwd_row(ns, b, e, al, p, j), 0 <= j < b[p]@.len(), apx(al[b[p]@[j] as int], lnr(fwd_k(ns, e, p, e[p]@.len() as int)))
    ensures fwd_row(ns, b, e, al, p, j + 1)
{}
pub proof fn lemma_fwd_next(ns: Seq<Node>, b: Seq<Vec<usize>>, e: Seq<Vec<usize>>, n: int, al: Seq<f64>, p: int)
    requires nodes_ok(ns, n), begins(ns, b), b.len() == n + 1, 0 <= p <= n, fwd_below(ns, e, al, p), fwd_row(ns, b, e, al, p, b[p]@.len() as int)
    ensures fwd_below(ns, e, al, p + 1)
{
    assert forall|i: int| 1 <= i < ns.len() && (#[trigger] ns[i]).pos < p + 1 implies fwd_done(ns, e, al, i) by {
        if ns[i].pos == p { let u = i as usize; assert(b[ns[u as int].pos as int]@.contains(u)); let m = choose|m: int| 0 <= m < b[p]@.len() && b[p]@[m] == u; assert(fwd_done(ns, e, al, b[p]@[m] as int)); }
    }
}
pub proof fn lemma_bwd_step(ns: Seq<Node>, b: Seq<Vec<usize>>, e: Seq<Vec<usize>>, n: int, be: Seq<f64>, p: int, j: int, k: int, r: f64)
    requires nodes_ok(ns, n), begins(ns, b), ends(ns, e), b.len() == n + 1, e.len() == n + 1, covered(b, e, n), 0 <= p <= n, 0 <= j < e[p]@.len(), 0 <= k < b[p]@.len(),
        bwd_above(ns, b, n, be, p), bwd_row(ns, b, e, n, be, p, j), k > 0 ==> apx(be[e[p]@[j] as int], lnr(bwd_k(ns, b, n, p, k))),
        adds(r, be[e[p]@[j] as int], fadd(ns[b[p]@[k] as int].score, be[b[p]@[k] as int]), k == 0),
    ensures ({ let b2 = be.update(e[p]@[j] as int, r); bwd_above(ns, b, n, b2, p) && bwd_row(ns, b, e, n, b2, p, j) && apx(b2[e[p]@[j] as int], lnr(bwd_k(ns, b, n, p, k + 1))) })
{
    let x = b[p]@[k] as int; let i = e[p]@[j] as int; let b2 = be.update(i, r); let s = ns[x].score;
    let t = if x == 1 { 1real } else { w(ns, x) * bwd(ns, b, n, end(ns[x])) };
    if x == 1 { lemma_zero(); lemma_term(s, be[1], 1real); ax_rv(0.0f64); ax_exp(0real, 0real); }
    else { assert(end(ns[x]) > p); assert(bwd_done(ns, b, n, be, x)); lemma_bwd_pos(ns, b, e, n, end(ns[x])); lemma_term(s, be[x], bwd(ns, b, n, end(ns[x]))); lemma_comm(w(ns, x), bwd(ns, b, n, end(ns[x]))); }
    lemma_bwd_k_pos(ns, b, e, n, p, k);
    lemma_adds(r, be[i], fadd(s, be[x]), k == 0, bwd_k(ns, b, n, p, k), t);
    assert(bwd_k(ns, b, n, p, k + 1) == bwd_k(ns, b, n, p, k) + t);
    assert forall|m: int| 0 <= m < ns.len() && m != 1 && end(#[trigger] ns[m]) > p implies bwd_done(ns, b, n, b2, m) by { assert(m != i); assert(bwd_done(ns, b, n, be, m)); }
    assert forall|m: int| 0 <= m < j implies bwd_done(ns, b, n, b2, #[trigger] e[p]@[m] as int) by { assert(e[p]@[m] != e[p]@[j]); assert(bwd_done(ns, b, n, be, e[p]@[m] as int)); }
}
pub proof fn lemma_comm(a: real, b: real) by(nonlinear_arith) ensures a * b == b * a {}
pub proof fn lemma_bwd_row(ns: Seq<Node>, b: Seq<Vec<usize>>, e: Seq<Vec<usize>>, be: Seq<f64>, n: int, p: int, j: int)
    requires 0 <= p <= n, e.len() == n + 1, ends(ns, e), bwd_row(ns, b, e, n, be, p, j), 0 <= j < e[p]@.len(), apx(be[e[p]@[j] as int], lnr(bwd_k(ns, b, n, p, b[p]@.len() as int)))
    ensures bwd_row(ns, b, e, n, be, p, j + 1)
{}
pub proof fn lemma_bwd_next(ns: Seq<Node>, b: Seq<Vec<usize>>, e: Seq<Vec<usize>>, n: int, be: Seq<f64>, p: int)
    requires nodes_ok(ns, n), ends(ns, e), e.len() == n + 1, 0 <= p <= n, bwd_above(ns, b, n, be, p), bwd_row(ns, b, e, n, be, p, e[p]@.len() as int)
    ensures bwd_above(ns, b, n, be, p - 1)
{
    assert forall|i: int| 0 <= i < ns.len() && i != 1 && end(#[trigger] ns[i]) > p - 1 implies bwd_done(ns, b, n, be, i) by {
        if end(ns[i]) == p { let u = i as usize; assert(e[end(ns[u as int])]@.contains(u)); let m = choose|m: int| 0 <= m < e[p]@.len() && e[p]@[m] == u; assert(bwd_done(ns, b, n, be, e[p]@[m] as int)); }
    }
}
/// exp(ln f + s + ln b - ln z)
pub proof fn lemma_share(a: f64, s: f64, bb: f64, z: f64, f: real, g: real, zz: real) 
    requires apx(a, lnr(f)), apx(bb, lnr(g)), apx(z, lnr(zz)), f > 0real, g > 0real, zz > 0real
    ensures apx(fexp(fsub(fadd(fadd(a, s), bb), z)), f * expr(rv(s)) * g / zz)
{
    let c = rv(s); let t = lnr(f) + c + lnr(g) - lnr(zz);
    ax_rv(s); ax_apx_add(a, lnr(f), s, c); ax_apx_add(fadd(a, s), lnr(f) + c, bb, lnr(g)); ax_apx_sub(fadd(fadd(a, s), bb), lnr(f) + c + lnr(g), z, lnr(zz));
    ax_apx_exp(fsub(fadd(fadd(a, s), bb), z), t);
    ax_ln(f); ax_ln(g); ax_ln(zz); ax_exp(lnr(f), c); ax_exp(lnr(f) + c, lnr(g)); ax_exp(t, lnr(zz));
    assert(t + lnr(zz) == lnr(f) + c + lnr(g));
    lemma_div(expr(t), f * expr(c) * g, zz);
}
pub proof fn lemma_div(q: real, x: real, z: real) by(nonlinear_arith) requires q * z == x, z > 0real ensures q == x / z {}

/// expectations when the occurrences that begin before p, and the first k at p, are counted
pub open spec fn counted(ns: Seq<Node>, b: Seq<Vec<usize>>, e: Seq<Vec<usize>>, n: int, ex0: Seq<f64>, ex: Seq<f64>, p: int, k: int) -> bool {
    &&& ex.len() == ex0.len()
    &&& forall|id: int| 0 <= id < ex.len() ==> #[trigger] apx(ex[id], rv(ex0[id]) + uses(ns, b, e, n, id, p) + uses_k(ns, b, e, n, id, p, k))
}
/// the tokens that do not occur keep theirs
pub open spec fn untouched(ns: Seq<Node>, ex0: Seq<f64>, ex: Seq<f64>) -> bool { forall|id: int| 0 <= id < ex.len() && ex[id] != ex0[id] ==> exists|i: int| 2 <= i < ns.len() && (#[trigger] ns[i]).token_id == id }
pub proof fn lemma_counted_start(ns: Seq<Node>, b: Seq<Vec<usize>>, e: Seq<Vec<usize>>, n: int, ex: Seq<f64>) ensures counted(ns, b, e, n, ex, ex, 0, 0), untouched(ns, ex, ex)
{ assert forall|id: int| 0 <= id < ex.len() implies #[trigger] apx(ex[id], rv(ex[id]) + uses(ns, b, e, n, id, 0) + uses_k(ns, b, e, n, id, 0, 0)) by { ax_rv(ex[id]); assert(uses(ns, b, e, n, id, 0) == 0real); assert(uses_k(ns, b, e, n, id, 0, 0) == 0real); assert(rv(ex[id]) + 0real + 0real == rv(ex[id])); } }
pub proof fn lemma_counted_next(ns: Seq<Node>, b: Seq<Vec<usize>>, e: Seq<Vec<usize>>, n: int, ex0: Seq<f64>, ex: Seq<f64>, p: int)
    requires 0 <= p < b.len(), counted(ns, b, e, n, ex0, ex, p, b[p]@.len() as int) ensures counted(ns, b, e, n, ex0, ex, p + 1, 0)
{ assert forall|id: int| 0 <= id < ex.len() implies #[trigger] apx(ex[id], rv(ex0[id]) + uses(ns, b, e, n, id, p + 1) + uses_k(ns, b, e, n, id, p + 1, 0)) by { 
    let l = b[p]@.len() as int; let u = uses(ns, b, e, n, id, p); let c = uses_k(ns, b, e, n, id, p, l); let r0 = rv(ex0[id]);
    assert(apx(ex[id], r0 + u + c)); assert(uses(ns, b, e, n, id, p + 1) == u + c); assert(uses_k(ns, b, e, n, id, p + 1, 0) == 0real); assert(r0 + (u + c) + 0real == r0 + u + c); } }
pub proof fn lemma_counted_step(ns: Seq<Node>, b: Seq<Vec<usize>>, e: Seq<Vec<usize>>, n: int, ex0: Seq<f64>, ex: Seq<f64>, p: int, k: int, y: f64)
    requires nodes_ok(ns, n), begins(ns, b), b.len() == n + 1, ids_below(ns, ex.len() as int), 0 <= p < n, 0 <= k < b[p]@.len(), counted(ns, b, e, n, ex0, ex, p, k), untouched(ns, ex0, ex), apx(y, share(ns, b, e, n, b[p]@[k] as int))
    ensures ({ let id = ns[b[p]@[k] as int].token_id as int; let e2 = ex.update(id, fadd(ex[id], y)); 0 <= id < ex.len() && counted(ns, b, e, n, ex0, e2, p, k + 1) && untouched(ns, ex0, e2) })
{
    let x = b[p]@[k] as int; let z = ns[x].token_id as int; let e2 = ex.update(z, fadd(ex[z], y));
    assert(x != 1) by { assert(ns[x].pos == p); }
    assert forall|id: int| 0 <= id < e2.len() implies #[trigger] apx(e2[id], rv(ex0[id]) + uses(ns, b, e, n, id, p) + uses_k(ns, b, e, n, id, p, k + 1)) by {
        let u = uses(ns, b, e, n, id, p); let c = uses_k(ns, b, e, n, id, p, k); let r0 = rv(ex0[id]); let h = share(ns, b, e, n, x);
        assert(apx(ex[id], r0 + u + c));
        if id == z { ax_apx_add(ex[z], r0 + u + c, y, h); assert(uses_k(ns, b, e, n, id, p, k + 1) == c + h); assert(r0 + u + (c + h) == r0 + u + c + h); }
        else { assert(uses_k(ns, b, e, n, id, p, k + 1) == c + 0real); assert(c + 0real == c); }
    }
    assert forall|id: int| 0 <= id < e2.len() && e2[id] != ex0[id] implies exists|i: int| 2 <= i < ns.len() && (#[trigger] ns[i]).token_id == id by { if id == z { assert(ns[x].token_id == id); } else { assert(ex[id] != ex0[id]); } }
}
/// what the marginals are
pub open spec fn marginals(ns: Seq<Node>, b: Seq<Vec<usize>>, e: Seq<Vec<usize>>, n: int, ex0: Seq<f64>, ex: Seq<f64>, z: f64) -> bool {
    &&& apx(z, lnr(fwd(ns, e, n)))
    &&& forall|id: int| 0 <= id < ex.len() ==> #[trigger] apx(ex[id], rv(ex0[id]) + uses(ns, b, e, n, id, n))
}
pub proof fn lemma_marginals(ns: Seq<Node>, b: Seq<Vec<usize>>, e: Seq<Vec<usize>>, n: int, ex0: Seq<f64>, ex: Seq<f64>, z: f64) requires counted(ns, b, e, n, ex0, ex, n, 0), apx(z, lnr(fwd(ns, e, n))) ensures marginals(ns, b, e, n, ex0, ex, z)
{ assert forall|id: int| 0 <= id < ex.len() implies #[trigger] apx(ex[id], rv(ex0[id]) + uses(ns, b, e, n, id, n)) by { let u = rv(ex0[id]) + uses(ns, b, e, n, id, n); assert(apx(ex[id], u + uses_k(ns, b, e, n, id, n, 0))); assert(uses_k(ns, b, e, n, id, n, 0) == 0real); assert(u + 0real == u); } }
/// a node's share, computed
pub proof fn lemma_update(ns: Seq<Node>, b: Seq<Vec<usize>>, e: Seq<Vec<usize>>, n: int, al: Seq<f64>, be: Seq<f64>, z: f64, p: int, k: int)
    requires nodes_ok(ns, n), begins(ns, b), ends(ns, e), b.len() == n + 1, e.len() == n + 1, covered(b, e, n), 0 <= p < n, 0 <= k < b[p]@.len(), fwd_below(ns, e, al, n + 1), bwd_above(ns, b, n, be, -1), apx(z, lnr(fwd(ns, e, n)))
    ensures ({ let x = b[p]@[k] as int; apx(fexp(fsub(fadd(fadd(al[x], ns[x].score), be[x]), z)), share(ns, b, e, n, x)) })
{
    let x = b[p]@[k] as int;
    assert(x != 1) by { assert(ns[x].pos == p); }
    assert(fwd_done(ns, e, al, x)); assert(bwd_done(ns, b, n, be, x));
    lemma_fwd_pos(ns, b, e, n, p); lemma_bwd_pos(ns, b, e, n, end(ns[x])); lemma_fwd_pos(ns, b, e, n, n);
    lemma_share(al[x], ns[x].score, be[x], z, fwd(ns, e, p), bwd(ns, b, n, end(ns[x])), fwd(ns, e, n));
}
pub open spec fn lse(mx: f64, mn: f64) -> f64 { fadd(mx, fln(fadd(fexp(fsub(mn, mx)), 1.0f64))) }
pub proof fn lemma_lse(mx: f64, mn: f64, a: real, b: real) requires apx(mx, a), apx(mn, b) ensures apx(lse(mx, mn), lnr(expr(a) + expr(b))), flt(fadd(mn, 50.0f64), mx) ==> apx(mx, lnr(expr(a) + expr(b)))
{
    let d = expr(b - a) + 1real;
    ax_rv(1.0f64); ax_apx_negligible(mx, a, mn, b); ax_apx_sub(mn, b, mx, a); ax_apx_exp(fsub(mn, mx), b - a); ax_apx_add(fexp(fsub(mn, mx)), expr(b - a), 1.0f64, 1real);
    ax_exp(b - a, a); ax_exp(a, 0real);
    ax_apx_ln(fadd(fexp(fsub(mn, mx)), 1.0f64), d);
    ax_apx_add(mx, a, fln(fadd(fexp(fsub(mn, mx)), 1.0f64)), lnr(d));
    ax_exp(a, lnr(d)); ax_ln(d); ax_ln(a + lnr(d));
    assert(b - a + a == b);
    lemma_distr(expr(b - a), expr(a), expr(b));
    assert(expr(a + lnr(d)) == expr(a) + expr(b));
}
pub proof fn lemma_distr(u: real, a: real, b: real) by(nonlinear_arith) requires u * a == b ensures a * (u + 1real) == a + b {}
pub proof fn lemma_log_sum_exp(x: f64, y: f64)
    ensures forall|a: real, b: real| #[trigger] apx(x, a) && #[trigger] apx(y, b) ==> apx(lse(x, y), lnr(expr(a) + expr(b))) && apx(lse(y, x), lnr(expr(a) + expr(b))) && (flt(fadd(y, 50.0f64), x) ==> apx(x, lnr(expr(a) + expr(b)))) && (flt(fadd(x, 50.0f64), y) ==> apx(y, lnr(expr(a) + expr(b))))
{
    assert forall|a: real, b: real| #[trigger] apx(x, a) && #[trigger] apx(y, b) implies apx(lse(x, y), lnr(expr(a) + expr(b))) && apx(lse(y, x), lnr(expr(a) + expr(b))) && (flt(fadd(y, 50.0f64), x) ==> apx(x, lnr(expr(a) + expr(b)))) && (flt(fadd(x, 50.0f64), y) ==> apx(y, lnr(expr(a) + expr(b)))) by {
        lemma_lse(x, y, a, b); lemma_lse(y, x, b, a); assert(expr(b) + expr(a) == expr(a) + expr(b));
    }
}
pub proof fn lemma_fwd_start(ns: Seq<Node>, e: Seq<Vec<usize>>, al: Seq<f64>) requires ns.len() >= 2, al.len() == ns.len(), forall|i: int| 0 <= i < al.len() ==> #[trigger] al[i] == 0.0f64 ensures fwd_below(ns, e, al, 0) {}
pub proof fn lemma_bwd_start(ns: Seq<Node>, b: Seq<Vec<usize>>, n: int, be: Seq<f64>) requires nodes_ok(ns, n), be.len() == ns.len(), forall|i: int| 0 <= i < be.len() ==> #[trigger] be[i] == 0.0f64 ensures bwd_above(ns, b, n, be, n) {}
pub proof fn lemma_fwd_row_start(ns: Seq<Node>, b: Seq<Vec<usize>>, e: Seq<Vec<usize>>, al: Seq<f64>, p: int) ensures fwd_row(ns, b, e, al, p, 0) {}
pub proof fn lemma_bwd_row_start(ns: Seq<Node>, b: Seq<Vec<usize>>, e: Seq<Vec<usize>>, n: int, be: Seq<f64>, p: int) ensures bwd_row(ns, b, e, n, be, p, 0) {}
pub proof fn lemma_covered_at(b: Seq<Vec<usize>>, e: Seq<Vec<usize>>, n: int, p: int) requires covered(b, e, n), 0 <= p <= n ensures b[p]@.len() > 0, e[p]@.len() > 0 { assert(b[p]@.len() > 0); }
pub proof fn lemma_z(ns: Seq<Node>, e: Seq<Vec<usize>>, n: int, al: Seq<f64>) requires nodes_ok(ns, n), fwd_below(ns, e, al, n + 1) ensures apx(al[1], lnr(fwd(ns, e, n))) { assert(ns[1].pos == n); assert(fwd_done(ns, e, al, 1)); }

// ---- fwd is the sum over all segmentations (C18)
pub open spec fn each(l: Seq<Seq<int>>, x: int) -> Seq<Seq<int>> { Seq::new(l.len(), |i: int| l[i].push(x)) }
/// the segmentations of the first p bytes, as lists of nodes
pub open spec fn all_to(ns: Seq<Node>, e: Seq<Vec<usize>>, p: int) -> Seq<Seq<int>> decreases p, 1int, 0int { all_k(ns, e, p, e[p]@.len() as int) }
pub open spec fn all_k(ns: Seq<Node>, e: Seq<Vec<usize>>, p: int, k: int) -> Seq<Seq<int>> decreases p, 0int, k {
    if k <= 0 { Seq::empty() } else {
        let x = e[p]@[k - 1] as int;
        all_k(ns, e, p, k - 1) + (if x == 0 { seq![Seq::<int>::empty()] } else if ns[x].pos < p { each(all_to(ns, e, ns[x].pos as int), x) } else { Seq::empty() })
    }
}
/// tokens that follow one another from the start up to byte p
pub open spec fn chain(ns: Seq<Node>, c: Seq<int>, p: int) -> bool decreases c.len() {
    if c.len() == 0 { p == 0 } else { 2 <= c.last() < ns.len() && end(ns[c.last()]) == p && chain(ns, c.drop_last(), ns[c.last()].pos as int) }
}
/// exp(total score)
pub open spec fn wt(ns: Seq<Node>, c: Seq<int>) -> real decreases c.len() { if c.len() == 0 { 1real } else { wt(ns, c.drop_last()) * w(ns, c.last()) } }
pub open spec fn total_score(ns: Seq<Node>, c: Seq<int>) -> real decreases c.len() { if c.len() == 0 { 0real } else { total_score(ns, c.drop_last()) + rv(ns[c.last()].score) } }
pub proof fn lemma_wt(ns: Seq<Node>, c: Seq<int>) ensures wt(ns, c) == expr(total_score(ns, c)) decreases c.len()
{ ax_exp(0real, 0real); if c.len() > 0 { lemma_wt(ns, c.drop_last()); ax_exp(total_score(ns, c.drop_last()), rv(ns[c.last()].score)); } }
pub open spec fn total(ns: Seq<Node>, l: Seq<Seq<int>>) -> real decreases l.len() { if l.len() == 0 { 0real } else { total(ns, l.drop_last()) + wt(ns, l.last()) } }
pub proof fn lemma_total_add(ns: Seq<Node>, a: Seq<Seq<int>>, b: Seq<Seq<int>>) ensures total(ns, a + b) == total(ns, a) + total(ns, b) decreases b.len()
{ if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_total_add(ns, a, b.drop_last()); } }
pub proof fn lemma_total_each(ns: Seq<Node>, l: Seq<Seq<int>>, x: int) ensures total(ns, each(l, x)) == total(ns, l) * w(ns, x) decreases l.len()
{
    let m = each(l, x);
    if l.len() > 0 {
        assert(m.drop_last() =~= each(l.drop_last(), x)); lemma_total_each(ns, l.drop_last(), x);
        assert(m.last() == l.last().push(x)); assert(l.last().push(x).drop_last() =~= l.last());
        lemma_distr2(total(ns, l.drop_last()), wt(ns, l.last()), w(ns, x));
    } else { lemma_comm(0real, w(ns, x)); }
}
pub proof fn lemma_distr2(a: real, b: real, c: real) by(nonlinear_arith) ensures (a + b) * c == a * c + b * c {}
pub proof fn lemma_fwd_total(ns: Seq<Node>, e: Seq<Vec<usize>>, p: int) ensures fwd(ns, e, p) == total(ns, all_to(ns, e, p)) decreases p, 1int, 0int
{ lemma_fwd_k_total(ns, e, p, e[p]@.len() as int); }
pub proof fn lemma_fwd_k_total(ns: Seq<Node>, e: Seq<Vec<usize>>, p: int, k: int) ensures fwd_k(ns, e, p, k) == total(ns, all_k(ns, e, p, k)) decreases p, 0int, k
{
    if k > 0 {
        let x = e[p]@[k - 1] as int;
        lemma_fwd_k_total(ns, e, p, k - 1);
        let t = if x == 0 { seq![Seq::<int>::empty()] } else if ns[x].pos < p { each(all_to(ns, e, ns[x].pos as int), x) } else { Seq::empty() };
        lemma_total_add(ns, all_k(ns, e, p, k - 1), t);
        if x == 0 { assert(t.drop_last() =~= Seq::<Seq<int>>::empty()); assert(total(ns, t.drop_last()) == 0real); assert(wt(ns, t.last()) == 1real); }
        else if ns[x].pos < p { lemma_fwd_total(ns, e, ns[x].pos as int); lemma_total_each(ns, all_to(ns, e, ns[x].pos as int), x); }
    }
}
/// every segmentation, once
pub open spec fn lists(ns: Seq<Node>, l: Seq<Seq<int>>, p: int) -> bool { l.no_duplicates() && forall|c: Seq<int>| #[trigger] l.contains(c) <==> chain(ns, c, p) }
pub proof fn lemma_each(l: Seq<Seq<int>>, x: int, c: Seq<int>) ensures each(l, x).contains(c) <==> (c.len() > 0 && c.last() == x && l.contains(c.drop_last())), l.no_duplicates() ==> each(l, x).no_duplicates()
{
    let m = each(l, x);
    if m.contains(c) { let i = choose|i: int| 0 <= i < m.len() && m[i] == c; assert(c == l[i].push(x)); assert(c.drop_last() =~= l[i]); }
    if c.len() > 0 && c.last() == x && l.contains(c.drop_last()) { let i = choose|i: int| 0 <= i < l.len() && l[i] == c.drop_last(); assert(m[i] =~= c); assert(m.contains(c)); }
    if l.no_duplicates() { assert forall|i: int, j: int| 0 <= i < m.len() && 0 <= j < m.len() && i != j implies m[i] != m[j] by { assert(m[i].drop_last() =~= l[i]); assert(m[j].drop_last() =~= l[j]); assert(l[i] != l[j]); } }
}
pub proof fn lemma_add_lists(a: Seq<Seq<int>>, b: Seq<Seq<int>>, c: Seq<int>) ensures (a + b).contains(c) <==> a.contains(c) || b.contains(c)
{
    let m = a + b;
    if m.contains(c) { let i = choose|i: int| 0 <= i < m.len() && m[i] == c; if i < a.len() { assert(a[i] == c); } else { assert(b[i - a.len()] == c); } }
    if a.contains(c) { let i = choose|i: int| 0 <= i < a.len() && a[i] == c; assert(m[i] == c); }
    if b.contains(c) { let i = choose|i: int| 0 <= i < b.len() && b[i] == c; assert(m[i + a.len()] == c); }
}
/// last token among the first k that end at p (0: none)
pub open spec fn last_of(e: Seq<Vec<usize>>, c: Seq<int>, p: int, k: int) -> bool { exists|j: int| 0 <= j < k && #[trigger] e[p]@[j] == (if c.len() == 0 { 0 } else { c.last() }) }
pub proof fn lemma_all_k(ns: Seq<Node>, e: Seq<Vec<usize>>, n: int, p: int, k: int)
    requires nodes_ok(ns, n), ends(ns, e), e.len() == n + 1, 0 <= p <= n, 0 <= k <= e[p]@.len()
    ensures all_k(ns, e, p, k).no_duplicates(), forall|c: Seq<int>| #[trigger] all_k(ns, e, p, k).contains(c) <==> chain(ns, c, p) && last_of(e, c, p, k)
    decreases p, 0int, k
{
    if k > 0 {
        let x = e[p]@[k - 1] as int; let a = all_k(ns, e, p, k - 1);
        lemma_all_k(ns, e, n, p, k - 1);
        if x != 0 { lemma_all(ns, e, n, ns[x].pos as int); }
        let q = all_to(ns, e, ns[x].pos as int);
        let t = if x == 0 { seq![Seq::<int>::empty()] } else { each(q, x) };
        assert(all_k(ns, e, p, k) == a + t);
        assert forall|c: Seq<int>| #[trigger] t.contains(c) <==> chain(ns, c, p) && (if c.len() == 0 { 0 } else { c.last() }) == x by {
            if x == 0 { assert(t[0] =~= Seq::<int>::empty()); if c.len() == 0 { assert(c =~= Seq::<int>::empty()); assert(t.contains(c)); } }
            else { lemma_each(q, x, c); if c.len() > 0 { assert(q.contains(c.drop_last()) <==> chain(ns, c.drop_last(), ns[x].pos as int)); } }
        }
        assert forall|c: Seq<int>| #[trigger] (a + t).contains(c) <==> chain(ns, c, p) && last_of(e, c, p, k) by {
            lemma_add_lists(a, t, c);
            let y = if c.len() == 0 { 0 } else { c.last() };
            assert(a.contains(c) <==> chain(ns, c, p) && last_of(e, c, p, k - 1));
            if last_of(e, c, p, k) { let j = choose|j: int| 0 <= j < k && #[trigger] e[p]@[j] == y; if j < k - 1 { assert(last_of(e, c, p, k - 1)); } }
            if last_of(e, c, p, k - 1) { let j = choose|j: int| 0 <= j < k - 1 && #[trigger] e[p]@[j] == y; assert(e[p]@[j] == y); }
            if y == x { assert(e[p]@[k - 1] == y); }
        }
        assert(t.no_duplicates()) by { if x != 0 { lemma_each(q, x, Seq::empty()); } }
        let m = a + t;
        assert forall|i: int, j: int| 0 <= i < m.len() && 0 <= j < m.len() && i != j implies m[i] != m[j] by { if i < j { lemma_apart(ns, e, a, t, p, k, i, j); } else { lemma_apart(ns, e, a, t, p, k, j, i); } }
    }
}
proof fn lemma_apart(ns: Seq<Node>, e: Seq<Vec<usize>>, a: Seq<Seq<int>>, t: Seq<Seq<int>>, p: int, k: int, i: int, j: int)
    requires 0 < k <= e[p]@.len(), 0 <= p < e.len(), ends(ns, e), a.no_duplicates(), t.no_duplicates(), forall|c: Seq<int>| #[trigger] a.contains(c) ==> last_of(e, c, p, k - 1),
        forall|c: Seq<int>| #[trigger] t.contains(c) ==> (if c.len() == 0 { 0 } else { c.last() }) == e[p]@[k - 1], 0 <= i < a.len() + t.len(), 0 <= j < a.len() + t.len(), i < j
    ensures (a + t)[i] != (a + t)[j]
{
    let m = a + t;
    if j < a.len() { assert(a[i] != a[j]); } else if i >= a.len() { assert(t[i - a.len()] != t[j - a.len()]); }
    else {
        assert(a.contains(a[i])); assert(t.contains(t[j - a.len()]));
        let c = a[i]; let y = if c.len() == 0 { 0 } else { c.last() };
        let h = choose|h: int| 0 <= h < k - 1 && #[trigger] e[p]@[h] == y;
        assert(e[p]@[h] != e[p]@[k - 1]);
    }
}
pub proof fn lemma_all(ns: Seq<Node>, e: Seq<Vec<usize>>, n: int, p: int)
    requires nodes_ok(ns, n), ends(ns, e), e.len() == n + 1, 0 <= p <= n
    ensures lists(ns, all_to(ns, e, p), p)
    decreases p, 1int, 0int
{
    let k = e[p]@.len() as int; let l = all_k(ns, e, p, k);
    lemma_all_k(ns, e, n, p, k);
    assert forall|c: Seq<int>| #[trigger] l.contains(c) <==> chain(ns, c, p) by {
        if chain(ns, c, p) {
            let y = if c.len() == 0 { 0 } else { c.last() };
            let u = y as usize; assert(end(ns[u as int]) == p); assert(e[end(ns[u as int])]@.contains(u));
            let j = choose|j: int| 0 <= j < k && e[p]@[j] == u; assert(e[p]@[j] == y); assert(last_of(e, c, p, k));
        }
    }
}
/// C18, the constant: ln of the sum of exp(total score) over all segmentations
pub proof fn lemma_constant(ns: Seq<Node>, b: Seq<Vec<usize>>, e: Seq<Vec<usize>>, n: int, ex0: Seq<f64>, ex: Seq<f64>, z: f64)
    requires nodes_ok(ns, n), ends(ns, e), e.len() == n + 1, n >= 0, marginals(ns, b, e, n, ex0, ex, z)
    ensures exists|l: Seq<Seq<int>>| #[trigger] lists(ns, l, n) && apx(z, lnr(total(ns, l)))
{ lemma_all(ns, e, n, n); lemma_fwd_total(ns, e, n); }
/// when every byte of s is a token, every position is reached
pub proof fn lemma_bytes_cover(v: Seq<ScoredToken>, s: Seq<u8>, ns: Seq<Node>, b: Seq<Vec<usize>>, e: Seq<Vec<usize>>)
    requires nodes_ok(ns, s.len() as int), begins(ns, b), ends(ns, e), b.len() == s.len() + 1, e.len() == s.len() + 1, exact(v, s, ns),
        forall|p: int| 0 <= p < s.len() ==> last_id(v, #[trigger] piece(s, p, 1)) is Some
    ensures covered(b, e, s.len() as int)
{
    let n = s.len() as int;
    assert forall|p: int| 0 <= p <= n implies (#[trigger] b[p])@.len() > 0 && e[p]@.len() > 0 by {
        if p < n { assert(last_id(v, piece(s, p, 1)) is Some); let i = choose|i: int| 2 <= i < ns.len() && (#[trigger] ns[i]).pos == p && ns[i].token_len == 1; let u = i as usize; assert(b[ns[u as int].pos as int]@.contains(u)); }
        else { let u = 1usize; assert(b[ns[u as int].pos as int]@.contains(u)); }
        if p > 0 { assert(last_id(v, piece(s, p - 1, 1)) is Some); let i = choose|i: int| 2 <= i < ns.len() && (#[trigger] ns[i]).pos == p - 1 && ns[i].token_len == 1; let u = i as usize; assert(e[end(ns[u as int])]@.contains(u)); }
        else { let u = 0usize; assert(e[end(ns[u as int])]@.contains(u)); }
    }
}

@fn log_sum_exp
@contract
    ensures adds(r, x, y, init_mode) //@C18
@start
    proof { lemma_log_sum_exp(x, y); } //@C18
@fn Lattice::populate_marginal
@opt fassign
@contract
    requires self.wf(), ids_below(self.nodes@, old(expected)@.len() as int)
    ensures final(expected)@.len() == old(expected)@.len(),
        covered(self.begin_nodes@, self.end_nodes@, self.sentence@.len() as int) ==> marginals(self.nodes@, self.begin_nodes@, self.end_nodes@, self.sentence@.len() as int, old(expected)@, final(expected)@, r), //@C18
        covered(self.begin_nodes@, self.end_nodes@, self.sentence@.len() as int) ==> untouched(self.nodes@, old(expected)@, final(expected)@), //@C18
@start
    hide(fwd); hide(fwd_k); hide(bwd); hide(bwd_k); hide(uses); hide(uses_k); hide(counted); hide(untouched); hide(marginals); hide(covered); hide(adds); hide(fwd_below); hide(fwd_row); hide(bwd_above); hide(bwd_row); hide(share);
    proof { lemma_wf(*self); lemma_bos(*self); }
    let ghost n = self.sentence@.len() as int; let ghost b = self.begin_nodes@; let ghost e = self.end_nodes@; let ghost ns = self.nodes@; let ghost ex0 = expected@;
    let ghost cov = covered(b, e, n);
@before 1
    proof { lemma_fwd_start(ns, e, alpha@); lemma_bwd_start(ns, b, n, beta@); } //@C18
@loop 1
    invariant
        n == len, b == self.begin_nodes@, e == self.end_nodes@, ns == self.nodes@, nodes_ok(ns, n), begins(ns, b), ends(ns, e), b.len() == len + 1, e.len() == len + 1, cov == covered(b, e, n), alpha@.len() == ns.len(), beta@.len() == ns.len(), __n1 == len, __i1 <= len, 
        cov ==> fwd_below(ns, e, alpha@, if __d1 { len + 1 } else { __i1 as int }), //@C18
@body_start 1
    proof { lemma_fwd_row_start(ns, b, e, alpha@, pos as int); } //@C18
@body_end 1
    proof { if cov { lemma_fwd_next(ns, b, e, n, alpha@, pos as int); } } //@C18
@loop 2
    invariant
        n == len, b == self.begin_nodes@, e == self.end_nodes@, ns == self.nodes@, nodes_ok(ns, n), begins(ns, b), ends(ns, e), b.len() == len + 1, e.len() == len + 1, cov == covered(b, e, n), pos <= len, __s2@ == b[pos as int]@, __i2 <= __s2@.len(), alpha@.len() == ns.len(),
        cov ==> fwd_below(ns, e, alpha@, pos as int), //@C18
        cov ==> fwd_row(ns, b, e, alpha@, pos as int, __i2 as int), //@C18
@body_start 2
    proof { assert(b[pos as int]@[__v2 as int] == rid); }
    proof { if cov { lemma_covered_at(b, e, n, pos as int); } } //@C18
@body_end 2
    proof { if cov { lemma_fwd_row(ns, b, e, alpha@, n, pos as int, __v2 as int); } } //@C18
@loop 3
    invariant
        n == len, b == self.begin_nodes@, e == self.end_nodes@, ns == self.nodes@, nodes_ok(ns, n), begins(ns, b), ends(ns, e), b.len() == len + 1, e.len() == len + 1, cov == covered(b, e, n), pos <= len, __s3@ == e[pos as int]@, __i3 <= __s3@.len(), rid < ns.len(), alpha@.len() == ns.len(),
        __v2 < b[pos as int]@.len(), rid == b[pos as int]@[__v2 as int],
        cov ==> fwd_below(ns, e, alpha@, pos as int), //@C18
        cov ==> fwd_row(ns, b, e, alpha@, pos as int, __v2 as int), //@C18
        cov && __i3 > 0 ==> apx(alpha@[rid as int], lnr(fwd_k(ns, e, pos as int, __i3 as int))), //@C18
@body_start 3
    let ghost al = alpha@;
    proof { assert(e[pos as int]@[__v3 as int] == lid); assert(e[pos as int]@.len() > 0); assert(__v3 > 0 ==> e[pos as int]@[0] != e[pos as int]@[__v3 as int]); }
@body_end 3
    proof { if cov { assert(alpha@ =~= al.update(rid as int, alpha@[rid as int])); lemma_fwd_step(ns, b, e, n, al, pos as int, __v2 as int, __v3 as int, alpha@[rid as int]); } } //@C18
@loop 4
    invariant
        n == len, b == self.begin_nodes@, e == self.end_nodes@, ns == self.nodes@, nodes_ok(ns, n), begins(ns, b), ends(ns, e), b.len() == len + 1, e.len() == len + 1, cov == covered(b, e, n), beta@.len() == ns.len(), __n4 == 0, __i4 <= len + 1,
        cov ==> bwd_above(ns, b, n, beta@, __i4 - 1), //@C18
@body_start 4
    proof { lemma_bwd_row_start(ns, b, e, n, beta@, pos as int); } //@C18
@body_end 4
    proof { if cov { lemma_bwd_next(ns, b, e, n, beta@, pos as int); } } //@C18
@loop 5
    invariant
        n == len, b == self.begin_nodes@, e == self.end_nodes@, ns == self.nodes@, nodes_ok(ns, n), begins(ns, b), ends(ns, e), b.len() == len + 1, e.len() == len + 1, cov == covered(b, e, n), pos <= len, __s5@ == e[pos as int]@, __i5 <= __s5@.len(), beta@.len() == ns.len(),
        cov ==> bwd_above(ns, b, n, beta@, pos as int), //@C18
        cov ==> bwd_row(ns, b, e, n, beta@, pos as int, __i5 as int), //@C18
@body_start 5
    proof { assert(e[pos as int]@[__v5 as int] == lid); }
    proof { if cov { lemma_covered_at(b, e, n, pos as int); } } //@C18
@body_end 5
    proof { if cov { lemma_bwd_row(ns, b, e, beta@, n, pos as int, __v5 as int); } } //@C18
@loop 6
    invariant
        n == len, b == self.begin_nodes@, e == self.end_nodes@, ns == self.nodes@, nodes_ok(ns, n), begins(ns, b), ends(ns, e), b.len() == len + 1, e.len() == len + 1, cov == covered(b, e, n), pos <= len, __s6@ == b[pos as int]@, __i6 <= __s6@.len(), lid < ns.len(), beta@.len() == ns.len(),
        __v5 < e[pos as int]@.len(), lid == e[pos as int]@[__v5 as int],
        cov ==> bwd_above(ns, b, n, beta@, pos as int), //@C18
        cov ==> bwd_row(ns, b, e, n, beta@, pos as int, __v5 as int), //@C18
        cov && __i6 > 0 ==> apx(beta@[lid as int], lnr(bwd_k(ns, b, n, pos as int, __i6 as int))), //@C18
@body_start 6
    let ghost be = beta@;
    proof { assert(b[pos as int]@[__v6 as int] == rid); assert(b[pos as int]@.len() > 0); assert(__v6 > 0 ==> b[pos as int]@[0] != b[pos as int]@[__v6 as int]); }
@body_end 6
    proof { if cov { assert(beta@ =~= be.update(lid as int, beta@[lid as int])); lemma_bwd_step(ns, b, e, n, be, pos as int, __v5 as int, __v6 as int, beta@[lid as int]); } } //@C18
@before 7
    proof { if cov { lemma_z(ns, e, n, alpha@); } lemma_counted_start(ns, b, e, n, ex0); } //@C18
@loop 7
    invariant
        n == len, b == self.begin_nodes@, e == self.end_nodes@, ns == self.nodes@, nodes_ok(ns, n), begins(ns, b), ends(ns, e), b.len() == len + 1, e.len() == len + 1, cov == covered(b, e, n), alpha@.len() == ns.len(), beta@.len() == ns.len(), __n7 == len, __i7 <= len, ids_below(ns, expected@.len() as int), expected@.len() == ex0.len(),
        cov ==> fwd_below(ns, e, alpha@, n + 1) && bwd_above(ns, b, n, beta@, -1) && apx(z, lnr(fwd(ns, e, n))), //@C18
        cov ==> counted(ns, b, e, n, ex0, expected@, __i7 as int, 0) && untouched(ns, ex0, expected@), //@C18
@body_end 7
    proof { if cov { lemma_counted_next(ns, b, e, n, ex0, expected@, pos as int); } } //@C18
@loop 8
    invariant
        n == len, b == self.begin_nodes@, e == self.end_nodes@, ns == self.nodes@, nodes_ok(ns, n), begins(ns, b), ends(ns, e), b.len() == len + 1, e.len() == len + 1, cov == covered(b, e, n), pos < len, __s8@ == b[pos as int]@, __i8 <= __s8@.len(), alpha@.len() == ns.len(), beta@.len() == ns.len(), ids_below(ns, expected@.len() as int), expected@.len() == ex0.len(),
        cov ==> fwd_below(ns, e, alpha@, n + 1) && bwd_above(ns, b, n, beta@, -1) && apx(z, lnr(fwd(ns, e, n))), //@C18
        cov ==> counted(ns, b, e, n, ex0, expected@, pos as int, __i8 as int) && untouched(ns, ex0, expected@), //@C18
@body_start 8
    let ghost ex = expected@;
    proof { assert(b[pos as int]@[__v8 as int] == node_idx); assert(node_idx != 1) by { assert(ns[node_idx as int].pos == pos); } assert(ns[node_idx as int].token_id < ex.len()); }
    proof { if cov { lemma_update(ns, b, e, n, alpha@, beta@, z, pos as int, __v8 as int); lemma_counted_step(ns, b, e, n, ex0, ex, pos as int, __v8 as int, fexp(fsub(fadd(fadd(alpha@[node_idx as int], ns[node_idx as int].score), beta@[node_idx as int]), z))); } } //@C18
@body_end 8
    proof { assert(expected@ =~= ex.update(id as int, expected@[id as int])); }
@after 7
    proof { if cov { lemma_marginals(ns, b, e, n, ex0, expected@, z); } } //@C18
