@module model src/model.rs
@subst IntoIterator<Item = ScoredToken> => VxIntoIter<Item = ScoredToken>
@subst rand::random::<f64> => vx_random
@subst String::from_utf8_lossy => vx_from_utf8_lossy
@struct Model
@spec
use crate::shim::*;
use crate::toks::*;
use crate::trie::{look, hits, vals, bound, lemma_hits, lemma_vals, Trie, TrieIterator};
broadcast use crate::shim::group_vx;
broadcast use crate::toks::fl::group_fl;

pub open spec fn id_len(v: Seq<ScoredToken>, k: Seq<u8>) -> Option<(u32, u32)> {
    match last_id(v, k) { Some(i) => Some((i as u32, k.len() as u32)), None => None }
}
/// sizes within the documented limits
pub open spec fn sizes_ok(v: Seq<ScoredToken>) -> bool {
    v.len() <= u32::MAX && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).value@.len() <= u32::MAX
}
/// trie and map agree with the vocabulary
pub open spec fn agree(v: Seq<ScoredToken>, t: Trie<(TokenID, u32)>, m: Map<Seq<u8>, u32>) -> bool {
    &&& forall|k: Seq<u8>| #[trigger] look(t.root, k) == id_len(v, k)
    &&& forall|k: Seq<u8>| #[trigger] m.contains_key(k) <==> last_id(v, k) is Some
    &&& forall|k: Seq<u8>| m.contains_key(k) ==> Some(#[trigger] m[k] as int) == last_id(v, k)
}
impl Model {
    pub open spec fn wf(&self) -> bool { sizes_ok(self.vocab@) && agree(self.vocab@, self.trie, self.token_to_ids@) }
}
pub proof fn lemma_agree_push(v: Seq<ScoredToken>, t: ScoredToken, t0: Trie<(TokenID, u32)>, t1: Trie<(TokenID, u32)>, m0: Map<Seq<u8>, u32>, m1: Map<Seq<u8>, u32>)
    requires agree(v, t0, m0), v.len() < u32::MAX, t.value@.len() <= u32::MAX,
        bound(t0.root, t1.root, t.value@, (v.len() as u32, t.value@.len() as u32)),
        m1 == m0.insert(t.value@, v.len() as u32),
    ensures agree(v.push(t), t1, m1)
{
    assert forall|k: Seq<u8>| #[trigger] last_id(v.push(t), k) == if t.value@ == k { Some(v.len() as int) } else { last_id(v, k) } by { lemma_last_id_push(v, t, k); }
    assert forall|k: Seq<u8>| #[trigger] look(t1.root, k) == id_len(v.push(t), k) by { }
    assert forall|k: Seq<u8>| #[trigger] m1.contains_key(k) <==> last_id(v.push(t), k) is Some by { }
}

/// concatenation
pub open spec fn cat(ps: Seq<Seq<u8>>) -> Seq<u8> decreases ps.len() {
    if ps.len() == 0 { Seq::empty() } else { cat(ps.drop_last()) + ps.last() }
}
/// the pieces are vocabulary tokens, none of them empty, that make up s
pub open spec fn splits(v: Seq<ScoredToken>, ps: Seq<Seq<u8>>, s: Seq<u8>) -> bool {
    cat(ps) == s && forall|i: int| 0 <= i < ps.len() ==> (#[trigger] ps[i]).len() > 0 && last_id(v, ps[i]) is Some
}
/// score of a segmentation, added left to right in f64; of several entries for a token the most recent counts
pub open spec fn total(v: Seq<ScoredToken>, ps: Seq<Seq<u8>>) -> f64 decreases ps.len() {
    if ps.len() == 0 { 0.0f64 } else { fadd(total(v, ps.drop_last()), v[last_id(v, ps.last())->Some_0].score) }
}
/// the tokens of ids
pub open spec fn toks_of(v: Seq<ScoredToken>, ids: Seq<u32>) -> Seq<Seq<u8>> { Seq::new(ids.len(), |i: int| v[ids[i] as int].value@) }
pub open spec fn ids_ok(v: Seq<ScoredToken>, ids: Seq<u32>) -> bool { forall|i: int| 0 <= i < ids.len() ==> (#[trigger] ids[i]) < v.len() }
pub open spec fn finite(v: Seq<ScoredToken>) -> bool { forall|i: int| 0 <= i < v.len() ==> is_fin((#[trigger] v[i]).score) }
/// every byte of s is a token
pub open spec fn bytes_in(v: Seq<ScoredToken>, s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> last_id(v, seq![#[trigger] s[i]]) is Some }

pub proof fn lemma_cat_push(ps: Seq<Seq<u8>>, p: Seq<u8>) ensures cat(ps.push(p)) == cat(ps) + p { assert(ps.push(p).drop_last() =~= ps); }
pub proof fn lemma_toks_push(v: Seq<ScoredToken>, ids: Seq<u32>, i: u32)
    ensures toks_of(v, ids.push(i)) == toks_of(v, ids).push(v[i as int].value@)
{ assert(toks_of(v, ids.push(i)) =~= toks_of(v, ids).push(v[i as int].value@)); }

/// the piece of length k at p
pub open spec fn piece(s: Seq<u8>, p: int, k: int) -> Seq<u8> { s.skip(p).take(k) }

/// what a search in the trie of a well-formed model yields
pub proof fn lemma_search(m: &Model, s: Seq<u8>)
    requires m.wf(), s.len() <= usize::MAX,
    ensures
        forall|j: int| 0 <= j < vals(m.trie.root, s).len() ==> (#[trigger] vals(m.trie.root, s)[j]).0 < m.vocab@.len()
            && 1 <= vals(m.trie.root, s)[j].1 <= s.len() && last_id(m.vocab@, s.take(vals(m.trie.root, s)[j].1 as int)) == Some(vals(m.trie.root, s)[j].0 as int),
        forall|k: int| 1 <= k <= s.len() && (#[trigger] last_id(m.vocab@, s.take(k))) is Some
            ==> exists|j: int| 0 <= j < vals(m.trie.root, s).len() && (#[trigger] vals(m.trie.root, s)[j]).1 == k,
        forall|i: int, j: int| 0 <= i < j < vals(m.trie.root, s).len() ==> (#[trigger] vals(m.trie.root, s)[i]).1 < (#[trigger] vals(m.trie.root, s)[j]).1,
{
    let h = hits(m.trie.root, s, 0);
    let w = vals(m.trie.root, s);
    lemma_vals(m.trie.root, s, 0);
    lemma_hits(m.trie.root, s, 0);
    assert forall|j: int| 0 <= j < w.len() implies (#[trigger] w[j]).0 < m.vocab@.len() && w[j].1 == h[j].0 && 1 <= w[j].1 <= s.len() && last_id(m.vocab@, s.take(w[j].1 as int)) == Some(w[j].0 as int) by {
        assert(w[j] == h[j].1);
        let k = s.take(h[j].0 as int);
        assert(look(m.trie.root, k) == id_len(m.vocab@, k));
        lemma_last_id(m.vocab@, k);
    }
    assert forall|k: int| 1 <= k <= s.len() && (#[trigger] last_id(m.vocab@, s.take(k))) is Some implies exists|j: int| 0 <= j < w.len() && (#[trigger] w[j]).1 == k by {
        assert(look(m.trie.root, s.take(k)) is Some);
        let j = choose|j: int| 0 <= j < h.len() && (#[trigger] h[j]).0 == k;
        assert(w[j].1 == k);
    }
}

// ---- encode
pub open spec fn reach(dp: Seq<Node>, q: int) -> bool { dp[q].start is Some }
/// a reached cell points back to a reached cell, over the token it names
pub open spec fn cell_ok(v: Seq<ScoredToken>, s: Seq<u8>, dp: Seq<Node>, q: int) -> bool {
    dp[q].start matches Some(p) ==> p < q && reach(dp, p as int) && last_id(v, piece(s, p as int, q - p)) == Some(dp[q].id as int)
}
/// ... and has the score of that path
pub open spec fn score_ok(v: Seq<ScoredToken>, dp: Seq<Node>, q: int) -> bool {
    dp[q].start matches Some(p) ==> dp[q].score == fadd(dp[p as int].score, v[dp[q].id as int].score)
}
/// ... and is a single byte if dropout is certain
pub open spec fn single_ok(dp: Seq<Node>, q: int, dropout: f64) -> bool {
    dp[q].start matches Some(p) ==> fle(1.0f64, dropout) ==> p + 1 == q
}
/// the token of length k at p was considered: its end is reached
pub open spec fn tried(v: Seq<ScoredToken>, s: Seq<u8>, dp: Seq<Node>, p: int, k: int, dropout: f64) -> bool {
    reach(dp, p) && last_id(v, piece(s, p, k)) is Some && (k == 1 || fle(dropout, 0.0f64)) ==> reach(dp, p + k)
}
/// ... with at least its score
pub open spec fn beaten(v: Seq<ScoredToken>, s: Seq<u8>, dp: Seq<Node>, p: int, k: int, dropout: f64) -> bool {
    reach(dp, p) && last_id(v, piece(s, p, k)) is Some && (k == 1 || fle(dropout, 0.0f64))
        ==> reach(dp, p + k) && !flt(dp[p + k].score, fadd(dp[p].score, v[last_id(v, piece(s, p, k))->Some_0].score))
}
pub open spec fn table_ok(v: Seq<ScoredToken>, s: Seq<u8>, dp: Seq<Node>) -> bool {
    &&& dp.len() == s.len() + 1
    &&& dp[0].start == Some(0usize)
    &&& forall|q: int| 0 < q <= s.len() ==> #[trigger] cell_ok(v, s, dp, q)
}
pub open spec fn scores_ok(v: Seq<ScoredToken>, s: Seq<u8>, dp: Seq<Node>) -> bool {
    &&& dp[0].score == 0.0f64
    &&& forall|q: int| 0 < q <= s.len() ==> #[trigger] score_ok(v, dp, q)
}
pub open spec fn singles_ok(s: Seq<u8>, dp: Seq<Node>, dropout: f64) -> bool {
    forall|q: int| 0 < q <= s.len() ==> #[trigger] single_ok(dp, q, dropout)
}
pub open spec fn before(dp: Seq<Node>, pos: int) -> bool {
    forall|q: int| 0 < q < dp.len() && (#[trigger] dp[q]).start is Some ==> dp[q].start->Some_0 < pos
}
pub open spec fn tried_to(v: Seq<ScoredToken>, s: Seq<u8>, dp: Seq<Node>, pos: int, dropout: f64) -> bool {
    forall|p: int, k: int| 0 <= p < pos && 1 <= k <= s.len() - p ==> #[trigger] tried(v, s, dp, p, k, dropout)
}
pub open spec fn beaten_to(v: Seq<ScoredToken>, s: Seq<u8>, dp: Seq<Node>, pos: int, dropout: f64) -> bool {
    forall|p: int, k: int| 0 <= p < pos && 1 <= k <= s.len() - p ==> #[trigger] beaten(v, s, dp, p, k, dropout)
}
/// setting one cell ahead to the token of length k at pos
pub open spec fn put(v: Seq<ScoredToken>, s: Seq<u8>, d0: Seq<Node>, d1: Seq<Node>, pos: usize, k: int) -> bool {
    &&& 1 <= k && pos + k <= s.len() && d1 == d0.update(pos + k, d1[pos + k])
    &&& reach(d0, pos as int) && d1[pos + k].start == Some(pos)
    &&& last_id(v, piece(s, pos as int, k)) == Some(d1[pos + k].id as int)
}
pub proof fn lemma_put(v: Seq<ScoredToken>, s: Seq<u8>, d0: Seq<Node>, d1: Seq<Node>, pos: usize, k: int)
    requires table_ok(v, s, d0), before(d0, pos + 1), put(v, s, d0, d1, pos, k),
    ensures table_ok(v, s, d1), before(d1, pos + 1), reach(d1, pos as int),
        forall|p: int| 0 <= p <= pos ==> d1[p] == d0[p],
{
    assert forall|q: int| 0 < q <= s.len() implies #[trigger] cell_ok(v, s, d1, q) by {
        assert(cell_ok(v, s, d0, q));
        if q != pos + k && d0[q].start is Some {
            let p = d0[q].start->Some_0 as int;
            assert(d0[q].start is Some);
            assert(d1[p] == d0[p]);
        }
    }
    assert forall|q: int| 0 < q < d1.len() && (#[trigger] d1[q]).start is Some implies d1[q].start->Some_0 < pos + 1 by {
        if q != pos + k { assert(d0[q].start is Some); }
    }
}
pub proof fn lemma_put_scores(v: Seq<ScoredToken>, s: Seq<u8>, d0: Seq<Node>, d1: Seq<Node>, pos: usize, k: int)
    requires table_ok(v, s, d0), before(d0, pos + 1), put(v, s, d0, d1, pos, k), scores_ok(v, s, d0),
        d1[pos + k].score == fadd(d0[pos as int].score, v[d1[pos + k].id as int].score),
    ensures scores_ok(v, s, d1)
{
    assert forall|q: int| 0 < q <= s.len() implies #[trigger] score_ok(v, d1, q) by {
        assert(score_ok(v, d0, q) && cell_ok(v, s, d0, q));
        if q != pos + k && d0[q].start is Some {
            let p = d0[q].start->Some_0 as int;
            assert(d0[q].start is Some);
            assert(d1[p] == d0[p]);
        }
    }
}
pub proof fn lemma_put_singles(s: Seq<u8>, d0: Seq<Node>, d1: Seq<Node>, pos: usize, k: int, dropout: f64)
    requires singles_ok(s, d0, dropout), d1 == d0.update(pos + k, d1[pos + k]), d0.len() == s.len() + 1, pos + k <= s.len(),
        d1[pos + k].start == Some(pos), fle(1.0f64, dropout) ==> k == 1,
    ensures singles_ok(s, d1, dropout)
{
    assert forall|q: int| 0 < q <= s.len() implies #[trigger] single_ok(d1, q, dropout) by { assert(single_ok(d0, q, dropout)); }
}
pub proof fn lemma_put_tried(v: Seq<ScoredToken>, s: Seq<u8>, d0: Seq<Node>, d1: Seq<Node>, pos: usize, k: int, dropout: f64)
    requires table_ok(v, s, d0), put(v, s, d0, d1, pos, k), tried_to(v, s, d0, pos as int, dropout),
    ensures tried_to(v, s, d1, pos as int, dropout), tried(v, s, d1, pos as int, k, dropout),
        forall|j: int| 1 <= j <= s.len() - pos && #[trigger] tried(v, s, d0, pos as int, j, dropout) ==> tried(v, s, d1, pos as int, j, dropout),
{
    assert forall|p: int, j: int| 0 <= p <= pos && 1 <= j <= s.len() - p && tried(v, s, d0, p, j, dropout) implies #[trigger] tried(v, s, d1, p, j, dropout) by {
        assert(d1[p] == d0[p]);
        let q = p + j;
        if q != pos + k { assert(d1[q] == d0[q]); }
    }
    assert(d1[pos as int] == d0[pos as int]);
    assert(tried(v, s, d1, pos as int, k, dropout));
}
pub proof fn lemma_put_beaten(v: Seq<ScoredToken>, s: Seq<u8>, d0: Seq<Node>, d1: Seq<Node>, pos: usize, k: int, dropout: f64)
    requires table_ok(v, s, d0), put(v, s, d0, d1, pos, k), beaten_to(v, s, d0, pos as int, dropout),
        d1[pos + k].score == fadd(d0[pos as int].score, v[d1[pos + k].id as int].score),
        !reach(d0, pos + k) || flt(d0[pos + k].score, d1[pos + k].score),
    ensures beaten_to(v, s, d1, pos as int, dropout), beaten(v, s, d1, pos as int, k, dropout),
        forall|j: int| 1 <= j <= s.len() - pos && #[trigger] beaten(v, s, d0, pos as int, j, dropout) ==> beaten(v, s, d1, pos as int, j, dropout),
{
    assert forall|p: int, j: int| 0 <= p <= pos && 1 <= j <= s.len() - p && beaten(v, s, d0, p, j, dropout) implies #[trigger] beaten(v, s, d1, p, j, dropout) by {
        assert(d1[p] == d0[p]);
        let q = p + j;
        if q == pos + k {
            if reach(d1, p) && last_id(v, piece(s, p, j)) is Some && (j == 1 || fle(dropout, 0.0f64)) {
                let c = fadd(d0[p].score, v[last_id(v, piece(s, p, j))->Some_0].score);
                assert(reach(d0, p));
                assert(reach(d0, q) && !flt(d0[q].score, c));
                assert(flt(d0[q].score, d1[q].score));
                assert(!flt(d1[q].score, c));
            }
        } else { assert(d1[q] == d0[q]); }
    }
    assert(d1[pos as int] == d0[pos as int]);
    assert(beaten(v, s, d1, pos as int, k, dropout));
}

/// the pieces on the path back from q
pub open spec fn path(s: Seq<u8>, dp: Seq<Node>, q: int) -> Seq<Seq<u8>> decreases q {
    if q <= 0 || !(dp[q].start matches Some(p) && p < q) { Seq::empty() } else {
        let p = dp[q].start->Some_0 as int;
        path(s, dp, p).push(piece(s, p, q - p))
    }
}
pub open spec fn path_ids(dp: Seq<Node>, q: int) -> Seq<u32> decreases q {
    if q <= 0 || !(dp[q].start matches Some(p) && p < q) { Seq::empty() } else {
        path_ids(dp, dp[q].start->Some_0 as int).push(dp[q].id)
    }
}
pub proof fn lemma_path(v: Seq<ScoredToken>, s: Seq<u8>, dp: Seq<Node>, q: int)
    requires table_ok(v, s, dp), 0 <= q <= s.len(), reach(dp, q),
    ensures
        splits(v, path(s, dp, q), s.take(q)),
        path_ids(dp, q).len() == path(s, dp, q).len(),
        ids_ok(v, path_ids(dp, q)), toks_of(v, path_ids(dp, q)) == path(s, dp, q),
    decreases q
{
    if q == 0 {
        assert(s.take(0) =~= Seq::<u8>::empty());
        assert(toks_of(v, path_ids(dp, q)) =~= path(s, dp, q));
    } else {
        assert(cell_ok(v, s, dp, q));
        let p = dp[q].start->Some_0 as int;
        let w = piece(s, p, q - p);
        lemma_path(v, s, dp, p);
        let ps = path(s, dp, p);
        lemma_cat_push(ps, w);
        assert(s.take(p) + w =~= s.take(q));
        lemma_last_id(v, w);
        lemma_toks_push(v, path_ids(dp, p), dp[q].id);
        assert forall|i: int| 0 <= i < ps.push(w).len() implies (#[trigger] ps.push(w)[i]).len() > 0 && last_id(v, ps.push(w)[i]) is Some by {
            if i < ps.len() { assert(ps.push(w)[i] == ps[i]); }
        }
    }
}
pub proof fn lemma_path_score(v: Seq<ScoredToken>, s: Seq<u8>, dp: Seq<Node>, q: int)
    requires table_ok(v, s, dp), scores_ok(v, s, dp), 0 <= q <= s.len(), reach(dp, q),
    ensures total(v, path(s, dp, q)) == dp[q].score,
    decreases q
{
    if q > 0 {
        assert(cell_ok(v, s, dp, q) && score_ok(v, dp, q));
        let p = dp[q].start->Some_0 as int;
        lemma_path_score(v, s, dp, p);
        assert(path(s, dp, q).drop_last() =~= path(s, dp, p));
    }
}
pub proof fn lemma_path_single(v: Seq<ScoredToken>, s: Seq<u8>, dp: Seq<Node>, q: int, dropout: f64)
    requires table_ok(v, s, dp), singles_ok(s, dp, dropout), 0 <= q <= s.len(), reach(dp, q), fle(1.0f64, dropout),
    ensures forall|i: int| 0 <= i < path(s, dp, q).len() ==> (#[trigger] path(s, dp, q)[i]).len() == 1,
    decreases q
{
    if q > 0 {
        assert(cell_ok(v, s, dp, q) && single_ok(dp, q, dropout));
        let p = dp[q].start->Some_0 as int;
        lemma_path_single(v, s, dp, p, dropout);
        assert(path(s, dp, q) == path(s, dp, p).push(piece(s, p, q - p)));
        assert(piece(s, p, 1).len() == 1);
    }
}
/// the last piece and what is before it
pub proof fn lemma_splits_last(v: Seq<ScoredToken>, s: Seq<u8>, ps: Seq<Seq<u8>>, q: int) -> (p: int)
    requires 0 <= q <= s.len(), splits(v, ps, s.take(q)), ps.len() > 0,
    ensures 0 <= p < q, p == q - ps.last().len(), splits(v, ps.drop_last(), s.take(p)), piece(s, p, ps.last().len() as int) == ps.last(), last_id(v, ps.last()) is Some,
{
    let t = ps.drop_last();
    let w = ps.last();
    let p = q - w.len();
    assert(ps[ps.len() - 1] == w);
    assert(s.take(q) == cat(t) + w);
    assert(cat(t).len() + w.len() == q);
    assert(s.take(p) =~= cat(t)) by { assert forall|i: int| 0 <= i < p implies #[trigger] s.take(p)[i] == cat(t)[i] by { assert(s.take(q)[i] == s[i]); } }
    assert(piece(s, p, w.len() as int) =~= w) by { assert forall|i: int| 0 <= i < w.len() implies #[trigger] piece(s, p, w.len() as int)[i] == w[i] by { assert(s.take(q)[p + i] == s[p + i]); } }
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).len() > 0 && last_id(v, t[i]) is Some by { assert(t[i] == ps[i]); }
    p
}
/// whatever can be segmented is reached
pub proof fn lemma_complete(v: Seq<ScoredToken>, s: Seq<u8>, dp: Seq<Node>, ps: Seq<Seq<u8>>, q: int, dropout: f64)
    requires table_ok(v, s, dp), tried_to(v, s, dp, s.len() as int, dropout), 0 <= q <= s.len(),
        splits(v, ps, s.take(q)),
        fle(dropout, 0.0f64) || forall|i: int| 0 <= i < ps.len() ==> (#[trigger] ps[i]).len() == 1,
    ensures reach(dp, q),
    decreases ps.len()
{
    if ps.len() == 0 {
        assert(s.take(q).len() == 0);
        assert(q == 0);
    } else {
        let p = lemma_splits_last(v, s, ps, q);
        assert forall|i: int| 0 <= i < ps.drop_last().len() implies #[trigger] ps.drop_last()[i] == ps[i] by { assert(ps.drop_last()[i] == ps[i]); }
        lemma_complete(v, s, dp, ps.drop_last(), p, dropout);
        assert(tried(v, s, dp, p, ps.last().len() as int, dropout));
    }
}
/// ... with at least the score of the segmentation
pub proof fn lemma_optimal(v: Seq<ScoredToken>, s: Seq<u8>, dp: Seq<Node>, ps: Seq<Seq<u8>>, q: int, dropout: f64)
    requires table_ok(v, s, dp), scores_ok(v, s, dp), beaten_to(v, s, dp, s.len() as int, dropout), 0 <= q <= s.len(),
        splits(v, ps, s.take(q)), fle(dropout, 0.0f64), finite(v),
    ensures reach(dp, q), fle(total(v, ps), dp[q].score),
    decreases ps.len()
{
    if ps.len() == 0 {
        assert(s.take(q).len() == 0);
        assert(q == 0);
    } else {
        let p = lemma_splits_last(v, s, ps, q);
        let t = ps.drop_last();
        let w = ps.last();
        lemma_optimal(v, s, dp, t, p, dropout);
        assert(beaten(v, s, dp, p, w.len() as int, dropout));
        lemma_last_id(v, w);
        let c = v[last_id(v, w)->Some_0].score;
        ax_add_num(total(v, t), c);
        ax_add_num(dp[p].score, c);
        ax_add_mono(total(v, t), dp[p].score, c);
        lemma_score_num(v, s, dp, q);
        ax_le_trans(total(v, ps), fadd(dp[p].score, c), dp[q].score);
    }
}
pub proof fn lemma_score_num(v: Seq<ScoredToken>, s: Seq<u8>, dp: Seq<Node>, q: int)
    requires table_ok(v, s, dp), scores_ok(v, s, dp), finite(v), 0 <= q <= s.len(), reach(dp, q),
    ensures !is_nan(dp[q].score),
    decreases q
{
    if q > 0 {
        assert(cell_ok(v, s, dp, q) && score_ok(v, dp, q));
        let p = dp[q].start->Some_0 as int;
        lemma_score_num(v, s, dp, p);
        lemma_last_id(v, piece(s, p, q - p));
        ax_add_num(dp[p].score, v[dp[q].id as int].score);
    }
}
/// the bytes of s one by one
pub open spec fn singles(s: Seq<u8>) -> Seq<Seq<u8>> { Seq::new(s.len(), |i: int| seq![s[i]]) }
pub proof fn lemma_singles(v: Seq<ScoredToken>, s: Seq<u8>)
    requires bytes_in(v, s),
    ensures splits(v, singles(s), s), forall|i: int| 0 <= i < s.len() ==> (#[trigger] singles(s)[i]).len() == 1,
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        assert forall|i: int| 0 <= i < t.len() implies last_id(v, seq![#[trigger] t[i]]) is Some by { assert(t[i] == s[i]); }
        lemma_singles(v, t);
        assert(singles(s).drop_last() =~= singles(t));
        assert(singles(s).last() =~= seq![s.last()]);
        assert(cat(singles(s)) == cat(singles(t)) + seq![s.last()]);
        assert(t + seq![s.last()] =~= s);
    } else { assert(cat(singles(s)) =~= s); }
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] singles(s)[i]).len() > 0 && last_id(v, singles(s)[i]) is Some by { assert(singles(s)[i] == seq![s[i]]); }
}

@fn Model::from
@contract
    requires sizes_ok(vocab@)
    ensures r.wf(), r.vocab@ == vocab@
@loop 1
    invariant
        __i1 <= vocab@.len(),
        sizes_ok(vocab@),
        agree(vocab@.take(__i1 as int), trie, token_to_ids@),
@body_start 1
    let ghost t0 = trie; let ghost m0 = token_to_ids@;
@body_end 1
    proof {
        lemma_agree_push(vocab@.take(__v1 as int), *token, t0, trie, m0, token_to_ids@);
        assert(vocab@.take(__v1 as int).push(*token) =~= vocab@.take(__i1 as int));
    }
@after 1
    proof { assert(vocab@.take(vocab@.len() as int) =~= vocab@); }
@fn Model::token_to_id
@contract
    requires self.wf()
    ensures match r { Some(i) => last_id(self.vocab@, token@) == Some(i as int), None => last_id(self.vocab@, token@) is None }
@fn Model::id_to_token
@contract
    requires self.wf()
    ensures match r { Some(t) => id < self.vocab@.len() && t == self.vocab@[id as int], None => id >= self.vocab@.len() }
@fn Model::vocab_size
@contract
    ensures r == self.vocab@.len()
@fn Model::vocab
@contract
    ensures r@ == self.vocab@
@fn Model::add_tokens
@contract
    requires old(self).wf(), sizes_ok(old(self).vocab@ + tokens.elems())
    ensures final(self).wf(), final(self).vocab@ == old(self).vocab@ + tokens.elems()
@loop 1
    invariant
        agree(self.vocab@, self.trie, self.token_to_ids@),
        self.vocab@ + __it1@ == old(self).vocab@ + tokens.elems(),
@body_start 1
    let ghost t0 = self.trie; let ghost m0 = self.token_to_ids@; let ghost v0 = self.vocab@;
    proof {
        let a = old(self).vocab@ + tokens.elems();
        assert(a[v0.len() as int] == token);
        assert(v0.len() < a.len());
        assert(v0.push(token) + __it1@ =~= a);
    }
@body_end 1
    proof { lemma_agree_push(v0, token, t0, self.trie, m0, self.token_to_ids@); }
@after 1
    proof { assert(self.vocab@ + Seq::<ScoredToken>::empty() =~= self.vocab@); assert(self.vocab@ =~= old(self).vocab@ + tokens.elems()); }
@fn Model::common_prefix_search
@rettype TrieIterator<'a, 'a, (TokenID, u32), ByteIter<'a>>
@contract
    ensures r.vals() == vals(self.trie.root, s@)
@fn Model::decode
@contract
    requires self.wf()
    ensures
        !ids_ok(self.vocab@, ids@) ==> r is Err,
        r matches Err(e) ==> e matches Error::TokenIdOutOfBounds(b) && ids@.contains(b) && b >= self.vocab@.len(),
        ids_ok(self.vocab@, ids@) ==> r is Ok && r->Ok_0@ == lossy(cat(toks_of(self.vocab@, ids@))),
@loop 1
    invariant
        __i1 <= ids@.len(),
        ids_ok(self.vocab@, ids@.take(__i1 as int)),
        res@ == cat(toks_of(self.vocab@, ids@.take(__i1 as int))),
@body_start 1
    proof {
        assert(ids@.take(__i1 as int) =~= ids@.take(__v1 as int).push(id));
        lemma_toks_push(self.vocab@, ids@.take(__v1 as int), id);
        lemma_cat_push(toks_of(self.vocab@, ids@.take(__v1 as int)), self.vocab@[id as int].value@);
    }
@after 1
    proof { assert(ids@.take(ids@.len() as int) =~= ids@); }
@fn Model::encode
@contract
    requires self.wf()
    ensures
        r matches Ok(ids) ==> ids_ok(self.vocab@, ids@) && splits(self.vocab@, toks_of(self.vocab@, ids@), sb(input@)),
        r matches Ok(ids) ==> fle(dropout, 0.0f64) && finite(self.vocab@) ==> forall|ps: Seq<Seq<u8>>| #[trigger] splits(self.vocab@, ps, sb(input@)) //@C02 C13
            ==> fle(total(self.vocab@, ps), total(self.vocab@, toks_of(self.vocab@, ids@))), //@C02 C13
        r is Err ==> fle(dropout, 0.0f64) ==> forall|ps: Seq<Seq<u8>>| !(#[trigger] splits(self.vocab@, ps, sb(input@))), //@C03
        bytes_in(self.vocab@, sb(input@)) ==> r is Ok, //@C03
        r matches Ok(ids) ==> fle(1.0f64, dropout) ==> forall|i: int| 0 <= i < ids@.len() ==> (#[trigger] toks_of(self.vocab@, ids@)[i]).len() == 1, //@C03
@after_let dp
    let ghost v = self.vocab@; let ghost s = input@;
@loop 1
    invariant
        __i1 <= s.len(), s == input@, v == self.vocab@, self.wf(),
        table_ok(v, s, dp@), before(dp@, __i1 as int),
        scores_ok(v, s, dp@), beaten_to(v, s, dp@, __i1 as int, dropout), //@C02 C13
        tried_to(v, s, dp@, __i1 as int, dropout), singles_ok(s, dp@, dropout), //@C03
@after_let suffix
    let ghost h = vals(self.trie.root, suffix@);
    proof { assert(suffix@ =~= s.skip(pos as int)); lemma_search(self, suffix@); assert(h.skip(0) =~= h); }
@loop 2
    invariant
        __i1 == __v1 + 1, __v1 == pos, pos < s.len(), s == input@, v == self.vocab@, self.wf(),
        suffix@ == s.skip(pos as int), h == vals(self.trie.root, suffix@),
        __it2.vals().len() <= h.len(), __it2.vals() == h.skip(h.len() - __it2.vals().len()),
        table_ok(v, s, dp@), before(dp@, pos + 1), reach(dp@, pos as int),
        scores_ok(v, s, dp@), beaten_to(v, s, dp@, pos as int, dropout), //@C02 C13
        forall|j: int| 0 <= j < h.len() - __it2.vals().len() ==> beaten(v, s, dp@, pos as int, (#[trigger] h[j]).1 as int, dropout), //@C02 C13
        tried_to(v, s, dp@, pos as int, dropout), singles_ok(s, dp@, dropout), //@C03
        forall|j: int| 0 <= j < h.len() - __it2.vals().len() ==> tried(v, s, dp@, pos as int, (#[trigger] h[j]).1 as int, dropout), //@C03
@body_start 2
    let ghost d0 = dp@; let ghost c = h.len() - __it2.vals().len() - 1;
    proof {
        assert(h[c] == (id, len));
        assert(h.skip(c).drop_first() =~= h.skip(c + 1));
        lemma_search(self, suffix@);
        assert(piece(s, pos as int, len as int) == suffix@.take(len as int));
    }
@body_end 2
    proof {
        let k = h[c].1 as int;
        ax_le_trans(1.0f64, dropout, 0.0f64);
        if dp@[pos + k] == d0[pos + k] && dp@ =~= d0.update(pos + k, dp@[pos + k]) { assert(dp@ =~= d0); }
        if dp@ != d0 {
            assert(dp@ =~= d0.update(pos + k, dp@[pos + k]));
            lemma_put(v, s, d0, dp@, pos, k);
            lemma_put_scores(v, s, d0, dp@, pos, k); lemma_put_beaten(v, s, d0, dp@, pos, k, dropout); //@C02 C13
            lemma_put_tried(v, s, d0, dp@, pos, k, dropout); lemma_put_singles(s, d0, dp@, pos, k, dropout); //@C03
        }
        assert(beaten(v, s, dp@, pos as int, k, dropout)); //@C02 C13
        assert(tried(v, s, dp@, pos as int, k, dropout)); //@C03
        assert forall|j: int| 0 <= j < c + 1 implies beaten(v, s, dp@, pos as int, (#[trigger] h[j]).1 as int, dropout) by { if j < c { assert(beaten(v, s, d0, pos as int, h[j].1 as int, dropout)); } } //@C02 C13
        assert forall|j: int| 0 <= j < c + 1 implies tried(v, s, dp@, pos as int, (#[trigger] h[j]).1 as int, dropout) by { if j < c { assert(tried(v, s, d0, pos as int, h[j].1 as int, dropout)); } } //@C03
    }
@after 2
    proof {
        lemma_search(self, suffix@);
        assert forall|k: int| 1 <= k <= s.len() - pos implies beaten(v, s, dp@, pos as int, k, dropout) by { //@C02 C13
            if last_id(v, piece(s, pos as int, k)) is Some { //@C02 C13
                assert(last_id(v, suffix@.take(k)) is Some); //@C02 C13
                let j = choose|j: int| 0 <= j < h.len() && (#[trigger] h[j]).1 == k; //@C02 C13
                assert(beaten(v, s, dp@, pos as int, h[j].1 as int, dropout)); //@C02 C13
            } //@C02 C13
        } //@C02 C13
        assert forall|k: int| 1 <= k <= s.len() - pos implies tried(v, s, dp@, pos as int, k, dropout) by { //@C03
            if last_id(v, piece(s, pos as int, k)) is Some { //@C03
                assert(last_id(v, suffix@.take(k)) is Some); //@C03
                let j = choose|j: int| 0 <= j < h.len() && (#[trigger] h[j]).1 == k; //@C03
                assert(tried(v, s, dp@, pos as int, h[j].1 as int, dropout)); //@C03
            } //@C03
        } //@C03
    }
@after 1
    proof {
        let n = s.len() as int;
        assert(s.take(n) =~= s);
        if bytes_in(v, s) { lemma_singles(v, s); lemma_complete(v, s, dp@, singles(s), n, dropout); } //@C03
        if fle(dropout, 0.0f64) { assert forall|ps: Seq<Seq<u8>>| #[trigger] splits(v, ps, s) implies reach(dp@, n) by { lemma_complete(v, s, dp@, ps, n, dropout); } } //@C03
        if fle(dropout, 0.0f64) && finite(v) { assert forall|ps: Seq<Seq<u8>>| #[trigger] splits(v, ps, s) implies fle(total(v, ps), dp@[n].score) by { lemma_optimal(v, s, dp@, ps, n, dropout); } } //@C02 C13
        if reach(dp@, n) {
            lemma_path(v, s, dp@, n);
            lemma_path_score(v, s, dp@, n); //@C02 C13
            if fle(1.0f64, dropout) { lemma_path_single(v, s, dp@, n, dropout); } //@C03
        }
    }
@loop 3
    invariant
        pos <= s.len(), s == input@, v == self.vocab@,
        table_ok(v, s, dp@),
        !reach(dp@, s.len() as int) ==> pos == s.len(),
        reach(dp@, s.len() as int) ==> reach(dp@, pos as int) && path_ids(dp@, s.len() as int) == path_ids(dp@, pos as int) + ids@.reverse(),
    decreases pos
@before 3
    proof { assert(path_ids(dp@, s.len() as int) =~= path_ids(dp@, s.len() as int) + Seq::<u32>::empty().reverse()); }
@body_start 3
    let ghost i0 = ids@;
    proof { assert(cell_ok(v, s, dp@, pos as int)); }
@body_end 3
    proof { assert(path_ids(dp@, s.len() as int) =~= path_ids(dp@, pos as int) + ids@.reverse()); }
@after 3
    proof { assert(path_ids(dp@, s.len() as int) =~= ids@.reverse()); }
