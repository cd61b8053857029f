@module populate src/model.rs
@subst rand::random::<f64> => vx_random
@spec
use crate::shim::*;
use crate::toks::*;
use crate::trie::{vals, Trie, TrieIterator};
use crate::model::{piece, lemma_search, Model};
use crate::lattice::{Lattice, Node, lemma_wf, nodes_ok, same, end};
broadcast use crate::shim::group_vx;
broadcast use crate::toks::fl::group_fl;

/// node x is an occurrence of a token in s
pub open spec fn occurs(v: Seq<ScoredToken>, s: Seq<u8>, x: Node) -> bool {
    x.token_len > 0 && end(x) <= s.len() && last_id(v, piece(s, x.pos as int, x.token_len as int)) == Some(x.token_id as int) && x.score == v[x.token_id as int].score
}
pub open spec fn only_occurrences(v: Seq<ScoredToken>, s: Seq<u8>, nodes: Seq<Node>) -> bool { forall|i: int| 2 <= i < nodes.len() ==> occurs(v, s, #[trigger] nodes[i]) }
pub open spec fn before(a: Node, b: Node) -> bool { a.pos < b.pos || (a.pos == b.pos && a.token_len < b.token_len) }
/// no occurrence twice
pub open spec fn once(nodes: Seq<Node>) -> bool { forall|i: int, j: int| 2 <= i < j < nodes.len() ==> before(#[trigger] nodes[i], #[trigger] nodes[j]) }
pub open spec fn found(nodes: Seq<Node>, p: int, k: int) -> bool { exists|i: int| 2 <= i < nodes.len() && (#[trigger] nodes[i]).pos == p && nodes[i].token_len == k }
/// every occurrence that begins before position p
pub open spec fn all_before(v: Seq<ScoredToken>, s: Seq<u8>, nodes: Seq<Node>, q: int) -> bool {
    forall|p: int, k: int| 0 <= p < q && 1 <= k <= s.len() - p && last_id(v, #[trigger] piece(s, p, k)) is Some ==> found(nodes, p, k)
}
/// the nodes are exactly the occurrences of tokens in s
pub open spec fn exact(v: Seq<ScoredToken>, s: Seq<u8>, nodes: Seq<Node>) -> bool {
    only_occurrences(v, s, nodes) && once(nodes) && all_before(v, s, nodes, s.len() as int)
}
pub proof fn lemma_found_push(n0: Seq<Node>, x: Node)
    ensures forall|p: int, k: int| found(n0, p, k) ==> #[trigger] found(n0.push(x), p, k), n0.len() >= 2 ==> found(n0.push(x), x.pos as int, x.token_len as int)
{
    let n1 = n0.push(x);
    assert forall|p: int, k: int| found(n0, p, k) implies #[trigger] found(n1, p, k) by {
        let i = choose|i: int| 2 <= i < n0.len() && (#[trigger] n0[i]).pos == p && n0[i].token_len == k;
        assert(n1[i] == n0[i]);
    }
    assert(n1[n0.len() as int] == x);
}

@fn Model::populate_nodes
@contract
    requires self.wf(), old(lattice).wf(), old(lattice).fresh(),
    ensures final(lattice).wf(), final(lattice).sentence == old(lattice).sentence,
        only_occurrences(self.vocab@, old(lattice).sentence@, final(lattice).nodes@), once(final(lattice).nodes@),
        !flt(0.0f64, dropout) ==> exact(self.vocab@, old(lattice).sentence@, final(lattice).nodes@),
@start
    let ghost v = self.vocab@; let ghost s = lattice.sentence@;
@loop 1
    invariant
        __i1 <= s.len(), s == input@, v == self.vocab@, self.wf(), lattice.wf(), lattice.sentence == old(lattice).sentence, s == lattice.sentence@, lattice.nodes@.len() >= 2,
        only_occurrences(v, s, lattice.nodes@), once(lattice.nodes@),
        forall|i: int| 2 <= i < lattice.nodes@.len() ==> (#[trigger] lattice.nodes@[i]).pos < __i1,
        !flt(0.0f64, dropout) ==> all_before(v, s, lattice.nodes@, __i1 as int),
@after_let suffix
    let ghost h = vals(self.trie.root, suffix@);
    proof { assert(suffix@ =~= s.skip(pos as int)); lemma_search(self, suffix@); assert(h.skip(0) =~= h); }
@loop 2
    invariant
        __i1 == __v1 + 1, __v1 == pos, pos < s.len(), s == input@, v == self.vocab@, self.wf(), lattice.wf(), lattice.sentence == old(lattice).sentence, s == lattice.sentence@, lattice.nodes@.len() >= 2,
        suffix@ == s.skip(pos as int), h == vals(self.trie.root, suffix@),
        __it2.vals().len() <= h.len(), __it2.vals() == h.skip(h.len() - __it2.vals().len()),
        only_occurrences(v, s, lattice.nodes@), once(lattice.nodes@),
        forall|i: int| 2 <= i < lattice.nodes@.len() ==> (#[trigger] lattice.nodes@[i]).pos <= pos,
        forall|i: int, j: int| 2 <= i < lattice.nodes@.len() && (#[trigger] lattice.nodes@[i]).pos == pos && h.len() - __it2.vals().len() <= j < h.len() ==> lattice.nodes@[i].token_len < (#[trigger] h[j]).1,
        !flt(0.0f64, dropout) ==> all_before(v, s, lattice.nodes@, pos as int),
        !flt(0.0f64, dropout) ==> forall|j: int| 0 <= j < h.len() - __it2.vals().len() ==> found(lattice.nodes@, pos as int, (#[trigger] h[j]).1 as int),
@body_start 2
    let ghost n0 = lattice.nodes@; let ghost c = h.len() - __it2.vals().len() - 1;
    proof {
        assert(h[c] == (id, len));
        assert(h.skip(c).drop_first() =~= h.skip(c + 1));
        lemma_search(self, suffix@);
        assert(piece(s, pos as int, len as int) == suffix@.take(len as int));
        assert(s.skip(pos as int).len() == s.len() - pos);
    }
@body_end 2
    proof {
        if lattice.nodes@.len() > n0.len() {
            let x = lattice.nodes@.last();
            assert(lattice.nodes@ == n0.push(x));
            lemma_found_push(n0, x);
        } else {
            assert(lattice.nodes@ == n0);
        }
    }
@after 2
    proof {
        lemma_search(self, suffix@);
        if !flt(0.0f64, dropout) {
            assert forall|p: int, k: int| 0 <= p < pos + 1 && 1 <= k <= s.len() - p && last_id(v, #[trigger] piece(s, p, k)) is Some implies found(lattice.nodes@, p, k) by {
                if p == pos {
                    assert(last_id(v, suffix@.take(k)) is Some);
                    let j = choose|j: int| 0 <= j < h.len() && (#[trigger] h[j]).1 == k;
                    assert(found(lattice.nodes@, pos as int, h[j].1 as int));
                }
            }
        }
    }
