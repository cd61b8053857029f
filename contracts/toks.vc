@module toks src/lib.rs
@subst std::io::Error => IoError
@subst serde_json::Error => JsonError
@struct TokenID
@struct Token
@struct ScoredToken
@struct Error
@struct Result
@spec
use crate::shim::*;
broadcast use crate::shim::group_vx;

/// The id of the most recent entry with these bytes.
pub open spec fn last_id(v: Seq<ScoredToken>, k: Seq<u8>) -> Option<int> decreases v.len() {
    if v.len() == 0 { None } else if v.last().value@ == k { Some(v.len() - 1) } else { last_id(v.drop_last(), k) }
}
pub proof fn lemma_last_id(v: Seq<ScoredToken>, k: Seq<u8>)
    ensures
        last_id(v, k) matches Some(i) ==> 0 <= i < v.len() && v[i].value@ == k && forall|j: int| i < j < v.len() ==> (#[trigger] v[j]).value@ != k,
        last_id(v, k) is None ==> forall|j: int| 0 <= j < v.len() ==> (#[trigger] v[j]).value@ != k,
    decreases v.len()
{
    if v.len() > 0 && v.last().value@ != k {
        lemma_last_id(v.drop_last(), k);
        assert forall|j: int| 0 <= j < v.len() && v[j].value@ == k implies j < v.len() - 1 by { if j == v.len() - 1 { assert(v[j] == v.last()); } }
        assert forall|j: int| 0 <= j < v.len() - 1 implies #[trigger] v[j] == v.drop_last()[j] by { }
    }
}
pub proof fn lemma_last_id_push(v: Seq<ScoredToken>, t: ScoredToken, k: Seq<u8>)
    ensures last_id(v.push(t), k) == if t.value@ == k { Some(v.len() as int) } else { last_id(v, k) }
{
    assert(v.push(t).drop_last() =~= v);
}
pub proof fn lemma_last_id_any(v: Seq<ScoredToken>, i: int)
    requires 0 <= i < v.len(),
    ensures last_id(v, v[i].value@) is Some, last_id(v, v[i].value@)->Some_0 >= i,
{ lemma_last_id(v, v[i].value@); }

/// PartialOrd of tokens compares scores (contract of partial_cmp below)
impl VxPartialCmp for ScoredToken {
    open spec fn pcmp(&self, o: &ScoredToken) -> Option<core::cmp::Ordering> { self.score.pcmp(&o.score) }
    fn vx_partial_cmp(&self, o: &ScoredToken) -> (r: Option<core::cmp::Ordering>) { self.partial_cmp(o) }
}

@fn ScoredToken::new
@contract
    ensures r == (ScoredToken { value, score, keep })
@fn ScoredToken::from_u8
@contract
    ensures r.value@ == seq![value], r.score == score, r.keep == keep
@fn ScoredToken::clone_with_score
@contract
    ensures r.value@ == self.value@, r.score == score, r.keep == self.keep
@fn ScoredToken::clone_with_keep
@contract
    ensures r.value@ == self.value@, r.score == self.score, r.keep == keep
@fn ScoredToken::len
@contract
    ensures r == self.value@.len()
@fn ScoredToken::is_empty
@contract
    ensures r == (self.value@.len() == 0)
@fn ScoredToken::from_str
@contract
    ensures r.value@ == sb(value@), r.score == score, r.keep == keep
@fn ScoredToken@PartialOrd::partial_cmp
@opt inherent
@contract
    ensures r == self.score.pcmp(&other.score)
