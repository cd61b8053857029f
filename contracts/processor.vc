@module processor src/processor.rs
@struct CrlfProcessor
@struct UnicodeProcessor
@struct ProcessorWrapper
@spec
use crate::shim::*;
broadcast use crate::shim::group_vx;

/// CR LF becomes LF; nothing else changes
pub open spec fn crlf(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { s }
    else if s.len() >= 2 && s[0] == '\r' && s[1] == '\n' { seq!['\n'] + crlf(s.skip(2)) }
    else { seq![s[0]] + crlf(s.skip(1)) }
}
pub proof fn lemma_crlf(s: Seq<char>)
    ensures replaced(s, seq!['\r', '\n'], seq!['\n']) == crlf(s)
    decreases s.len()
{
    let f = seq!['\r', '\n'];
    if s.len() > 0 {
        if s.len() >= 2 {
            assert(s.take(2) =~= seq![s[0], s[1]]);
            assert(s.take(2) == f <==> s[0] == '\r' && s[1] == '\n') by {
                if s.take(2) == f { assert(s.take(2)[0] == f[0]); assert(s.take(2)[1] == f[1]); }
            }
            lemma_crlf(s.skip(2));
        }
        lemma_crlf(s.skip(1));
    }
}
impl CrlfProcessor {
    pub open spec fn pre(&self, s: Seq<char>) -> Seq<char> { crlf(s) }
    pub open spec fn post(&self, s: Seq<char>) -> Seq<char> { s }
}
impl UnicodeProcessor {
    pub open spec fn pre(&self, s: Seq<char>) -> Seq<char> {
        match self { UnicodeProcessor::Nfc => nfc(s), UnicodeProcessor::Nfd => nfd(s), UnicodeProcessor::Nfkc => nfkc(s), UnicodeProcessor::Nfkd => nfkd(s) }
    }
    pub open spec fn post(&self, s: Seq<char>) -> Seq<char> { s }
}
impl ProcessorWrapper {
    pub open spec fn pre(&self, s: Seq<char>) -> Seq<char> { match self { ProcessorWrapper::Crlf(p) => p.pre(s), ProcessorWrapper::Unicode(p) => p.pre(s) } }
    pub open spec fn post(&self, s: Seq<char>) -> Seq<char> { s }
}
/// the processors in list order
pub open spec fn pre_all(ps: Seq<ProcessorWrapper>, s: Seq<char>) -> Seq<char> decreases ps.len() {
    if ps.len() == 0 { s } else { ps.last().pre(pre_all(ps.drop_last(), s)) }
}
/// ... and in reverse order
pub open spec fn post_all(ps: Seq<ProcessorWrapper>, s: Seq<char>) -> Seq<char> decreases ps.len() {
    if ps.len() == 0 { s } else { post_all(ps.drop_last(), ps.last().post(s)) }
}
pub proof fn lemma_pre_push(ps: Seq<ProcessorWrapper>, n: int, s: Seq<char>)
    requires 0 <= n < ps.len(),
    ensures pre_all(ps.take(n + 1), s) == ps[n].pre(pre_all(ps.take(n), s)),
{ assert(ps.take(n + 1).drop_last() =~= ps.take(n)); }
pub proof fn lemma_post_step(ps: Seq<ProcessorWrapper>, n: int, s: Seq<char>)
    requires 0 <= n < ps.len(),
    ensures post_all(ps.take(n + 1), s) == post_all(ps.take(n), ps[n].post(s)),
{ assert(ps.take(n + 1).drop_last() =~= ps.take(n)); }
pub proof fn lemma_post_id(ps: Seq<ProcessorWrapper>, s: Seq<char>)
    ensures post_all(ps, s) == s,
    decreases ps.len(),
{ if ps.len() > 0 { lemma_post_id(ps.drop_last(), s); } }

@fn CrlfProcessor@Processor::preprocess
@opt inherent
@contract
    ensures r@ == self.pre(s@)
@start
    proof { reveal_strlit("\r\n"); reveal_strlit("\n"); assert("\r\n"@ =~= seq!['\r', '\n']); assert("\n"@ =~= seq!['\n']); lemma_crlf(s@); }
@fn CrlfProcessor@Processor::postprocess
@opt inherent
@contract
    ensures r@ == self.post(s@)
@fn UnicodeProcessor@Processor::preprocess
@opt inherent
@contract
    ensures r@ == self.pre(s@)
@fn UnicodeProcessor@Processor::postprocess
@opt inherent
@contract
    ensures r@ == self.post(s@)
@fn ProcessorWrapper@Processor::preprocess
@opt inherent
@contract
    ensures r@ == self.pre(s@)
@fn ProcessorWrapper@Processor::postprocess
@opt inherent
@contract
    ensures r@ == self.post(s@)
