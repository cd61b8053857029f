@module regexes src/regex.rs
@subst IntoIterator<Item = Regex> => VxIntoIter<Item = Regex>
@spec
use crate::shim::*;
broadcast use crate::shim::group_vx;
broadcast use crate::shim::group_str;

pub open spec fn srcs(v: Seq<Regex>) -> Seq<Seq<char>> { v.map_values(|r: Regex| r.src()) }
pub open spec fn all_closed(ps: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < ps.len() ==> closed_pattern(#[trigger] ps[i]) }
/// C19: accepts what one of the parts matches as a whole
pub open spec fn accepts_whole(r: Regex, ps: Seq<Seq<char>>) -> bool { ps.len() > 0 && all_closed(ps) ==> forall|s: Seq<char>| #[trigger] re_is_match(r, s) <==> exists|i: int| 0 <= i < ps.len() && whole(#[trigger] ps[i], s) }
/// C19: finds, at each position, the match of the first part that matches there
pub open spec fn finds_first(r: Regex, ps: Seq<Seq<char>>) -> bool { ps.len() > 0 && all_closed(ps) ==> forall|s: Seq<char>, i: int| #[trigger] match_at(r.src(), s, i) == first_match_at(ps, s, i) }
pub proof fn lemma_accepts(r: Regex, ps: Seq<Seq<char>>)
    requires r.src() == joined(wrapped(seq!['^', '(', '?', ':'], ps, seq![')', '$']), seq!['|']) ensures accepts_whole(r, ps)
{ if ps.len() > 0 && all_closed(ps) { assert forall|s: Seq<char>| #[trigger] re_is_match(r, s) <==> exists|i: int| 0 <= i < ps.len() && whole(#[trigger] ps[i], s) by { ax_whole(ps, r, s); } } }
pub proof fn lemma_finds(r: Regex, ps: Seq<Seq<char>>)
    requires r.src() == joined(wrapped(seq!['(', '?', ':'], ps, seq![')']), seq!['|']) ensures finds_first(r, ps)
{ if ps.len() > 0 && all_closed(ps) { assert forall|s: Seq<char>, i: int| #[trigger] match_at(r.src(), s, i) == first_match_at(ps, s, i) by { ax_first(ps, r, s, i); } } }
pub open spec fn upto(c: Seq<String>, a: Seq<char>, ps: Seq<Seq<char>>, b: Seq<char>) -> bool { c.map_values(|s: String| s@) =~= wrapped(a, ps, b) }
@fn build_allow_regex
@opt may_panic format
@contract
    ensures accepts_whole(r, srcs(regexes.elems())), r.src() == joined(wrapped(seq!['^', '(', '?', ':'], srcs(regexes.elems()), seq![')', '$']), seq!['|'])
@start
    let ghost ps = srcs(regexes.elems()); let ghost es = regexes.elems();
    let ghost a: Seq<char> = seq!['^', '(', '?', ':']; let ghost b: Seq<char> = seq![')', '$'];
    proof { reveal_strlit("^(?:"); reveal_strlit(")$"); reveal_strlit("|"); assert("^(?:"@ =~= a); assert(")$"@ =~= b); assert("|"@ =~= seq!['|']); assert(es.skip(0) =~= es); }
@loop 1
    invariant
        __c1@.len() <= es.len(), __it1@ == es.skip(__c1@.len() as int),
        upto(__c1@, a, ps.take(__c1@.len() as int), b),
    ensures __c1@.len() == es.len(),
@body_end 1
    proof { let n = __c1@.len() as int; assert(es.skip(n - 1).drop_first() =~= es.skip(n)); assert(ps.take(n)[n - 1] == ps[n - 1]); assert(ps[n - 1] == es[n - 1].src()); assert(es.skip(n - 1)[0] == es[n - 1]); assert(__c1@.last()@ == a + ps[n - 1] + b); let w = wrapped(a, ps.take(n), b); let w0 = wrapped(a, ps.take(n - 1), b); let c0 = __c1@.drop_last(); let m = __c1@.map_values(|s: String| s@); assert(c0.map_values(|s: String| s@) =~= w0); assert forall|i: int| 0 <= i < n implies m[i] == w[i] by { if i < n - 1 { assert(m[i] == c0.map_values(|s: String| s@)[i]); assert(ps.take(n - 1)[i] == ps.take(n)[i]); assert(w0[i] == w[i]); } } assert(upto(__c1@, a, ps.take(n), b)); }
@after 1
    proof { assert(ps.take(ps.len() as int) =~= ps);
        assert forall|x: Regex| x.src() == joined(wrapped(a, ps, b), seq!['|']) implies #[trigger] accepts_whole(x, ps) by { lemma_accepts(x, ps); } }
@fn build_mine_regex
@opt may_panic format
@contract
    ensures finds_first(r, srcs(regexes.elems())), r.src() == joined(wrapped(seq!['(', '?', ':'], srcs(regexes.elems()), seq![')']), seq!['|'])
@start
    let ghost ps = srcs(regexes.elems()); let ghost es = regexes.elems();
    let ghost a: Seq<char> = seq!['(', '?', ':']; let ghost b: Seq<char> = seq![')'];
    proof { reveal_strlit("(?:"); reveal_strlit(")"); reveal_strlit("|"); assert("(?:"@ =~= a); assert(")"@ =~= b); assert("|"@ =~= seq!['|']); assert(es.skip(0) =~= es); }
@loop 1
    invariant
        __c1@.len() <= es.len(), __it1@ == es.skip(__c1@.len() as int),
        upto(__c1@, a, ps.take(__c1@.len() as int), b),
    ensures __c1@.len() == es.len(),
@body_end 1
    proof { let n = __c1@.len() as int; assert(es.skip(n - 1).drop_first() =~= es.skip(n)); assert(ps.take(n)[n - 1] == ps[n - 1]); assert(ps[n - 1] == es[n - 1].src()); assert(es.skip(n - 1)[0] == es[n - 1]); assert(__c1@.last()@ == a + ps[n - 1] + b); let w = wrapped(a, ps.take(n), b); let w0 = wrapped(a, ps.take(n - 1), b); let c0 = __c1@.drop_last(); let m = __c1@.map_values(|s: String| s@); assert(c0.map_values(|s: String| s@) =~= w0); assert forall|i: int| 0 <= i < n implies m[i] == w[i] by { if i < n - 1 { assert(m[i] == c0.map_values(|s: String| s@)[i]); assert(ps.take(n - 1)[i] == ps.take(n)[i]); assert(w0[i] == w[i]); } } assert(upto(__c1@, a, ps.take(n), b)); }
@after 1
    proof { assert(ps.take(ps.len() as int) =~= ps);
        assert forall|x: Regex| x.src() == joined(wrapped(a, ps, b), seq!['|']) implies #[trigger] finds_first(x, ps) by { lemma_finds(x, ps); } }
