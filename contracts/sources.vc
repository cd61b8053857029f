@module sources src/cli.rs
@subst std::str::from_utf8 => vx_from_utf8
@subst std::fs::read => vx_fs_read
@struct Source
@spec
use crate::shim::*;
use crate::processor::*;
broadcast use crate::shim::group_vx;
broadcast use crate::shim::group_str;

pub type Texts = Seq<Seq<char>>;
pub open spec fn text_of(b: Seq<u8>) -> Seq<char> { vstd::utf8::decode_utf8(b) }
pub open spec fn zeros(b: Seq<u8>) -> Seq<bool> { Seq::new(b.len(), |i: int| b[i] == 0) }
/// the parts of a file between NUL bytes
pub open spec fn parts(b: Seq<u8>) -> Seq<Seq<u8>> { cut_mask(b, zeros(b)) }
pub open spec fn all_text(ps: Seq<Seq<u8>>) -> bool { forall|i: int| 0 <= i < ps.len() ==> vstd::utf8::valid_utf8(#[trigger] ps[i]) }
/// the non-empty ones, as text, in order
pub open spec fn texts(ps: Seq<Seq<u8>>) -> Texts decreases ps.len() {
    if ps.len() == 0 { Seq::empty() } else { let t = texts(ps.drop_last()); let s = text_of(ps.last()); if s.len() == 0 { t } else { t.push(s) } }
}
/// each passed through the processors; those that become empty are dropped
pub open spec fn kept(pr: Seq<ProcessorWrapper>, ss: Texts) -> Texts decreases ss.len() {
    if ss.len() == 0 { Seq::empty() } else { let t = kept(pr, ss.drop_last()); let s = pre_all(pr, ss.last()); if s.len() == 0 { t } else { t.push(s) } }
}
/// how many samples are taken: the integer part of n * proportion
pub open spec fn share(n: int, p: Texts) -> int { usize_of(fmul(f_of(n), if p.len() == 3 { parse_f64(p[2])->Some_0 } else { 1.0f64 })) as int }
pub open spec fn taken(ss: Texts, p: Texts) -> Texts { let n = share(ss.len() as int, p); if n < ss.len() { ss.take(n) } else { ss } }
pub open spec fn strings(v: Seq<String>) -> Texts { v.map_values(|s: String| s@) }
pub open spec fn out_texts(o: Source) -> Texts { strings(o.processed_samples@) }
/// {name}:{path}[:proportion]
pub open spec fn loaded(src: Seq<char>, pr: Seq<ProcessorWrapper>, o: Source) -> bool {
    let p = cut_at(src, ':');
    &&& p.len() == 2 || p.len() == 3 && parse_f64(p[2]) is Some
    &&& file(p[1]) is Some
    &&& all_text(parts(file(p[1])->Some_0))
    &&& out_texts(o) == kept(pr, taken(texts(parts(file(p[1])->Some_0)), p))
    &&& o.name@ == p[0]
    &&& p.len() == 2 ==> out_texts(o) == kept(pr, texts(parts(file(p[1])->Some_0)))
}
pub proof fn lemma_texts_step(ps: Seq<Seq<u8>>, n: int, s: Seq<char>)
    requires 0 <= n < ps.len(), sb(s) == ps[n]
    ensures texts(ps.take(n + 1)) == if s.len() == 0 { texts(ps.take(n)) } else { texts(ps.take(n)).push(s) }, vstd::utf8::valid_utf8(ps[n])
{
    assert(ps.take(n + 1).drop_last() =~= ps.take(n));
    vstd::utf8::encode_utf8_decode_utf8(s);
    vstd::utf8::encode_utf8_valid_utf8(s);
}
pub proof fn lemma_kept_step(pr: Seq<ProcessorWrapper>, ss: Texts, n: int)
    requires 0 <= n < ss.len()
    ensures kept(pr, ss.take(n + 1)) == if pre_all(pr, ss[n]).len() == 0 { kept(pr, ss.take(n)) } else { kept(pr, ss.take(n)).push(pre_all(pr, ss[n])) }
{ assert(ss.take(n + 1).drop_last() =~= ss.take(n)); }
pub proof fn lemma_parts_len(b: Seq<u8>, m: Seq<bool>) requires m.len() == b.len() ensures 1 <= cut_mask(b, m).len() <= b.len() + 1 decreases b.len()
{ if b.len() > 0 { lemma_parts_len(b.skip(1), m.skip(1)); } }
pub proof fn lemma_texts_len(ps: Seq<Seq<u8>>) ensures texts(ps).len() <= ps.len() decreases ps.len() { if ps.len() > 0 { lemma_texts_len(ps.drop_last()); } }
/// without a proportion every sample is taken
pub proof fn lemma_all(path: Seq<char>, p: Texts)
    requires file(path) is Some, p.len() == 2
    ensures taken(texts(parts(file(path)->Some_0)), p) == texts(parts(file(path)->Some_0))
{
    let b = file(path)->Some_0;
    ax_file(path); lemma_parts_len(b, zeros(b)); lemma_texts_len(parts(b));
    ax_times_one(texts(parts(b)).len() as int);
}
@fn load_sources
@opt may_panic sum:any
@contract
    ensures
        r@.len() == sources@.len(),
        forall|i: int| 0 <= i < r@.len() ==> loaded(sources@[i]@, processors@, #[trigger] r@[i]),
@loop 1
    invariant
        __s1@ == sources@, __i1 <= sources@.len(), __c1@.len() == __i1,
        forall|i: int| 0 <= i < __i1 ==> loaded(sources@[i]@, processors@, #[trigger] __c1@[i]),
@before 2
    let ghost a2 = __it2@;
@loop 2
    invariant __c2@ + __it2@ == a2,
    ensures __it2@.len() == 0,
@body_end 2
    proof { assert(__c2@ + __it2@ =~= a2); }
@after 2
    proof { assert(__c2@ =~= a2); }
@after_let filepath
    let ghost pp = cut_at(source@, ':');
    proof { assert(pp == txs_ref(pieces@)); assert(name@ == pp[0] && filepath@ == pp[1] && pp.len() == pieces@.len()); }
@after_let file_contents
    let ghost b = file_contents@; let ghost fparts = parts(b);
    proof { assert(pp.len() == 3 ==> parse_f64(pp[2]) == Some(proportion)); assert(pp.len() == 2 ==> proportion == 1.0f64); }
@loop 4
    invariant
        __i4 <= __s4@.len(), __s4@ == b, __c4@ == zeros(b).take(__i4 as int),
@body_end 4
    proof { assert(__c4@ =~= zeros(b).take(__i4 as int)); }
@after 4
    proof { assert(__c4@ =~= zeros(b)); }
@before 3
    let ghost a3 = __it3@; let ghost mut n3: int = 0;
    proof { assert(a3.skip(0) =~= a3); assert(fparts.take(0) =~= Seq::<Seq<u8>>::empty()); assert(txs_ref(__c3@) =~= Seq::<Seq<char>>::empty()); }
@loop 3
    invariant
        deref_all(a3) == fparts, 0 <= n3 <= a3.len(), __it3@ == a3.skip(n3),
        forall|i: int| 0 <= i < n3 ==> vstd::utf8::valid_utf8(#[trigger] fparts[i]),
        txs_ref(__c3@) == texts(fparts.take(n3)),
    ensures n3 == a3.len(),
@filter 3
    proof {
        assert(a3.skip(n3).drop_first() =~= a3.skip(n3 + 1));
        assert(fparts[n3] == __x3@);
        lemma_texts_step(fparts, n3, __m1@);
        n3 = n3 + 1;
    }
@body_end 3
    proof { assert(txs_ref(__c3@) =~= texts(fparts.take(n3))); }
@after 3
    proof { assert(fparts.take(n3) =~= fparts); }
@after_let samples
    let ghost ss = texts(fparts);
    proof { assert(txs_ref(samples@) == ss); assert(all_text(fparts)); }
@before 7
    proof { lemma_blen_pos(s@); }
@loop 7
    invariant __c7 + __it7@.len() == s@.len(), s@.len() <= isize::MAX,
@after_let processed_samples
    proof {
        let tk = taken(ss, pp);
        assert(strings(processed_samples@) == kept(processors@, tk));
        if pp.len() == 2 { lemma_all(filepath@, pp); }
    }
@before 8
    proof { assert(ss.take(0) =~= Seq::<Seq<char>>::empty()); assert(strings(__c8@) =~= Seq::<Seq<char>>::empty()); }
@loop 8
    invariant
        ss == txs_ref(samples@), __s8@ == samples@, __i8 <= samples@.len(), __i8 <= __t8,
        strings(__c8@) == kept(processors@, ss.take(__i8 as int)),
@loop 9
    invariant
        ss == txs_ref(samples@), __s9@ == processors@, __i9 <= processors@.len(), 0 <= __v8 < samples@.len(), s == samples@[__v8 as int],
        sample@ == pre_all(processors@.take(__i9 as int), ss[__v8 as int]),
@body_end 9
    proof { lemma_pre_push(processors@, __v9 as int, ss[__v8 as int]); }
@after 9
    proof { assert(processors@.take(processors@.len() as int) =~= processors@); assert(sample@ == pre_all(processors@, ss[__v8 as int])); }
@filter 8
    proof { lemma_kept_step(processors@, ss, __v8 as int); }
@body_end 8
    proof { assert(strings(__c8@) =~= kept(processors@, ss.take(__i8 as int))); }
@after 8
    proof { assert(ss.take(ss.len() as int) =~= ss); }
@before 12
    proof { lemma_blen_pos(s@); }
@loop 12
    invariant __c12 + __it12@.len() == s@.len(), s@.len() <= isize::MAX,
