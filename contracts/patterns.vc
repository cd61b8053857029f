@module patterns src/cli.rs
@subst std::fs::write => vx_fs_write
@subst serde_json::to_string_pretty => vx_json_to_string
@opaque load_sources
@opaque shuffled_train_samples
@spec
use crate::shim::*;
use crate::regexes::*;
use crate::mine::{IdiomMiner, bag, mined};
use crate::processor::ProcessorWrapper;
use crate::sources::{Source, load_sources, loaded};
use crate::cmds::{shuffled_train_samples, data, sources_of, drawn};
broadcast use crate::shim::group_vx;
broadcast use crate::shim::group_str;

/// a function of the table of predefined patterns
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct PatFn { f: u8 }
impl PatFn { pub uninterp spec fn src(&self) -> Seq<char>; }
#[verifier::external_body]
pub fn vx_call0(p: &PatFn) -> (r: Regex) ensures r.src() == p.src() { unimplemented!() }
pub type Pat = (&'static str, PatFn, &'static [&'static str], &'static [&'static str]);
/// the table, PATTERNS of src/regex.rs
pub uninterp spec fn pats() -> Seq<Pat>;
#[verifier::external_body]
pub exec const PATTERNS: &'static [Pat] ensures PATTERNS@ == pats() { &[] }

/// the first pattern of the table with the name
pub open spec fn named(t: Seq<Pat>, n: Seq<char>) -> Option<Seq<char>> decreases t.len() {
    if t.len() == 0 { None } else if named(t.drop_last(), n) is Some { named(t.drop_last(), n) } else if t.last().0@ == n { Some(t.last().1.src()) } else { None }
}
/// what an argument stands for: the predefined pattern of the name, else itself
pub open spec fn stands_for(n: Seq<char>) -> Seq<char> { match named(pats(), n) { Some(p) => p, None => n } }
pub open spec fn meant(args: Seq<String>) -> Seq<Seq<char>> { args.map_values(|a: String| stands_for(a@)) }
pub open spec fn first_hit(o: Option<&Pat>, n: Seq<char>) -> bool { match o { Some(p) => named(pats(), n) == Some(p.1.src()), None => named(pats(), n) is None } }
pub proof fn lemma_named(t: Seq<Pat>, n: Seq<char>, i: int)
    requires 0 <= i < t.len(), named(t.take(i), n) is None
    ensures t[i].0@ == n ==> named(t, n) == Some(t[i].1.src()), t[i].0@ != n ==> named(t.take(i + 1), n) is None
    decreases t.len()
{
    assert(t.take(i + 1).drop_last() =~= t.take(i));
    if t[i].0@ == n { if i + 1 < t.len() { assert(t.drop_last().take(i) =~= t.take(i)); lemma_named(t.drop_last(), n, i); } else { assert(t.drop_last() =~= t.take(i)); } }
}
/// what `tokengeex regex` may write: the pattern composed of those that are meant
pub open spec fn regex_writes(args: Seq<String>, r: Regex) -> bool {
    accepts_whole(r, meant(args)) && r.src() == joined(wrapped(seq!['^', '(', '?', ':'], meant(args), seq![')', '$']), seq!['|'])
}
pub open spec fn idiom_texts(out: Seq<(String, usize)>) -> Seq<Seq<char>> { out.map_values(|x: (String, usize)| x.0@) }
pub open spec fn list_doc(ts: Seq<Seq<char>>) -> Doc { Doc::List(ts.map_values(|t: Seq<char>| Doc::Text(t))) }
pub open spec fn mine_run(r: Regex, ss: Seq<&str>, out: Seq<(String, usize)>, n: usize, train: Seq<String>, args: Seq<String>, s: Seq<char>) -> bool {
    &&& finds_first(r, meant(args)) && r.src() == joined(wrapped(seq!['(', '?', ':'], meant(args), seq![')']), seq!['|'])
    &&& data(train, Seq::empty(), ss) && mined(bag(r, ss), n as int, out) && json_of(list_doc(idiom_texts(out)), s)
}
/// what `tokengeex mine` may write: the texts of the most frequent matches, most frequent first
pub open spec fn mine_writes(n: usize, train: Seq<String>, args: Seq<String>, s: Seq<char>) -> bool {
    exists|r: Regex, ss: Seq<&str>, out: Seq<(String, usize)>| #[trigger] mine_run(r, ss, out, n, train, args, s)
}
pub open spec fn idiom_strs(c: Seq<String>, out: Seq<(String, usize)>) -> bool { c.len() == out.len() && forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i])@ == out[i].0@ }
pub proof fn lemma_idioms(c: Seq<String>, out: Seq<(String, usize)>) requires idiom_strs(c, out) ensures docs(c) == list_doc(idiom_texts(out))
{ let a = Seq::new(c.len(), |i: int| c[i].doc()); let b = idiom_texts(out).map_values(|t: Seq<char>| Doc::Text(t)); assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { assert(c[i].doc() == Doc::Text(c[i]@)); } assert(a =~= b); }
@fn load_patterns
@opt may_panic fnptr streq
@contract
    ensures srcs(r@) == meant(patterns@)
@start
    let ghost mut name0: Seq<char> = Seq::empty();
@loop 1
    invariant
        __s1@ == patterns@, __i1 <= patterns@.len(), __c1@.len() == __i1, forall|i: int| 0 <= i < __i1 ==> (#[trigger] __c1@[i]).src() == stands_for(patterns@[i]@),
@before 2
    proof { name0 = name@;  assert(pats().take(0) =~= Seq::<Pat>::empty()); }
@loop 2
    invariant_except_break __i2 <= pats().len(), named(pats().take(__i2 as int), name@) is None, __c2 is None,
    invariant __s2@ == pats(),
    ensures first_hit(__c2, name@),
@body_start 2
    proof { lemma_named(pats(), name@, __v2 as int); }
@body_end 2
    proof { if __i2 == pats().len() { assert(pats().take(__i2 as int) =~= pats()); } }
@after 2
    proof { assert(pats().take(pats().len() as int) =~= pats()); assert(first_hit(__c2, name@)); assert(name@ == patterns@[__v1 as int]@); }
@body_end 1
    proof { assert(__c1@.last().src() == stands_for(name0)); let i = __v1 as int; assert(__c1@[i].src() == stands_for(patterns@[i]@)); }
@after 1
    proof { assert(srcs(__c1@) =~= meant(patterns@)); }
@fn regex_cmd
@opt may_panic fnptr
@contract
    requires output matches Some(o) ==> forall|x: Regex| #[trigger] regex_writes(patterns@, x) ==> may_write(o@, sb(x.src())),
    ensures output matches Some(o) ==> exists|x: Regex| #[trigger] regex_writes(patterns@, x) && wrote(o@, sb(x.src()))
@start
    let ghost args = patterns@;
@after_let re
    proof { assert(regex_writes(args, re)); assert((*output)@ == output@); }
@fn mine_cmd
@opt may_panic
@contract
    requires forall|s: Seq<char>| #[trigger] mine_writes(num_idioms, train@, patterns@, s) ==> may_write(output@, sb(s)),
    ensures exists|s: Seq<char>| #[trigger] mine_writes(num_idioms, train@, patterns@, s) && wrote(output@, sb(s))
@start
    let ghost args = patterns@; let ghost files = train@;
@after_let train_samples
    let ghost ss = train_samples@;
    proof { assert forall|i: int| 0 <= i < train@.len() implies loaded(files[i]@, Seq::empty(), #[trigger] train@[i]) by { let e: [ProcessorWrapper; 0] = []; assert(loaded(files[i]@, e@, train@[i])); assert(e@ =~= Seq::empty()); } assert(sources_of(files, Seq::empty(), train@)); assert(drawn(train@, ss)); assert(data(files, Seq::empty(), ss)); }
@after_let re
    let ghost r0 = re;
    proof { assume(bag(re, ss).len() <= usize::MAX); } // the samples are in memory
@after_let idioms
    let ghost out = idioms@;
@after_let idioms 2
    proof {
        lemma_idioms(idioms@, out);
        assert forall|s: Seq<char>| #[trigger] json_of(list_doc(idiom_texts(out)), s) implies mine_writes(num_idioms, files, args, s) by { assert(mine_run(r0, ss, out, num_idioms, files, args, s)); }
    }
@loop 2
    invariant __s2@ == out, __i2 <= out.len(), __c2@.len() == __i2, forall|i: int| 0 <= i < __i2 ==> (#[trigger] __c2@[i])@ == out[i].0@,
