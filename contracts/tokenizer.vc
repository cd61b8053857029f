@module tokenizer src/tokenizer.rs
@subst IntoIterator => VxIntoIter
@subst IntoIterator<Item = ScoredToken> => VxIntoIter<Item = ScoredToken>
@subst IntoParallelIterator => VxIntoIter
@subst AsRef<str> => VxText
@subst AsRef<[TokenID]> => VxIds
@subst ToString => VxText
@subst Into<ProcessorWrapper> => VxInto<ProcessorWrapper>
@subst std::str::from_utf8 => vx_from_utf8
@struct Tokenizer
@struct SpecialTokenSplitter
@spec
use crate::shim::*;
use crate::toks::*;
use crate::model::*;
use crate::processor::*;
broadcast use crate::shim::group_vx;
broadcast use crate::shim::group_str;
broadcast use crate::toks::fl::group_fl;

pub type Texts = Seq<Seq<char>>;
pub open spec fn txs(v: Seq<String>) -> Texts { v.map_values(|s: String| s@) }

// ------------------------------------------------------------------ special tokens: registration
/// position of a special token
pub open spec fn pos_of(sp: Texts, t: Seq<char>) -> Option<int> decreases sp.len() {
    if sp.len() == 0 { None } else if sp[0] == t { Some(0) } else { match pos_of(sp.skip(1), t) { Some(i) => Some(i + 1), None => None } }
}
pub proof fn lemma_pos(sp: Texts, t: Seq<char>)
    ensures
        pos_of(sp, t) matches Some(i) ==> 0 <= i < sp.len() && sp[i] == t && forall|j: int| 0 <= j < i ==> sp[j] != t,
        pos_of(sp, t) is None ==> forall|j: int| 0 <= j < sp.len() ==> sp[j] != t,
    decreases sp.len()
{
    if sp.len() > 0 && sp[0] != t {
        lemma_pos(sp.skip(1), t);
        assert forall|j: int| 0 < j < sp.len() implies sp[j] == #[trigger] sp.skip(1)[j - 1] by { }
        if pos_of(sp, t) is None { assert forall|j: int| 0 <= j < sp.len() implies sp[j] != t by { if j > 0 { assert(sp.skip(1)[j - 1] != t); } } }
        else { let i = pos_of(sp, t)->Some_0; assert forall|j: int| 0 <= j < i implies sp[j] != t by { if j > 0 { assert(sp.skip(1)[j - 1] != t); } } }
    }
}
pub open spec fn distinct(sp: Texts) -> bool { forall|i: int, j: int| 0 <= i < j < sp.len() ==> sp[i] != sp[j] }
/// adding one after the other, ignoring those already there
pub open spec fn added(sp: Texts, new: Texts) -> Texts decreases new.len() {
    if new.len() == 0 { sp } else { added(if pos_of(sp, new[0]) is Some { sp } else { sp.push(new[0]) }, new.skip(1)) }
}
pub proof fn lemma_added(sp: Texts, new: Texts)
    requires distinct(sp),
    ensures distinct(added(sp, new)), added(sp, new).len() >= sp.len(), added(sp, new).take(sp.len() as int) == sp,
        forall|k: int| 0 <= k < new.len() ==> pos_of(added(sp, new), new[k]) is Some,
        forall|k: int| 0 <= k < added(sp, new).len() ==> pos_of(sp, #[trigger] added(sp, new)[k]) is Some || pos_of(new, added(sp, new)[k]) is Some,
    decreases new.len()
{
    if new.len() > 0 {
        lemma_pos(sp, new[0]);
        let s1 = if pos_of(sp, new[0]) is Some { sp } else { sp.push(new[0]) };
        lemma_added(s1, new.skip(1));
        let r = added(sp, new);
        assert(r.take(sp.len() as int) =~= s1.take(sp.len() as int)) by {
            assert forall|j: int| 0 <= j < sp.len() implies r[j] == s1[j] by { assert(r.take(s1.len() as int)[j] == s1[j]); }
        }
        assert(s1.take(sp.len() as int) =~= sp);
        assert forall|k: int| 0 <= k < new.len() implies pos_of(r, new[k]) is Some by {
            if k > 0 { assert(new.skip(1)[k - 1] == new[k]); } else {
                lemma_pos(s1, new[0]);
                lemma_pos(r, new[0]);
                let i: int = if pos_of(sp, new[0]) is Some { pos_of(sp, new[0])->Some_0 } else { sp.len() as int };
                assert(s1[i] == new[0]);
                assert(r.take(s1.len() as int)[i] == s1[i]);
            }
        }
        assert forall|k: int| 0 <= k < r.len() implies pos_of(sp, #[trigger] r[k]) is Some || pos_of(new, r[k]) is Some by {
            lemma_pos(s1, r[k]); lemma_pos(new.skip(1), r[k]); lemma_pos(sp, r[k]); lemma_pos(new, r[k]);
            if pos_of(s1, r[k]) is Some { let i = pos_of(s1, r[k])->Some_0; if i < sp.len() { assert(sp[i] == s1[i]); } else { assert(new[0] == r[k]); } }
            else { let i = pos_of(new.skip(1), r[k])->Some_0; assert(new[i + 1] == new.skip(1)[i]); }
        }
    } else { assert(sp.take(sp.len() as int) =~= sp); assert forall|k: int| 0 <= k < sp.len() implies pos_of(sp, #[trigger] sp[k]) is Some by { lemma_pos(sp, sp[k]); } }
}
/// the map knows every special token's position
pub open spec fn map_ok(sp: Texts, m: Map<Seq<char>, u32>) -> bool {
    &&& forall|k: Seq<char>| #[trigger] m.contains_key(k) <==> pos_of(sp, k) is Some
    &&& forall|k: Seq<char>| m.contains_key(k) ==> Some(#[trigger] m[k] as int) == pos_of(sp, k)
}
pub proof fn lemma_pos_push(sp: Texts, t: Seq<char>, k: Seq<char>)
    ensures pos_of(sp.push(t), k) == if pos_of(sp, k) is Some { pos_of(sp, k) } else if k == t { Some(sp.len() as int) } else { None },
    decreases sp.len()
{
    if sp.len() > 0 { assert(sp.push(t).skip(1) =~= sp.skip(1).push(t)); lemma_pos_push(sp.skip(1), t, k); }
    else { assert(sp.push(t).skip(1) =~= Seq::<Seq<char>>::empty()); assert(sp.push(t)[0] == t); assert(pos_of(Seq::<Seq<char>>::empty(), k) is None); }
}
pub proof fn lemma_map_push(sp: Texts, t: Seq<char>, m: Map<Seq<char>, u32>)
    requires map_ok(sp, m), pos_of(sp, t) is None, sp.len() <= u32::MAX, distinct(sp),
    ensures map_ok(sp.push(t), m.insert(t, sp.len() as u32)), distinct(sp.push(t)),
{
    let m2 = m.insert(t, sp.len() as u32);
    assert forall|k: Seq<char>| #[trigger] m2.contains_key(k) <==> pos_of(sp.push(t), k) is Some by { lemma_pos_push(sp, t, k); }
    assert forall|k: Seq<char>| m2.contains_key(k) implies Some(#[trigger] m2[k] as int) == pos_of(sp.push(t), k) by { lemma_pos_push(sp, t, k); }
    lemma_pos(sp, t);
}
impl Tokenizer {
    pub open spec fn sp(&self) -> Texts { txs(self.special_tokens@) }
    /// number of base tokens
    pub open spec fn base(&self) -> int { self.model.vocab@.len() as int }
    pub open spec fn wf(&self) -> bool {
        &&& self.model.wf()
        &&& map_ok(self.sp(), self.special_tokens_map@)
        &&& distinct(self.sp())
        &&& self.base() + self.sp().len() <= u32::MAX
    }
}

// ------------------------------------------------------------------ special tokens: splitting
/// the first non-empty special token, in registration order, that begins here
pub open spec fn here(sp: Texts, s: Seq<char>) -> Option<int> decreases sp.len() {
    if sp.len() == 0 { None }
    else if sp[0].len() > 0 && is_prefix(sp[0], s) { Some(0) }
    else { match here(sp.skip(1), s) { Some(i) => Some(i + 1), None => None } }
}
pub proof fn lemma_here(sp: Texts, s: Seq<char>)
    ensures
        here(sp, s) matches Some(i) ==> 0 <= i < sp.len() && sp[i].len() > 0 && is_prefix(sp[i], s) && forall|j: int| 0 <= j < i ==> !((#[trigger] sp[j]).len() > 0 && is_prefix(sp[j], s)),
        here(sp, s) is None ==> forall|j: int| 0 <= j < sp.len() ==> !((#[trigger] sp[j]).len() > 0 && is_prefix(sp[j], s)),
    decreases sp.len()
{
    if sp.len() > 0 && !(sp[0].len() > 0 && is_prefix(sp[0], s)) {
        lemma_here(sp.skip(1), s);
        if here(sp, s) is None { assert forall|j: int| 0 <= j < sp.len() implies !((#[trigger] sp[j]).len() > 0 && is_prefix(sp[j], s)) by { if j > 0 { assert(sp.skip(1)[j - 1] == sp[j]); } } }
        else { let i = here(sp, s)->Some_0; assert(sp.skip(1)[i - 1] == sp[i]); assert forall|j: int| 0 <= j < i implies !((#[trigger] sp[j]).len() > 0 && is_prefix(sp[j], s)) by { if j > 0 { assert(sp.skip(1)[j - 1] == sp[j]); } } }
    }
}
/// characters before the first special token
pub open spec fn gap(sp: Texts, s: Seq<char>) -> int decreases s.len() {
    if s.len() == 0 || here(sp, s) is Some { 0 } else { 1 + gap(sp, s.skip(1)) }
}
pub proof fn lemma_gap(sp: Texts, s: Seq<char>, i: int)
    requires 0 <= i <= s.len(), forall|j: int| 0 <= j < i ==> here(sp, #[trigger] s.skip(j)) is None,
    ensures gap(sp, s) == i + gap(sp, s.skip(i)), 0 <= gap(sp, s) <= s.len(),
    decreases s.len()
{
    if s.len() > 0 {
        if i == 0 {
            assert(s.skip(0) =~= s);
            if here(sp, s) is None { lemma_gap(sp, s.skip(1), 0); }
        } else {
            assert(s.skip(0) =~= s);
            assert(here(sp, s.skip(0)) is None);
            assert forall|j: int| 0 <= j < i - 1 implies here(sp, #[trigger] s.skip(1).skip(j)) is None by { assert(s.skip(1).skip(j) =~= s.skip(j + 1)); }
            lemma_gap(sp, s.skip(1), i - 1);
            assert(s.skip(1).skip(i - 1) =~= s.skip(i));
        }
    } else { assert(s.skip(i) =~= s); }
}
/// the next piece: a special token, or the stretch up to the next one
pub open spec fn piece_of(sp: Texts, s: Seq<char>) -> (Seq<char>, bool) {
    match here(sp, s) { Some(k) => (sp[k], true), None => (s.take(gap(sp, s)), false) }
}
/// the whole text cut into pieces
pub open spec fn pieces(sp: Texts, s: Seq<char>) -> Seq<(Seq<char>, bool)> decreases s.len() {
    if s.len() == 0 { Seq::empty() }
    else {
        let p = piece_of(sp, s);
        if 0 < p.0.len() <= s.len() { seq![p] + pieces(sp, s.skip(p.0.len() as int)) } else { Seq::empty() }
    }
}
pub proof fn lemma_piece(sp: Texts, s: Seq<char>)
    requires s.len() > 0,
    ensures 0 < piece_of(sp, s).0.len() <= s.len(), piece_of(sp, s).0 == s.take(piece_of(sp, s).0.len() as int),
        pieces(sp, s) == seq![piece_of(sp, s)] + pieces(sp, s.skip(piece_of(sp, s).0.len() as int)),
{
    lemma_here(sp, s);
    if here(sp, s) is None { assert(s.skip(0) =~= s); lemma_gap(sp, s, 0); lemma_gap(sp, s.skip(1), 0); assert(s.skip(1).skip(0) =~= s.skip(1)); }
}
pub open spec fn glue(p: Seq<(Seq<char>, bool)>) -> Seq<char> decreases p.len() { if p.len() == 0 { Seq::empty() } else { p[0].0 + glue(p.skip(1)) } }
/// C07: nothing is lost, duplicated or reordered; every ordinary piece is free of special tokens;
/// no two ordinary pieces touch (each is maximal)
pub proof fn lemma_pieces(sp: Texts, s: Seq<char>)
    ensures glue(pieces(sp, s)) == s,
        forall|i: int| 0 <= i < pieces(sp, s).len() ==> (#[trigger] pieces(sp, s)[i]).0.len() > 0 && (pieces(sp, s)[i].1 ==> pos_of(sp, pieces(sp, s)[i].0) is Some),
        forall|i: int| 0 <= i < pieces(sp, s).len() - 1 ==> (#[trigger] pieces(sp, s)[i]).1 || pieces(sp, s)[i + 1].1,
        pieces(sp, s).len() <= s.len(),
    decreases s.len()
{
    if s.len() > 0 {
        lemma_piece(sp, s);
        lemma_here(sp, s);
        let p = piece_of(sp, s);
        let t = s.skip(p.0.len() as int);
        lemma_pieces(sp, t);
        let r = pieces(sp, s);
        assert(r.skip(1) =~= pieces(sp, t));
        assert(p.0 + t =~= s);
        if p.1 { lemma_pos(sp, p.0); }
        assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).0.len() > 0 && (r[i].1 ==> pos_of(sp, r[i].0) is Some) by { if i > 0 { assert(r[i] == pieces(sp, t)[i - 1]); } }
        assert forall|i: int| 0 <= i < r.len() - 1 implies (#[trigger] r[i]).1 || r[i + 1].1 by {
            if i > 0 { assert(r[i] == pieces(sp, t)[i - 1]); assert(r[i + 1] == pieces(sp, t)[i]); }
            else if !p.1 {
                assert(r[1] == pieces(sp, t)[0]);
                let g = gap(sp, s);
                assert(t.len() > 0);
                lemma_piece(sp, t);
                lemma_gap_stop(sp, s);
            }
        }
    }
}
pub proof fn lemma_gap_stop(sp: Texts, s: Seq<char>)
    ensures 0 <= gap(sp, s) <= s.len(), gap(sp, s) < s.len() ==> here(sp, s.skip(gap(sp, s))) is Some,
        forall|j: int| 0 <= j < gap(sp, s) ==> here(sp, #[trigger] s.skip(j)) is None,
    decreases s.len()
{
    assert(s.skip(0) =~= s);
    if s.len() > 0 && here(sp, s) is None {
        lemma_gap_stop(sp, s.skip(1));
        assert(s.skip(1).skip(gap(sp, s.skip(1))) =~= s.skip(gap(sp, s)));
        assert forall|j: int| 0 <= j < gap(sp, s) implies here(sp, #[trigger] s.skip(j)) is None by { if j > 0 { assert(s.skip(1).skip(j - 1) =~= s.skip(j)); } }
    }
}
impl<'a> SpecialTokenSplitter<'a> {
    /// characters still to come
    pub open spec fn at(&self) -> int { choose|c: int| #[trigger] bound_at(self.input@, self.cursor as int, c) }
    pub open spec fn rest(&self) -> Seq<char> { self.input@.skip(self.at()) }
    pub open spec fn ok(&self) -> bool { is_bound(self.input@, self.cursor as int) }
    pub open spec fn sp(&self) -> Texts { txs(self.special_tokens@) }
    pub open spec fn vx_left(&self) -> nat { self.rest().len() }
    pub fn vx_into_iter(self) -> (r: Self) ensures r == self { self }
}
pub proof fn lemma_gap_all(sp: Texts, s: Seq<char>)
    ensures (forall|j: int| 0 <= j < s.len() ==> here(sp, #[trigger] s.skip(j)) is None) ==> gap(sp, s) == s.len(),
{
    if forall|j: int| 0 <= j < s.len() ==> here(sp, #[trigger] s.skip(j)) is None { lemma_gap(sp, s, s.len() as int); assert(s.skip(s.len() as int).len() == 0); }
}
/// moving the cursor by the bytes of k characters
pub proof fn lemma_advance(s: Seq<char>, i: int, c: int, k: int)
    requires bound_at(s, i, c), 0 <= k <= s.len() - c,
    ensures bound_at(s, i + blen(s.skip(c).take(k)), c + k), bound_at(s.skip(c), blen(s.skip(c).take(k)), k), s.skip(c).skip(k) == s.skip(c + k),
        i + blen(s.skip(c)) == blen(s), blen(s.skip(c).take(k)) + blen(s.skip(c + k)) == blen(s.skip(c)),
{
    assert(s.take(c + k) =~= s.take(c) + s.skip(c).take(k));
    lemma_blen_add(s.take(c), s.skip(c).take(k));
    assert(s =~= s.take(c) + s.skip(c));
    lemma_blen_add(s.take(c), s.skip(c));
    assert(s.skip(c).skip(k) =~= s.skip(c + k));
    assert(s.skip(c) =~= s.skip(c).take(k) + s.skip(c + k));
    lemma_blen_add(s.skip(c).take(k), s.skip(c + k));
}
/// one step of the splitter over m characters
pub proof fn lemma_step(sp: Texts, s0: Seq<char>, i0: int, c0: int, r0: Seq<char>, m: int, b: bool)
    requires bound_at(s0, i0, c0), r0 == s0.skip(c0), 0 < m <= r0.len(), piece_of(sp, r0) == (r0.take(m), b),
    ensures
        bound_at(s0, i0 + blen(r0.take(m)), c0 + m), i0 + blen(r0.take(m)) <= blen(s0),
        forall|i: int, c: int| i == i0 + blen(r0.take(m)) && #[trigger] bound_at(s0, i, c) ==> s0.skip(c) == r0.skip(m),
        bound_at(r0, blen(r0.take(m)), m), r0.skip(m).len() < r0.len(), r0.take(m).len() == m,
        pieces(sp, r0) == seq![(r0.take(m), b)] + pieces(sp, r0.skip(m)),
{
    lemma_advance(s0, i0, c0, m);
    lemma_blen_pos(s0.skip(c0 + m));
    assert(r0.skip(0) =~= r0); assert(r0.take(0) =~= Seq::<char>::empty()); lemma_blen_pos(r0.take(0));
    lemma_advance(r0, 0, 0, m);
    lemma_piece(sp, r0);
    assert forall|i: int, c: int| i == i0 + blen(r0.take(m)) && #[trigger] bound_at(s0, i, c) implies s0.skip(c) == r0.skip(m) by { lemma_bound_unique(s0, i, c, c0 + m); }
}
// ------------------------------------------------------------------ encoding
/// what one run of the ordinary pipeline may give for a text
pub open spec fn ordinary(t: &Tokenizer, s: Seq<char>, d: f64, r: Result<Vec<u32>>) -> bool {
    exists|p: &str| p@ == pre_all(t.processors@, s) && #[trigger] call_ensures(Model::encode, (&t.model, p, d), r)
}
pub open spec fn id_of(t: &Tokenizer, s: Seq<char>) -> u32 { (t.base() + pos_of(t.sp(), s)->Some_0) as u32 }
/// what a piece is encoded to
pub open spec fn encoded(t: &Tokenizer, p: (Seq<char>, bool), d: f64, o: Seq<u32>) -> bool {
    if p.1 { o == seq![id_of(t, p.0)] } else { exists|r: Result<Vec<u32>>| #[trigger] ordinary(t, p.0, d, r) && r is Ok && r->Ok_0@ == o }
}
/// the ids of every piece, in order
pub open spec fn encodes(t: &Tokenizer, ps: Seq<(Seq<char>, bool)>, d: f64, outs: Seq<Seq<u32>>) -> bool {
    &&& outs.len() == ps.len()
    &&& forall|i: int| 0 <= i < ps.len() ==> encoded(t, #[trigger] ps[i], d, outs[i])
}
pub open spec fn flat(o: Seq<Seq<u32>>) -> Seq<u32> decreases o.len() { if o.len() == 0 { Seq::empty() } else { o[0] + flat(o.skip(1)) } }
pub proof fn lemma_flat_push(o: Seq<Seq<u32>>, x: Seq<u32>) ensures flat(o.push(x)) == flat(o) + x decreases o.len()
{
    if o.len() > 0 {
        assert(o.push(x).skip(1) =~= o.skip(1).push(x));
        lemma_flat_push(o.skip(1), x);
        assert(flat(o.push(x)) =~= flat(o) + x);
    } else {
        assert(o.push(x).skip(1) =~= Seq::<Seq<u32>>::empty());
        assert(flat(Seq::<Seq<u32>>::empty()) =~= Seq::<u32>::empty());
        assert(o.push(x)[0] == x);
        assert(flat(o.push(x)) =~= flat(o) + x);
    }
}
pub proof fn lemma_encodes_push(t: &Tokenizer, ps: Seq<(Seq<char>, bool)>, d: f64, outs: Seq<Seq<u32>>, x: Seq<u32>)
    requires outs.len() < ps.len(), encodes(t, ps.take(outs.len() as int), d, outs), encoded(t, ps[outs.len() as int], d, x),
    ensures encodes(t, ps.take(outs.len() as int + 1), d, outs.push(x)), flat(outs.push(x)) == flat(outs) + x,
{
    lemma_flat_push(outs, x);
    let q = ps.take(outs.len() as int + 1); let o = outs.push(x);
    assert forall|i: int| 0 <= i < q.len() implies encoded(t, #[trigger] q[i], d, o[i]) by {
        if i < outs.len() { assert(ps.take(outs.len() as int)[i] == q[i]); }
    }
}
pub open spec fn one_encode(t: &Tokenizer, s: Seq<char>, d: f64, r: Result<Vec<u32>>) -> bool { exists|p: &str| p@ == s && #[trigger] call_ensures(Tokenizer::encode, (t, p, d), r) }
pub open spec fn one_ordinary(t: &Tokenizer, s: Seq<char>, d: f64, r: Result<Vec<u32>>) -> bool { exists|p: &str| p@ == s && #[trigger] call_ensures(Tokenizer::encode_ordinary, (t, p, d), r) }
pub open spec fn one_decode(t: &Tokenizer, s: Seq<u32>, k: bool, r: Result<String>) -> bool { exists|p: &[u32]| p@ == s && #[trigger] call_ensures(Tokenizer::decode, (t, p, k), r) }
// ------------------------------------------------------------------ decoding
/// where the first id above the base tokens is
pub open spec fn first_sp(ids: Seq<u32>, b: int) -> Option<int> decreases ids.len() {
    if ids.len() == 0 { None } else if ids[0] >= b { Some(0) } else { match first_sp(ids.skip(1), b) { Some(i) => Some(i + 1), None => None } }
}
pub proof fn lemma_first_sp(ids: Seq<u32>, b: int, i: int)
    requires 0 <= i <= ids.len(), forall|j: int| 0 <= j < i ==> (#[trigger] ids[j]) < b,
    ensures i == ids.len() ==> first_sp(ids, b) is None, i < ids.len() && ids[i] >= b ==> first_sp(ids, b) == Some(i),
    decreases i,
{
    if i > 0 {
        assert forall|j: int| 0 <= j < i - 1 implies (#[trigger] ids.skip(1)[j]) < b by { assert(ids[j + 1] < b); }
        assert(ids[0] < b);
        lemma_first_sp(ids.skip(1), b, i - 1);
    }
}
pub proof fn lemma_first_sp_is(ids: Seq<u32>, b: int)
    ensures match first_sp(ids, b) { Some(i) => 0 <= i < ids.len() && ids[i] >= b && forall|j: int| 0 <= j < i ==> (#[trigger] ids[j]) < b, None => forall|j: int| 0 <= j < ids.len() ==> (#[trigger] ids[j]) < b },
    decreases ids.len(),
{
    if ids.len() > 0 && ids[0] < b {
        lemma_first_sp_is(ids.skip(1), b);
        let n: int = match first_sp(ids, b) { Some(i) => i, None => ids.len() as int };
        assert forall|j: int| 0 <= j < n implies (#[trigger] ids[j]) < b by { if j > 0 { assert(ids.skip(1)[j - 1] < b); } }
    }
}
/// a run of base tokens
pub open spec fn run(t: &Tokenizer, ids: Seq<u32>) -> Seq<char> { post_all(t.processors@, lossy(cat(toks_of(t.model.vocab@, ids)))) }
/// the decoded text, or the first id that is no token
pub open spec fn dec(t: &Tokenizer, ids: Seq<u32>, keep: bool) -> core::result::Result<Seq<char>, u32> decreases ids.len() {
    match first_sp(ids, t.base()) {
        None => Ok(run(t, ids)),
        Some(k) => if 0 <= k < ids.len() {
            if ids[k] - t.base() >= t.sp().len() { Err(ids[k]) }
            else { glued(run(t, ids.take(k)) + if keep { t.sp()[ids[k] - t.base()] } else { Seq::empty() }, dec(t, ids.skip(k + 1), keep)) }
        } else { arbitrary() },
    }
}
pub open spec fn glued(a: Seq<char>, r: core::result::Result<Seq<char>, u32>) -> core::result::Result<Seq<char>, u32> { match r { Ok(b) => Ok(a + b), Err(e) => Err(e) } }
/// decoding fails exactly when some id is outside the vocabulary
pub proof fn lemma_dec_total(t: &Tokenizer, ids: Seq<u32>, keep: bool)
    ensures dec(t, ids, keep) is Err <==> exists|i: int| 0 <= i < ids.len() && #[trigger] ids[i] >= t.base() + t.sp().len(),
        dec(t, ids, keep) matches Err(e) ==> ids.contains(e) && e >= t.base() + t.sp().len(),
    decreases ids.len(),
{
    lemma_first_sp_is(ids, t.base());
    match first_sp(ids, t.base()) {
        None => { assert forall|i: int| 0 <= i < ids.len() implies #[trigger] ids[i] < t.base() + t.sp().len() by { } }
        Some(k) => {
            lemma_dec_total(t, ids.skip(k + 1), keep);
            if ids[k] - t.base() < t.sp().len() {
                let r = ids.skip(k + 1);
                assert(dec(t, ids, keep) is Err <==> dec(t, r, keep) is Err);
                if exists|i: int| 0 <= i < ids.len() && #[trigger] ids[i] >= t.base() + t.sp().len() {
                    let i = choose|i: int| 0 <= i < ids.len() && #[trigger] ids[i] >= t.base() + t.sp().len();
                    assert(i > k);
                    assert(r[i - k - 1] == ids[i]);
                }
                if exists|i: int| 0 <= i < r.len() && #[trigger] r[i] >= t.base() + t.sp().len() {
                    let i = choose|i: int| 0 <= i < r.len() && #[trigger] r[i] >= t.base() + t.sp().len();
                    assert(ids[i + k + 1] == r[i]);
                }
                if dec(t, r, keep) is Err { let e = dec(t, r, keep)->Err_0; let i = choose|i: int| 0 <= i < r.len() && r[i] == e; assert(ids[i + k + 1] == e); }
            }
        }
    }
}
/// base tokens in front of a special one (or of the end) are a run of their own
pub proof fn lemma_dec_run(t: &Tokenizer, a: Seq<u32>, rest: Seq<u32>, keep: bool)
    requires forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]) < t.base(), rest.len() > 0 ==> rest[0] >= t.base(), dec(t, rest, keep) is Ok,
        run(t, Seq::<u32>::empty()) == Seq::<char>::empty(),
    ensures dec(t, a + rest, keep) == glued(run(t, a), dec(t, rest, keep)),
{
    let s = a + rest; let b = t.base();
    assert forall|j: int| 0 <= j < a.len() implies (#[trigger] s[j]) < b by { assert(s[j] == a[j]); }
    lemma_first_sp(s, b, a.len() as int);
    if rest.len() > 0 {
        lemma_first_sp(rest, b, 0);
        assert(s.take(a.len() as int) =~= a);
        assert(s.skip(a.len() as int + 1) =~= rest.skip(1));
        assert(rest.take(0) =~= Seq::<u32>::empty());
        let x = if keep { t.sp()[rest[0] - b] } else { Seq::empty() };
        if rest[0] - b < t.sp().len() {
            let d = dec(t, rest.skip(1), keep);
            assert(dec(t, s, keep) == glued(run(t, a) + x, d));
            assert(dec(t, rest, keep) == glued(Seq::<char>::empty() + x, d));
            if d is Ok { assert((run(t, a) + x) + d->Ok_0 =~= run(t, a) + (x + d->Ok_0)); assert(Seq::<char>::empty() + x =~= x); }
        }
    } else {
        assert(s =~= a);
        assert(dec(t, rest, keep) == Ok::<Seq<char>, u32>(run(t, rest)));
        assert(rest =~= Seq::<u32>::empty());
        assert(run(t, a) + Seq::<char>::empty() =~= run(t, a));
    }
}
/// C04: without processors, decoding what was encoded gives the text back
pub proof fn lemma_round_trip(t: &Tokenizer, ps: Seq<(Seq<char>, bool)>, d: f64, outs: Seq<Seq<u32>>)
    requires t.wf(), t.processors@.len() == 0, encodes(t, ps, d, outs),
        forall|i: int| 0 <= i < ps.len() ==> (#[trigger] ps[i]).1 ==> pos_of(t.sp(), ps[i].0) is Some,
        forall|i: int| 0 <= i < ps.len() - 1 ==> (#[trigger] ps[i]).1 || ps[i + 1].1,
    ensures dec(t, flat(outs), true) == Ok::<Seq<char>, u32>(glue(ps)), ps.len() > 0 && ps[0].1 ==> flat(outs).len() > 0 && flat(outs)[0] >= t.base(),
    decreases ps.len(),
{
    let b = t.base();
    assert(run(t, Seq::<u32>::empty()) == Seq::<char>::empty()) by {
        assert(toks_of(t.model.vocab@, Seq::<u32>::empty()) =~= Seq::<Seq<u8>>::empty());
        lemma_run_text(t, Seq::<u32>::empty(), Seq::<char>::empty());
    }
    if ps.len() == 0 {
        assert(dec(t, flat(outs), true) == Ok::<Seq<char>, u32>(run(t, flat(outs))));
        assert(flat(outs) =~= Seq::<u32>::empty());
    } else {
        let qs = ps.skip(1); let os = outs.skip(1);
        assert forall|i: int| 0 <= i < qs.len() implies encoded(t, #[trigger] qs[i], d, os[i]) by { assert(qs[i] == ps[i + 1]); }
        assert forall|i: int| 0 <= i < qs.len() - 1 implies (#[trigger] qs[i]).1 || qs[i + 1].1 by { assert(qs[i] == ps[i + 1]); }
        assert forall|i: int| 0 <= i < qs.len() implies (!(#[trigger] qs[i]).1 || pos_of(t.sp(), qs[i].0) is Some) by { assert(qs[i] == ps[i + 1]); }
        lemma_round_trip(t, qs, d, os);
        assert(encoded(t, ps[0], d, outs[0]));
        let f = flat(outs);
        assert(f == outs[0] + flat(os));
        if ps[0].1 {
            lemma_pos(t.sp(), ps[0].0);
            let k = pos_of(t.sp(), ps[0].0)->Some_0;
            assert(f[0] == id_of(t, ps[0].0));
            lemma_first_sp(f, b, 0);
            assert(f.take(0) =~= Seq::<u32>::empty());
            assert(f.skip(1) =~= flat(os));
            assert(Seq::<char>::empty() + t.sp()[k] =~= ps[0].0);
        } else {
            let r = choose|r: Result<Vec<u32>>| #[trigger] ordinary(t, ps[0].0, d, r) && r is Ok && r->Ok_0@ == outs[0];
            let p = choose|p: &str| p@ == pre_all(t.processors@, ps[0].0) && #[trigger] call_ensures(Model::encode, (&t.model, p, d), r);
            let a = outs[0];
            assert(splits(t.model.vocab@, toks_of(t.model.vocab@, a), sb(ps[0].0)) && ids_ok(t.model.vocab@, a));
            lemma_run_text(t, a, ps[0].0);
            if ps.len() == 1 { assert(qs.len() == 0); assert(flat(os).len() == 0); } else { assert(ps[0].1 || ps[1].1); assert(qs[0].1); }
            lemma_dec_run(t, a, flat(os), true);
        }
    }
}
pub proof fn lemma_run_text(t: &Tokenizer, a: Seq<u32>, s: Seq<char>)
    requires t.processors@.len() == 0, cat(toks_of(t.model.vocab@, a)) == sb(s),
    ensures run(t, a) == s,
{
    vstd::utf8::encode_utf8_valid_utf8(s);
    ax_lossy(sb(s));
    lemma_sb_inj(lossy(sb(s)), s);
}
@fn Tokenizer::new
@contract
    requires model.wf(), model.vocab@.len() + special_tokens.elems().len() <= u32::MAX,
    ensures r.wf(), r.model == model, r.sp() == added(Seq::empty(), special_tokens.elems().map_values(|t: J::Item| t.tx())),
        r.processors@.len() == processors.elems().len(),
        forall|i: int| 0 <= i < r.processors@.len() ==> processors.elems()[i].into_spec(#[trigger] r.processors@[i]),
@loop 1
    invariant
        __it1@ == processors.elems().skip(__c1@.len() as int), __c1@.len() <= processors.elems().len(),
        forall|i: int| 0 <= i < __c1@.len() ==> processors.elems()[i].into_spec(#[trigger] __c1@[i]),
@before 1
    proof { assert(processors.elems().skip(0) =~= processors.elems()); }
@body_end 1
    proof { assert(processors.elems().skip(__c1@.len() - 1).drop_first() =~= processors.elems().skip(__c1@.len() as int)); }
@after_let tokenizer
    proof { assert(tokenizer.sp() =~= Seq::<Seq<char>>::empty()); }
@fn Tokenizer::add_special_tokens
@contract
    requires old(self).wf(), old(self).base() + old(self).sp().len() + tokens.elems().len() <= u32::MAX,
    ensures final(self).wf(), final(self).model == old(self).model, final(self).processors == old(self).processors,
        final(self).sp() == added(old(self).sp(), tokens.elems().map_values(|t: I::Item| t.tx())),
@start
    let ghost toks = tokens.elems(); let ghost new = toks.map_values(|t: I::Item| t.tx()); let ghost mut k: int = 0;
    proof { assert(toks.skip(0) =~= toks); assert(new.skip(0) =~= new); }
@loop 1
    invariant
        self.wf(), self.model == old(self).model, self.processors == old(self).processors,
        new == toks.map_values(|t: I::Item| t.tx()), 0 <= k <= toks.len(), __it1@ == toks.skip(k),
        added(old(self).sp(), new) == added(self.sp(), new.skip(k)),
        self.base() + self.sp().len() + (toks.len() - k) <= u32::MAX,
@body_start 1
    let ghost t0 = self.sp(); let ghost m0 = self.special_tokens_map@; let ghost sp0 = self.special_tokens@; let ghost tk = token.tx();
    proof {
        lemma_pos(t0, token.tx());
        assert(token == toks.skip(k)[0]);
        assert(new.skip(k)[0] == token.tx());
        assert(new.skip(k).skip(1) =~= new.skip(k + 1));
        assert(toks.skip(k).drop_first() =~= toks.skip(k + 1));
        k = k + 1;
    }
@body_end 1
    proof {
        if self.sp() != t0 {
            lemma_map_push(t0, tk, m0);
            assert(self.sp() =~= t0.push(tk));
        }
    }
@fn Tokenizer::add_base_tokens
@contract
    requires old(self).wf(), sizes_ok(old(self).model.vocab@ + tokens.elems()), old(self).base() + tokens.elems().len() + old(self).sp().len() <= u32::MAX,
    ensures final(self).wf(), final(self).model.vocab@ == old(self).model.vocab@ + tokens.elems(), final(self).sp() == old(self).sp(), final(self).processors == old(self).processors,
@fn Tokenizer::encode
@contract
    requires self.wf()
    ensures
        r matches Ok(ids) ==> exists|outs: Seq<Seq<u32>>| #[trigger] encodes(self, pieces(self.sp(), input@), dropout, outs) && ids@ == flat(outs),
        r matches Err(e) ==> exists|i: int| 0 <= i < pieces(self.sp(), input@).len() && !(#[trigger] pieces(self.sp(), input@)[i]).1
            && ordinary(self, pieces(self.sp(), input@)[i].0, dropout, Err(e)),
        r matches Ok(ids) ==> self.processors@.len() == 0 ==> dec(self, ids@, true) == Ok::<Seq<char>, u32>(input@),
@start
    let ghost ps = pieces(self.sp(), input@);
    let ghost mut outs: Seq<Seq<u32>> = Seq::empty();
    proof { lemma_pieces(self.sp(), input@); }
@before 1
    proof { assert(ps.skip(0) =~= ps); assert(ps.take(0) =~= Seq::<(Seq<char>, bool)>::empty()); }
@loop 1
    invariant_except_break
        __it1.ok(),
        pieces(self.sp(), __it1.rest()) == ps.skip(outs.len() as int),
    invariant
        self.wf(), ps == pieces(self.sp(), input@), __it1.sp() == self.sp(),
        0 <= outs.len() <= ps.len(),
        encodes(self, ps.take(outs.len() as int), dropout, outs),
        ids@ == flat(outs),
    ensures outs.len() == ps.len(),
@body_start 1
    let ghost n = outs.len() as int;
    proof {
        let rest = ps.skip(n);
        assert(rest == seq![(substr@, is_special)] + pieces(self.sp(), __it1.rest()));
        assert(rest[0] == ps[n]);
        assert(rest.skip(1) =~= pieces(self.sp(), __it1.rest()));
        assert(rest.skip(1) =~= ps.skip(n + 1));
        lemma_pos(self.sp(), substr@);
    }
@body_end 1
    proof {
        if is_special {
            let v = seq![ids@.last()];
            assert(ids@ =~= flat(outs) + v);
            lemma_encodes_push(self, ps, dropout, outs, v); outs = outs.push(v);
        } else {
            let (r, p) = choose|r: Result<Vec<u32>>, p: &str| #[trigger] call_ensures(Model::encode, (&self.model, p, dropout), r) && p@ == pre_all(self.processors@, substr@) && r is Ok && ids@ == flat(outs) + r->Ok_0@;
            assert(ordinary(self, substr@, dropout, r));
            lemma_encodes_push(self, ps, dropout, outs, r->Ok_0@); outs = outs.push(r->Ok_0@);
        }
    }
@after 1
    proof {
        assert(ps.take(outs.len() as int) =~= ps);
        if self.processors@.len() == 0 { lemma_round_trip(self, ps, dropout, outs); }
    }
@loop 2
    invariant
        __i2 <= self.processors@.len(), __s2@ == self.processors@,
        __c2@ == pre_all(self.processors@.take(__i2 as int), substr@),
@body_end 2
    proof { lemma_pre_push(self.processors@, __v2 as int, substr@); }
@after 2
    proof { assert(self.processors@.take(self.processors@.len() as int) =~= self.processors@); }
@fn Tokenizer::encode_ordinary
@contract
    requires self.wf()
    ensures ordinary(self, input@, dropout, r)
@loop 1
    invariant
        __i1 <= self.processors@.len(), __s1@ == self.processors@,
        __c1@ == pre_all(self.processors@.take(__i1 as int), input@),
@body_end 1
    proof { lemma_pre_push(self.processors@, __v1 as int, input@); }
@after 1
    proof { assert(self.processors@.take(self.processors@.len() as int) =~= self.processors@); }
@fn Tokenizer::encode_batch
@opt collect1:try
@contract
    requires self.wf()
    ensures
        r matches Ok(v) ==> v@.len() == inputs.elems().len() && forall|i: int| 0 <= i < v@.len() ==> one_encode(self, (#[trigger] inputs.elems()[i]).tx(), dropout, Ok(v@[i])),
        r matches Err(e) ==> exists|i: int| 0 <= i < inputs.elems().len() && one_encode(self, (#[trigger] inputs.elems()[i]).tx(), dropout, Err(e)),
@before 1
    proof { assert(inputs.elems().skip(0) =~= inputs.elems()); }
@loop 1
    invariant_except_break
        __r1 is None, __it1@ == inputs.elems().skip(__c1@.len() as int),
    invariant
        self.wf(), __c1@.len() <= inputs.elems().len(),
        forall|i: int| 0 <= i < __c1@.len() ==> one_encode(self, (#[trigger] inputs.elems()[i]).tx(), dropout, Ok(__c1@[i])),
        __r1 matches Some(e) ==> exists|i: int| 0 <= i < inputs.elems().len() && one_encode(self, (#[trigger] inputs.elems()[i]).tx(), dropout, Err(e)),
    ensures __r1 is None ==> __c1@.len() == inputs.elems().len(),
@body_start 1
    let ghost n = __c1@.len() as int;
    proof { assert(inputs.elems().skip(n)[0] == inputs.elems()[n]); assert(inputs.elems().skip(n).drop_first() =~= inputs.elems().skip(n + 1)); }
@fn Tokenizer::encode_ordinary_batch
@opt collect1:try
@contract
    requires self.wf()
    ensures
        r matches Ok(v) ==> v@.len() == inputs.elems().len() && forall|i: int| 0 <= i < v@.len() ==> one_ordinary(self, (#[trigger] inputs.elems()[i]).tx(), dropout, Ok(v@[i])),
        r matches Err(e) ==> exists|i: int| 0 <= i < inputs.elems().len() && one_ordinary(self, (#[trigger] inputs.elems()[i]).tx(), dropout, Err(e)),
@before 1
    proof { assert(inputs.elems().skip(0) =~= inputs.elems()); }
@loop 1
    invariant_except_break
        __r1 is None, __it1@ == inputs.elems().skip(__c1@.len() as int),
    invariant
        self.wf(), __c1@.len() <= inputs.elems().len(),
        forall|i: int| 0 <= i < __c1@.len() ==> one_ordinary(self, (#[trigger] inputs.elems()[i]).tx(), dropout, Ok(__c1@[i])),
        __r1 matches Some(e) ==> exists|i: int| 0 <= i < inputs.elems().len() && one_ordinary(self, (#[trigger] inputs.elems()[i]).tx(), dropout, Err(e)),
    ensures __r1 is None ==> __c1@.len() == inputs.elems().len(),
@body_start 1
    let ghost n = __c1@.len() as int;
    proof { assert(inputs.elems().skip(n)[0] == inputs.elems()[n]); assert(inputs.elems().skip(n).drop_first() =~= inputs.elems().skip(n + 1)); }
@fn Tokenizer::decode
@contract
    requires self.wf()
    ensures match dec(self, input@, include_special_tokens) {
        Ok(s) => r matches Ok(t) && t@ == s,
        Err(b) => r matches Err(Error::TokenIdOutOfBounds(c)) && c == b },
@start
    let ghost all = input@; let ghost want = dec(self, all, include_special_tokens); let ghost ps = self.processors@; let ghost mut done = false;
@loop 1
    invariant_except_break
        want == glued(output@, dec(self, input@, include_special_tokens)), !done,
    invariant
        self.wf(), want == dec(self, all, include_special_tokens), ps == self.processors@,
    ensures want == Ok::<Seq<char>, u32>(output@),
    decreases input@.len()
@before 1
    proof { if want is Ok { assert(Seq::<char>::empty() + want->Ok_0 =~= want->Ok_0); } }
@body_start 1
    let ghost ids = input@; let ghost out0 = output@;
@body_end 1
    proof {
        let k = first_sp(ids, self.base())->Some_0;
        let x = if include_special_tokens { self.sp()[ids[k] - self.base()] } else { Seq::empty() };
        let a = run(self, ids.take(k));
        assert(output@ =~= out0 + (a + x));
        let d = dec(self, input@, include_special_tokens);
        assert(input@ =~= ids.skip(k + 1));
        if d is Ok { assert((out0 + (a + x)) + d->Ok_0 =~= out0 + ((a + x) + d->Ok_0)); }
    }
@loop 2
    invariant_except_break __c2 is None,
    invariant
        __i2 <= ids.len(), __s2@ == ids, self.wf(),
        __c2 is None ==> forall|j: int| 0 <= j < __i2 ==> (#[trigger] ids[j]) < self.base(),
        __c2 matches Some(k) ==> k < ids.len() && ids[k as int] >= self.base() && forall|j: int| 0 <= j < k ==> (#[trigger] ids[j]) < self.base(),
    ensures __c2 is None ==> __i2 == ids.len(),
@after 2
    proof { lemma_first_sp(ids, self.base(), match __c2 { Some(k) => k as int, None => ids.len() as int }); }
@loop 3
    invariant
        __i3 <= ps.len(), __s3@ == ps, 
        post_all(ps, decoded@) == post_all(ps.take(__i3 as int), __c3@),
@before 3
    proof { assert(ps.take(ps.len() as int) =~= ps); }
@body_start 3
    let ghost __b3 = __c3;
@body_end 3
    proof { lemma_post_step(ps, __v3 as int, __b3@); }
@loop 4
    invariant
        __i4 <= ps.len(), __s4@ == ps, 
        run(self, ids) == post_all(ps.take(__i4 as int), __c4@),
@before 4
    proof { assert(ps.take(ps.len() as int) =~= ps); }
@body_start 4
    let ghost __b4 = __c4;
@body_end 4
    proof { lemma_post_step(ps, __v4 as int, __b4@); }
@fn Tokenizer::decode_batch
@opt collect1:try
@contract
    requires self.wf()
    ensures
        r matches Ok(v) ==> v@.len() == inputs.elems().len() && forall|i: int| 0 <= i < v@.len() ==> one_decode(self, (#[trigger] inputs.elems()[i]).ids(), include_special_tokens, Ok(v@[i])),
        r matches Err(e) ==> exists|i: int| 0 <= i < inputs.elems().len() && one_decode(self, (#[trigger] inputs.elems()[i]).ids(), include_special_tokens, Err(e)),
@before 1
    proof { assert(inputs.elems().skip(0) =~= inputs.elems()); }
@loop 1
    invariant_except_break
        __r1 is None, __it1@ == inputs.elems().skip(__c1@.len() as int),
    invariant
        self.wf(), __c1@.len() <= inputs.elems().len(),
        forall|i: int| 0 <= i < __c1@.len() ==> one_decode(self, (#[trigger] inputs.elems()[i]).ids(), include_special_tokens, Ok(__c1@[i])),
        __r1 matches Some(e) ==> exists|i: int| 0 <= i < inputs.elems().len() && one_decode(self, (#[trigger] inputs.elems()[i]).ids(), include_special_tokens, Err(e)),
    ensures __r1 is None ==> __c1@.len() == inputs.elems().len(),
@body_start 1
    let ghost n = __c1@.len() as int;
    proof { assert(inputs.elems().skip(n)[0] == inputs.elems()[n]); assert(inputs.elems().skip(n).drop_first() =~= inputs.elems().skip(n + 1)); }
@fn Tokenizer::token_to_id
@contract
    requires self.wf()
    ensures match last_id(self.model.vocab@, token@) {
        Some(i) => r == Some(i as u32),
        None => match r { Some(k) => self.base() <= k < self.base() + self.sp().len() && sb(self.sp()[k - self.base()]) == token@, None => forall|j: int| 0 <= j < self.sp().len() ==> sb(#[trigger] self.sp()[j]) != token@ } }
@start
    proof {
        let sp = self.sp();
        assert forall|x: Seq<char>| #[trigger] sb(x) == token@ implies
            (pos_of(sp, x) matches Some(k) ==> 0 <= k < sp.len() && sp[k] == x) && (pos_of(sp, x) is None ==> forall|j: int| 0 <= j < sp.len() ==> sb(#[trigger] sp[j]) != token@) by {
            lemma_pos(sp, x);
            if pos_of(sp, x) is None { assert forall|j: int| 0 <= j < sp.len() implies sb(#[trigger] sp[j]) != token@ by { if sb(sp[j]) == token@ { lemma_sb_inj(sp[j], x); } } }
        }
        if !vstd::utf8::valid_utf8(token@) { assert forall|j: int| 0 <= j < sp.len() implies sb(#[trigger] sp[j]) != token@ by { vstd::utf8::encode_utf8_valid_utf8(sp[j]); } }
    }
@fn Tokenizer::special_token_to_id
@contract
    requires self.wf()
    ensures match r { Some(k) => pos_of(self.sp(), token@) == Some(k - self.base()), None => pos_of(self.sp(), token@) is None }
@start
    proof { lemma_pos(self.sp(), token@); }
@fn Tokenizer::base_token_to_id
@contract
    requires self.wf()
    ensures match r { Some(i) => last_id(self.model.vocab@, token@) == Some(i as int), None => last_id(self.model.vocab@, token@) is None }
@fn Tokenizer::id_to_token
@contract
    requires self.wf()
    ensures match r { Some(b) => if id < self.base() { b@ == self.model.vocab@[id as int].value@ } else { id < self.base() + self.sp().len() && b@ == sb(self.sp()[id - self.base()]) }, None => id >= self.base() + self.sp().len() }
@fn Tokenizer::id_to_special_token
@contract
    requires self.wf()
    ensures match r { Some(t) => self.base() <= id < self.base() + self.sp().len() && t@ == self.sp()[id - self.base()], None => id < self.base() || id >= self.base() + self.sp().len() }
@fn Tokenizer::id_to_base_token
@contract
    requires self.wf()
    ensures match r { Some(t) => id < self.base() && t == self.model.vocab@[id as int], None => id >= self.base() }
@fn Tokenizer::is_special
@contract
    requires self.wf()
    ensures r == (self.base() <= id < self.base() + self.sp().len())
@fn Tokenizer::is_base
@contract
    requires self.wf()
    ensures r == (id < self.base())
@fn Tokenizer::special_tokens
@contract
    ensures r@ == self.special_tokens@
@fn Tokenizer::vocab_size
@contract
    requires self.wf()
    ensures r == self.base() + self.sp().len()
@fn Tokenizer::base_vocab_size
@contract
    ensures r == self.base()
@fn Tokenizer::special_vocab_size
@contract
    ensures r == self.sp().len()
@fn Tokenizer::model
@contract
    ensures *r == self.model
@fn Tokenizer::processors
@contract
    ensures *r == self.processors
@fn Tokenizer::into_inner
@contract
    ensures r.0 == self.model, r.1 == self.processors, r.2 == self.special_tokens
@fn SpecialTokenSplitter::new
@contract
    ensures r.ok(), r.input == input, r.special_tokens == special_tokens, r.rest() == input@
@end
    proof { assert(blen(input@.take(0)) == 0) by { lemma_blen_pos(input@.take(0)); } assert(bound_at(input@, 0, 0)); assert(input@.skip(0) =~= input@); }
@fn SpecialTokenSplitter@Iterator::next
@contract
    requires old(self).ok()
    ensures
        final(self).ok(), final(self).sp() == old(self).sp(), final(self).input == old(self).input,
        old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest() && pieces(old(self).sp(), old(self).rest()).len() == 0,
        old(self).rest().len() > 0 ==> r is Some,
        old(self).rest().len() > 0 ==> r->Some_0.0@ == piece_of(old(self).sp(), old(self).rest()).0 && r->Some_0.1 == piece_of(old(self).sp(), old(self).rest()).1,
        old(self).rest().len() > 0 ==> final(self).rest() == old(self).rest().skip(r->Some_0.0@.len() as int),
        old(self).rest().len() > 0 ==> final(self).rest().len() < old(self).rest().len(),
        old(self).rest().len() > 0 ==> pieces(old(self).sp(), old(self).rest()) == seq![(r->Some_0.0@, r->Some_0.1)] + pieces(old(self).sp(), final(self).rest()),
@start
    let ghost s0 = self.input@; let ghost c0 = self.at(); let ghost i0 = self.cursor as int; let ghost r0 = self.rest(); let ghost sp = self.sp();
    proof {
        lemma_advance(s0, i0, c0, 0);
        lemma_blen_pos(r0);
        if r0.len() > 0 { lemma_piece(sp, r0); }
        assert forall|c: int| #[trigger] bound_at(s0, i0, c) implies c == c0 by { lemma_bound_unique(s0, i0, c, c0); }
        let n = r0.len() as int;
        lemma_advance(s0, i0, c0, n);
        assert(r0.take(n) =~= r0);
        assert(s0.skip(c0 + n) =~= Seq::<char>::empty());
        lemma_blen_pos(Seq::<char>::empty());
        assert forall|c: int| #[trigger] bound_at(s0, blen(s0), c) implies c == c0 + n by { lemma_bound_unique(s0, blen(s0), c, c0 + n); }
        lemma_gap_all(sp, r0);
    }
@loop 1
    invariant
        __it1@ == r0, 0 <= __it1.pos() <= r0.len(),
        forall|j: int| 0 <= j < __it1.pos() ==> here(sp, #[trigger] r0.skip(j)) is None,
        *self == *old(self),
@body_start 1
    let ghost p = __it1.pos() - 1;
    proof {
        lemma_blen_pos(r0.take(0)); assert(bound_at(r0, 0, 0)); assert(r0.skip(0) =~= r0);
        lemma_advance(r0, 0, 0, p);
        assert(bound_at(r0, i as int, p));
        lemma_blen_pos(r0.take(p));
        lemma_advance(s0, i0, c0, p);
        assert forall|c: int| #[trigger] bound_at(s0, i0 + i, c) implies c == c0 + p by { lemma_bound_unique(s0, i0 + i, c, c0 + p); }
        lemma_gap(sp, r0, p);
    }
@loop 2
    invariant
        *self == *old(self),
        suffix@ == r0.skip(p), i == 0 <==> p == 0, bound_at(input@, i as int, p), i == blen(r0.take(p)), input@ == r0, 0 <= p < r0.len(),
        __it2@.len() <= sp.len(), __it2@ == self.special_tokens.elems().skip(sp.len() - __it2@.len()),
        forall|j: int| 0 <= j < sp.len() - __it2@.len() ==> !((#[trigger] sp[j]).len() > 0 && is_prefix(sp[j], r0.skip(p))),
@before 2
    proof { assert(suffix@ == r0.skip(p)); assert(self.special_tokens.elems().skip(0) =~= self.special_tokens.elems()); }
@body_start 2
    proof {
        let t = special_token@; let v = sp.len() - __it2@.len() - 1;
        assert(self.special_tokens.elems().skip(v)[0] == self.special_tokens.elems()[v]);
        assert(self.special_tokens.elems().skip(v).drop_first() =~= self.special_tokens.elems().skip(v + 1));
        assert(sp[v] == t);
        lemma_here(sp, r0.skip(p));
        if t.len() > 0 && is_prefix(t, r0.skip(p)) {
            let k = here(sp, r0.skip(p))->Some_0;
            assert(k == v);
            assert(gap(sp, r0.skip(p)) == 0);
            assert(gap(sp, r0) == p);
            if p > 0 {
                assert(here(sp, r0.skip(0)) is None);
                lemma_step(sp, s0, i0, c0, r0, p, false);
            } else {
                lemma_piece(sp, r0);
                assert(piece_of(sp, r0) == (t, true));
                lemma_step(sp, s0, i0, c0, r0, t.len() as int, true);
            }
        }
    }
@body_end 2
    proof { assert(!(special_token@.len() > 0 && is_prefix(special_token@, r0.skip(p)))); }
@after 2
    proof { lemma_here(sp, r0.skip(p)); }
@after 1
    proof { if r0.len() > 0 { assert(r0.take(r0.len() as int) =~= r0); assert(here(sp, r0.skip(0)) is None); lemma_step(sp, s0, i0, c0, r0, r0.len() as int, false); } }
