// Trusted: specifications of the library functions the code calls (standard library, fnv, rand).
// Everything `external_body` or `axiom` here is an assumption; the checks list them.
#![allow(unused_imports, unused_variables, dead_code, non_snake_case)]
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
verus! {

// ---------------------------------------------------------------- hash maps
/// What a key is, as far as equality goes.
pub trait Key {
    type Id;
    spec fn kid(&self) -> Self::Id;
}
impl Key for u8 { type Id = int; open spec fn kid(&self) -> int { *self as int } }
impl Key for Vec<u8> { type Id = Seq<u8>; open spec fn kid(&self) -> Seq<u8> { self@ } }
impl Key for [u8] { type Id = Seq<u8>; open spec fn kid(&self) -> Seq<u8> { self@ } }
impl Key for String { type Id = Seq<char>; open spec fn kid(&self) -> Seq<char> { self@ } }
impl Key for str { type Id = Seq<char>; open spec fn kid(&self) -> Seq<char> { self@ } }
impl Key for &str { type Id = Seq<char>; open spec fn kid(&self) -> Seq<char> { (*self)@ } }
impl Key for &String { type Id = Seq<char>; open spec fn kid(&self) -> Seq<char> { (*self)@ } }
impl Key for (u32, u32) { type Id = (u32, u32); open spec fn kid(&self) -> (u32, u32) { *self } }

/// std, fnv and dashmap maps: a finite map from key identities to values.
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
#[verifier::accept_recursive_types(S)]
pub struct HashMap<K: Key, V, S = ()> { k: Vec<K>, v: Vec<V>, s: core::marker::PhantomData<S> }

pub type FnvHashMap<K, V> = HashMap<K, V, ()>;
pub type DashMap<K, V> = HashMap<K, V, ()>;
impl<K: Key, V> HashMap<K, V, ()> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K::Id, V>::empty() { unimplemented!() }
}
impl<K: Key, V, S> HashMap<K, V, S> {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ =~= Map::<K::Id, V>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<Q: Key<Id = K::Id> + ?Sized>(&mut self, k: &Q) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(k.kid()),
            r == (if old(self)@.contains_key(k.kid()) { Some(old(self)@[k.kid()]) } else { None::<V> }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Map::<K::Id, V>::empty() { unimplemented!() }
    /// every entry once, in some order
    #[verifier::external_body]
    pub fn vx_iter(&self) -> (r: VecIter<(&K, &V)>) ensures lists_ref(r@, self@) { unimplemented!() }
    pub uninterp spec fn view(&self) -> Map<K::Id, V>;
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r@ == Map::<K::Id, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k.kid(), v),
            r == (if old(self)@.contains_key(k.kid()) { Some(old(self)@[k.kid()]) } else { None::<V> }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get<Q: Key<Id = K::Id> + ?Sized>(&self, k: &Q) -> (r: Option<&V>)
        ensures match r { Some(v) => self@.contains_key(k.kid()) && *v == self@[k.kid()], None => !self@.contains_key(k.kid()) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key<Q: Key<Id = K::Id> + ?Sized>(&self, k: &Q) -> (r: bool)
        ensures r == self@.contains_key(k.kid())
    { unimplemented!() }
    /// entry(k).or_default()
    #[verifier::external_body]
    pub fn entry_or_default(&mut self, k: K) -> (r: &mut V) where V: Default
        ensures final(self)@ == old(self)@.insert(k.kid(), *final(r)),
            old(self)@.contains_key(k.kid()) ==> *r == old(self)@[k.kid()],
            !old(self)@.contains_key(k.kid()) ==> call_ensures(<V as Default>::default, (), *r),
    { unimplemented!() }
    /// entry(k).or_insert(v)
    #[verifier::external_body]
    pub fn entry_or_insert(&mut self, k: K, v: V) -> (r: &mut V)
        ensures final(self)@ == old(self)@.insert(k.kid(), *final(r)),
            old(self)@.contains_key(k.kid()) ==> *r == old(self)@[k.kid()],
            !old(self)@.contains_key(k.kid()) ==> *r == v,
    { unimplemented!() }
}

/// the entries of a map, each once
pub open spec fn lists<K: Key, V>(e: Seq<(K, V)>, m: Map<K::Id, V>) -> bool {
    &&& forall|i: int| 0 <= i < e.len() ==> m.contains_key((#[trigger] e[i]).0.kid()) && m[e[i].0.kid()] == e[i].1
    &&& forall|i: int, j: int| 0 <= i < j < e.len() ==> (#[trigger] e[i]).0.kid() != (#[trigger] e[j]).0.kid()
    &&& forall|k: K::Id| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0.kid() == k
}
pub open spec fn lists_ref<K: Key, V>(e: Seq<(&K, &V)>, m: Map<K::Id, V>) -> bool {
    &&& forall|i: int| 0 <= i < e.len() ==> m.contains_key((#[trigger] e[i]).0.kid()) && m[e[i].0.kid()] == *e[i].1
    &&& forall|i: int, j: int| 0 <= i < j < e.len() ==> (#[trigger] e[i]).0.kid() != (#[trigger] e[j]).0.kid()
    &&& forall|k: K::Id| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0.kid() == k
}
pub uninterp spec fn map_elems<K: Key, V, S>(m: HashMap<K, V, S>) -> Seq<(K, V)>;
pub broadcast axiom fn ax_map_elems<K: Key, V, S>(m: HashMap<K, V, S>) ensures lists(#[trigger] map_elems(m), m@);
impl<K: Key, V, S> VxIntoIter for HashMap<K, V, S> {
    type Item = (K, V);
    open spec fn elems(self) -> Seq<(K, V)> { map_elems(self) }
    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: VecIter<(K, V)>) { unimplemented!() }
}

/// std and fnv sets
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct HashSet<K: Key> { k: Vec<K> }
pub type FnvHashSet<K> = HashSet<K>;
impl<K: Key> HashSet<K> {
    pub uninterp spec fn view(&self) -> Set<K::Id>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Set::<K::Id>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r@ == Set::<K::Id>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K) -> (r: bool) ensures final(self)@ == old(self)@.insert(k.kid()), r == !old(self)@.contains(k.kid()) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains<Q: Key<Id = K::Id> + ?Sized>(&self, k: &Q) -> (r: bool) ensures r == self@.contains(k.kid()) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ =~= Set::<K::Id>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Set::<K::Id>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_iter(&self) -> (r: VecIter<&K>)
        ensures
            forall|i: int| 0 <= i < r@.len() ==> self@.contains((#[trigger] r@[i]).kid()),
            forall|i: int, j: int| 0 <= i < j < r@.len() ==> (#[trigger] r@[i]).kid() != (#[trigger] r@[j]).kid(),
            forall|k: K::Id| #[trigger] self@.contains(k) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).kid() == k,
    { unimplemented!() }
}

// ---------------------------------------------------------------- parallelism
/// concatenation
pub open spec fn flat<T>(cs: Seq<&[T]>) -> Seq<T> decreases cs.len() { if cs.len() == 0 { Seq::empty() } else { flat(cs.drop_last()) + cs.last()@ } }
pub trait VxChunks<T> {
    spec fn chv(&self) -> Seq<T>;
    /// rayon's par_chunks: chunks that make up the slice, taken up in any order, one at a time
    fn vx_par_chunks(&self, n: usize) -> (r: VecIter<&[T]>)
        requires n > 0
        ensures flat(r@).to_multiset() == self.chv().to_multiset(), forall|i: int| 0 <= i < r@.len() ==> 0 < (#[trigger] r@[i])@.len() <= n;
    fn vx_chunks(&self, n: usize) -> (r: VecIter<&[T]>)
        requires n > 0
        ensures flat(r@) == self.chv(), forall|i: int| 0 <= i < r@.len() ==> 0 < (#[trigger] r@[i])@.len() <= n;
}
impl<T> VxChunks<T> for [T] {
    open spec fn chv(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_par_chunks(&self, n: usize) -> (r: VecIter<&[T]>) { unimplemented!() }
    #[verifier::external_body] fn vx_chunks(&self, n: usize) -> (r: VecIter<&[T]>) { unimplemented!() }
}
/// progress reporting: no effect on results
#[verifier::external_body]
pub struct Task { x: u8 }
#[verifier::external_body]
pub struct LocalTask { x: u8 }
impl Task {
    #[verifier::external_body] pub fn new<P: VxText + ?Sized>(desc: &P, num_samples: usize, chunk_size: usize) -> Task requires chunk_size > 0 { unimplemented!() }
    #[verifier::external_body] pub fn start(&self) { unimplemented!() }
    #[verifier::external_body] pub fn local(&self, n: usize) -> LocalTask { unimplemented!() }
    #[verifier::external_body] pub fn finish(&self) { unimplemented!() }
}
impl LocalTask {
    #[verifier::external_body] pub fn record(&mut self, n: usize) { unimplemented!() }
    #[verifier::external_body] pub fn finish(&mut self) { unimplemented!() }
}

// ---------------------------------------------------------------- regular expressions
#[verifier::external_body]
pub struct Regex { x: u8 }
impl Clone for Regex { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body]
pub struct Match<'a> { s: &'a str }
impl<'a> Match<'a> {
    pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body] pub fn vx_as_str(&self) -> (r: &'a str) ensures r@ == self.text() { unimplemented!() }
}
/// the pattern matches somewhere in s
pub uninterp spec fn re_is_match(r: Regex, s: Seq<char>) -> bool;
/// the leftmost non-overlapping matches in s, in order
pub uninterp spec fn re_matches(r: Regex, s: Seq<char>) -> Seq<Seq<char>>;
#[verifier::external_body]
pub struct RegexError { x: u8 }
impl Regex {
    /// the text it was made from
    pub uninterp spec fn src(&self) -> Seq<char>;
    #[verifier::external_body] pub fn new<P: VxText + ?Sized>(s: &P) -> (r: core::result::Result<Regex, RegexError>) ensures r matches Ok(x) ==> x.src() == s.tx() { unimplemented!() }
    #[verifier::external_body] pub fn vx_is_match<P: VxText + ?Sized>(&self, s: &P) -> (r: bool) ensures r == re_is_match(*self, s.tx()) { unimplemented!() }
    #[verifier::external_body] pub fn vx_find_iter<'a>(&self, s: &'a str) -> (r: VecIter<Match<'a>>)
        ensures r@.len() == re_matches(*self, s@).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).text() == re_matches(*self, s@)[i]
    { unimplemented!() }
}

/// Option::unwrap_or
pub open spec fn or<T>(o: Option<T>, d: T) -> T { match o { Some(x) => x, None => d } }
pub fn vx_or<T>(o: Option<T>, d: T) -> (r: T) ensures r == or(o, d) { match o { Some(x) => x, None => d } }

/// the pattern text p is a pattern of its own: a group around it means the same (no open comment of verbose mode)
pub uninterp spec fn closed_pattern(p: Seq<char>) -> bool;
/// p matches the whole of s, as `^(?:p)$` does
pub uninterp spec fn whole(p: Seq<char>, s: Seq<char>) -> bool;
/// the end of the match of p that begins at i, if there is one
pub uninterp spec fn match_at(p: Seq<char>, s: Seq<char>, i: int) -> Option<int>;
pub open spec fn first_match_at(ps: Seq<Seq<char>>, s: Seq<char>, i: int) -> Option<int> decreases ps.len() {
    if ps.len() == 0 { None } else if match_at(ps[0], s, i) is Some { match_at(ps[0], s, i) } else { first_match_at(ps.skip(1), s, i) }
}
pub open spec fn wrapped(a: Seq<char>, ps: Seq<Seq<char>>, b: Seq<char>) -> Seq<Seq<char>> { Seq::new(ps.len(), |i: int| a + ps[i] + b) }
/// what alternation, groups and anchors mean
pub axiom fn ax_whole(ps: Seq<Seq<char>>, r: Regex, s: Seq<char>)
    requires ps.len() > 0, forall|i: int| 0 <= i < ps.len() ==> closed_pattern(#[trigger] ps[i]), r.src() == joined(wrapped(seq!['^', '(', '?', ':'], ps, seq![')', '$']), seq!['|'])
    ensures re_is_match(r, s) <==> exists|i: int| 0 <= i < ps.len() && whole(#[trigger] ps[i], s);
pub axiom fn ax_first(ps: Seq<Seq<char>>, r: Regex, s: Seq<char>, i: int)
    requires ps.len() > 0, forall|k: int| 0 <= k < ps.len() ==> closed_pattern(#[trigger] ps[k]), r.src() == joined(wrapped(seq!['(', '?', ':'], ps, seq![')']), seq!['|'])
    ensures match_at(r.src(), s, i) == first_match_at(ps, s, i);

/// fancy_regex: matching can fail
#[verifier::external_body]
pub struct FancyRegex { x: u8 }
#[verifier::external_body]
pub struct FancyError { x: u8 }
impl Clone for FancyRegex { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
/// the leftmost non-overlapping matches in s, in order
pub uninterp spec fn fre_matches(r: FancyRegex, s: Seq<char>) -> Seq<Seq<char>>;
impl FancyRegex {
    pub uninterp spec fn src(&self) -> Seq<char>;
    #[verifier::external_body] pub fn new<P: VxText + ?Sized>(s: &P) -> (r: core::result::Result<FancyRegex, FancyError>) ensures r matches Ok(x) ==> x.src() == s.tx() { unimplemented!() }
    #[verifier::external_body] pub fn vx_find_iter<'a>(&self, s: &'a str) -> (r: VecIter<core::result::Result<Match<'a>, FancyError>>)
        ensures
            forall|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]) is Ok ==> i < fre_matches(*self, s@).len() && r@[i]->Ok_0.text() == fre_matches(*self, s@)[i],
            (forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]) is Ok) ==> r@.len() == fre_matches(*self, s@).len(),
    { unimplemented!() }
}

// ---------------------------------------------------------------- clone
/// Clone of the library and derived Clone impls: an equal value.
pub trait VxClone: Sized {
    fn vx_clone(&self) -> (r: Self) ensures r == *self;
}
impl<T: Clone> VxClone for T {
    #[verifier::external_body]
    fn vx_clone(&self) -> (r: Self) { self.clone() }
}
pub trait VxCopied<T> {
    spec fn copied_spec(self) -> Option<T>;
    fn vx_copied(self) -> (r: Option<T>) ensures r == self.copied_spec();
    fn vx_cloned(self) -> (r: Option<T>) ensures r == self.copied_spec();
}
impl<T: Clone> VxCopied<T> for Option<&T> {
    open spec fn copied_spec(self) -> Option<T> { match self { Some(x) => Some(*x), None => None } }
    #[verifier::external_body]
    fn vx_copied(self) -> (r: Option<T>) { self.cloned() }
    #[verifier::external_body]
    fn vx_cloned(self) -> (r: Option<T>) { self.cloned() }
}
pub trait VxToVec<T> { spec fn tvs(&self) -> Seq<T>; fn vx_to_vec(&self) -> (r: Vec<T>) ensures r@ == self.tvs(); }
impl<T: Clone> VxToVec<T> for [T] {
    open spec fn tvs(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_to_vec(&self) -> (r: Vec<T>) { self.to_vec() }
}

// ---------------------------------------------------------------- panics
/// panic! where the contract says the function never panics
#[verifier::external_body]
pub fn vx_panic() -> ! requires false { panic!() }
/// panic! where the contract is about the runs that do not panic
#[verifier::external_body]
#[verifier::exec_allows_no_decreases_clause]
pub fn vx_panic_ok() -> ! { panic!() }
pub fn vx_assert(b: bool) requires b {}
#[verifier::external_body]
pub fn vx_assert_ok(b: bool) ensures b { assert!(b) }
pub trait VxUnwrap<T>: Sized {
    spec fn unwrap_spec(self, v: T) -> bool;
    fn vx_unwrap(self) -> (r: T) ensures self.unwrap_spec(r);
}
impl<T> VxUnwrap<T> for Option<T> {
    open spec fn unwrap_spec(self, v: T) -> bool { self == Some(v) }
    #[verifier::external_body]
    fn vx_unwrap(self) -> (r: T) { self.unwrap() }
}
impl<T, E> VxUnwrap<T> for Result<T, E> {
    open spec fn unwrap_spec(self, v: T) -> bool { self == Ok::<T, E>(v) }
    #[verifier::external_body]
    fn vx_unwrap(self) -> (r: T) { match self { Ok(x) => x, Err(_) => panic!() } }
}

// ---------------------------------------------------------------- vectors and slices
#[verifier::external_body]
pub fn vx_vec_n<T: Clone>(x: T, n: usize) -> (r: Vec<T>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> r@[i] == x { vec![x; n] }
#[verifier::external_body]
pub fn vx_vec1<T>(x: T) -> (r: Vec<T>) ensures r@ == seq![x] { vec![x] }
/// no allocation is larger than isize::MAX bytes
pub broadcast axiom fn ax_slice_len<T>(s: &[T]) ensures #[trigger] s@.len() <= isize::MAX;
pub broadcast axiom fn ax_vec_len<T>(s: Vec<T>) ensures #[trigger] s@.len() <= isize::MAX;
pub broadcast axiom fn ax_str_len(s: &str) ensures #[trigger] vstd::utf8::encode_utf8(s@).len() <= isize::MAX;

pub broadcast axiom fn ax_string_len(s: String) ensures #[trigger] vstd::utf8::encode_utf8(s@).len() <= isize::MAX;

pub trait VxDrain<T> { spec fn drv(&self) -> Seq<T>; fn vx_drain_all(&mut self) -> (r: VecIter<T>) ensures r@ == old(self).drv(), final(self).drv().len() == 0; }
impl<T> VxDrain<T> for Vec<T> {
    open spec fn drv(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_drain_all(&mut self) -> (r: VecIter<T>) { unimplemented!() }
}
pub trait VxUnwrapDefault<T> { spec fn uds(self) -> Option<T>; fn vx_unwrap_or_default(self) -> (r: T) where T: Default ensures match self.uds() { Some(x) => r == x, None => call_ensures(<T as Default>::default, (), r) }; }
impl<T> VxUnwrapDefault<T> for Option<T> {
    open spec fn uds(self) -> Option<T> { self }
    #[verifier::external_body]
    fn vx_unwrap_or_default(self) -> (r: T) where T: Default { self.unwrap_or_default() }
}
pub trait VxReverse<T> { spec fn vxr(&self) -> Seq<T>; fn vx_reverse(&mut self) ensures final(self).vxr() == old(self).vxr().reverse(); }
impl<T> VxReverse<T> for Vec<T> {
    open spec fn vxr(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_reverse(&mut self) { self.reverse() }
}

/// a source of bytes: `Iterator<Item = u8>`
pub trait ByteSource: Sized {
    spec fn rem(&self) -> Seq<u8>;
    fn next(&mut self) -> (r: Option<u8>)
        ensures
            old(self).rem().len() == 0 ==> r is None && final(self).rem() == old(self).rem(),
            old(self).rem().len() > 0 ==> r == Some(old(self).rem()[0]) && final(self).rem() == old(self).rem().drop_first(),
    ;
}
/// slice.iter().copied() over bytes
pub struct ByteIter<'a> { pub s: &'a [u8], pub i: usize }
impl<'a> ByteSource for ByteIter<'a> {
    open spec fn rem(&self) -> Seq<u8> { if self.i <= self.s@.len() { self.s@.skip(self.i as int) } else { Seq::empty() } }
    fn next(&mut self) -> (r: Option<u8>) {
        if self.i < self.s.len() {
            let b = self.s[self.i];
            proof { assert(self.s@.skip(self.i as int).drop_first() =~= self.s@.skip(self.i as int + 1)); }
            self.i = self.i + 1;
            Some(b)
        } else { None }
    }
}
pub fn vx_byte_iter<'a>(s: &'a [u8]) -> (r: ByteIter<'a>) ensures r.rem() == s@ {
    proof { assert(s@.skip(0) =~= s@); }
    ByteIter { s, i: 0 }
}

// ---------------------------------------------------------------- strings
/// the bytes of a string
pub open spec fn sb(s: Seq<char>) -> Seq<u8> { vstd::utf8::encode_utf8(s) }
/// String::from_utf8_lossy
pub uninterp spec fn lossy(b: Seq<u8>) -> Seq<char>;
/// ... changes nothing in well-formed UTF-8
pub broadcast axiom fn ax_lossy(b: Seq<u8>) ensures vstd::utf8::valid_utf8(b) ==> sb(#[trigger] lossy(b)) == b;
#[verifier::external_body]
pub fn vx_from_utf8_lossy(b: &[u8]) -> (r: String) ensures r@ == lossy(b@) { String::from_utf8_lossy(b).into_owned() }
pub trait VxIntoOwned { fn vx_into_owned(self) -> Self; }
impl VxIntoOwned for String { fn vx_into_owned(self) -> (r: String) ensures r == self { self } }

/// str::replace: leftmost non-overlapping occurrences
pub open spec fn replaced(s: Seq<char>, f: Seq<char>, t: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 || f.len() == 0 { s }
    else if s.len() >= f.len() && s.take(f.len() as int) == f { t + replaced(s.skip(f.len() as int), f, t) }
    else { seq![s[0]] + replaced(s.skip(1), f, t) }
}
/// the four Unicode normal forms
pub uninterp spec fn nfc(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn nfd(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn nfkc(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn nfkd(s: Seq<char>) -> Seq<char>;
/// an iterator of characters, collected
#[verifier::external_body]
pub struct CharSeq { x: u8 }
impl CharSeq {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn collect<S: VxFromChars>(self) -> (r: S) ensures r.from_chars(self@) { unimplemented!() }
}
pub trait VxFromChars: Sized { spec fn from_chars(&self, c: Seq<char>) -> bool; }
impl VxFromChars for String { open spec fn from_chars(&self, c: Seq<char>) -> bool { self@ == c } }
/// what can be read as text
pub trait VxText {
    spec fn tx(&self) -> Seq<char>;
    fn vx_as_ref(&self) -> (r: &str) ensures r@ == self.tx();
    fn vx_to_string(&self) -> (r: String) ensures r@ == self.tx();
}
impl VxText for str { open spec fn tx(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_as_ref(&self) -> (r: &str) { self }
    #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { self.to_string() } }
impl VxText for String { open spec fn tx(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_as_ref(&self) -> (r: &str) { self }
    #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { self.to_string() } }
impl<T: VxText + ?Sized> VxText for &T { open spec fn tx(&self) -> Seq<char> { (**self).tx() }
    #[verifier::external_body] fn vx_as_ref(&self) -> (r: &str) { (**self).vx_as_ref() }
    #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { (**self).vx_to_string() } }
pub open spec fn is_prefix(p: Seq<char>, s: Seq<char>) -> bool { p.len() <= s.len() && s.take(p.len() as int) == p }
/// what str::replace looks for: a text, or any of some characters
pub trait VxPat: Sized { spec fn repl(self, s: Seq<char>, t: Seq<char>, r: Seq<char>) -> bool; }
impl<'a> VxPat for &'a str { open spec fn repl(self, s: Seq<char>, t: Seq<char>, r: Seq<char>) -> bool { self@.len() > 0 ==> r == replaced(s, self@, t) } }
impl<'a> VxPat for &'a String { open spec fn repl(self, s: Seq<char>, t: Seq<char>, r: Seq<char>) -> bool { self@.len() > 0 ==> r == replaced(s, self@, t) } }
impl VxPat for char { open spec fn repl(self, s: Seq<char>, t: Seq<char>, r: Seq<char>) -> bool { r == repl_chars(s, seq![self], t) } }
impl<const N: usize> VxPat for [char; N] { open spec fn repl(self, s: Seq<char>, t: Seq<char>, r: Seq<char>) -> bool { forall|f: Seq<char>| f.len() == N && (forall|i: int| 0 <= i < N ==> #[trigger] f[i] == self@[i]) ==> r == #[trigger] repl_chars(s, f, t) } }
impl<'a, const N: usize> VxPat for &'a [char; N] { open spec fn repl(self, s: Seq<char>, t: Seq<char>, r: Seq<char>) -> bool { forall|f: Seq<char>| f.len() == N && (forall|i: int| 0 <= i < N ==> #[trigger] f[i] == self@[i]) ==> r == #[trigger] repl_chars(s, f, t) } }
pub open spec fn repl_chars(s: Seq<char>, f: Seq<char>, t: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { s } else { repl_chars(s.drop_last(), f, t) + if f.contains(s.last()) { t } else { seq![s.last()] } }
}
/// str::trim
pub uninterp spec fn trimmed(s: Seq<char>) -> Seq<char>;
pub trait VxStr {
    spec fn cs(&self) -> Seq<char>;
    fn vx_replace<P: VxPat>(&self, f: P, t: &str) -> (r: String) ensures f.repl(self.cs(), t@, r@);
    fn vx_trim(&self) -> (r: &str) ensures r@ == trimmed(self.cs());
    fn vx_starts_with<P: VxText + ?Sized>(&self, p: &P) -> (r: bool) ensures r == is_prefix(p.tx(), self.cs());
    fn vx_nfc(&self) -> (r: CharSeq) ensures r@ == nfc(self.cs());
    fn vx_nfd(&self) -> (r: CharSeq) ensures r@ == nfd(self.cs());
    fn vx_nfkc(&self) -> (r: CharSeq) ensures r@ == nfkc(self.cs());
    fn vx_nfkd(&self) -> (r: CharSeq) ensures r@ == nfkd(self.cs());
    fn vx_char_indices(&self) -> (r: CharIndices) ensures r@ == self.cs(), r.pos() == 0;
}
impl VxStr for str {
    open spec fn cs(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_replace<P: VxPat>(&self, f: P, t: &str) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_trim(&self) -> (r: &str) { self.trim() }
    #[verifier::external_body] fn vx_starts_with<P: VxText + ?Sized>(&self, p: &P) -> (r: bool) { self.starts_with(p.vx_as_ref()) }
    #[verifier::external_body] fn vx_nfc(&self) -> (r: CharSeq) { unimplemented!() }
    #[verifier::external_body] fn vx_nfd(&self) -> (r: CharSeq) { unimplemented!() }
    #[verifier::external_body] fn vx_nfkc(&self) -> (r: CharSeq) { unimplemented!() }
    #[verifier::external_body] fn vx_nfkd(&self) -> (r: CharSeq) { unimplemented!() }
    #[verifier::external_body] fn vx_char_indices(&self) -> (r: CharIndices) { unimplemented!() }
}
impl VxStr for String {
    open spec fn cs(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_replace<P: VxPat>(&self, f: P, t: &str) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_trim(&self) -> (r: &str) { self.trim() }
    #[verifier::external_body] fn vx_starts_with<P: VxText + ?Sized>(&self, p: &P) -> (r: bool) { self.starts_with(p.vx_as_ref()) }
    #[verifier::external_body] fn vx_nfc(&self) -> (r: CharSeq) { unimplemented!() }
    #[verifier::external_body] fn vx_nfd(&self) -> (r: CharSeq) { unimplemented!() }
    #[verifier::external_body] fn vx_nfkc(&self) -> (r: CharSeq) { unimplemented!() }
    #[verifier::external_body] fn vx_nfkd(&self) -> (r: CharSeq) { unimplemented!() }
    #[verifier::external_body] fn vx_char_indices(&self) -> (r: CharIndices) { unimplemented!() }
}
/// str::split by a character
pub open spec fn cut_at(s: Seq<char>, c: char) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { seq![s] }
    else if s[0] == c { seq![Seq::<char>::empty()] + cut_at(s.skip(1), c) }
    else { let t = cut_at(s.skip(1), c); seq![seq![s[0]] + t[0]] + t.skip(1) }
}
pub trait VxSplit { fn vx_split<'a>(&'a self, c: char) -> (r: VecIter<&'a str>) ensures txs_ref(r@) == cut_at(self.spv(), c); spec fn spv(&self) -> Seq<char>; }
pub open spec fn txs_ref(v: Seq<&str>) -> Seq<Seq<char>> { v.map_values(|s: &str| s@) }
impl VxSplit for str { open spec fn spv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_split<'a>(&'a self, c: char) -> (r: VecIter<&'a str>) { unimplemented!() } }
impl VxSplit for String { open spec fn spv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_split<'a>(&'a self, c: char) -> (r: VecIter<&'a str>) { unimplemented!() } }
/// slice::split: cut at the elements where the mask is set
pub open spec fn cut_mask<T>(s: Seq<T>, m: Seq<bool>) -> Seq<Seq<T>> decreases s.len() {
    if s.len() == 0 { seq![s] }
    else if m[0] { seq![Seq::<T>::empty()] + cut_mask(s.skip(1), m.skip(1)) }
    else { let t = cut_mask(s.skip(1), m.skip(1)); seq![seq![s[0]] + t[0]] + t.skip(1) }
}
pub open spec fn deref_all<T>(v: Seq<&[T]>) -> Seq<Seq<T>> { v.map_values(|s: &[T]| s@) }
#[verifier::external_body]
pub fn vx_split_mask<'a, T>(s: &'a [T], m: &Vec<bool>) -> (r: VecIter<&'a [T]>) requires m@.len() == s@.len() ensures deref_all(r@) == cut_mask(s@, m@) { unimplemented!() }
/// str::parse
pub uninterp spec fn parse_f64(s: Seq<char>) -> Option<f64>;
#[verifier::external_body]
pub struct ParseErr { x: u8 }
pub trait VxFromText: Sized { spec fn parsed(s: Seq<char>) -> Option<Self>; }
impl VxFromText for f64 { open spec fn parsed(s: Seq<char>) -> Option<f64> { parse_f64(s) } }
pub trait VxParse { spec fn pav(&self) -> Seq<char>; fn vx_parse<T: VxFromText>(&self) -> (r: core::result::Result<T, ParseErr>) ensures match r { Ok(v) => T::parsed(self.pav()) == Some(v), Err(_) => T::parsed(self.pav()) is None }; }
impl VxParse for str { open spec fn pav(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_parse<T: VxFromText>(&self) -> (r: core::result::Result<T, ParseErr>) { unimplemented!() } }
/// the files, as they are while the command runs
pub uninterp spec fn file(path: Seq<char>) -> Option<Seq<u8>>;
#[verifier::external_body]
pub fn vx_fs_read<P: VxText + ?Sized>(path: &P) -> (r: core::result::Result<Vec<u8>, IoError>)
    ensures match r { Ok(v) => file(path.tx()) == Some(v@), Err(_) => file(path.tx()) is None }
{ unimplemented!() }
/// every file has fewer than 2^53 bytes
pub axiom fn ax_file(path: Seq<char>) ensures file(path) matches Some(b) ==> b.len() < 0x20_0000_0000_0000;
pub trait VxChars { spec fn chv(&self) -> Seq<char>; fn vx_chars(&self) -> (r: VecIter<char>) ensures r@ == self.chv(); }
impl VxChars for str { open spec fn chv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_chars(&self) -> (r: VecIter<char>) { unimplemented!() } }
impl VxChars for String { open spec fn chv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_chars(&self) -> (r: VecIter<char>) { unimplemented!() } }
/// p occurs in s
pub open spec fn occurs(p: Seq<char>, s: Seq<char>) -> bool { exists|a: int| #[trigger] occurs_at(p, s, a) }
pub open spec fn occurs_at(p: Seq<char>, s: Seq<char>, a: int) -> bool { 0 <= a && a + p.len() <= s.len() && s.subrange(a, a + p.len()) == p }
/// str::match_indices: at least one match iff the pattern occurs
pub trait VxMatchIndices { spec fn miv(&self) -> Seq<char>; fn vx_match_indices<P: VxText + ?Sized>(&self, p: &P) -> (r: VecIter<(usize, &str)>) ensures r@.len() > 0 <==> occurs(p.tx(), self.miv()); }
impl VxMatchIndices for str { open spec fn miv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_match_indices<P: VxText + ?Sized>(&self, p: &P) -> (r: VecIter<(usize, &str)>) { unimplemented!() } }
impl VxMatchIndices for String { open spec fn miv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_match_indices<P: VxText + ?Sized>(&self, p: &P) -> (r: VecIter<(usize, &str)>) { unimplemented!() } }
pub trait VxLenUtf8 { spec fn clen(&self) -> int; fn vx_len_utf8(&self) -> (r: usize) ensures r == self.clen(); }
impl VxLenUtf8 for char { open spec fn clen(&self) -> int { sb(seq![*self]).len() as int } #[verifier::external_body] fn vx_len_utf8(&self) -> (r: usize) { self.len_utf8() } }
/// str::char_indices: every character with the byte offset where it starts
#[verifier::external_body]
pub struct CharIndices { x: u8 }
impl CharIndices {
    /// the text
    pub uninterp spec fn view(&self) -> Seq<char>;
    /// characters already returned
    pub uninterp spec fn pos(&self) -> int;
    pub open spec fn vx_left(&self) -> nat { (self@.len() - self.pos()) as nat }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(usize, char)>)
        requires 0 <= old(self).pos() <= old(self)@.len(),
        ensures final(self)@ == old(self)@,
            old(self).pos() == old(self)@.len() ==> r is None && final(self).pos() == old(self).pos(),
            old(self).pos() < old(self)@.len() ==> r == Some((sb(old(self)@.take(old(self).pos())).len() as usize, old(self)@[old(self).pos()])) && final(self).pos() == old(self).pos() + 1,
    { unimplemented!() }
}
pub trait VxInto<T> { spec fn into_spec(self, r: T) -> bool; fn vx_into(self) -> (r: T) ensures self.into_spec(r); }
impl VxInto<String> for &str {
    open spec fn into_spec(self, r: String) -> bool { r@ == self@ }
    #[verifier::external_body] fn vx_into(self) -> (r: String) { self.into() }
}

pub assume_specification[ String::as_bytes ](s: &String) -> (r: &[u8]) ensures r@ == sb(s@);
pub assume_specification[ String::len ](s: &String) -> (r: usize) ensures r == sb(s@).len();
/// number of bytes of a text
pub open spec fn blen(s: Seq<char>) -> int { sb(s).len() as int }
/// &s[a..b]: the offsets must lie on character boundaries
pub uninterp spec fn str_index_post<I: core::slice::SliceIndex<str>>(s: &str, i: I, r: &I::Output) -> bool;
pub assume_specification<I: core::slice::SliceIndex<str>>[ <str as core::ops::Index<I>>::index ](s: &str, i: I) -> (r: &I::Output) ensures str_index_post(s, i, r);
pub uninterp spec fn string_index_post<I: core::slice::SliceIndex<str>>(s: &String, i: I, r: &I::Output) -> bool;
pub assume_specification<I: core::slice::SliceIndex<str>>[ <String as core::ops::Index<I>>::index ](s: &String, i: I) -> (r: &I::Output) ensures string_index_post(s, i, r);
pub open spec fn bound_at(s: Seq<char>, i: int, c: int) -> bool { 0 <= c <= s.len() && blen(s.take(c)) == i }
pub open spec fn is_bound(s: Seq<char>, i: int) -> bool { exists|c: int| #[trigger] bound_at(s, i, c) }
pub broadcast axiom fn ax_str_from_req(s: &str, i: core::ops::RangeFrom<usize>)
    ensures #[trigger] <str as vstd::std_specs::core::IndexSpec<core::ops::RangeFrom<usize>>>::index_req(s, &i) == is_bound(s@, i.start as int);
pub broadcast axiom fn ax_str_from(s: &str, i: core::ops::RangeFrom<usize>, r: &str)
    ensures #[trigger] str_index_post(s, i, r) ==> forall|e: usize, c: int| i.start == e && #[trigger] bound_at(s@, e as int, c) ==> r@ == s@.skip(c);
pub broadcast axiom fn ax_str_to_req(s: &str, i: core::ops::RangeTo<usize>)
    ensures #[trigger] <str as vstd::std_specs::core::IndexSpec<core::ops::RangeTo<usize>>>::index_req(s, &i) == is_bound(s@, i.end as int);
pub broadcast axiom fn ax_str_to(s: &str, i: core::ops::RangeTo<usize>, r: &str)
    ensures #[trigger] str_index_post(s, i, r) ==> forall|e: usize, c: int| i.end == e && #[trigger] bound_at(s@, e as int, c) ==> r@ == s@.take(c);
pub broadcast axiom fn ax_str_range_req(s: &str, i: core::ops::Range<usize>)
    ensures #[trigger] <str as vstd::std_specs::core::IndexSpec<core::ops::Range<usize>>>::index_req(s, &i) == (is_bound(s@, i.start as int) && is_bound(s@, i.end as int) && i.start <= i.end);
pub broadcast axiom fn ax_str_range(s: &str, i: core::ops::Range<usize>, r: &str)
    ensures #[trigger] str_index_post(s, i, r) ==> forall|a: usize, e: usize, c: int, d: int| i.start == a && i.end == e && #[trigger] bound_at(s@, a as int, c) && #[trigger] bound_at(s@, e as int, d) && c <= d ==> r@ == s@.subrange(c, d);
pub broadcast axiom fn ax_string_from_req(s: &String, i: core::ops::RangeFrom<usize>)
    ensures #[trigger] <String as vstd::std_specs::core::IndexSpec<core::ops::RangeFrom<usize>>>::index_req(s, &i) == is_bound(s@, i.start as int);
pub broadcast axiom fn ax_string_from(s: &String, i: core::ops::RangeFrom<usize>, r: &str)
    ensures #[trigger] string_index_post(s, i, r) ==> forall|e: usize, c: int| i.start == e && #[trigger] bound_at(s@, e as int, c) ==> r@ == s@.skip(c);
pub broadcast group group_str { ax_string_from_req, ax_string_from, ax_str_from_req, ax_str_from, ax_str_to_req, ax_str_to, ax_str_range_req, ax_str_range }
pub proof fn lemma_blen_add(a: Seq<char>, b: Seq<char>) ensures blen(a + b) == blen(a) + blen(b), sb(a + b) == sb(a) + sb(b) { vstd::utf8::encode_utf8_concat(a, b); }
pub proof fn lemma_blen_pos(a: Seq<char>) ensures a.len() > 0 <==> blen(a) > 0, blen(a) >= a.len()
    decreases a.len()
{
    if a.len() > 0 {
        assert(a =~= seq![a[0]] + a.skip(1));
        lemma_blen_add(seq![a[0]], a.skip(1));
        lemma_blen_pos(a.skip(1));
        reveal_with_fuel(vstd::utf8::encode_utf8, 2);
    } else { reveal_with_fuel(vstd::utf8::encode_utf8, 2); }
}
/// boundaries correspond to exactly one character position
pub proof fn lemma_bound_unique(s: Seq<char>, i: int, c: int, d: int) requires bound_at(s, i, c), bound_at(s, i, d) ensures c == d
{
    if c < d { assert(s.take(d) =~= s.take(c) + s.subrange(c, d)); lemma_blen_add(s.take(c), s.subrange(c, d)); lemma_blen_pos(s.subrange(c, d)); }
    else if d < c { assert(s.take(c) =~= s.take(d) + s.subrange(d, c)); lemma_blen_add(s.take(d), s.subrange(d, c)); lemma_blen_pos(s.subrange(d, c)); }
}
/// different texts have different bytes
pub proof fn lemma_sb_inj(a: Seq<char>, b: Seq<char>) requires sb(a) == sb(b) ensures a == b
{ vstd::utf8::encode_utf8_decode_utf8(a); vstd::utf8::encode_utf8_decode_utf8(b); }
#[verifier::external_body]
pub struct Utf8Error { x: u8 }
#[verifier::external_body]
pub fn vx_from_utf8(b: &[u8]) -> (r: core::result::Result<&str, Utf8Error>)
    ensures match r { Ok(s) => sb(s@) == b@, Err(_) => !vstd::utf8::valid_utf8(b@) }
{ unimplemented!() }
pub trait VxPushStr { fn vx_push_str<P: VxText + ?Sized>(&mut self, p: &P) ensures final(self).psv() == old(self).psv() + p.tx(); spec fn psv(&self) -> Seq<char>; }
impl VxPushStr for String { open spec fn psv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_push_str<P: VxText + ?Sized>(&mut self, p: &P) { self.push_str(p.vx_as_ref()) } }
/// AsRef<[u32]>
pub trait VxIds { spec fn ids(&self) -> Seq<u32>; fn vx_as_ref(&self) -> (r: &[u32]) ensures r@ == self.ids(); }
impl VxIds for Vec<u32> { open spec fn ids(&self) -> Seq<u32> { self@ } #[verifier::external_body] fn vx_as_ref(&self) -> (r: &[u32]) { self } }
pub trait VxExtend<T> { spec fn exv(&self) -> Seq<T>; fn vx_extend<I: VxIntoIter<Item = T>>(&mut self, i: I) ensures final(self).exv() == old(self).exv() + i.elems(); }
impl<T> VxExtend<T> for Vec<T> { open spec fn exv(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_extend<I: VxIntoIter<Item = T>>(&mut self, i: I) { unimplemented!() } }

/// anything that can be iterated by value
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VecIter<T> { it: std::vec::IntoIter<T> }
impl<T> VecIter<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    pub open spec fn vx_left(&self) -> nat { self@.len() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.drop_first(),
    { self.it.next() }
}
pub trait VxIntoIter: Sized {
    type Item;
    spec fn elems(self) -> Seq<Self::Item>;
    fn vx_into_iter(self) -> (r: VecIter<Self::Item>) ensures r@ == self.elems();
}
impl<T> VxIntoIter for Vec<T> {
    type Item = T;
    open spec fn elems(self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: VecIter<T>) { VecIter { it: self.into_iter() } }
}
impl<'a, T> VxIntoIter for &'a [T] {
    type Item = &'a T;
    open spec fn elems(self) -> Seq<&'a T> { Seq::new(self@.len(), |i: int| &self@[i]) }
    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: VecIter<&'a T>) { unimplemented!() }
}
/// slice.iter() as a value
pub trait VxSliceIter<T> { spec fn siv(&self) -> Seq<T>; fn vx_siter<'a>(&'a self) -> (r: VecIter<&'a T>) ensures r@ == Seq::new(self.siv().len(), |i: int| &self.siv()[i]); }
impl<T> VxSliceIter<T> for Vec<T> { open spec fn siv(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_siter<'a>(&'a self) -> (r: VecIter<&'a T>) { unimplemented!() } }
impl<T> VxSliceIter<T> for [T] { open spec fn siv(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_siter<'a>(&'a self) -> (r: VecIter<&'a T>) { unimplemented!() } }
pub fn vx_slice_iter<'a, T, S: VxSliceIter<T> + ?Sized>(s: &'a S) -> (r: VecIter<&'a T>) ensures r@ == Seq::new(s.siv().len(), |i: int| &s.siv()[i]) { s.vx_siter() }
/// Iterator::chain
#[verifier::external_body]
pub fn vx_chain<T>(a: VecIter<T>, b: VecIter<T>) -> (r: VecIter<T>) ensures r@ == a@ + b@ { unimplemented!() }
pub trait VxFirst<T> { spec fn fsv(&self) -> Seq<T>; fn vx_first(&self) -> (r: Option<&T>) ensures match r { Some(x) => self.fsv().len() > 0 && *x == self.fsv()[0], None => self.fsv().len() == 0 }; }
impl<T> VxFirst<T> for Vec<T> { open spec fn fsv(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_first(&self) -> (r: Option<&T>) { self.first() } }
impl<T> VxFirst<T> for [T] { open spec fn fsv(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_first(&self) -> (r: Option<&T>) { self.first() } }
impl<T, const N: usize> VxIntoIter for [T; N] {
    type Item = T;
    open spec fn elems(self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: VecIter<T>) { unimplemented!() }
}

// ---------------------------------------------------------------- floating point
// f64 operations are uninterpreted; these are the IEEE 754 facts used.
pub uninterp spec fn fadd(a: f64, b: f64) -> f64;
pub uninterp spec fn fmul(a: f64, b: f64) -> f64;
pub uninterp spec fn flt(a: f64, b: f64) -> bool;
pub uninterp spec fn is_nan(a: f64) -> bool;
pub uninterp spec fn is_fin(a: f64) -> bool;
pub open spec fn fle(a: f64, b: f64) -> bool { !is_nan(a) && !is_nan(b) && !flt(b, a) }
pub uninterp spec fn f_of(n: int) -> f64;

pub broadcast axiom fn ax_add(a: f64, b: f64, r: f64) ensures #[trigger] add_ensures::<f64>(a, b, r) ==> r == fadd(a, b);
pub broadcast axiom fn ax_add_req(a: f64, b: f64) ensures #[trigger] a.add_req(b);
pub broadcast axiom fn ax_mul_req(a: f64, b: f64) ensures #[trigger] a.mul_req(b);
pub broadcast axiom fn ax_mul(a: f64, b: f64, r: f64) ensures #[trigger] mul_ensures::<f64>(a, b, r) ==> r == fmul(a, b);
pub broadcast axiom fn ax_lt(a: f64, b: f64, r: bool) ensures #[trigger] lt_ensures::<f64>(a, b, r) ==> r == flt(a, b);
pub broadcast axiom fn ax_gt(a: f64, b: f64, r: bool) ensures #[trigger] gt_ensures::<f64>(a, b, r) ==> r == flt(b, a);
pub broadcast axiom fn ax_le(a: f64, b: f64, r: bool) ensures #[trigger] le_ensures::<f64>(a, b, r) ==> r == fle(a, b);
pub broadcast axiom fn ax_ge(a: f64, b: f64, r: bool) ensures #[trigger] ge_ensures::<f64>(a, b, r) ==> r == fle(b, a);
/// < never holds of a NaN, is irreflexive and asymmetric
pub broadcast axiom fn ax_lt_order(a: f64, b: f64) ensures #[trigger] flt(a, b) ==> !is_nan(a) && !is_nan(b) && !flt(b, a);
pub broadcast axiom fn ax_lt_trans(a: f64, b: f64, c: f64) ensures #[trigger] flt(a, b) && #[trigger] flt(b, c) ==> flt(a, c);
pub broadcast axiom fn ax_fin_not_nan(a: f64) ensures #[trigger] is_fin(a) ==> !is_nan(a);
pub broadcast axiom fn ax_zero() ensures #[trigger] is_fin(0.0f64), is_fin(1.0f64), flt(0.0f64, 1.0f64);
/// <= is transitive on numbers
pub axiom fn ax_le_trans(a: f64, b: f64, c: f64) ensures fle(a, b) && fle(b, c) ==> fle(a, c);
/// adding a finite number to a number (possibly infinite) gives a number ...
pub axiom fn ax_add_num(a: f64, c: f64) ensures !is_nan(a) && is_fin(c) ==> !is_nan(fadd(a, c));
/// ... and is monotone: rounding preserves order
pub axiom fn ax_add_mono(a: f64, b: f64, c: f64) ensures fle(a, b) && is_fin(c) ==> fle(fadd(a, c), fadd(b, c));

pub broadcast axiom fn ax_lt_le(a: f64, b: f64, c: f64) ensures #[trigger] flt(a, b) && #[trigger] fle(b, c) ==> flt(a, c);
/// x + 0.0 is x (or 0.0 for -0.0)
/// f64::NEG_INFINITY
#[verifier::external_body]
pub fn vx_neg_inf() -> (r: f64) ensures !is_nan(r), forall|x: f64| !is_nan(x) ==> #[trigger] fle(r, x) { f64::NEG_INFINITY }
pub axiom fn ax_add_zero(a: f64) ensures !is_nan(a) ==> fle(a, fadd(a, 0.0f64)) && fle(fadd(a, 0.0f64), a);

// subtraction and division
pub uninterp spec fn fsub(a: f64, b: f64) -> f64;
pub uninterp spec fn fdiv(a: f64, b: f64) -> f64;
pub broadcast axiom fn ax_sub(a: f64, b: f64, r: f64) ensures #[trigger] sub_ensures::<f64>(a, b, r) ==> r == fsub(a, b);
pub broadcast axiom fn ax_sub_req(a: f64, b: f64) ensures #[trigger] a.sub_req(b);
pub broadcast axiom fn ax_div(a: f64, b: f64, r: f64) ensures #[trigger] div_ensures::<f64>(a, b, r) ==> r == fdiv(a, b);
pub broadcast axiom fn ax_div_req(a: f64, b: f64) ensures #[trigger] a.div_req(b);
/// sums of numbers that are at least zero are at least zero (possibly infinite, never NaN)
pub axiom fn ax_add_pos(a: f64, b: f64) ensures fle(0.0f64, a) && fle(0.0f64, b) ==> fle(0.0f64, fadd(a, b));
/// 0.5 is positive
pub axiom fn ax_half() ensures is_fin(0.5f64), flt(0.0f64, 0.5f64);
/// how often 1.0 can be added until 7.0 is reached: adding 1.0 to a number in [0, 7) makes it larger by more than one half
pub uninterp spec fn below7(x: f64) -> nat;
pub axiom fn ax_below7(x: f64) ensures !flt(x, 0.0f64) && flt(x, 7.0f64) ==> below7(fadd(x, 1.0f64)) < below7(x) && !flt(fadd(x, 1.0f64), 0.0f64);
/// -0.0, the empty sum
#[verifier::external_body]
pub fn vx_neg_zero() -> (r: f64) ensures is_fin(r), apx(r, 0real), fle(0.0f64, r), fle(r, 0.0f64) { -0.0 }
/// f64::max
#[verifier::external_body]
pub fn vx_fmax(a: f64, b: f64) -> (r: f64) ensures r == a || r == b, !is_nan(a) ==> fle(a, r), !is_nan(b) ==> fle(b, r) { f64::max(a, b) }
#[verifier::external_body]
pub fn vx_fmin(a: f64, b: f64) -> (r: f64) ensures r == a || r == b, !is_nan(a) ==> fle(r, a), !is_nan(b) ==> fle(r, b) { f64::min(a, b) }
pub uninterp spec fn fneg(a: f64) -> f64;
#[verifier::external_body]
pub fn vx_neg(a: f64) -> (r: f64) ensures r == fneg(a) { -a }
pub uninterp spec fn fln(a: f64) -> f64;
pub uninterp spec fn fexp(a: f64) -> f64;
pub trait VxFloat: Sized {
    spec fn fv(&self) -> f64;
    fn vx_is_nan(&self) -> (r: bool) ensures r == is_nan(self.fv());
    fn vx_is_infinite(&self) -> (r: bool) ensures r == (!is_nan(self.fv()) && !is_fin(self.fv()));
    fn vx_is_normal(&self) -> (r: bool) ensures r ==> is_fin(self.fv());
    fn vx_ln(&self) -> (r: f64) ensures r == fln(self.fv());
    fn vx_exp(&self) -> (r: f64) ensures r == fexp(self.fv());
}
impl VxFloat for f64 {
    open spec fn fv(&self) -> f64 { *self }
    #[verifier::external_body] fn vx_is_nan(&self) -> (r: bool) { self.is_nan() }
    #[verifier::external_body] fn vx_is_infinite(&self) -> (r: bool) { self.is_infinite() }
    #[verifier::external_body] fn vx_is_normal(&self) -> (r: bool) { self.is_normal() }
    #[verifier::external_body] fn vx_ln(&self) -> (r: f64) { self.ln() }
    #[verifier::external_body] fn vx_exp(&self) -> (r: f64) { self.exp() }
}
// ---------------------------------------------------------------- real numbers
// "machine arithmetic treated as mathematical": apx(a, x) says that a was computed by floating-point
// operations from an expression whose exact value is x. Every rule below is of the form
// apx ... ==> apx ..., so nothing about the size of rounding errors is claimed.
pub uninterp spec fn apx(a: f64, x: real) -> bool;
/// the exact value of a finite f64
pub uninterp spec fn rv(a: f64) -> real;
pub uninterp spec fn expr(x: real) -> real;
pub uninterp spec fn lnr(x: real) -> real;
pub axiom fn ax_rv(a: f64) ensures apx(a, rv(a)), rv(0.0f64) == 0real, rv(1.0f64) == 1real;
pub axiom fn ax_apx_add(a: f64, x: real, b: f64, y: real) ensures apx(a, x) && apx(b, y) ==> apx(fadd(a, b), x + y);
pub axiom fn ax_apx_sub(a: f64, x: real, b: f64, y: real) ensures apx(a, x) && apx(b, y) ==> apx(fsub(a, b), x - y);
pub axiom fn ax_apx_exp(a: f64, x: real) ensures apx(a, x) ==> apx(fexp(a), expr(x));
pub axiom fn ax_apx_ln(a: f64, x: real) ensures apx(a, x) && x > 0real ==> apx(fln(a), lnr(x));
/// a term smaller by a factor of more than e^50 is below the rounding error
pub axiom fn ax_apx_negligible(a: f64, x: real, b: f64, y: real) ensures apx(a, x) && apx(b, y) && flt(fadd(b, 50.0f64), a) ==> apx(a, lnr(expr(x) + expr(y)));
pub axiom fn ax_exp(x: real, y: real) ensures expr(x + y) == expr(x) * expr(y), expr(x) > 0real, expr(0real) == 1real;
pub axiom fn ax_ln(x: real) ensures lnr(expr(x)) == x, x > 0real ==> expr(lnr(x)) == x;
/// integers: exact up to rounding, in order, never NaN or infinite
pub axiom fn ax_f_of(n: int) ensures 0 <= n <= usize::MAX ==> is_fin(f_of(n)) && apx(f_of(n), n as real), 0 < n <= usize::MAX ==> flt(0.0f64, f_of(n));
/// ln and - c are monotone (rounding preserves order; the library's ln is taken to be monotone)
pub axiom fn ax_ln_mono(a: f64, b: f64) ensures fle(a, b) && fle(0.0f64, a) ==> fle(fln(a), fln(b));
pub axiom fn ax_sub_mono(a: f64, b: f64, c: f64) ensures fle(a, b) && is_fin(a) && is_fin(b) && !is_nan(c) ==> fle(fsub(a, c), fsub(b, c));
/// ln of a positive finite number is finite, of a number that is at least zero not NaN
pub axiom fn ax_ln_num(a: f64) ensures is_fin(a) && flt(0.0f64, a) ==> is_fin(fln(a)), fle(0.0f64, a) ==> !is_nan(fln(a));
/// conversions to and from f64
pub trait VxToF64: Sized { spec fn to_f(self) -> f64; fn to_f64(self) -> (r: f64) ensures r == self.to_f(); }
impl VxToF64 for usize { open spec fn to_f(self) -> f64 { f_of(self as int) } #[verifier::external_body] fn to_f64(self) -> (r: f64) { self as f64 } }
impl VxToF64 for f64 { open spec fn to_f(self) -> f64 { self } #[verifier::external_body] fn to_f64(self) -> (r: f64) { self } }
pub fn vx_f64<T: VxToF64>(x: T) -> (r: f64) ensures r == x.to_f() { x.to_f64() }
/// `as usize` of an f64: truncated and saturated
pub uninterp spec fn usize_of(x: f64) -> usize;
/// a product with 1.0 is exact, and integers up to 2^53 are
pub axiom fn ax_times_one(n: int) ensures 0 <= n <= 0x20_0000_0000_0000 ==> usize_of(fmul(f_of(n), 1.0f64)) == n;
#[verifier::external_body]
pub fn vx_f64_to_usize(x: f64) -> (r: usize) ensures r == usize_of(x) { x as usize }
/// addition that may overflow
#[verifier::external_body]
pub fn vx_add_any(a: usize, b: usize) -> (r: usize) { a.wrapping_add(b) }
/// Ord::max and Ord::min
pub trait VxOrdMax: Sized { spec fn mx(self, o: Self, r: Self) -> bool; spec fn mn(self, o: Self, r: Self) -> bool;
    fn vx_omax(self, o: Self) -> (r: Self) ensures self.mx(o, r); fn vx_omin(self, o: Self) -> (r: Self) ensures self.mn(o, r); }
impl VxOrdMax for usize { open spec fn mx(self, o: usize, r: usize) -> bool { r == (if o < self { self } else { o }) } open spec fn mn(self, o: usize, r: usize) -> bool { r == (if o < self { o } else { self }) }
    #[verifier::external_body] fn vx_omax(self, o: usize) -> (r: usize) { self.max(o) } #[verifier::external_body] fn vx_omin(self, o: usize) -> (r: usize) { self.min(o) } }
impl VxOrdMax for u32 { open spec fn mx(self, o: u32, r: u32) -> bool { r == (if o < self { self } else { o }) } open spec fn mn(self, o: u32, r: u32) -> bool { r == (if o < self { o } else { self }) }
    #[verifier::external_body] fn vx_omax(self, o: u32) -> (r: u32) { self.max(o) } #[verifier::external_body] fn vx_omin(self, o: u32) -> (r: u32) { self.min(o) } }
impl VxOrdMax for u64 { open spec fn mx(self, o: u64, r: u64) -> bool { r == (if o < self { self } else { o }) } open spec fn mn(self, o: u64, r: u64) -> bool { r == (if o < self { o } else { self }) }
    #[verifier::external_body] fn vx_omax(self, o: u64) -> (r: u64) { self.max(o) } #[verifier::external_body] fn vx_omin(self, o: u64) -> (r: u64) { self.min(o) } }
impl VxOrdMax for u8 { open spec fn mx(self, o: u8, r: u8) -> bool { r == (if o < self { self } else { o }) } open spec fn mn(self, o: u8, r: u8) -> bool { r == (if o < self { o } else { self }) }
    #[verifier::external_body] fn vx_omax(self, o: u8) -> (r: u8) { self.max(o) } #[verifier::external_body] fn vx_omin(self, o: u8) -> (r: u8) { self.min(o) } }
impl VxOrdMax for u16 { open spec fn mx(self, o: u16, r: u16) -> bool { r == (if o < self { self } else { o }) } open spec fn mn(self, o: u16, r: u16) -> bool { r == (if o < self { o } else { self }) }
    #[verifier::external_body] fn vx_omax(self, o: u16) -> (r: u16) { self.max(o) } #[verifier::external_body] fn vx_omin(self, o: u16) -> (r: u16) { self.min(o) } }
impl VxOrdMax for i32 { open spec fn mx(self, o: i32, r: i32) -> bool { r == (if o < self { self } else { o }) } open spec fn mn(self, o: i32, r: i32) -> bool { r == (if o < self { o } else { self }) }
    #[verifier::external_body] fn vx_omax(self, o: i32) -> (r: i32) { self.max(o) } #[verifier::external_body] fn vx_omin(self, o: i32) -> (r: i32) { self.min(o) } }
impl VxOrdMax for i64 { open spec fn mx(self, o: i64, r: i64) -> bool { r == (if o < self { self } else { o }) } open spec fn mn(self, o: i64, r: i64) -> bool { r == (if o < self { o } else { self }) }
    #[verifier::external_body] fn vx_omax(self, o: i64) -> (r: i64) { self.max(o) } #[verifier::external_body] fn vx_omin(self, o: i64) -> (r: i64) { self.min(o) } }
impl VxOrdMax for f64 { open spec fn mx(self, o: f64, r: f64) -> bool { (r == self || r == o) && (!is_nan(self) ==> fle(self, r)) && (!is_nan(o) ==> fle(o, r)) } open spec fn mn(self, o: f64, r: f64) -> bool { (r == self || r == o) && (!is_nan(self) ==> fle(r, self)) && (!is_nan(o) ==> fle(r, o)) }
    #[verifier::external_body] fn vx_omax(self, o: f64) -> (r: f64) { self.max(o) } #[verifier::external_body] fn vx_omin(self, o: f64) -> (r: f64) { self.min(o) } }

pub broadcast group group_vx {
    ax_sub, ax_sub_req, ax_div, ax_div_req, ax_add, ax_add_req, ax_mul_req, ax_mul, ax_lt, ax_gt, ax_le, ax_ge, ax_lt_order, ax_lt_trans, ax_fin_not_nan, ax_zero,
    ax_slice_len, ax_vec_len, ax_str_len, ax_string_len, ax_map_elems,
}

pub fn vx_max(a: usize, b: usize) -> (r: usize) ensures r == if a > b { a } else { b } { if a > b { a } else { b } }
pub fn vx_min(a: usize, b: usize) -> (r: usize) ensures r == if a < b { a } else { b } { if a < b { a } else { b } }
/// rayon::current_num_threads
#[verifier::external_body]
pub fn vx_num_threads() -> (r: usize) ensures r > 0 { unimplemented!() }
/// some text: what format!() returns is left open
#[verifier::external_body]
pub fn vx_format() -> String { unimplemented!() }
/// format!("..{}..", x)
#[verifier::external_body]
pub fn vx_format1<A: VxText + ?Sized>(a: &str, x: &A, b: &str) -> (r: String) ensures r@ == a@ + x.tx() + b@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_format2<A: VxText + ?Sized, B: VxText + ?Sized>(a: &str, x: &A, b: &str, y: &B, c: &str) -> (r: String) ensures r@ == a@ + x.tx() + b@ + y.tx() + c@ { unimplemented!() }
/// slice::join
pub open spec fn joined(v: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char> decreases v.len() {
    if v.len() == 0 { Seq::empty() } else if v.len() == 1 { v[0] } else { joined(v.drop_last(), sep) + sep + v.last() }
}
pub trait VxJoin { spec fn jv(&self) -> Seq<Seq<char>>; fn vx_join(&self, sep: &str) -> (r: String) ensures r@ == joined(self.jv(), sep@); }
impl VxJoin for Vec<String> { open spec fn jv(&self) -> Seq<Seq<char>> { self@.map_values(|s: String| s@) } #[verifier::external_body] fn vx_join(&self, sep: &str) -> (r: String) { self.join(sep) } }
impl VxJoin for [String] { open spec fn jv(&self) -> Seq<Seq<char>> { self@.map_values(|s: String| s@) } #[verifier::external_body] fn vx_join(&self, sep: &str) -> (r: String) { self.join(sep) } }
/// string slices are their characters
pub axiom fn axiom_str_ext(a: &str, b: &str) ensures a@ == b@ ==> a == b;

// ---------------------------------------------------------------- order
use core::cmp::Ordering;
pub open spec fn flip(o: Ordering) -> Ordering { match o { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less } }
/// f64::partial_cmp of two numbers
pub open spec fn fcmp(a: f64, b: f64) -> Ordering { if flt(a, b) { Ordering::Less } else if flt(b, a) { Ordering::Greater } else { Ordering::Equal } }
pub open spec fn icmp(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a > b { Ordering::Greater } else { Ordering::Equal } }
pub trait VxPartialCmp { spec fn pcmp(&self, o: &Self) -> Option<Ordering>; fn vx_partial_cmp(&self, o: &Self) -> (r: Option<Ordering>) ensures r == self.pcmp(o); }
impl VxPartialCmp for f64 {
    open spec fn pcmp(&self, o: &f64) -> Option<Ordering> { if is_nan(*self) || is_nan(*o) { None } else { Some(fcmp(*self, *o)) } }
    #[verifier::external_body] fn vx_partial_cmp(&self, o: &f64) -> (r: Option<Ordering>) { self.partial_cmp(o) }
}
pub trait VxCmp { spec fn ocmp(&self, o: &Self) -> Ordering; fn vx_cmp(&self, o: &Self) -> (r: Ordering) ensures r == self.ocmp(o); }
impl VxCmp for usize {
    open spec fn ocmp(&self, o: &usize) -> Ordering { icmp(*self as int, *o as int) }
    #[verifier::external_body] fn vx_cmp(&self, o: &usize) -> (r: Ordering) { self.cmp(o) }
}
pub trait VxOrdReverse { spec fn orev(self) -> Ordering; fn vx_reverse(self) -> (r: Ordering) ensures r == self.orev(); }
impl VxOrdReverse for Ordering { open spec fn orev(self) -> Ordering { flip(self) }
    #[verifier::external_body] fn vx_reverse(self) -> (r: Ordering) { self.reverse() } }
/// std::cmp::Reverse
pub struct Reverse<T>(pub T);
impl<T: VxCmp> VxCmp for &T {
    open spec fn ocmp(&self, o: &&T) -> Ordering { (**self).ocmp(*o) }
    fn vx_cmp(&self, o: &&T) -> (r: Ordering) { (**self).vx_cmp(*o) }
}
impl<T: VxCmp> VxCmp for Reverse<T> {
    open spec fn ocmp(&self, o: &Reverse<T>) -> Ordering { o.0.ocmp(&self.0) }
    fn vx_cmp(&self, o: &Reverse<T>) -> (r: Ordering) { o.0.vx_cmp(&self.0) }
}
/// f compares the elements of s consistently: sort_by requires a total order
pub open spec fn sort_ok<T, F: Fn(&T, &T) -> Ordering>(f: F, s: Seq<T>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() ==> f.requires((&#[trigger] s[i], &#[trigger] s[j]))
    &&& forall|i: int, j: int, o: Ordering, p: Ordering| 0 <= i < s.len() && 0 <= j < s.len() && #[trigger] f.ensures((&s[i], &s[j]), o) && #[trigger] f.ensures((&s[j], &s[i]), p) ==> o == flip(p)
    &&& forall|i: int, j: int, k: int, o: Ordering, p: Ordering, q: Ordering| 0 <= i < s.len() && 0 <= j < s.len() && 0 <= k < s.len()
            && #[trigger] f.ensures((&s[i], &s[j]), o) && #[trigger] f.ensures((&s[j], &s[k]), p) && #[trigger] f.ensures((&s[i], &s[k]), q)
            ==> o != Ordering::Greater && p != Ordering::Greater ==> q != Ordering::Greater
}
pub open spec fn sorted_by<T, F: Fn(&T, &T) -> Ordering>(f: F, s: Seq<T>) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> le_by(f, #[trigger] s[i], #[trigger] s[j])
}
pub open spec fn le_by<T, F: Fn(&T, &T) -> Ordering>(f: F, a: T, b: T) -> bool { exists|o: Ordering| o != Ordering::Greater && #[trigger] f.ensures((&a, &b), o) }
pub trait VxSort<T> {
    spec fn srt(&self) -> Seq<T>;
    /// slice::sort_by, sort_unstable_by: a permutation in order
    fn vx_sort_by<F: Fn(&T, &T) -> Ordering>(&mut self, f: F)
        requires sort_ok(f, old(self).srt())
        ensures final(self).srt().to_multiset() == old(self).srt().to_multiset(), final(self).srt().len() == old(self).srt().len(), sorted_by(f, final(self).srt());
}
impl<T> VxSort<T> for Vec<T> {
    open spec fn srt(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_sort_by<F: Fn(&T, &T) -> Ordering>(&mut self, f: F) { self.sort_by(f) }
}

// ---------------------------------------------------------------- heaps
/// a RefCell that is never borrowed mutably (the extractor checks) is its content
pub type VxCell<T> = T;
/// what a heap needs to know of its elements; each implementation is tied to the code's Ord by a contract on cmp
pub trait VxHeap { spec fn lower(&self, o: &Self) -> bool; spec fn proper(&self) -> bool; }
/// std::collections::BinaryHeap: its elements, in the order they were pushed
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct BinaryHeap<T: VxHeap> { v: Vec<T> }
/// x was element k, and (elements comparable) none is above it
pub open spec fn popped<T: VxHeap>(a: Seq<T>, b: Seq<T>, x: T, k: int) -> bool {
    &&& 0 <= k < a.len() && x == a[k] && b == a.remove(k)
    &&& (forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).proper()) ==> forall|i: int| 0 <= i < a.len() ==> !x.lower(#[trigger] &a[i])
}
impl<T: VxHeap> BinaryHeap<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, x: T) ensures final(self)@ == old(self)@.push(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn pop(&mut self) -> (r: Option<T>)
        ensures match r { None => old(self)@.len() == 0 && final(self)@ == old(self)@, Some(x) => exists|k: int| popped(old(self)@, final(self)@, x, k) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
}

// ---------------------------------------------------------------- errors of libraries
#[verifier::external_body]
pub struct IoError { x: u8 }
#[verifier::external_body]
pub struct JsonError { x: u8 }

// ---------------------------------------------------------------- equality of texts
#[verifier::external_body]
pub fn vx_text_eq<A: VxText + ?Sized, B: VxText + ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == (a.tx() == b.tx()) { unimplemented!() }

// ---------------------------------------------------------------- serde
/// a document of serde's data model, as far as it is used here
pub enum Doc { Null, Bool(bool), Num(f64), Text(Seq<char>), List(Seq<Doc>), Fields(Seq<(Seq<char>, Doc)>) }
pub type Entries = Seq<(Seq<char>, Doc)>;
/// what a value is written as
pub trait Docs { spec fn doc(&self) -> Doc; }
impl Docs for bool { open spec fn doc(&self) -> Doc { Doc::Bool(*self) } }
impl Docs for f64 { open spec fn doc(&self) -> Doc { Doc::Num(*self) } }
impl Docs for str { open spec fn doc(&self) -> Doc { Doc::Text(self@) } }
impl Docs for String { open spec fn doc(&self) -> Doc { Doc::Text(self@) } }
pub open spec fn docs<T: Docs>(s: Seq<T>) -> Doc { Doc::List(Seq::new(s.len(), |i: int| s[i].doc())) }
impl<T: Docs> Docs for Vec<T> { open spec fn doc(&self) -> Doc { docs(self@) } }
impl<T: Docs> Docs for [T] { open spec fn doc(&self) -> Doc { docs(self@) } }
impl<T: Docs + ?Sized> Docs for &T { open spec fn doc(&self) -> Doc { (**self).doc() } }
/// the document a serializer's result stands for
pub uninterp spec fn emitted<O>(o: O) -> Doc;
pub trait DeError: Sized {}
pub trait Serializer: Sized {
    type Ok; type Error; type SerializeStruct: SerializeStruct<Ok = Self::Ok, Error = Self::Error>;
    fn serialize_struct(self, name: &str, n: usize) -> (r: core::result::Result<Self::SerializeStruct, Self::Error>) ensures r matches Ok(x) ==> x.fields() == Seq::<(Seq<char>, Doc)>::empty();
    fn serialize_str(self, s: &str) -> (r: core::result::Result<Self::Ok, Self::Error>) ensures r matches Ok(x) ==> emitted(x) == Doc::Text(s@);
    fn serialize_bool(self, b: bool) -> (r: core::result::Result<Self::Ok, Self::Error>) ensures r matches Ok(x) ==> emitted(x) == Doc::Bool(b);
    fn serialize_f64(self, b: f64) -> (r: core::result::Result<Self::Ok, Self::Error>) ensures r matches Ok(x) ==> emitted(x) == Doc::Num(b);
    fn serialize_none(self) -> (r: core::result::Result<Self::Ok, Self::Error>) ensures r matches Ok(x) ==> emitted(x) == Doc::Null;
}
pub trait SerializeStruct: Sized {
    type Ok; type Error;
    spec fn fields(&self) -> Entries;
    fn serialize_field<T: Docs + ?Sized>(&mut self, k: &str, v: &T) -> (r: core::result::Result<(), Self::Error>) ensures r is Ok ==> final(self).fields() == old(self).fields().push((k@, v.doc()));
    fn end(self) -> (r: core::result::Result<Self::Ok, Self::Error>) ensures r matches Ok(x) ==> emitted(x) == Doc::Fields(self.fields());
}
pub trait Serialize: Docs {
    fn vx_serialize<S: Serializer>(&self, s: S) -> (r: core::result::Result<S::Ok, S::Error>) ensures r matches Ok(o) ==> emitted(o) == self.doc();
}
/// what a document is read as
pub trait Reads: Sized { spec fn readable(d: Doc) -> bool; spec fn reads(d: Doc, t: Self) -> bool; }
impl Reads for bool { open spec fn readable(d: Doc) -> bool { d is Bool } open spec fn reads(d: Doc, t: bool) -> bool { d == Doc::Bool(t) } }
impl Reads for f64 { open spec fn readable(d: Doc) -> bool { d is Num } open spec fn reads(d: Doc, t: f64) -> bool { d == Doc::Num(t) } }
impl Reads for String { open spec fn readable(d: Doc) -> bool { d is Text } open spec fn reads(d: Doc, t: String) -> bool { d == Doc::Text(t@) } }
impl<T: Reads> Reads for Option<T> {
    open spec fn readable(d: Doc) -> bool { d is Null || T::readable(d) }
    open spec fn reads(d: Doc, t: Option<T>) -> bool { match t { None => d is Null, Some(x) => !(d is Null) && T::reads(d, x) } }
}
pub open spec fn list_readable<T: Reads>(d: Doc) -> bool { d is List && forall|i: int| 0 <= i < d->List_0.len() ==> T::readable(#[trigger] d->List_0[i]) }
pub open spec fn list_reads<T: Reads>(d: Doc, s: Seq<T>) -> bool { d is List && s.len() == d->List_0.len() && forall|i: int| 0 <= i < s.len() ==> T::reads(d->List_0[i], #[trigger] s[i]) }
impl<T: Reads> Reads for Vec<T> { open spec fn readable(d: Doc) -> bool { list_readable::<T>(d) } open spec fn reads(d: Doc, t: Vec<T>) -> bool { list_reads(d, t@) } }
pub struct IgnoredAny;
impl Reads for IgnoredAny { open spec fn readable(d: Doc) -> bool { true } open spec fn reads(d: Doc, t: IgnoredAny) -> bool { true } }
pub trait KeyText: Sized { spec fn kt(&self) -> Seq<char>; }
impl<'a> KeyText for &'a str { open spec fn kt(&self) -> Seq<char> { self@ } }
impl KeyText for String { open spec fn kt(&self) -> Seq<char> { self@ } }
/// the entries not read yet; plain: the keys can be borrowed from the text (no escapes)
pub trait MapAccess: Sized {
    type Error: DeError;
    spec fn left(&self) -> Entries;
    spec fn plain(&self) -> bool;
    fn next_key<K: KeyText>(&mut self) -> (r: core::result::Result<Option<K>, Self::Error>)
        ensures final(self).left() == old(self).left(), final(self).plain() == old(self).plain(),
            r matches Ok(Some(k)) ==> old(self).left().len() > 0 && k.kt() == old(self).left()[0].0,
            r matches Ok(None) ==> old(self).left().len() == 0,
            r is Err ==> !old(self).plain();
    fn next_value<V: Reads>(&mut self) -> (r: core::result::Result<V, Self::Error>)
        requires old(self).left().len() > 0
        ensures final(self).left() == old(self).left().skip(1), final(self).plain() == old(self).plain(),
            r matches Ok(v) ==> V::reads(old(self).left()[0].1, v) && V::readable(old(self).left()[0].1),
            r is Err ==> !V::readable(old(self).left()[0].1) || !old(self).plain();
}
pub trait Visitor: Sized {
    type Value;
    spec fn v_readable(fs: Entries) -> bool;
    spec fn v_reads(fs: Entries, v: Self::Value) -> bool;
    fn vx_visit_map<A: MapAccess>(self, map: A) -> (r: core::result::Result<Self::Value, A::Error>)
        ensures r matches Ok(v) ==> Self::v_reads(map.left(), v) && Self::v_readable(map.left()), r is Err ==> !Self::v_readable(map.left()) || !map.plain();
}
pub trait Deserializer: Sized {
    type Error: DeError;
    spec fn doc(&self) -> Doc;
    spec fn plain(&self) -> bool;
    fn deserialize_struct<F: ?Sized, V: Visitor>(self, name: &str, f: &F, v: V) -> (r: core::result::Result<V::Value, Self::Error>)
        ensures r matches Ok(v) ==> self.doc() is Fields && V::v_reads(self.doc()->Fields_0, v) && V::v_readable(self.doc()->Fields_0),
            r is Err ==> !(self.doc() is Fields && V::v_readable(self.doc()->Fields_0)) || !self.plain();
}
pub trait Deserialize: Reads {
    fn vx_deserialize<D: Deserializer>(d: D) -> (r: core::result::Result<Self, D::Error>)
        ensures r matches Ok(t) ==> Self::reads(d.doc(), t) && Self::readable(d.doc()), r is Err ==> !Self::readable(d.doc()) || !d.plain();
}
#[verifier::external_body]
pub fn vx_unknown_field<E: DeError, F: ?Sized>(k: &str, f: &F) -> E { unimplemented!() }
#[verifier::external_body]
pub fn vx_unknown_variant<E: DeError, F: ?Sized>(k: &str, f: &F) -> E { unimplemented!() }
#[verifier::external_body]
pub fn vx_missing_field<E: DeError>(k: &str) -> E { unimplemented!() }
#[verifier::external_body]
pub fn vx_de_custom<E: DeError, T>(t: T) -> E { unimplemented!() }
/// the last value under a key
pub open spec fn last_val(fs: Entries, k: Seq<char>) -> Option<Doc> decreases fs.len() {
    if fs.len() == 0 { None } else if fs.last().0 == k { Some(fs.last().1) } else { last_val(fs.drop_last(), k) }
}
pub proof fn lemma_last_val(fs: Entries, n: int, k: Seq<char>)
    requires 0 <= n < fs.len()
    ensures last_val(fs.take(n + 1), k) == if fs[n].0 == k { Some(fs[n].1) } else { last_val(fs.take(n), k) }
{ assert(fs.take(n + 1).drop_last() =~= fs.take(n)); }

// ---------------------------------------------------------------- serde_json
/// s is a JSON text of the document d
pub uninterp spec fn json_of(d: Doc, s: Seq<char>) -> bool;
/// the document a JSON text stands for
pub uninterp spec fn json(s: Seq<char>) -> Option<Doc>;
/// no key of an object in this text is written with escapes
pub uninterp spec fn plain_keys(s: Seq<char>) -> bool;
/// serde_json prints x and reads what it printed as x again
pub uninterp spec fn exact(x: f64) -> bool;
pub open spec fn letters(k: Seq<char>) -> bool { forall|i: int| 0 <= i < k.len() ==> 'a' <= #[trigger] k[i] <= 'z' || k[i] == '_' }
/// numbers survive printing, keys need no escapes
pub open spec fn faithful(d: Doc) -> bool decreases d {
    match d {
        Doc::Num(x) => exact(x),
        Doc::List(l) => forall|i: int| 0 <= i < l.len() ==> faithful(#[trigger] l[i]),
        Doc::Fields(f) => forall|i: int| 0 <= i < f.len() ==> letters((#[trigger] f[i]).0) && faithful(f[i].1),
        _ => true,
    }
}
/// JSON has no way to write a number that is not finite
pub open spec fn fin_doc(d: Doc) -> bool decreases d {
    match d {
        Doc::Num(x) => is_fin(x),
        Doc::List(l) => forall|i: int| 0 <= i < l.len() ==> fin_doc(#[trigger] l[i]),
        Doc::Fields(f) => forall|i: int| 0 <= i < f.len() ==> fin_doc((#[trigger] f[i]).1),
        _ => true,
    }
}
pub axiom fn ax_json_numbers(s: Seq<char>) ensures json(s) matches Some(d) ==> fin_doc(d);
pub axiom fn ax_json(d: Doc, s: Seq<char>) requires json_of(d, s), faithful(d) ensures json(s) == Some(d), plain_keys(s);
#[verifier::external_body]
pub fn vx_json_to_string<T: Docs + ?Sized>(x: &T) -> (r: core::result::Result<String, JsonError>) ensures r matches Ok(s) ==> json_of(x.doc(), s@) { unimplemented!() }
pub open spec fn json_reads<T: Reads>(s: Seq<char>, t: T) -> bool { json(s) is Some && T::reads(json(s)->Some_0, t) }
pub open spec fn json_readable<T: Reads>(s: Seq<char>) -> bool { json(s) is Some && T::readable(json(s)->Some_0) }
#[verifier::external_body]
pub fn vx_json_from_str<T: Reads, S: VxText + ?Sized>(s: &S) -> (r: core::result::Result<T, JsonError>)
    ensures r matches Ok(t) ==> json_reads(s.tx(), t) && json_readable::<T>(s.tx()), r is Err ==> !(json_readable::<T>(s.tx()) && plain_keys(s.tx())) { unimplemented!() }
#[verifier::external_body]
pub fn vx_fs_read_to_string<P: VxText + ?Sized>(path: &P) -> (r: core::result::Result<String, IoError>)
    ensures match r { Ok(s) => file(path.tx()) == Some(sb(s@)), Err(_) => file(path.tx()) matches Some(b) ==> !vstd::utf8::valid_utf8(b) } { unimplemented!() }
/// writing: what may be written where (a permission given by the contract of the caller), and what was
pub uninterp spec fn may_write(path: Seq<char>, b: Seq<u8>) -> bool;
pub uninterp spec fn wrote(path: Seq<char>, b: Seq<u8>) -> bool;
#[verifier::external_body]
pub fn vx_fs_write<P: VxText + ?Sized, B: VxBytes>(path: &P, b: B) -> (r: core::result::Result<(), IoError>)
    requires may_write(path.tx(), b.bv())
    ensures r is Ok ==> wrote(path.tx(), b.bv()) { unimplemented!() }
pub trait VxBytes { spec fn bv(&self) -> Seq<u8>; }
impl VxBytes for String { open spec fn bv(&self) -> Seq<u8> { sb(self@) } }
impl VxBytes for str { open spec fn bv(&self) -> Seq<u8> { sb(self@) } }
impl VxBytes for Vec<u8> { open spec fn bv(&self) -> Seq<u8> { self@ } }
impl VxBytes for [u8] { open spec fn bv(&self) -> Seq<u8> { self@ } }
impl<T: VxBytes + ?Sized> VxBytes for &T { open spec fn bv(&self) -> Seq<u8> { (**self).bv() } }

pub trait VxAsStr { spec fn asv(&self) -> Seq<char>; fn vx_as_str(&self) -> (r: &str) ensures r@ == self.asv(); }
impl VxAsStr for String { open spec fn asv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_as_str(&self) -> (r: &str) { self.as_str() } }
impl VxAsStr for str { open spec fn asv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_as_str(&self) -> (r: &str) { self } }
impl VxAsStr for Regex { open spec fn asv(&self) -> Seq<char> { self.src() } #[verifier::external_body] fn vx_as_str(&self) -> (r: &str) { unimplemented!() } }
impl<T: VxAsStr + ?Sized> VxAsStr for &T { open spec fn asv(&self) -> Seq<char> { (**self).asv() } #[verifier::external_body] fn vx_as_str(&self) -> (r: &str) { unimplemented!() } }
pub trait VxIntoBytes { spec fn ibv(self) -> Seq<u8>; fn vx_into_bytes(self) -> (r: Vec<u8>) ensures r@ == self.ibv(); }
impl VxIntoBytes for String { open spec fn ibv(self) -> Seq<u8> { sb(self@) } #[verifier::external_body] fn vx_into_bytes(self) -> (r: Vec<u8>) { self.into_bytes() } }

// ---------------------------------------------------------------- base64
pub uninterp spec fn b64(b: Seq<u8>) -> Seq<char>;
pub uninterp spec fn unb64(t: Seq<u8>) -> Option<Seq<u8>>;
pub axiom fn ax_b64(b: Seq<u8>) ensures unb64(sb(b64(b))) == Some(b);
pub struct Base64;
pub const BASE64_STANDARD: Base64 = Base64;
#[verifier::external_body]
pub struct DecodeError { x: u8 }
impl Base64 {
    #[verifier::external_body]
    pub fn encode<B: VxBytes + ?Sized>(&self, b: &B) -> (r: String) ensures r@ == b64(b.bv()) { unimplemented!() }
    #[verifier::external_body]
    pub fn decode<B: VxBytes + ?Sized>(&self, b: &B) -> (r: core::result::Result<Vec<u8>, DecodeError>) ensures match r { Ok(v) => unb64(b.bv()) == Some(v@), Err(_) => unb64(b.bv()) is None } { unimplemented!() }
}
#[verifier::external_body]
pub struct FromUtf8Error { x: u8 }
#[verifier::external_body]
pub fn vx_string_from_utf8(b: Vec<u8>) -> (r: core::result::Result<String, FromUtf8Error>)
    ensures match r { Ok(s) => sb(s@) == b@, Err(_) => !vstd::utf8::valid_utf8(b@) } { unimplemented!() }

// ---------------------------------------------------------------- rand
#[verifier::external_body]
pub struct ThreadRng { x: u8 }
#[verifier::external_body]
pub fn vx_thread_rng() -> ThreadRng { unimplemented!() }
impl ThreadRng {
    /// gen_range(a..b) is in [a, b)
    #[verifier::external_body]
    pub fn vx_gen_range(&mut self, r: core::ops::Range<f64>) -> (x: f64) requires flt(r.start, r.end) ensures is_fin(x), fle(r.start, x), flt(x, r.end) { unimplemented!() }
}
/// SliceRandom::shuffle: a permutation
pub trait VxShuffle: Sized { fn vx_shuffle(&mut self, rng: &mut ThreadRng) ensures Self::shuffled(*old(self), *final(self)); spec fn shuffled(a: Self, b: Self) -> bool; }
impl<T> VxShuffle for Vec<T> { open spec fn shuffled(a: Vec<T>, b: Vec<T>) -> bool { b@.to_multiset() == a@.to_multiset() }
    #[verifier::external_body] fn vx_shuffle(&mut self, rng: &mut ThreadRng) { unimplemented!() } }
/// rand::random::<f64>() is in [0, 1)
#[verifier::external_body]
pub fn vx_random() -> (r: f64) ensures is_fin(r), fle(0.0f64, r), flt(r, 1.0f64) { unimplemented!() }
}
pub mod fnv { pub struct FnvBuildHasher; }
