@module pybind bindings/python/src/lib.rs
@subst tokengeex::Tokenizer => Tokenizer
@subst tokengeex::Error => Error
@subst tokengeex::Tokenizer::from_str => Tokenizer::from_str
@subst tokengeex::Tokenizer::from_file => Tokenizer::from_file
@subst serde_json::to_string => vx_json_to_string
@subst serde_json::from_slice => vx_json_from_slice
@subst pyo3::exceptions::PyException::new_err => PyException::new_err
@struct PyTokenizer
@struct PyTokenGeeXError
@spec
use crate::shim::*;
use core::result::Result;
use crate::toks::*;
use crate::model::*;
use crate::processor::*;
use crate::tokenizer::*;
use crate::sertknz::*;
use crate::tokenizer::flat;
use crate::trie::vals;
use crate::sertok::*;
use crate::serproc::*;
broadcast use crate::shim::group_vx;
broadcast use crate::shim::group_str;

// ------------------------------------------------ pyo3, as far as it is used
#[verifier::external_body] pub struct PyErr { x: u8 }
pub type PyResult<T> = core::result::Result<T, PyErr>;
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Python { x: u8 }
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct Py<T> { x: core::marker::PhantomData<T> }
#[verifier::external_body] pub struct PyBytes { x: u8 }
#[verifier::external_body] pub struct PyAny { x: u8 }
pub type PyObject = Py<PyAny>;
impl PyBytes {
    /// the bytes of the object
    pub uninterp spec fn data(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn new<B: VxBytes + ?Sized>(py: Python, b: &B) -> (r: &'static PyBytes) ensures r.data() == b.bv() { unimplemented!() }
    #[verifier::external_body] pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self.data() { unimplemented!() }
    #[verifier::external_body] pub fn to_object(&self, py: Python) -> (r: PyObject) ensures r.bytes() == Some(self.data()) { unimplemented!() }
}
impl<T> Py<T> {
    /// the bytes of a bytes object
    pub uninterp spec fn bytes(&self) -> Option<Seq<u8>>;
}
pub trait VxExtract: Sized { spec fn got(self) -> Seq<u8>; }
impl<'a> VxExtract for &'a PyBytes { open spec fn got(self) -> Seq<u8> { self.data() } }
impl PyObject { #[verifier::external_body] pub fn extract<T: VxExtract>(&self, py: Python) -> (r: PyResult<T>) ensures match r { Ok(b) => self.bytes() == Some(b.got()), Err(_) => self.bytes() is None } { unimplemented!() } }
impl VxInto<Py<PyBytes>> for &PyBytes { open spec fn into_spec(self, r: Py<PyBytes>) -> bool { r.bytes() == Some(self.data()) } #[verifier::external_body] fn vx_into(self) -> (r: Py<PyBytes>) { unimplemented!() } }
pub struct PyException {}
pub struct PyIOError {}
pub struct TokenGeeXError {}
impl PyException { #[verifier::external_body] pub fn new_err(s: String) -> PyErr { unimplemented!() } }
impl PyIOError { #[verifier::external_body] pub fn new_err(s: String) -> PyErr { unimplemented!() } }
impl TokenGeeXError { #[verifier::external_body] pub fn new_err(s: String) -> PyErr { unimplemented!() } }
impl BoxError { #[verifier::external_body] pub fn vx_to_string(&self) -> String { unimplemented!() } }
impl Error { #[verifier::external_body] pub fn vx_to_string(&self) -> String { unimplemented!() } }
/// the text of bytes, read as JSON
pub open spec fn text_of_bytes(b: Seq<u8>) -> Option<Seq<char>> { if vstd::utf8::valid_utf8(b) { Some(vstd::utf8::decode_utf8(b)) } else { None } }
#[verifier::external_body]
pub fn vx_json_from_slice<T: Reads>(b: &[u8]) -> (r: core::result::Result<T, JsonError>)
    ensures r matches Ok(t) ==> text_of_bytes(b@) is Some && json_reads(text_of_bytes(b@)->Some_0, t),
        r is Err ==> (text_of_bytes(b@) matches Some(s) ==> !(json_readable::<T>(s) && plain_keys(s))) { unimplemented!() }

impl VxInto<PyTokenGeeXError> for Error { open spec fn into_spec(self, r: PyTokenGeeXError) -> bool { r.inner == self } fn vx_into(self) -> (r: PyTokenGeeXError) { PyTokenGeeXError::from(self) } }

/// the tokens that are prefixes of s, shortest first, by the id the vocabulary gives their text
pub open spec fn prefix_ids(v: Seq<ScoredToken>, s: Seq<u8>, r: Seq<u32>) -> bool { exists|ls: Seq<int>| #[trigger] prefixes(v, s, ls) && r.len() == ls.len() && forall|i: int| 0 <= i < r.len() ==> last_id(v, s.take(#[trigger] ls[i])) == Some(r[i] as int) }
pub open spec fn prefixes(v: Seq<ScoredToken>, s: Seq<u8>, ls: Seq<int>) -> bool {
    &&& forall|i: int| 0 <= i < ls.len() ==> 1 <= #[trigger] ls[i] <= s.len() && last_id(v, s.take(ls[i])) is Some
    &&& forall|i: int, j: int| 0 <= i < j < ls.len() ==> #[trigger] ls[i] < #[trigger] ls[j]
    &&& forall|k: int| 1 <= k <= s.len() && (#[trigger] last_id(v, s.take(k))) is Some ==> ls.contains(k)
}
pub open spec fn firsts(h: Seq<(u32, u32)>, c: Seq<u32>) -> bool { forall|i: int| 0 <= i < c.len() ==> #[trigger] c[i] == h[i].0 }
pub proof fn lemma_prefix_ids(m: &Model, s: Seq<u8>, c: Seq<u32>)
    requires m.wf(), s.len() <= usize::MAX, c.len() == vals(m.trie.root, s).len(), firsts(vals(m.trie.root, s), c)
    ensures prefix_ids(m.vocab@, s, c)
{
    let h = vals(m.trie.root, s); lemma_search(m, s);
    let ls = h.map_values(|x: (u32, u32)| x.1 as int);
    assert forall|i: int| 0 <= i < ls.len() implies 1 <= #[trigger] ls[i] <= s.len() && last_id(m.vocab@, s.take(ls[i])) == Some(c[i] as int) by { assert(h[i].1 >= 1); }
    assert forall|i: int, j: int| 0 <= i < j < ls.len() implies #[trigger] ls[i] < #[trigger] ls[j] by { assert(h[i].1 < h[j].1); }
    assert forall|k: int| 1 <= k <= s.len() && (#[trigger] last_id(m.vocab@, s.take(k))) is Some implies ls.contains(k) by { let j = choose|j: int| 0 <= j < h.len() && (#[trigger] h[j]).1 == k; assert(ls[j] == k); }
    assert(prefixes(m.vocab@, s, ls));
}
/// the text of a library result
pub open spec fn as_lib<T>(r: core::result::Result<T, PyTokenGeeXError>) -> core::result::Result<T, Error> { match r { Ok(x) => Ok(x), Err(e) => Err(e.inner) } }
@fn PyTokenizer::from
@contract
    ensures r.tokenizer == tokenizer
@fn PyTokenGeeXError@From::from
@opt inherent
@contract
    ensures r.inner == e
@fn PyTokenizer::encode
@contract
    requires self.tokenizer.wf()
    ensures
        as_lib(r) matches Ok(ids) ==> exists|outs: Seq<Seq<u32>>| #[trigger] encodes(&self.tokenizer, pieces(self.tokenizer.sp(), text@), dropout, outs) && ids@ == flat(outs),
        as_lib(r) matches Err(e) ==> exists|i: int| 0 <= i < pieces(self.tokenizer.sp(), text@).len() && !(#[trigger] pieces(self.tokenizer.sp(), text@)[i]).1
            && ordinary(&self.tokenizer, pieces(self.tokenizer.sp(), text@)[i].0, dropout, Err(e)),
        as_lib(r) matches Ok(ids) ==> self.tokenizer.processors@.len() == 0 ==> dec(&self.tokenizer, ids@, true) == Ok::<Seq<char>, u32>(text@),
@fn PyTokenizer::encode_ordinary
@contract
    requires self.tokenizer.wf()
    ensures ordinary(&self.tokenizer, text@, dropout, as_lib(r))
@fn PyTokenizer::encode_batch
@contract
    requires self.tokenizer.wf()
    ensures
        as_lib(r) matches Ok(v) ==> v@.len() == texts.elems().len() && forall|i: int| 0 <= i < v@.len() ==> one_encode(&self.tokenizer, (#[trigger] texts.elems()[i]).tx(), dropout, Ok(v@[i])),
        as_lib(r) matches Err(e) ==> exists|i: int| 0 <= i < texts.elems().len() && one_encode(&self.tokenizer, (#[trigger] texts.elems()[i]).tx(), dropout, Err(e)),
@fn PyTokenizer::encode_ordinary_batch
@contract
    requires self.tokenizer.wf()
    ensures
        as_lib(r) matches Ok(v) ==> v@.len() == texts.elems().len() && forall|i: int| 0 <= i < v@.len() ==> one_ordinary(&self.tokenizer, (#[trigger] texts.elems()[i]).tx(), dropout, Ok(v@[i])),
        as_lib(r) matches Err(e) ==> exists|i: int| 0 <= i < texts.elems().len() && one_ordinary(&self.tokenizer, (#[trigger] texts.elems()[i]).tx(), dropout, Err(e)),
@fn PyTokenizer::decode
@contract
    requires self.tokenizer.wf()
    ensures match dec(&self.tokenizer, ids@, include_special_tokens) {
        Ok(s) => as_lib(r) matches Ok(t) && t@ == s,
        Err(b) => as_lib(r) matches Err(Error::TokenIdOutOfBounds(c)) && c == b },
@fn PyTokenizer::decode_batch
@contract
    requires self.tokenizer.wf()
    ensures
        as_lib(r) matches Ok(v) ==> v@.len() == ids.elems().len() && forall|i: int| 0 <= i < v@.len() ==> one_decode(&self.tokenizer, (#[trigger] ids.elems()[i]).ids(), include_special_tokens, Ok(v@[i])),
        as_lib(r) matches Err(e) ==> exists|i: int| 0 <= i < ids.elems().len() && one_decode(&self.tokenizer, (#[trigger] ids.elems()[i]).ids(), include_special_tokens, Err(e)),
@fn PyTokenizer::token_to_id
@contract
    requires self.tokenizer.wf()
    ensures match last_id(self.tokenizer.model.vocab@, token@) {
        Some(i) => r == Some(i as u32),
        None => match r { Some(k) => self.tokenizer.base() <= k < self.tokenizer.base() + self.tokenizer.sp().len() && sb(self.tokenizer.sp()[k - self.tokenizer.base()]) == token@, None => forall|j: int| 0 <= j < self.tokenizer.sp().len() ==> sb(#[trigger] self.tokenizer.sp()[j]) != token@ } }
@fn PyTokenizer::base_token_to_id
@contract
    requires self.tokenizer.wf()
    ensures match r { Some(i) => last_id(self.tokenizer.model.vocab@, token@) == Some(i as int), None => last_id(self.tokenizer.model.vocab@, token@) is None }
@fn PyTokenizer::special_token_to_id
@contract
    requires self.tokenizer.wf()
    ensures match r { Some(k) => pos_of(self.tokenizer.sp(), token@) == Some(k - self.tokenizer.base()), None => pos_of(self.tokenizer.sp(), token@) is None }
@fn PyTokenizer::id_to_special_token
@contract
    requires self.tokenizer.wf()
    ensures match r { Some(t) => self.tokenizer.base() <= id < self.tokenizer.base() + self.tokenizer.sp().len() && t@ == self.tokenizer.sp()[id - self.tokenizer.base()], None => id < self.tokenizer.base() || id >= self.tokenizer.base() + self.tokenizer.sp().len() }
@fn PyTokenizer::is_special
@contract
    requires self.tokenizer.wf()
    ensures r == (self.tokenizer.base() <= id < self.tokenizer.base() + self.tokenizer.sp().len())
@fn PyTokenizer::is_base
@contract
    requires self.tokenizer.wf()
    ensures r == (id < self.tokenizer.base())
@fn PyTokenizer::special_tokens
@contract
    ensures r@ == self.tokenizer.special_tokens@
@fn PyTokenizer::vocab_size
@contract
    requires self.tokenizer.wf()
    ensures r == self.tokenizer.base() + self.tokenizer.sp().len()
@fn PyTokenizer::base_vocab_size
@contract
    ensures r == self.tokenizer.base()
@fn PyTokenizer::special_vocab_size
@contract
    ensures r == self.tokenizer.sp().len()
@fn PyTokenizer::id_to_token
@contract
    requires self.tokenizer.wf()
    ensures match r { Some(b) => if id < self.tokenizer.base() { b.bytes() == Some(self.tokenizer.model.vocab@[id as int].value@) } else { id < self.tokenizer.base() + self.tokenizer.sp().len() && b.bytes() == Some(sb(self.tokenizer.sp()[id - self.tokenizer.base()])) }, None => id >= self.tokenizer.base() + self.tokenizer.sp().len() }
@fn PyTokenizer::id_to_base_token
@contract
    requires self.tokenizer.wf()
    ensures match r { Some(t) => id < self.tokenizer.base() && t.0.bytes() == Some(self.tokenizer.model.vocab@[id as int].value@) && t.1 == self.tokenizer.model.vocab@[id as int].score, None => id >= self.tokenizer.base() }
@fn PyTokenizer::add_special_tokens
@contract
    requires old(self).tokenizer.wf(), old(self).tokenizer.base() + old(self).tokenizer.sp().len() + tokens@.len() <= u32::MAX,
    ensures final(self).tokenizer.wf(), final(self).tokenizer.model == old(self).tokenizer.model, final(self).tokenizer.processors == old(self).tokenizer.processors,
        final(self).tokenizer.sp() == added(old(self).tokenizer.sp(), txs(tokens@)),
@start
    proof { assert(tokens.elems() =~= tokens@); assert(tokens@.map_values(|t: String| t.tx()) =~= txs(tokens@)); }
@fn PyTokenizer::save
@contract
    requires may_save(filename@, self.tokenizer)
    ensures r is Ok ==> saved(filename@, self.tokenizer)
@fn PyTokenizer::common_prefix_search
@opt source:common_prefix_search
@contract
    requires self.tokenizer.wf()
    ensures prefix_ids(self.tokenizer.model.vocab@, sb(text@), r@)
@start
    let ghost m = self.tokenizer.model; let ghost s = sb(text@); let ghost h = vals(m.trie.root, s);
    proof { lemma_blen_pos(text@); lemma_search(&m, s); assert(h.skip(0) =~= h); }
@loop 1
    invariant
        self.tokenizer.wf(), m == self.tokenizer.model, __c1@.len() <= h.len(), __it1.vals() == h.skip(__c1@.len() as int), firsts(h, __c1@),
    ensures __c1@.len() == h.len(),
@body_end 1
    proof { let n = __c1@.len() as int; assert(h.skip(n - 1).drop_first() =~= h.skip(n)); assert(h.skip(n - 1)[0] == h[n - 1]); }
@after 1
    proof { lemma_prefix_ids(&m, s, __c1@); }
@fn PyTokenizer::from_str
@contract
    ensures r matches Ok(t) ==> json_reads(json@, t.tokenizer), r is Err ==> !(json_readable::<Tokenizer>(json@) && plain_keys(json@))
@fn PyTokenizer::from_file
@contract
    ensures r matches Ok(t) ==> stored(filepath@, t.tokenizer), r is Err ==> !loadable(filepath@)
@fn PyTokenizer::to_string
@opt may_panic keep:to_string
@contract
    ensures json_of(self.tokenizer.doc(), r@)
@fn PyTokenizer::__getstate__
@contract
    ensures r matches Ok(o) ==> exists|s: Seq<char>| #[trigger] json_of(self.tokenizer.doc(), s) && o.bytes() == Some(sb(s))
@fn PyTokenizer::__setstate__
@contract
    ensures match r { Ok(_) => state.bytes() matches Some(b) && text_of_bytes(b) is Some && json_reads(text_of_bytes(b)->Some_0, final(self).tokenizer),
        Err(_) => final(self).tokenizer == old(self).tokenizer && (state.bytes() matches Some(b) ==> (text_of_bytes(b) matches Some(s) ==> !(json_readable::<Tokenizer>(s) && plain_keys(s)))) }
