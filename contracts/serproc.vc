@module serproc src/processor.rs
@subst serde::Serializer => Serializer
@subst serde::Deserializer<'de> => Deserializer
@subst serde::de::MapAccess<'de> => MapAccess
@subst serde::de::IgnoredAny => IgnoredAny
@subst serde::de::Error::unknown_field => vx_unknown_field
@subst serde::de::Error::unknown_variant => vx_unknown_variant
@subst serde::de::Error::missing_field => vx_missing_field
@subst serde::de::Error::custom => vx_de_custom
@subst Result<S::Ok, S::Error> => core::result::Result<S::Ok, S::Error>
@subst Result<CrlfProcessor, D::Error> => core::result::Result<CrlfProcessor, D::Error>
@subst Result<CrlfProcessor, A::Error> => core::result::Result<CrlfProcessor, A::Error>
@subst Result<UnicodeProcessor, D::Error> => core::result::Result<UnicodeProcessor, D::Error>
@subst Result<UnicodeProcessor, A::Error> => core::result::Result<UnicodeProcessor, A::Error>
@spec
use crate::shim::*;
use crate::processor::*;
broadcast use crate::shim::group_vx;
broadcast use crate::shim::group_str;

pub open spec fn k_type() -> Seq<char> { "type"@ }
pub open spec fn k_form() -> Seq<char> { "form"@ }
pub open spec fn form_name(p: UnicodeProcessor) -> Seq<char> { match p { UnicodeProcessor::Nfc => "nfc"@, UnicodeProcessor::Nfd => "nfd"@, UnicodeProcessor::Nfkc => "nfkc"@, UnicodeProcessor::Nfkd => "nfkd"@ } }
pub open spec fn crlf_fields() -> Entries { seq![(k_type(), Doc::Text("crlf"@))] }
pub open spec fn uni_fields(p: UnicodeProcessor) -> Entries { seq![(k_type(), Doc::Text("unicode"@)), (k_form(), Doc::Text(form_name(p)))] }
impl Docs for CrlfProcessor { open spec fn doc(&self) -> Doc { Doc::Fields(crlf_fields()) } }
impl Docs for UnicodeProcessor { open spec fn doc(&self) -> Doc { Doc::Fields(uni_fields(*self)) } }
impl Serialize for CrlfProcessor { fn vx_serialize<S: Serializer>(&self, s: S) -> (r: core::result::Result<S::Ok, S::Error>) { self.serialize(s) } }
impl Serialize for UnicodeProcessor { fn vx_serialize<S: Serializer>(&self, s: S) -> (r: core::result::Result<S::Ok, S::Error>) { self.serialize(s) } }

/// every entry called "type" is "crlf"; the rest is ignored
pub open spec fn crlf_readable(fs: Entries) -> bool { forall|i: int| 0 <= i < fs.len() && (#[trigger] fs[i]).0 == k_type() ==> fs[i].1 == Doc::Text("crlf"@) }
pub open spec fn is_form(s: Seq<char>) -> bool { s == "nfc"@ || s == "nfd"@ || s == "nfkc"@ || s == "nfkd"@ }
/// the last entry called "form" names the form, all of them are texts; the rest is ignored
pub open spec fn uni_readable(fs: Entries) -> bool {
    &&& forms_text(fs)
    &&& last_val(fs, k_form()) matches Some(d) && d is Text && is_form(d->Text_0)
}
pub open spec fn forms_text(fs: Entries) -> bool { forall|i: int| 0 <= i < fs.len() && (#[trigger] fs[i]).0 == k_form() ==> fs[i].1 is Text }
pub open spec fn uni_reads(fs: Entries, p: UnicodeProcessor) -> bool { uni_readable(fs) && last_val(fs, k_form()) == Some(Doc::Text(form_name(p))) }
impl Reads for CrlfProcessor {
    open spec fn readable(d: Doc) -> bool { d is Fields && crlf_readable(d->Fields_0) }
    open spec fn reads(d: Doc, t: CrlfProcessor) -> bool { d is Fields && crlf_readable(d->Fields_0) }
}
impl Reads for UnicodeProcessor {
    open spec fn readable(d: Doc) -> bool { d is Fields && uni_readable(d->Fields_0) }
    open spec fn reads(d: Doc, t: UnicodeProcessor) -> bool { d is Fields && uni_reads(d->Fields_0, t) }
}
impl Deserialize for CrlfProcessor { fn vx_deserialize<D: Deserializer>(d: D) -> (r: core::result::Result<CrlfProcessor, D::Error>) { CrlfProcessor::deserialize(d) } }
impl Deserialize for UnicodeProcessor { fn vx_deserialize<D: Deserializer>(d: D) -> (r: core::result::Result<UnicodeProcessor, D::Error>) { UnicodeProcessor::deserialize(d) } }
impl Visitor for CrlfProcessorVisitor {
    type Value = CrlfProcessor;
    open spec fn v_readable(fs: Entries) -> bool { crlf_readable(fs) }
    open spec fn v_reads(fs: Entries, t: CrlfProcessor) -> bool { crlf_readable(fs) }
    fn vx_visit_map<A: MapAccess>(self, map: A) -> (r: core::result::Result<CrlfProcessor, A::Error>) { self.visit_map(map) }
}
impl Visitor for UnicodeProcessorVisitor {
    type Value = UnicodeProcessor;
    open spec fn v_readable(fs: Entries) -> bool { uni_readable(fs) }
    open spec fn v_reads(fs: Entries, t: UnicodeProcessor) -> bool { uni_reads(fs, t) }
    fn vx_visit_map<A: MapAccess>(self, map: A) -> (r: core::result::Result<UnicodeProcessor, A::Error>) { self.visit_map(map) }
}
/// #[derive(Serialize, Deserialize)] #[serde(untagged)]: written as what it holds, read as the first variant that can be read (trusted)
impl Docs for ProcessorWrapper { open spec fn doc(&self) -> Doc { match self { ProcessorWrapper::Crlf(p) => p.doc(), ProcessorWrapper::Unicode(p) => p.doc() } } }
impl Reads for ProcessorWrapper {
    open spec fn readable(d: Doc) -> bool { CrlfProcessor::readable(d) || UnicodeProcessor::readable(d) }
    open spec fn reads(d: Doc, t: ProcessorWrapper) -> bool {
        if CrlfProcessor::readable(d) { t is Crlf && CrlfProcessor::reads(d, t->Crlf_0) } else { t is Unicode && UnicodeProcessor::reads(d, t->Unicode_0) }
    }
}
pub open spec fn is_form_of(v: Option<String>, d: Option<Doc>) -> bool { match v { None => d is None, Some(s) => d == Some(Doc::Text(s@)) } }
pub proof fn lemma_pkeys()
    ensures k_type() != k_form(), letters(k_type()), letters(k_form()), "crlf"@ != "unicode"@,
        "nfc"@ != "nfd"@, "nfc"@ != "nfkc"@, "nfc"@ != "nfkd"@, "nfd"@ != "nfkc"@, "nfd"@ != "nfkd"@, "nfkc"@ != "nfkd"@,
{
    reveal_strlit("type"); reveal_strlit("form"); reveal_strlit("crlf"); reveal_strlit("unicode"); reveal_strlit("nfc"); reveal_strlit("nfd"); reveal_strlit("nfkc"); reveal_strlit("nfkd");
    assert(k_type()[0] == 't' && k_form()[0] == 'f' && "crlf"@[0] == 'c' && "unicode"@[0] == 'u');
    assert("nfc"@[2] == 'c' && "nfd"@[2] == 'd' && "nfkc"@[3] == 'c' && "nfkd"@[3] == 'd' && "nfkc"@[2] == 'k' && "nfkd"@[2] == 'k');
}
/// a processor that was written is read back as it was
pub proof fn lemma_proc_round(p: ProcessorWrapper)
    ensures ProcessorWrapper::readable(p.doc()), forall|q: ProcessorWrapper| #[trigger] ProcessorWrapper::reads(p.doc(), q) ==> q == p, faithful(p.doc())
{
    lemma_pkeys();
    reveal_with_fuel(last_val, 3);
    let fs = p.doc()->Fields_0;
    reveal_with_fuel(faithful, 4);
    assert(fs[0].0 == k_type());
    if p is Unicode { assert(!crlf_readable(fs)); }
    assert forall|q: ProcessorWrapper| #[trigger] ProcessorWrapper::reads(p.doc(), q) implies q == p by { if p is Unicode { assert(q is Unicode); assert(form_name(q->Unicode_0) == form_name(p->Unicode_0)); } else { assert(crlf_readable(fs)); assert(q is Crlf); } }
    assert forall|i: int| 0 <= i < fs.len() implies letters((#[trigger] fs[i]).0) && faithful(fs[i].1) by { }
}
@fn CrlfProcessor@Serialize::serialize
@opt inherent
@contract
    ensures r matches Ok(o) ==> emitted(o) == self.doc()
@end
    proof { assert(processor.fields() =~= crlf_fields()); }
@fn UnicodeProcessor@Serialize::serialize
@opt inherent
@contract
    ensures r matches Ok(o) ==> emitted(o) == self.doc()
@end
    proof { assert(processor.fields() =~= uni_fields(*self)); }
@fn CrlfProcessorVisitor@Visitor::visit_map
@opt inherent
@contract
    ensures r is Ok ==> crlf_readable(map.left()), r is Err ==> !crlf_readable(map.left()) || !map.plain()
@start
    proof { lemma_pkeys(); }
    let ghost all = map.left(); let ghost mut n: int = 0; let ghost pl = map.plain();
    proof { assert(all.skip(0) =~= all); assert(all.take(0) =~= Seq::<(Seq<char>, Doc)>::empty()); }
@loop 1
    invariant
        0 <= n <= all.len(), map.left() == all.skip(n), map.plain() == pl, crlf_readable(all.take(n)),
    ensures n == all.len(),
    decreases map.left().len(),
@body_start 1
    proof { if n < all.len() { assert(all.skip(n)[0] == all[n]); assert(all.skip(n).skip(1) =~= all.skip(n + 1)); } }
@body_end 1
    proof {
        assert forall|i: int| 0 <= i < n + 1 && (#[trigger] all.take(n + 1)[i]).0 == k_type() implies all.take(n + 1)[i].1 == Doc::Text("crlf"@) by { if i < n { assert(all.take(n + 1)[i] == all.take(n)[i]); } }
        n = n + 1;
    }
@after 1
    proof { assert(all.take(n) =~= all); }
@fn UnicodeProcessorVisitor@Visitor::visit_map
@opt inherent
@contract
    ensures r matches Ok(v) ==> uni_reads(map.left(), v), r is Err ==> !uni_readable(map.left()) || !map.plain()
@start
    proof { lemma_pkeys(); }
    let ghost all = map.left(); let ghost mut n: int = 0; let ghost pl = map.plain();
    proof { assert(all.skip(0) =~= all); assert(all.take(0) =~= Seq::<(Seq<char>, Doc)>::empty()); }
@loop 1
    invariant
        0 <= n <= all.len(), map.left() == all.skip(n), map.plain() == pl, forms_text(all.take(n)),
        is_form_of(form, last_val(all.take(n), k_form())),
    ensures n == all.len(),
    decreases map.left().len(),
@body_start 1
    proof { if n < all.len() { lemma_last_val(all, n, k_form()); assert(all.skip(n)[0] == all[n]); assert(all.skip(n).skip(1) =~= all.skip(n + 1)); } }
@body_end 1
    proof {
        assert forall|i: int| 0 <= i < n + 1 && (#[trigger] all.take(n + 1)[i]).0 == k_form() implies all.take(n + 1)[i].1 is Text by { if i < n { assert(all.take(n + 1)[i] == all.take(n)[i]); } }
        n = n + 1;
    }
@after 1
    proof { assert(all.take(n) =~= all); }
@fn CrlfProcessor@Deserialize::deserialize
@opt inherent
@contract
    ensures r matches Ok(t) ==> CrlfProcessor::reads(deserializer.doc(), t), r is Err ==> !CrlfProcessor::readable(deserializer.doc()) || !deserializer.plain()
@fn UnicodeProcessor@Deserialize::deserialize
@opt inherent
@contract
    ensures r matches Ok(t) ==> UnicodeProcessor::reads(deserializer.doc(), t), r is Err ==> !UnicodeProcessor::readable(deserializer.doc()) || !deserializer.plain()
