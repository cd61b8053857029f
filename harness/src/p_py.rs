//! C22: the built Python module, called from Python, against the library.
use super::gen::*;
use super::p_tok::{text_with_specials, tokdef, TokDef};
use super::util::*;
use super::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::str::FromStr;
use tokengeex::Tokenizer;

struct Py {
    child: Child,
    stdin: ChildStdin,
    stdout: BufReader<ChildStdout>,
}
impl Drop for Py {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
thread_local! { static PY: RefCell<Option<Py>> = const { RefCell::new(None) }; }

fn spawn() -> Py {
    let lib = std::env::var("HARNESS_PYLIB").expect("HARNESS_PYLIB");
    let mut child = Command::new("/usr/bin/python3")
        .args(["-c", include_str!("pyserver.py"), &lib])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("python3");
    let stdin = child.stdin.take().unwrap();
    let stdout = BufReader::new(child.stdout.take().unwrap());
    Py { child, stdin, stdout }
}
/// None when the interpreter died
fn ask(q: &Value) -> Option<Vec<Value>> {
    PY.with(|p| {
        let mut p = p.borrow_mut();
        let y = p.get_or_insert_with(spawn);
        let mut line = String::new();
        let ok = writeln!(y.stdin, "{q}").is_ok() && y.stdin.flush().is_ok() && y.stdout.read_line(&mut line).is_ok() && !line.is_empty();
        if !ok {
            *p = None;
            return None;
        }
        serde_json::from_str(&line).ok()
    })
}

#[derive(Clone, Serialize, Deserialize, Debug)]
pub enum Call {
    Encode(String, F),
    EncodeOrdinary(String, F),
    EncodeBatch(Vec<String>, F),
    EncodeOrdinaryBatch(Vec<String>, F),
    Decode(Vec<u32>, bool),
    DecodeBatch(Vec<Vec<u32>>, bool),
    TokenToId(B),
    BaseTokenToId(B),
    SpecialTokenToId(String),
    IdToToken(u32),
    IdToBaseToken(u32),
    IdToSpecialToken(u32),
    IsSpecial(u32),
    IsBase(u32),
    AddSpecial(Vec<String>),
    SpecialTokens,
    VocabSize,
    BaseVocabSize,
    SpecialVocabSize,
    CommonPrefixSearch(String),
    Str,
    GetState,
    SetState,
    SetStateBad(String),
    FromStrBad(String),
    FromFileMissing,
    FromFileNotText(Vec<u8>),
    SaveLoad,
    SaveNowhere,
}
use Call::*;

#[derive(Clone, Serialize, Deserialize)]
pub struct PyCase {
    def: TokDef,
    calls: Vec<Call>,
}

fn bytes(b: &[u8]) -> Value {
    json!({ "b": b })
}
fn float(f: f64) -> Value {
    json!({ "f": f.to_bits().to_string() })
}
fn res<T: Serialize, E: ToString>(r: Result<T, E>) -> Value {
    match r {
        Ok(v) => json!({ "v": v }),
        Err(e) => json!({"e": "TokenGeeXError", "m": e.to_string()}),
    }
}
fn val<T: Serialize>(v: T) -> Value {
    json!({ "v": v })
}

pub struct C22;
impl Prop for C22 {
    type Case = PyCase;
    const RULE: &'static str = "random tokenizers; sequences of calls of every method through the compiled Python module, from Python, results and errors compared with the library's; non-trivial: at least four different methods of which one returns a non-empty result";
    fn gen(r: &mut Rng, i: u64) -> PyCase {
        let alpha = *r.pick(ALPHABETS);
        let wp = r.chance(0.5);
        let cover = *r.pick(&[0.4, 0.95]);
        let def = tokdef(r, alpha, wp, cover, true, true);
        let v = def.vocab.build();
        let b = v.len() as u32;
        let sp = def.specials();
        let s = sp.len() as u32;
        let n = if i == 0 { 28 } else { r.range(4, 14) };
        let id = |r: &mut Rng| -> u32 {
            match r.below(8) {
                0 => *r.pick(&[b + s, b + s + 1, u32::MAX, 1 << 31, b]),
                1 | 2 => b + r.below(s.max(1) as usize) as u32,
                _ => r.below(b.max(1) as usize) as u32,
            }
        };
        let tok = |r: &mut Rng| -> Vec<u8> {
            match r.below(4) {
                0 if !sp.is_empty() => r.pick(&sp).clone().into_bytes(),
                1 => text(r, alpha, 3).into_bytes(),
                2 => vec![r.below(256) as u8],
                _ if !v.is_empty() => r.pick(&v).value.clone(),
                _ => vec![],
            }
        };
        let drop = |r: &mut Rng| F(*r.pick(&[0.0, 0.0, 0.0, 1.0, 2.0]));
        let calls = (0..n)
            .map(|k| {
                let t = |r: &mut Rng| text_with_specials(r, alpha, &sp, 10);
                let which = if i == 0 { k } else { r.below(28) };
                match which {
                    0 => Encode(t(r), drop(r)),
                    1 => EncodeOrdinary(t(r), drop(r)),
                    2 => EncodeBatch((0..r.range(0, 4)).map(|_| t(r)).collect(), drop(r)),
                    3 => EncodeOrdinaryBatch((0..r.range(0, 4)).map(|_| t(r)).collect(), drop(r)),
                    4 => Decode((0..r.range(0, 8)).map(|_| id(r)).collect(), r.chance(0.5)),
                    5 => DecodeBatch((0..r.range(0, 4)).map(|_| (0..r.range(0, 5)).map(|_| id(r)).collect()).collect(), r.chance(0.5)),
                    6 => TokenToId(B(tok(r))),
                    7 => BaseTokenToId(B(tok(r))),
                    8 => SpecialTokenToId(String::from_utf8_lossy(&tok(r)).into_owned()),
                    9 => IdToToken(id(r)),
                    10 => IdToBaseToken(id(r)),
                    11 => IdToSpecialToken(id(r)),
                    12 => IsSpecial(id(r)),
                    13 => IsBase(id(r)),
                    14 => AddSpecial((0..r.range(0, 3)).map(|_| if r.chance(0.3) && !sp.is_empty() { r.pick(&sp).clone() } else { text(r, alpha, 3) }).collect()),
                    15 => SpecialTokens,
                    16 => VocabSize,
                    17 => BaseVocabSize,
                    18 => SpecialVocabSize,
                    19 => CommonPrefixSearch(t(r)),
                    20 => Str,
                    21 => GetState,
                    22 => SetState,
                    23 => SetStateBad(r.pick(&["", "{}", "null", "{\"version\":\"1.0\"}"]).to_string()),
                    24 => FromStrBad(r.pick(&["", "{}", "[]", "{\"version\":\"9.9\",\"vocab\":[],\"processors\":[],\"special_tokens\":[]}"]).to_string()),
                    25 if r.chance(0.7) => {
                        // a tokenizer document with bytes that are not UTF-8 inside a string
                        let mut d = b"{\"version\":\"2.0\",\"special_tokens\":[\"<".to_vec();
                        d.extend_from_slice(*r.pick(&[&b"\xff"[..], b"\x80", b"\xc3", b"\xed\xa0\x80", b"ok", b"\xe2\x82"]));
                        d.extend_from_slice(b">\"],\"processors\":[],\"vocab\":[{\"value\":\"a\",\"score\":-1.0}]}");
                        if r.chance(0.2) {
                            d.splice(0..0, *b"\xef\xbb\xbf");
                        }
                        FromFileNotText(d)
                    }
                    25 => FromFileMissing,
                    26 => SaveLoad,
                    _ => SaveNowhere,
                }
            })
            .collect();
        PyCase { def, calls }
    }
    fn run(c: &PyCase) -> Out {
        let (_, t) = c.def.build();
        let s0 = t.to_string();
        // a tokenizer the library cannot reload is C08's business
        let Ok(mut lib) = Tokenizer::from_str(&s0) else { return Held(false) };
        let dir = std::env::var("HARNESS_TMP").unwrap_or_else(|_| ".".into());
        let file = format!("{dir}/py.{:?}.json", std::thread::current().id()).replace(['(', ')'], "_");
        let mut extra: Vec<String> = vec![];
        let nowhere = format!("{dir}/no/such/dir/t.json");
        let mut q: Vec<Value> = vec![json!(["from_str", [s0]])];
        let mut want: Vec<(String, Value)> = vec![("from_str".into(), json!({ "v": null }))];
        let mut kinds = HashSet::new();
        let mut useful = false;
        for call in &c.calls {
            let mut one = |name: &str, args: Value, w: Value| {
                useful |= w.get("v").map_or(false, |v| !v.is_null() && v != &json!([]) && v != &json!(false));
                q.push(json!([name, args]));
                want.push((format!("{call:?}"), w));
            };
            kinds.insert(std::mem::discriminant(call));
            match call {
                Encode(x, d) => one("encode", json!([x, {"d": d.0.to_string()}]), res(lib.encode(x, d.0))),
                EncodeOrdinary(x, d) => one("encode_ordinary", json!([x, {"d": d.0.to_string()}]), res(lib.encode_ordinary(x, d.0))),
                EncodeBatch(x, d) => one("encode_batch", json!([x, {"d": d.0.to_string()}]), res(lib.encode_batch(x.iter().map(|s| s.as_str()).collect::<Vec<_>>(), d.0))),
                EncodeOrdinaryBatch(x, d) => {
                    one("encode_ordinary_batch", json!([x, {"d": d.0.to_string()}]), res(lib.encode_ordinary_batch(x.iter().map(|s| s.as_str()).collect::<Vec<_>>(), d.0)))
                }
                Decode(x, i) => one("decode", json!([x, i]), res(lib.decode(x, *i))),
                DecodeBatch(x, i) => one("decode_batch", json!([x, i]), res(lib.decode_batch(x.clone(), *i))),
                TokenToId(x) => one("token_to_id", json!([bytes(&x.0)]), val(lib.token_to_id(&x.0))),
                BaseTokenToId(x) => one("base_token_to_id", json!([bytes(&x.0)]), val(lib.base_token_to_id(&x.0))),
                SpecialTokenToId(x) => one("special_token_to_id", json!([x]), val(lib.special_token_to_id(x))),
                IdToToken(x) => one("id_to_token", json!([x]), val(lib.id_to_token(*x).map(|b| bytes(&b)))),
                IdToBaseToken(x) => one("id_to_base_token", json!([x]), val(lib.id_to_base_token(*x).map(|t| json!([bytes(&t.value), float(t.score)])))),
                IdToSpecialToken(x) => one("id_to_special_token", json!([x]), val(lib.id_to_special_token(*x))),
                IsSpecial(x) => one("is_special", json!([x]), val(lib.is_special(*x))),
                IsBase(x) => one("is_base", json!([x]), val(lib.is_base(*x))),
                AddSpecial(x) => {
                    lib.add_special_tokens(x.clone());
                    one("add_special_tokens", json!([x]), val(()))
                }
                SpecialTokens => one("special_tokens", json!([]), val(lib.special_tokens())),
                VocabSize => one("vocab_size", json!([]), val(lib.vocab_size())),
                BaseVocabSize => one("base_vocab_size", json!([]), val(lib.base_vocab_size())),
                SpecialVocabSize => one("special_vocab_size", json!([]), val(lib.special_vocab_size())),
                CommonPrefixSearch(x) => {
                    let mut buf = vec![];
                    let ids: Vec<u32> = lib.model().common_prefix_search(x.as_bytes(), &mut buf).map(|(i, _)| i).collect();
                    one("common_prefix_search", json!([x]), val(ids))
                }
                Str => one("to_string", json!([]), val(lib.to_string())),
                GetState => one("__getstate__", json!([]), val(bytes(lib.to_string().as_bytes()))),
                SetState => {
                    let s = lib.to_string();
                    let Ok(l) = Tokenizer::from_str(&s) else { continue };
                    lib = l;
                    one("__setstate__", json!([bytes(s.as_bytes())]), val(()))
                }
                SetStateBad(x) => one("__setstate__", json!([bytes(x.as_bytes())]), json!({"e": "*"})),
                FromStrBad(x) => one("from_str", json!([x]), match Tokenizer::from_str(x) { Ok(_) => val(()), Err(e) => res::<(), _>(Err(e)) }),
                FromFileNotText(d) => {
                    let f = format!("{file}.{}", extra.len());
                    if std::fs::write(&f, d).is_err() { return Held(false) }
                    extra.push(f.clone());
                    one("from_file", json!([f]), match Tokenizer::from_file(&f) {
                        Ok(l) => {
                            lib = l;
                            val(())
                        }
                        Err(e) => res::<(), _>(Err(e)),
                    })
                }
                FromFileMissing => one("from_file", json!([nowhere]), match Tokenizer::from_file(&nowhere) { Ok(_) => val(()), Err(e) => res::<(), _>(Err(e)) }),
                SaveLoad => {
                    one("save", json!([file]), val(()));
                    if lib.save(&file).is_err() { return Held(false) }
                    let Ok(l) = Tokenizer::from_file(&file) else { q.pop(); want.pop(); continue };
                    let _ = std::fs::remove_file(&file);
                    lib = l;
                    let mut one = |name: &str, args: Value, w: Value| {
                        q.push(json!([name, args]));
                        want.push((format!("{call:?}"), w));
                    };
                    one("from_file", json!([file]), val(()));
                    one("to_string", json!([]), val(lib.to_string()));
                }
                SaveNowhere => one("save", json!([nowhere]), json!({"e": "*"})),
            }
        }
        let got = ask(&json!({ "calls": q }));
        for f in &extra {
            let _ = std::fs::remove_file(f);
        }
        let _ = std::fs::remove_file(&file);
        let Some(got) = got else { return Broken("the Python interpreter ended during the calls".into()) };
        for (k, ((what, w), g)) in want.iter().zip(&got).enumerate() {
            let batch = what.contains("Batch");
            let ok = if batch && w.get("e").is_some() {
                // which failing input is reported depends on the schedule
                w["e"] == g["e"]
            } else if w.get("e") == Some(&json!("*")) { g.get("e").is_some() && g["e"] != "PanicException" } else { w == g };
            if !ok {
                return Broken(format!("call {k} {what}: the library gives {w}, Python gives {g}"));
            }
        }
        if got.len() != want.len() {
            return Broken("results missing".into());
        }
        Held(kinds.len() >= 4 && useful)
    }
    fn shrink(c: &PyCase) -> Vec<PyCase> {
        let mut out = vec![];
        for calls in shrink_vec(&c.calls) {
            out.push(PyCase { def: c.def.clone(), calls });
        }
        for def in c.def.shrinks() {
            out.push(PyCase { def, calls: c.calls.clone() });
        }
        out
    }
}
