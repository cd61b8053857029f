//! Source-to-source transformation of one function: the original text with the edits listed in
//! DESIGN.md ("What the extraction changes").
use crate::contracts::FnC;
use crate::index::Index;
use std::collections::{BTreeMap, BTreeSet};
use syn::spanned::Spanned;
use syn::visit::{self, Visit};
use syn::*;

pub struct Tx<'a> {
    pub src: &'a str,
    pub idx: &'a Index,
    pub c: &'a FnC,
    pub variant: BTreeMap<usize, usize>,
    pub opaque: &'a BTreeSet<String>,
    pub contracted: &'a BTreeSet<String>,
    pub self_ty: String,
    pub uid: usize,
    pub loops: usize,
    pub sorts: usize,
    pub skeleton: String,
    pub hoisted: Vec<String>,
    pub hoist_items: Vec<Item>,
    pub lets: BTreeMap<String, usize>,
    pub locals: Vec<String>,
    pub calls: BTreeSet<String>,
    pub unknown: BTreeSet<String>,
    pub inlined: Vec<String>,
    pub dropped: BTreeSet<String>,
    pub subst: Vec<(String, String)>,
    pub errors: Vec<String>,
    pub stack: Vec<String>,
    /// parameters that are references to slices or vectors
    pub slices: BTreeSet<String>,
    pub mut_slices: BTreeSet<String>,
    /// inside `E.collect::<Result<..>>()?`: a `?` in the mapped closure has the effect of one here
    pub in_try: bool,
    /// the loops around this point; `continue`s seen per loop; loops that had none when the
    /// contracts were written: a `continue` there gets the hints of the end of the body
    pub around: Vec<usize>,
    pub conts: BTreeMap<usize, usize>,
    pub no_cont: BTreeSet<usize>,
    pub inline_try: bool,
    pub last_tried: bool,
    pub output: ReturnType,
}

pub fn norm(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

fn range<T: Spanned>(t: &T) -> (usize, usize) {
    let r = t.span().byte_range();
    (r.start, r.end)
}

const DROP_MACROS: &[&str] = &["debug_assert", "debug_assert_eq", "debug_assert_ne", "println", "eprintln", "print"];

/// methods whose library version the verifier has no specification for: renamed to the shim's
const METHODS: &[(&str, &str)] = &[
    ("starts_with", "vx_starts_with"),
    ("split", "vx_split"),
    ("chars", "vx_chars"),
    ("char_indices", "vx_char_indices"),
    ("replace", "vx_replace"),
    ("sort_unstable_by", "vx_sort_by"),
    ("sort_by", "vx_sort_by"),
    ("sort_unstable_by_key", "vx_sort_by_key"),
    ("sort_by_key", "vx_sort_by_key"),
    ("partial_cmp", "vx_partial_cmp"),
    ("cmp", "vx_cmp"),
    ("reverse", "vx_reverse"),
    ("clone", "vx_clone"),
    ("ln", "vx_ln"),
    ("exp", "vx_exp"),
    ("is_normal", "vx_is_normal"),
    ("is_nan", "vx_is_nan"),
    ("is_infinite", "vx_is_infinite"),
    ("find_iter", "vx_find_iter"),
    ("par_chunks", "vx_par_chunks"),
    ("chunks", "vx_chunks"),
    ("into_owned", "vx_into_owned"),
    ("parse", "vx_parse"),
    ("trim", "vx_trim"),
    ("as_ref", "vx_as_ref"),
    ("as_str", "vx_as_str"),
    ("into_bytes", "vx_into_bytes"),
    ("to_vec", "vx_to_vec"),
    ("into", "vx_into"),
    ("to_string", "vx_to_string"),
    ("resize_with", "vx_resize_with"),
    ("drain", "vx_drain"),
    ("copied", "vx_copied"),
    ("cloned", "vx_cloned"),
    ("push_str", "vx_push_str"),
    ("nfc", "vx_nfc"),
    ("nfd", "vx_nfd"),
    ("nfkc", "vx_nfkc"),
    ("nfkd", "vx_nfkd"),
    ("extend", "vx_extend"),
    ("is_match", "vx_is_match"),
    ("match_indices", "vx_match_indices"),
    ("len_utf8", "vx_len_utf8"),
    ("gen_range", "vx_gen_range"),
    ("join", "vx_join"),
    ("unwrap_or_default", "vx_unwrap_or_default"),
    ("first", "vx_first"),
    ("split", "vx_split"),
    ("copy_from_slice", "vx_copy_from_slice"),
    ("into_iter", "vx_into_iter"),
    ("into_par_iter", "vx_into_iter"),
    ("chars", "vx_chars"),
    ("shuffle", "vx_shuffle"),
    ("max", "vx_omax"),
    ("min", "vx_omin"),
];
const SOURCES: &[&str] = &[
    "iter", "iter_mut", "into_iter", "chars", "char_indices", "par_iter", "into_par_iter", "split", "find_iter", "match_indices", "keys", "values", "drain", "chunks", "par_chunks",
    "bytes",
];
const ADAPTERS: &[&str] = &["map", "filter", "enumerate", "rev", "zip", "copied", "cloned", "skip", "take", "chain", "by_ref", "filter_map", "flat_map"];
const CONSUMERS: &[&str] = &["collect", "fold", "position", "any", "all", "find", "sum", "count", "for_each"];

#[derive(Clone)]
enum Src {
    /// lo, hi, inclusive
    Range(String, String, bool),
    /// expression of something with len() and [..]; elements by reference / by mutable reference
    Slice(String, bool),
    /// anything with next()
    Opaque(String),
}
enum Ad {
    Map(Pat, Expr, Option<Type>),
    Filter(Pat, Expr),
    Enumerate,
    Rev,
    Copied,
    Cloned,
    Zip(Expr),
    Skip(String),
    Take(String),
    FlatMap(Pat, Expr),
}
struct Chain {
    src: Src,
    ads: Vec<Ad>,
}

fn closure(e: &Expr) -> Option<(&ExprClosure, Vec<&Pat>)> {
    if let Expr::Closure(c) = e {
        Some((c, c.inputs.iter().collect()))
    } else {
        None
    }
}
/// TYPE::new(..) or TYPE::default()
fn is_new(e: &Expr, types: &[&str]) -> bool {
    if let Expr::Call(c) = strip_paren(e) {
        if let Expr::Path(p) = &*c.func {
            let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            return s.len() >= 2 && types.contains(&s[s.len() - 2].as_str());
        }
    }
    false
}
fn strip_paren(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip_paren(&p.expr),
        Expr::Group(p) => strip_paren(&p.expr),
        e => e,
    }
}
/// evaluating it twice makes no difference
fn pure_place(e: &Expr) -> bool {
    match strip_paren(e) {
        Expr::Path(_) | Expr::Lit(_) => true,
        Expr::Field(f) => pure_place(&f.base),
        Expr::Index(i) => pure_place(&i.expr) && pure_place(&i.index),
        Expr::Cast(c) => pure_place(&c.expr),
        Expr::Unary(u) => pure_place(&u.expr),
        _ => false,
    }
}
/// built from names, literals, fields, tuples and references only
fn effect_free(e: &Expr) -> bool {
    match strip_paren(e) {
        Expr::Path(_) | Expr::Lit(_) => true,
        Expr::Field(f) => effect_free(&f.base),
        Expr::Tuple(t) => t.elems.iter().all(effect_free),
        Expr::Reference(r) => r.mutability.is_none() && effect_free(&r.expr),
        Expr::Unary(u) => effect_free(&u.expr),
        Expr::Binary(b) => {
            use BinOp::*;
            matches!(b.op, Eq(_) | Ne(_) | Lt(_) | Le(_) | Gt(_) | Ge(_) | And(_) | Or(_) | Add(_) | Sub(_) | Mul(_) | BitAnd(_) | BitOr(_) | BitXor(_)) && effect_free(&b.left) && effect_free(&b.right)
        }
        Expr::Cast(c) => effect_free(&c.expr),
        Expr::MethodCall(m) => ["is_empty", "len"].contains(&m.method.to_string().as_str()) && m.args.is_empty() && effect_free(&m.receiver),
        _ => false,
    }
}
fn is_text(e: &Expr) -> bool {
    matches!(strip_paren(e), Expr::Lit(ExprLit { lit: Lit::Str(_), .. }))
}
/// the argument of Ok(..)
fn ok_arg(e: &Expr) -> Option<&Expr> {
    match strip_paren(e) {
        Expr::Call(c) if matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Ok")) && c.args.len() == 1 => Some(&c.args[0]),
        _ => None,
    }
}
/// every `return` (outside closures) is `return Err(..)`
fn only_err_returns(b: &Block) -> bool {
    struct V(bool);
    impl<'ast> Visit<'ast> for V {
        fn visit_expr_return(&mut self, r: &'ast ExprReturn) {
            self.0 &= matches!(r.expr.as_deref().map(strip_paren), Some(Expr::Call(c)) if matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Err")));
        }
        fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
        fn visit_item(&mut self, _: &'ast Item) {}
    }
    let mut v = V(true);
    v.visit_block(b);
    v.0 && matches!(b.stmts.last(), Some(Stmt::Expr(_, None)))
}
fn strip_pat(p: &Pat) -> &Pat {
    match p {
        Pat::Paren(p) => strip_pat(&p.pat),
        Pat::Type(p) => strip_pat(&p.pat),
        p => p,
    }
}

pub struct Coll<'t, 'a> {
    tx: &'t mut Tx<'a>,
    edits: Vec<(usize, usize, String)>,
}

struct HasTry(bool);
impl<'ast> Visit<'ast> for HasTry {
    fn visit_expr(&mut self, e: &'ast Expr) {
        match e {
            Expr::Try(_) => self.0 = true,
            Expr::Closure(_) => {}
            _ => visit::visit_expr(self, e),
        }
    }
    fn visit_item(&mut self, _: &'ast Item) {}
}
/// a return anywhere in the text, even beside a `?`
struct HasRet(bool);
impl<'ast> Visit<'ast> for HasRet {
    fn visit_expr(&mut self, e: &'ast Expr) {
        match e {
            Expr::Return(_) => self.0 = true,
            Expr::Closure(_) => {}
            _ => visit::visit_expr(self, e),
        }
    }
    fn visit_item(&mut self, _: &'ast Item) {}
}
struct HasReturn(bool);
impl<'ast> Visit<'ast> for HasReturn {
    fn visit_expr(&mut self, e: &'ast Expr) {
        match e {
            Expr::Return(_) | Expr::Try(_) => self.0 = true,
            Expr::Closure(_) => {}
            _ => visit::visit_expr(self, e),
        }
    }
    fn visit_item(&mut self, _: &'ast Item) {}
}

impl<'t, 'a, 'ast> Visit<'ast> for Coll<'t, 'a> {
    fn visit_expr(&mut self, e: &'ast Expr) {
        if let Some(s) = self.tx.expr(e) {
            let (a, b) = range(e);
            self.edits.push((a, b, s));
        } else {
            visit::visit_expr(self, e);
        }
    }
    fn visit_attribute(&mut self, a: &'ast Attribute) {
        let (x, y) = range(a);
        self.edits.push((x, y, String::new()));
    }
    fn visit_pat_ident(&mut self, p: &'ast PatIdent) {
        self.tx.locals.push(p.ident.to_string());
        visit::visit_pat_ident(self, p);
    }
    fn visit_stmt(&mut self, s: &'ast Stmt) {
        match s {
            Stmt::Item(i) => {
                let (a, b) = range(s);
                if matches!(i, Item::Use(_)) {
                    return;
                }
                self.tx.hoist_items.push(i.clone());
                self.edits.push((a, b, String::new()));
            }
            Stmt::Macro(m) => {
                let (a, b) = range(s);
                let t = self.tx.mac(&m.mac);
                self.edits.push((a, b, if t.is_empty() { t } else { t + if m.semi_token.is_some() { ";" } else { "" } }));
            }
            Stmt::Local(l) => {
                let names = pat_names(&l.pat);
                let mut ghost = String::new();
                for n in names {
                    let k = self.tx.lets.entry(n.clone()).or_insert(0);
                    *k += 1;
                    let k = *k;
                    for (m, j, t) in &self.tx.c.after_let {
                        if *m == n && *j == k {
                            ghost.push_str(t);
                        }
                    }
                }
                let (a, b) = range(s);
                let text = {
                    let mut c = Coll { tx: self.tx, edits: vec![] };
                    visit::visit_local(&mut c, l);
                    let ed = c.edits;
                    self.tx.splice(a, b, ed)
                };
                let mut text = self.tx.let_else(l, text);
                if let (Pat::Ident(i), Some(init)) = (strip_pat(&l.pat), &l.init) {
                    // shared maps and locks become plain mutable values
                    if i.mutability.is_none() && is_new(&init.expr, &["DashMap", "DashSet", "RwLock", "Mutex"]) {
                        text = text.replacen("let ", "let mut ", 1);
                    }
                }
                self.edits.push((a, b, format!("{text}\n{ghost}")));
            }
            _ => visit::visit_stmt(self, s),
        }
    }
    fn visit_type(&mut self, t: &'ast Type) {
        let (a, b) = range(t);
        if let Some(s) = self.tx.sub(a, b) {
            self.edits.push((a, b, s));
        } else {
            visit::visit_type(self, t);
        }
    }
    fn visit_path(&mut self, t: &'ast Path) {
        let (a, b) = range(t);
        if let Some(s) = self.tx.sub(a, b) {
            self.edits.push((a, b, s));
        } else {
            visit::visit_path(self, t);
        }
    }
    fn visit_type_param_bound(&mut self, t: &'ast TypeParamBound) {
        let (a, b) = range(t);
        if let Some(s) = self.tx.sub(a, b) {
            self.edits.push((a, b, s));
        } else {
            visit::visit_type_param_bound(self, t);
        }
    }
}

pub fn pat_names(p: &Pat) -> Vec<String> {
    struct V(Vec<String>);
    impl<'ast> Visit<'ast> for V {
        fn visit_pat_ident(&mut self, p: &'ast PatIdent) {
            self.0.push(p.ident.to_string());
            visit::visit_pat_ident(self, p);
        }
    }
    let mut v = V(vec![]);
    v.visit_pat(p);
    v.0
}

impl<'a> Tx<'a> {
    fn sub(&mut self, a: usize, b: usize) -> Option<String> {
        let n = norm(&self.src[a..b]);
        self.subst.iter().find(|(f, _)| norm(f) == n).map(|(_, t)| t.clone())
    }
    pub fn splice(&mut self, lo: usize, hi: usize, mut edits: Vec<(usize, usize, String)>) -> String {
        edits.sort_by_key(|e| (e.0, e.1));
        let mut out = String::new();
        let mut at = lo;
        for (a, b, s) in edits {
            if a < at {
                if b <= at && s.is_empty() {
                    continue;
                }
                self.errors.push(format!("overlapping edits at {a}"));
                continue;
            }
            out.push_str(&self.src[at..a]);
            out.push_str(&s);
            at = b;
        }
        out.push_str(&self.src[at..hi]);
        out
    }
    fn with<F: FnOnce(&mut Coll)>(&mut self, lo: usize, hi: usize, f: F) -> String {
        let mut c = Coll { tx: self, edits: vec![] };
        f(&mut c);
        let ed = c.edits;
        self.splice(lo, hi, ed)
    }
    pub fn t_expr(&mut self, e: &Expr) -> String {
        let (a, b) = range(e);
        self.with(a, b, |c| c.visit_expr(e))
    }
    pub fn t_pat(&mut self, e: &Pat) -> String {
        let (a, b) = range(e);
        self.with(a, b, |c| c.visit_pat(e))
    }
    pub fn t_type(&mut self, e: &Type) -> String {
        let (a, b) = range(e);
        self.with(a, b, |c| c.visit_type(e))
    }
    pub fn t_any<T: Spanned>(&mut self, t: &T, f: impl FnOnce(&mut Coll, &T)) -> String {
        let (a, b) = range(t);
        self.with(a, b, |c| f(c, t))
    }
    pub fn t_generics(&mut self, g: &Generics) -> String {
        if g.params.is_empty() {
            return String::new();
        }
        let (a, b) = (range(&g.lt_token).0, range(&g.gt_token).1);
        self.with(a, b, |c| {
            for p in &g.params {
                c.visit_generic_param(p)
            }
        })
    }
    pub fn t_where(&mut self, w: &Option<WhereClause>) -> String {
        match w {
            Some(w) => self.t_any(w, |c, w| c.visit_where_clause(w)),
            None => String::new(),
        }
    }
    pub fn t_fnarg(&mut self, a: &FnArg) -> String {
        self.t_any(a, |c, a| c.visit_fn_arg(a))
    }
    /// the statements of a block, without its braces
    pub fn t_inner(&mut self, b: &Block) -> String {
        let (x, y) = (range(&b.brace_token.span.open()).1, range(&b.brace_token.span.close()).0);
        self.with(x, y, |c| {
            for s in &b.stmts {
                c.visit_stmt(s)
            }
        })
    }
    /// block with text inserted before its tail expression
    pub fn t_body(&mut self, b: &Block, end: &str, unit: bool) -> String {
        if end.is_empty() {
            return self.t_inner(b);
        }
        match b.stmts.last() {
            Some(Stmt::Expr(e, None)) if !unit => {
                let (x, y) = (range(&b.brace_token.span.open()).1, range(&b.brace_token.span.close()).0);
                let (p, q) = range(e);
                let first = self.with(x, p, |c| {
                    for s in &b.stmts[..b.stmts.len() - 1] {
                        c.visit_stmt(s)
                    }
                });
                let tail = self.t_expr(e);
                let rest = self.src[q..y].to_string();
                format!("{first}\n{end}\n{tail}{rest}")
            }
            _ => format!("{}\n{end}", self.t_inner(b)),
        }
    }
    fn body_of(&mut self, e: &Expr) -> String {
        match e {
            Expr::Block(b) if b.label.is_none() => self.t_inner(&b.block),
            e => self.t_expr(e),
        }
    }
    fn let_else(&mut self, l: &Local, text: String) -> String {
        let Some(init) = &l.init else { return text };
        let Some((_, div)) = &init.diverge else { return text };
        // let PAT(x) = E else { D };   =>   let x = match E { PAT(x) => x, _ => D };
        let names = pat_names(&l.pat);
        let strip = |s: String| s.split_whitespace().filter(|w| *w != "mut").collect::<Vec<_>>().join(" ");
        let p = {
            let (a, b) = range(&l.pat);
            let t = self.src[a..b].to_string();
            strip(t.replace("mut ", " "))
        };
        let muts: Vec<String> = {
            struct V(Vec<String>);
            impl<'ast> Visit<'ast> for V {
                fn visit_pat_ident(&mut self, p: &'ast PatIdent) {
                    self.0.push(format!("{}{}", if p.mutability.is_some() { "mut " } else { "" }, p.ident));
                }
            }
            let mut v = V(vec![]);
            v.visit_pat(&l.pat);
            v.0
        };
        let e = self.t_expr(&init.expr);
        let d = self.t_expr(div);
        format!("let ({}) = match {e} {{ {p} => ({}), _ => {d} }};", muts.join(", "), names.join(", "))
    }

    // ------------------------------------------------------------------ loops
    fn next_loop(&mut self) -> usize {
        self.loops += 1;
        self.skeleton.push('(');
        self.loops
    }
    fn inv(&self, k: usize, default_dec: &str) -> String {
        let t = self.g(&self.c.loops, k);
        if t.contains("decreases") || default_dec.is_empty() {
            format!("\n{t}\n")
        } else {
            format!("\n{t}\n decreases {default_dec},\n")
        }
    }
    fn g(&self, m: &BTreeMap<usize, String>, k: usize) -> String {
        m.get(self.variant.get(&k).unwrap_or(&k)).cloned().unwrap_or_default()
    }
    fn t_loop(&mut self, k: usize, b: &Block) -> String {
        self.around.push(k);
        let s = self.t_inner(b);
        self.around.pop();
        s
    }
    fn while_loop(&mut self, w: &ExprWhile) -> String {
        let k = self.next_loop();
        let label = self.label(&w.label);
        let (bs, be) = (self.g(&self.c.body_start, k), self.g(&self.c.body_end, k));
        let s = if let Expr::Let(l) = &*w.cond {
            let e = self.t_expr(&l.expr);
            let p = self.t_pat(&l.pat);
            let b = self.t_loop(k, &w.body);
            let inv = self.inv(k, "");
            format!("{label}loop {inv} {{ {bs} match {e} {{ {p} => {{ {b} {be} }} _ => {{ break; }} }} }}")
        } else {
            let c = self.t_expr(&w.cond);
            let b = self.t_loop(k, &w.body);
            let inv = self.inv(k, "");
            format!("{label}while {c} {inv} {{ {bs} {b} {be} }}")
        };
        self.skeleton.push(')');
        // a block may follow: the loop ends here
        self.wrap_loop(k, s + ";")
    }
    fn wrap_loop(&self, k: usize, s: String) -> String {
        format!("{}\n{s}\n{}", self.g(&self.c.before, k), self.g(&self.c.after, k))
    }
    fn label(&self, l: &Option<Label>) -> String {
        l.as_ref().map(|l| format!("{}: ", l.name)).unwrap_or_default()
    }
    fn plain_loop(&mut self, w: &ExprLoop) -> String {
        let k = self.next_loop();
        let label = self.label(&w.label);
        let (bs, be) = (self.g(&self.c.body_start, k), self.g(&self.c.body_end, k));
        let b = self.t_loop(k, &w.body);
        let inv = self.inv(k, "");
        self.skeleton.push(')');
        // a loop may be the value of the function: no block around it
        let s = format!("{label}loop {inv} {{ {bs} {b} {be} }}");
        let (bf, af) = (self.g(&self.c.before, k), self.g(&self.c.after, k));
        if bf.is_empty() && af.is_empty() {
            s
        } else {
            format!("{bf}\n{s}\n{af}")
        }
    }

    fn parse_chain(&mut self, e: &Expr) -> Option<Chain> {
        match strip_paren(e) {
            Expr::Range(r) => {
                let lo = r.start.as_ref().map(|x| self.t_expr(x))?;
                let hi = r.end.as_ref().map(|x| self.t_expr(x))?;
                Some(Chain { src: Src::Range(lo, hi, matches!(r.limits, RangeLimits::Closed(_))), ads: vec![] })
            }
            Expr::Reference(r) => {
                let s = self.t_expr(&r.expr);
                if r.mutability.is_some() {
                    Some(Chain { src: Src::Slice(format!("&mut {s}"), true), ads: vec![] })
                } else if self.map_like(&s) {
                    Some(Chain { src: Src::Opaque(format!("{s}.vx_iter()")), ads: vec![] })
                } else {
                    Some(Chain { src: Src::Slice(format!("&{s}"), false), ads: vec![] })
                }
            }
            Expr::Path(p) if p.path.get_ident().map_or(false, |i| self.slices.contains(&i.to_string())) => {
                Some(Chain { src: Src::Slice(format!("&{}", p.path.get_ident().unwrap()), false), ads: vec![] })
            }
            Expr::Path(p) if p.path.get_ident().map_or(false, |i| self.mut_slices.contains(&i.to_string())) => {
                Some(Chain { src: Src::Slice(format!("&mut {}", p.path.get_ident().unwrap()), true), ads: vec![] })
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                match name.as_str() {
                    "into_iter" | "into_par_iter"
                        if m.args.is_empty() && matches!(strip_paren(&m.receiver), Expr::Path(p) if p.path.get_ident().map_or(false, |i| self.slices.contains(&i.to_string()))) =>
                    {
                        self.parse_chain(&m.receiver)
                    }
                    "iter" | "par_iter" if m.args.is_empty() => {
                        let s = self.t_expr(&m.receiver);
                        let ms = self.map_like(&s);
                        if ms {
                            return Some(Chain { src: Src::Opaque(format!("{s}.vx_iter()")), ads: vec![] });
                        }
                        Some(Chain { src: Src::Slice(format!("&{s}"), false), ads: vec![] })
                    }
                    "iter_mut" if m.args.is_empty() => {
                        let s = self.t_expr(&m.receiver);
                        Some(Chain { src: Src::Slice(format!("&mut {s}"), true), ads: vec![] })
                    }
                    "as_slice" if m.args.is_empty() => None,
                    "chain" => {
                        let o = self.t_expr(e);
                        Some(Chain { src: Src::Opaque(o), ads: vec![] })
                    }
                    n if ADAPTERS.contains(&n) => {
                        let mut c = self.parse_chain(&m.receiver)?;
                        let ad = match n {
                            "map" => {
                                let (cl, ps) = closure(m.args.first()?)?;
                                let ty = if let ReturnType::Type(_, t) = &cl.output { Some((**t).clone()) } else { None };
                                Ad::Map((*ps.first()?).clone(), (*cl.body).clone(), ty)
                            }
                            "filter" => {
                                let (cl, ps) = closure(m.args.first()?)?;
                                Ad::Filter((*ps.first()?).clone(), (*cl.body).clone())
                            }
                            "flat_map" => {
                                let (cl, ps) = closure(m.args.first()?)?;
                                Ad::FlatMap((*ps.first()?).clone(), (*cl.body).clone())
                            }
                            "enumerate" => Ad::Enumerate,
                            "rev" => Ad::Rev,
                            "copied" => Ad::Copied,
                            "cloned" => Ad::Cloned,
                            "zip" => Ad::Zip(m.args.first()?.clone()),
                            "skip" => Ad::Skip(self.t_expr(m.args.first()?)),
                            "take" => Ad::Take(self.t_expr(m.args.first()?)),
                            _ => return None,
                        };
                        c.ads.push(ad);
                        Some(c)
                    }
                    n if self.opt_source(n) => {
                        let s = self.t_expr(strip_paren(e));
                        Some(Chain { src: Src::Opaque(s), ads: vec![] })
                    }
                    _ => None,
                }
            }
            _ => None,
        }
    }
    /// one side of A.chain(B) as a VecIter: a mapped side is collected first, so its closure must have no effects
    fn side(&mut self, e: &Expr) -> String {
        let k = self.next_loop();
        match self.parse_chain(e) {
            Some(ch) if !ch.ads.is_empty() => {
                for a in &ch.ads {
                    match a {
                        Ad::Map(_, b, _) | Ad::Filter(_, b) => {
                            if !effect_free(b) {
                                self.errors.push("chain() of a mapped iterator whose closure may have effects".into());
                            }
                        }
                        Ad::Copied | Ad::Cloned | Ad::Rev | Ad::Enumerate => {}
                        _ => self.errors.push("chain() of this iterator is not supported".into()),
                    }
                }
                if let Src::Opaque(_) = ch.src {
                    self.errors.push("chain() of this iterator is not supported".into());
                }
                let (bs, be) = (self.g(&self.c.body_start, k), self.g(&self.c.body_end, k));
                let c = format!("__c{k}");
                let ty = self.c.opts.iter().find_map(|o| o.strip_prefix(&format!("ctype{k}:"))).map(|t| format!(": {t}")).unwrap_or_default();
                let out = self.loop_over(k, ch, "", &format!("let mut {c}{ty} = Vec::new();"), &mut |_tx, cur| format!("{bs} {c}.push({cur}); {be}"));
                self.skeleton.push(')');
                let out = out.trim_end().strip_suffix('}').unwrap().to_string();
                format!("{out} {c}.vx_into_iter() }}")
            }
            ch => {
                self.loops -= 1;
                self.skeleton.pop();
                match ch {
                    Some(Chain { src: Src::Slice(s, false), .. }) => format!("vx_slice_iter({s})"),
                    Some(Chain { src: Src::Opaque(s), .. }) => s,
                    _ => {
                        self.errors.push("chain() of this iterator is not supported".into());
                        String::new()
                    }
                }
            }
        }
    }
    /// a closure whose body becomes part of this function must not leave it
    fn leaves(&mut self, b: &Expr, question_ok: bool) {
        let mut h = HasRet(false);
        let mut q = HasTry(false);
        h.visit_expr(b);
        q.visit_expr(b);
        if q.0 && !question_ok || h.0 {
            self.errors.push("a closure with return or ? is not supported here".into());
        }
    }
    /// receivers declared as maps in the contract file (`@opt map:NAME`)
    fn map_like(&self, s: &str) -> bool {
        let last = s.rsplit(|c: char| !(c.is_alphanumeric() || c == '_')).next().unwrap_or("");
        self.c.opts.contains(&format!("map:{last}"))
    }

    fn for_loop(&mut self, f: &ExprForLoop) -> String {
        let k = self.next_loop();
        let ch = match self.parse_chain(&f.expr) {
            Some(c) => c,
            None => {
                let s = self.t_expr(&f.expr);
                Chain { src: Src::Opaque(format!("({s}).vx_into_iter()")), ads: vec![] }
            }
        };
        let label = self.label(&f.label);
        let pat = (*f.pat).clone();
        let s = self.loop_over(k, ch, &label, "", &mut |tx, cur| {
            let l = tx.bind(&pat, cur);
            let b = tx.t_loop(k, &f.body);
            format!("{l} {}\n{b}\n{}", tx.g(&tx.c.body_start, k), tx.g(&tx.c.body_end, k))
        });
        self.skeleton.push(')');
        s
    }
    /// `let PAT = EXPR;`, with `&x` patterns met by dropping the reference
    fn bind(&mut self, p: &Pat, cur: &str) -> String {
        let p = strip_pat(p);
        if let Pat::Reference(r) = p {
            if let Some(rest) = cur.strip_prefix('&') {
                let inner = strip_pat(&r.pat).clone();
                return self.bind(&inner, rest.trim());
            }
            let inner = strip_pat(&r.pat).clone();
            return self.bind(&inner, &format!("*{cur}"));
        }
        if let Pat::Tuple(t) = p {
            // (i, &x) against (a, b): component by component
            if cur.starts_with('(') && cur.ends_with(')') {
                if let Ok(Expr::Tuple(te)) = parse_str::<Expr>(cur) {
                    if te.elems.len() == t.elems.len() {
                        let mut parts = vec![];
                        let mut depth = 0;
                        let mut last = 1;
                        let b = cur.as_bytes();
                        for i in 1..b.len() - 1 {
                            match b[i] {
                                b'(' | b'[' | b'{' => depth += 1,
                                b')' | b']' | b'}' => depth -= 1,
                                b',' if depth == 0 => {
                                    parts.push(cur[last..i].trim().to_string());
                                    last = i + 1;
                                }
                                _ => {}
                            }
                        }
                        parts.push(cur[last..cur.len() - 1].trim().to_string());
                        if parts.len() == t.elems.len() {
                            return t.elems.iter().zip(parts).map(|(p, c)| self.bind(p, &c)).collect::<Vec<_>>().join(" ");
                        }
                    }
                }
            }
        }
        if matches!(p, Pat::Wild(_)) {
            return format!("let _ = {cur};");
        }
        let t = self.t_pat(p);
        format!("let {t} = {cur};")
    }

    fn loop_over(&mut self, k: usize, ch: Chain, label: &str, pre: &str, body: &mut dyn FnMut(&mut Tx<'a>, &str) -> String) -> String {
        let mut setup = String::new();
        let mut cond: Vec<String> = vec![];
        let mut adv = String::new();
        let mut lets = String::new();
        let mut post = String::new();
        let i = format!("__i{k}");
        let s = format!("__s{k}");
        let mut dec = String::new();
        let opaque;
        let mut cur;
        let mut rev = false;
        let mut ads = ch.ads.into_iter().peekable();
        match &ch.src {
            Src::Range(lo, hi, incl) => {
                opaque = false;
                if matches!(ads.peek(), Some(Ad::Rev)) {
                    ads.next();
                    rev = true;
                }
                let n = format!("__n{k}");
                if rev {
                    let hi = if *incl { format!("{hi} + 1") } else { hi.clone() };
                    setup = format!("let {n} = {lo}; let mut {i} = {hi};");
                    cond.push(format!("{i} > {n}"));
                    adv = format!("{i} = {i} - 1;");
                    dec = format!("{i} - {n}");
                    cur = i.clone();
                } else if *incl {
                    // the counter may pass the largest value of its type: a flag ends the loop
                    let d = format!("__d{k}");
                    setup = format!("let mut {i} = {lo}; let {n} = {hi}; let mut {d} = {i} > {n};");
                    cond.push(format!("!{d}"));
                    lets = format!("let __v{k} = {i}; if {i} == {n} {{ {d} = true; }} else {{ {i} = {i} + 1; }}");
                    dec = format!("(if {d} {{ 0 }} else {{ {n} - {i} + 1 }})");
                    cur = format!("__v{k}");
                } else {
                    setup = format!("let mut {i} = {lo}; let {n} = {hi};");
                    cond.push(format!("{i} < {n}"));
                    lets = format!("let __v{k} = {i}; {i} = {i} + 1;");
                    dec = format!("{n} - {i}");
                    cur = format!("__v{k}");
                }
                if rev {
                    lets = std::mem::take(&mut adv) + &format!("let __v{k} = {i};");
                    cur = format!("__v{k}");
                }
            }
            Src::Slice(e, mutable) => {
                opaque = false;
                // rev directly on the slice, possibly after enumerate (not supported)
                if matches!(ads.peek(), Some(Ad::Rev)) {
                    ads.next();
                    rev = true;
                }
                let amp = if *mutable { "&mut " } else { "&" };
                let base = e.strip_prefix("&mut ").or(e.strip_prefix("&")).unwrap().trim().to_string();
                let simple = base.chars().all(|c| c.is_alphanumeric() || c == '_' || c == '.') && *mutable;
                let s2 = if simple { base.clone() } else { s.clone() };
                if !simple {
                    setup = format!("let {s} = {amp}{base};");
                }
                if rev {
                    setup += &format!("let mut {i}: usize = {s2}.len();");
                    cond.push(format!("{i} > 0"));
                    lets = format!("{i} = {i} - 1; let __v{k} = {i};");
                    dec = i.clone();
                } else {
                    setup += &format!("let mut {i}: usize = 0;");
                    cond.push(format!("{i} < {s2}.len()"));
                    lets = format!("let __v{k} = {i}; {i} = {i} + 1;");
                    dec = format!("{s2}.len() - {i}");
                }
                cur = format!("{amp}{s2}[__v{k}]");
            }
            Src::Opaque(e) => {
                opaque = true;
                setup = format!("let mut __it{k} = {e};");
                cur = format!("__x{k}");
            }
        }
        let mut nz = 0;
        let mut inner = None;
        while let Some(a) = ads.next() {
            match a {
                Ad::FlatMap(p, b) => {
                    self.leaves(&b, false);
                    let k2 = self.next_loop();
                    let l = self.bind(&p, &cur);
                    let mut ch2 = match self.parse_chain(&b) {
                        Some(c) => c,
                        None => {
                            let s = self.t_expr(&b);
                            Chain { src: Src::Opaque(format!("({s}).vx_into_iter()")), ads: vec![] }
                        }
                    };
                    ch2.ads.extend(ads.by_ref());
                    let s = self.loop_over(k2, ch2, "", "", &mut *body);
                    self.skeleton.push(')');
                    // leaving the loop early would leave the inner one only
                    if s.contains("{ break; }") && s.matches("break;").count() > s.matches("None => { break; }").count() {
                        self.errors.push("this use of flat_map() is not supported".into());
                    }
                    inner = Some(format!("{l} {s}"));
                }
                Ad::Map(p, b, ty) => {
                    self.leaves(&b, self.in_try);
                    let ty = ty.map(|t| format!(": {}", self.t_type(&t))).unwrap_or_default();
                    let l = self.bind(&p, &cur);
                    let b = match &b {
                        Expr::Block(bl) => format!("{{ {} }}", self.t_inner(&bl.block)),
                        b => self.t_expr(b),
                    };
                    self.uid += 1;
                    let m = format!("__m{}", self.uid);
                    lets += &format!("let {m}{ty} = {{ {l} {b} }};");
                    cur = m;
                }
                Ad::Filter(p, b) => {
                    self.leaves(&b, false);
                    self.uid += 1;
                    let m = format!("__m{}", self.uid);
                    lets += &format!("let {m} = {cur};");
                    cur = m;
                    let l = self.bind(&p, &format!("&{cur}"));
                    let b = self.t_expr(&b);
                    lets += &format!("{} if !({{ {l} {b} }}) {{ continue; }}", self.g(&self.c.filter, k));
                }
                Ad::Enumerate => {
                    if lets.contains("continue;") || opaque {
                        self.uid += 1;
                        let m = format!("__e{}", self.uid);
                        setup += &format!("let mut {m}: usize = 0;");
                        lets += &format!("let __m{m} = {m}; {m} = {m} + 1;");
                        cur = format!("(__m{m}, {cur})");
                    } else if rev {
                        self.errors.push("rev().enumerate() is not supported".into());
                    } else if let Src::Range(..) = ch.src {
                        self.errors.push("range.enumerate() is not supported".into());
                    } else {
                        cur = format!("(__v{k}, {cur})");
                    }
                }
                Ad::Rev => self.errors.push("rev() after other adapters is not supported".into()),
                Ad::Copied => {
                    cur = match cur.strip_prefix('&') {
                        Some(c) if !c.starts_with("mut ") => c.to_string(),
                        _ => format!("*{cur}"),
                    }
                }
                Ad::Cloned => {
                    cur = format!("({cur}).vx_clone()");
                }
                Ad::Zip(e) => {
                    nz += 1;
                    let z = format!("__z{k}_{nz}");
                    let j = format!("__v{k}");
                    let (setup2, by) = match strip_paren(&e) {
                        Expr::MethodCall(m) if m.method == "iter" => {
                            let t = self.t_expr(&m.receiver);
                            (format!("let {z} = &{t};"), "&")
                        }
                        Expr::Reference(r) => {
                            let t = self.t_expr(&r.expr);
                            (format!("let {z} = &{t};"), "&")
                        }
                        Expr::MethodCall(_) => {
                            let t = self.t_expr(&e);
                            (format!("let {z} = {t};"), "&")
                        }
                        _ => {
                            let t = self.t_expr(&e);
                            (format!("let {z} = {t};"), "")
                        }
                    };
                    if opaque {
                        // both sides are iterators: stop when either ends
                        let t = self.t_expr(&e);
                        setup += &format!("let mut {z} = ({t}).vx_into_iter();");
                        let m = format!("{z}_y");
                        lets += &format!("let {m} = match {z}.next() {{ Some(__y) => __y, None => {{ break; }} }};");
                        cur = format!("({cur}, {m})");
                        continue;
                    }
                    setup += &setup2;
                    cond.push(format!("{i} < {z}.len()"));
                    cur = format!("({cur}, {by}{z}[{j}])");
                }
                Ad::Skip(_) => self.errors.push("skip() is not supported".into()),
                Ad::Take(n) => {
                    if opaque || lets.contains("continue;") || rev {
                        self.errors.push("take() on this source is not supported".into());
                    }
                    setup += &format!("let __t{k} = {n};");
                    cond.push(format!("{i} < __t{k}"));
                }
            }
        }
        let b = match inner {
            Some(b) => b,
            None => body(self, &cur),
        };
        post += "";
        if opaque {
            let inv = self.inv(k, &format!("__it{k}.vx_left()"));
            let s = format!(
                "{{ {setup} {pre} {}\n{label}loop {inv} {{ let __x{k} = match __it{k}.next() {{ Some(__y) => __y, None => {{ break; }} }}; {lets} {b} }}\n{} }}",
                self.g(&self.c.before, k),
                self.g(&self.c.after, k)
            );
            return s;
        }
        let inv = self.inv(k, &dec);
        format!(
            "{{ {setup} {pre} {}\n{label}while {} {inv} {{ {lets} {b} }}{post}\n{} }}",
            self.g(&self.c.before, k),
            cond.join(" && "),
            self.g(&self.c.after, k)
        )
    }

    /// iterator chains with a consuming method
    fn consumer(&mut self, m: &ExprMethodCall) -> Option<String> {
        let name = m.method.to_string();
        if !CONSUMERS.contains(&name.as_str()) {
            return None;
        }
        if !self.has_source(&m.receiver) {
            return None;
        }
        // a bare collect() of an opaque source is a shim call
        let k = self.next_loop();
        // a search where the contract was written for another kind of loop: its own invariants
        if name == "any" && self.c.loops.contains_key(&(1000 + k)) {
            self.variant.insert(k, 1000 + k);
        }
        let ch = match self.parse_chain(&m.receiver) {
            Some(c) => c,
            None => {
                self.loops -= 1;
                self.skeleton.pop();
                return None;
            }
        };
        let bs = self.g(&self.c.body_start, k);
        let be = self.g(&self.c.body_end, k);
        let c = format!("__c{k}");
        let kind = self.c.opts.iter().find_map(|o| o.strip_prefix(&format!("collect{k}:")).map(|s| s.to_string()));
        let out = match name.as_str() {
            "collect" => {
                let tf = m.turbofish.as_ref().map(|t| {
                    let (a, b) = range(t);
                    norm(&self.src[a..b])
                });
                let mut ty = String::new();
                if let Some(t) = &tf {
                    let inner = t.trim_start_matches("::<").strip_suffix('>').unwrap_or("").to_string();
                    if inner.starts_with("Vec<") && !inner.contains("Vec<_>") {
                        ty = format!(": {inner}");
                    }
                }
                if let Some(t) = self.c.opts.iter().find_map(|o| o.strip_prefix(&format!("ctype{k}:"))) {
                    ty = format!(": {t}");
                }
                let kind = kind.unwrap_or_else(|| {
                    if tf.as_deref().map_or(false, |t| t.contains("Result<()")) {
                        "unit".into()
                    } else if tf.as_deref().map_or(false, |t| t.contains("Result<")) {
                        "try".into()
                    } else {
                        "vec".into()
                    }
                });
                match kind.as_str() {
                    "unit" => self.loop_over(k, ch, "", &format!("let {c} = (); let mut __r{k} = None;"), &mut |_tx, cur| {
                        format!("{bs} match {cur} {{ Ok(_) => {{}} Err(__e) => {{ __r{k} = Some(__e); break; }} }} {be}")
                    }),
                    "try" => self.loop_over(k, ch, "", &format!("let mut {c} = Vec::new(); let mut __r{k} = None;"), &mut |_tx, cur| {
                        format!("{bs} match {cur} {{ Ok(__y) => {{ {c}.push(__y); }} Err(__e) => {{ __r{k} = Some(__e); break; }} }} {be}")
                    }),
                    _ => self.loop_over(k, ch, "", &format!("let mut {c}{ty} = Vec::new();"), &mut |_tx, cur| format!("{bs} {c}.push({cur}); {be}")),
                }
            }
            "for_each" => {
                let (cl, ps) = closure(m.args.first()?)?;
                let p = (*ps.first()?).clone();
                let body = (*cl.body).clone();
                self.leaves(&body, false);
                self.loop_over(k, ch, "", "", &mut |tx, cur| {
                    let l = tx.bind(&p, cur);
                    let b = tx.body_of(&body);
                    format!("{l} {bs} {b} {be}")
                })
            }
            "fold" => {
                let init = self.t_expr(m.args.first()?);
                let (cl, ps) = closure(m.args.iter().nth(1)?)?;
                let (p0, p1) = ((*ps.first()?).clone(), (*ps.get(1)?).clone());
                let body = (*cl.body).clone();
                self.leaves(&body, false);
                self.loop_over(k, ch, "", &format!("let mut {c} = {init};"), &mut |tx, cur| {
                    let l1 = tx.bind(&p1, cur);
                    let l0 = tx.bind(&p0, &c);
                    let b = tx.t_expr(&body);
                    format!("{bs} {c} = {{ {l1} {l0} {b} }}; {be}")
                })
            }
            "position" | "any" | "all" | "find" => {
                let (cl, ps) = closure(m.args.first()?)?;
                let p = (*ps.first()?).clone();
                let body = (*cl.body).clone();
                self.leaves(&body, false);
                let init = match name.as_str() {
                    "any" => "false",
                    "all" => "true",
                    _ => "None",
                };
                let ty = if name == "position" { ": Option<usize>" } else { "" };
                self.loop_over(k, ch, "", &format!("let mut {c}{ty} = {init};"), &mut |tx, cur| {
                    let nm = name.as_str();
                    tx.uid += 1;
                    let f = format!("__f{}", tx.uid);
                    let l = if nm == "find" { format!("let {f} = {cur}; {}", tx.bind(&p, &format!("&{f}"))) } else { tx.bind(&p, cur) };
                    let b = tx.t_expr(&body);
                    let hit = match nm {
                        "position" => format!("{c} = Some(__v{k}); break;"),
                        "any" => format!("{c} = true; break;"),
                        "all" => format!("{c} = false; break;"),
                        _ => format!("{c} = Some({f}); break;"),
                    };
                    let not = if nm == "all" { "!" } else { "" };
                    format!("{l} {bs} if {not}({b}) {{ {hit} }} {be}")
                })
            }
            "sum" => {
                let f = m.turbofish.as_ref().map_or(true, |t| {
                    let (a, b) = range(t);
                    self.src[a..b].contains("f64")
                });
                if self.c.opts.contains("sum:any") {
                    return Some(self.sum_any(k, ch, &bs, &be));
                }
                let zero = if self.c.opts.contains(&format!("sum{k}:usize")) || !f { "0usize" } else { "vx_neg_zero()" };
                self.loop_over(k, ch, "", &format!("let mut {c} = {zero};"), &mut |_tx, cur| {
                    // adding a reference adds its value
                    let cur = cur.strip_prefix('&').filter(|c| !c.starts_with("mut ")).unwrap_or(cur);
                    format!("{bs} {c} = {c} + {cur}; {be}")
                })
            }
            "count" => self.loop_over(k, ch, "", &format!("let mut {c}: usize = 0;"), &mut |_tx, cur| format!("let _ = {cur}; {bs} {c} = {c} + 1; {be}")),
            _ => return None,
        };
        self.skeleton.push(')');
        let out = out.trim_end().to_string();
        let out = out.strip_suffix('}').unwrap().to_string();
        let val = match name.as_str() {
            "for_each" => String::new(),
            "collect" if out.contains(&format!("__r{k} = None;")) => format!("match __r{k} {{ Some(__e) => Err(__e), None => Ok({c}) }}"),
            _ => c.clone(),
        };
        Some(format!("{out} {val} }}"))
    }
    /// a sum of integers that may overflow (and then panics or wraps): its value is left open
    fn sum_any(&mut self, k: usize, ch: Chain, bs: &str, be: &str) -> String {
        let c = format!("__c{k}");
        let out = self.loop_over(k, ch, "", &format!("let mut {c} = 0usize;"), &mut |_tx, cur| {
            let cur = cur.strip_prefix('&').filter(|c| !c.starts_with("mut ")).unwrap_or(cur);
            format!("{bs} {c} = vx_add_any({c}, {cur}); {be}")
        });
        self.skeleton.push(')');
        let out = out.trim_end().strip_suffix('}').unwrap().to_string();
        format!("{out} {c} }}")
    }
    fn has_source(&self, e: &Expr) -> bool {
        match strip_paren(e) {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if self.opt_source(&n) {
                    return true;
                }
                ADAPTERS.contains(&n.as_str()) && self.has_source(&m.receiver)
            }
            Expr::Range(_) => true,
            _ => false,
        }
    }
    fn opt_source(&self, n: &str) -> bool {
        SOURCES.contains(&n) || self.c.opts.contains(&format!("source:{n}"))
    }

    // ------------------------------------------------------------------ expressions
    pub fn expr(&mut self, e: &Expr) -> Option<String> {
        match e {
            Expr::ForLoop(f) => Some(self.for_loop(f)),
            Expr::While(w) => Some(self.while_loop(w)),
            Expr::Loop(w) => Some(self.plain_loop(w)),
            Expr::Continue(c) => {
                let k = *self.around.last()?;
                *self.conts.entry(k).or_insert(0) += 1;
                if c.label.is_some() || !self.no_cont.contains(&k) {
                    return None;
                }
                let be = self.g(&self.c.body_end, k);
                if be.is_empty() {
                    return None;
                }
                Some(format!("{{ {be} continue; }}"))
            }
            Expr::Macro(m) => Some(self.mac(&m.mac)),
            Expr::MethodCall(m) => self.method(m),
            Expr::Call(c) => self.call(c),
            Expr::Cast(c) => self.cast(c),
            Expr::Unary(u) => self.unary(u),
            Expr::Match(m) => self.match_text(m),
            Expr::Binary(b) if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && (is_text(&b.left) || is_text(&b.right) || self.c.opts.contains("streq")) => {
                let (l, r) = (self.t_expr(&b.left), self.t_expr(&b.right));
                let not = if matches!(b.op, BinOp::Ne(_)) { "!" } else { "" };
                Some(format!("({not}vx_text_eq(&({l}), &({r})))"))
            }
            // the verifier has no compound assignment for floats
            Expr::Binary(b) if self.c.opts.contains("fassign") => {
                let op = match b.op {
                    BinOp::AddAssign(_) => "+",
                    BinOp::SubAssign(_) => "-",
                    BinOp::MulAssign(_) => "*",
                    BinOp::DivAssign(_) => "/",
                    _ => return None,
                };
                if !pure_place(&b.left) {
                    return None;
                }
                let (l, r) = (self.t_expr(&b.left), self.t_expr(&b.right));
                Some(format!("{l} = {l} {op} ({r})"))
            }
            Expr::Try(t) if matches!(strip_paren(&t.expr), Expr::Call(_)) || matches!(strip_paren(&t.expr), Expr::MethodCall(m) if m.method != "collect" && matches!(strip_paren(&m.receiver), Expr::Path(p) if p.path.is_ident("self"))) => {
                let n = self.inlined.len();
                let u = self.unknown.clone();
                let s = match strip_paren(&t.expr) {
                    Expr::Call(c) => {
                        self.inline_try = true;
                        let s = self.call(c);
                        self.inline_try = false;
                        s
                    }
                    Expr::MethodCall(m) => {
                        self.inline_try = true;
                        let s = self.inline_method(m);
                        self.inline_try = false;
                        s
                    }
                    _ => None,
                };
                match s {
                    Some(s) if self.inlined.len() > n && self.last_tried => Some(s),
                    Some(s) => Some(format!("({s})?")),
                    None => {
                        self.unknown = u;
                        None
                    }
                }
            }
            Expr::Try(t) => {
                if let Expr::MethodCall(m) = strip_paren(&t.expr) {
                    if m.method == "collect" && self.stack.len() <= 1 {
                        let old = std::mem::replace(&mut self.in_try, true);
                        let s = self.t_expr(&t.expr);
                        self.in_try = old;
                        return Some(format!("({s})?"));
                    }
                }
                None
            }
            _ => None,
        }
    }
    /// a match on string literals: a chain of comparisons
    fn match_text(&mut self, m: &ExprMatch) -> Option<String> {
        fn lits(p: &Pat, out: &mut Vec<String>) -> bool {
            match strip_pat(p) {
                Pat::Lit(ExprLit { lit: Lit::Str(s), .. }) => {
                    out.push(s.value());
                    true
                }
                Pat::Or(o) => o.cases.iter().all(|c| lits(c, out)),
                _ => false,
            }
        }
        if !m.arms.iter().any(|a| lits(&a.pat, &mut vec![])) {
            return None;
        }
        self.uid += 1;
        let n = format!("__k{}", self.uid);
        let e = self.t_expr(&m.expr);
        let mut out = String::new();
        let mut all = vec![];
        for a in &m.arms {
            let mut ls = vec![];
            let c = if lits(&a.pat, &mut ls) {
                Some(ls.iter().map(|l| format!("vx_text_eq(&{n}, {l:?})")).collect::<Vec<_>>().join(" || "))
            } else {
                None
            };
            all.extend(ls);
            let bind = match strip_pat(&a.pat) {
                Pat::Ident(i) => format!("let {} = {n};", i.ident),
                _ => String::new(),
            };
            let b = self.t_expr(&a.body);
            match (c, &a.guard) {
                (Some(c), None) => out += &format!("if {c} {{ {b} }} else "),
                (None, None) => {
                    out += &format!("{{ {bind} {b} }}");
                    break;
                }
                _ => {
                    self.errors.push("a match on text with a guard".into());
                    return None;
                }
            }
        }
        let rv: String = all.iter().map(|l| format!("reveal_strlit({l:?}); ")).collect();
        Some(format!("{{ let {n} = {e}; proof {{ {rv} }} {out} }}"))
    }
    fn unary(&mut self, u: &ExprUnary) -> Option<String> {
        if let UnOp::Neg(_) = u.op {
            if let Expr::Lit(l) = strip_paren(&u.expr) {
                if let Lit::Float(f) = &l.lit {
                    return Some(format!("vx_neg({})", f));
                }
            }
        }
        None
    }
    fn looks_float(&self, e: &Expr) -> bool {
        struct V(bool);
        impl<'ast> Visit<'ast> for V {
            fn visit_expr_cast(&mut self, c: &'ast ExprCast) {
                if let Type::Path(p) = &*c.ty {
                    if p.path.is_ident("f64") {
                        self.0 = true;
                    }
                }
                visit::visit_expr_cast(self, c);
            }
            fn visit_lit_float(&mut self, _: &'ast LitFloat) {
                self.0 = true;
            }
        }
        let mut v = V(false);
        v.visit_expr(e);
        v.0
    }
    fn cast(&mut self, c: &ExprCast) -> Option<String> {
        if let Type::Path(p) = &*c.ty {
            if p.path.is_ident("f64") {
                let t = self.t_expr(&c.expr);
                return Some(format!("vx_f64({t})"));
            }
            if p.path.is_ident("usize") && self.looks_float(&c.expr) {
                let t = self.t_expr(&c.expr);
                return Some(format!("vx_f64_to_usize({t})"));
            }
        }
        None
    }
    fn args(&mut self, a: &punctuated::Punctuated<Expr, Token![,]>) -> Vec<String> {
        a.iter().map(|x| self.t_expr(x)).collect()
    }
    fn method(&mut self, m: &ExprMethodCall) -> Option<String> {
        let name = m.method.to_string();
        if let Some(s) = self.inline_method(m) {
            return Some(s);
        }
        self.calls.insert(name.clone());
        if let Some(s) = self.consumer(m) {
            return Some(s);
        }
        // lock.write().unwrap(): a reference to the value
        if (name == "unwrap" || name == "expect") && self.c.opts.contains("locks") {
            if let Expr::MethodCall(i) = strip_paren(&m.receiver) {
                if i.args.is_empty() {
                    let pre = match i.method.to_string().as_str() {
                        "write" | "lock" => Some("&mut "),
                        "read" => Some("&"),
                        "into_inner" => Some(""),
                        _ => None,
                    };
                    if let Some(p) = pre {
                        let r = self.t_expr(&i.receiver);
                        return Some(if p.is_empty() { r } else { format!("({p}{r})") });
                    }
                }
            }
        }
        // a cell that is only read is its content
        if self.c.opts.contains("cells") {
            if name == "borrow" && m.args.is_empty() {
                return Some(self.t_expr(&m.receiver));
            }
            if ["borrow_mut", "replace", "swap", "set", "take", "get_mut"].contains(&name.as_str()) {
                self.errors.push("a cell is written".into());
            }
        }
        // E.iter().copied() as a value: a byte iterator
        if name == "copied" {
            if let Expr::MethodCall(i) = strip_paren(&m.receiver) {
                if i.method == "iter" {
                    let r = self.t_expr(&i.receiver);
                    return Some(format!("vx_byte_iter({r})"));
                }
            }
        }
        if name == "iter" && m.args.is_empty() && !self.map_like("") {
            let r = self.t_expr(&m.receiver);
            return Some(format!("({r}).vx_iter()"));
        }
        let may_panic = self.c.opts.contains("may_panic");
        let cl = m.args.first().and_then(closure);
        for c in m.args.iter().filter_map(closure) {
            self.leaves(&c.0.body.clone(), false);
        }
        match name.as_str() {
            "chain" => {
                let r = self.side(&m.receiver);
                let a = self.side(&m.args[0]);
                return Some(format!("vx_chain({r}, {a})"));
            }
            "or_default" | "or_insert" => {
                if let Expr::MethodCall(en) = strip_paren(&m.receiver) {
                    if en.method == "entry" {
                        let r = self.t_expr(&en.receiver);
                        let mut a = self.args(&en.args);
                        a.extend(self.args(&m.args));
                        return Some(format!("{r}.entry_{name}({})", a.join(", ")));
                    }
                }
            }
            "or_insert_with" => {
                if let Expr::MethodCall(en) = strip_paren(&m.receiver) {
                    if let (true, Some((c, _))) = (en.method == "entry", &cl) {
                        let r = self.t_expr(&en.receiver);
                        let a = self.args(&en.args);
                        let b = self.t_expr(&c.body);
                        return Some(format!("{r}.entry_or_insert({}, {b})", a.join(", ")));
                    }
                    if let (true, Some(Expr::Path(f))) = (en.method == "entry", m.args.first()) {
                        let r = self.t_expr(&en.receiver);
                        let a = self.args(&en.args).join(", ");
                        if f.path.segments.last().is_some_and(|s| s.ident == "default") {
                            return Some(format!("{r}.entry_or_default({a})"));
                        }
                        let b = self.t_expr(&m.args[0]);
                        return Some(format!("{r}.entry_or_insert({a}, {b}())"));
                    }
                }
            }
            "ok_or_else" => {
                if let Some((c, _)) = cl {
                    let r = self.t_expr(&m.receiver);
                    let b = self.t_expr(&c.body);
                    return Some(format!("(match {r} {{ Some(__x) => Ok(__x), None => Err({b}) }})"));
                }
            }
            "ok_or" => {
                let r = self.t_expr(&m.receiver);
                let b = self.t_expr(&m.args[0]);
                return Some(format!("(match {r} {{ Some(__x) => Ok(__x), None => Err({b}) }})"));
            }
            "map_err" => {
                let r = self.t_expr(&m.receiver);
                if let Some((c, ps)) = cl {
                    let p = self.t_pat(ps[0]);
                    let b = self.t_expr(&c.body);
                    return Some(format!("(match {r} {{ Ok(__x) => Ok(__x), Err({p}) => Err({b}) }})"));
                }
                let f = self.t_expr(&m.args[0]);
                return Some(format!("(match {r} {{ Ok(__x) => Ok(__x), Err(__e) => Err({f}(__e)) }})"));
            }
            "unwrap_or_else" => {
                if let Some((c, ps)) = cl {
                    let r = self.t_expr(&m.receiver);
                    let b = self.t_expr(&c.body);
                    if ps.is_empty() {
                        return Some(format!("(match {r} {{ Some(__x) => __x, None => {b} }})"));
                    }
                    let p = self.t_pat(ps[0]);
                    return Some(format!("(match {r} {{ Ok(__x) => __x, Err({p}) => {b} }})"));
                }
            }
            "unwrap_or" => {
                let r = self.t_expr(&m.receiver);
                let b = self.t_expr(&m.args[0]);
                if self.c.opts.contains("eager") {
                    return Some(format!("vx_or({r}, {b})"));
                }
                return Some(format!("(match {r} {{ Some(__x) => __x, None => {b} }})"));
            }
            "or_else" => {
                if let Some((c, ps)) = cl {
                    if ps.is_empty() {
                        let r = self.t_expr(&m.receiver);
                        let b = self.t_expr(&c.body);
                        return Some(format!("(match {r} {{ Some(__x) => Some(__x), None => {b} }})"));
                    }
                }
            }
            "map_or" => {
                let d = self.t_expr(&m.args[0]);
                if let Some((c, ps)) = m.args.iter().nth(1).and_then(closure) {
                    let r = self.t_expr(&m.receiver);
                    let p = self.t_pat(ps[0]);
                    let b = self.t_expr(&c.body);
                    return Some(format!("(match {r} {{ Some({p}) => {b}, None => {d} }})"));
                }
            }
            "and_then" => {
                if let Some((c, ps)) = cl {
                    let r = self.t_expr(&m.receiver);
                    let p = self.t_pat(ps[0]);
                    let b = self.t_expr(&c.body);
                    return Some(format!("(match {r} {{ Some({p}) => {b}, None => None }})"));
                }
            }
            "map" if !self.has_source(&m.receiver) => {
                if let Some((c, ps)) = cl {
                    let r = self.t_expr(&m.receiver);
                    let p = self.t_pat(ps[0]);
                    let b = self.t_expr(&c.body);
                    return Some(format!("(match {r} {{ Some({p}) => Some({b}), None => None }})"));
                }
            }
            "unwrap" if may_panic => {
                let r = self.t_expr(&m.receiver);
                return Some(format!("{r}.vx_unwrap()"));
            }
            "expect" => {
                let r = self.t_expr(&m.receiver);
                return Some(format!("{r}.{}()", if may_panic { "vx_unwrap" } else { "unwrap" }));
            }
            "sort_by" | "sort_unstable_by" | "sort_by_key" | "sort_unstable_by_key" => {
                if let Some((c, ps)) = cl {
                    self.sorts += 1;
                    let k = self.sorts;
                    let r = self.t_expr(&m.receiver);
                    // one form for all: a comparison of __p0 with __p1
                    let mut binds = |tx: &mut Self, to: &[&str]| {
                        let mut lets = String::new();
                        for (p, n) in ps.iter().zip(to) {
                            let t = tx.t_pat(p);
                            lets += &format!("let {t} = {n};");
                        }
                        lets
                    };
                    let b = if name.ends_with("key") {
                        let l0 = binds(self, &["__p0"]);
                        let l1 = binds(self, &["__p1"]);
                        let b = self.body_of(&c.body);
                        format!("let __k0 = {{ {l0} {b} }}; let __k1 = {{ {l1} {b} }}; __k0.vx_cmp(&__k1)")
                    } else {
                        let l = binds(self, &["__p0", "__p1"]);
                        let b = self.body_of(&c.body);
                        format!("{l} {b}")
                    };
                    let ann = self.g(&self.c.sort, k);
                    let (bf, af) = (self.g(&self.c.before_sort, k), self.g(&self.c.after_sort, k));
                    return Some(format!("{{ {bf} {r}.vx_sort_by(|__p0, __p1| {ann} {{ {b} }}); {af} }}"));
                }
            }
            "drain" if m.args.len() == 1 => {
                if let Expr::Range(ExprRange { start: None, end: None, .. }) = &m.args[0] {
                    let r = self.t_expr(&m.receiver);
                    return Some(format!("{r}.vx_drain_all()"));
                }
            }
            // slice.split(|x| p): the predicate is evaluated on every element, then the slice is cut there
            "split" if cl.is_some() && m.args.len() == 1 => {
                if let Some((c, ps)) = cl {
                    if ps.len() == 1 {
                        if !effect_free(&c.body) {
                            self.errors.push("split() by a closure that may have effects".into());
                        }
                        let k = self.next_loop();
                        let r = self.t_expr(&m.receiver);
                        let (p, b) = (ps[0].clone(), (*c.body).clone());
                        let (bs, be) = (self.g(&self.c.body_start, k), self.g(&self.c.body_end, k));
                        let v = format!("__c{k}");
                        let ch = Chain { src: Src::Slice(format!("&{r}"), false), ads: vec![] };
                        let out = self.loop_over(k, ch, "", &format!("let mut {v}: Vec<bool> = Vec::new();"), &mut |tx, cur| {
                            let l = tx.bind(&p, cur);
                            let b = tx.t_expr(&b);
                            format!("{bs} {v}.push({{ {l} {b} }}); {be}")
                        });
                        self.skeleton.push(')');
                        let out = out.trim_end().strip_suffix('}').unwrap().to_string();
                        return Some(format!("{out} vx_split_mask(&{r}, &{v}) }}"));
                    }
                }
            }
            // v.resize_with(n, || e): cut, then push until the length is reached
            "resize_with" if m.args.len() == 2 => {
                if let Some((c, ps)) = m.args.iter().nth(1).and_then(closure) {
                    if ps.is_empty() {
                        let k = self.next_loop();
                        let r = self.t_expr(&m.receiver);
                        let n = self.t_expr(&m.args[0]);
                        let b = self.t_expr(&c.body);
                        self.skeleton.push(')');
                        let inv = self.inv(k, &format!("__n{k} - {r}.len()"));
                        let (bs, be) = (self.g(&self.c.body_start, k), self.g(&self.c.body_end, k));
                        let s = format!("let __n{k} = {n}; {r}.truncate(__n{k}); while {r}.len() < __n{k} {inv} {{ {bs} let __y = {b}; {r}.push(__y); {be} }}");
                        return Some(format!("{{ {} }}", self.wrap_loop(k, s)));
                    }
                }
            }
            _ => {}
        }
        let keep = self.c.opts.contains(&format!("keep:{name}"));
        if let (false, Some((_, to))) = (keep, METHODS.iter().find(|(f, _)| *f == name)) {
            let (a, b) = range(m);
            let (x, y) = range(&m.method);
            let to = to.to_string();
            return Some(self.with(a, b, |c| {
                c.visit_expr(&m.receiver);
                c.edits.push((x, y, to));
                if let Some(t) = &m.turbofish {
                    c.visit_angle_bracketed_generic_arguments(t);
                }
                for x in &m.args {
                    c.visit_expr(x);
                }
            }));
        }
        None
    }
    fn call(&mut self, c: &ExprCall) -> Option<String> {
        if let Expr::Path(p) = &*c.func {
            let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            let last = segs.last().unwrap().clone();
            self.calls.insert(last.clone());
            if self.c.opts.contains("locks") && last == "new" && segs.len() >= 2 && ["RwLock", "Mutex"].contains(&segs[segs.len() - 2].as_str()) && c.args.len() == 1 {
                return Some(self.t_expr(&c.args[0]));
            }
            if self.c.opts.contains("cells") && last == "new" && segs.len() >= 2 && ["RefCell", "Cell"].contains(&segs[segs.len() - 2].as_str()) && c.args.len() == 1 {
                return Some(self.t_expr(&c.args[0]));
            }
            if last == "Reverse" && c.args.len() == 1 {
                return Some(format!("crate::shim::Reverse({})", self.t_expr(&c.args[0])));
            }
            // a function pointer held in a variable
            if segs.len() == 1 && c.args.is_empty() && self.c.opts.contains("fnptr") && !self.idx.fns.contains_key(&last) {
                return Some(format!("vx_call0({last})"));
            }
            let owner = if segs.len() == 1 {
                None
            } else if segs[segs.len() - 2] == "Self" {
                Some(self.self_ty.clone())
            } else {
                Some(segs[segs.len() - 2].clone())
            };
            let key = match &owner {
                None => last.clone(),
                Some(o) => format!("{o}::{last}"),
            };
            if let Some(s) = self.inline(&key, None, &c.args.iter().collect::<Vec<_>>()) {
                return Some(s);
            }
        }
        None
    }
    fn inline_method(&mut self, m: &ExprMethodCall) -> Option<String> {
        if let Expr::Path(p) = strip_paren(&m.receiver) {
            if p.path.is_ident("self") {
                let key = format!("{}::{}", self.self_ty, m.method);
                return self.inline(&key, Some(()), &m.args.iter().collect::<Vec<_>>());
            }
        }
        None
    }
    /// a function of the same file without a contract: replaced by its body
    fn inline(&mut self, key: &str, recv: Option<()>, args: &[&Expr]) -> Option<String> {
        if self.contracted.contains(key) || self.opaque.contains(key) {
            return None;
        }
        let f = self.idx.fns.get(key)?.clone();
        let mut hr = HasReturn(false);
        hr.visit_block(&f.block);
        // `f(..)?`: the body without its Ok, leaving it leaves the caller in the same way
        let tried = std::mem::replace(&mut self.inline_try, false) && hr.0 && self.same_err(&f.sig.output) && only_err_returns(&f.block);
        if hr.0 && !tried || self.stack.contains(&key.to_string()) || self.stack.len() > 3 {
            self.unknown.insert(key.to_string());
            return None;
        }
        let mut ins: Vec<&FnArg> = f.sig.inputs.iter().collect();
        if matches!(ins.first(), Some(FnArg::Receiver(_))) {
            if recv.is_none() {
                self.unknown.insert(key.to_string());
                return None;
            }
            ins.remove(0);
        } else if recv.is_some() {
            self.unknown.insert(key.to_string());
            return None;
        }
        if ins.len() != args.len() {
            return None;
        }
        self.inlined.push(key.to_string());
        // all arguments are evaluated before any parameter is bound
        let (mut ps, mut ts, mut es) = (vec![], vec![], vec![]);
        for (p, a) in ins.iter().zip(args) {
            let FnArg::Typed(t) = p else { return None };
            let e = self.t_expr(a);
            let p = self.t_pat(&t.pat);
            if e.trim() == p.trim() {
                continue;
            }
            ts.push(if f.sig.generics.params.is_empty() && !matches!(&*t.ty, Type::ImplTrait(_)) { self.t_type(&t.ty) } else { "_".into() });
            ps.push(p);
            es.push(e);
        }
        let lets = match ps.len() {
            0 => String::new(),
            1 if ts[0] == "_" => format!("let {} = {};", ps[0], es[0]),
            1 => format!("let {}: {} = {};", ps[0], ts[0], es[0]),
            _ => format!("let ({}): ({}) = ({});", ps.join(", "), ts.join(", "), es.join(", ")),
        };
        self.stack.push(key.to_string());
        if tried {
            let n = f.block.stmts.len();
            let Some(Stmt::Expr(tail, None)) = f.block.stmts.last() else { return None };
            let (x, _) = (range(&f.block.brace_token.span.open()).1, 0);
            let (p, _) = range(tail);
            let first = self.with(x, p, |c| {
                for s in &f.block.stmts[..n - 1] {
                    c.visit_stmt(s)
                }
            });
            let tail = match ok_arg(tail) {
                Some(e) => self.t_expr(e),
                None => format!("({})?", self.t_expr(tail)),
            };
            self.stack.pop();
            self.last_tried = true;
            return Some(format!("{{ {lets} {first} {tail} }}"));
        }
        let b = self.t_inner(&f.block);
        self.stack.pop();
        self.last_tried = false;
        Some(format!("{{ {lets} {b} }}"))
    }
    /// the result type of the inlined function has this function's error type
    fn same_err(&self, o: &ReturnType) -> bool {
        fn parts(o: &ReturnType) -> Option<(String, Vec<String>)> {
            let ReturnType::Type(_, t) = o else { return None };
            let Type::Path(p) = &**t else { return None };
            let l = p.path.segments.last()?;
            let PathArguments::AngleBracketed(a) = &l.arguments else { return None };
            use quote::ToTokens;
            Some((l.ident.to_string(), a.args.iter().skip(1).map(|x| norm(&x.to_token_stream().to_string())).collect()))
        }
        match (parts(o), parts(&self.output)) {
            (Some(a), Some(b)) => a == b && a.0.ends_with("Result"),
            _ => false,
        }
    }

    fn mac(&mut self, m: &Macro) -> String {
        let path: Vec<String> = m.path.segments.iter().map(|s| s.ident.to_string()).collect();
        let name = path.last().unwrap().as_str();
        if path[0] == "log" || DROP_MACROS.contains(&name) {
            self.dropped.insert(format!("{}!", path.join("::")));
            return String::new();
        }
        let may_panic = self.c.opts.contains("may_panic");
        let parse = |m: &Macro| m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok();
        match name {
            "panic" | "unreachable" | "todo" | "unimplemented" => (if may_panic { "vx_panic_ok()" } else { "vx_panic()" }).to_string(),
            "assert" | "assert_eq" | "assert_ne" => {
                let Some(a) = parse(m) else { return "compile_error".into() };
                let x = self.t_expr(&a[0]);
                let c = match name {
                    "assert" => x,
                    "assert_eq" => format!("{x} == {}", self.t_expr(&a[1])),
                    _ => format!("{x} != {}", self.t_expr(&a[1])),
                };
                format!("{}({c})", if may_panic { "vx_assert_ok" } else { "vx_assert" })
            }
            "format" => {
                let Some(a) = parse(m) else { return "vx_format()".into() };
                if a.len() == 1 || !self.c.opts.contains("format") {
                    return "vx_format()".into();
                }
                // format!("..{}..", x): the pieces
                let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &a[0] else { return "vx_format()".into() };
                let rest: Vec<String> = a.iter().skip(1).map(|x| self.t_expr(x)).collect();
                let v = s.value();
                let parts: Vec<&str> = v.split("{}").collect();
                if parts.len() != rest.len() + 1 || v.replace("{}", "").contains(['{', '}']) {
                    return "vx_format()".into();
                }
                let args: String = rest.iter().enumerate().map(|(i, r)| format!(", &{r}, {:?}", parts[i + 1])).collect();
                format!("vx_format{}({:?}{args})", rest.len(), parts[0])
            }
            "vec" => {
                if m.tokens.is_empty() {
                    return "Vec::new()".into();
                }
                if let Ok((x, n)) = m.parse_body_with(|i: parse::ParseStream| {
                    let x: Expr = i.parse()?;
                    i.parse::<Token![;]>()?;
                    let n: Expr = i.parse()?;
                    Ok((x, n))
                }) {
                    let (x, n) = (self.t_expr(&x), self.t_expr(&n));
                    return format!("vx_vec_n({x}, {n})");
                }
                let Some(a) = parse(m) else { return "compile_error".into() };
                let a = self.args(&a);
                if a.len() == 1 {
                    return format!("vx_vec1({})", a[0]);
                }
                format!("vec![{}]", a.join(", "))
            }
            _ => {
                let (a, b) = range(m);
                self.src[a..b].to_string()
            }
        }
    }
}
