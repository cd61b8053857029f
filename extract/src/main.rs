//! extract REPO CONTRACTS_DIR OUT_DIR MODULE[,MODULE..] [prop=ID] [targets=mod::key,..] [external=key,key..] [baseline=FILE | write-baseline=FILE]
//!
//! Reads the listed contract files and, for each, the source file it is about; writes one
//! Verus module per contract file: the source's own text of the functions under contract with
//! the contracts inserted and the constructs of DESIGN.md rewritten.  Also writes map.json: the
//! line range of every function, its loop skeleton, locals, callees, and whatever could not be
//! handled.
mod contracts;
mod flags;
mod index;
mod tx;

use contracts::{parse, FnC, Module};
use index::{FnInfo, Index};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use syn::spanned::Spanned;
use syn::visit::Visit;
use syn::*;
use tx::*;

fn rng<T: Spanned>(t: &T) -> (usize, usize) {
    let r = t.span().byte_range();
    (r.start, r.end)
}

/// replace whole identifiers
fn rename(s: &str, map: &BTreeMap<String, String>) -> String {
    if map.is_empty() {
        return s.to_string();
    }
    let mut out = String::new();
    let cs: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        let c = cs[i];
        if c.is_alphabetic() || c == '_' {
            let mut j = i;
            while j < cs.len() && (cs[j].is_alphanumeric() || cs[j] == '_') {
                j += 1;
            }
            let w: String = cs[i..j].iter().collect();
            // not a field or method of something
            let dot = i > 0 && cs[i - 1] == '.' && !(i > 1 && cs[i - 2] == '.');
            match map.get(&w) {
                Some(n) if !dot => out.push_str(n),
                _ => out.push_str(&w),
            }
            i = j;
        } else {
            out.push(c);
            i += 1;
        }
    }
    out
}

fn rename_fn(c: &FnC, map: &BTreeMap<String, String>) -> FnC {
    let r = |s: &String| rename(s, map);
    let rm = |m: &BTreeMap<usize, String>| m.iter().map(|(k, v)| (*k, rename(v, map))).collect();
    FnC {
        contract: r(&c.contract),
        start: r(&c.start),
        end: r(&c.end),
        loops: rm(&c.loops),
        body_start: rm(&c.body_start),
        body_end: rm(&c.body_end),
        before: rm(&c.before),
        after: rm(&c.after),
        after_let: c.after_let.iter().map(|(n, k, t)| (map.get(n).cloned().unwrap_or(n.clone()), *k, rename(t, map))).collect(),
        ..c.clone()
    }
}

/// names of the locals now, matched to the names they had when the contracts were written
fn local_map(base: &[String], cur: &[String]) -> BTreeMap<String, String> {
    let (bs, cs): (BTreeSet<_>, BTreeSet<_>) = (base.iter().cloned().collect(), cur.iter().cloned().collect());
    let mut m = BTreeMap::new();
    if bs == cs {
        return m;
    }
    // longest common subsequence; equal-sized gaps between matches pair up
    let (n, k) = (base.len(), cur.len());
    let mut t = vec![vec![0usize; k + 1]; n + 1];
    for i in (0..n).rev() {
        for j in (0..k).rev() {
            t[i][j] = if base[i] == cur[j] { t[i + 1][j + 1] + 1 } else { t[i + 1][j].max(t[i][j + 1]) };
        }
    }
    let (mut i, mut j) = (0, 0);
    let (mut gi, mut gj): (Vec<String>, Vec<String>) = (vec![], vec![]);
    let mut flush = |gi: &mut Vec<String>, gj: &mut Vec<String>| {
        if gi.len() == gj.len() {
            for (a, b) in gi.iter().zip(gj.iter()) {
                if !cs.contains(a) && !bs.contains(b) {
                    m.entry(a.clone()).or_insert(b.clone());
                }
            }
        } else {
            let a: Vec<&String> = gi.iter().filter(|a| !cs.contains(*a)).collect();
            let b: Vec<&String> = gj.iter().filter(|b| !bs.contains(*b)).collect();
            if a.len() == b.len() {
                for (a, b) in a.iter().zip(b) {
                    m.entry((*a).clone()).or_insert(b.clone());
                }
            }
        }
        gi.clear();
        gj.clear();
    };
    while i < n || j < k {
        if i < n && j < k && base[i] == cur[j] {
            flush(&mut gi, &mut gj);
            i += 1;
            j += 1;
        } else if j >= k || (i < n && t[i + 1][j] >= t[i][j + 1]) {
            gi.push(base[i].clone());
            i += 1;
        } else {
            gj.push(cur[j].clone());
            j += 1;
        }
    }
    flush(&mut gi, &mut gj);
    m
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let (repo, cdir, out) = (&args[1], &args[2], &args[3]);
    let mods: Vec<&str> = args[4].split(',').collect();
    let mut external: BTreeSet<String> = BTreeSet::new();
    let mut baseline: Value = json!({});
    let mut write_baseline = None;
    let mut prop = String::new();
    let mut targets: Option<BTreeSet<String>> = None;
    let mut vacuity = false;
    for a in &args[5..] {
        if let Some(x) = a.strip_prefix("external=") {
            external = x.split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
        } else if let Some(x) = a.strip_prefix("baseline=") {
            baseline = std::fs::read_to_string(x).ok().and_then(|s| serde_json::from_str(&s).ok()).unwrap_or(json!({}));
        } else if let Some(x) = a.strip_prefix("prop=") {
            prop = x.to_string();
        } else if let Some(x) = a.strip_prefix("targets=") {
            targets = Some(x.split(',').map(|s| s.to_string()).collect());
        } else if a == "vacuity=1" {
            vacuity = true;
        } else if let Some(x) = a.strip_prefix("write-baseline=") {
            write_baseline = Some(x.to_string());
        }
    }
    std::fs::create_dir_all(out).unwrap();
    let mut map = serde_json::Map::new();
    let mut base_out = serde_json::Map::new();
    for m in mods {
        let mut md = parse(&format!("{cdir}/{m}.vc"), &prop);
        if vacuity {
            for f in &mut md.fns {
                f.start = format!("proof {{ assert(false); }} // vx_vacuity\n{}", f.start);
            }
        }
        // functions this property does not rest on keep their contract and lose their body
        let mut ext = external.clone();
        let mut assumed: Vec<String> = vec![];
        if let Some(t) = &targets {
            for f in &md.fns {
                let k = format!("{m}::{}", f.key);
                if !t.contains(&k) {
                    assumed.push(k.clone());
                    ext.insert(k);
                }
            }
        }
        let (text, mut info, base) = module(repo, &md, &ext, &baseline);
        info["assumed"] = json!(assumed);
        std::fs::write(format!("{out}/{m}.rs"), text).unwrap();
        map.insert(m.to_string(), info);
        base_out.insert(m.to_string(), base);
    }
    std::fs::write(format!("{out}/map.json"), serde_json::to_string_pretty(&Value::Object(map)).unwrap()).unwrap();
    if let Some(f) = write_baseline {
        std::fs::write(f, serde_json::to_string_pretty(&Value::Object(base_out)).unwrap() + "\n").unwrap();
    }
}

fn module(repo: &str, md: &Module, external: &BTreeSet<String>, baseline: &Value) -> (String, Value, Value) {
    let mut fns_info = vec![];
    let mut missing: Vec<String> = vec![];
    let mut base = serde_json::Map::new();
    let path = format!("{repo}/{}", md.src);
    let src = match std::fs::read_to_string(&path) {
        Ok(s) => s,
        Err(e) => {
            return (String::new(), json!({"error": format!("{path}: {e}"), "fns": [], "missing": md.fns.iter().map(|f| &f.key).collect::<Vec<_>>()}), json!({}));
        }
    };
    let file = match parse_file(&src) {
        Ok(f) => f,
        Err(e) => {
            return (String::new(), json!({"error": format!("{path}: {e}"), "fns": [], "missing": []}), json!({}));
        }
    };
    let mut idx = Index::default();
    idx.visit_file(&file);
    let contracted: BTreeSet<String> = md.fns.iter().map(|f| f.key.clone()).collect();
    let mut body = String::new();
    let prologue = format!("// generated from {} by /verif/extract\n#![allow(unused_imports, unused_mut, unused_variables, dead_code, unused_parens, unused_braces, unused_assignments, unreachable_code, non_snake_case, unused_labels, unused_must_use)]\nuse vstd::prelude::*;\nverus! {{\n", md.src);
    body.push_str(&prologue);
    match md.spec.find("//FLAGS\n") {
        None => body.push_str(&md.spec),
        Some(a) => {
            body.push_str(&md.spec[..a]);
            match flags::types(&file) {
                Some(t) => body.push_str(&t),
                None => missing.push("xflags! macro".into()),
            }
            body.push_str(&md.spec[a..]);
        }
    }
    body.push('\n');
    let mut structs_info = vec![];
    // structs and other items
    let empty = FnC::default();
    for (name, opts) in &md.structs {
        let Some(item) = idx.items.get(name) else {
            missing.push(format!("struct {name}"));
            continue;
        };
        let mut tx = new_tx(&src, &idx, &empty, md, &contracted, "");
        body.push_str(&emit_item(&mut tx, item, opts));
        body.push('\n');
        structs_info.push(name.clone());
    }
    // functions, grouped by impl block, in contract order
    let mut done: BTreeSet<String> = BTreeSet::new();
    for f in &md.fns {
        if done.contains(&f.key) {
            continue;
        }
        if let Some((tr, name)) = f.key.split_once('#').filter(|(t, _)| idx.traits.contains_key(*t)) {
            // trait declaration: all its functions at once
            let _ = name;
            let t = &idx.traits[tr];
            let group: Vec<&FnC> = md.fns.iter().filter(|g| g.key.starts_with(&format!("{tr}#"))).collect();
            body.push_str(&format!("pub trait {tr} {{\n"));
            for it in &t.items {
                if let TraitItem::Fn(tf) = it {
                    let key = format!("{tr}#{}", tf.sig.ident);
                    if let Some(c) = group.iter().find(|g| g.key == key) {
                        let mut tx = new_tx(&src, &idx, c, md, &contracted, "Self");
                        body.push_str(&signature(&mut tx, &tf.sig, c, false));
                        body.push_str(&format!("\n{};\n", c.contract));
                        done.insert(key);
                    }
                }
            }
            body.push_str("}\n");
            for g in group {
                done.insert(g.key.clone());
            }
            continue;
        }
        let Some(fi) = idx.fns.get(&f.key) else {
            missing.push(f.key.clone());
            continue;
        };
        match fi.imp {
            None => {
                let (t, info, b) = emit_fn(&src, &idx, f, fi, md, &contracted, external, baseline, line_count(&body) + 1, true);
                body.push_str(&t);
                fns_info.push(info);
                base.insert(f.key.clone(), b);
                done.insert(f.key.clone());
            }
            Some(im) => {
                let imp = &idx.impls[im];
                let inherent = imp.trait_.is_none() || f.opts.contains("inherent") || fi.trait_name.as_deref() == Some("Iterator");
                let group: Vec<&FnC> = md.fns.iter().filter(|g| idx.fns.get(&g.key).map_or(false, |x| x.imp == Some(im))).collect();
                let mut tx = new_tx(&src, &idx, f, md, &contracted, &fi.self_ty);
                let mut gens = imp.generics.clone();
                let ty = tx.t_type(&imp.self_ty);
                if inherent {
                    // lifetimes of the trait only
                    gens.params = gens.params.into_iter().filter(|p| !matches!(p, GenericParam::Lifetime(l) if !ty.contains(&l.lifetime.to_string()))).collect();
                }
                let g = if gens.params.len() == imp.generics.params.len() { tx.t_generics(&imp.generics) } else if gens.params.is_empty() { String::new() } else { format!("<{}>", gens.params.iter().map(|p| quote::ToTokens::to_token_stream(p).to_string()).collect::<Vec<_>>().join(", ")) };
                let w = tx.t_where(&imp.generics.where_clause);
                let tr = match (&imp.trait_, inherent) {
                    (Some(t), false) => {
                        let p = tx.t_any(&t.1, |c, p| c.visit_path(p));
                        format!("{p} for ")
                    }
                    _ => String::new(),
                };
                body.push_str(&format!("impl{g} {tr}{ty} {w} {{\n"));
                let mut subst = vec![];
                for it in &imp.items {
                    if let ImplItem::Type(t) = it {
                        let mut tx = new_tx(&src, &idx, f, md, &contracted, &fi.self_ty);
                        let ty = tx.t_type(&t.ty);
                        if inherent {
                            subst.push((format!("Self::{}", t.ident), ty));
                        } else {
                            body.push_str(&format!("type {} = {ty};\n", t.ident));
                        }
                    }
                }
                for g in group {
                    let mut g2 = g.clone();
                    g2.subst.extend(subst.clone());
                    let gi = &idx.fns[&g.key];
                    let (t, info, b) = emit_fn(&src, &idx, &g2, gi, md, &contracted, external, baseline, line_count(&body) + 1, inherent);
                    body.push_str(&t);
                    fns_info.push(info);
                    base.insert(g.key.clone(), b);
                    done.insert(g.key.clone());
                }
                body.push_str("}\n");
            }
        }
    }
    // items of the source that did not exist when the contracts were written
    base.insert("#items".into(), json!(top_items(&file.items)));
    if let Some(known) = baseline[&md.name]["#items"].as_array() {
        let known: BTreeSet<&str> = known.iter().filter_map(|x| x.as_str()).collect();
        loop {
            let next = idx.items.iter().find(|(n, _)| {
                !known.contains(n.as_str()) && !structs_info.contains(*n) && !md.structs.iter().any(|x| &x.0 == *n) && mentions(&body, n) && !md.spec.lines().any(|l| l.starts_with("use ") && mentions(l, n)) && !["const", "struct", "enum", "type"].iter().any(|k| mentions(&body, &format!("{k} {n}")))
            });
            let Some((n, item)) = next else { break };
            let mut tx = new_tx(&src, &idx, &empty, md, &contracted, "");
            let t = emit_item(&mut tx, item, &[]);
            body.push_str(&t);
            body.push('\n');
            structs_info.push(n.clone());
        }
    }
    // items hoisted out of function bodies: moved to the end, line numbers kept
    let mut moved = String::new();
    while let Some(a) = body.find("/*HOIST\n") {
        let b = body[a..].find("HOIST*/").unwrap() + a;
        let t = body[a + 8..b].to_string();
        let blank = "\n".repeat(line_count(&body[a..b]));
        moved.push_str(&t);
        body.replace_range(a..b + 7, &blank);
    }
    body.push_str(&moved);
    // the verifier derives no range for a float read from a field: one axiom per such field
    let mut fl = String::new();
    let mut names = vec![];
    for (st, f) in float_fields(&body) {
        fl.push_str(&format!("pub uninterp spec fn f_{st}_{f}(t: {st}) -> f64;\npub broadcast axiom fn ax_{st}_{f}(t: {st}) ensures (#[trigger] t.{f}) == f_{st}_{f}(t);\n"));
        names.push(format!("ax_{st}_{f}"));
    }
    // one `broadcast use` per module
    let mut uses: Vec<String> = vec![];
    for l in md.spec.lines() {
        if let Some(r) = l.strip_prefix("broadcast use ") {
            uses.push(r.trim().trim_end_matches(';').to_string());
            body = body.replacen(l, "", 1);
        }
    }
    if !names.is_empty() {
        uses.push("self::fl::group_fl".into());
    }
    if !uses.is_empty() {
        body.push_str(&format!("broadcast use {{ {} }};\n", uses.join(", ")));
    }
    body.push_str("} // verus!\n");
    if !names.is_empty() {
        body.push_str(&format!("pub mod fl {{\nuse super::*;\nuse vstd::prelude::*;\nverus! {{\n{fl}pub broadcast group group_fl {{ {} }}\n}}\n}}\n", names.join(", ")));
    }
    let ghost = |s: &str, w: &str| s.matches(w).count();
    let trusted = json!({
        "external_body": ghost(&md.spec, "external_body"), "axiom": ghost(&md.spec, "axiom fn") , "assume": ghost(&body, "assume(") + ghost(&body, "admit("),
    });
    let known: Vec<String> = idx.fns.keys().cloned().collect();
    let head = line_count(&prologue) + line_count(&md.spec);
    (
        body,
        json!({"src": md.src, "fns": fns_info, "missing": missing, "structs": structs_info, "trusted": trusted, "spec_lines": [line_count(&prologue), head], "all_fns": known}),
        Value::Object(base),
    )
}

/// f64 fields of the non-generic structs emitted
fn float_fields(body: &str) -> Vec<(String, String)> {
    let mut out = vec![];
    let mut cur: Option<String> = None;
    for l in body.lines() {
        if let Some(r) = l.strip_prefix("pub struct ") {
            let n: String = r.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
            cur = if r[n.len()..].trim_start().starts_with('{') { Some(n) } else { None };
        } else if l.starts_with('}') {
            cur = None;
        } else if let Some(n) = &cur {
            if let Some((f, "f64,")) = l.trim().strip_prefix("pub ").and_then(|r| r.split_once(": ")) {
                out.push((n.clone(), f.to_string()));
            }
        }
    }
    out
}

/// names of the items outside function bodies
fn top_items(items: &[Item]) -> BTreeSet<String> {
    let mut out = BTreeSet::new();
    for i in items {
        match i {
            Item::Struct(s) => drop(out.insert(s.ident.to_string())),
            Item::Enum(s) => drop(out.insert(s.ident.to_string())),
            Item::Const(s) => drop(out.insert(s.ident.to_string())),
            Item::Static(s) => drop(out.insert(s.ident.to_string())),
            Item::Type(s) => drop(out.insert(s.ident.to_string())),
            Item::Mod(m) => out.extend(m.content.iter().flat_map(|c| top_items(&c.1))),
            _ => {}
        }
    }
    out
}

/// whether the text contains this identifier
fn mentions(body: &str, n: &str) -> bool {
    let id = |c: Option<char>| c.map_or(false, |c| c.is_alphanumeric() || c == '_');
    body.match_indices(n).any(|(i, _)| !id(body[..i].chars().next_back()) && !id(body[i + n.len()..].chars().next()))
}

fn line_count(s: &str) -> usize {
    s.matches('\n').count()
}

fn new_tx<'a>(src: &'a str, idx: &'a Index, c: &'a FnC, md: &'a Module, contracted: &'a BTreeSet<String>, self_ty: &str) -> Tx<'a> {
    let mut subst = c.subst.clone();
    subst.extend(md.subst.clone());
    Tx {
        src,
        idx,
        c, variant: Default::default(),
        opaque: &md.opaque,
        contracted,
        self_ty: self_ty.to_string(),
        uid: 0,
        loops: 0, sorts: 0,
        skeleton: String::new(),
        hoisted: vec![],
        hoist_items: vec![],
        lets: Default::default(),
        locals: vec![],
        calls: Default::default(),
        unknown: Default::default(),
        inlined: vec![],
        dropped: Default::default(),
        subst,
        errors: vec![],
        stack: vec![c.key.clone()],
        slices: BTreeSet::new(),
        in_try: false,
        mut_slices: Default::default(),
        around: vec![],
        conts: Default::default(),
        no_cont: Default::default(),
        inline_try: false,
        last_tried: false,
        output: ReturnType::Default,
    }
}

fn emit_item(tx: &mut Tx, item: &Item, opts: &[String]) -> String {
    let mut out = String::new();
    match item {
        Item::Struct(s) => {
            let g = tx.t_generics(&s.generics);
            let w = tx.t_where(&s.generics.where_clause);
            for o in opts {
                if let Some(a) = o.strip_prefix("attr=") {
                    out.push_str(&format!("#[verifier::{a}]\n"));
                }
            }
            out.push_str(&format!("pub struct {}{g} {w}", s.ident));
            match &s.fields {
                Fields::Named(n) => {
                    out.push_str(" {\n");
                    for f in &n.named {
                        let t = tx.t_type(&f.ty);
                        out.push_str(&format!("    pub {}: {t},\n", f.ident.as_ref().unwrap()));
                    }
                    out.push_str("}\n");
                }
                Fields::Unnamed(n) => {
                    let t: Vec<String> = n.unnamed.iter().map(|f| format!("pub {}", tx.t_type(&f.ty))).collect();
                    out.push_str(&format!("({});\n", t.join(", ")));
                }
                Fields::Unit => out.push_str(";\n"),
            }
            derives(&mut out, &s.attrs, &s.ident.to_string(), &s.generics, tx);
        }
        Item::Enum(s) => {
            let g = tx.t_generics(&s.generics);
            out.push_str(&format!("pub enum {}{g} {{\n", s.ident));
            for v in &s.variants {
                match &v.fields {
                    Fields::Unit => out.push_str(&format!("    {},\n", v.ident)),
                    Fields::Unnamed(n) => {
                        let t: Vec<String> = n.unnamed.iter().map(|f| tx.t_type(&f.ty)).collect();
                        out.push_str(&format!("    {}({}),\n", v.ident, t.join(", ")));
                    }
                    Fields::Named(n) => {
                        let t: Vec<String> = n.named.iter().map(|f| format!("{}: {}", f.ident.as_ref().unwrap(), tx.t_type(&f.ty))).collect();
                        out.push_str(&format!("    {} {{ {} }},\n", v.ident, t.join(", ")));
                    }
                }
            }
            out.push_str("}\n");
            derives(&mut out, &s.attrs, &s.ident.to_string(), &s.generics, tx);
        }
        Item::Const(c) => {
            let t = tx.t_type(&c.ty).replace("&'static ", "&").replace('&', "&'static ");
            let e = tx.t_expr(&c.expr);
            out.push_str(&if t.starts_with("&'static [") { format!("#[verifier::external_body]\npub exec const {}: {t} = {e};\n", c.ident) } else { format!("pub const {}: {t} = {e};\n", c.ident) });
        }
        Item::Static(c) => {
            let t = tx.t_type(&c.ty).replace("&'static ", "&").replace('&', "&'static ");
            let e = tx.t_expr(&c.expr);
            out.push_str(&if t.starts_with("&'static [") { format!("#[verifier::external_body]\npub exec const {}: {t} = {e};\n", c.ident) } else { format!("pub const {}: {t} = {e};\n", c.ident) });
        }
        Item::Type(t) => {
            let g = tx.t_generics(&t.generics);
            let ty = tx.t_type(&t.ty);
            out.push_str(&format!("pub type {}{g} = {ty};\n", t.ident));
        }
        _ => {}
    }
    out
}

fn derives(out: &mut String, attrs: &[Attribute], name: &str, g: &Generics, tx: &mut Tx) {
    let d: String = attrs.iter().filter(|a| a.path().is_ident("derive")).map(|a| quote::ToTokens::to_token_stream(&a.meta).to_string()).collect();
    let has = |n: &str| d.split(|c: char| !c.is_alphanumeric()).any(|w| w == n);
    let params: Vec<String> = g
        .params
        .iter()
        .map(|p| match p {
            GenericParam::Type(t) => t.ident.to_string(),
            GenericParam::Lifetime(l) => l.lifetime.to_string(),
            GenericParam::Const(c) => c.ident.to_string(),
        })
        .collect();
    let args = if params.is_empty() { String::new() } else { format!("<{}>", params.join(", ")) };
    let _ = tx;
    if has("Clone") {
        let bounds: Vec<String> = g
            .params
            .iter()
            .map(|p| match p {
                GenericParam::Type(t) => format!("{}: Clone", t.ident),
                GenericParam::Lifetime(l) => l.lifetime.to_string(),
                GenericParam::Const(c) => format!("const {}: usize", c.ident),
            })
            .collect();
        let b = if bounds.is_empty() { String::new() } else { format!("<{}>", bounds.join(", ")) };
        out.push_str(&format!("impl{b} Clone for {name}{args} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}\n"));
    }
    if has("Copy") {
        out.push_str(&format!("impl Copy for {name} {{}}\n"));
    }
}

fn signature(tx: &mut Tx, sig: &Signature, c: &FnC, vis: bool) -> String {
    let g = tx.t_generics(&sig.generics);
    let ins: Vec<String> = sig.inputs.iter().map(|a| tx.t_fnarg(a)).collect();
    let w = tx.t_where(&sig.generics.where_clause);
    let ret = match (&c.rettype, &sig.output) {
        (Some(t), _) => format!(" -> ({}: {t})", c.ret.as_deref().unwrap_or("r")),
        (None, ReturnType::Type(_, t)) => {
            let t = tx.t_type(t);
            format!(" -> ({}: {t})", c.ret.as_deref().unwrap_or("r"))
        }
        _ => String::new(),
    };
    format!("{}fn {}{g}({}){ret} {w}", if vis { "pub " } else { "" }, sig.ident, ins.join(", "))
}

#[allow(clippy::too_many_arguments)]
fn emit_fn(
    src: &str,
    idx: &Index,
    c0: &FnC,
    fi: &FnInfo,
    md: &Module,
    contracted: &BTreeSet<String>,
    external: &BTreeSet<String>,
    baseline: &Value,
    line: usize,
    vis: bool,
) -> (String, Value, Value) {
    let ext = external.contains(&c0.key) || external.contains(&format!("{}::{}", md.name, c0.key));
    let b = &baseline[&md.name][&c0.key];
    // first pass: the names of the locals as they are now
    let mut tx = new_tx(src, idx, c0, md, contracted, &fi.self_ty);
    let of = |want_mut: bool| -> BTreeSet<String> { fi
        .sig
        .inputs
        .iter()
        .filter_map(|a| match a {
            FnArg::Typed(t) => match (&*t.pat, &*t.ty) {
                (Pat::Ident(i), Type::Reference(r)) if r.mutability.is_some() == want_mut && (matches!(&*r.elem, Type::Slice(_)) || index::type_name(&r.elem) == "Vec") => Some(i.ident.to_string()),
                _ => None,
            },
            _ => None,
        })
        .collect() };
    let (slices, mut_slices) = (of(false), of(true));
    tx.slices = slices.clone();
    tx.mut_slices = mut_slices.clone();
    tx.output = fi.sig.output.clone();
    let _ = signature(&mut tx, &fi.sig, c0, vis);
    let unit = matches!(fi.sig.output, ReturnType::Default);
    let _ = tx.t_body(&fi.block, "", unit);
    let locals = tx.locals.clone();
    let base_locals: Vec<String> = b["locals"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default();
    let ren = if base_locals.is_empty() { BTreeMap::new() } else { local_map(&base_locals, &locals) };
    let c = rename_fn(c0, &ren);
    let mut tx = new_tx(src, idx, &c, md, contracted, &fi.self_ty);
    tx.slices = slices;
    tx.mut_slices = mut_slices;
    tx.output = fi.sig.output.clone();
    if let Some(n) = b["continues"].as_object() {
        tx.no_cont = (1..200).filter(|k| !n.contains_key(&k.to_string())).collect();
    }
    let sig = signature(&mut tx, &fi.sig, &c, vis);
    // the body of an external function is dropped, the items declared in it are not
    let whole = format!("{}\n{}", c.start, tx.t_body(&fi.block, &c.end, unit));
    let body = if ext { " unimplemented!() ".to_string() } else { whole };
    let mut attrs = c.attrs.clone();
    if ext {
        attrs.clear();
        attrs.push_str("#[verifier::external_body]\n");
    } else if !c.opts.contains("isolate") {
        attrs.push_str("#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]\n");
    }
    // hoisted items
    let mut hoisted = String::new();
    let items = std::mem::take(&mut tx.hoist_items);
    for i in &items {
        if matches!(i, Item::Fn(_)) {
            continue;
        }
        hoisted.push_str(&emit_item(&mut tx, i, &[]));
    }
    let text = format!("{attrs}{sig}\n{}\n{{{body}}}\n", c.contract);
    let n = line_count(&text);
    let baseskel = b["skeleton"].as_str().map(|s| s.to_string());
    let mut hoist_names: Vec<String> = items
        .iter()
        .filter_map(|i| match i {
            Item::Struct(s) => Some(s.ident.to_string()),
            Item::Const(s) => Some(s.ident.to_string()),
            _ => None,
        })
        .collect();
    hoist_names.sort();
    let info = json!({
        "key": c.key, "lines": [line, line + n], "src_line": fi.sig.ident.span().start().line, "external": ext, "skeleton": tx.skeleton,
        "skeleton_changed": baseskel.as_ref().map_or(false, |s| *s != tx.skeleton),
        "unknown_calls": tx.unknown, "inlined": tx.inlined, "dropped": tx.dropped, "errors": tx.errors, "renamed": ren, "known": !b.is_null(),
        "unplaced": c.after_let.iter().filter(|(n, k, _)| tx.lets.get(n).copied().unwrap_or(0) < *k).map(|(n, _, _)| n.clone()).collect::<Vec<_>>(),
        "hoisted": hoist_names, "loops": tx.loops,
    });
    let basev = json!({"locals": locals, "skeleton": tx.skeleton, "continues": tx.conts.iter().map(|(k, n)| (k.to_string(), json!(n))).collect::<serde_json::Map<_, _>>()});
    if hoisted.is_empty() {
        return (text, info, basev);
    }
    // items inside an impl block are not allowed: close and reopen is avoided by emitting them
    // through a marker that main() moves to the end of the module
    (format!("{text}/*HOIST\n{hoisted}HOIST*/\n"), info, basev)
}

