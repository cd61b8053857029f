//! All functions and items of one source file, by key.
use std::collections::BTreeMap;
use syn::visit::{self, Visit};
use syn::*;

#[derive(Clone)]
pub struct FnInfo {
    pub sig: Signature,
    pub block: Block,
    /// the impl block it is in
    pub imp: Option<usize>,
    pub trait_name: Option<String>,
    pub self_ty: String,
    pub order: usize,
}

#[derive(Default)]
pub struct Index {
    pub fns: BTreeMap<String, FnInfo>,
    pub impls: Vec<ItemImpl>,
    pub items: BTreeMap<String, Item>,
    pub traits: BTreeMap<String, ItemTrait>,
    n: usize,
}

pub fn type_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        Type::Reference(r) => type_name(&r.elem),
        _ => "?".into(),
    }
}

impl<'ast> Visit<'ast> for Index {
    fn visit_item(&mut self, i: &'ast Item) {
        let test = |a: &[Attribute]| {
            a.iter().any(|a| {
                a.path().is_ident("cfg") && {
                    let s = quote::ToTokens::to_token_stream(&a.meta).to_string();
                    s.contains("test")
                }
            })
        };
        match i {
            Item::Mod(m) => {
                if !test(&m.attrs) {
                    visit::visit_item(self, i);
                }
                return;
            }
            Item::Struct(s) => {
                self.items.entry(s.ident.to_string()).or_insert_with(|| i.clone());
            }
            Item::Enum(s) => {
                self.items.entry(s.ident.to_string()).or_insert_with(|| i.clone());
            }
            Item::Const(s) => {
                self.items.entry(s.ident.to_string()).or_insert_with(|| i.clone());
            }
            Item::Static(s) => {
                self.items.entry(s.ident.to_string()).or_insert_with(|| i.clone());
            }
            Item::Type(s) => {
                self.items.entry(s.ident.to_string()).or_insert_with(|| i.clone());
            }
            Item::Trait(s) => {
                self.traits.insert(s.ident.to_string(), s.clone());
            }
            Item::Fn(f) => {
                self.n += 1;
                let order = self.n;
                self.fns.entry(f.sig.ident.to_string()).or_insert_with(|| FnInfo {
                    sig: f.sig.clone(),
                    block: (*f.block).clone(),
                    imp: None,
                    trait_name: None,
                    self_ty: String::new(),
                    order,
                });
            }
            Item::Impl(im) => {
                let ty = type_name(&im.self_ty);
                let tr = im.trait_.as_ref().map(|t| t.1.segments.last().unwrap().ident.to_string());
                self.impls.push(im.clone());
                let id = self.impls.len() - 1;
                for f in &im.items {
                    if let ImplItem::Fn(f) = f {
                        self.n += 1;
                        let mut key = match &tr {
                            Some(t) => format!("{ty}@{t}::{}", f.sig.ident),
                            None => format!("{ty}::{}", f.sig.ident),
                        };
                        // several impls of one generic trait: From<A>, From<B>
                        let mut k = 2;
                        while self.fns.contains_key(&key) {
                            key = format!("{}#{k}", key.split('#').next().unwrap());
                            k += 1;
                        }
                        self.fns.insert(
                            key,
                            FnInfo { sig: f.sig.clone(), block: f.block.clone(), imp: Some(id), trait_name: tr.clone(), self_ty: ty.clone(), order: self.n },
                        );
                    }
                }
            }
            _ => {}
        }
        visit::visit_item(self, i);
    }
}
