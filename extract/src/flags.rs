//! The types xflags generates from the `xflags!` macro, read off the macro's own text: required
//! flags as they are, optional ones as options, repeated ones as lists; switches as bool or u32.
use proc_macro2::{Delimiter, TokenStream, TokenTree};
use syn::*;

fn find(items: &[Item]) -> Option<TokenStream> {
    for i in items {
        match i {
            Item::Mod(m) => {
                if let Some(t) = m.content.as_ref().and_then(|c| find(&c.1)) {
                    return Some(t);
                }
            }
            Item::Macro(m) if m.mac.path.segments.last().map_or(false, |s| s.ident == "xflags") => return Some(m.mac.tokens.clone()),
            _ => {}
        }
    }
    None
}

fn camel(s: &str) -> String {
    s.split(|c| c == '-' || c == '_')
        .map(|w| {
            let mut c = w.chars();
            c.next().map(|f| f.to_uppercase().collect::<String>() + c.as_str()).unwrap_or_default()
        })
        .collect()
}

struct P(Vec<TokenTree>, usize);

impl P {
    fn peek(&self) -> Option<&TokenTree> {
        self.0.get(self.1)
    }
    fn ident(&mut self) -> Option<String> {
        match self.peek() {
            Some(TokenTree::Ident(i)) => {
                let s = i.to_string();
                self.1 += 1;
                Some(s)
            }
            _ => None,
        }
    }
    fn punct(&mut self, c: char) -> bool {
        match self.peek() {
            Some(TokenTree::Punct(p)) if p.as_char() == c => {
                self.1 += 1;
                true
            }
            _ => false,
        }
    }
    /// `a-b-c`
    fn dashed(&mut self) -> Option<String> {
        let mut s = self.ident()?;
        while self.punct('-') {
            s.push('_');
            s.push_str(&self.ident()?);
        }
        Some(s)
    }
    fn ty(&mut self) -> Option<String> {
        let (mut s, mut depth) = (String::new(), 0i32);
        loop {
            match self.peek() {
                None => break,
                Some(t) => {
                    let x = t.to_string();
                    if depth == 0 && !s.is_empty() && !["<", ">", ":"].contains(&x.as_str()) && !s.ends_with(':') {
                        break;
                    }
                    depth += match x.as_str() { "<" => 1, ">" => -1, _ => 0 };
                    s.push_str(&x);
                    self.1 += 1;
                }
            }
        }
        (!s.is_empty()).then_some(s)
    }
}

/// fields and subcommands of one command
fn cmd(t: TokenStream) -> Option<(Vec<String>, Vec<(String, TokenStream)>)> {
    let mut p = P(t.into_iter().collect(), 0);
    let (mut fields, mut subs) = (vec![], vec![]);
    while p.peek().is_some() {
        if p.punct('#') {
            // a doc comment
            p.1 += 1;
            continue;
        }
        let w = p.ident()?;
        if w == "cmd" {
            let name = p.dashed()?;
            match p.peek()? {
                TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => subs.push((name, g.stream())),
                _ => return None,
            }
            p.1 += 1;
            continue;
        }
        let (wrap, switch) = match w.as_str() {
            "required" => ("", "bool"),
            "optional" => ("Option", "bool"),
            "repeated" => ("Vec", "u32"),
            _ => return None,
        };
        let mut flag = None;
        if p.punct('-') {
            if !p.punct('-') {
                // the short form
                p.ident()?;
                if !(p.punct(',') && p.punct('-') && p.punct('-')) {
                    return None;
                }
            }
            flag = Some(p.dashed()?);
        }
        // the name of the value, unless the flag is a switch
        let save = p.1;
        let val = p.dashed();
        let f = if val.is_some() && p.punct(':') {
            let ty = p.ty()?;
            let ty = if wrap.is_empty() { ty } else { format!("{wrap}<{ty}>") };
            format!("pub {}: {ty}", flag.or(val)?)
        } else {
            p.1 = save;
            format!("pub {}: {switch}", flag?)
        };
        fields.push(f);
    }
    Some((fields, subs))
}

pub fn types(file: &File) -> Option<String> {
    let mut p = P(find(&file.items)?.into_iter().collect(), 0);
    while p.punct('#') {
        p.1 += 1;
    }
    if p.ident()? != "cmd" {
        return None;
    }
    let root = camel(&p.dashed()?);
    let TokenTree::Group(g) = p.peek()? else { return None };
    let (mut fields, subs) = cmd(g.stream())?;
    let mut out = String::new();
    let mut vars = vec![];
    for (n, t) in subs {
        let (f, s) = cmd(t)?;
        if !s.is_empty() {
            return None;
        }
        let n = camel(&n);
        out.push_str(&format!("    pub struct {n} {{ {} }}\n", f.join(", ")));
        vars.push(format!("{n}({n})"));
    }
    out.push_str(&format!("    pub enum {root}Cmd {{ {} }}\n", vars.join(", ")));
    fields.push(format!("pub subcommand: {root}Cmd"));
    out.push_str(&format!("    pub struct {root} {{ {} }}\n", fields.join(", ")));
    Some(out)
}
