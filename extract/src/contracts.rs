//! The contract files (contracts/*.vc).
use std::collections::{BTreeMap, BTreeSet};

#[derive(Default, Clone, Debug)]
pub struct FnC {
    pub key: String,
    /// name of the result in the contract, default r
    pub ret: Option<String>,
    /// replaces the return type
    pub rettype: Option<String>,
    pub contract: String,
    pub start: String,
    pub end: String,
    /// loop number -> invariants and decreases
    pub loops: BTreeMap<usize, String>,
    pub body_start: BTreeMap<usize, String>,
    pub body_end: BTreeMap<usize, String>,
    pub before: BTreeMap<usize, String>,
    pub after: BTreeMap<usize, String>,
    /// before the test of a filter() in loop k
    pub filter: BTreeMap<usize, String>,
    /// after the n-th `let` binding that name (1-based)
    pub after_let: Vec<(String, usize, String)>,
    /// the n-th sort: annotation of its closure, text before and after it
    pub sort: BTreeMap<usize, String>,
    pub before_sort: BTreeMap<usize, String>,
    pub after_sort: BTreeMap<usize, String>,
    pub opts: BTreeSet<String>,
    pub attrs: String,
    /// textual substitutions in types and generics: from -> to
    pub subst: Vec<(String, String)>,
    /// spec text moved verbatim into trait declarations
    pub line: usize,
}

#[derive(Default, Clone, Debug)]
pub struct Module {
    pub name: String,
    pub src: String,
    pub fns: Vec<FnC>,
    pub structs: Vec<(String, Vec<String>)>,
    pub spec: String,
    pub opaque: BTreeSet<String>,
    pub subst: Vec<(String, String)>,
}

/// lines ending in `//@Cxx Cyy` are for those properties only
fn wanted(line: &str, prop: &str) -> bool {
    match line.rsplit_once("//@") {
        Some((_, t)) if !prop.is_empty() => t.split_whitespace().any(|w| w == prop),
        _ => true,
    }
}

pub fn parse(path: &str, prop: &str) -> Module {
    let text = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{path}: {e}"));
    let mut m = Module::default();
    enum Cur {
        None,
        Spec,
        Contract,
        Start,
        End,
        Loop(usize),
        Bs(usize),
        Be(usize),
        Before(usize),
        After(usize),
        Filter(usize),
        AfterLet(String, usize),
        Sort(usize),
        BeforeSort(usize),
        AfterSort(usize),
    }
    let mut cur = Cur::None;
    for (ln, line) in text.lines().enumerate() {
        if !wanted(line, prop) {
            continue;
        }
        if let Some(rest) = line.strip_prefix('@') {
            let w: Vec<&str> = rest.split_whitespace().collect();
            let num = |i: usize| w[i].parse::<usize>().unwrap_or_else(|_| panic!("{path}:{}: number expected", ln + 1));
            cur = Cur::None;
            match w[0] {
                "module" => {
                    m.name = w[1].into();
                    m.src = w[2].into();
                }
                "spec" => cur = Cur::Spec,
                "struct" => m.structs.push((w[1].into(), w[2..].iter().map(|s| s.to_string()).collect())),
                "opaque" => m.opaque.extend(w[1..].iter().map(|s| s.to_string())),
                "subst" => {
                    let (a, b) = rest["subst".len()..].split_once("=>").unwrap();
                    let p = (a.trim().to_string(), b.trim().to_string());
                    match m.fns.last_mut() {
                        Some(f) => f.subst.push(p),
                        None => m.subst.push(p),
                    }
                }
                "fn" => {
                    m.fns.push(FnC { key: w[1].into(), line: ln + 1, ..Default::default() });
                }
                "ret" => m.fns.last_mut().unwrap().ret = Some(w[1].into()),
                "rettype" => m.fns.last_mut().unwrap().rettype = Some(rest["rettype".len()..].trim().into()),
                "opt" => m.fns.last_mut().unwrap().opts.extend(w[1..].iter().map(|s| s.to_string())),
                "attr" => {
                    let f = m.fns.last_mut().unwrap();
                    f.attrs.push_str(rest["attr".len()..].trim());
                    f.attrs.push('\n');
                }
                "contract" => cur = Cur::Contract,
                "start" => cur = Cur::Start,
                "end" => cur = Cur::End,
                "loop" => cur = Cur::Loop(num(1)),
                "body_start" => cur = Cur::Bs(num(1)),
                "body_end" => cur = Cur::Be(num(1)),
                "before" => cur = Cur::Before(num(1)),
                "after" => cur = Cur::After(num(1)),
                "filter" => cur = Cur::Filter(num(1)),
                "sort" => cur = Cur::Sort(num(1)),
                "before_sort" => cur = Cur::BeforeSort(num(1)),
                "after_sort" => cur = Cur::AfterSort(num(1)),
                "after_let" => cur = Cur::AfterLet(w[1].into(), if w.len() > 2 { num(2) } else { 1 }),
                "#" => {}
                x => panic!("{path}:{}: unknown section @{x}", ln + 1),
            }
            continue;
        }
        let add = |s: &mut String| {
            s.push_str(line);
            s.push('\n');
        };
        match &cur {
            Cur::None => {
                if !line.trim().is_empty() {
                    panic!("{path}:{}: text outside a section", ln + 1)
                }
            }
            Cur::Spec => add(&mut m.spec),
            c => {
                let f = m.fns.last_mut().unwrap();
                match c {
                    Cur::Contract => add(&mut f.contract),
                    Cur::Start => add(&mut f.start),
                    Cur::End => add(&mut f.end),
                    Cur::Loop(k) => add(f.loops.entry(*k).or_default()),
                    Cur::Bs(k) => add(f.body_start.entry(*k).or_default()),
                    Cur::Be(k) => add(f.body_end.entry(*k).or_default()),
                    Cur::Before(k) => add(f.before.entry(*k).or_default()),
                    Cur::After(k) => add(f.after.entry(*k).or_default()),
                    Cur::Filter(k) => add(f.filter.entry(*k).or_default()),
                    Cur::Sort(k) => add(f.sort.entry(*k).or_default()),
                    Cur::BeforeSort(k) => add(f.before_sort.entry(*k).or_default()),
                    Cur::AfterSort(k) => add(f.after_sort.entry(*k).or_default()),
                    Cur::AfterLet(n, k) => {
                        if let Some(x) = f.after_let.iter_mut().find(|x| x.0 == *n && x.1 == *k) {
                            add(&mut x.2)
                        } else {
                            let mut s = String::new();
                            add(&mut s);
                            f.after_let.push((n.clone(), *k, s));
                        }
                    }
                    _ => unreachable!(),
                }
            }
        }
    }
    m
}
