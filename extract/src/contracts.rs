//! Contract files: sections that start with '@', attached to functions, traits, impls and modules
//! of the extracted crates by name.
use std::collections::BTreeMap;

#[derive(Default, Debug, Clone)]
pub struct FnContract {
    pub key: String,
    pub params: Vec<String>,
    pub ret: Option<String>,
    pub sig: String,
    pub start: String,
    pub loops: BTreeMap<usize, LoopContract>,
    pub closures: BTreeMap<usize, ClosureContract>,
    pub after: Vec<(String, String)>,
    pub trusted: Option<String>,
    pub props: Vec<String>,
    pub attrs: String,
    pub end: String,
    pub optional: bool,
    pub ifs: BTreeMap<usize, String>,
    pub generics: Option<String>,
}

#[derive(Default, Debug, Clone)]
pub struct LoopContract {
    pub inv: String,
    pub start: String,
    pub end: String,
    pub before: String,
    pub after: String,
}

#[derive(Default, Debug, Clone)]
pub struct ClosureContract {
    pub head: String,
    pub spec: String,
    pub start: String,
}

#[derive(Default, Debug)]
pub struct Contracts {
    pub fns: BTreeMap<String, FnContract>,
    pub impls: BTreeMap<String, String>,
    pub mods: BTreeMap<String, String>,
    pub drops: Vec<String>,
    pub lifts: Vec<String>,
    pub keeps: Vec<String>,
    pub skipmods: Vec<String>,
    pub instantiate: Vec<String>,
    pub special: Vec<String>,
    pub inherent: Vec<String>,
    pub sdmods: Vec<String>,
    pub supers: BTreeMap<String, String>,
    pub order: Vec<String>,
    pub facts: Vec<(String, String)>,
}

impl Contracts {
    pub fn load(text: &str, into: &mut Contracts) {
        let mut cur_fn: Option<String> = None;
        // (kind, arg) of the section the following lines go to
        let mut sec: (String, String) = (String::new(), String::new());
        for line in text.lines() {
            if line.trim_start().starts_with("//#") {
                continue;
            }
            if let Some(rest) = line.strip_prefix('@') {
                let mut it = rest.splitn(2, char::is_whitespace);
                let kind = it.next().unwrap().to_string();
                let arg = it.next().unwrap_or("").trim().to_string();
                match kind.as_str() {
                    "fn" => {
                        let key = norm(&arg);
                        into.fns.entry(key.clone()).or_default().key = key.clone();
                        into.order.push(key.clone());
                        cur_fn = Some(key);
                    }
                    "drop" => into.drops.push(norm(&arg)),
                    "lift" => into.lifts.push(norm(&arg)),
                    "keep" => into.keeps.push(norm(&arg)),
                    "instantiate" => into.instantiate.push(norm(&arg)),
                    "serde" => into.sdmods.push(norm(&arg)),
                    "inherent" => into.inherent.push(norm(&arg)),
                    "special" => into.special.push(norm(&arg)),
                    "super" => {
                        let (a, b) = arg.split_once(' ').unwrap();
                        into.supers.insert(norm(a), b.to_string());
                    }
                    "facts" => {
                        let (a, b) = arg.split_once(' ').unwrap();
                        into.facts.push((norm(a), b.to_string()));
                    }
                    "skipmod" => into.skipmods.push(norm(&arg)),
                    "params" => {
                        f(into, &cur_fn).params = arg.split_whitespace().map(|s| s.to_string()).collect()
                    }
                    "generics" => f(into, &cur_fn).generics = Some(arg.clone()),
                    "ret" => f(into, &cur_fn).ret = Some(arg.clone()),
                    "trusted" => f(into, &cur_fn).trusted = Some(arg.clone()),
                    "optional" => f(into, &cur_fn).optional = true,
                    "props" => {
                        f(into, &cur_fn).props = arg.split_whitespace().map(|s| s.to_string()).collect()
                    }
                    "closure" => {
                        let mut it = arg.splitn(2, char::is_whitespace);
                        let n: usize = it.next().unwrap().parse().unwrap();
                        f(into, &cur_fn).closures.entry(n).or_default().head =
                            it.next().unwrap_or("").to_string();
                    }
                    _ => {}
                }
                sec = (kind, arg);
                continue;
            }
            let l = format!("{line}\n");
            match sec.0.as_str() {
                "sig" | "fn" | "ret" | "params" | "props" | "generics" => {
                    if !line.trim().is_empty() {
                        f(into, &cur_fn).sig += &l
                    }
                }
                "start" => f(into, &cur_fn).start += &l,
                "end" => f(into, &cur_fn).end += &l,
                "attrs" => f(into, &cur_fn).attrs += &l,
                "loop" => lp(into, &cur_fn, &sec.1).inv += &l,
                "loopstart" => lp(into, &cur_fn, &sec.1).start += &l,
                "loopend" => lp(into, &cur_fn, &sec.1).end += &l,
                "beforeloop" => lp(into, &cur_fn, &sec.1).before += &l,
                "afterloop" => lp(into, &cur_fn, &sec.1).after += &l,
                "closure" => {
                    let n: usize = sec.1.split_whitespace().next().unwrap().parse().unwrap();
                    f(into, &cur_fn).closures.entry(n).or_default().spec += &l
                }
                "closurestart" => {
                    let n: usize = sec.1.parse().unwrap();
                    f(into, &cur_fn).closures.entry(n).or_default().start += &l
                }
                "after" => {
                    let a = sec.1.clone();
                    let fc = f(into, &cur_fn);
                    match fc.after.iter_mut().find(|x| x.0 == a) {
                        Some(x) => x.1 += &l,
                        None => fc.after.push((a, l)),
                    }
                }
                "impl" | "trait" => *into.impls.entry(norm(&sec.1)).or_default() += &l,
                "mod" => *into.mods.entry(sec.1.clone()).or_default() += &l,
                _ => {
                    if !line.trim().is_empty() {
                        panic!("contract text outside a section: {line}")
                    }
                }
            }
        }
    }
}

/// Names are compared without whitespace.
pub fn norm(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

fn f<'a>(c: &'a mut Contracts, cur: &Option<String>) -> &'a mut FnContract {
    c.fns.get_mut(cur.as_ref().expect("section outside @fn")).unwrap()
}

fn lp<'a>(c: &'a mut Contracts, cur: &Option<String>, arg: &str) -> &'a mut LoopContract {
    let n: usize = arg.split_whitespace().next().unwrap().parse().unwrap();
    f(c, cur).loops.entry(n).or_default()
}
