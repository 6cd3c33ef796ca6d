//! Extracts the functions of the macro-expanded crates into one file for the verifier and attaches
//! the contracts. See DESIGN.md for the list of rewriting rules.
//!
//!   vx-extract --out FILE --map FILE --crate NAME=EXPANDED.rs ... --contracts FILE ...
//!              [--spec MOD=FILE[,FILE]] ... [--degrade KEY] ... --prelude FILE
mod contracts;
mod print;
mod rewrite;

use contracts::{norm, Contracts, FnContract};
use proc_macro2::TokenStream;
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use syn::visit_mut::VisitMut;
use syn::*;

struct FnInfo {
    key: String,
    from: usize,
    to: usize,
    status: String,
    contract: bool,
    props: Vec<String>,
    log: Vec<String>,
    calls: BTreeSet<String>,
    src: String,
}

struct Ex<'a> {
    c: &'a Contracts,
    degrade: &'a BTreeSet<String>,
    vacuity: bool,
    out: String,
    fns: Vec<FnInfo>,
    used: BTreeSet<String>,
    used_impls: BTreeSet<String>,
    dropped: Vec<String>,
    krate: String,
    macros: BTreeSet<String>,
    discs: BTreeMap<String, Vec<(String, String)>>,
    /// Traits of the extracted crates: name, key and the default methods that every impl gets a copy of.
    traits: BTreeMap<String, (String, Vec<TraitItemFn>)>,
    free_no: usize,
    /// Inside the layer over serde.
    sd: bool,
    hoisted: BTreeSet<String>,
}

fn toks(t: &impl ToTokens) -> String {
    norm(&t.to_token_stream().to_string())
}

fn ts(s: &str) -> TokenStream {
    s.parse().unwrap_or_else(|e| panic!("does not tokenize: {e}: {s}"))
}

/// Imports of macros: the source is already expanded.
fn strip_use(t: UseTree, macros: &BTreeSet<String>) -> Option<UseTree> {
    match t {
        UseTree::Path(mut p) => {
            *p.tree = strip_use(*p.tree, macros)?;
            Some(UseTree::Path(p))
        }
        UseTree::Name(n) => if macros.contains(&n.ident.to_string()) { None } else { Some(UseTree::Name(n)) },
        UseTree::Rename(n) => if macros.contains(&n.ident.to_string()) { None } else { Some(UseTree::Rename(n)) },
        UseTree::Group(mut g) => {
            g.items = g.items.into_iter().filter_map(|i| strip_use(i, macros)).collect();
            if g.items.is_empty() { None } else { Some(UseTree::Group(g)) }
        }
        t => Some(t),
    }
}

fn is_auto(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("automatically_derived"))
}

impl<'a> Ex<'a> {
    fn line(&self) -> usize {
        self.out.bytes().filter(|b| *b == b'\n').count() + 1
    }

    fn emit(&mut self, t: TokenStream, indent: usize) {
        let s = print::print(t, indent);
        self.out.push_str(&s);
        if !self.out.ends_with('\n') {
            self.out.push('\n');
        }
    }

    fn text(&mut self, s: &str) {
        self.out.push_str(s);
        if !s.ends_with('\n') {
            self.out.push('\n');
        }
    }

    fn module(&mut self, path: &str, items: Vec<Item>, top: bool) {
        let name = path.rsplit("::").next().unwrap().to_string();
        if !top && self.c.skipmods.contains(&path.to_string()) {
            self.dropped.push(format!("mod {path}"));
            return;
        }
        let sd = self.sd;
        self.sd = sd || self.c.sdmods.contains(&path.to_string());
        self.text(&format!("pub mod {name} {{"));
        self.text("use vstd::prelude::*; use crate::spec::*; use crate::stdspec::*;");
        self.text("verus! { broadcast use {crate::stdspec::std_axioms, crate::spec::machine_facts};");
        if let Some(t) = self.c.mods.get(path) {
            let t = t.clone();
            self.text(&t);
        }
        for it in items {
            self.item(path, it);
        }
        self.text("} // verus!");
        self.text("}");
        self.sd = sd;
    }

    /// Items declared inside functions are moved to their module.
    fn hoist(&mut self, path: &str, b: &mut Block) {
        let mut inner = rewrite::Inner(vec![]);
        inner.visit_block_mut(b);
        for i in inner.0 {
            if !matches!(i, Item::Use(_)) || self.hoisted.insert(format!("{path} {}", toks(&i))) {
                self.item(path, i);
            }
        }
    }

    fn item(&mut self, path: &str, mut it: Item) {
        match &mut it {
            Item::Mod(m) => {
                if let Some((_, items)) = m.content.take() {
                    let p = format!("{path}::{}", m.ident);
                    self.text("} // verus!");
                    self.module(&p, items, false);
                    self.text("verus! {");
                }
            }
            Item::Use(u) => {
                rewrite::Paths { krate: &self.krate, sd: self.sd }.visit_item_use_mut(u);
                u.attrs.clear();
                u.vis = parse_quote!(pub);
                match strip_use(u.tree.clone(), &self.macros) {
                    Some(t) => u.tree = t,
                    None => return,
                }
                let s = u.to_token_stream().to_string();
                let n = norm(&s);
                if self.c.drops.iter().any(|d| n.contains(d)) || n.contains("prelude_import") || n.contains("::prelude::") {
                    return;
                }
                self.emit(u.to_token_stream(), 0);
            }
            Item::Enum(e) => {
                let key = format!("{path}::{}", e.ident);
                e.attrs.clear();
                e.vis = parse_quote!(pub);
                let mut d = vec![];
                for v in &mut e.variants {
                    v.attrs.clear();
                    for f in v.fields.iter_mut() {
                        f.attrs.clear();
                    }
                    if let Some((_, x)) = &v.discriminant {
                        d.push((v.ident.to_string(), toks(x)));
                    } else {
                        d.push((v.ident.to_string(), String::new()));
                    }
                }
                self.discs.insert(e.ident.to_string(), d.clone());
                if self.dropped(&key) {
                    return;
                }
                rewrite::Paths { krate: &self.krate, sd: self.sd }.visit_item_enum_mut(e);
                let unit_only = e.variants.iter().all(|v| matches!(v.fields, Fields::Unit));
                let id = e.ident.clone();
                let gens = e.generics.clone();
                let x = e.clone();
                if e.variants.iter().any(|v| v.discriminant.is_some()) {
                    // The macro would rewrite the literals.
                    self.text("} // verus!");
                    self.text("#[verifier::verify]");
                    self.emit(x.to_token_stream(), 0);
                    self.text("verus! {");
                } else {
                    self.emit(x.to_token_stream(), 0);
                }
                if unit_only && gens.params.is_empty() && !d.is_empty() {
                    // The discriminant, as rustc numbers it.
                    let mut last: i128 = -1;
                    let mut arms = TokenStream::new();
                    for (v, t) in d {
                        let vi = format_ident!("{}", v);
                        let n: i128 = if t.is_empty() { last + 1 } else { t.parse().unwrap_or(last + 1) };
                        last = n;
                        let l = proc_macro2::Literal::i128_unsuffixed(n);
                        arms.extend(quote!(#id::#vi => #l,));
                    }
                    self.emit(
                        quote! {
                            impl #id {
                                pub open spec fn vx_disc_spec(self) -> int { match self { #arms } }
                                pub fn vx_disc(&self) -> (r: isize) ensures r == self.vx_disc_spec() { match self { #arms } }
                            }
                        },
                        0,
                    );
                }
            }
            Item::Struct(s) => {
                let key = format!("{path}::{}", s.ident);
                if self.dropped(&key) {
                    return;
                }
                s.attrs.clear();
                s.vis = parse_quote!(pub);
                for f in s.fields.iter_mut() {
                    f.attrs.clear();
                    f.vis = parse_quote!(pub);
                }
                rewrite::Paths { krate: &self.krate, sd: self.sd }.visit_item_struct_mut(s);
                let bounded: Vec<Ident> = s.generics.type_params().filter(|t| !t.bounds.is_empty()).map(|t| t.ident.clone()).collect();
                for t in bounded {
                    s.attrs.push(parse_quote!(#[verifier::reject_recursive_types(#t)]));
                }
                self.emit(s.to_token_stream(), 0);
            }
            Item::Const(c) => {
                // Derived code sits in `const _: () = { ... }`.
                if c.ident == "_" {
                    if let Expr::Block(b) = &*c.expr {
                        for st in b.block.stmts.clone() {
                            if let Stmt::Item(i) = st {
                                match i {
                                    Item::Use(_) | Item::ExternCrate(_) => {}
                                    i => self.item(path, i),
                                }
                            }
                        }
                    }
                    return;
                }
                if self.dropped(&format!("{path}::{}", c.ident)) {
                    return;
                }
                c.attrs.clear();
                c.vis = parse_quote!(pub);
                rewrite::Paths { krate: &self.krate, sd: self.sd }.visit_item_const_mut(c);
                self.emit(c.to_token_stream(), 0);
            }
            Item::Type(t) => {
                t.attrs.clear();
                t.vis = parse_quote!(pub);
                rewrite::Paths { krate: &self.krate, sd: self.sd }.visit_item_type_mut(t);
                self.emit(t.to_token_stream(), 0);
            }
            Item::Fn(f) => {
                self.hoist(path, &mut f.block);
                let key = norm(&format!("{path}::{}", f.sig.ident));
                if self.dropped(&key) {
                    return;
                }
                let t = self.func(&key, &f.sig, Some(&f.block), true, None);
                self.place(key, t, 0);
            }
            Item::Trait(t) => {
                let key = norm(&format!("{path}::{}", t.ident));
                if self.dropped(&key) {
                    return;
                }
                rewrite::Paths { krate: &self.krate, sd: self.sd }.visit_generics_mut(&mut t.generics);
                let (id, g, w) = (&t.ident, &t.generics, &t.generics.where_clause);
                let mut sup = t.supertraits.to_token_stream();
                if let Some(x) = self.c.supers.get(&key) {
                    let x = ts(x);
                    sup = if sup.is_empty() { x } else { quote!(#x + #sup) };
                }
                let colon = if sup.is_empty() { quote!() } else { quote!(:) };
                let head = quote!(pub trait #id #g #colon #sup #w).to_string();
                self.traits.insert(id.to_string(), (key.clone(), vec![]));
                self.text(&format!("{head} {{"));
                if let Some(x) = self.c.impls.get(&key) {
                    self.used_impls.insert(key.clone());
                    let x = x.clone();
                    self.text(&x);
                }
                for i in t.items.clone() {
                    match i {
                        TraitItem::Fn(m) => {
                            let k = norm(&format!("{key}::{}", m.sig.ident));
                            if self.dropped(&k) {
                                continue;
                            }
                            let inst = m.default.is_some() && self.c.instantiate.contains(&k);
                            if inst {
                                self.traits.get_mut(&t.ident.to_string()).unwrap().1.push(m.clone());
                            }
                            let x = self.func(&k, &m.sig, if inst { None } else { m.default.as_ref() }, false, None);
                            self.place(k, x, 1);
                        }
                        o => {
                            let x = o.to_token_stream();
                            self.emit(x, 1)
                        }
                    }
                }
                self.text("}");
            }
            Item::Impl(i) => {
                for x in &mut i.items {
                    if let ImplItem::Fn(m) = x {
                        self.hoist(path, &mut m.block);
                    }
                }
                self.imp(path, i)
            }
            Item::Macro(_) | Item::ExternCrate(_) => {}
            o => self.dropped.push(format!("{path}: {}", toks(o).chars().take(60).collect::<String>())),
        }
    }

    fn dropped(&mut self, key: &str) -> bool {
        let k = norm(key);
        if self.c.drops.contains(&k) {
            self.dropped.push(key.to_string());
            return true;
        }
        false
    }

    fn imp(&mut self, path: &str, i: &mut ItemImpl) {
        i.attrs.retain(|a| a.path().is_ident("automatically_derived"));
        let auto = is_auto(&i.attrs);
        let ty = toks(&i.self_ty);
        let tr = i.trait_.as_ref().map(|t| {
            let mut p = t.1.clone();
            // ::core::clone::Clone -> Clone, __cbor::Decode -> Decode
            let last = p.segments.pop().unwrap().into_value();
            toks(&last)
        });
        let key = norm(&match &tr {
            Some(t) => format!("{path}::<{ty} as {t}>"),
            None => format!("{path}::{ty}"),
        });
        if i.trait_.is_some() && i.trait_.as_ref().unwrap().0.is_some() {
            return;
        }
        let keep = self.c.keeps.contains(&key);
        let codec = matches!(tr.as_deref(), Some("Decode" | "Encode" | "EncodeAsMap"));
        if auto && !keep && !codec || self.dropped(&key) {
            if auto && tr.as_deref() == Some("Debug") {
                // Only there to satisfy bounds.
                let (g, sty, w) = (&i.generics, &i.self_ty, &i.generics.where_clause);
                self.emit(quote!(#[verifier::external] impl #g core::fmt::Debug for #sty #w { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { unimplemented!() } }), 0);
            }
            if auto {
                self.dropped.push(format!("derived {key}"));
            }
            return;
        }
        let lifted = self.c.lifts.contains(&key);
        let mut i = i.clone();
        i.attrs.clear();
        {
            let mut p = rewrite::Paths { krate: &self.krate, sd: self.sd };
            p.visit_generics_mut(&mut i.generics);
            p.visit_type_mut(&mut i.self_ty);
            if let Some(t) = &mut i.trait_ {
                p.visit_path_mut(&mut t.1);
            }
        }
        self.instances(&mut i);
        if self.sd && i.trait_.is_some() {
            for x in &mut i.items {
                if let ImplItem::Fn(m) = x {
                    let names = m.sig.generics.type_params().enumerate().map(|(n, t)| (t.ident.clone(), quote::format_ident!("T{n}"))).collect();
                    let mut r = rewrite::Names(names);
                    r.visit_signature_mut(&mut m.sig);
                    r.visit_block_mut(&mut m.block);
                }
            }
        }
        if self.c.inherent.contains(&key) {
            self.inherent(&mut i);
        }
        if let Some(t) = &tr {
            if let Some((_, defaults)) = self.traits.get(t.split('<').next().unwrap()) {
                for d in defaults {
                    let has = i.items.iter().any(|x| matches!(x, ImplItem::Fn(m) if m.sig.ident == d.sig.ident));
                    if !has && !(self.c.special.contains(&key) && !i.items.iter().any(|x| matches!(x, ImplItem::Fn(m) if m.defaultness.is_some()))) {
                        let (sig, block) = (&d.sig, &d.default);
                        let mut sig = sig.clone();
                        sig.generics.where_clause = None;
                        i.items.push(parse_quote!(#sig #block));
                    }
                }
            }
        }
        if self.c.special.contains(&key) {
            self.special(path, &key, &i);
            return;
        }
        let (g, w) = (&i.generics, &i.generics.where_clause);
        let sty = &i.self_ty;
        if let Some(x) = self.c.impls.get(&norm(&format!("{key}::before"))) {
            let x = x.clone();
            self.used_impls.insert(norm(&format!("{key}::before")));
            self.text(&x);
        }
        let head = match (&i.trait_, lifted) {
            (Some(t), false) => {
                let mut t = t.1.clone();
                // Aliases that derived code uses.
                if t.segments.first().map_or(false, |s| s.ident == "__cbor") {
                    t = parse_quote!(crate::oasis_cbor::#t);
                    let segs: Vec<PathSegment> = t.segments.iter().filter(|s| s.ident != "__cbor").cloned().collect();
                    t.segments = segs.into_iter().collect();
                }
                quote!(impl #g #t for #sty #w)
            }
            _ => quote!(impl #g #sty #w),
        };
        let head = if !lifted { head } else {
            // The trait impl forwards; the body moves to an inherent function of the same name.
            let t = &i.trait_.as_ref().unwrap().1;
            let mut fwd = TokenStream::new();
            for it in &i.items {
                if let ImplItem::Fn(m) = it {
                    let sig = &m.sig;
                    let id = &sig.ident;
                    let args = sig.inputs.iter().map(|a| match a {
                        FnArg::Receiver(_) => quote!(self),
                        FnArg::Typed(t) => t.pat.to_token_stream(),
                    });
                    fwd.extend(quote!(#[verifier::external_body] #sig { <#sty>::#id(#(#args),*) }));
                }
            }
            self.emit(quote!(impl #g #t for #sty #w { #fwd }), 0);
            head
        };
        let s = print::print(head, 0);
        self.text(&format!("{} {{", s.trim_end()));
        if let Some(x) = self.c.impls.get(&key) {
            self.used_impls.insert(key.clone());
            let x = x.clone();
            self.text(&x);
        }
        let is_trait = i.trait_.is_some() && !lifted;
        for it in i.items.clone() {
            match it {
                ImplItem::Fn(m) => {
                    let k = norm(&format!("{key}::{}", m.sig.ident));
                    if self.dropped(&k) {
                        continue;
                    }
                    let t = self.func(&k, &m.sig, Some(&m.block), !is_trait, Some(ty.clone()));
                    self.place(k, t, 1);
                }
                ImplItem::Const(mut c) => {
                    c.attrs.clear();
                    if !is_trait {
                        c.vis = parse_quote!(pub);
                    }
                    self.emit(c.to_token_stream(), 1);
                }
                ImplItem::Type(mut t) => {
                    rewrite::Paths { krate: &self.krate, sd: self.sd }.visit_type_mut(&mut t.ty);
                    self.emit(t.to_token_stream(), 1)
                }
                _ => {}
            }
        }
        self.text("}");
    }

    /// Impls for every iterator over some type are checked for the one that vectors have.
    fn instances(&mut self, i: &mut ItemImpl) {
        let mut subst = vec![];
        for p in &i.generics.params {
            if let GenericParam::Type(t) = p {
                for b in &t.bounds {
                    if let TypeParamBound::Trait(b) = b {
                        let s = b.path.segments.last().unwrap();
                        if s.ident == "Iterator" {
                            if let PathArguments::AngleBracketed(a) = &s.arguments {
                                if let Some(GenericArgument::AssocType(x)) = a.args.first() {
                                    let ty = &x.ty;
                                    subst.push((t.ident.clone(), parse_quote!(std::vec::IntoIter<#ty>)));
                                }
                            }
                        }
                    }
                }
            }
        }
        for (id, ty) in subst {
            let keep: Vec<GenericParam> = i.generics.params.iter().filter(|p| !matches!(p, GenericParam::Type(t) if t.ident == id)).cloned().collect();
            i.generics.params = keep.into_iter().collect();
            rewrite::Subst(&id, &ty).visit_item_impl_mut(i);
        }
        if i.generics.params.is_empty() {
            i.generics.lt_token = None;
            i.generics.gt_token = None;
        }
    }

    /// A trait impl as an inherent impl: the associated types spelled out, `self` of a reference type as a reference.
    fn inherent(&mut self, i: &mut ItemImpl) {
        let mut assoc = BTreeMap::new();
        for x in &i.items {
            if let ImplItem::Type(t) = x {
                assoc.insert(t.ident.to_string(), t.ty.clone());
            }
        }
        i.items.retain(|x| matches!(x, ImplItem::Fn(_)));
        i.trait_ = None;
        let mut params: Vec<GenericParam> = i.generics.params.iter().cloned().collect();
        let mut by_ref = None;
        if let Type::Reference(r) = (*i.self_ty).clone() {
            if let Some(l) = &r.lifetime {
                params.retain(|p| !matches!(p, GenericParam::Lifetime(x) if x.lifetime == *l));
            }
            by_ref = Some((i.self_ty.clone(), r.mutability));
            i.self_ty = r.elem.clone();
        }
        i.generics.params.clear();
        i.generics.lt_token = None;
        i.generics.gt_token = None;
        for x in &mut i.items {
            if let ImplItem::Fn(m) = x {
                let own: Vec<GenericParam> = m.sig.generics.params.iter().cloned().collect();
                m.sig.generics.params = params.iter().cloned().chain(own).collect();
                let mut a = rewrite::Assoc(&assoc, by_ref.as_ref().map(|x| &*x.0));
                a.visit_signature_mut(&mut m.sig);
                a.visit_block_mut(&mut m.block);
                if let (Some((_, mu)), Some(FnArg::Receiver(r))) = (&by_ref, m.sig.inputs.first_mut()) {
                    if r.reference.is_none() {
                        *r = match mu { Some(_) => parse_quote!(&mut self), None => parse_quote!(&self) };
                    }
                }
            }
        }
    }

    /// Overlapping impls (`default fn`): the trait impl of the general one only dispatches, which is assumed; the
    /// bodies of all of them become functions of their own.
    fn special(&mut self, path: &str, key: &str, i: &ItemImpl) {
        let t = &i.trait_.as_ref().unwrap().1;
        let (g, w) = (&i.generics, &i.generics.where_clause);
        let sty = &i.self_ty;
        let before = norm(&format!("{key}::before"));
        if let Some(x) = self.c.impls.get(&before) {
            let x = x.clone();
            self.used_impls.insert(before);
            self.text(&x);
        }
        let general = i.items.iter().any(|x| matches!(x, ImplItem::Fn(m) if m.defaultness.is_some()));
        if general {
            let head = print::print(quote!(impl #g #t for #sty #w), 0);
            self.text(&format!("{} {{", head.trim_end()));
            if let Some(x) = self.c.impls.get(key) {
                self.used_impls.insert(key.to_string());
                let x = x.clone();
                self.text(&x);
            }
            for it in &i.items {
                if let ImplItem::Fn(m) = it {
                    if m.defaultness.is_none() {
                        let k = norm(&format!("{key}::{}", m.sig.ident));
                        let t = self.func(&k, &m.sig, Some(&m.block), false, None);
                        self.place(k, t, 1);
                        continue;
                    }
                    let sig = &m.sig;
                    self.emit(quote!(#[verifier::external_body] #sig { unimplemented!() }), 1);
                }
            }
            self.text("}");
            self.dropped.push(format!("dispatch between the overlapping impls of {key}"));
        }
        for it in &i.items {
            if let ImplItem::Fn(m) = it {
                if general && m.defaultness.is_none() {
                    continue;
                }
                let k = norm(&format!("{key}::{}", m.sig.ident));
                let mut m = m.clone();
                let mut st = rewrite::SelfTy(sty);
                st.visit_signature_mut(&mut m.sig);
                st.visit_block_mut(&mut m.block);
                let slf = format_ident!("vx_self");
                if let Some(FnArg::Receiver(r)) = m.sig.inputs.first().cloned() {
                    let (and, mu) = (r.reference.as_ref().map(|x| &x.0), if r.reference.is_some() { r.mutability } else { None });
                    m.sig.inputs[0] = parse_quote!(#slf: #and #mu #sty);
                    let ren = rewrite::rename(m.block.to_token_stream(), &[("self".to_string(), "vx_self".to_string())]);
                    m.block = syn::parse2(ren).unwrap();
                }
                let mut g2 = g.clone();
                g2.params.extend(m.sig.generics.params.clone());
                g2.where_clause = w.clone();
                if g2.params.is_empty() {
                    g2.lt_token = None;
                    g2.gt_token = None;
                }
                m.sig.generics = g2;
                m.sig.ident = format_ident!("vx_free{}_{}", self.free_no, m.sig.ident);
                self.free_no += 1;
                let _ = path;
                let t = self.func(&k, &m.sig, Some(&m.block), true, None);
                self.place(k, t, 0);
            }
        }
    }

    fn place(&mut self, key: String, t: (TokenStream, FnInfo), indent: usize) {
        let (t, mut info) = t;
        if !info.contract {
            // The contract of the trait's method binds its impls.
            let parts: Option<(&str, &str)> = key.rsplit_once(">::");
            if let Some((a, m)) = parts {
                let tr = a.rsplit("as").next().unwrap_or("").split('<').next().unwrap_or("").to_string();
                if let Some((tk, _)) = self.traits.get(&tr) {
                    if let Some(c) = self.c.fns.get(&norm(&format!("{tk}::{m}"))) {
                        info.contract = true;
                        info.props = c.props.clone();
                        if info.status == "nocontract" {
                            info.status = "contract".into();
                        }
                    }
                }
            }
        }
        info.from = self.line();
        self.text(&format!("// fn {key}"));
        self.emit(t, indent);
        info.to = self.line() - 1;
        self.fns.push(info);
    }

    fn func(&mut self, key: &str, sig: &Signature, block: Option<&Block>, vis: bool, self_ty: Option<String>) -> (TokenStream, FnInfo) {
        let empty = FnContract::default();
        let c = self.c.fns.get(key).unwrap_or(&empty);
        let has = self.c.fns.contains_key(key);
        if has {
            self.used.insert(key.to_string());
        }
        let mut status = if has { "contract" } else { "nocontract" }.to_string();
        let mut sig = sig.clone();
        let mut p = rewrite::Paths { krate: &self.krate, sd: self.sd };
        p.visit_signature_mut(&mut sig);
        // Names
        let names: Vec<String> = sig
            .inputs
            .iter()
            .map(|a| match a {
                FnArg::Receiver(_) => "self".to_string(),
                FnArg::Typed(t) => match &*t.pat {
                    Pat::Ident(i) => i.ident.to_string(),
                    _ => "_".to_string(),
                },
            })
            .collect();
        let mut map = vec![];
        let mut lost: Option<String> = None;
        if has && !c.params.is_empty() {
            if c.params.len() != names.len() {
                lost = Some(format!("the contract expects {} parameters, the source has {}", c.params.len(), names.len()));
            } else {
                for (a, b) in c.params.iter().zip(names.iter()) {
                    if a != b && b != "_" {
                        map.push((a.clone(), b.clone()));
                    }
                }
            }
        }
        for (n, a) in sig.inputs.iter_mut().enumerate() {
            if let FnArg::Typed(t) = a {
                if matches!(&*t.pat, Pat::Wild(_)) {
                    let id = c.params.get(n).cloned().unwrap_or(format!("_p{n}"));
                    let id = format_ident!("{}", id);
                    t.pat = parse_quote!(#id);
                }
            }
        }
        // impl Trait for arguments would hide nothing here.
        let ret = c.ret.clone().unwrap_or("ret".into());
        let r = format_ident!("{}", ret);
        let out = match &sig.output {
            ReturnType::Default => quote!(),
            ReturnType::Type(_, t) => quote!(-> (#r: #t)),
        };
        let spec = rewrite::rename(ts(&c.sig), &map);
        let mut calls = BTreeSet::new();
        let mut src = String::new();
        let mut log = vec![];
        let mut body = quote!(;);
        let mut attrs = ts(&c.attrs);
        if let Some(b) = block {
            struct Calls<'x>(&'x mut BTreeSet<String>);
            impl<'x, 'y> visit::Visit<'y> for Calls<'x> {
                fn visit_expr_call(&mut self, c: &'y ExprCall) {
                    if let Expr::Path(p) = &*c.func {
                        if let Some(s) = p.path.segments.last() {
                            self.0.insert(s.ident.to_string());
                        }
                    }
                    visit::visit_expr_call(self, c);
                }
                fn visit_expr_method_call(&mut self, c: &'y ExprMethodCall) {
                    self.0.insert(c.method.to_string());
                    visit::visit_expr_method_call(self, c);
                }
            }
            visit::Visit::visit_block(&mut Calls(&mut calls), b);
            src = b.to_token_stream().to_string();
            let mut b = b.clone();
            p.visit_block_mut(&mut b);
            let mut rw = rewrite::Body::new(c, self_ty);
            rw.ret_result = matches!(&sig.output, ReturnType::Type(_, t) if matches!(&**t, Type::Path(p) if p.path.segments.last().map_or(false, |s| s.ident == "Result")));
            let mut e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: b });
            rw.visit_expr_mut(&mut e);
            log = rw.log.clone();
            let maxl = c.loops.keys().next_back().map_or(0, |n| n + 1);
            if maxl > rw.loop_no {
                lost = Some(format!("the contract annotates loop {}, the source has {} loops", maxl - 1, rw.loop_no));
            } else if has && rw.loop_no > c.loops.len() {
                lost = Some(format!("the source has {} loops, the contract annotates {}", rw.loop_no, c.loops.len()));
            }
            let maxc = c.closures.keys().next_back().map_or(0, |n| n + 1);
            if maxc > rw.closure_no {
                lost = Some(format!("the contract annotates closure {}, the source has {} closures", maxc - 1, rw.closure_no));
            }
            if let Some(i) = rw.after_done.iter().position(|d| !d) {
                lost = Some(format!("no `let {}` in the source", c.after[i].0));
            }
            if let Expr::Block(b) = e {
                let stmts = &b.block.stmts;
                let facts: Vec<TokenStream> = self.c.facts.iter().filter(|f| key.starts_with(&format!("{}::", f.0))).map(|f| ts(&f.1)).collect();
                // Provided methods of traits cannot use facts about the trait itself.
                let provided = self.traits.values().any(|t| key.rsplit_once("::").map_or(false, |k| k.0 == t.0));
                let facts = if facts.is_empty() || provided { quote!() } else { quote!(broadcast use {#(#facts),*};) };
                let start = rewrite::rename(ts(&c.start), &map);
                let start = quote!(#facts #start);
                body = quote!({ #start #(#stmts)* });
                if !c.end.trim().is_empty() {
                    // Ghost code after the tail expression.
                    let end = rewrite::rename(ts(&c.end), &map);
                    let rid = format_ident!("{}", c.ret.clone().unwrap_or("ret".into()));
                    let (init, tail) = match stmts.split_last() {
                        Some((Stmt::Expr(e, None), init)) => (init.to_vec(), e.to_token_stream()),
                        _ => (stmts.to_vec(), quote!(())),
                    };
                    body = quote!({ #start #(#init)* let #rid = #tail; #end #rid });
                }
            }
        }
        if let Some(w) = &c.trusted {
            status = format!("trusted: {w}");
        } else if self.degrade.contains(key) {
            status = "degraded: proof not re-established".into();
        } else if let Some(l) = lost {
            status = format!("lost: {l}");
        }
        if block.is_some() && (status.starts_with("trusted") || status.starts_with("degraded") || status.starts_with("lost")) {
            attrs = quote!(#[verifier::external_body]);
            body = quote!({ unimplemented!() });
        }
        else if self.vacuity && has && block.is_some() {
            // Must fail: nothing is provable from a contract that can be met.
            body = quote!({ proof { assert(false); } #body });
        }
        let pubt = if vis { quote!(pub) } else { quote!() };
        let id = &sig.ident;
        let generics = &sig.generics;
        let wher = &sig.generics.where_clause;
        let inputs = &sig.inputs;
        let (gp, _, _) = generics.split_for_impl();
        let _ = gp;
        let mut g2 = generics.clone();
        g2.where_clause = None;
        let t = quote!(#attrs #pubt fn #id #g2 (#inputs) #out #wher #spec #body);
        (
            t,
            FnInfo { key: key.to_string(), from: 0, to: 0, status, contract: has, props: c.props.clone(), log, calls, src },
        )
    }
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\t' => o += "\\t",
            '\r' => o += "\\r",
            c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o + "\""
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let (mut out, mut map, mut prelude) = (String::new(), String::new(), String::new());
    let mut crates = vec![];
    let mut specs = vec![];
    let mut c = Contracts::default();
    let mut degrade = BTreeSet::new();
    let mut vacuity = false;
    let mut i = 0;
    while i < args.len() {
        let v = args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "--out" => out = v,
            "--map" => map = v,
            "--prelude" => prelude = v,
            "--crate" => {
                let (a, b) = v.split_once('=').unwrap();
                crates.push((a.to_string(), b.to_string()));
            }
            "--spec" => {
                let (a, b) = v.split_once('=').unwrap();
                specs.push((a.to_string(), b.split(',').map(|s| s.to_string()).collect::<Vec<_>>()));
            }
            "--contracts" => Contracts::load(&std::fs::read_to_string(&v).unwrap(), &mut c),
            "--degrade" => {
                degrade.insert(norm(&v));
            }
            "--vacuity" => vacuity = v == "1",
            a => panic!("unknown argument {a}"),
        }
        i += 2;
    }
    let mut ex = Ex {
        c: &c,
        degrade: &degrade,
        vacuity,
        out: String::new(),
        fns: vec![],
        used: Default::default(),
        used_impls: Default::default(),
        dropped: vec![],
        krate: String::new(),
        macros: Default::default(),
        discs: Default::default(),
        traits: Default::default(),
        free_no: 0,
        sd: false,
        hoisted: Default::default(),
    };
    ex.text(&std::fs::read_to_string(&prelude).unwrap());
    let mut spec_lines = vec![];
    for (m, files) in &specs {
        let from = ex.line();
        ex.text(&format!("pub mod {m} {{ use vstd::prelude::*; verus! {{"));
        for f in files {
            let t = std::fs::read_to_string(f).unwrap();
            ex.text(&t);
        }
        ex.text("} }");
        spec_lines.push((m.clone(), from, ex.line() - 1));
    }
    for (_, file) in &crates {
        if let Ok(f) = syn::parse_file(&std::fs::read_to_string(file).unwrap()) {
            struct M<'x>(&'x mut BTreeSet<String>);
            impl<'x, 'y> visit::Visit<'y> for M<'x> {
                fn visit_item_macro(&mut self, m: &'y ItemMacro) {
                    if let Some(i) = &m.ident {
                        self.0.insert(i.to_string());
                    }
                }
            }
            visit::Visit::visit_file(&mut M(&mut ex.macros), &f);
        }
    }
    for (name, file) in &crates {
        let src = std::fs::read_to_string(file).unwrap();
        let f = match syn::parse_file(&src) {
            Ok(f) => f,
            Err(e) => {
                eprintln!("cannot parse {file}: {e} at {:?}", e.span().start());
                std::process::exit(3);
            }
        };
        ex.krate = name.clone();
        let items = f.items;
        ex.module(name, items, true);
    }
    ex.text("fn main() {}");
    std::fs::write(&out, &ex.out).unwrap();
    let mut j = String::from("{\n \"functions\": [\n");
    for (n, f) in ex.fns.iter().enumerate() {
        let calls: Vec<String> = f.calls.iter().map(|s| json(s)).collect();
        let props: Vec<String> = f.props.iter().map(|s| json(s)).collect();
        let log: Vec<String> = f.log.iter().map(|s| json(s)).collect();
        writeln!(
            j,
            "  {{\"key\": {}, \"from\": {}, \"to\": {}, \"status\": {}, \"contract\": {}, \"props\": [{}], \"rules\": [{}], \"calls\": [{}], \"body\": {}}}{}",
            json(&f.key), f.from, f.to, json(&f.status), f.contract, props.join(", "), log.join(", "), calls.join(", "), json(&f.src),
            if n + 1 < ex.fns.len() { "," } else { "" }
        )
        .unwrap();
    }
    j += " ],\n \"missing\": [";
    let missing: Vec<String> = c.fns.values().filter(|f| !ex.used.contains(&f.key) && !f.optional).map(|f| json(&f.key)).collect();
    j += &missing.join(", ");
    j += "],\n \"missing_impls\": [";
    let missing: Vec<String> = c.impls.keys().filter(|f| !ex.used_impls.contains(*f)).map(|f| json(f)).collect();
    j += &missing.join(", ");
    j += "],\n \"dropped\": [";
    let d: Vec<String> = ex.dropped.iter().map(|s| json(s)).collect();
    j += &d.join(", ");
    j += "],\n \"specs\": [";
    let d: Vec<String> = spec_lines.iter().map(|s| format!("[{}, {}, {}]", json(&s.0), s.1, s.2)).collect();
    j += &d.join(", ");
    j += "]\n}\n";
    std::fs::write(&map, j).unwrap();
}
