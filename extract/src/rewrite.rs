//! Mechanical rewriting of function bodies into the subset the verifier reads. Every rule keeps
//! the behaviour of the expression it replaces; the rules are listed in DESIGN.md.
use crate::contracts::FnContract;
use proc_macro2::TokenStream;
use quote::{quote, ToTokens};
use syn::visit_mut::{self, VisitMut};
use syn::*;

/// Paths: one file holds all crates, each in a module of its own.
pub struct Paths<'a> {
    pub krate: &'a str,
    /// The traits of serde are those of the specification.
    pub sd: bool,
}

const RESERVED: &[&str] = &[
    "int", "nat", "spec", "proof", "exec", "ghost", "tracked", "requires", "ensures", "invariant", "decreases", "recommends", "open", "closed",
    "opens_invariants", "forall", "exists", "choose", "broadcast", "axiom", "returns", "no_unwind", "default_ensures", "real", "arbitrary",
];

impl<'a> Paths<'a> {
    fn fix(&self, segs: &mut punctuated::Punctuated<PathSegment, Token![::]>, lead: &mut Option<Token![::]>) {
        if segs.is_empty() {
            return;
        }
        let first = segs[0].ident.to_string();
        let k = Ident::new(self.krate, segs[0].ident.span());
        if self.sd && (first == "serde" || first == "serde_core") && segs.len() > 1 {
            *lead = None;
            let span = segs[0].ident.span();
            if segs.len() == 3 && segs[1].ident == "__private" {
                let last = segs.pop().unwrap().into_value();
                segs.clear();
                segs.push(PathSegment::from(Ident::new("core", span)));
                segs.push(PathSegment::from(Ident::new("result", span)));
                segs.push(last);
                return;
            }
            segs[0].ident = Ident::new("sd", span);
            segs.insert(0, PathSegment::from(Ident::new("crate", span)));
            return;
        }
        match first.as_str() {
            "crate" => {
                segs.insert(1, PathSegment::from(k));
            }
            // What derived code calls the crate.
            "__cbor" if segs.len() > 1 => {
                segs[0].ident = Ident::new("oasis_cbor", segs[0].ident.span());
                segs.insert(0, PathSegment::from(Ident::new("crate", segs[0].ident.span())));
            }
            "alloc" => {
                segs[0].ident = Ident::new("std", segs[0].ident.span());
            }
            "oasis_cbor_value" | "oasis_cbor" if segs.len() > 1 || lead.is_some() => {
                *lead = None;
                segs.insert(0, PathSegment::from(Ident::new("crate", segs[0].ident.span())));
            }
            _ => {}
        }
    }
}

impl<'a> VisitMut for Paths<'a> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        let mut lead = p.leading_colon.take();
        self.fix(&mut p.segments, &mut lead);
        p.leading_colon = lead;
    }
    fn visit_attribute_mut(&mut self, _: &mut Attribute) {}
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        // Words the verifier reserves.
        if RESERVED.contains(&i.to_string().as_str()) {
            *i = Ident::new(&format!("{i}_"), i.span());
        }
    }
    fn visit_item_use_mut(&mut self, u: &mut ItemUse) {
        let mut lead = u.leading_colon.take();
        if let UseTree::Path(p) = &mut u.tree {
            let k = Ident::new(self.krate, p.ident.span());
            let first = p.ident.to_string();
            match first.as_str() {
                "serde" | "serde_core" if self.sd => {
                    lead = None;
                    p.ident = Ident::new("sd", p.ident.span());
                    let inner = u.tree.clone();
                    u.tree = UseTree::Path(UsePath { ident: Ident::new("crate", proc_macro2::Span::call_site()), colon2_token: Default::default(), tree: Box::new(inner) });
                }
                "crate" => {
                    let inner = (*p.tree).clone();
                    *p.tree = UseTree::Path(UsePath { ident: k, colon2_token: Default::default(), tree: Box::new(inner) });
                }
                "alloc" => p.ident = Ident::new("std", p.ident.span()),
                "oasis_cbor_value" | "oasis_cbor" => {
                    lead = None;
                    let inner = u.tree.clone();
                    u.tree = UseTree::Path(UsePath {
                        ident: Ident::new("crate", proc_macro2::Span::call_site()),
                        colon2_token: Default::default(),
                        tree: Box::new(inner),
                    });
                }
                _ => {}
            }
        }
        u.leading_colon = lead;
    }
}

/// `Self` spelled out.
pub struct SelfTy<'a>(pub &'a Type);
impl<'a> VisitMut for SelfTy<'a> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            if p.qself.is_none() && p.path.is_ident("Self") {
                *t = self.0.clone();
                return;
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.qself.is_none() && p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" {
            let (t, m) = (self.0, &p.path.segments[1]);
            *p = parse_quote!(<#t>::#m);
        }
    }
}

/// The associated types of an impl spelled out, and `Self` if it is a reference.
pub struct Assoc<'a>(pub &'a std::collections::BTreeMap<String, Type>, pub Option<&'a Type>);
impl<'a> VisitMut for Assoc<'a> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            let n = p.path.segments.len();
            let own = match &p.qself {
                None => n == 2 && p.path.segments[0].ident == "Self",
                Some(q) => matches!(&*q.ty, Type::Path(x) if x.qself.is_none() && x.path.is_ident("Self")) && q.position + 1 == n,
            };
            if own {
                if let Some(x) = self.0.get(&p.path.segments[n - 1].ident.to_string()) {
                    *t = x.clone();
                    return;
                }
            }
            if let Some(x) = self.1 {
                if p.qself.is_none() && p.path.is_ident("Self") {
                    *t = x.clone();
                    return;
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        let segs = &p.path.segments;
        if p.qself.is_none() && segs.len() >= 3 && segs[0].ident == "Self" {
            if let Some(Type::Path(x)) = self.0.get(&segs[1].ident.to_string()) {
                let (x, rest) = (&x.path, segs.iter().skip(2));
                *p = parse_quote!(#x #(::#rest)*);
                return;
            }
        }
        visit_mut::visit_expr_path_mut(self, p);
    }
}

/// A type parameter replaced by a type.
pub struct Subst<'a>(pub &'a Ident, pub &'a Type);
impl<'a> VisitMut for Subst<'a> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if matches!(t, Type::Path(p) if p.qself.is_none() && p.path.is_ident(self.0)) {
            *t = self.1.clone();
            return;
        }
        visit_mut::visit_type_mut(self, t);
    }
}

/// Type parameters of a method under the names the mirrored traits give them.
pub struct Names(pub Vec<(Ident, Ident)>);
impl VisitMut for Names {
    fn visit_path_mut(&mut self, p: &mut Path) {
        if p.leading_colon.is_none() {
            let s = &mut p.segments[0];
            if let Some((_, b)) = self.0.iter().find(|(a, _)| *a == s.ident) {
                s.ident = b.clone();
            }
        }
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_type_param_mut(&mut self, t: &mut TypeParam) {
        if let Some((_, b)) = self.0.iter().find(|(a, _)| *a == t.ident) {
            t.ident = b.clone();
        }
        visit_mut::visit_type_param_mut(self, t);
    }
}

/// Items declared inside a function.
pub struct Inner(pub Vec<Item>);
impl VisitMut for Inner {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let old = std::mem::take(&mut b.stmts);
        for s in old {
            match s {
                Stmt::Item(Item::Macro(_)) => {}
                s @ Stmt::Item(Item::Const(_) | Item::Static(_)) => b.stmts.push(s),
                Stmt::Item(i) => self.0.push(i),
                s => b.stmts.push(s),
            }
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

/// `X.into_iter()` or `IntoIterator::into_iter(X)`.
fn into_iter_of(e: &Expr) -> Option<&Expr> {
    match e {
        Expr::MethodCall(m) if m.method == "into_iter" && m.args.is_empty() => Some(&m.receiver),
        Expr::Call(c) if c.args.len() == 1 => match &*c.func {
            Expr::Path(p) if p.path.segments.last().map_or(false, |s| s.ident == "into_iter") => Some(&c.args[0]),
            _ => None,
        },
        Expr::Paren(p) => into_iter_of(&p.expr),
        _ => None,
    }
}

/// Surely a truth value.
fn boolish(e: &Expr) -> bool {
    match e {
        Expr::MethodCall(m) => m.method.to_string().starts_with("is_"),
        Expr::Paren(p) => boolish(&p.expr),
        Expr::Lit(l) => matches!(l.lit, Lit::Bool(_)),
        Expr::Unary(u) => matches!(u.op, UnOp::Not(_)) && boolish(&u.expr),
        Expr::Binary(b) => match b.op {
            BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_) | BinOp::And(_) | BinOp::Or(_) => true,
            BinOp::BitAnd(_) | BinOp::BitOr(_) => boolish(&b.left) || boolish(&b.right),
            _ => false,
        },
        _ => false,
    }
}

/// `x[a..]`
fn from_index(e: &Expr) -> Option<(&Expr, &Expr)> {
    if let Expr::Index(i) = e {
        if let Expr::Range(r) = &*i.index {
            if let (Some(a), None) = (&r.start, &r.end) {
                return Some((&i.expr, a));
            }
        }
    }
    None
}

pub fn has_escape(e: &Expr) -> bool {
    struct F(bool);
    impl<'a> visit::Visit<'a> for F {
        fn visit_expr_return(&mut self, _: &'a ExprReturn) {
            self.0 = true
        }
        fn visit_expr_try(&mut self, _: &'a ExprTry) {
            self.0 = true
        }
        fn visit_expr_break(&mut self, _: &'a ExprBreak) {
            self.0 = true
        }
        fn visit_expr_continue(&mut self, _: &'a ExprContinue) {
            self.0 = true
        }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut f = F(false);
    visit::Visit::visit_expr(&mut f, e);
    f.0
}

const ITER_METHODS: &[&str] = &[
    "iter", "into_iter", "iter_mut", "zip", "rev", "enumerate", "filter", "peekable", "chain", "map", "skip", "take",
    "filter_map", "cloned", "copied", "drain",
];

/// Does the receiver look like an iterator?
fn is_iter(e: &Expr) -> bool {
    match e {
        Expr::MethodCall(m) => ITER_METHODS.contains(&m.method.to_string().as_str()),
        Expr::Call(c) => match &*c.func {
            Expr::Path(p) => p.path.segments.last().map_or(false, |s| s.ident == "into_iter"),
            _ => false,
        },
        Expr::Paren(p) => is_iter(&p.expr),
        _ => false,
    }
}

fn closure1(e: &Expr) -> Option<(&Pat, &Expr)> {
    match e {
        Expr::Closure(c) if c.inputs.len() == 1 && c.capture.is_none() || matches!(e, Expr::Closure(c) if c.inputs.len() == 1) => {
            if let Expr::Closure(c) = e {
                if has_escape(&c.body) {
                    return None;
                }
                let p = match &c.inputs[0] {
                    Pat::Type(t) => &*t.pat,
                    p => p,
                };
                Some((p, &c.body))
            } else {
                None
            }
        }
        _ => None,
    }
}

fn closure0(e: &Expr) -> Option<&Expr> {
    match e {
        Expr::Closure(c) if c.inputs.is_empty() && !has_escape(&c.body) => Some(&c.body),
        _ => None,
    }
}

fn v(ts: TokenStream) -> Expr {
    Expr::Verbatim(ts)
}

fn is_lit_like(e: &Expr) -> bool {
    matches!(e, Expr::Lit(_) | Expr::Path(_))
}

pub struct Body<'a> {
    pub c: &'a FnContract,
    pub self_ty: Option<String>,
    pub loop_no: usize,
    pub closure_no: usize,
    pub after_done: Vec<bool>,
    pub slice_binds: Vec<String>,
    pub slice_else: Option<Expr>,
    pub log: Vec<String>,
    pub tmp: usize,
    pub ret_result: bool,
}

fn ts(s: &str) -> TokenStream {
    s.parse().unwrap_or_else(|e| panic!("contract text does not tokenize: {e}: {s}"))
}

impl<'a> Body<'a> {
    pub fn new(c: &'a FnContract, self_ty: Option<String>) -> Self {
        Body { c, self_ty, loop_no: 0, closure_no: 0, after_done: vec![false; c.after.len()], slice_binds: vec![], slice_else: None, log: vec![], tmp: 0, ret_result: false }
    }

    fn with_loop(&mut self, n: usize, head: TokenStream, body: &Block, iter: bool) -> Expr {
        let c = self.c.loops.get(&n).cloned().unwrap_or_default();
        let inv = ts(&c.inv);
        let start = ts(&c.start);
        let end = ts(&c.end);
        let stmts = &body.stmts;
        let before = ts(&c.before);
        let after = ts(&c.after);
        let _ = iter;
        let l = quote!(#head #inv { #start #(#stmts)* #end });
        if c.before.trim().is_empty() && c.after.trim().is_empty() {
            v(l)
        } else {
            v(quote!(#before #l #after))
        }
    }

    /// Patterns `[a, b]` on slices become a length guard and element bindings.
    fn slice_arm(&mut self, arm: &mut Arm) {
        struct F<'b> {
            n: &'b mut usize,
            found: Vec<(Ident, Vec<Pat>)>,
            bad: bool,
        }
        impl<'b> VisitMut for F<'b> {
            fn visit_pat_mut(&mut self, p: &mut Pat) {
                if let Pat::Slice(s) = p {
                    let elems: Vec<Pat> = s.elems.iter().cloned().collect();
                    if elems.iter().any(|e| !matches!(e, Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none()) && !matches!(e, Pat::Wild(_))) {
                        self.bad = true;
                        return;
                    }
                    let id = quote::format_ident!("__vx_s{}", *self.n);
                    *self.n += 1;
                    *p = parse_quote!(#id);
                    self.found.push((id, elems));
                    return;
                }
                visit_mut::visit_pat_mut(self, p);
            }
        }
        let mut f = F { n: &mut self.tmp, found: vec![], bad: false };
        let mut pat = arm.pat.clone();
        f.visit_pat_mut(&mut pat);
        if f.bad || f.found.is_empty() {
            return;
        }
        let found = std::mem::take(&mut f.found);
        arm.pat = pat;
        let mut guard: Option<TokenStream> = None;
        let mut binds = TokenStream::new();
        for (id, elems) in &found {
            let n = elems.len();
            let g = quote!(#id.len() == #n);
            guard = Some(match guard {
                None => g,
                Some(h) => quote!(#h && #g),
            });
            for (i, e) in elems.iter().enumerate() {
                if let Pat::Ident(pi) = e {
                    let id2 = &pi.ident;
                    self.slice_binds.push(id2.to_string());
                    binds.extend(quote!(let #id2 = &#id[#i];));
                }
            }
        }
        if let Some((_, g)) = &arm.guard {
            // The guard may use the bindings: nest it.
            guard = Some(quote!(#guard && { #binds #g }));
        }
        let body = &arm.body;
        if let Some(other) = self.slice_else.take() {
            arm.body = Box::new(v(quote!({ if #guard { #binds #body } else { #other } })));
            self.log.push("slice pattern".into());
            return;
        }
        arm.guard = Some((Default::default(), Box::new(v(guard.unwrap()))));
        arm.body = Box::new(v(quote!({ #binds #body })));
        self.log.push("slice pattern".into());
    }

    fn deref_operand(&self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if let Some(i) = p.path.get_ident() {
                if self.slice_binds.contains(&i.to_string()) {
                    *e = parse_quote!((*#i));
                }
            }
        }
    }
}

impl<'a> VisitMut for Body<'a> {
    fn visit_attribute_mut(&mut self, _: &mut Attribute) {}

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // Attributes on expressions carry no behaviour.
        match e {
            Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) => {
                let n = self.loop_no;
                self.loop_no += 1;
                visit_mut::visit_expr_mut(self, e);
                let new = match e {
                    Expr::ForLoop(f) => {
                        let (pat, ex, label) = (&f.pat, &f.expr, &f.label);
                        let it = quote::format_ident!("it{}", if n == 0 { String::new() } else { n.to_string() });
                        let head = if self.c.loops.contains_key(&n) { quote!(#label for #pat in #it: #ex) } else { quote!(#label for #pat in #ex) };
                        let b = f.body.clone();
                        self.with_loop(n, head, &b, true)
                    }
                    Expr::While(w) => {
                        let (cond, label) = (&w.cond, &w.label);
                        let head = quote!(#label while #cond);
                        let b = w.body.clone();
                        self.with_loop(n, head, &b, false)
                    }
                    Expr::Loop(l) => {
                        let label = &l.label;
                        let head = quote!(#label loop);
                        let b = l.body.clone();
                        self.with_loop(n, head, &b, false)
                    }
                    _ => unreachable!(),
                };
                *e = new;
                return;
            }
            Expr::Match(m) => {
                // `P([a]) => x, _ => y`: a nested condition instead of a guard.
                if m.arms.len() == 2 && matches!(m.arms[1].pat, Pat::Wild(_)) && m.arms[1].guard.is_none() && m.arms[0].guard.is_none() {
                    let mut other = (*m.arms[1].body).clone();
                    self.visit_expr_mut(&mut other);
                    self.slice_else = Some(other);
                }
                for arm in &mut m.arms {
                    self.slice_arm_pre(arm);
                    self.slice_else = None;
                }
            }
            _ => {}
        }
        // X.into_iter().map(F).collect() and X.into_iter().collect()
        if let Expr::MethodCall(c) = e {
            if c.method == "collect" && c.args.is_empty() {
                let t = match &c.turbofish {
                    Some(t) => t.args.to_token_stream(),
                    None => quote!(_),
                };
                if let Expr::MethodCall(m) = &*c.receiver {
                    if m.method == "map" && m.args.len() == 1 {
                        if let Some(x) = into_iter_of(&m.receiver) {
                            let (mut x, mut f) = (x.clone(), m.args[0].clone());
                            self.visit_expr_mut(&mut x);
                            self.visit_expr_mut(&mut f);
                            *e = v(quote!(vx_map_collect::<#t, _, _, _, _>(#x, #f)));
                            self.log.push("map and collect -> vx_map_collect".into());
                            return;
                        }
                    }
                }
                if let Some(x) = into_iter_of(&c.receiver) {
                    let mut x = x.clone();
                    self.visit_expr_mut(&mut x);
                    *e = v(quote!(vx_collect::<#t, _, _>(#x)));
                    self.log.push("collect -> vx_collect".into());
                    return;
                }
            }
            // X[a..].copy_from_slice(Y)
            if c.method == "copy_from_slice" && c.args.len() == 1 {
                if let Some((x, a)) = from_index(&c.receiver) {
                    let (mut x, mut a, mut y) = (x.clone(), a.clone(), c.args[0].clone());
                    self.visit_expr_mut(&mut x);
                    self.visit_expr_mut(&mut a);
                    self.visit_expr_mut(&mut y);
                    *e = v(quote!(vx_copy_from(&mut #x, #a, #y)));
                    self.log.push("copy_from_slice -> vx_copy_from".into());
                    return;
                }
            }
        }
        // Map entries in derived code.
        if let Expr::MethodCall(m) = e {
            if (m.method == "sort" || m.method == "sort_unstable") && m.args.is_empty() {
                let mut x = (*m.receiver).clone();
                self.visit_expr_mut(&mut x);
                *e = v(quote!(vx_sort(&mut #x)));
                self.log.push("sort -> vx_sort".into());
                return;
            }
            if m.method == "peekable" && m.args.is_empty() {
                if let Some(x) = into_iter_of(&m.receiver) {
                    let mut x = x.clone();
                    self.visit_expr_mut(&mut x);
                    *e = v(quote!(vx_peekable(#x)));
                    self.log.push("into_iter().peekable() -> vx_peekable".into());
                    return;
                }
            }
            if m.method == "find" && m.args.len() == 1 {
                if let Expr::MethodCall(n) = &*m.receiver {
                    if let (true, Expr::MethodCall(i)) = (n.method == "enumerate" && n.args.is_empty(), &*n.receiver) {
                        if i.method == "iter" && i.args.is_empty() {
                            let (mut x, mut f) = ((*i.receiver).clone(), m.args[0].clone());
                            self.visit_expr_mut(&mut x);
                            self.visit_expr_mut(&mut f);
                            *e = v(quote!(vx_enumerate_find(&#x, #f)));
                            self.log.push("iter().enumerate().find(F) -> vx_enumerate_find".into());
                            return;
                        }
                    }
                }
            }
            if m.method == "and_then" && m.args.len() == 1 && matches!(m.args[0], Expr::Path(_)) {
                let (mut x, f) = ((*m.receiver).clone(), m.args[0].clone());
                self.visit_expr_mut(&mut x);
                *e = v(quote!((match #x { Ok(__vx_v) => #f(__vx_v), Err(__vx_e) => Err(__vx_e) })));
                self.log.push("and_then of a function -> match".into());
                return;
            }
        }
        // `(|v| E)(X)`
        if let Expr::Call(c) = e {
            let mut f = &*c.func;
            while let Expr::Paren(p) = f { f = &p.expr }
            if let (Some((p, b)), 1) = (closure1(f), c.args.len()) {
                let (p, mut b, mut x) = (p.clone(), b.clone(), c.args[0].clone());
                self.visit_expr_mut(&mut x);
                self.visit_expr_mut(&mut b);
                *e = v(quote!({ let #p = #x; #b }));
                self.log.push("call of a closure -> its body".into());
                return;
            }
        }
        // Both operands of `&` and `|` on truth values are evaluated.
        if let Expr::Binary(b) = e {
            let f = match b.op {
                BinOp::BitAnd(_) => "vx_and",
                BinOp::BitOr(_) => "vx_or",
                _ => "",
            };
            if !f.is_empty() && (boolish(&b.left) || boolish(&b.right)) {
                let (mut x, mut y) = ((*b.left).clone(), (*b.right).clone());
                self.visit_expr_mut(&mut x);
                self.visit_expr_mut(&mut y);
                let f = quote::format_ident!("{f}");
                *e = v(quote!(#f(#x, #y)));
                self.log.push("& and | of truth values -> vx_and, vx_or".into());
                return;
            }
        }
        // The verifier cannot name the signatures of the byte-order conversions.
        if let Expr::MethodCall(m) = e {
            if m.method == "to_be_bytes" && m.args.is_empty() {
                let mut x = (*m.receiver).clone();
                self.visit_expr_mut(&mut x);
                *e = v(quote!(vx_u128_to_be_bytes(#x)));
                self.log.push("to_be_bytes -> vx_u128_to_be_bytes".into());
                return;
            }
        }
        if let Expr::MethodCall(m) = e {
            if m.method == "try_into" && m.args.is_empty() {
                let mut x = (*m.receiver).clone();
                self.visit_expr_mut(&mut x);
                *e = v(quote!(vx_try_into(#x)));
                self.log.push("x.try_into() -> vx_try_into(x)".into());
                return;
            }
        }
        if let Expr::Path(p) = e {
            let s: Vec<String> = p.path.segments.iter().map(|x| x.ident.to_string()).collect();
            if s == ["u128", "from_be_bytes"] {
                *e = v(quote!(vx_u128_from_be_bytes));
                self.log.push("from_be_bytes -> vx_u128_from_be_bytes".into());
                return;
            }
        }
        // The size of a primitive integer.
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                if let Some(s) = p.path.segments.last() {
                    if s.ident == "size_of" && c.args.is_empty() {
                        if let PathArguments::AngleBracketed(a) = &s.arguments {
                            let n = match a.args.to_token_stream().to_string().as_str() {
                                "u8" | "i8" | "bool" => Some(1usize),
                                "u16" | "i16" => Some(2),
                                "u32" | "i32" | "char" => Some(4),
                                "u64" | "i64" => Some(8),
                                "u128" | "i128" => Some(16),
                                _ => None,
                            };
                            if let Some(n) = n {
                                *e = parse_quote!(#n);
                                self.log.push("size_of a primitive type -> its value".into());
                                return;
                            }
                        }
                    }
                }
            }
        }
        // Vec::with_capacity may fail.
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                let s = &p.path.segments;
                if s.len() >= 2 && s[s.len() - 1].ident == "with_capacity" && s[s.len() - 2].ident == "Vec" && c.args.len() == 1 {
                    let ta = match &s[s.len() - 2].arguments {
                        PathArguments::AngleBracketed(a) => a.args.to_token_stream(),
                        _ => quote!(_),
                    };
                    let mut a = c.args[0].clone();
                    self.visit_expr_mut(&mut a);
                    *e = v(quote!(vx_with_capacity::<#ta>(#a)));
                    self.log.push("Vec::with_capacity -> vx_with_capacity".into());
                    return;
                }
            }
        }
        // `x?` on results, with the conversion of the error spelled out.
        if let (Expr::Try(t), true) = (&*e, self.ret_result) {
            let mut x = (*t.expr).clone();
            self.visit_expr_mut(&mut x);
            *e = v(quote!((match #x { Ok(__vx_v) => __vx_v, Err(__vx_e) => return Err(::std::convert::From::from(__vx_e)) })));
            self.log.push("desugar ?".into());
            return;
        }
        if let Some((x, a)) = from_index(e) {
            let (mut x, mut a) = (x.clone(), a.clone());
            self.visit_expr_mut(&mut x);
            self.visit_expr_mut(&mut a);
            *e = v(quote!((*vx_slice_from(&#x, #a))));
            self.log.push("x[a..] -> vx_slice_from".into());
            return;
        }
        // Closures that stay closures get their contract; count them before descending.
        let mut my_closure = None;
        if let Expr::MethodCall(m) = e {
            let name = m.method.to_string();
            let desugar = match name.as_str() {
                "map_or" => m.args.len() == 2 && is_lit_like(&m.args[0]) && closure1(&m.args[1]).is_some(),
                "map" => !is_iter(&m.receiver) && m.args.len() == 1 && closure1(&m.args[0]).is_some(),
                "map_err" => m.args.len() == 1 && closure1(&m.args[0]).is_some(),
                "then_with" | "ok_or_else" => m.args.len() == 1 && closure0(&m.args[0]).is_some(),
                _ => false,
            };
            if desugar {
                let mut rec = (*m.receiver).clone();
                self.visit_expr_mut(&mut rec);
                let args: Vec<Expr> = m.args.iter().cloned().collect();
                let new = match name.as_str() {
                    "map_or" => {
                        let (p, b) = closure1(&args[1]).unwrap();
                        let mut b = b.clone();
                        self.visit_expr_mut(&mut b);
                        let d = &args[0];
                        quote!((match #rec { Some(#p) => #b, None => #d }))
                    }
                    "map" => {
                        let (p, b) = closure1(&args[0]).unwrap();
                        let mut b = b.clone();
                        self.visit_expr_mut(&mut b);
                        quote!((match #rec { Some(#p) => Some(#b), None => None }))
                    }
                    "map_err" => {
                        let (p, b) = closure1(&args[0]).unwrap();
                        let mut b = b.clone();
                        self.visit_expr_mut(&mut b);
                        quote!((match #rec { Ok(__vx_v) => Ok(__vx_v), Err(#p) => Err(#b) }))
                    }
                    "then_with" => {
                        let mut b = closure0(&args[0]).unwrap().clone();
                        self.visit_expr_mut(&mut b);
                        quote!((match #rec { ::std::cmp::Ordering::Equal => #b, __vx_o => __vx_o }))
                    }
                    "ok_or_else" => {
                        let mut b = closure0(&args[0]).unwrap().clone();
                        self.visit_expr_mut(&mut b);
                        quote!((match #rec { Some(__vx_v) => Ok(__vx_v), None => Err(#b) }))
                    }
                    _ => unreachable!(),
                };
                self.log.push(format!("desugar {name}"));
                *e = v(new);
                return;
            }
        }
        if let Expr::MethodCall(m) = e {
            if m.method == "map" && m.args.len() == 1 && matches!(&m.args[0], Expr::Path(p) if p.path.is_ident("Some")) {
                visit_mut::visit_expr_mut(self, e);
                if let Expr::MethodCall(m) = e {
                    let r = &m.receiver;
                    let new = quote!(vx_ok_some(#r));
                    *e = v(new);
                    self.log.push("map(Some) -> vx_ok_some".into());
                }
                return;
            }
            if m.method == "dedup_by" && m.args.len() == 1 {
                visit_mut::visit_expr_mut(self, e);
                if let Expr::MethodCall(m) = e {
                    let (r, a) = (&m.receiver, &m.args);
                    let new = quote!(vx_dedup_by(&mut #r, #a));
                    *e = v(new);
                    self.log.push("dedup_by -> vx_dedup_by".into());
                }
                return;
            }
        }
        if let Expr::Closure(_) = e {
            my_closure = Some(self.closure_no);
            self.closure_no += 1;
        }
        let ret_result = self.ret_result;
        if my_closure.is_some() {
            self.ret_result = false;
        }
        visit_mut::visit_expr_mut(self, e);
        self.ret_result = ret_result;
        match e {
            Expr::Closure(c) => {
                let n = my_closure.unwrap();
                if let Some(cc) = self.c.closures.get(&n) {
                    let pats: Vec<Pat> = c.inputs.iter().map(|p| match p { Pat::Type(t) => (*t.pat).clone(), p => p.clone() }).collect();
                    let head = ts(&cc.head);
                    let spec = ts(&cc.spec);
                    let start = ts(&cc.start);
                    let body = &c.body;
                    let binds = pats.iter().enumerate().map(|(i, p)| {
                        let id = quote::format_ident!("p{}", i);
                        quote!(let #p = #id;)
                    });
                    let cap = &c.capture;
                    *e = v(quote!(#cap #head #spec { #(#binds)* #start #body }));
                }
            }
            Expr::Binary(b) => {
                use BinOp::*;
                if matches!(b.op, Shr(_) | Shl(_) | BitAnd(_) | BitOr(_) | BitXor(_) | Add(_) | Sub(_) | Mul(_) | Div(_) | Rem(_)) {
                    self.deref_operand(&mut b.left);
                    self.deref_operand(&mut b.right);
                }
            }
            Expr::Cast(c) => {
                // `x as &[T]`: the coercion happens at a call.
                if let Type::Reference(r) = &*c.ty {
                    if matches!(&*r.elem, Type::Slice(_)) {
                        let x = &c.expr;
                        *e = v(quote!(vx_as_slice(#x)));
                    }
                }
            }
            Expr::Call(c) => {
                let f = c.func.to_token_stream().to_string().replace(' ', "");
                if f.contains("panicking::panic") {
                    *e = v(quote!(vstd::pervasive::unreached()));
                    self.log.push("panic -> unreached (must be proved unreachable)".into());
                } else if f.ends_with("intrinsics::discriminant_value") && self.self_ty.is_some() {
                    let t = ts(self.self_ty.as_ref().unwrap());
                    let a = &c.args;
                    *e = v(quote!(#t::vx_disc(#a)));
                } else if f == "<[_]>::into_vec" {
                    // vec![..]
                    struct Arr(Option<TokenStream>);
                    impl<'x> visit::Visit<'x> for Arr {
                        fn visit_expr_array(&mut self, a: &'x ExprArray) {
                            if self.0.is_none() {
                                self.0 = Some(a.elems.to_token_stream())
                            }
                        }
                    }
                    let mut a = Arr(None);
                    visit::Visit::visit_expr_call(&mut a, c);
                    if let Some(t) = a.0 {
                        *e = v(quote!(vec![#t]));
                    }
                }
            }
            _ => {}
        }
    }

    fn visit_block_mut(&mut self, b: &mut Block) {
        let panics = matches!(b.stmts.last(), Some(Stmt::Expr(Expr::Call(c), Some(_))) if c.func.to_token_stream().to_string().replace(' ', "").contains("panicking::panic"));
        visit_mut::visit_block_mut(self, b);
        if panics {
            if let Some(Stmt::Expr(_, s)) = b.stmts.last_mut() {
                *s = None;
            }
        }
        // Anchored ghost code.
        let mut out = Vec::new();
        for s in std::mem::take(&mut b.stmts) {
            let mut extra = None;
            if let Stmt::Local(l) = &s {
                let name = match &l.pat {
                    Pat::Ident(i) => Some(i.ident.to_string()),
                    Pat::Type(t) => match &*t.pat {
                        Pat::Ident(i) => Some(i.ident.to_string()),
                        _ => None,
                    },
                    _ => None,
                };
                if let Some(name) = name {
                    for (i, (a, t)) in self.c.after.iter().enumerate() {
                        if *a == name && !self.after_done[i] {
                            self.after_done[i] = true;
                            extra = Some(ts(t));
                        }
                    }
                }
            }
            out.push(s);
            if let Some(t) = extra {
                out.push(Stmt::Expr(Expr::Verbatim(t), None));
            }
        }
        b.stmts = out;
    }
}

impl<'a> Body<'a> {
    fn slice_arm_pre(&mut self, arm: &mut Arm) {
        // Done before descending so that the bindings are known inside the arm; the arm body is
        // visited here because a verbatim body is not descended into.
        let has_slice = {
            struct H(bool);
            impl<'x> visit::Visit<'x> for H {
                fn visit_pat_slice(&mut self, _: &'x PatSlice) {
                    self.0 = true
                }
            }
            let mut h = H(false);
            visit::Visit::visit_pat(&mut h, &arm.pat);
            h.0
        };
        if !has_slice {
            return;
        }
        struct N(Vec<String>);
        impl<'x> visit::Visit<'x> for N {
            fn visit_pat_slice(&mut self, s: &'x PatSlice) {
                for e in &s.elems {
                    if let Pat::Ident(i) = e {
                        self.0.push(i.ident.to_string())
                    }
                }
            }
        }
        let mut n = N(vec![]);
        visit::Visit::visit_pat(&mut n, &arm.pat);
        self.slice_binds.extend(n.0);
        let mut body = (*arm.body).clone();
        let other = self.slice_else.take();
        self.visit_expr_mut(&mut body);
        self.slice_else = other;
        arm.body = Box::new(body);
        self.slice_arm(arm);
    }
}

/// Rename identifiers (contract parameter names to the names in the source).
pub fn rename(ts: TokenStream, map: &[(String, String)]) -> TokenStream {
    use proc_macro2::{Group, TokenTree};
    ts.into_iter()
        .map(|t| match t {
            TokenTree::Ident(i) => {
                let s = i.to_string();
                match map.iter().find(|m| m.0 == s) {
                    Some(m) => TokenTree::Ident(Ident::new(&m.1, i.span())),
                    None => TokenTree::Ident(i),
                }
            }
            TokenTree::Group(g) => {
                let mut n = Group::new(g.delimiter(), rename(g.stream(), map));
                n.set_span(g.span());
                TokenTree::Group(n)
            }
            t => t,
        })
        .collect()
}
