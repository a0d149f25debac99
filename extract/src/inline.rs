//! Inlines calls of functions that have no contract (and beta-reduces closures passed to them).
use crate::lower::*;
use quote::{format_ident, quote};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone)]
pub struct FnInfo {
    pub key: String,
    pub module: Vec<String>,
    pub path: String, // crate::a::b::f or crate::a::b::Type::f
    pub self_ty: Option<Type>,
    pub impl_generics: Generics,
    pub sig: Signature,
    pub block: Block,
    pub contracted: bool,
    pub inlineable: bool,
    pub line: usize,
    pub file: String,
}

pub struct Inliner<'a> {
    pub fns: &'a BTreeMap<String, FnInfo>,           // by path
    pub methods: &'a BTreeMap<String, Vec<String>>,  // method name -> paths
    pub trait_methods: &'a BTreeSet<String>,
    pub fresh: usize,
    pub depth: usize,
    pub problems: Vec<String>,
    pub inlined: BTreeSet<String>,
    pub cur_self: Option<String>,
    /// (type path, field) -> type path
    pub fields: &'a BTreeMap<(String, String), String>,
    /// receiver expression -> type path
    pub tys: BTreeMap<String, String>,
    /// problems unless the receiver turns out to be a library type
    pub maybe: Vec<String>,
    /// what the function at hand returns
    pub ret: Option<Type>,
    pub closures: usize,
    /// how the result of the call about to be expanded is used
    pub place: Place,
}

/// where a call stands: an exit from a loop of the called function is then also an exit of
/// the caller
#[derive(Clone, Copy, PartialEq)]
pub enum Place {
    Any,
    /// `f(..)?`
    Try,
    /// `return f(..)`
    Return,
}

/// puts the exits within loops aside (or back), so that they stay exits of the caller
struct LoopExits {
    depth: usize,
    place: Place,
    /// an exit that is not one of the caller
    other: bool,
    found: bool,
}
impl VisitMut for LoopExits {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Closure(_) => {}
            Expr::ForLoop(f) => {
                self.visit_expr_mut(&mut f.expr);
                self.depth += 1;
                self.visit_block_mut(&mut f.body);
                self.depth -= 1;
            }
            Expr::While(_) | Expr::Loop(_) => {
                self.depth += 1;
                visit_mut::visit_expr_mut(self, e);
                self.depth -= 1;
            }
            _ => {
                visit_mut::visit_expr_mut(self, e);
                if self.depth == 0 {
                    return;
                }
                match e {
                    Expr::Try(t) => {
                        self.found = true;
                        let x = &t.expr;
                        *e = parse_quote!(__vtry(#x));
                    }
                    Expr::Return(r) => {
                        self.found = true;
                        let err = match r.expr.as_deref() {
                            Some(Expr::Call(c)) => matches!(&*c.func, Expr::Path(p) if p.path.segments.last().unwrap().ident == "Err"),
                            Some(Expr::Path(p)) => p.path.segments.last().unwrap().ident == "None",
                            _ => false,
                        };
                        if self.place != Place::Return && !err {
                            self.other = true;
                        }
                        *e = match &r.expr {
                            Some(x) => parse_quote!(__vret(#x)),
                            None => parse_quote!(__vret()),
                        };
                    }
                    _ => {}
                }
            }
        }
    }
}
struct LoopExitsBack;
impl VisitMut for LoopExitsBack {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                let x = c.args.first();
                if p.path.is_ident("__vtry") {
                    *e = parse_quote!((#x)?);
                } else if p.path.is_ident("__vret") {
                    *e = parse_quote!(return #x);
                }
            }
        }
    }
}

/// what `?` passes on
fn error_of(t: &Option<Type>) -> Option<String> {
    if let Some(e) = t.as_ref().and_then(crate::krate::result_error) {
        return Some(format!("Result {}", e));
    }
    match t {
        Some(Type::Path(p)) => {
            let s = p.path.segments.last()?;
            let args: Vec<String> = match &s.arguments {
                PathArguments::AngleBracketed(a) => a.args.iter().filter(|a| matches!(a, GenericArgument::Type(_))).map(|a| quote!(#a).to_string()).collect(),
                _ => vec![],
            };
            Some(match (s.ident.to_string().as_str(), args.len()) {
                ("Option", _) => "Option".to_string(),
                ("Result", 2) => format!("Result {}", args[1]),
                _ => format!("alias {}", path_str(&p.path)),
            })
        }
        _ => None,
    }
}

/// `return` in front of the calls in tail position
pub fn mark_tails(b: &mut Block, wanted: &dyn Fn(&Expr) -> bool) {
    if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
        mark_tail(e, wanted);
    }
}
fn mark_tail(e: &mut Expr, wanted: &dyn Fn(&Expr) -> bool) {
    match e {
        Expr::Block(b) if b.label.is_none() => mark_tails(&mut b.block, wanted),
        Expr::Paren(p) => mark_tail(&mut p.expr, wanted),
        Expr::If(i) if i.else_branch.is_some() => {
            mark_tails(&mut i.then_branch, wanted);
            mark_tail(&mut i.else_branch.as_mut().unwrap().1, wanted);
        }
        Expr::Match(m) => {
            for a in m.arms.iter_mut() {
                mark_tail(&mut a.body, wanted);
            }
        }
        Expr::Call(_) | Expr::MethodCall(_) => {
            if wanted(e) {
                *e = parse_quote!(return #e);
            }
        }
        _ => {}
    }
}

/// the path of a type, through references
pub fn type_path(t: &Type, self_ty: Option<&str>) -> Option<String> {
    match t {
        Type::Reference(r) => type_path(&r.elem, self_ty),
        Type::Paren(r) => type_path(&r.elem, self_ty),
        Type::Path(p) if p.qself.is_none() => {
            let s = path_str(&p.path);
            if s == "Self" {
                self_ty.map(|x| x.to_string())
            } else if s.starts_with("crate::") {
                Some(s)
            } else {
                None
            }
        }
        _ => None,
    }
}

struct LetTypes<'b>(&'b mut BTreeMap<String, String>);
impl<'a, 'b> syn::visit::Visit<'a> for LetTypes<'b> {
    fn visit_local(&mut self, l: &'a Local) {
        if let Pat::Type(t) = &l.pat {
            if let (Pat::Ident(i), Some(p)) = (&*t.pat, type_path(&t.ty, None)) {
                self.0.insert(i.ident.to_string(), p);
            }
        }
        syn::visit::visit_local(self, l);
    }
}

const STD_METHODS: &[&str] = &[
    "len", "is_empty", "get", "first", "last", "iter", "next", "push", "pop", "contains", "map", "map_err", "ok_or", "clone",
    "into", "as_slice", "split_first", "split_last", "unwrap", "and_then", "is_some", "is_none", "is_ok", "is_err", "chunks",
];

fn ret_type(sig: &Signature) -> Option<Type> {
    match &sig.output {
        ReturnType::Default => None,
        ReturnType::Type(_, t) => Some((**t).clone()),
    }
}

/// replaces lifetimes by `'_` and the given generic names by `_`
struct Anon<'b> {
    generics: &'b BTreeSet<String>,
    self_ty: Option<Type>,
}
impl<'b> VisitMut for Anon<'b> {
    fn visit_lifetime_mut(&mut self, l: &mut Lifetime) {
        if l.ident != "static" {
            *l = Lifetime::new("'_", l.span());
        }
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            if p.qself.is_some() {
                *t = parse_quote!(_);
                return;
            }
            let first = p.path.segments[0].ident.to_string();
            if self.generics.contains(&first) {
                *t = parse_quote!(_);
                return;
            }
            if first == "Self" {
                match (&self.self_ty, p.path.segments.len()) {
                    (Some(s), 1) => *t = s.clone(),
                    _ => *t = parse_quote!(_),
                }
            }
        }
        if let Type::Reference(r) = t {
            r.lifetime = None;
        }
        visit_mut::visit_type_mut(self, t);
    }
}

struct SelfPath {
    with: syn::Path,
}
impl VisitMut for SelfPath {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        if p.segments[0].ident == "Self" {
            let mut s = self.with.clone();
            for x in p.segments.iter().skip(1) {
                s.segments.push(x.clone());
            }
            *p = s;
        }
        visit_mut::visit_path_mut(self, p);
    }
}

pub struct Rename<'b> {
    pub map: &'b BTreeMap<String, Ident>,
}
impl<'b> VisitMut for Rename<'b> {
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        if let Some(n) = self.map.get(&p.ident.to_string()) {
            let mut n = n.clone();
            n.set_span(p.ident.span());
            p.ident = n;
        }
        visit_mut::visit_pat_ident_mut(self, p);
    }
    fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_pat_mut(self, f);
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.qself.is_none() && p.path.segments.len() == 1 {
            if let Some(n) = self.map.get(&p.path.segments[0].ident.to_string()) {
                let mut n = n.clone();
                n.set_span(p.path.segments[0].ident.span());
                p.path = syn::Path::from(n);
            }
        }
    }
}

/// replaces the variable `name` by an expression
struct Subst {
    name: String,
    with: Expr,
}
impl VisitMut for Subst {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if p.qself.is_none() && p.path.is_ident(&self.name) {
                *e = self.with.clone();
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// replaces `self`, a reference to a place, by the place where it is looked into
struct Lent {
    place: Expr,
    bare: Expr,
}
impl Lent {
    fn is_self(e: &Expr) -> bool {
        match e {
            Expr::Paren(p) => Self::is_self(&p.expr),
            Expr::Path(p) => p.qself.is_none() && p.path.is_ident("__recv"),
            _ => false,
        }
    }
}
impl VisitMut for Lent {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::MethodCall(m) if Self::is_self(&m.receiver) => *m.receiver = self.place.clone(),
            Expr::Field(f) if Self::is_self(&f.base) => *f.base = self.place.clone(),
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) && Self::is_self(&u.expr) => {
                *e = self.place.clone();
                return;
            }
            e if Self::is_self(e) => {
                *e = self.bare.clone();
                return;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// substitutes type parameters
struct TySubst(BTreeMap<String, Type>);
impl VisitMut for TySubst {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            if p.qself.is_none() && p.path.segments.len() == 1 {
                if let Some(n) = self.0.get(&p.path.segments[0].ident.to_string()) {
                    *t = n.clone();
                    return;
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        if p.segments.len() > 1 {
            if let Some(Type::Path(n)) = self.0.get(&p.segments[0].ident.to_string()) {
                let mut q = n.path.clone();
                // T::f with T = Sequence<'a>: drop the arguments
                if let Some(l) = q.segments.last_mut() {
                    l.arguments = PathArguments::None;
                }
                for s in p.segments.iter().skip(1) {
                    q.segments.push(s.clone());
                }
                *p = q;
            }
        }
        visit_mut::visit_path_mut(self, p);
    }
}

/// replaces calls `f(args)` of the parameter `f` by the closure's body
struct Beta<'b> {
    name: String,
    closure: &'b Expr,
    fresh: usize,
    ret: Option<Type>,
    err: bool,
}
impl<'b> VisitMut for Beta<'b> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                if p.path.is_ident(&self.name) {
                    match self.closure {
                        Expr::Closure(cl) => {
                            let mut cl = cl.clone();
                            // hygiene: rename everything the closure binds
                            let mut names = BTreeSet::new();
                            for i in &cl.inputs {
                                crate::krate::locals_of_pat(i, &mut names);
                            }
                            names.extend(crate::krate::locals_of(&parse_quote!({ #cl; })));
                            let mut map = BTreeMap::new();
                            for n in names {
                                if n.chars().next().map_or(false, |c| c.is_lowercase() || c == '_') {
                                    self.fresh += 1;
                                    map.insert(n.clone(), format_ident!("{}__c{}", n, self.fresh));
                                }
                            }
                            let mut r = Rename { map: &map };
                            for i in cl.inputs.iter_mut() {
                                r.visit_pat_mut(i);
                            }
                            r.visit_expr_mut(&mut cl.body);
                            let mut lets: Vec<Stmt> = vec![];
                            for (p, a) in cl.inputs.iter().zip(c.args.iter()) {
                                // a reference passed on is lent, not given away
                                let lent = matches!(a, Expr::Path(_)) && crate::oracle::ty(a).map_or(false, |t| t.starts_with("&mut "));
                                lets.push(if lent { parse_quote!(let #p = &mut *#a;) } else { parse_quote!(let #p = #a;) });
                            }
                            let body = (*cl.body).clone();
                            let mut cps = Cps {
                                fresh: 0,
                                opt: is_option(&self.ret),
                                unsupported: None,
                                tag: format!("b{}", self.fresh),
                            };
                            let b: Block = parse_quote!({ #(#lets)* #body });
                            let body = cps.run_block(b);
                            if cps.unsupported.is_some() {
                                self.err = true;
                            }
                            *e = match &self.ret {
                                Some(t) => {
                                    self.fresh += 1;
                                    let r = format_ident!("__q{}", self.fresh);
                                    parse_quote!({ let #r: #t = #body; #r })
                                }
                                None => parse_quote!(#body),
                            };
                        }
                        f => {
                            let a = &c.args;
                            *e = parse_quote!(#f(#a));
                        }
                    }
                }
            }
        }
    }
}

fn is_option(t: &Option<Type>) -> bool {
    match t {
        Some(Type::Path(p)) => p.path.segments.last().map_or(false, |s| s.ident == "Option"),
        _ => false,
    }
}

/// the result type of a closure-typed parameter
fn fn_bound_ret(sig: &Signature, t: &Type) -> Option<Option<Type>> {
    let from_bound = |b: &TypeParamBound| -> Option<Option<Type>> {
        if let TypeParamBound::Trait(t) = b {
            let s = t.path.segments.last()?;
            if ["Fn", "FnMut", "FnOnce"].contains(&s.ident.to_string().as_str()) {
                if let PathArguments::Parenthesized(a) = &s.arguments {
                    return Some(match &a.output {
                        ReturnType::Default => None,
                        ReturnType::Type(_, t) => Some((**t).clone()),
                    });
                }
            }
        }
        None
    };
    match t {
        Type::ImplTrait(i) => i.bounds.iter().find_map(from_bound),
        Type::Reference(r) => fn_bound_ret(sig, &r.elem),
        Type::Paren(r) => fn_bound_ret(sig, &r.elem),
        Type::TraitObject(i) => i.bounds.iter().find_map(from_bound),
        Type::BareFn(f) => Some(match &f.output {
            ReturnType::Default => None,
            ReturnType::Type(_, t) => Some((**t).clone()),
        }),
        Type::Path(p) if p.path.segments.len() == 1 => {
            let n = &p.path.segments[0].ident;
            for g in sig.generics.type_params() {
                if g.ident == *n {
                    if let Some(r) = g.bounds.iter().find_map(from_bound) {
                        return Some(r);
                    }
                }
            }
            if let Some(w) = &sig.generics.where_clause {
                for p in &w.predicates {
                    if let WherePredicate::Type(pt) = p {
                        if quote!(#n).to_string() == { let t = &pt.bounded_ty; quote!(#t).to_string() } {
                            if let Some(r) = pt.bounds.iter().find_map(from_bound) {
                                return Some(r);
                            }
                        }
                    }
                }
            }
            None
        }
        _ => None,
    }
}

impl<'a> Inliner<'a> {
    /// the type of a receiver, where it is evident
    fn recv_type(&self, e: &Expr) -> Option<String> {
        match e {
            Expr::Paren(p) => self.recv_type(&p.expr),
            Expr::Reference(r) => self.recv_type(&r.expr),
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => self.recv_type(&u.expr),
            Expr::Path(p) => self.tys.get(&path_str(&p.path)).cloned(),
            Expr::Field(f) => {
                let b = self.recv_type(&f.base)?;
                let m = &f.member;
                self.fields.get(&(b, quote!(#m).to_string())).cloned()
            }
            Expr::Struct(s) => Some(path_str(&s.path)),
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) => {
                    let f = self.lookup_call(&p.path)?;
                    let st = f.self_ty.as_ref().and_then(|t| type_path(t, None));
                    type_path(&ret_type(&f.sig)?, st.as_deref())
                }
                _ => None,
            },
            Expr::MethodCall(m) => {
                let f = self.method_target(m)?;
                let st = f.self_ty.as_ref().and_then(|t| type_path(t, None));
                type_path(&ret_type(&f.sig)?, st.as_deref())
            }
            _ => None,
        }
    }

    fn method_target(&self, m: &ExprMethodCall) -> Option<&'a FnInfo> {
        let n = m.method.to_string();
        let v = self.methods.get(&n)?;
        // as the compiler resolved it
        if let Some(o) = crate::oracle::method(&m.method) {
            if !o.path.starts_with("rx509::") && !o.path.starts_with("decoder::") {
                if std::env::var("XDEBUG").is_ok() { eprintln!("oracle: {} is {}", n, o.path); }
                return None;
            }
            let h = crate::oracle::head(&o.recv).to_string();
            let k = |p: &str| v.iter().find(|q| **q == format!("{}::{}", p, n)).map(|p| &self.fns[p]);
            let h = h.strip_prefix("rx509::").unwrap_or(&h).to_string();
            if let Some(f) = k(&format!("crate::{}", h)).or_else(|| k(&format!("crate::decoder::{}", h))) {
                return Some(f);
            }
            if std::env::var("XDEBUG").is_ok() { eprintln!("oracle: {} {:?} not found in {:?}", n, o, v); }
        } else if std::env::var("XDEBUG").is_ok() { eprintln!("oracle: nothing for {} {:?}", quote!(#m), m.method.span()); }
        if let Some(t) = self.recv_type(&m.receiver) {
            return v.iter().find(|p| **p == format!("{}::{}", t, n)).map(|p| &self.fns[p]);
        }
        if v.len() == 1 && !self.trait_methods.contains(&n) && !STD_METHODS.contains(&n.as_str()) {
            return Some(&self.fns[&v[0]]);
        }
        None
    }

    pub fn note_types(&mut self, sig: &Signature, block: &Block) {
        for i in &sig.inputs {
            if let FnArg::Typed(t) = i {
                if let (Pat::Ident(p), Some(ty)) = (&*t.pat, type_path(&t.ty, self.cur_self.as_deref())) {
                    self.tys.insert(p.ident.to_string(), ty);
                }
            }
        }
        if let Some(c) = &self.cur_self {
            self.tys.insert("self".into(), c.clone());
        }
        syn::visit::Visit::visit_block(&mut LetTypes(&mut self.tys), block);
    }

    fn lookup_call(&self, p: &syn::Path) -> Option<&'a FnInfo> {
        let mut s = path_str(p);
        if let (Some(c), Some(r)) = (&self.cur_self, s.strip_prefix("Self::")) {
            s = format!("{}::{}", c, r);
        }
        self.fns.get(&s)
    }

    /// `f` applied to `args` (the receiver first, if any)
    fn expand(&mut self, f: &FnInfo, args: Vec<Expr>, turbofish: Option<AngleBracketedGenericArguments>) -> Option<Expr> {
        if self.depth > 20 {
            self.problems.push(format!("inlining of {} is too deep", f.key));
            return None;
        }
        if !f.inlineable {
            self.problems.push(format!("{} has no contract and cannot be inlined", f.key));
            return None;
        }
        let mut block = f.block.clone();
        let mut sig = f.sig.clone();
        let mut generics: BTreeSet<String> = f.sig.generics.type_params().map(|g| g.ident.to_string()).collect();
        generics.extend(f.impl_generics.type_params().map(|g| g.ident.to_string()));

        // type arguments
        if let Some(t) = turbofish {
            let mut m = BTreeMap::new();
            let tys: Vec<Type> = t
                .args
                .iter()
                .filter_map(|a| match a {
                    GenericArgument::Type(t) => Some(t.clone()),
                    _ => None,
                })
                .collect();
            for (g, t) in f.sig.generics.type_params().zip(tys) {
                generics.remove(&g.ident.to_string());
                m.insert(g.ident.to_string(), t);
            }
            let mut ts = TySubst(m);
            ts.visit_block_mut(&mut block);
            ts.visit_signature_mut(&mut sig);
        }
        // `Self`
        if let Some(Type::Path(p)) = &f.self_ty {
            let mut q = p.path.clone();
            for s in q.segments.iter_mut() {
                s.arguments = PathArguments::None;
            }
            SelfPath { with: q }.visit_block_mut(&mut block);
        }
        // hygiene
        let mut names = crate::krate::locals_of(&block);
        for i in &sig.inputs {
            if let FnArg::Typed(t) = i {
                crate::krate::locals_of_pat(&t.pat, &mut names);
            }
        }
        let mut map = BTreeMap::new();
        self.fresh += 1;
        let tag = self.fresh;
        for n in names {
            if n.chars().next().map_or(false, |c| c.is_lowercase() || c == '_') && n != "self" {
                map.insert(n.clone(), format_ident!("{}__{}", n, tag));
            }
        }
        let mut ren = Rename { map: &map };
        ren.visit_block_mut(&mut block);

        let anon_self = f.self_ty.clone();
        let anon = |t: &Type| -> Type {
            let mut t = t.clone();
            Anon {
                generics: &generics,
                self_ty: anon_self.clone(),
            }
            .visit_type_mut(&mut t);
            t
        };

        let mut lets: Vec<Stmt> = vec![];
        let mut it = args.into_iter();
        for i in sig.inputs.iter() {
            let a = it.next()?;
            match i {
                FnArg::Receiver(r) => {
                    let mut recv = a;
                    while let Expr::Paren(p) = recv {
                        recv = *p.expr;
                    }
                    let place = is_place(&recv);
                    if let (Some(ty), false) = (f.self_ty.as_ref().and_then(|t| type_path(t, None)), place) {
                        self.tys.insert(format!("self__{}", tag), ty);
                    }
                    if place {
                        // places auto-dereference: use the receiver itself
                        let w: Expr = match &recv {
                            Expr::Path(_) => recv.clone(),
                            e => parse_quote!((#e)),
                        };
                        let lent = r.reference.is_some() && crate::oracle::ty(&recv).map_or(false, |t| !t.starts_with('&'));
                        if lent {
                            // `self` is a reference to the place, except where it is looked into
                            let bare: Expr = if r.mutability.is_some() { parse_quote!((&mut #w)) } else { parse_quote!((&#w)) };
                            Subst { name: "self".into(), with: parse_quote!(__recv) }.visit_block_mut(&mut block);
                            Lent { place: w, bare }.visit_block_mut(&mut block);
                        } else {
                            Subst { name: "self".into(), with: w }.visit_block_mut(&mut block);
                        }
                    } else {
                        let n = format_ident!("self__{}", tag);
                        let l: Stmt = if r.reference.is_some() {
                            if r.mutability.is_some() {
                                parse_quote!(let mut #n = #recv;)
                            } else {
                                parse_quote!(let #n = #recv;)
                            }
                        } else {
                            parse_quote!(let #n = #recv;)
                        };
                        lets.push(l);
                        Subst { name: "self".into(), with: parse_quote!(#n) }.visit_block_mut(&mut block);
                    }
                }
                FnArg::Typed(t) => {
                    if let Some(ret) = fn_bound_ret(&sig, &t.ty) {
                        let name = match &*t.pat {
                            Pat::Ident(p) => map.get(&p.ident.to_string()).map(|x| x.to_string()).unwrap_or(p.ident.to_string()),
                            _ => return None,
                        };
                        let mut clo = a;
                        while let Expr::Reference(r) = clo {
                            clo = *r.expr;
                        }
                        match &clo {
                            Expr::Closure(_) | Expr::Path(_) => {}
                            _ => {
                                self.problems.push(format!("function argument of {}", f.key));
                                return None;
                            }
                        }
                        let mut b = Beta {
                            name,
                            closure: &clo,
                            fresh: tag * 1000,
                            ret: ret.as_ref().map(|t| anon(t)),
                            err: false,
                        };
                        b.visit_block_mut(&mut block);
                        if b.err {
                            self.problems.push(format!("closure passed to {}", f.key));
                        }
                        continue;
                    }
                    let mut p = (*t.pat).clone();
                    ren.visit_pat_mut(&mut p);
                    let ty = anon(&t.ty);
                    let a = match (&*t.ty, &a) {
                        (Type::Reference(r), Expr::Path(_)) if r.mutability.is_some() => parse_quote!(&mut *#a),
                        _ => a,
                    };
                    let has_impl = matches!(&*t.ty, Type::ImplTrait(_));
                    if has_impl || contains_infer(&ty) {
                        lets.push(parse_quote!(let #p = #a;));
                    } else {
                        lets.push(parse_quote!(let #p: #ty = #a;));
                    }
                }
            }
        }
        syn::visit::Visit::visit_block(&mut LetTypes(&mut self.tys), &block);
        {
            let b: Block = parse_quote!({ #(#lets)* });
            syn::visit::Visit::visit_block(&mut LetTypes(&mut self.tys), &b);
        }
        let ret = ret_type(&sig);
        let place = std::mem::replace(&mut self.place, Place::Any);
        let mut aside = false;
        if place != Place::Any && error_of(&ret).is_some() && error_of(&ret) == error_of(&self.ret) {
            let mut b = block.clone();
            let mut l = LoopExits { depth: 0, place, other: false, found: false };
            l.visit_block_mut(&mut b);
            if l.found && !l.other {
                block = b;
                aside = true;
            }
        }
        let mut cps = Cps {
            fresh: 0,
            opt: is_option(&ret),
            unsupported: None,
            tag: format!("i{}", tag),
        };
        let mut body: Expr = if block_has_exit(&block) {
            cps.run_block(block)
        } else {
            parse_quote!(#block)
        };
        if aside {
            LoopExitsBack.visit_expr_mut(&mut body);
        }
        if let Some(u) = cps.unsupported {
            self.problems.push(format!("{}: {}", f.key, u));
            return None;
        }
        self.inlined.insert(f.key.clone());
        let ret = ret.filter(|t| !matches!(t, Type::ImplTrait(_))).map(|t| anon(&t));
        Some(match ret {
            // a function that does not return
            Some(Type::Never(_)) => parse_quote!({ #(#lets)* #body; crate::vpre::v_unreachable() }),
            Some(t) if !matches!(t, Type::Infer(_)) => {
                let r = format_ident!("__r{}", tag);
                parse_quote!({ #(#lets)* let #r: #t = #body; #r })
            }
            _ => parse_quote!({ #(#lets)* #body }),
        })
    }
}

fn contains_infer(t: &Type) -> bool {
    let s = quote!(#t).to_string();
    s == "_" || s.contains("< _ >") || s.contains("& _") || s.contains(" _ ")
}

fn is_place(e: &Expr) -> bool {
    match e {
        Expr::Path(_) => true,
        Expr::Field(f) => is_place(&f.base),
        Expr::Paren(p) => is_place(&p.expr),
        _ => false,
    }
}

impl<'a> Inliner<'a> {
    /// whether `e` calls a function that leaves one of its loops early and has no contract
    pub fn leaves_loops(&self, e: &Expr) -> bool {
        let f = match e {
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) if p.qself.is_none() => self.lookup_call(&p.path),
                _ => None,
            },
            Expr::MethodCall(m) => self.method_target(m),
            _ => None,
        };
        match f {
            Some(f) if !f.contracted => {
                let mut l = LoopExits { depth: 0, place: Place::Any, other: false, found: false };
                l.visit_block_mut(&mut f.block.clone());
                l.found
            }
            _ => false,
        }
    }
}

impl<'a> VisitMut for Inliner<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        self.place = Place::Any;
        match e {
            Expr::Closure(_) => {
                self.closures += 1;
                visit_mut::visit_expr_mut(self, e);
                self.closures -= 1;
                return;
            }
            Expr::Try(t) if self.closures == 0 => {
                while let Expr::Paren(p) = &*t.expr {
                    t.expr = p.expr.clone();
                }
                if self.leaves_loops(&t.expr) {
                    self.place = Place::Try;
                    self.call(&mut t.expr);
                    return;
                }
            }
            Expr::Return(r) if self.closures == 0 => {
                if let Some(x) = r.expr.as_mut() {
                    if self.leaves_loops(x) {
                        self.place = Place::Return;
                        self.call(x);
                        return;
                    }
                }
            }
            _ => {}
        }
        self.call(e)
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

impl<'a> Inliner<'a> {
    fn call(&mut self, e: &mut Expr) {
        // arguments first, except closures, which are substituted
        let target: Option<(FnInfo, Vec<Expr>, Option<AngleBracketedGenericArguments>)> = match e {
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) if p.qself.is_none() => match self.lookup_call(&p.path) {
                    Some(f) if !f.contracted => {
                        let tf = match &p.path.segments.last().unwrap().arguments {
                            PathArguments::AngleBracketed(a) => Some(a.clone()),
                            _ => None,
                        };
                        Some((f.clone(), c.args.iter().cloned().collect(), tf))
                    }
                    _ => None,
                },
                _ => None,
            },
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match self.method_target(m) {
                    Some(f) if f.contracted => None,
                    Some(f) => {
                        let mut a = vec![(*m.receiver).clone()];
                        a.extend(m.args.iter().cloned());
                        Some((f.clone(), a, m.turbofish.clone()))
                    }
                    None => {
                        // unknown receiver: harmless if every candidate has a contract or
                        // the name is one of the standard library's
                        if let Some(v) = self.methods.get(&n) {
                            if v.iter().any(|p| !self.fns[p].contracted) && !self.trait_methods.contains(&n) {
                                self.maybe.push(format!("method {} is ambiguous and has no contract", n));
                            }
                        }
                        None
                    }
                }
            }
            _ => None,
        };
        if let Some((f, args, tf)) = target {
            if let Some(x) = self.expand(&f, args, tf) {
                *e = x;
                self.depth += 1;
                visit_mut::visit_expr_mut(self, e);
                self.depth -= 1;
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// ---- elimination of `return` and `?` ------------------------------------------------------
pub struct Cps {
    pub fresh: usize,
    pub opt: bool,
    pub unsupported: Option<String>,
    pub tag: String,
}

type K<'k> = &'k mut dyn FnMut(&mut Cps, Expr) -> Expr;

impl Cps {
    fn name(&mut self, p: &str) -> Ident {
        self.fresh += 1;
        format_ident!("__{}{}{}", p, self.tag, self.fresh)
    }

    pub fn run_block(&mut self, b: Block) -> Expr {
        self.block(b, false, true, &mut |_, v| v)
    }

    fn exit(&self, join: bool, r: Expr) -> Expr {
        if join {
            parse_quote!(core::result::Result::Err(#r))
        } else {
            r
        }
    }

    fn block(&mut self, b: Block, join: bool, trivial: bool, k: K) -> Expr {
        self.stmts(b.stmts, join, trivial, k)
    }

    fn stmts(&mut self, mut s: Vec<Stmt>, join: bool, trivial: bool, k: K) -> Expr {
        if s.is_empty() {
            return k(self, parse_quote!(()));
        }
        // leading statements without exits stay
        let mut lead: Vec<Stmt> = vec![];
        loop {
            if s.is_empty() {
                let t = k(self, parse_quote!(()));
                return parse_quote!({ #(#lead)* #t });
            }
            let st = s.remove(0);
            let last = s.is_empty();
            match st {
                Stmt::Local(l) => {
                    let exits = l.init.as_ref().map_or(false, |i| {
                        has_exit(&i.expr) || i.diverge.as_ref().map_or(false, |d| has_exit(&d.1))
                    });
                    if !exits {
                        lead.push(Stmt::Local(l));
                        continue;
                    }
                    let init = l.init.unwrap();
                    let pat = l.pat;
                    let rest = s;
                    if let Some((_, d)) = init.diverge {
                        let dv = self.expr(*d, join, true, &mut |_, v| v);
                        let mut rest = Some(rest);
                        let e2 = *init.expr;
                        let t = self.expr(e2, join, false, &mut |c, v| {
                            let r = c.stmts(rest.take().unwrap_or_default(), join, trivial, &mut *k);
                            parse_quote!(match #v { #pat => #r, _ => #dv })
                        });
                        return parse_quote!({ #(#lead)* #t });
                    }
                    let mut rest = Some(rest);
                    let t = self.expr(*init.expr, join, false, &mut |c, v| {
                        let r = c.stmts(rest.take().unwrap_or_default(), join, trivial, &mut *k);
                        parse_quote!({ let #pat = #v; #r })
                    });
                    return parse_quote!({ #(#lead)* #t });
                }
                Stmt::Expr(e, semi) => {
                    if !has_exit(&e) {
                        if last && semi.is_none() {
                            let t = k(self, e);
                            return parse_quote!({ #(#lead)* #t });
                        }
                        lead.push(Stmt::Expr(e, semi));
                        continue;
                    }
                    if last && semi.is_none() {
                        let t = self.expr(e, join, trivial, k);
                        return parse_quote!({ #(#lead)* #t });
                    }
                    let mut rest = Some(s);
                    let t = self.expr(e, join, false, &mut |c, v| {
                        let r = c.stmts(rest.take().unwrap_or_default(), join, trivial, &mut *k);
                        if v == parse_quote!(()) {
                            r
                        } else {
                            parse_quote!({ #v; #r })
                        }
                    });
                    return parse_quote!({ #(#lead)* #t });
                }
                other => {
                    lead.push(other);
                }
            }
        }
    }

    fn falls_through(e: &Expr) -> bool {
        match e {
            Expr::Return(_) => false,
            Expr::Block(b) => match b.block.stmts.last() {
                Some(Stmt::Expr(e, _)) => Self::falls_through(e),
                _ => true,
            },
            Expr::If(i) => {
                let t = Self::falls_through(&Expr::Block(ExprBlock { attrs: vec![], label: None, block: i.then_branch.clone() }));
                let el = i.else_branch.as_ref().map_or(true, |x| Self::falls_through(&x.1));
                t || el
            }
            Expr::Match(m) => m.arms.iter().any(|a| Self::falls_through(&a.body)),
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    path_str(&p.path) != "crate::vpre::v_unreachable"
                } else {
                    true
                }
            }
            _ => true,
        }
    }

    fn expr(&mut self, e: Expr, join: bool, trivial: bool, k: K) -> Expr {
        if !has_exit(&e) {
            return k(self, e);
        }
        match e {
            Expr::Paren(p) => self.expr(*p.expr, join, trivial, k),
            Expr::Return(r) => match r.expr {
                None => self.exit(join, parse_quote!(())),
                Some(x) => self.expr(*x, join, true, &mut |c, v| c.exit(join, v)),
            },
            Expr::Try(t) => {
                let v = self.name("t");
                let er = self.name("e");
                let opt = self.opt;
                self.expr(*t.expr, join, false, &mut |c, x| {
                    let body = k(c, parse_quote!(#v));
                    // the value may be what a method changes
                    let text = quote!(#body).to_string();
                    let changed = text.contains(&format!("& mut {} ", v)) || text.contains(&format!("{} . ", v));
                    let m: Option<Token![mut]> = if changed { Some(Default::default()) } else { None };
                    if opt {
                        let ex = c.exit(join, parse_quote!(None));
                        parse_quote!(match #x { Some(#m #v) => { #body } None => { #ex } })
                    } else {
                        let ex = c.exit(join, parse_quote!(Err(core::convert::From::from(#er))));
                        parse_quote!(match #x { Ok(#m #v) => { #body } Err(#er) => { #ex } })
                    }
                })
            }
            Expr::Block(b) => self.block(b.block, join, trivial, k),
            Expr::If(i) => {
                let ExprIf { cond, then_branch, else_branch, .. } = i;
                let el: Expr = match else_branch {
                    Some((_, x)) => *x,
                    None => parse_quote!({}),
                };
                if let Expr::Let(l) = *cond {
                    let (p, s) = (l.pat, l.expr);
                    let m: Expr = parse_quote!(match #s { #p => #then_branch _ => #el });
                    return self.expr(m, join, trivial, k);
                }
                let th = Expr::Block(ExprBlock { attrs: vec![], label: None, block: then_branch });
                let mut th = Some(th);
                let mut el = Some(el);
                self.expr(*cond, join, false, &mut |c, cv| {
                    let th = th.take().unwrap();
                    let el = el.take().unwrap();
                    let n = Self::falls_through(&th) as usize + Self::falls_through(&el) as usize;
                    if trivial || n <= 1 {
                        let a = c.expr(th, join, trivial, &mut *k);
                        let b = c.expr(el, join, trivial, &mut *k);
                        parse_quote!(if #cv { #a } else { #b })
                    } else {
                        let a = c.expr(th, true, true, &mut |_, v| parse_quote!(core::result::Result::Ok(#v)));
                        let b = c.expr(el, true, true, &mut |_, v| parse_quote!(core::result::Result::Ok(#v)));
                        let v = c.name("j");
                        let r = c.name("x");
                        let ok = k(c, parse_quote!(#v));
                        let ex = c.exit(join, parse_quote!(#r));
                        parse_quote!(match (if #cv { #a } else { #b }) { Ok(#v) => { #ok } Err(#r) => { #ex } })
                    }
                })
            }
            Expr::Match(m) => {
                let mut arms = Some(m.arms);
                if arms.as_ref().unwrap().iter().any(|a| a.guard.as_ref().map_or(false, |g| has_exit(&g.1))) {
                    self.unsupported = Some("early exit in a match guard".into());
                }
                self.expr(*m.expr, join, false, &mut |c, sv| {
                    let arms = arms.take().unwrap();
                    let n = arms.iter().filter(|a| Self::falls_through(&a.body)).count();
                    let direct = trivial || n <= 1;
                    let mut out: Vec<Arm> = vec![];
                    for a in arms {
                        let body = if direct {
                            c.expr(*a.body, join, trivial, &mut *k)
                        } else {
                            c.expr(*a.body, true, true, &mut |_, v| parse_quote!(core::result::Result::Ok(#v)))
                        };
                        let p = a.pat;
                        out.push(match a.guard {
                            Some((_, g)) => parse_quote!(#p if #g => { #body }),
                            None => parse_quote!(#p => { #body }),
                        });
                    }
                    if direct {
                        parse_quote!(match #sv { #(#out)* })
                    } else {
                        let v = c.name("j");
                        let r = c.name("x");
                        let ok = k(c, parse_quote!(#v));
                        let ex = c.exit(join, parse_quote!(#r));
                        parse_quote!(match (match #sv { #(#out)* }) { Ok(#v) => { #ok } Err(#r) => { #ex } })
                    }
                })
            }
            Expr::Call(c0) => {
                let func = c0.func;
                self.seq(c0.args.into_iter().collect(), vec![], join, &mut |c, a| k(c, parse_quote!(#func(#(#a),*))))
            }
            Expr::MethodCall(m) => {
                let mut v = vec![(*m.receiver).clone()];
                v.extend(m.args.iter().cloned());
                self.seq(v, vec![], join, &mut |c, a| {
                    let mut m2 = m.clone();
                    let mut it = a.into_iter();
                    m2.receiver = Box::new(it.next().unwrap());
                    m2.args = it.collect();
                    k(c, Expr::MethodCall(m2))
                })
            }
            Expr::Tuple(t) => self.seq(t.elems.into_iter().collect(), vec![], join, &mut |c, a| {
                let x: Expr = if a.len() == 1 { let y = &a[0]; parse_quote!((#y,)) } else { parse_quote!((#(#a),*)) };
                k(c, x)
            }),
            Expr::Struct(s) => {
                if s.rest.is_some() {
                    self.unsupported = Some("struct update".into());
                }
                let fs: Vec<FieldValue> = s.fields.iter().cloned().collect();
                let path = s.path;
                self.seq(fs.iter().map(|f| f.expr.clone()).collect(), vec![], join, &mut |c, a| {
                    let names: Vec<Member> = fs.iter().map(|f| f.member.clone()).collect();
                    k(c, parse_quote!(#path { #(#names: #a),* }))
                })
            }
            Expr::Binary(b) => {
                if matches!(b.op, BinOp::And(_) | BinOp::Or(_)) && has_exit(&b.right) {
                    let (l, r) = (b.left, b.right);
                    let x: Expr = if matches!(b.op, BinOp::And(_)) {
                        parse_quote!(if #l { #r } else { false })
                    } else {
                        parse_quote!(if #l { true } else { #r })
                    };
                    return self.expr(x, join, trivial, k);
                }
                let op = b.op;
                self.seq(vec![*b.left, *b.right], vec![], join, &mut |c, a| {
                    let (l, r) = (&a[0], &a[1]);
                    k(c, parse_quote!((#l) #op (#r)))
                })
            }
            Expr::Assign(a) => {
                let l = a.left;
                self.expr(*a.right, join, false, &mut |c, v| k(c, parse_quote!(#l = #v)))
            }
            Expr::Unary(u) => {
                let op = u.op;
                self.expr(*u.expr, join, false, &mut |c, v| k(c, parse_quote!(#op (#v))))
            }
            Expr::Reference(r) => {
                let m = r.mutability;
                self.expr(*r.expr, join, false, &mut |c, v| k(c, parse_quote!(& #m #v)))
            }
            Expr::Field(f) => {
                let m = f.member;
                self.expr(*f.base, join, false, &mut |c, v| k(c, parse_quote!((#v).#m)))
            }
            Expr::Cast(f) => {
                let t = f.ty;
                self.expr(*f.expr, join, false, &mut |c, v| k(c, parse_quote!((#v) as #t)))
            }
            Expr::Index(i) => self.seq(vec![*i.expr, *i.index], vec![], join, &mut |c, a| {
                let (x, y) = (&a[0], &a[1]);
                k(c, parse_quote!(#x[#y]))
            }),
            other => {
                self.unsupported = Some(format!("early exit inside {}", {
                    let s = quote!(#other).to_string();
                    s.chars().take(40).collect::<String>()
                }));
                k(self, other)
            }
        }
    }

    /// evaluates the expressions in order
    fn seq(&mut self, mut rest: Vec<Expr>, done: Vec<Expr>, join: bool, k: &mut dyn FnMut(&mut Cps, Vec<Expr>) -> Expr) -> Expr {
        if rest.is_empty() {
            return k(self, done);
        }
        let e = rest.remove(0);
        let later = rest.iter().any(has_exit);
        if !has_exit(&e) {
            let stable = match &e {
                Expr::Lit(_) | Expr::Path(_) => true,
                Expr::Reference(r) => is_place(&r.expr),
                Expr::Closure(_) => true,
                e => is_place(e),
            };
            if stable || !later {
                let mut d = done;
                d.push(e);
                return self.seq(rest, d, join, k);
            }
            let n = self.name("a");
            let mut d = done;
            d.push(parse_quote!(#n));
            let t = self.seq(rest, d, join, k);
            return parse_quote!({ let #n = #e; #t });
        }
        let mut rest = Some(rest);
        let mut done = Some(done);
        self.expr(e, join, false, &mut |c, v| {
            let rest = rest.take().unwrap_or_default();
            let mut d = done.take().unwrap_or_default();
            if rest.is_empty() || matches!(v, Expr::Path(_) | Expr::Lit(_)) {
                d.push(v);
                c.seq(rest, d, join, &mut *k)
            } else {
                let n = c.name("a");
                d.push(parse_quote!(#n));
                let t = c.seq(rest, d, join, &mut *k);
                parse_quote!({ let #n = #v; #t })
            }
        })
    }
}
