//! Adapters of `Option`, `Result`, `bool` and iterators, told apart by the types the compiler
//! gives (oracle.rs), become matches and loops, before anything is inlined.
use crate::inline::Cps;
use crate::lower::{has_exit, path_str};
use crate::oracle;
use quote::{format_ident, ToTokens};
use std::collections::BTreeSet;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Early {
    pub fresh: usize,
    /// the modules at the top of the library
    pub tops: BTreeSet<String>,
    /// what the function returns
    out: ReturnType,
}

#[derive(PartialEq, Clone, Copy)]
enum Kind {
    Opt,
    Res,
    Bool,
    Iter,
    Slice,
    Other,
}

fn kind(m: &ExprMethodCall) -> Option<Kind> {
    let p = oracle::method(&m.method)?.path;
    Some(if p.starts_with("core::option::") {
        Kind::Opt
    } else if p.starts_with("core::result::") {
        Kind::Res
    } else if p.starts_with("core::bool::") {
        Kind::Bool
    } else if p.starts_with("core::iter::") || p.starts_with("core::slice::iter::") {
        Kind::Iter
    } else if p.starts_with("core::slice::") {
        Kind::Slice
    } else {
        Kind::Other
    })
}

fn peel(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => peel(&p.expr),
        Expr::Group(p) => peel(&p.expr),
        Expr::Block(b) if b.block.stmts.len() == 1 && b.label.is_none() => match &b.block.stmts[0] {
            Stmt::Expr(e, None) => peel(e),
            _ => e,
        },
        e => e,
    }
}

fn plain_pat(p: &Pat) -> Pat {
    match p {
        Pat::Type(t) => plain_pat(&t.pat),
        Pat::Paren(t) => plain_pat(&t.pat),
        p => p.clone(),
    }
}

/// `let p = a`
fn bind(p: &Pat, a: Expr) -> Stmt {
    if let Pat::Reference(r) = p {
        if let Pat::Ident(i) = &*r.pat {
            if i.subpat.is_none() && i.by_ref.is_none() {
                return parse_quote!(let #i = *#a;);
            }
        }
    }
    parse_quote!(let #p = #a;)
}

fn mentions(e: &Expr, n: &str) -> bool {
    fn go(ts: proc_macro2::TokenStream, n: &str) -> bool {
        ts.into_iter().any(|t| match t {
            proc_macro2::TokenTree::Ident(i) => i == n,
            proc_macro2::TokenTree::Group(g) => go(g.stream(), n),
            _ => false,
        })
    }
    go(e.to_token_stream(), n)
}

impl Early {
    fn name(&mut self, p: &str) -> Ident {
        self.fresh += 1;
        format_ident!("__{}e{}", p, self.fresh)
    }

    /// a type as the compiler prints it
    fn to_type(&self, s: &str) -> Option<Type> {
        if s.contains("/#") || s.contains("Closure(") || s.contains("Alias") || s.contains("impl ") || s.contains("dyn ") || s.contains('?') {
            return None;
        }
        let mut t = parse_str::<Type>(s).ok()?;
        struct P<'a>(&'a BTreeSet<String>);
        impl<'a> VisitMut for P<'a> {
            fn visit_path_mut(&mut self, p: &mut syn::Path) {
                visit_mut::visit_path_mut(self, p);
                if p.segments.len() == 3 && ["std::fmt::Error", "core::fmt::Error"].contains(&path_str(p).replace(' ', "").as_str()) {
                    *p = parse_quote!(crate::vpre::FmtError);
                    return;
                }
                let f = p.segments[0].ident.to_string();
                let pre: &[&str] = if f == "rx509" {
                    p.segments = p.segments.iter().skip(1).cloned().collect();
                    &["crate"]
                } else if self.0.contains(&f) {
                    &["crate"]
                } else if p.segments.len() == 1 || ["std", "core", "alloc"].contains(&f.as_str()) {
                    &[]
                } else {
                    &["crate", "decoder"]
                };
                for (k, x) in pre.iter().enumerate() {
                    p.segments.insert(k, PathSegment::from(format_ident!("{}", x)));
                }
            }
        }
        P(&self.tops).visit_type_mut(&mut t);
        Some(t)
    }

    /// a function applied
    fn apply(&mut self, f: &Expr, args: Vec<Expr>) -> Option<Expr> {
        match peel(f) {
            Expr::Closure(c) if c.inputs.len() == args.len() => {
                let lets: Vec<Stmt> = c
                    .inputs
                    .iter()
                    .zip(args)
                    .map(|(p, a)| {
                        let p = plain_pat(p);
                        if let Pat::Ident(i) = &p {
                            if let Some(t) = oracle::pat_ty(i).filter(|t| oracle::is_int(t)) {
                                let t = format_ident!("{}", t);
                                return parse_quote!(let #p: #t = #a;);
                            }
                        }
                        bind(&p, a)
                    })
                    .collect();
                let b = &c.body;
                if !has_exit(b) {
                    return Some(if lets.is_empty() { (**b).clone() } else { parse_quote!({ #(#lets)* #b }) });
                }
                let t = match &c.output {
                    ReturnType::Type(_, t) => Some((**t).clone()),
                    _ => oracle::ty(b).and_then(|t| self.to_type(&t)),
                };
                let opt = t.as_ref().map_or(false, |t| t.to_token_stream().to_string().replace(' ', "").split('<').next().unwrap_or("").ends_with("Option"));
                let v = self.name("v");
                let mut c = Cps { fresh: 0, opt, unsupported: None, tag: format!("e{}", self.fresh) };
                let body = c.run_block(parse_quote!({ #(#lets)* #b }));
                if c.unsupported.is_some() {
                    return None;
                }
                Some(match t {
                    Some(t) => parse_quote!({ let #v: #t = #body; #v }),
                    None => body,
                })
            }
            Expr::Path(p) => Some(parse_quote!(#p(#(#args),*))),
            _ => None,
        }
    }

    fn value(&mut self, k: Kind, m: &ExprMethodCall, whole: &Expr) -> Option<Expr> {
        let n = m.method.to_string();
        let r = &m.receiver;
        let v = self.name("m");
        let x = |i: &Ident| -> Expr { parse_quote!(#i) };
        let a = |i: usize| m.args[i].clone();
        Some(match (k, n.as_str(), m.args.len()) {
            (Kind::Opt, "map", 1) => {
                let c = self.apply(&a(0), vec![x(&v)])?;
                parse_quote!(match #r { Some(#v) => Some(#c), None => None })
            }
            (Kind::Opt, "and_then", 1) => {
                let c = self.apply(&a(0), vec![x(&v)])?;
                parse_quote!(match #r { Some(#v) => #c, None => None })
            }
            (Kind::Opt, "or_else", 1) => {
                let c = self.apply(&a(0), vec![])?;
                parse_quote!(match #r { Some(#v) => Some(#v), None => #c })
            }
            (Kind::Opt, "unwrap_or_else", 1) => {
                let c = self.apply(&a(0), vec![])?;
                parse_quote!(match #r { Some(#v) => #v, None => #c })
            }
            (Kind::Opt, "ok_or_else", 1) => {
                let c = self.apply(&a(0), vec![])?;
                parse_quote!(match #r { Some(#v) => Ok(#v), None => Err(#c) })
            }
            (Kind::Opt, "map_or", 2) => {
                let c = self.apply(&a(1), vec![x(&v)])?;
                let d = a(0);
                parse_quote!(match #r { Some(#v) => #c, None => #d })
            }
            (Kind::Opt, "map_or_else", 2) => {
                let c = self.apply(&a(1), vec![x(&v)])?;
                let d = self.apply(&a(0), vec![])?;
                parse_quote!(match #r { Some(#v) => #c, None => #d })
            }
            (Kind::Opt, "is_some_and", 1) => {
                let c = self.apply(&a(0), vec![x(&v)])?;
                parse_quote!(match #r { Some(#v) => #c, None => false })
            }
            (Kind::Opt, "is_none_or", 1) => {
                let c = self.apply(&a(0), vec![x(&v)])?;
                parse_quote!(match #r { Some(#v) => #c, None => true })
            }
            (Kind::Opt, "filter", 1) => {
                let c = self.apply(&a(0), vec![parse_quote!(&#v)])?;
                parse_quote!(match #r { Some(#v) => if #c { Some(#v) } else { None }, None => None })
            }
            (Kind::Opt, "replace", 1) => {
                let d = a(0);
                if oracle::ty(r)?.starts_with('&') {
                    parse_quote!(core::mem::replace(&mut *#r, Some(#d)))
                } else {
                    parse_quote!(core::mem::replace(&mut #r, Some(#d)))
                }
            }
            (Kind::Opt, "insert", 1) => return None,
            (Kind::Opt, "transpose", 0) => {
                parse_quote!(match #r { Some(Ok(#v)) => Ok(Some(#v)), Some(Err(#v)) => Err(#v), None => Ok(None) })
            }
            (Kind::Res, "transpose", 0) => {
                parse_quote!(match #r { Ok(Some(#v)) => Some(Ok(#v)), Ok(None) => None, Err(#v) => Some(Err(#v)) })
            }
            (Kind::Opt, "flatten", 0) => parse_quote!(match #r { Some(#v) => #v, None => None }),
            (Kind::Opt, "zip", 1) => {
                let (w, d) = (self.name("m"), a(0));
                parse_quote!(match (#r, #d) { (Some(#v), Some(#w)) => Some((#v, #w)), _ => None })
            }
            (Kind::Opt, "and", 1) => {
                let d = a(0);
                parse_quote!(match (#r, #d) { (Some(_), #v) => #v, _ => None })
            }
            (Kind::Opt, "or", 1) => {
                let (w, d) = (self.name("m"), a(0));
                parse_quote!(match (#r, #d) { (Some(#v), _) => Some(#v), (None, #w) => #w })
            }
            (Kind::Opt, "copied" | "cloned", 0) => {
                // clones of numbers only
                if n == "cloned" {
                    let t = oracle::ty(whole)?;
                    let t = t.split_once('<')?.1.strip_suffix('>')?.to_string();
                    if !oracle::is_int(&t) {
                        return None;
                    }
                }
                parse_quote!(match #r { Some(#v) => Some(*#v), None => None })
            }
            (Kind::Res, "map", 1) => {
                let c = self.apply(&a(0), vec![x(&v)])?;
                parse_quote!(match #r { Ok(#v) => Ok(#c), Err(__e) => Err(__e) })
            }
            (Kind::Res, "map_err", 1) => {
                let c = self.apply(&a(0), vec![x(&v)])?;
                parse_quote!(match #r { Ok(__k) => Ok(__k), Err(#v) => Err(#c) })
            }
            (Kind::Res, "and_then", 1) => {
                let c = self.apply(&a(0), vec![x(&v)])?;
                parse_quote!(match #r { Ok(#v) => #c, Err(__e) => Err(__e) })
            }
            (Kind::Res, "or_else", 1) => {
                let c = self.apply(&a(0), vec![x(&v)])?;
                parse_quote!(match #r { Ok(__k) => Ok(__k), Err(#v) => #c })
            }
            (Kind::Res, "unwrap_or_else", 1) => {
                let c = self.apply(&a(0), vec![x(&v)])?;
                parse_quote!(match #r { Ok(__k) => __k, Err(#v) => #c })
            }
            (Kind::Res, "map_or", 2) => {
                let c = self.apply(&a(1), vec![x(&v)])?;
                let d = a(0);
                parse_quote!(match #r { Ok(#v) => #c, Err(_) => #d })
            }
            (Kind::Res, "map_or_else", 2) => {
                let c = self.apply(&a(1), vec![x(&v)])?;
                let d = self.apply(&a(0), vec![x(&v)])?;
                parse_quote!(match #r { Ok(#v) => #c, Err(#v) => #d })
            }
            (Kind::Res, "is_ok_and", 1) => {
                let c = self.apply(&a(0), vec![x(&v)])?;
                parse_quote!(match #r { Ok(#v) => #c, Err(_) => false })
            }
            (Kind::Res, "is_err_and", 1) => {
                let c = self.apply(&a(0), vec![x(&v)])?;
                parse_quote!(match #r { Ok(_) => false, Err(#v) => #c })
            }
            (Kind::Res, "and", 1) => {
                let d = a(0);
                parse_quote!(match (#r, #d) { (Ok(_), #v) => #v, (Err(#v), _) => Err(#v) })
            }
            (Kind::Bool, "then", 1) => {
                let c = self.apply(&a(0), vec![])?;
                parse_quote!(if #r { Some(#c) } else { None })
            }
            (Kind::Bool, "then_some", 1) => {
                let (w, d) = (self.name("m"), a(0));
                parse_quote!({ let #v = #r; let #w = #d; if #v { Some(#w) } else { None } })
            }
            (Kind::Slice, "last_mut", 0) => {
                let t = oracle::ty(&m.receiver)?;
                match t.strip_prefix("&mut ") {
                    Some(u) if u.contains("Vec<") => parse_quote!(crate::vpre::v_last_mut(&mut *#r)),
                    None if t.contains("Vec<") && !t.starts_with('&') => parse_quote!(crate::vpre::v_last_mut(&mut #r)),
                    _ => return None,
                }
            }
            (Kind::Slice, "strip_prefix", 1) => {
                let d = a(0);
                parse_quote!(crate::vpre::VPrefix::v_strip_prefix(&*#r, #d))
            }
            (Kind::Other, "starts_with" | "ends_with" | "strip_prefix" | "strip_suffix", 1)
                if oracle::method(&m.method)?.path.starts_with("core::str::") && oracle::ty(&m.args[0]).map_or(false, |t| t == "char" || t.starts_with('&') && t.ends_with("str")) =>
            {
                let (f, d) = (format_ident!("v_text_{}", n), a(0));
                let t = oracle::ty(r)?;
                if t.contains("String") || t.contains("Cow<") {
                    parse_quote!(crate::vpre::#f(#r.as_str(), #d))
                } else {
                    parse_quote!(crate::vpre::#f(#r, #d))
                }
            }
            (Kind::Other, "to_owned", 0) if oracle::ty(whole).map_or(false, |t| t.starts_with("der::") || t.starts_with("x509::")) => parse_quote!(#r.clone()),
            (Kind::Other, "to_owned", 0) if oracle::ty(r).map_or(false, |t| t.starts_with("&[") && t.ends_with(']') && !t.contains(';')) => parse_quote!(#r.to_vec()),
            (Kind::Other, "leading_zeros" | "trailing_zeros", 0) if oracle::ty(r).map_or(false, |t| t == "usize") => {
                let f = &m.method;
                parse_quote!((#r as u64).#f())
            }
            (Kind::Other, "to_be_bytes" | "to_le_bytes", 0) if oracle::ty(r).map_or(false, |t| ["u16", "u32", "u64", "usize"].contains(&t.as_str())) => {
                let f = format_ident!("{}_{}", oracle::ty(r)?, n);
                parse_quote!(crate::ints::#f(#r))
            }
            (Kind::Slice, "contains", 1) if matches!(peel(&m.receiver), Expr::Array(_)) => {
                // one of a few values
                let Expr::Array(l) = peel(&m.receiver) else { return None };
                let (t, d): (String, Expr) = match peel(&m.args[0]) {
                    Expr::Reference(r) => (oracle::ty(&r.expr)?, (*r.expr).clone()),
                    e => (oracle::ty(e)?.strip_prefix('&')?.to_string(), parse_quote!(*#e)),
                };
                let t = if t.starts_with('&') && t.ends_with("str") { "char".to_string() } else { t };
                if !oracle::is_int(&t) && t != "char" && t != "bool" || l.elems.is_empty() || !l.elems.iter().all(|e| matches!(peel(e), Expr::Lit(_) | Expr::Path(_))) {
                    return None;
                }
                let e = l.elems.iter();
                parse_quote!({ let #v = #d; #(#v == #e)||* })
            }
            (Kind::Slice, "contains", 1) => {
                let d = a(0);
                parse_quote!(crate::vpre::VPrefix::v_contains(&*#r, #d))
            }
            (Kind::Slice, "ends_with", 1) => {
                let d = a(0);
                parse_quote!(crate::vpre::VPrefix::v_ends_with(&*#r, #d))
            }
            (Kind::Slice, "strip_suffix", 1) => {
                let d = a(0);
                parse_quote!(crate::vpre::VPrefix::v_strip_suffix(&*#r, #d))
            }
            (Kind::Opt, "xor", 1) => {
                let (w, d) = (self.name("m"), a(0));
                parse_quote!(match (#r, #d) { (Some(#v), None) => Some(#v), (None, Some(#w)) => Some(#w), _ => None })
            }
            (Kind::Slice, "starts_with", 1) => {
                let d = a(0);
                parse_quote!(crate::vpre::VPrefix::v_starts_with(&*#r, #d))
            }
            (Kind::Iter, _, _) => return self.consume(m, whole),
            _ => return None,
        })
    }

    /// `?` on this leaves the function with the very error
    fn leaves_by(&self, whole: &str) -> bool {
        let e = error_of(whole).and_then(|e| self.to_type(&e));
        match (e, &self.out) {
            (Some(e), ReturnType::Type(_, t)) => crate::krate::result_error(t) == Some(e.to_token_stream().to_string()),
            _ => false,
        }
    }

    /// an iterator used up
    fn consume(&mut self, m: &ExprMethodCall, whole: &Expr) -> Option<Expr> {
        let n = m.method.to_string();
        let src = (*m.receiver).clone();
        let v = self.name("r");
        let clos = |i: usize, k: usize| -> Option<(Vec<Pat>, Expr)> {
            match peel(m.args.get(i)?) {
                Expr::Closure(c) if c.inputs.len() == k && !has_exit(&c.body) => Some((c.inputs.iter().map(plain_pat).collect(), (*c.body).clone())),
                Expr::Path(p) => {
                    let q = format_ident!("__a{}", i);
                    if k != 1 {
                        return None;
                    }
                    Some((vec![parse_quote!(#q)], parse_quote!(#p(#q))))
                }
                _ => None,
            }
        };
        let mut e: Expr = match (n.as_str(), m.args.len()) {
            ("fold", 2) => {
                let (p, b) = clos(1, 2)?;
                let (i, q) = (m.args[0].clone(), &p[1]);
                match &p[0] {
                    Pat::Ident(a) if a.subpat.is_none() && a.by_ref.is_none() && !mentions(&src, &a.ident.to_string()) => {
                        let a = &a.ident;
                        // the name is bound once more for a body that assigns to it
                        parse_quote!({ let mut #a = #i; for #q in #src { #a = #b; } #a })
                    }
                    a => parse_quote!({ let mut #v = #i; for #q in #src { #v = { let #a = #v; #b }; } #v }),
                }
            }
            ("for_each", 1) => {
                let (p, b) = clos(0, 1)?;
                let q = &p[0];
                parse_quote!({ for #q in #src { #b; } })
            }
            ("try_for_each", 1) => {
                let (p, b) = clos(0, 1)?;
                let q = &p[0];
                if oracle::head(&oracle::ty(whole)?) != "std::result::Result" {
                    return None;
                }
                self.search(parse_quote!(let mut #v = Ok(());), &v, parse_quote!(#v.is_ok()), q, &src, |s| parse_quote!({ match #b { Ok(_) => {} Err(__e) => { #v = Err(__e); #s } } }))
            }
            ("any", 1) => {
                let (p, b) = clos(0, 1)?;
                let q = &p[0];
                self.search(parse_quote!(let mut #v = false;), &v, parse_quote!(!#v), q, &src, |s| parse_quote!({ if #b { #v = true; #s } }))
            }
            ("all", 1) => {
                let (p, b) = clos(0, 1)?;
                let q = &p[0];
                self.search(parse_quote!(let mut #v = true;), &v, parse_quote!(#v), q, &src, |s| parse_quote!({ if !(#b) { #v = false; #s } }))
            }
            ("position", 1) => {
                let (p, b) = clos(0, 1)?;
                let (q, w) = (&p[0], self.name("n"));
                parse_quote!({ let mut #v = None; let mut #w: usize = 0; for #q in #src { if #b { #v = Some(#w); break; } #w += 1; } #v })
            }
            ("find", 1) => {
                let (w, c) = (self.name("x"), ());
                let _ = c;
                let b = match peel(&m.args[0]) {
                    Expr::Closure(c) if has_exit(&c.body) => return None,
                    f => self.apply(f, vec![parse_quote!(&#w)])?,
                };
                self.search(parse_quote!(let mut #v = None;), &v, parse_quote!(#v.is_none()), &parse_quote!(#w), &src, |s| parse_quote!({ if #b { #v = Some(#w); #s } }))
            }
            ("find_map", 1) => {
                let (p, b) = clos(0, 1)?;
                let (q, w) = (&p[0], self.name("x"));
                self.search(parse_quote!(let mut #v = None;), &v, parse_quote!(#v.is_none()), q, &src, |s| parse_quote!({ match #b { Some(#w) => { #v = Some(#w); #s } None => {} } }))
            }
            ("sum", 0) => {
                let t = oracle::ty(whole)?;
                if !oracle::is_int(&t) {
                    return None;
                }
                let (t, w) = (format_ident!("{}", t), self.name("x"));
                let by_ref = matches!(peel(&src), Expr::MethodCall(r) if r.method == "iter");
                let d: Expr = if by_ref { parse_quote!(*#w) } else { parse_quote!(#w) };
                parse_quote!({ let mut #v: #t = 0; for #w in #src { #v += #d; } #v })
            }
            ("count", 0) if matches!(peel(&src), Expr::MethodCall(r) if r.method == "filter") => {
                let w = self.name("x");
                parse_quote!({ let mut #v: usize = 0; for #w in #src { #v += 1; } #v })
            }
            ("collect", 0) if oracle::ty(&src).map_or(false, |t| !["&", "[", "core::", "alloc::", "std::"].iter().any(|x| t.starts_with(x)) && t.contains("::")) || matches!(peel(&src), Expr::MethodCall(r) if ["map", "filter", "filter_map", "copied", "cloned"].contains(&r.method.to_string().as_str())) && !mentions(&src, "args") => {
                let t = oracle::ty(whole)?;
                let w = self.name("x");
                if oracle::head(&t) == "std::vec::Vec" {
                    parse_quote!({ let mut #v = Vec::new(); for #w in #src { #v.push(#w); } #v })
                } else if t.starts_with("std::result::Result<std::vec::Vec<") {
                    let z = self.name("z");
                    parse_quote!({ let mut #v = Vec::new(); let mut #z = Ok(()); for #w in #src { match #w { Ok(__k) => { #v.push(__k); } Err(__e) => { #z = Err(__e); break; } } } match #z { Ok(_) => Ok(#v), Err(__e) => Err(__e) } })
                } else {
                    return None;
                }
            }
            ("extend", 1) if oracle::head(&oracle::method(&m.method)?.recv) == "std::vec::Vec" => {
                let (w, it) = (self.name("x"), m.args[0].clone());
                parse_quote!({ for #w in #it { #src.push(#w); } })
            }
            _ => return None,
        };
        struct F<'a>(&'a mut Early);
        impl<'a> VisitMut for F<'a> {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                if let Expr::ForLoop(f) = e {
                    self.0.source(f);
                    if let Some(x) = self.0.unrolled(f) {
                        *e = x;
                    }
                    return;
                }
                visit_mut::visit_expr_mut(self, e);
            }
        }
        F(self).visit_expr_mut(&mut e);
        Some(e)
    }

    /// a loop that ends with what it looks for
    fn search(&mut self, init: Stmt, v: &Ident, on: Expr, p: &Pat, src: &Expr, body: impl Fn(Option<Stmt>) -> Block) -> Expr {
        // written out over a few literals
        let b = body(None);
        let mut f: ExprForLoop = parse_quote!(for #p in #src { if #on #b });
        self.source(&mut f);
        if let Some(x) = self.unrolled(&f) {
            return parse_quote!({ #init #x #v });
        }
        let b = body(Some(parse_quote!(break;)));
        parse_quote!({ #init for #p in #src #b #v })
    }

    /// the adapters of a loop's source go into its body
    fn source(&mut self, f: &mut ExprForLoop) {
        loop {
            let m = match peel(&f.expr) {
                Expr::MethodCall(m) => m.clone(),
                _ => return,
            };
            if kind(&m) != Some(Kind::Iter) {
                return;
            }
            let n = m.method.to_string();
            if n == "enumerate" {
                // `x.map(f).enumerate()`: f inside
                if let Pat::Ident(w) = &*f.pat {
                    let (c, v, w, b) = (self.name("i"), self.name("i"), w.clone(), f.body.clone());
                    *f.pat = parse_quote!((#c, #v));
                    f.body = parse_quote!({ let #w = (#c, #v); #b });
                }
                let inner = match (peel(&m.receiver), &*f.pat) {
                    (Expr::MethodCall(i), Pat::Tuple(t)) if t.elems.len() == 2 && ["map", "copied", "cloned"].contains(&i.method.to_string().as_str()) && kind(i) == Some(Kind::Iter) => i.clone(),
                    _ => return,
                };
                let v = self.name("i");
                let x = match self.item(&inner, &v) {
                    Some(x) => x,
                    None => return,
                };
                let (c, p) = match &*f.pat {
                    Pat::Tuple(t) => (t.elems[0].clone(), t.elems[1].clone()),
                    _ => return,
                };
                let b = f.body.clone();
                let l = bind(&p, x);
                f.body = parse_quote!({ #l #b });
                *f.pat = parse_quote!((#c, #v));
                let mut m = m;
                m.receiver = inner.receiver.clone();
                *f.expr = Expr::MethodCall(m);
                continue;
            }
            let v = self.name("i");
            let p = (*f.pat).clone();
            let b = f.body.clone();
            match n.as_str() {
                "map" | "copied" | "cloned" => {
                    let x = match self.item(&m, &v) {
                        Some(x) => x,
                        None => return,
                    };
                    let l = bind(&p, x);
                    f.body = parse_quote!({ #l #b });
                }
                "filter" if m.args.len() == 1 => {
                    let c = match self.apply(&m.args[0], vec![parse_quote!(&#v)]) {
                        Some(c) => c,
                        None => return,
                    };
                    let l = bind(&p, parse_quote!(#v));
                    f.body = parse_quote!({ if #c { #l #b } });
                }
                "filter_map" if m.args.len() == 1 => {
                    let c = match self.apply(&m.args[0], vec![parse_quote!(#v)]) {
                        Some(c) => c,
                        None => return,
                    };
                    f.body = parse_quote!({ match #c { Some(#p) => #b None => {} } });
                }
                "take_while" if m.args.len() == 1 => {
                    let c = match self.apply(&m.args[0], vec![parse_quote!(&#v)]) {
                        Some(c) => c,
                        None => return,
                    };
                    let l = bind(&p, parse_quote!(#v));
                    f.body = parse_quote!({ if #c { #l #b } else { break; } });
                }
                "into_iter" if m.args.is_empty() => {
                    let r = (*m.receiver).clone();
                    if matches!(peel(&r), Expr::MethodCall(x) if kind(x) == Some(Kind::Iter)) {
                        *f.expr = r;
                        continue;
                    }
                    return;
                }
                _ => return,
            }
            *f.pat = parse_quote!(#v);
            *f.expr = (*m.receiver).clone();
        }
    }

    fn item(&mut self, m: &ExprMethodCall, v: &Ident) -> Option<Expr> {
        match (m.method.to_string().as_str(), m.args.len()) {
            ("map", 1) => self.apply(&m.args[0], vec![parse_quote!(#v)]),
            ("copied" | "cloned", 0) => Some(parse_quote!(*#v)),
            _ => None,
        }
    }
}

/// a loop is left or continued from this block
fn breaks(b: &Block) -> bool {
    struct B(bool, usize);
    impl<'a> syn::visit::Visit<'a> for B {
        fn visit_expr(&mut self, e: &'a Expr) {
            match e {
                Expr::Break(b) if self.1 == 0 || b.label.is_some() => self.0 = true,
                Expr::Continue(c) if self.1 == 0 || c.label.is_some() => self.0 = true,
                Expr::Closure(_) => {}
                Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_) => {
                    self.1 += 1;
                    syn::visit::visit_expr(self, e);
                    self.1 -= 1;
                }
                e => syn::visit::visit_expr(self, e),
            }
        }
        fn visit_item(&mut self, _: &'a Item) {}
    }
    let mut x = B(false, 0);
    syn::visit::Visit::visit_block(&mut x, b);
    x.0
}

fn literal(e: &Expr) -> Option<i64> {
    match peel(e) {
        Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) => i.base10_parse().ok(),
        _ => None,
    }
}

impl Early {
    /// the places that an iterator of exclusive references goes through
    fn places(&self, e: &Expr, most: usize) -> Option<Vec<Expr>> {
        let m = match e {
            Expr::MethodCall(m) if m.args.is_empty() => m,
            Expr::Array(_) => return exclusive(e, most),
            _ => return None,
        };
        let r = peel(&m.receiver);
        if m.method == "into_iter" {
            return exclusive(r, most);
        }
        if m.method != "iter_mut" || !matches!(r, Expr::Path(_) | Expr::Field(_)) {
            return None;
        }
        let t = oracle::ty(r)?;
        let n = array_len(&t)?;
        if n > most {
            return None;
        }
        Some((0..n).map(|k| parse_quote!(#r[#k])).collect())
    }

    /// `for (p, q) in a.iter_mut().zip(b)`, and the other way round
    fn zipped(&mut self, src: &Expr, p: &Pat, b: &Block, most: usize) -> Option<Expr> {
        let m = match src {
            Expr::MethodCall(m) if m.method == "zip" && m.args.len() == 1 && kind(m) == Some(Kind::Iter) => m,
            _ => return None,
        };
        let t = match p {
            Pat::Tuple(t) if t.elems.len() == 2 => t,
            _ => return None,
        };
        let (l, r) = (peel(&m.receiver), peel(&m.args[0]));
        let (places, first, other) = match (self.places(l, most), self.places(r, most)) {
            (Some(x), None) => (x, true, r),
            (None, Some(x)) => (x, false, l),
            _ => return None,
        };
        let ty = oracle::ty(other)?;
        if ty.starts_with('&') || ty.starts_with('[') || ["core::", "alloc::", "std::"].iter().any(|x| ty.starts_with(x)) && !ty.starts_with("std::slice::Iter<") && !ty.starts_with("core::slice::Iter<") {
            return None;
        }
        let (pp, qp) = if first { (&t.elems[0], &t.elems[1]) } else { (&t.elems[1], &t.elems[0]) };
        let it = self.name("z");
        let mut x: Expr = if first { parse_quote!({}) } else { parse_quote!({ let _ = #it.next(); }) };
        for place in places.iter().rev() {
            let s = through(pp, place, b);
            x = parse_quote!(match #it.next() { Some(#qp) => { #s #x } None => {} });
        }
        Some(parse_quote!({ let mut #it = #other; #x }))
    }

    /// `for p in it.take(k)`, `for (i, p) in it.enumerate().take(k)` with a known k
    fn taken(&mut self, src: &Expr, p: &Pat, b: &Block, most: usize) -> Option<Expr> {
        let m = match src {
            Expr::MethodCall(m) if m.method == "take" && m.args.len() == 1 && kind(m) == Some(Kind::Iter) => m,
            _ => return None,
        };
        let n = match peel(&m.args[0]) {
            Expr::MethodCall(l) if l.method == "len" && l.args.is_empty() => {
                let t = oracle::ty(&l.receiver)?;
                array_len(oracle::bare(&t))?
            }
            x => literal(x)? as usize,
        };
        if n > most {
            return None;
        }
        let (other, count, item) = match peel(&m.receiver) {
            Expr::MethodCall(e) if e.method == "enumerate" && kind(e) == Some(Kind::Iter) => match p {
                Pat::Tuple(t) if t.elems.len() == 2 => (peel(&e.receiver), Some(&t.elems[0]), &t.elems[1]),
                _ => return None,
            },
            r => (r, None, p),
        };
        // the crate's own iterators
        let ty = oracle::ty(other)?;
        if matches!(other, Expr::Path(_) | Expr::Field(_)) || ["&", "[", "core::", "alloc::", "std::"].iter().any(|x| ty.starts_with(x)) {
            return None;
        }
        let it = self.name("z");
        let mut x: Expr = parse_quote!({});
        for k in (0..n).rev() {
            let c: Option<Stmt> = count.map(|c| parse_quote!(let #c: usize = #k;));
            let mut b = b.clone();
            if let Some(Pat::Ident(i)) = count {
                if i.mutability.is_none() && i.by_ref.is_none() && !rebinds(&b, &i.ident.to_string()) {
                    Known(i.ident.to_string(), parse_quote!(#k)).visit_block_mut(&mut b);
                }
            }
            x = parse_quote!(match #it.next() { Some(#item) => { { #c #b } #x } None => {} });
        }
        Some(parse_quote!({ let mut #it = #other; #x }))
    }

    /// a loop over a few literals, written out
    fn unrolled(&mut self, f: &ExprForLoop) -> Option<Expr> {
        const MOST: usize = 9;
        if f.label.is_some() || breaks(&f.body) {
            return None;
        }
        let (p, b) = (&*f.pat, &f.body);
        let mut src = peel(&f.expr);
        if let Some(x) = self.zipped(src, p, b, MOST) {
            return Some(x);
        }
        if let Some(x) = self.taken(src, p, b, MOST) {
            return Some(x);
        }
        if let Some(places) = self.places(src, MOST) {
            let all: Vec<Stmt> = places.iter().map(|x| through(p, x, b)).collect();
            return Some(parse_quote!({ #(#all)* }));
        }
        let mut by_ref = false;
        let mut counted: Option<Pat> = None;
        let mut pat = p.clone();
        if let Expr::MethodCall(m) = src {
            if m.method == "enumerate" {
                if let Pat::Tuple(t) = p {
                    if t.elems.len() == 2 {
                        counted = Some(t.elems[0].clone());
                        pat = t.elems[1].clone();
                        src = peel(&m.receiver);
                    }
                }
            }
        }
        match src {
            Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() => {
                by_ref = true;
                src = peel(&m.receiver);
            }
            Expr::Reference(r) if r.mutability.is_none() => {
                by_ref = true;
                src = peel(&r.expr);
            }
            Expr::MethodCall(m) if m.method == "into_iter" && m.args.is_empty() => src = peel(&m.receiver),
            _ => {}
        }
        let mut out: Vec<Stmt> = vec![];
        let mut items: Vec<Expr> = vec![];
        match src {
            Expr::Range(ExprRange { start: Some(lo), limits, end: Some(hi), .. }) if !by_ref => {
                let (l, h) = (literal(lo)?, literal(hi)?);
                let h = if matches!(limits, RangeLimits::Closed(_)) { h + 1 } else { h };
                if h - l > MOST as i64 || l < 0 {
                    return None;
                }
                let t = oracle::ty(lo).or_else(|| oracle::ty(hi))?;
                if !oracle::is_int(&t) {
                    return None;
                }
                for k in l..h {
                    let n = LitInt::new(&format!("{}{}", k, t), proc_macro2::Span::call_site());
                    items.push(parse_quote!(#n));
                }
            }
            Expr::Array(a) if a.elems.len() <= MOST => {
                for x in &a.elems {
                    if matches!(peel(x), Expr::Lit(_)) || matches!(peel(x), Expr::Path(p) if p.path.segments.len() > 1) {
                        items.push(if by_ref { parse_quote!(&#x) } else { x.clone() });
                        continue;
                    }
                    let n = self.name("k");
                    out.push(parse_quote!(let #n = #x;));
                    items.push(if by_ref { parse_quote!(&#n) } else { parse_quote!(#n) });
                }
            }
            _ => return None,
        }
        for (k, x) in items.into_iter().enumerate() {
            let l = bind(&pat, x);
            match &counted {
                Some(c) => out.push(parse_quote!({ let #c: usize = #k; #l #b })),
                None => out.push(parse_quote!({ #l #b })),
            }
        }
        Some(parse_quote!({ #(#out)* }))
    }
}

/// an expression for a name
struct Known(String, Expr);
impl VisitMut for Known {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if matches!(e, Expr::Path(p) if p.path.is_ident(&self.0)) {
            *e = self.1.clone();
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

fn rebinds(b: &Block, n: &str) -> bool {
    struct N<'a>(&'a str, bool);
    impl<'a, 'ast> syn::visit::Visit<'ast> for N<'a> {
        fn visit_pat_ident(&mut self, p: &'ast PatIdent) {
            self.1 |= p.ident == self.0;
        }
    }
    let mut v = N(n, false);
    syn::visit::Visit::visit_block(&mut v, b);
    v.1
}

fn array_len(t: &str) -> Option<usize> {
    t.strip_prefix('[')?.strip_suffix(']')?.rsplit_once("; ")?.1.split('_').next()?.parse().ok()
}

/// `let a = [..]; for p in a {..}`, a not used again: the literal into the loop
fn arrays(b: &mut Block) {
    let mut k = 0;
    while k + 1 < b.stmts.len() {
        let found = match &b.stmts[k] {
            Stmt::Local(Local { pat: Pat::Ident(i), init: Some(x), .. }) if x.diverge.is_none() && i.by_ref.is_none() && i.mutability.is_none() && i.subpat.is_none() && matches!(peel(&x.expr), Expr::Array(_)) => {
                Some((i.ident.to_string(), (*x.expr).clone()))
            }
            _ => None,
        };
        if let Some((n, a)) = found {
            let rest: usize = b.stmts[k + 1..].iter().map(|s| count(s.to_token_stream(), &n)).sum();
            if let Stmt::Expr(Expr::ForLoop(f), _) = &mut b.stmts[k + 1] {
                if rest == 1 && f.label.is_none() && count(f.expr.to_token_stream(), &n) == 1 {
                    let mut x = (*f.expr).clone();
                    Known(n.clone(), a).visit_expr_mut(&mut x);
                    if count(x.to_token_stream(), &n) == 0 {
                        *f.expr = x;
                        b.stmts.remove(k);
                        continue;
                    }
                }
            }
        }
        k += 1;
    }
}

fn count(ts: proc_macro2::TokenStream, n: &str) -> usize {
    ts.into_iter()
        .map(|t| match t {
            proc_macro2::TokenTree::Ident(i) => (i == n) as usize,
            proc_macro2::TokenTree::Group(g) => count(g.stream(), n),
            _ => 0,
        })
        .sum()
}

/// `[&mut x.a, &mut x.b]`
fn exclusive(e: &Expr, most: usize) -> Option<Vec<Expr>> {
    match e {
        Expr::Array(a) if !a.elems.is_empty() && a.elems.len() <= most => a
            .elems
            .iter()
            .map(|x| match peel(x) {
                Expr::Reference(r) if r.mutability.is_some() => match peel(&r.expr) {
                    p @ (Expr::Path(_) | Expr::Field(_)) => Some(p.clone()),
                    _ => None,
                },
                _ => None,
            })
            .collect(),
        _ => None,
    }
}

/// a body for an exclusive reference to a place
fn through(p: &Pat, place: &Expr, b: &Block) -> Stmt {
    struct Deref<'a>(String, &'a Expr);
    impl<'a> VisitMut for Deref<'a> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if let Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) = e {
                if matches!(peel(expr), Expr::Path(x) if x.path.is_ident(&self.0)) {
                    *e = self.1.clone();
                    return;
                }
            }
            visit_mut::visit_expr_mut(self, e);
        }
    }
    if let Pat::Ident(i) = p {
        let n = i.ident.to_string();
        let mut own = BTreeSet::new();
        for s in &b.stmts {
            struct N<'a>(&'a mut BTreeSet<String>);
            impl<'a, 'ast> syn::visit::Visit<'ast> for N<'a> {
                fn visit_pat_ident(&mut self, p: &'ast PatIdent) {
                    self.0.insert(p.ident.to_string());
                }
            }
            syn::visit::Visit::visit_stmt(&mut N(&mut own), s);
        }
        let free = !own.iter().any(|x| *x == n || mentions(place, x));
        let mut c = b.clone();
        Deref(n.clone(), place).visit_block_mut(&mut c);
        let whole: Expr = parse_quote!(#c);
        if free && !mentions(&whole, &n) {
            return parse_quote!({ #c });
        }
    }
    parse_quote!({ let #p = &mut #place; #b })
}

/// the error of a `Result`, `Option` for an `Option`
fn error_of(t: &str) -> Option<String> {
    let h = oracle::head(t);
    if h == "std::option::Option" {
        return Some(h.to_string());
    }
    if h != "std::result::Result" {
        return None;
    }
    let t = oracle::bare(t);
    let inner = &t[t.find('<')? + 1..t.rfind('>')?];
    let (mut depth, mut at) = (0i32, None);
    for (k, c) in inner.char_indices() {
        match c {
            '<' | '(' | '[' => depth += 1,
            '>' | ')' | ']' => depth -= 1,
            ',' if depth == 0 => at = Some(k),
            _ => {}
        }
    }
    Some(inner[at? + 1..].trim().to_string())
}

/// the body of a closure is left early by `?` alone, with the error that the closure returns
fn leaves_with(b: &Expr, whole: &str, any: bool) -> bool {
    struct V(bool, String, bool);
    impl<'ast> syn::visit::Visit<'ast> for V {
        fn visit_expr_try(&mut self, t: &'ast ExprTry) {
            let error = oracle::ty(&t.expr).and_then(|t| error_of(&t));
            if error.is_none() || !self.2 && error.as_ref() != Some(&self.1) {
                self.0 = false;
            }
            syn::visit::visit_expr_try(self, t);
        }
        fn visit_expr_return(&mut self, _: &'ast ExprReturn) {
            self.0 = false;
        }
        fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
        fn visit_item(&mut self, _: &'ast Item) {}
    }
    if !has_exit(b) {
        return true;
    }
    let mut v = match error_of(whole) {
        Some(x) => V(true, x, any),
        None => return false,
    };
    syn::visit::Visit::visit_expr(&mut v, b);
    v.0
}

/// a body that ends with `Ok(x)` or `Some(x)`, ending with x
fn value_of(b: &Expr) -> Option<Expr> {
    match b {
        Expr::Paren(p) => value_of(&p.expr),
        Expr::Call(c) if c.args.len() == 1 => match peel(&c.func) {
            Expr::Path(p) if p.path.segments.last().map_or(false, |s| s.ident == "Ok" || s.ident == "Some") => Some(c.args[0].clone()),
            _ => None,
        },
        Expr::Block(k) if k.label.is_none() => {
            let mut k = k.clone();
            let n = k.block.stmts.len();
            match k.block.stmts.last_mut()? {
                Stmt::Expr(t, None) => {
                    if n == 1 && matches!(peel(t), Expr::Return(_)) {
                        return None;
                    }
                    *t = value_of(t)?;
                }
                _ => return None,
            }
            Some(Expr::Block(k))
        }
        _ => None,
    }
}

fn arithmetic(o: &BinOp) -> bool {
    !matches!(o, BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_) | BinOp::And(_) | BinOp::Or(_))
}

fn assigns(o: &BinOp) -> bool {
    matches!(
        o,
        BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_) | BinOp::DivAssign(_) | BinOp::RemAssign(_) | BinOp::BitXorAssign(_) | BinOp::BitAndAssign(_) | BinOp::BitOrAssign(_) | BinOp::ShlAssign(_) | BinOp::ShrAssign(_)
    )
}

impl VisitMut for Early {
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
        let out = std::mem::replace(&mut self.out, c.output.clone());
        visit_mut::visit_expr_closure_mut(self, c);
        self.out = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // `it.try_for_each(f)?`
        if let Expr::Try(t) = e {
            if let Expr::MethodCall(m) = peel(&t.expr) {
                let (each, fold) = (m.method == "try_for_each" && m.args.len() == 1, m.method == "try_fold" && m.args.len() == 2);
                if (each || fold) && kind(m) == Some(Kind::Iter) {
                    if let (Expr::Closure(c), Some(whole)) = (peel(&m.args[m.args.len() - 1]), oracle::ty(&t.expr)) {
                        if c.inputs.len() == m.args.len() && leaves_with(&c.body, &whole, self.leaves_by(&whole)) {
                            let (p, s) = (plain_pat(c.inputs.last().unwrap()), &m.receiver);
                            let b = match (value_of(&c.body), self.to_type(&whole)) {
                                (Some(v), _) => Some(v),
                                (None, Some(ty)) => {
                                    let (r, b) = (self.name("t"), &c.body);
                                    Some(parse_quote!({ let #r: #ty = #b; #r? }))
                                }
                                (None, None) if has_exit(&c.body) => None,
                                (None, None) => {
                                    let b = &c.body;
                                    Some(parse_quote!((#b)?))
                                }
                            };
                            if let Some(b) = b {
                                let x: Expr = if each {
                                    parse_quote!({ for #p in #s { #b; } })
                                } else {
                                    let (i, a, v) = (&m.args[0], plain_pat(&c.inputs[0]), self.name("r"));
                                    parse_quote!({ let mut #v = #i; for #p in #s { #v = { let #a = #v; #b }; } #v })
                                };
                                *e = x;
                                self.visit_expr_mut(e);
                                return;
                            }
                        }
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        match e {
            // `&a & b` on numbers
            Expr::Binary(b) if arithmetic(&b.op) => {
                let lhs = !assigns(&b.op);
                for (k, s) in [&mut b.left, &mut b.right].into_iter().enumerate() {
                    if k == 0 && !lhs {
                        continue;
                    }
                    if let Some(t) = oracle::ty(s) {
                        if t.starts_with('&') && !t.starts_with("&mut") && oracle::is_int(&t[1..]) {
                            let x = (**s).clone();
                            **s = match x {
                                Expr::Reference(r) => (*r.expr).clone(),
                                x => parse_quote!((*#x)),
                            };
                        }
                    }
                }
            }
            Expr::ForLoop(f) => {
                self.source(f);
                if let Some(x) = self.unrolled(f) {
                    *e = x;
                }
            }
            Expr::Call(c) if matches!(peel(&c.func), Expr::Closure(_)) => {
                let (f, a) = ((*c.func).clone(), c.args.iter().cloned().collect());
                if let Some(x) = self.apply(&f, a) {
                    *e = x;
                }
            }
            Expr::Call(c) => {
                if let Some(x) = self.library(c) {
                    *e = x;
                }
            }
            Expr::MethodCall(m) => {
                // a number converted without loss
                if m.method == "into" && m.args.is_empty() {
                    if let (Some(o), Some(t)) = (oracle::method(&m.method), oracle::ty(&Expr::MethodCall(m.clone()))) {
                        if oracle::is_int(&o.recv) && oracle::is_int(&t) {
                            let (r, t) = (&m.receiver, format_ident!("{}", t));
                            *e = parse_quote!(((#r) as #t));
                            return;
                        }
                    }
                }
                if let Some(k) = kind(m) {
                    let (m, w) = (m.clone(), e.clone());
                    if let Some(x) = self.value(k, &m, &w) {
                        *e = x;
                    }
                }
            }
            _ => {}
        }
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        self.locals(b);
        arrays(b);
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

fn called(f: &Expr, n: &Ident) -> bool {
    matches!(peel(f), Expr::Path(p) if p.path.is_ident(n))
}

/// a loop, or a way around the rest of the statements within a loop
fn loops_within(ss: &[Stmt]) -> bool {
    struct L(bool);
    impl<'b> syn::visit::Visit<'b> for L {
        fn visit_expr(&mut self, e: &'b Expr) {
            self.0 |= matches!(e, Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Continue(_) | Expr::Break(_));
            syn::visit::visit_expr(self, e);
        }
    }
    let mut l = L(false);
    for s in ss {
        syn::visit::Visit::visit_stmt(&mut l, s);
    }
    l.0
}

/// every use of `n` is a call
fn only_called(ss: &[Stmt], n: &Ident) -> bool {
    struct U<'a>(&'a Ident, usize);
    impl<'a, 'b> syn::visit::Visit<'b> for U<'a> {
        fn visit_expr_call(&mut self, c: &'b ExprCall) {
            if called(&c.func, self.0) {
                self.1 += 1;
                for a in &c.args {
                    self.visit_expr(a);
                }
                return;
            }
            syn::visit::visit_expr_call(self, c);
        }
    }
    let mut u = U(n, 0);
    for s in ss {
        syn::visit::Visit::visit_stmt(&mut u, s);
    }
    u.1 > 0 && u.1 == uses(ss, n)
}

fn uses(ss: &[Stmt], n: &Ident) -> usize {
    fn go(ts: proc_macro2::TokenStream, n: &Ident) -> usize {
        ts.into_iter()
            .map(|t| match t {
                proc_macro2::TokenTree::Ident(i) => (i == *n) as usize,
                proc_macro2::TokenTree::Group(g) => go(g.stream(), n),
                _ => 0,
            })
            .sum()
    }
    ss.iter().map(|s| go(s.to_token_stream(), n)).sum()
}

fn idents(e: &Expr) -> BTreeSet<String> {
    fn go(ts: proc_macro2::TokenStream, out: &mut BTreeSet<String>) {
        for t in ts {
            match t {
                proc_macro2::TokenTree::Ident(i) => {
                    out.insert(i.to_string());
                }
                proc_macro2::TokenTree::Group(g) => go(g.stream(), out),
                _ => {}
            }
        }
    }
    let mut s = BTreeSet::new();
    go(e.to_token_stream(), &mut s);
    s
}

impl Early {
    /// a closure with names of its own
    fn renamed(&mut self, c: &ExprClosure) -> ExprClosure {
        let mut c = c.clone();
        let mut names = BTreeSet::new();
        for i in &c.inputs {
            crate::krate::locals_of_pat(i, &mut names);
        }
        names.extend(crate::krate::locals_of(&parse_quote!({ #c; })));
        let mut map = std::collections::BTreeMap::new();
        for n in names {
            if n.chars().next().map_or(false, |c| c.is_lowercase() || c == '_') {
                let m = self.name(&format!("{}_", n));
                map.insert(n, m);
            }
        }
        let mut r = crate::inline::Rename { map: &map };
        for i in c.inputs.iter_mut() {
            r.visit_pat_mut(i);
        }
        r.visit_expr_mut(&mut c.body);
        c
    }

    /// closures and functions that are the values of locals
    fn locals(&mut self, b: &mut Block) {
        let mut k = 0;
        while k < b.stmts.len() {
            let (p, t, init) = match &b.stmts[k] {
                Stmt::Local(Local { pat, init: Some(i), .. }) if i.diverge.is_none() => match pat {
                    Pat::Ident(p) if p.subpat.is_none() && p.by_ref.is_none() => (p.clone(), None, (*i.expr).clone()),
                    Pat::Type(t) => match &*t.pat {
                        Pat::Ident(p) if p.subpat.is_none() && p.by_ref.is_none() => (p.clone(), Some((*t.ty).clone()), (*i.expr).clone()),
                        _ => {
                            k += 1;
                            continue;
                        }
                    },
                    _ => {
                        k += 1;
                        continue;
                    }
                },
                _ => {
                    k += 1;
                    continue;
                }
            };
            let n = p.ident.clone();
            let rest: Vec<Stmt> = b.stmts[k + 1..].to_vec();
            let bound = crate::krate::locals_of(&parse_quote!({ #(#rest)* }));
            if bound.contains(&n.to_string()) {
                k += 1;
                continue;
            }
            if let Expr::Closure(c) = peel(&init) {
                let used = idents(&Expr::Closure(c.clone()));
                if c.capture.is_none() && c.asyncness.is_none() && bound.intersection(&used).next().is_none() {
                    struct S<'a>(&'a mut Early, &'a Ident, &'a ExprClosure);
                    impl<'a> VisitMut for S<'a> {
                        fn visit_expr_mut(&mut self, e: &mut Expr) {
                            if matches!(&*e, Expr::Path(p) if p.path.is_ident(self.1)) {
                                let c = self.0.renamed(self.2);
                                *e = parse_quote!((#c));
                                return;
                            }
                            visit_mut::visit_expr_mut(self, e);
                        }
                        fn visit_item_mut(&mut self, _: &mut Item) {}
                    }
                    let c = c.clone();
                    for s in b.stmts[k + 1..].iter_mut() {
                        S(self, &n, &c).visit_stmt_mut(s);
                    }
                    b.stmts.remove(k);
                    continue;
                }
            }
            let is_fn = t.as_ref().map_or(false, |t| matches!(t, Type::BareFn(_))) || oracle::pat_ty(&p).map_or(false, |t| t.starts_with("fn(") || t.starts_with("for<") && t.contains("fn("));
            if is_fn && only_called(&rest, &n) {
                let mut fs: Vec<Expr> = vec![];
                let mut x = init.clone();
                if leaves(&mut x, &mut fs) && !fs.is_empty() {
                    b.stmts[k] = parse_quote!(let #n: usize = #x;);
                    struct S<'a>(&'a Ident, &'a [Expr]);
                    impl<'a> VisitMut for S<'a> {
                        fn visit_expr_mut(&mut self, e: &mut Expr) {
                            visit_mut::visit_expr_mut(self, e);
                            if let Expr::Call(c) = e {
                                if called(&c.func, self.0) {
                                    let (a, n) = (&c.args, self.0);
                                    let last = self.1.len() - 1;
                                    let l = &self.1[last];
                                    let mut x: Expr = parse_quote!(#l(#a));
                                    for k in (0..last).rev() {
                                        let f = &self.1[k];
                                        x = parse_quote!(if #n == #k { #f(#a) } else { #x });
                                    }
                                    *e = x;
                                }
                            }
                        }
                        fn visit_item_mut(&mut self, _: &mut Item) {}
                    }
                    for s in b.stmts[k + 1..].iter_mut() {
                        S(&n, &fs).visit_stmt_mut(s);
                    }
                }
            }
            // an iterator only one `while let` asks
            if let Expr::MethodCall(m) = peel(&init) {
                let plain = ["iter", "into_iter", "chunks", "enumerate"].contains(&m.method.to_string().as_str()) && place(&m.receiver);
                let at: Vec<usize> = rest.iter().enumerate().filter(|(_, s)| uses(std::slice::from_ref(s), &n) > 0).map(|x| x.0).collect();
                if plain && at.len() == 1 && uses(&rest, &n) == 1 {
                    let j = k + 1 + at[0];
                    let mut new: Option<Stmt> = None;
                    if let Stmt::Expr(Expr::While(w), _) = &b.stmts[j] {
                        if let Expr::Let(l) = &*w.cond {
                            if let (Expr::MethodCall(c), Pat::TupleStruct(q)) = (peel(&l.expr), &*l.pat) {
                                if c.method == "next" && c.args.is_empty() && called(&c.receiver, &n) && q.path.segments.last().map_or(false, |s| s.ident == "Some") && q.elems.len() == 1 {
                                    let (q, body) = (&q.elems[0], &w.body);
                                    let label = &w.label;
                                    new = Some(parse_quote!(#label for #q in #init #body));
                                }
                            }
                        }
                    }
                    if let Some(s) = new {
                        b.stmts[j] = s;
                        b.stmts.remove(k);
                        continue;
                    }
                }
            }
            // `let mut x = I; while let Some(p) = x { B; x = E; }`: I in the first round, E in the others
            if let (Some(Stmt::Expr(Expr::While(w), _)), true) = (b.stmts.get(k + 1), uses(&rest, &n) == 2) {
                if let (Expr::Let(l), None, Some(Stmt::Expr(Expr::Assign(a), _))) = (&*w.cond, &w.label, w.body.stmts.last()) {
                    let front = &w.body.stmts[..w.body.stmts.len() - 1];
                    let mut own = crate::krate::locals_of(&parse_quote!({ #(#front)* }));
                    crate::krate::locals_of_pat(&l.pat, &mut own);
                    let some = matches!(&*l.pat, Pat::TupleStruct(q) if q.path.segments.last().map_or(false, |s| s.ident == "Some"));
                    let apart = idents(&a.right).intersection(&own).next().is_none();
                    if some && called(&l.expr, &n) && called(&a.left, &n) && apart && !loops_within(front) {
                        let (q, e) = (&l.pat, &a.right);
                        b.stmts[k + 1] = parse_quote!(if let #q = #init { #(#front)* while let #q = #e { #(#front)* } });
                        b.stmts.remove(k);
                        continue;
                    }
                }
            }
            k += 1;
        }
    }

    /// functions of the library by what they are defined to compute
    fn library(&mut self, c: &ExprCall) -> Option<Expr> {
        let p = match peel(&c.func) {
            Expr::Path(p) if p.qself.is_none() => path_str(&p.path),
            _ => return None,
        };
        let (h, n) = p.rsplit_once("::")?;
        let (a, d) = (self.name("l"), self.name("l"));
        if (n == "min" || n == "max") && h.ends_with("cmp") && c.args.len() == 2 {
            let t = oracle::ty(&c.args[0]).or_else(|| oracle::ty(&c.args[1])).filter(|t| oracle::is_int(t))?;
            let t = format_ident!("{}", t);
            let (x, y) = (&c.args[0], &c.args[1]);
            return Some(if n == "min" {
                parse_quote!({ let #a: #t = #x; let #d: #t = #y; if #d < #a { #d } else { #a } })
            } else {
                parse_quote!({ let #a: #t = #x; let #d: #t = #y; if #d < #a { #a } else { #d } })
            });
        }
        if (n == "from_be_bytes" || n == "from_le_bytes") && oracle::is_int(h) && c.args.len() == 1 {
            let size: usize = match h {
                "u8" | "i8" => 1,
                "u16" | "i16" => 2,
                "u32" | "i32" => 4,
                "u64" | "i64" => 8,
                _ => return None,
            };
            let u = format_ident!("u{}", size * 8);
            let t = format_ident!("{}", h);
            let x = &c.args[0];
            let items: Vec<Expr> = (0..size)
                .map(|i| {
                    let sh = 8 * (if n == "from_be_bytes" { size - 1 - i } else { i });
                    let i = LitInt::new(&i.to_string(), proc_macro2::Span::call_site());
                    let sh = LitInt::new(&(1u64 << sh).to_string(), proc_macro2::Span::call_site());
                    parse_quote!(((#a[#i] as #u) * #sh))
                })
                .collect();
            return Some(parse_quote!({ let #a = #x; ((#(#items)+*) as #t) }));
        }
        None
    }
}

fn place(e: &Expr) -> bool {
    match peel(e) {
        Expr::Path(_) => true,
        Expr::Field(f) => place(&f.base),
        Expr::Reference(r) => place(&r.expr),
        Expr::Unary(u) => matches!(u.op, UnOp::Deref(_)) && place(&u.expr),
        // calls without effects of their own
        Expr::MethodCall(m) => m.args.is_empty() && ["iter", "values", "as_slice", "bytes", "chars"].contains(&m.method.to_string().as_str()) && place(&m.receiver),
        _ => false,
    }
}

/// the functions a value may be, each replaced by its number
fn leaves(e: &mut Expr, out: &mut Vec<Expr>) -> bool {
    match e {
        Expr::Paren(p) => leaves(&mut p.expr, out),
        Expr::Cast(c) => {
            let mut x = (*c.expr).clone();
            let ok = leaves(&mut x, out);
            *e = x;
            ok
        }
        Expr::Path(_) => {
            let k = out.len();
            out.push(e.clone());
            *e = parse_quote!(#k);
            true
        }
        Expr::Match(m) => m.arms.iter_mut().all(|a| leaves(&mut a.body, out)),
        Expr::If(i) => match &mut i.else_branch {
            Some((_, x)) => {
                let mut t: Expr = { let t = &i.then_branch; parse_quote!(#t) };
                let ok = leaves(&mut t, out) && leaves(x, out);
                if let Expr::Block(b) = t {
                    i.then_branch = b.block;
                }
                ok
            }
            None => false,
        },
        Expr::Block(b) => match b.block.stmts.last_mut() {
            Some(Stmt::Expr(x @ (Expr::Path(_) | Expr::Block(_) | Expr::Paren(_) | Expr::If(_) | Expr::Match(_)), None)) => leaves(x, out),
            // does not end with a value
            _ => true,
        },
        _ => true,
    }
}

/// ---- byte strings and patterns of references ------------------------------------------
#[derive(Default)]
pub struct Literals {
    fresh: usize,
}

fn has_ref(p: &Pat) -> bool {
    struct R(bool);
    impl<'a> syn::visit::Visit<'a> for R {
        fn visit_pat_reference(&mut self, r: &'a PatReference) {
            if r.mutability.is_none() {
                self.0 = true;
            }
        }
    }
    let mut r = R(false);
    syn::visit::Visit::visit_pat(&mut r, p);
    r.0
}

impl Literals {
    /// `&x` in a pattern: what it binds is read afterwards
    fn unref(&mut self, p: &mut Pat) -> Vec<Stmt> {
        struct B<'a>(&'a mut usize, Vec<Stmt>, bool);
        impl<'a> VisitMut for B<'a> {
            fn visit_pat_mut(&mut self, p: &mut Pat) {
                let mut depth = 0;
                let mut q = p.clone();
                loop {
                    q = match q {
                        Pat::Reference(r) if r.mutability.is_none() => {
                            depth += 1;
                            *r.pat
                        }
                        Pat::Paren(x) if depth > 0 => *x.pat,
                        q => break *p = q,
                    };
                }
                match p {
                    Pat::Ident(i) if depth > 0 || self.2 => {
                        if i.subpat.is_some() || i.by_ref.is_some() || i.ident.to_string().starts_with(char::is_uppercase) {
                            return;
                        }
                        *self.0 += 1;
                        let n = format_ident!("{}__d{}", i.ident, *self.0);
                        let o = i.clone();
                        let mut x: Expr = parse_quote!(#n);
                        for _ in 0..depth.max(1) {
                            x = parse_quote!((*#x));
                        }
                        self.1.push(parse_quote!(let #o = #x;));
                        i.mutability = None;
                        i.ident = n;
                    }
                    p => {
                        let was = self.2;
                        self.2 |= depth > 0;
                        visit_mut::visit_pat_mut(self, p);
                        self.2 = was;
                    }
                }
            }
        }
        let mut b = B(&mut self.fresh, vec![], false);
        b.visit_pat_mut(p);
        b.1
    }
}

fn byte_str(e: &Lit) -> Option<Vec<LitInt>> {
    match e {
        Lit::ByteStr(s) => Some(s.value().iter().map(|b| LitInt::new(&format!("{}u8", b), proc_macro2::Span::call_site())).collect()),
        _ => None,
    }
}

impl VisitMut for Literals {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Lit(l) => {
                if let Some(b) = byte_str(&l.lit) {
                    *e = parse_quote!(&[#(#b),*]);
                }
            }
            Expr::Match(m) => {
                for a in m.arms.iter_mut().filter(|a| has_ref(&a.pat)) {
                    if matches!(a.pat, Pat::Reference(_) | Pat::Or(_)) {
                        continue;
                    }
                    let l = self.unref(&mut a.pat);
                    let b = &a.body;
                    a.body = parse_quote!({ #(#l)* #b });
                    if let Some((_, g)) = &mut a.guard {
                        **g = parse_quote!({ #(#l)* #g });
                    }
                }
            }
            Expr::If(i) => {
                if let Expr::Let(c) = &mut *i.cond {
                    if has_ref(&c.pat) && !matches!(&*c.pat, Pat::Reference(_) | Pat::Or(_)) {
                        let l = self.unref(&mut c.pat);
                        let b = &i.then_branch;
                        i.then_branch = parse_quote!({ #(#l)* #b });
                    }
                }
            }
            Expr::While(i) => {
                if let Expr::Let(c) = &mut *i.cond {
                    if has_ref(&c.pat) && !matches!(&*c.pat, Pat::Reference(_) | Pat::Or(_)) {
                        let l = self.unref(&mut c.pat);
                        let b = &i.body;
                        i.body = parse_quote!({ #(#l)* #b });
                    }
                }
            }
            Expr::ForLoop(f) if has_ref(&f.pat) => {
                let l = self.unref(&mut f.pat);
                let b = &f.body;
                f.body = parse_quote!({ #(#l)* #b });
            }
            Expr::Closure(c) if c.inputs.iter().any(|p| has_ref(p) && !matches!(p, Pat::Reference(_))) => {
                let mut ls = vec![];
                for p in c.inputs.iter_mut() {
                    ls.extend(self.unref(p));
                }
                let b = &c.body;
                c.body = parse_quote!({ #(#ls)* #b });
            }
            _ => {}
        }
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            let mut l = vec![];
            if let Stmt::Local(x) = &mut s {
                // `let &x = ..` is read as it stands
                if has_ref(&x.pat) {
                    l = self.unref(&mut x.pat);
                }
            }
            out.push(s);
            out.extend(l);
        }
        b.stmts = out;
    }
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        if let Pat::Lit(l) = p {
            if let Some(b) = byte_str(&l.lit) {
                *p = parse_quote!([#(#b),*]);
                return;
            }
        }
        visit_mut::visit_pat_mut(self, p);
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

/// `it.try_for_each(f)` as the result of a function: `Ok(it.try_for_each(f)?)`
fn tail(e: &mut Expr) {
    match e {
        Expr::Paren(p) => tail(&mut p.expr),
        Expr::Match(m) => m.arms.iter_mut().for_each(|a| tail(&mut a.body)),
        Expr::If(i) => {
            if let Some(Stmt::Expr(x, None)) = i.then_branch.stmts.last_mut() {
                tail(x);
            }
            if let Some((_, x)) = &mut i.else_branch {
                tail(x);
            }
        }
        Expr::Block(b) if b.label.is_none() => {
            if let Some(Stmt::Expr(x, None)) = b.block.stmts.last_mut() {
                tail(x);
            }
        }
        Expr::MethodCall(m) if (m.method == "try_for_each" || m.method == "try_fold") && kind(m) == Some(Kind::Iter) && matches!(m.args.last().map(peel), Some(Expr::Closure(_))) => {
            let t = oracle::ty(&Expr::MethodCall(m.clone()));
            let f: Expr = match t.as_deref().map(oracle::head) {
                Some("std::result::Result") => parse_quote!(Ok),
                Some("std::option::Option") => parse_quote!(Some),
                _ => return,
            };
            *e = parse_quote!(#f(#e?));
        }
        _ => {}
    }
}

struct Returns;
impl VisitMut for Returns {
    fn visit_expr_return_mut(&mut self, r: &mut ExprReturn) {
        if let Some(x) = &mut r.expr {
            tail(x);
        }
        visit_mut::visit_expr_return_mut(self, r);
    }
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

/// every body of a module
pub fn run(items: &mut Vec<Item>, tops: &BTreeSet<String>) {
    let mut k = 0;
    let mut one = |s: &Signature, b: &mut Block| {
        let mut e = Early { fresh: k, tops: tops.clone(), out: s.output.clone() };
        if let Some(Stmt::Expr(x, None)) = b.stmts.last_mut() {
            tail(x);
        }
        Returns.visit_block_mut(b);
        e.visit_block_mut(b);
        k = e.fresh;
    };
    for i in items.iter_mut() {
        match i {
            Item::Fn(f) => one(&f.sig, &mut f.block),
            Item::Impl(im) => {
                for x in im.items.iter_mut() {
                    if let ImplItem::Fn(f) = x {
                        one(&f.sig, &mut f.block);
                    }
                }
            }
            Item::Trait(t) => {
                for x in t.items.iter_mut() {
                    if let TraitItem::Fn(TraitItemFn { sig, default: Some(b), .. }) = x {
                        one(sig, b);
                    }
                }
            }
            _ => {}
        }
    }
    let _ = path_str;
}
