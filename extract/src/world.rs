//! The command-line program: its effects on the process become calls on an explicit state of
//! the outside world, the parameter `__io` of `main`.
//!
//!   std::env::args(), args_os()     crate::world::v_env_args(), with next, nth, skip, collect
//!   OsString, OsStr, PathBuf, Path  crate::world::VOs, octets that may be text
//!   Cow<str>                        String
//!   ExitCode::SUCCESS, from(c)      crate::world::VExitCode::code(c)
//!   std::fs::File::open(p)          crate::world::v_open(p)
//!   std::fs::read(p)                crate::world::v_read(p)
//!   std::process::exit(c)           __io.exit(c)
//!   x.print(p)                      __io.print(x, p): the call, recorded
//!   rx509::der::parse_all(b, h)     __io.parse_all(b, h): the call, recorded
//!   s == "..", match s { ".." .. }  crate::world::v_eq
//!   eprintln!(..)                   as elsewhere, recorded by __io.err (in Macros)
use crate::lower::*;
use quote::{format_ident, quote};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Default)]
pub struct World {
    fresh: usize,
    pub lost: Vec<String>,
}

fn is_str_lit(e: &Expr) -> bool {
    match e {
        Expr::Lit(l) => matches!(l.lit, Lit::Str(_)),
        Expr::Paren(p) => is_str_lit(&p.expr),
        Expr::Reference(r) => is_str_lit(&r.expr),
        Expr::Unary(u) => is_str_lit(&u.expr),
        _ => false,
    }
}

/// the literals a pattern consists of
fn lits(p: &Pat) -> Option<Vec<Expr>> {
    match p {
        Pat::Lit(l) if matches!(l.lit, Lit::Str(_)) => Some(vec![Expr::Lit(l.clone())]),
        Pat::Or(o) => {
            let mut v = vec![];
            for c in &o.cases {
                v.extend(lits(c)?);
            }
            Some(v)
        }
        Pat::Paren(p) => lits(&p.pat),
        // name @ "..": named where the pattern is matched
        Pat::Ident(PatIdent { by_ref: None, subpat: Some((_, p)), .. }) => lits(p),
        _ => None,
    }
}

fn call_path(e: &Expr) -> Option<String> {
    match e {
        Expr::Call(c) => match &*c.func {
            Expr::Path(p) => Some(path_str(&p.path)),
            _ => None,
        },
        Expr::Paren(p) => call_path(&p.expr),
        _ => None,
    }
}

/// the arguments of the process, or some of them
fn is_args(e: &Expr) -> bool {
    match e {
        Expr::MethodCall(m) => m.method == "skip" && is_args(&m.receiver),
        _ => matches!(call_path(e).as_deref(), Some("crate::world::v_env_args" | "crate::world::v_env_args_os")),
    }
}

// the oracle lists the types of an expression and its adjustments, and for a method call that
// of its adjusted receiver as well
fn has_ty(e: &Expr, f: impl Fn(&str) -> bool) -> bool {
    let ts = crate::oracle::types(e).unwrap_or_default();
    match e {
        Expr::MethodCall(_) => ts.iter().any(|t| f(crate::oracle::bare(t))),
        _ => ts.last().map_or(false, |t| f(crate::oracle::bare(t))),
    }
}
fn is_os(e: &Expr) -> bool {
    has_ty(e, |t| ["OsString", "OsStr", "PathBuf", "Path"].iter().any(|n| t == *n || t.ends_with(&format!("::{}", n)))) && !has_ty(e, |t| t == "str" || t.contains("Cow<") || t.contains("Option<") || t.contains("Result<"))
}
fn is_cow(e: &Expr) -> bool {
    has_ty(e, |t| t.contains("Cow<") && t.ends_with("str>"))
}
fn is_string(e: &Expr) -> bool {
    has_ty(e, |t| t == "String" || t.ends_with("::String"))
}

/// the literals inside a pattern become names, compared afterwards
fn nested(p: &mut Pat, k: &mut usize, out: &mut Vec<Expr>) {
    match p {
        Pat::Lit(l) if matches!(l.lit, Lit::Str(_)) => {
            *k += 1;
            let n = format_ident!("__q{}", k);
            out.push(parse_quote!(crate::world::v_eq(&#n, &#l)));
            *p = parse_quote!(#n);
        }
        Pat::TupleStruct(t) => t.elems.iter_mut().for_each(|x| nested(x, k, out)),
        Pat::Tuple(t) => t.elems.iter_mut().for_each(|x| nested(x, k, out)),
        Pat::Paren(t) => nested(&mut t.pat, k, out),
        Pat::Reference(t) => nested(&mut t.pat, k, out),
        _ => {}
    }
}

impl VisitMut for World {
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        if let Type::Path(p) = t {
            match path_str(&p.path).as_str() {
                "std::fs::File" => *t = parse_quote!(crate::world::VFile),
                "std::env::Args" => *t = parse_quote!(crate::world::VArgs),
                "std::env::ArgsOs" => *t = parse_quote!(crate::world::VArgsOs),
                "std::ffi::OsString" | "std::ffi::OsStr" | "std::path::PathBuf" | "std::path::Path" => *t = parse_quote!(crate::world::VOs),
                // text or a copy of it
                "std::borrow::Cow" => *t = parse_quote!(String),
                "std::process::ExitCode" => *t = parse_quote!(crate::world::VExitCode),
                _ => {}
            }
        }
    }
    // the referent of `let x: &str = &<temporary>` gets a name, so that it lives on
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            if let Stmt::Local(l) = &mut s {
                if let (Pat::Type(t), Some(i)) = (&l.pat, &mut l.init) {
                    let ty = &t.ty;
                    if quote!(#ty).to_string() == "& str" {
                        if let Expr::Reference(r) = &mut *i.expr {
                            if matches!(*r.expr, Expr::Block(_) | Expr::Call(_) | Expr::MethodCall(_) | Expr::Match(_)) {
                                self.fresh += 1;
                                let n = format_ident!("__t{}", self.fresh);
                                let x = r.expr.clone();
                                out.push(parse_quote!(let #n = #x;));
                                r.expr = parse_quote!(#n);
                            }
                        }
                    }
                }
            }
            out.push(s);
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_local_mut(&mut self, l: &mut Local) {
        visit_mut::visit_local_mut(self, l);
        if let (Pat::Type(t), Some(i)) = (&l.pat, &mut l.init) {
            let ty = &t.ty;
            if quote!(#ty).to_string() == "& str" {
                let e = &i.expr;
                i.expr = parse_quote!(crate::world::v_str(#e));
            }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        self.fresh += 1;
        let n = self.fresh;
        match e {
            Expr::MethodCall(m) if m.method == "collect" && is_args(&m.receiver) => m.turbofish = None,
            Expr::Path(p) if p.qself.is_none() => match path_str(&p.path).as_str() {
                "std::process::ExitCode::SUCCESS" => *e = parse_quote!(crate::world::VExitCode::code(0)),
                "std::process::ExitCode::FAILURE" => *e = parse_quote!(crate::world::VExitCode::code(1)),
                _ => {}
            },
            Expr::MethodCall(m) if m.args.is_empty() && is_os(&m.receiver) && ["as_os_str", "as_path", "as_ref", "display", "borrow", "deref"].iter().any(|n| m.method == n) => m.method = format_ident!("same"),
            Expr::MethodCall(m) if m.args.is_empty() && is_os(&m.receiver) && ["to_os_string", "to_path_buf", "to_owned", "into_os_string"].iter().any(|n| m.method == n) => m.method = format_ident!("clone"),
            Expr::MethodCall(m) if m.args.is_empty() && is_cow(&m.receiver) && ["as_ref", "borrow", "deref"].iter().any(|n| m.method == n) => m.method = format_ident!("as_str"),
            Expr::MethodCall(m) if m.args.is_empty() && is_cow(&m.receiver) && ["into_owned", "to_string"].iter().any(|n| m.method == n) => *e = (*m.receiver).clone(),
            // &*text, &text[..]
            Expr::Reference(r) if r.mutability.is_none() => {
                let x = match &*r.expr {
                    Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => expr,
                    Expr::Index(i) if quote!(#i).to_string().ends_with("[..]") || quote!(#i).to_string().ends_with("[.. ]") => &i.expr,
                    _ => return,
                };
                if is_cow(x) || is_string(x) {
                    *e = parse_quote!(#x.as_str());
                } else if is_os(x) {
                    *e = parse_quote!(#x.same());
                }
            }
            Expr::MethodCall(m) if m.method == "print" && m.args.len() == 1 => {
                let (x, p) = (&m.receiver, &m.args[0]);
                let (a, b) = (format_ident!("__w{}", n), format_ident!("__x{}", n));
                *e = parse_quote!({ let #b = &#x; let #a = #p; __io.print(#b, #a); });
            }
            Expr::Call(c) => {
                let p = match &*c.func {
                    Expr::Path(p) => path_str(&p.path),
                    _ => return,
                };
                let a: Vec<Expr> = c.args.iter().cloned().collect();
                match (p.as_str(), a.len()) {
                    ("std::env::args_os", 0) => *e = parse_quote!(crate::world::v_env_args_os()),
                    ("std::ffi::OsStr::new" | "std::path::Path::new", 1) => {
                        let x = &a[0];
                        *e = parse_quote!(crate::world::v_os_ref(#x));
                    }
                    ("std::ffi::OsString::from" | "std::path::PathBuf::from", 1) => {
                        let x = &a[0];
                        *e = parse_quote!(crate::world::v_os_of(#x));
                    }
                    ("std::env::args", 0) => *e = parse_quote!(crate::world::v_env_args()),
                    ("std::process::ExitCode::from", 1) => {
                        let x = &a[0];
                        *e = parse_quote!(crate::world::VExitCode::code(#x));
                    }
                    ("std::process::exit", 1) => {
                        let x = &a[0];
                        *e = parse_quote!(__io.exit(#x));
                    }
                    ("std::fs::File::open", 1) => {
                        let x = &a[0];
                        *e = parse_quote!(crate::world::v_open(#x));
                    }
                    ("std::fs::read", 1) => {
                        let x = &a[0];
                        *e = parse_quote!(crate::world::v_read(#x));
                    }
                    ("crate::der::parse_all::parse_all", 2) => {
                        let (x, y) = (&a[0], &a[1]);
                        let (b, h, r) = (format_ident!("__w{}", n), format_ident!("__x{}", n), format_ident!("__y{}", n));
                        *e = parse_quote!({ let #b: &[u8] = #x; let #h = #y; let #r = __io.parse_all(#b, #h); #r });
                    }
                    _ => {}
                }
            }
            Expr::Binary(b) if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && (is_str_lit(&b.left) || is_str_lit(&b.right)) => {
                let (l, r) = (&b.left, &b.right);
                *e = match b.op {
                    BinOp::Eq(_) => parse_quote!(crate::world::v_eq(&(#l), &(#r))),
                    _ => parse_quote!(!crate::world::v_eq(&(#l), &(#r))),
                };
            }
            Expr::Match(m) if !m.arms.iter().any(|a| lits(&a.pat).is_some()) => {
                let mut arms = vec![];
                for a in std::mem::take(&mut m.arms) {
                    let mut alts = vec![];
                    let mut probe = vec![];
                    let mut k = 0;
                    match &a.pat {
                        Pat::Or(o) => {
                            o.cases.iter().for_each(|c| nested(&mut c.clone(), &mut k, &mut probe));
                            if probe.is_empty() {
                                alts.push(a.pat.clone())
                            } else {
                                alts.extend(o.cases.iter().cloned())
                            }
                        }
                        p => alts.push(p.clone()),
                    }
                    for mut p in alts {
                        let mut c = vec![];
                        nested(&mut p, &mut self.fresh, &mut c);
                        let mut a = a.clone();
                        a.pat = p;
                        for x in c.into_iter().rev() {
                            a.guard = Some(match &a.guard {
                                Some((i, g)) => (*i, parse_quote!((#x) && (#g))),
                                None => (Default::default(), Box::new(x)),
                            });
                        }
                        arms.push(a);
                    }
                }
                m.arms = arms;
            }
            Expr::Match(m) if m.arms.iter().any(|a| lits(&a.pat).is_some()) => {
                let s = format_ident!("__s{}", n);
                let mut out: Option<Expr> = None;
                for a in m.arms.iter().rev() {
                    let body = &a.body;
                    let rest = out.clone().unwrap_or(parse_quote!({ crate::vpre::v_unreachable() }));
                    let guard = |x: Expr| -> Expr {
                        match &a.guard {
                            Some((_, g)) => parse_quote!(if #g { #x } else { #rest }),
                            None => x,
                        }
                    };
                    out = Some(match (lits(&a.pat), &a.pat) {
                        (Some(ls), _) => {
                            let mut c: Option<Expr> = None;
                            for l in &ls {
                                c = Some(match c {
                                    None => parse_quote!(crate::world::v_eq(#s, #l)),
                                    Some(c) => parse_quote!(#c || crate::world::v_eq(#s, #l)),
                                });
                            }
                            let name = match &a.pat {
                                Pat::Ident(i) => Some(&i.ident),
                                _ => None,
                            };
                            match (&a.guard, name) {
                                (Some((_, g)), Some(i)) => parse_quote!(if (#c) && { let #i = #s; #g } { let #i = #s; #body } else { #rest }),
                                (Some((_, g)), None) => parse_quote!(if (#c) && #g { #body } else { #rest }),
                                (None, Some(i)) => parse_quote!(if #c { let #i = #s; #body } else { #rest }),
                                (None, None) => parse_quote!(if #c { #body } else { #rest }),
                            }
                        }
                        (None, Pat::Wild(_)) => guard(parse_quote!({ #body })),
                        (None, Pat::Ident(i)) if i.subpat.is_none() => {
                            let i = &i.ident;
                            let x = guard(parse_quote!({ #body }));
                            parse_quote!({ let #i = #s; #x })
                        }
                        _ => {
                            self.lost.push("match on text".into());
                            return;
                        }
                    });
                }
                let (x, y) = (&m.expr, out.unwrap());
                // what a view is taken of gets a name, so that it lives on
                let mut view = (**x).clone();
                let mut held: Option<Stmt> = None;
                if let Expr::MethodCall(v) = &mut view {
                    if v.method == "as_str" && matches!(*v.receiver, Expr::Block(_) | Expr::Call(_) | Expr::MethodCall(_) | Expr::Match(_)) {
                        let (t, r) = (format_ident!("__t{}", n), &v.receiver);
                        held = Some(parse_quote!(let #t = #r;));
                        v.receiver = Box::new(parse_quote!(#t));
                    }
                }
                *e = parse_quote!({ #held let #s = crate::world::v_str(#view); #y });
            }
            _ => {}
        }
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}
