//! The fixed, semantics-preserving lowering rules for what Verus does not accept.
use crate::contracts::Contract;
use crate::printer::Raw;
use proc_macro2::{Span, TokenStream};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub fn id(s: &str) -> Ident {
    Ident::new(s, Span::call_site())
}

pub fn path_str(p: &syn::Path) -> String {
    p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::")
}

/// ---- macros -------------------------------------------------------------------------
pub struct Macros {
    pub fresh: usize,
    pub errors: Vec<String>,
    /// the command-line program: what goes to the standard error stream is recorded
    pub io: bool,
}

#[derive(Clone)]
struct MacArgs {
    exprs: Vec<Expr>,
}
impl syn::parse::Parse for MacArgs {
    fn parse(input: syn::parse::ParseStream) -> Result<Self> {
        let p = punctuated::Punctuated::<Expr, Token![,]>::parse_terminated(input)?;
        Ok(MacArgs {
            exprs: p.into_iter().collect(),
        })
    }
}

enum Piece {
    Lit(String),
    Arg(Expr, Fmt),
}
#[derive(PartialEq, Clone, Copy)]
enum Fmt {
    Display,
    Debug,
    Hex2,
    Other,
}

fn split_format(s: &str, args: &[Expr]) -> std::result::Result<Vec<Piece>, String> {
    let mut out = vec![];
    let mut lit = String::new();
    let mut named: BTreeMap<String, Expr> = BTreeMap::new();
    let mut pos: Vec<Expr> = vec![];
    for a in args {
        if let Expr::Assign(x) = a {
            if let Expr::Path(p) = &*x.left {
                named.insert(path_str(&p.path), (*x.right).clone());
                continue;
            }
        }
        pos.push(a.clone());
    }
    let mut next = 0;
    let cs: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        match cs[i] {
            '{' if i + 1 < cs.len() && cs[i + 1] == '{' => {
                lit.push('{');
                i += 2;
            }
            '}' => {
                lit.push('}');
                i += 2;
            }
            '{' => {
                let mut j = i + 1;
                while j < cs.len() && cs[j] != '}' {
                    j += 1;
                }
                let spec: String = cs[i + 1..j].iter().collect();
                i = j + 1;
                let (name, f) = match spec.split_once(':') {
                    Some((a, b)) => (a.to_string(), b.to_string()),
                    None => (spec.clone(), String::new()),
                };
                let f = match f.as_str() {
                    "" => Fmt::Display,
                    "?" => Fmt::Debug,
                    "02X" => Fmt::Hex2,
                    _ => Fmt::Other,
                };
                let e = if name.is_empty() {
                    next += 1;
                    pos.get(next - 1).cloned().ok_or("format argument")?
                } else if let Ok(n) = name.parse::<usize>() {
                    pos.get(n).cloned().ok_or("format argument")?
                } else if let Some(e) = named.get(&name) {
                    e.clone()
                } else {
                    let n = id(&name);
                    parse_quote!(#n)
                };
                if !lit.is_empty() {
                    out.push(Piece::Lit(std::mem::take(&mut lit)));
                }
                out.push(Piece::Arg(e, f));
            }
            c => {
                lit.push(c);
                i += 1;
            }
        }
    }
    if !lit.is_empty() {
        out.push(Piece::Lit(lit));
    }
    Ok(out)
}

impl Macros {
    fn fmt_args(&mut self, exprs: &[Expr]) -> Option<Vec<Piece>> {
        if exprs.is_empty() {
            return Some(vec![]);
        }
        if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &exprs[0] {
            match split_format(&s.value(), &exprs[1..]) {
                Ok(p) => return Some(p),
                Err(e) => self.errors.push(e),
            }
        } else {
            self.errors.push("format string".into());
        }
        None
    }

    /// a chain of writes to the formatter expression `f`
    fn chain(&mut self, f: &Expr, pieces: &[Piece]) -> Expr {
        if pieces.is_empty() {
            return parse_quote!(Ok::<(), crate::vpre::FmtError>(()));
        }
        let first: Expr = match &pieces[0] {
            Piece::Lit(s) => parse_quote!(crate::vpre::v_write_str(#f, #s)),
            Piece::Arg(e, Fmt::Display) => parse_quote!(crate::vpre::v_display(#f, &#e)),
            Piece::Arg(e, Fmt::Hex2) => parse_quote!(crate::vpre::v_hex2(#f, &#e)),
            Piece::Arg(e, _) => parse_quote!(crate::vpre::v_debug(#f, &#e)),
        };
        if pieces.len() == 1 {
            return first;
        }
        let rest = self.chain(f, &pieces[1..]);
        parse_quote!(match #first { Err(__e) => Err(__e), Ok(__u) => { #rest } })
    }

    fn lower(&mut self, m: &Macro, stmt: bool) -> Option<Expr> {
        let name = m.path.segments.last()?.ident.to_string();
        let mut args = || -> Vec<Expr> {
            match syn::parse2::<MacArgs>(m.tokens.clone()) {
                Ok(a) => a.exprs,
                Err(e) => {
                    self.errors.push(format!("macro {}: {}", name, e));
                    vec![]
                }
            }
        };
        Some(match name.as_str() {
            "unreachable" | "panic" | "todo" | "unimplemented" => {
                parse_quote!(crate::vpre::v_unreachable())
            }
            "assert" | "debug_assert" => {
                let a = args();
                let c = a.get(0)?;
                parse_quote!(crate::vpre::v_assert(#c))
            }
            "assert_eq" | "debug_assert_eq" => {
                let a = args();
                let (x, y) = (a.get(0)?, a.get(1)?);
                parse_quote!(crate::vpre::v_assert(#x == #y))
            }
            "assert_ne" | "debug_assert_ne" => {
                let a = args();
                let (x, y) = (a.get(0)?, a.get(1)?);
                parse_quote!(crate::vpre::v_assert(#x != #y))
            }
            "matches" => {
                struct M(Expr, Pat, Option<Expr>);
                impl syn::parse::Parse for M {
                    fn parse(i: syn::parse::ParseStream) -> Result<Self> {
                        let e = i.parse()?;
                        i.parse::<Token![,]>()?;
                        let p = Pat::parse_multi_with_leading_vert(i)?;
                        let g = if i.peek(Token![if]) {
                            i.parse::<Token![if]>()?;
                            Some(i.parse()?)
                        } else {
                            None
                        };
                        let _ = i.parse::<Option<Token![,]>>()?;
                        Ok(M(e, p, g))
                    }
                }
                let M(e, p, g) = syn::parse2::<M>(m.tokens.clone()).ok()?;
                match g {
                    Some(g) => parse_quote!(match #e { #p if #g => true, _ => false }),
                    None => parse_quote!(match #e { #p => true, _ => false }),
                }
            }
            "vec" => {
                let a = args();
                let mut stmts: Vec<Stmt> = vec![];
                self.fresh += 1;
                let v = format_ident!("__vec{}", self.fresh);
                for e in &a {
                    stmts.push(parse_quote!(#v.push(#e);));
                }
                parse_quote!({ let mut #v = Vec::new(); #(#stmts)* #v })
            }
            "write" | "writeln" => {
                let a = args();
                let f = a.get(0)?.clone();
                let mut p = self.fmt_args(&a[1..])?;
                if name == "writeln" {
                    p.push(Piece::Lit("\n".into()));
                }
                self.chain(&f, &p)
            }
            "print" | "println" | "eprint" | "eprintln" => {
                let a = args();
                let p = self.fmt_args(&a)?;
                let f: Expr = parse_quote!(&mut __f);
                let c = self.chain(&f, &p);
                let _ = stmt;
                if self.io && name.starts_with('e') {
                    return Some(parse_quote!({ let mut __f = crate::vpre::v_console(); let __r = #c; __io.err(); }));
                }
                parse_quote!({ let mut __f = crate::vpre::v_console(); let __r = #c; })
            }
            "format" => {
                let a = args();
                let p = self.fmt_args(&a)?;
                let f: Expr = parse_quote!(&mut __f);
                let c = self.chain(&f, &p);
                parse_quote!({ let mut __f = crate::vpre::v_sink(); let __r = #c; crate::vpre::v_string(__f) })
            }
            "format_args" => {
                let a = args();
                let p = self.fmt_args(&a)?;
                let mut stmts: Vec<Stmt> = vec![];
                for x in &p {
                    if let Piece::Arg(e, _) = x {
                        stmts.push(parse_quote!(crate::vpre::v_touch(&#e);));
                    }
                }
                parse_quote!({ #(#stmts)* crate::vpre::v_args() })
            }
            _ => {
                self.errors.push(format!("macro {}! is not known", name));
                return None;
            }
        })
    }
}

impl VisitMut for Macros {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if let Some(x) = self.lower(&m.mac, false) {
                *e = x;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            if let Some(x) = self.lower(&m.mac, true) {
                *s = Stmt::Expr(x, m.semi_token);
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

/// ---- patterns -----------------------------------------------------------------------
pub struct Patterns {
    pub fresh: usize,
    pub by_value: bool,
    pub errors: Vec<String>,
}

fn has_slice_pat(p: &Pat) -> bool {
    match p {
        Pat::Slice(_) => true,
        Pat::Paren(p) => has_slice_pat(&p.pat),
        Pat::Or(o) => o.cases.iter().any(has_slice_pat),
        _ => false,
    }
}

/// slice patterns inside of others
fn has_nested(p: &Pat) -> bool {
    struct F(bool);
    impl<'ast> syn::visit::Visit<'ast> for F {
        fn visit_pat_slice(&mut self, _: &'ast PatSlice) {
            self.0 = true;
        }
    }
    let mut f = F(false);
    syn::visit::Visit::visit_pat(&mut f, p);
    f.0
}

/// the names a pattern binds
fn binders(p: &Pat) -> Vec<Ident> {
    struct F(Vec<Ident>);
    impl<'ast> syn::visit::Visit<'ast> for F {
        fn visit_pat_ident(&mut self, i: &'ast PatIdent) {
            if !i.ident.to_string().chars().next().map_or(false, |c| c.is_uppercase()) {
                self.0.push(i.ident.clone());
            }
            syn::visit::visit_pat_ident(self, i);
        }
    }
    let mut f = F(vec![]);
    syn::visit::Visit::visit_pat(&mut f, p);
    f.0
}

impl Patterns {
    /// condition and bindings of one pattern against the slice `s`
    fn slice_case(&mut self, p: &Pat, s: &Ident) -> Option<(Expr, Vec<Stmt>)> {
        match p {
            Pat::Paren(p) => self.slice_case(&p.pat, s),
            Pat::Wild(_) => Some((parse_quote!(true), vec![])),
            Pat::Ident(i) if i.subpat.is_none() => {
                let n = &i.ident;
                Some((parse_quote!(true), vec![parse_quote!(let #n = #s;)]))
            }
            Pat::Or(o) => {
                let mut cond: Option<Expr> = None;
                for c in &o.cases {
                    let (x, b) = self.slice_case(c, s)?;
                    if !b.is_empty() {
                        return None;
                    }
                    cond = Some(match cond {
                        None => parse_quote!((#x)),
                        Some(y) => parse_quote!(#y || (#x)),
                    });
                }
                Some((cond?, vec![]))
            }
            Pat::Slice(sl) => {
                let n = sl.elems.len();
                let rest = sl.elems.iter().position(|e| match e {
                    Pat::Rest(_) => true,
                    Pat::Ident(i) => i.subpat.as_ref().map_or(false, |x| matches!(&*x.1, Pat::Rest(_))),
                    _ => false,
                });
                let mut conds: Vec<Expr> = vec![];
                let mut binds: Vec<Stmt> = vec![];
                match rest {
                    None => conds.push(parse_quote!(#s.len() == #n)),
                    Some(_) => {
                        let k = n - 1;
                        if k > 0 {
                            conds.push(parse_quote!(#s.len() >= #k));
                        }
                    }
                }
                for (k, e) in sl.elems.iter().enumerate() {
                    let idx: Expr = match rest {
                        Some(r) if k > r => {
                            let back = n - k;
                            parse_quote!(#s.len() - #back)
                        }
                        _ => parse_quote!(#k),
                    };
                    match e {
                        Pat::Wild(_) | Pat::Rest(_) => {}
                        Pat::Lit(l) => conds.push(parse_quote!(#s[#idx] == #l)),
                        Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() => {
                            let nm = &i.ident;
                            if nm.to_string().chars().next().map_or(false, |c| c.is_uppercase()) {
                                conds.push(parse_quote!(#s[#idx] == #nm));
                            } else {
                                binds.push(if self.by_value { parse_quote!(let #nm = #s[#idx];) } else { parse_quote!(let #nm = &#s[#idx];) });
                            }
                        }
                        Pat::Ident(i) if i.by_ref.is_some() && i.subpat.is_none() => {
                            let nm = &i.ident;
                            binds.push(parse_quote!(let #nm = &#s[#idx];));
                        }
                        Pat::Ident(i) if Some(k) == rest => {
                            let nm = &i.ident;
                            let back = n - 1 - k;
                            if back == 0 {
                                binds.push(parse_quote!(let #nm = &#s[#k..];));
                            } else {
                                binds.push(parse_quote!(let #nm = &#s[#k..(#s.len() - #back)];));
                            }
                        }
                        Pat::Or(o) if o.cases.iter().all(|c| matches!(c, Pat::Lit(_))) => {
                            let ls = o.cases.iter();
                            conds.push(parse_quote!((#(#s[#idx] == #ls)||*)));
                        }
                        Pat::Paren(p2) => {
                            if let Pat::Or(o) = &*p2.pat {
                                if o.cases.iter().all(|c| matches!(c, Pat::Lit(_))) {
                                    let ls = o.cases.iter();
                                    conds.push(parse_quote!((#(#s[#idx] == #ls)||*)));
                                    continue;
                                }
                            }
                            return None;
                        }
                        Pat::Range(r) => {
                            let (lo, hi) = (r.start.as_ref()?, r.end.as_ref()?);
                            if matches!(r.limits, RangeLimits::Closed(_)) {
                                conds.push(parse_quote!((#s[#idx] >= #lo && #s[#idx] <= #hi)));
                            } else {
                                conds.push(parse_quote!((#s[#idx] >= #lo && #s[#idx] < #hi)));
                            }
                        }
                        _ => return None,
                    }
                }
                let cond: Expr = if conds.is_empty() {
                    parse_quote!(true)
                } else {
                    parse_quote!(#(#conds)&&*)
                };
                Some((cond, binds))
            }
            _ => None,
        }
    }

    /// slice patterns inside of others: tested and bound by the guard of their arm
    fn lower_nested(&mut self, m: &ExprMatch) -> Option<Expr> {
        struct Take<'a> {
            with: &'a mut Patterns,
            conds: Vec<Expr>,
            binds: Vec<Stmt>,
            bad: bool,
        }
        impl<'a> VisitMut for Take<'a> {
            fn visit_pat_mut(&mut self, p: &mut Pat) {
                match p {
                    Pat::Slice(_) => {
                        self.with.fresh += 1;
                        let q = format_ident!("__q{}", self.with.fresh);
                        match self.with.slice_case(p, &q) {
                            Some((c, b)) => {
                                self.conds.push(c);
                                self.binds.extend(b);
                                *p = parse_quote!(#q);
                            }
                            None => self.bad = true,
                        }
                    }
                    Pat::Or(_) if has_nested(p) => self.bad = true,
                    _ => visit_mut::visit_pat_mut(self, p),
                }
            }
        }
        self.by_value = false;
        let mut m = m.clone();
        for arm in m.arms.iter_mut() {
            let mut t = Take { with: self, conds: vec![], binds: vec![], bad: false };
            t.visit_pat_mut(&mut arm.pat);
            if t.bad {
                return None;
            }
            let (c, b) = (t.conds, t.binds);
            if c.is_empty() {
                continue;
            }
            let body = arm.body.clone();
            let g: Expr = match &arm.guard {
                None => parse_quote!(#((#c))&&*),
                Some((_, g)) => parse_quote!(#((#c))&&* && ({ #(#b)* #g })),
            };
            arm.guard = Some((Default::default(), Box::new(g)));
            arm.body = parse_quote!({ #(#b)* #body });
        }
        m.arms.push(parse_quote!(_ => crate::vpre::v_unreachable(),));
        Some(Expr::Match(m))
    }

    fn lower_match(&mut self, m: &ExprMatch) -> Option<Expr> {
        if !m.arms.iter().any(|a| has_slice_pat(&a.pat)) {
            return self.lower_nested(m);
        }
        self.fresh += 1;
        let s = format_ident!("__s{}", self.fresh);
        self.by_value = matches!(peel(&m.expr), Expr::Unary(u) if matches!(u.op, UnOp::Deref(_))) || matches!(peel(&m.expr), Expr::Array(_));
        let mut tail: Expr = parse_quote!(crate::vpre::v_unreachable());
        for arm in m.arms.iter().rev() {
            let (c, b) = self.slice_case(&arm.pat, &s)?;
            let body = &arm.body;
            let always = c == parse_quote!(true);
            tail = match (&arm.guard, b.is_empty()) {
                (None, _) if always => parse_quote!({ #(#b)* #body }),
                (None, _) => parse_quote!(if #c { #(#b)* #body } else { #tail }),
                (Some((_, g)), true) => parse_quote!(if (#c) && (#g) { #body } else { #tail }),
                (Some((_, g)), false) => {
                    parse_quote!(if (#c) && ({ #(#b)* #g }) { #(#b)* #body } else { #tail })
                }
            };
        }
        match peel(&m.expr) {
            // `match *x`: the slice through the reference, its elements by value
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => {
                let e = &u.expr;
                Some(parse_quote!({ let #s = &*(#e); #tail }))
            }
            e => Some(parse_quote!({ let #s = #e; #tail })),
        }
    }
}

impl VisitMut for Patterns {
    fn visit_local_mut(&mut self, l: &mut Local) {
        // `let P = e else { .. }`
        if has_nested(&l.pat) {
            if let Some(LocalInit { expr, diverge: Some((_, d)), .. }) = &l.init {
                let (p, b) = (&l.pat, binders(&l.pat));
                let m: Expr = parse_quote!(match #expr { #p => (#(#b),*), _ => #d });
                let t: Stmt = parse_quote!(let (#(#b),*) = #m;);
                if let Stmt::Local(t) = t {
                    *l = t;
                }
            }
        }
        visit_mut::visit_local_mut(self, l);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Match(m) if m.arms.iter().any(|a| has_nested(&a.pat)) => match self.lower_match(m) {
                Some(x) => *e = x,
                None => self.errors.push("slice pattern".into()),
            },
            Expr::If(i) => {
                if let Expr::Let(l) = &*i.cond {
                    if has_nested(&l.pat) {
                        let (p, s, t) = (&l.pat, &l.expr, &i.then_branch);
                        let el: Expr = match &i.else_branch {
                            Some((_, x)) => (**x).clone(),
                            None => parse_quote!({}),
                        };
                        let m: ExprMatch = parse_quote!(match #s { #p => #t, _ => #el });
                        match self.lower_match(&m) {
                            Some(x) => *e = x,
                            None => self.errors.push("slice pattern".into()),
                        }
                    }
                }
            }
            Expr::Closure(c) => {
                for p in c.inputs.iter_mut() {
                    if let Pat::Wild(_) = p {
                        self.fresh += 1;
                        let n = format_ident!("_e{}", self.fresh);
                        *p = parse_quote!(#n);
                    }
                }
            }
            _ => {}
        }
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

/// ---- constants ----------------------------------------------------------------------
/// replaces named constants by their initialisers
pub struct Consts<'a> {
    pub table: &'a BTreeMap<String, (Type, Expr)>,
    pub self_ty: Option<String>,
    pub depth: usize,
}

impl<'a> Consts<'a> {
    fn lookup(&self, p: &syn::Path) -> Option<Expr> {
        let mut s = path_str(p);
        if let (Some(t), Some(r)) = (&self.self_ty, s.strip_prefix("Self::")) {
            s = format!("{}::{}", t, r);
        }
        let (ty, e) = self.table.get(&s)?;
        let t = quote!(#ty).to_string();
        if let Expr::Lit(ExprLit {
            lit: Lit::Int(i), ..
        }) = e
        {
            if i.suffix().is_empty() && ["u8", "u16", "u32", "u64", "usize", "i32", "i64", "u128", "i128"].contains(&t.as_str()) {
                let l = LitInt::new(&format!("{}{}", i.base10_digits(), t), Span::call_site());
                return Some(parse_quote!(#l));
            }
        }
        if t.contains("Range") || matches!(e, Expr::Lit(_)) {
            return Some(parse_quote!((#e)));
        }
        if ["u8", "u16", "u32", "u64", "usize", "i32", "i64", "bool"].contains(&t.as_str()) {
            return Some(parse_quote!({ let __c: #ty = #e; __c }));
        }
        let mut e = e.clone();
        typed(ty, &mut e);
        Some(parse_quote!((#e)))
    }
}

/// the type of a constant's numbers goes with them
fn typed(t: &Type, e: &mut Expr) {
    match (t, e) {
        (Type::Reference(r), Expr::Reference(x)) => typed(&r.elem, &mut x.expr),
        (t, Expr::Paren(x)) => typed(t, &mut x.expr),
        (Type::Array(TypeArray { elem, .. }) | Type::Slice(TypeSlice { elem, .. }), Expr::Array(a)) => {
            if let Some(x) = a.elems.first_mut() {
                typed(elem, x)
            }
        }
        (Type::Tuple(t), Expr::Tuple(x)) => {
            for (t, x) in t.elems.iter().zip(x.elems.iter_mut()) {
                typed(t, x)
            }
        }
        (Type::Path(p), Expr::Lit(ExprLit { lit: Lit::Int(l), .. })) if l.suffix().is_empty() && p.path.get_ident().map_or(false, |i| crate::oracle::is_int(&i.to_string())) => {
            *l = LitInt::new(&format!("{}{}", l.base10_digits(), p.path.get_ident().unwrap()), l.span());
        }
        _ => {}
    }
}

impl<'a> VisitMut for Consts<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if let Some(x) = self.lookup(&p.path) {
                *e = x;
                self.depth += 1;
                if self.depth < 20 {
                    self.visit_expr_mut(e);
                }
                self.depth -= 1;
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
        // `RANGE.start()` on a literal range
        if let Expr::MethodCall(m) = e {
            if m.args.is_empty() && (m.method == "start" || m.method == "end") {
                let mut r = &*m.receiver;
                while let Expr::Paren(p) = r {
                    r = &p.expr;
                }
                if let Expr::Range(r) = r {
                    let b = if m.method == "start" { &r.start } else { &r.end };
                    if let Some(b) = b {
                        *e = parse_quote!(&#b);
                    }
                }
            }
        }
        if let Expr::Binary(b) = e {
            for side in [&mut b.left, &mut b.right] {
                if let Expr::Reference(r) = &**side {
                    if let Expr::Lit(_) = &*r.expr {
                        let x = (*r.expr).clone();
                        if !matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) {
                            **side = x;
                        }
                    }
                }
            }
        }
    }
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        let path = match p {
            Pat::Path(x) => Some(x.path.clone()),
            Pat::Ident(i) if i.subpat.is_none() => Some(syn::Path::from(i.ident.clone())),
            _ => None,
        };
        if let Some(path) = path {
            if let Some(x) = self.lookup(&path) {
                let mut y = &x;
                while let Expr::Paren(q) = y {
                    y = &q.expr;
                }
                if let Expr::Lit(l) = y {
                    *p = Pat::Lit(l.clone());
                    return;
                }
            }
        }
        visit_mut::visit_pat_mut(self, p);
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

/// ---- adapters of Result/Option ----------------------------------------------------------
/// `x.nth(k)` with a known k on one of the crate's own iterators: k + 1 calls of `next`
#[derive(Default)]
pub struct Nth {
    known: BTreeMap<String, u64>,
    fresh: usize,
}

impl VisitMut for Nth {
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        self.known.remove(&p.ident.to_string());
    }
    fn visit_local_mut(&mut self, l: &mut Local) {
        visit_mut::visit_local_mut(self, l);
        let p = match &l.pat {
            Pat::Type(t) => &*t.pat,
            p => p,
        };
        if let (Pat::Ident(i), Some(x)) = (p, &l.init) {
            if let (None, None, Expr::Lit(ExprLit { lit: Lit::Int(n), .. })) = (&i.mutability, &i.by_ref, peel(&x.expr)) {
                if let Ok(n) = n.base10_parse::<u64>() {
                    self.known.insert(i.ident.to_string(), n);
                }
            }
        }
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let known = self.known.clone();
        visit_mut::visit_block_mut(self, b);
        self.known = known.into_iter().filter(|(k, v)| self.known.get(k) == Some(v)).collect();
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let m = match e {
            Expr::MethodCall(m) if m.method == "nth" && m.args.len() == 1 => m,
            _ => return,
        };
        let n = match peel(&m.args[0]) {
            Expr::Lit(ExprLit { lit: Lit::Int(n), .. }) => n.base10_parse::<u64>().ok(),
            Expr::Path(p) => p.path.get_ident().and_then(|i| self.known.get(&i.to_string()).copied()),
            _ => None,
        };
        let (n, recv) = match (n, crate::oracle::method(&m.method)) {
            (Some(n), Some(o)) if n <= 16 && o.path == "core::iter::traits::iterator::Iterator::nth" => (n, o.recv),
            _ => return,
        };
        if ["std::", "core::", "alloc::"].iter().any(|p| crate::oracle::bare(&recv).starts_with(p)) {
            return;
        }
        self.fresh += 1;
        let it = format_ident!("__nth{}", self.fresh);
        let r = &m.receiver;
        let place = matches!(peel(r), Expr::Path(_) | Expr::Field(_));
        let next: Expr = if place { parse_quote!((#r).next()) } else { parse_quote!(#it.next()) };
        let mut x: Expr = next.clone();
        for _ in 0..n {
            x = parse_quote!(match #next { Some(_) => #x, None => None });
        }
        *e = if place { x } else { parse_quote!({ let mut #it = #r; #x }) };
    }
}

pub struct Adapters<'a> {
    pub fresh: usize,
    pub ret_of: &'a dyn Fn(&Expr) -> Option<String>,
}

fn apply_fn(f: &Expr, arg: Expr) -> Option<Expr> {
    match f {
        Expr::Closure(c) if c.inputs.len() == 1 => {
            let p = &c.inputs[0];
            let b = &c.body;
            let p2: Pat = match p {
                Pat::Type(t) => (*t.pat).clone(),
                p => p.clone(),
            };
            Some(parse_quote!({ let #p2 = #arg; #b }))
        }
        Expr::Path(p) => Some(parse_quote!(#p(#arg))),
        _ => None,
    }
}

/// ---- match guards ---------------------------------------------------------------------
// `P if G => E, rest` becomes `P => if G { E } else { match S { rest } }, rest` in
// functions with `&mut` parameters: Verus loses the final value of a mutable borrow behind
// a failed guard.
#[derive(Default)]
pub struct Guards {
    pub fresh: usize,
}

fn pat_names(p: &Pat, out: &mut BTreeSet<String>) {
    struct V<'a>(&'a mut BTreeSet<String>);
    impl<'a, 'b> syn::visit::Visit<'b> for V<'a> {
        fn visit_pat_ident(&mut self, p: &'b PatIdent) {
            self.0.insert(p.ident.to_string());
            syn::visit::visit_pat_ident(self, p);
        }
    }
    syn::visit::Visit::visit_pat(&mut V(out), p);
}

fn mentions(ts: TokenStream, names: &BTreeSet<String>) -> bool {
    ts.into_iter().any(|t| match t {
        proc_macro2::TokenTree::Ident(i) => names.contains(&i.to_string()),
        proc_macro2::TokenTree::Group(g) => mentions(g.stream(), names),
        _ => false,
    })
}

fn has_loop(ts: TokenStream) -> bool {
    let names: BTreeSet<String> = ["loop", "while", "for"].iter().map(|s| s.to_string()).collect();
    mentions(ts, &names)
}

impl VisitMut for Guards {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Match(m) = e {
            if !m.arms.iter().any(|a| a.guard.is_some()) || m.arms.iter().any(|a| has_loop(a.body.to_token_stream())) {
                return;
            }
            for (i, a) in m.arms.iter().enumerate() {
                if a.guard.is_some() {
                    let mut names = BTreeSet::new();
                    pat_names(&a.pat, &mut names);
                    for b in &m.arms[i + 1..] {
                        if mentions(b.to_token_stream(), &names) {
                            return;
                        }
                    }
                }
            }
            let (bind, s): (Option<Stmt>, Expr) = match &*m.expr {
                Expr::Path(_) => (None, (*m.expr).clone()),
                x => {
                    self.fresh += 1;
                    let n = format_ident!("__m{}", self.fresh);
                    (Some(parse_quote!(let #n = #x;)), parse_quote!(#n))
                }
            };
            let mut arms: Vec<Arm> = vec![];
            for a in m.arms.iter().rev() {
                let mut a = a.clone();
                if let Some((_, g)) = a.guard.take() {
                    let mut tail = arms.clone();
                    if !matches!(tail.last(), Some(Arm { pat: Pat::Wild(_), .. })) {
                        tail.push(parse_quote!(_ => crate::vpre::v_unreachable(),));
                    }
                    let body = &a.body;
                    *a.body = parse_quote!(if #g { #body } else { match #s { #(#tail)* } });
                }
                a.comma = Some(Default::default());
                arms.insert(0, a);
            }
            *e = match bind {
                None => parse_quote!(match #s { #(#arms)* }),
                Some(b) => parse_quote!({ #b match #s { #(#arms)* } }),
            };
        }
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

struct HasExit(bool, usize);
impl<'a> syn::visit::Visit<'a> for HasExit {
    fn visit_expr(&mut self, e: &'a Expr) {
        match e {
            Expr::Return(_) | Expr::Try(_) => self.0 = true,
            // those of a loop within stay within
            Expr::Break(b) if self.1 > 0 && b.label.is_none() => syn::visit::visit_expr_break(self, b),
            Expr::Continue(c) if self.1 > 0 && c.label.is_none() => {}
            Expr::Break(_) | Expr::Continue(_) => self.0 = true,
            Expr::Closure(_) => {}
            Expr::ForLoop(f) => {
                self.visit_expr(&f.expr);
                self.1 += 1;
                self.visit_block(&f.body);
                self.1 -= 1;
            }
            Expr::While(_) | Expr::Loop(_) => {
                self.1 += 1;
                syn::visit::visit_expr(self, e);
                self.1 -= 1;
            }
            e => syn::visit::visit_expr(self, e),
        }
    }
}
pub fn has_exit(e: &Expr) -> bool {
    let mut h = HasExit(false, 0);
    syn::visit::Visit::visit_expr(&mut h, e);
    h.0
}
pub fn block_has_exit(b: &Block) -> bool {
    let mut h = HasExit(false, 0);
    syn::visit::Visit::visit_block(&mut h, b);
    h.0
}

impl<'a> VisitMut for Adapters<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        // the lossless conversions between integers
        if let Expr::Call(c) = e {
            if let (Expr::Path(p), 1) = (&*c.func, c.args.len()) {
                let s = path_str(&p.path);
                if let Some(t) = s.strip_suffix("::from") {
                    if ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"].contains(&t) {
                        let (t, a) = (format_ident!("{}", t), &c.args[0]);
                        *e = parse_quote!(((#a) as #t));
                        return;
                    }
                }
            }
        }
        if let Expr::MethodCall(m) = e {
            let name = m.method.to_string();
            let clos_body_exits = m.args.iter().any(|a| match a {
                Expr::Closure(c) => has_exit(&c.body),
                _ => false,
            });
            if clos_body_exits {
                return;
            }
            self.fresh += 1;
            let v = format_ident!("__m{}", self.fresh);
            let recv = &m.receiver;
            if name == "map_err" && m.args.len() == 1 {
                if let Some(x) = apply_fn(&m.args[0], parse_quote!(#v)) {
                    *e = parse_quote!(match #recv { Ok(__k) => Ok(__k), Err(#v) => Err(#x) });
                }
                return;
            }
            if name == "ok_or_else" && m.args.len() == 1 {
                if let Expr::Closure(c) = &m.args[0] {
                    let b = &c.body;
                    *e = parse_quote!(match #recv { Some(__k) => Ok(__k), None => Err(#b) });
                }
                return;
            }
            if ["map", "and_then", "or_else", "unwrap_or_else"].contains(&name.as_str()) && m.args.len() == 1 {
                let kind = (self.ret_of)(recv);
                let call = apply_fn(&m.args[0], parse_quote!(#v));
                if let (Some(kind), Some(call)) = (kind, call) {
                    match (name.as_str(), kind.as_str()) {
                        ("map", "Result") => *e = parse_quote!(match #recv { Ok(#v) => Ok(#call), Err(__e) => Err(__e) }),
                        ("map", "Option") => *e = parse_quote!(match #recv { Some(#v) => Some(#call), None => None }),
                        ("or_else", "Result") => *e = parse_quote!(match #recv { Ok(__k) => Ok(__k), Err(#v) => #call }),
                        ("unwrap_or_else", "Result") => *e = parse_quote!(match #recv { Ok(__k) => __k, Err(#v) => #call }),
                        ("and_then", "Result") => *e = parse_quote!(match #recv { Ok(#v) => #call, Err(__e) => Err(__e) }),
                        ("and_then", "Option") => *e = parse_quote!(match #recv { Some(#v) => #call, None => None }),
                        _ => {}
                    }
                }
            }
        }
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

/// ---- loops --------------------------------------------------------------------------
pub struct Loops<'a> {
    pub contract: Option<&'a Contract>,
    pub raw: &'a mut Raw,
    pub count: usize,
    pub fresh: usize,
    pub scope: Vec<(String, String, bool)>, // name, type key, mutable
    pub params: Vec<String>,
    pub self_name: String,
    pub consts: Vec<(String, ExprLit)>,
    pub lost: Vec<String>,
}

/// what a `for` over a library iterator maintains, and why it ends
fn lib_facts(it: &Ident, chunks: bool) -> (String, String) {
    if chunks {
        (format!("crate::vpre::chunks_n({}) > 0,\n", it), format!("decreases crate::vpre::chunks_rem({}).len(),\n", it))
    } else {
        (
            format!("vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&{i}), vstd::std_specs::iter::IteratorSpec::decrease(&{i}) is Some,\n", i = it),
            format!("decreases vstd::std_specs::iter::IteratorSpec::decrease(&{})->0,\n", it),
        )
    }
}

/// a measure for `while a < b` and the like
fn while_facts(c: &Expr) -> Option<(String, String)> {
    match peel(c) {
        Expr::Binary(b) => {
            let (l, r) = (&b.left, &b.right);
            let (l, r) = (quote!(#l).to_string(), quote!(#r).to_string());
            let m = match b.op {
                BinOp::Lt(_) | BinOp::Le(_) => format!("decreases ({}) - ({}),\n", r, l),
                BinOp::Gt(_) | BinOp::Ge(_) => format!("decreases ({}) - ({}),\n", l, r),
                BinOp::And(_) => return while_facts(&b.left).or_else(|| while_facts(&b.right)),
                _ => return None,
            };
            Some((String::new(), m))
        }
        // `!x.is_empty()`
        Expr::Unary(u) if matches!(u.op, UnOp::Not(_)) => match peel(&u.expr) {
            Expr::MethodCall(m) if m.method == "is_empty" && m.args.is_empty() => match peel(&m.receiver) {
                r @ (Expr::Path(_) | Expr::Field(_)) => Some((String::new(), format!("decreases ({})@.len(),\n", quote!(#r)))),
                _ => None,
            },
            _ => None,
        },
        _ => None,
    }
}

fn peel(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => peel(&p.expr),
        Expr::Group(p) => peel(&p.expr),
        e => e,
    }
}

/// the loops of a body by kind, in order: what the annotations of loops are written for
pub fn shape(b: &Block) -> Vec<String> {
    #[derive(Default)]
    struct S {
        depth: usize,
        out: Vec<String>,
    }
    fn over(e: &Expr) -> String {
        match peel(e) {
            Expr::MethodCall(m) => format!("{}.{}", over(&m.receiver), m.method),
            Expr::Range(r) => match r.limits {
                RangeLimits::HalfOpen(_) => "..".into(),
                RangeLimits::Closed(_) => "..=".into(),
            },
            Expr::Index(i) => format!("{}[]", over(&i.expr)),
            Expr::Reference(r) => over(&r.expr),
            _ => String::new(),
        }
    }
    impl<'a> syn::visit::Visit<'a> for S {
        fn visit_expr(&mut self, e: &'a Expr) {
            let s = match e {
                Expr::ForLoop(f) => format!("for {}", over(&f.expr)),
                Expr::While(w) => match &*w.cond {
                    Expr::Let(_) => "while let".into(),
                    _ => "while".into(),
                },
                Expr::Loop(_) => "loop".into(),
                // a function value: its calls are beyond the contracts
                Expr::Closure(_) => "closure".into(),
                _ => return syn::visit::visit_expr(self, e),
            };
            self.out.push(format!("{} {}", self.depth, s));
            self.depth += 1;
            syn::visit::visit_expr(self, e);
            self.depth -= 1;
        }
    }
    let mut s = S::default();
    syn::visit::Visit::visit_block(&mut s, b);
    s.out
}

pub fn type_key(t: &Type) -> String {
    match t {
        Type::Reference(r) => type_key(&r.elem),
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        Type::TraitObject(t) => t
            .bounds
            .iter()
            .filter_map(|b| match b {
                TypeParamBound::Trait(t) => t.path.segments.last().map(|s| s.ident.to_string()),
                _ => None,
            })
            .next()
            .unwrap_or_default(),
        Type::Slice(_) => "slice".into(),
        Type::Paren(p) => type_key(&p.elem),
        _ => String::new(),
    }
}

fn oracle_key(t: &str) -> String {
    let h = crate::oracle::head(t);
    if crate::oracle::is_int(h) {
        return "int".into();
    }
    if !h.chars().all(|c| c.is_alphanumeric() || c == '_' || c == ':') {
        return String::new();
    }
    h.rsplit("::").next().unwrap_or("").to_string()
}

fn init_key(e: &Expr) -> String {
    match e {
        Expr::Try(t) => init_key(&t.expr),
        Expr::Paren(t) => init_key(&t.expr),
        Expr::Reference(t) => init_key(&t.expr),
        Expr::Call(c) => match &*c.func {
            Expr::Path(p) if p.path.segments.len() >= 2 => {
                p.path.segments[p.path.segments.len() - 2].ident.to_string()
            }
            _ => String::new(),
        },
        Expr::Struct(s) => s.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        Expr::Lit(ExprLit { lit: Lit::Int(_), .. }) => "int".into(),
        Expr::Lit(ExprLit { lit: Lit::Bool(_), .. }) => "bool".into(),
        Expr::MethodCall(m) => format!(".{}", m.method),
        Expr::Block(b) => match b.block.stmts.last() {
            Some(Stmt::Expr(Expr::Path(p), None)) => {
                for s in &b.block.stmts {
                    if let Stmt::Local(Local { pat: Pat::Type(t), init, .. }) = s {
                        if t.pat.to_token_stream().to_string() == p.to_token_stream().to_string() {
                            let k = type_key(&t.ty);
                            if k.is_empty() || k == "_" || k == "Result" || k == "Option" {
                                return init.as_ref().map(|i| init_key(&i.expr)).unwrap_or_default();
                            }
                            return k;
                        }
                    }
                }
                String::new()
            }
            Some(Stmt::Expr(e, None)) => init_key(e),
            _ => String::new(),
        },
        Expr::Match(m) => {
            // the desugared `?`
            for a in &m.arms {
                let k = init_key(&a.body);
                if !k.is_empty() {
                    return k;
                }
            }
            init_key(&m.expr)
        }
        _ => String::new(),
    }
}

impl<'a> Loops<'a> {
    fn subst(&mut self, text: &str) -> String {
        let mut out = String::new();
        let cs: Vec<char> = text.chars().collect();
        let mut i = 0;
        while i < cs.len() {
            if cs[i] == '$' {
                let mut j = i + 1;
                while j < cs.len() && (cs[j].is_alphanumeric() || cs[j] == '_') {
                    j += 1;
                }
                let name: String = cs[i + 1..j].iter().collect();
                if let Ok(n) = name.parse::<usize>() {
                    match self.params.get(n - 1) {
                        Some(p) => out.push_str(p),
                        None => self.lost.push(format!("parameter {}", n)),
                    }
                } else {
                    // Type, Type1, ..: the innermost, the next outer, ..
                    let (base, k) = match name.chars().last() {
                        Some(d) if d.is_ascii_digit() => {
                            (name[..name.len() - 1].to_string(), d.to_digit(10).unwrap() as usize)
                        }
                        _ => (name.clone(), 0),
                    };
                    let (base, want_mut) = match base.strip_prefix("mut_") {
                        Some(b) => (b.to_string(), true),
                        None => (base, false),
                    };
                    let me = self.self_name.clone();
                    let c: Vec<_> = self
                        .scope
                        .iter()
                        .rev()
                        .filter(|(_, t, m)| (*t == base || (t == "Self" && me == base)) && (!want_mut || *m))
                        .collect();
                    match c.get(k) {
                        Some((n, _, _)) => out.push_str(n),
                        None => {
                            self.lost.push(format!("local of kind {}", name));
                            out.push_str("__lost")
                        }
                    }
                }
                i = j;
            } else {
                out.push(cs[i]);
                i += 1;
            }
        }
        out
    }

    fn mark(&mut self, text: &str) -> Vec<Stmt> {
        if text.trim().is_empty() {
            return vec![];
        }
        let t = self.subst(text);
        self.raw.texts.push(t);
        let n = format_ident!("__VMARK_{}", self.raw.texts.len() - 1);
        vec![parse_quote!(#n;)]
    }

    /// `for` over a library iterator: what every such loop maintains.
    fn loop_mark(&mut self, k: usize, facts: Option<(String, String)>) -> (Vec<Stmt>, Vec<Stmt>, Vec<Stmt>, Vec<Stmt>) {
        let l = self.contract.and_then(|c| c.loops.get(&k)).cloned();
        match l {
            None => match self.contract.and_then(|c| c.any_loop.clone()) {
                // a loop without an annotation: what its form gives, and the verifier's own inference
                None => {
                    let (inv, dec) = facts.unwrap_or_default();
                    self.raw.texts.push(if inv.is_empty() { dec } else { format!("invariant\n{}{}", inv, dec) });
                    let n = format_ident!("__VLOOP_{}", self.raw.texts.len() - 1);
                    (vec![parse_quote!(#n;)], vec![], vec![], vec![])
                }
                Some(mut l) => {
                    for t in [&mut l.spec, &mut l.body, &mut l.before, &mut l.after] {
                        *t = t.replace("$k", &k.to_string());
                    }
                    let mut t = String::new();
                    let list = self.subst(&l.spec);
                    let (inv, dec) = facts.unwrap_or_default();
                    t.push_str(&inv);
                    t.push_str(&list);
                    self.raw.texts.push(if t.trim().is_empty() { dec } else { format!("invariant\n{}{}", t, dec) });
                    let n = format_ident!("__VLOOP_{}", self.raw.texts.len() - 1);
                    (vec![parse_quote!(#n;)], self.mark(&l.body), self.mark(&l.before), self.mark(&l.after))
                }
            },
            Some(l) => {
                let t = self.subst(&l.spec);
                self.raw.texts.push(t);
                let n = format_ident!("__VLOOP_{}", self.raw.texts.len() - 1);
                (
                    vec![parse_quote!(#n;)],
                    self.mark(&l.body),
                    self.mark(&l.before),
                    self.mark(&l.after),
                )
            }
        }
    }

    /// adds to the invariant of a loop
    fn add_inv(&mut self, inv: &[Stmt], t: &str) {
        let n: usize = match inv.first().map(|s| quote!(#s).to_string()) {
            Some(s) => s.trim_start_matches("__VLOOP_").trim_end_matches(|c: char| !c.is_ascii_digit()).parse().unwrap(),
            None => return,
        };
        let old = self.raw.texts[n].clone();
        self.raw.texts[n] = match old.trim_start().strip_prefix("invariant") {
            Some(r) => format!("invariant\n{}{}", t, r),
            None => format!("invariant\n{}{}", t, old),
        };
    }

    /// what a loop over a library iterator maintains of its counter, and of locals that are
    /// one constant in the first round and another one in the others
    fn first_facts(&mut self, it: &Ident, body: &Block, counter: Option<&Ident>, chunks: bool) -> Option<(String, String)> {
        if chunks {
            return None;
        }
        let n = format!("v_n{}", self.fresh);
        let left = format!("vstd::std_specs::iter::IteratorSpec::remaining(&{}).len()", it);
        let mut t = String::new();
        if let Some(c) = counter {
            t.push_str(&format!("{} + {} == {n}, {n} <= usize::MAX,\n", c, left));
        }
        for (name, a) in &self.consts {
            struct Assigned<'b>(&'b str, usize);
            impl<'b, 'ast> syn::visit::Visit<'ast> for Assigned<'b> {
                fn visit_expr_assign(&mut self, a: &'ast ExprAssign) {
                    if quote!(#a).to_string().starts_with(&format!("{} =", self.0)) {
                        self.1 += 1;
                    }
                    syn::visit::visit_expr_assign(self, a);
                }
            }
            let mut v = Assigned(name, 0);
            syn::visit::Visit::visit_block(&mut v, body);
            let b = body.stmts.iter().find_map(|s| match s {
                Stmt::Expr(Expr::Assign(x), _) => match (&*x.left, &*x.right) {
                    (Expr::Path(p), Expr::Lit(l)) if p.path.is_ident(name) => Some(l.clone()),
                    _ => None,
                },
                _ => None,
            });
            if let (1, Some(b)) = (v.1, b) {
                let w = if matches!(b.lit, Lit::Str(_)) { "@" } else { "" };
                let (a, b) = (quote!(#a).to_string(), quote!(#b).to_string());
                t.push_str(&format!("{left} == {n} ==> {name}{w} == {a}{w},\n{left} != {n} ==> {name}{w} == {b}{w},\n{left} <= {n},\n"));
            }
        }
        if t.is_empty() {
            return None;
        }
        Some((format!("let ghost {} = {};\n", n, left), t))
    }

    fn bind_pat(&mut self, p: &Pat, key: String) {
        match p {
            Pat::Type(t) => {
                let k = type_key(&t.ty);
                let k = if ["u8", "u16", "u32", "u64", "usize", "i32", "i64"].contains(&k.as_str()) {
                    "int".to_string()
                } else {
                    k
                };
                self.bind_pat(&t.pat, k)
            }
            Pat::Ident(i) => self.scope.push((i.ident.to_string(), key, i.mutability.is_some())),
            _ => {
                let mut s = BTreeSet::new();
                crate::krate::locals_of_pat(p, &mut s);
                for n in s {
                    self.scope.push((n, "pat".into(), false));
                }
            }
        }
    }

    fn block(&mut self, b: &mut Block) {
        let depth = self.scope.len();
        let consts = self.consts.len();
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            match &mut s {
                Stmt::Local(l) => {
                    if let Some(i) = &mut l.init {
                        self.expr(&mut i.expr);
                        if let Some((_, d)) = &mut i.diverge {
                            self.expr(d);
                        }
                    }
                    let mut k = l.init.as_ref().map(|i| init_key(&i.expr)).unwrap_or_default();
                    let p = l.pat.clone();
                    if let (true, Pat::Ident(i)) = (k.is_empty(), &p) {
                        if let Some(t) = crate::oracle::pat_ty(i) {
                            k = oracle_key(&t);
                        }
                    }
                    self.bind_pat(&p, k);
                    let var = match &p {
                        Pat::Type(t) => (*t.pat).clone(),
                        p => p.clone(),
                    };
                    if let (Pat::Ident(i), Some(init)) = (&var, &l.init) {
                        if let (true, Expr::Lit(x)) = (i.mutability.is_some(), peel(&init.expr)) {
                            self.consts.push((i.ident.to_string(), x.clone()));
                        }
                    }
                }
                Stmt::Expr(e, _) => self.expr(e),
                _ => {}
            }
            out.push(s);
        }
        b.stmts = out;
        self.scope.truncate(depth);
        self.consts.truncate(consts);
    }

    pub fn run(&mut self, b: &mut Block) {
        self.block(b)
    }

    fn arm(&mut self, a: &mut Arm) {
        let depth = self.scope.len();
        let mut s = BTreeSet::new();
        crate::krate::locals_of_pat(&a.pat, &mut s);
        for n in s {
            self.scope.push((n, "pat".into(), false));
        }
        if let Some((_, g)) = &mut a.guard {
            self.expr(g);
        }
        self.expr(&mut a.body);
        self.scope.truncate(depth);
    }

    fn iter_init(&mut self, e: &Expr) -> Expr {
        match e {
            Expr::MethodCall(m) if m.args.is_empty() && m.method == "iter" => e.clone(),
            Expr::MethodCall(m) if m.method == "chunks" => e.clone(),
            e => parse_quote!(core::iter::IntoIterator::into_iter(#e)),
        }
    }

    fn expr(&mut self, e: &mut Expr) {
        match e {
            Expr::Block(b) => self.block(&mut b.block),
            Expr::Unsafe(b) => self.block(&mut b.block),
            Expr::Match(m) => {
                self.expr(&mut m.expr);
                for a in m.arms.iter_mut() {
                    self.arm(a);
                }
            }
            Expr::If(i) => {
                self.expr(&mut i.cond);
                let depth = self.scope.len();
                if let Expr::Let(l) = &*i.cond {
                    let mut s = BTreeSet::new();
                    crate::krate::locals_of_pat(&l.pat, &mut s);
                    for n in s {
                        self.scope.push((n, "pat".into(), false));
                    }
                }
                self.block(&mut i.then_branch);
                self.scope.truncate(depth);
                if let Some((_, el)) = &mut i.else_branch {
                    self.expr(el);
                }
            }
            Expr::Closure(c) => self.expr(&mut c.body),
            Expr::ForLoop(f) => {
                self.expr(&mut f.expr);
                self.fresh += 1;
                let it = format_ident!("__it{}", self.fresh);
                // `.enumerate()` becomes a counter
                let (mut src, mut pat) = ((*f.expr).clone(), (*f.pat).clone());
                let mut counter: Option<(Ident, Pat)> = None;
                if let Expr::MethodCall(m) = &src {
                    if m.method == "enumerate" && m.args.is_empty() {
                        if let Pat::Tuple(t) = &pat {
                            if t.elems.len() == 2 {
                                let c = format_ident!("__cnt{}", self.fresh);
                                let (a, b) = (t.elems[0].clone(), t.elems[1].clone());
                                counter = Some((c, a));
                                let r = (*m.receiver).clone();
                                src = r;
                                pat = b;
                            }
                        }
                    }
                }
                let own = self.contract.map_or(false, |c| c.loops.contains_key(&self.count));
                let plain = !own && !self.contract.and_then(|c| c.any_loop.as_ref()).map_or(false, |l| l.spec.contains("$it"));
                let times = self.contract.and_then(|c| c.unroll);
                if let (true, Some(n), None, Expr::Range(ExprRange { start: Some(lo), limits: RangeLimits::HalfOpen(_), end: Some(hi), .. })) = (plain, times, &counter, peel(&src)) {
                    // a range with a bounded length: a counter, unrolled
                    let (l, h) = (format_ident!("__lo{}", self.fresh), format_ident!("__hi{}", self.fresh));
                    let mut body = f.body.clone();
                    self.block(&mut body);
                    let mut x: Expr = parse_quote!(if #it < #h { crate::vpre::v_unwind() });
                    for _ in 0..n {
                        x = parse_quote!(if #it < #h { let #pat = #it; #it += 1; #body #x });
                    }
                    *e = parse_quote!({ let #h = #hi; let #l = #lo; let mut #it = if false { #h } else { #l }; #x });
                    return;
                }
                if let (true, None, Expr::Range(ExprRange { start: Some(lo), limits: RangeLimits::HalfOpen(_), end: Some(hi), .. })) = (plain, times, peel(&src)) {
                    // a range without an invariant of its own: a counter
                    let (lo, hi) = (lo.clone(), hi.clone());
                    let depth = self.scope.len();
                    let (l, h) = (format_ident!("__lo{}", self.fresh), format_ident!("__hi{}", self.fresh));
                    if counter.is_some() {
                        self.lost.push("enumerate over a range".into());
                    }
                    let k = self.count;
                    self.count += 1;
                    let (inv, bm, before, after) = self.loop_mark(k, Some((format!("{l} <= {it}, {it} <= {h} || {it} == {l},\n", l = l, it = it, h = h), format!("decreases {} - {},\n", h, it))));
                    let mut body = f.body.clone();
                    self.block(&mut body);
                    self.scope.truncate(depth);
                    *e = parse_quote!({ let #h = #hi; let #l = #lo; let mut #it = if false { #h } else { #l }; #(#before)* loop { #(#inv)* #(#bm)* if #it < #h { let #pat = #it; #it += 1; #body } else { break; } } #(#after)* });
                    return;
                }
                // what is counted by name, so that its length can be spoken of
                let mut src = src;
                let mut bound: Vec<Stmt> = vec![];
                if let (Some(_), Expr::MethodCall(m)) = (&counter, &mut src) {
                    if m.method == "iter" && matches!(peel(&m.receiver), Expr::MethodCall(_) | Expr::Call(_)) && crate::oracle::ty(&m.receiver).map_or(false, |t| t.starts_with('&')) {
                        let (s, r) = (format_ident!("__s{}", self.fresh), &m.receiver);
                        bound.push(parse_quote!(let #s = #r;));
                        m.receiver = Box::new(parse_quote!(#s));
                    }
                }
                let init = self.iter_init(&src);
                let is_chunks = matches!(&src, Expr::MethodCall(m) if m.method == "chunks");
                let ikey = init_key(&init);
                let unroll = self.contract.and_then(|c| c.unroll);
                let depth = self.scope.len();
                let _ = ikey;
                self.scope.push((it.to_string(), "it".into(), true));
                let mut cinit: Vec<Stmt> = vec![];
                let mut cstep: Vec<Stmt> = vec![];
                // one of the standard library's iterators, as far as is known
                let lib = crate::oracle::ty(&src).map_or(true, |t| ["std::", "core::", "alloc::", "&", "["].iter().any(|p| t.starts_with(p)));
                if let Some((c, p)) = &counter {
                    self.scope.push((c.to_string(), "int".into(), true));
                    cinit.push(parse_quote!(let mut #c: usize = 0;));
                    // the length of what is counted is a machine number
                    if let Expr::MethodCall(m) = &src {
                        if lib && m.method == "iter" && matches!(peel(&m.receiver), Expr::Path(_) | Expr::Field(_)) {
                            let r = &m.receiver;
                            cinit.push(parse_quote!(let _ = #r.len();));
                        }
                    }
                    cstep.push(parse_quote!(let #p = #c;));
                    cstep.push(parse_quote!(#c += 1;));
                }
                match unroll {
                    Some(n) => {
                        let mut body = f.body.clone();
                        self.block(&mut body);
                        // over part of an array or a slice: by its index
                        let part = match &src {
                            Expr::MethodCall(m) if m.method == "iter" => match peel(&m.receiver) {
                                Expr::Index(i) if matches!(peel(&i.index), Expr::Range(_)) => Some((*m.receiver).clone()),
                                _ => None,
                            },
                            _ => None,
                        };
                        if let (Some(s), true) = (part, plain) {
                            let mut x: Expr = parse_quote!(if #n < #it.len() { crate::vpre::v_unwind() });
                            for i in (0..n).rev() {
                                x = parse_quote!(if #i < #it.len() { let #pat = &#it[#i]; #(#cstep)* #body #x });
                            }
                            *e = parse_quote!({ let #it = &#s; #(#cinit)* #x });
                            self.scope.truncate(depth);
                            return;
                        }
                        let mut x: Expr = parse_quote!(match #it.next() { Some(_) => { crate::vpre::v_unwind() } None => {} });
                        for _ in 0..n {
                            x = parse_quote!(match #it.next() { Some(#pat) => { #(#cstep)* #body #x } None => {} });
                        }
                        *e = parse_quote!({ #(#bound)* let mut #it = #init; #(#cinit)* #x });
                    }
                    None => {
                        let k = self.count;
                        self.count += 1;
                        let (inv, bm, before, after) = self.loop_mark(k, Some(lib_facts(&it, is_chunks)));
                        let first = if lib { self.first_facts(&it, &f.body, counter.as_ref().map(|c| &c.0), is_chunks) } else { None };
                        let before: Vec<Stmt> = match first {
                            Some((b, t)) => {
                                self.add_inv(&inv, &t);
                                self.raw.texts.push(b);
                                let n = format_ident!("__VMARK_{}", self.raw.texts.len() - 1);
                                std::iter::once(parse_quote!(#n;)).chain(before).collect()
                            }
                            None => before,
                        };
                        let mut body = f.body.clone();
                        self.block(&mut body);
                        *e = parse_quote!({ #(#bound)* let mut #it = #init; #(#cinit)* #(#before)* loop { #(#inv)* #(#bm)* match #it.next() { Some(#pat) => { #(#cstep)* #body } None => { break; } } } #(#after)* });
                    }
                }
                self.scope.truncate(depth);
            }
            Expr::While(w) => {
                let unroll = self.contract.and_then(|c| c.unroll);
                self.expr(&mut w.cond);
                if let Expr::Let(l) = &*w.cond {
                    let (p, s) = ((*l.pat).clone(), (*l.expr).clone());
                    let k = self.count;
                    self.count += 1;
                    let (inv, bm, before, after) = self.loop_mark(k, None);
                    let depth = self.scope.len();
                    let mut names = BTreeSet::new();
                    crate::krate::locals_of_pat(&p, &mut names);
                    for n in names {
                        self.scope.push((n, "pat".into(), false));
                    }
                    let mut body = w.body.clone();
                    self.block(&mut body);
                    self.scope.truncate(depth);
                    *e = parse_quote!({ #(#before)* loop { #(#inv)* #(#bm)* match #s { #p => #body _ => { break; } } } #(#after)* });
                    return;
                }
                match unroll {
                    Some(n) => {
                        let mut body = w.body.clone();
                        self.block(&mut body);
                        let c = &w.cond;
                        let mut x: Expr = parse_quote!(if #c { crate::vpre::v_unwind() });
                        for _ in 0..n {
                            x = parse_quote!(if #c { #body #x });
                        }
                        *e = x;
                    }
                    None => {
                        let k = self.count;
                        self.count += 1;
                        let (inv, bm, before, after) = self.loop_mark(k, while_facts(&w.cond));
                        let c = (*w.cond).clone();
                        let mut body = w.body.clone();
                        self.block(&mut body);
                        // kept in `loop` form: the condition may call functions
                        *e = parse_quote!({ #(#before)* loop { #(#inv)* #(#bm)* if #c #body else { break; } } #(#after)* });
                    }
                }
            }
            Expr::Loop(l) => {
                let unroll = self.contract.and_then(|c| c.unroll);
                match unroll {
                    Some(n) => {
                        let mut body = l.body.clone();
                        self.block(&mut body);
                        let stmts: Vec<Stmt> = (0..n).map(|_| Stmt::Expr(Expr::Block(ExprBlock { attrs: vec![], label: None, block: body.clone() }), None)).collect();
                        *e = parse_quote!({ #(#stmts)* crate::vpre::v_unwind() });
                    }
                    None => {
                        let k = self.count;
                        self.count += 1;
                        let (inv, bm, before, after) = self.loop_mark(k, None);
                        let mut body = l.body.clone();
                        self.block(&mut body);
                        let stmts = &body.stmts;
                        let lp: Expr = parse_quote!(loop { #(#inv)* #(#bm)* #(#stmts)* });
                        if before.is_empty() && after.is_empty() {
                            *e = lp;
                        } else {
                            *e = parse_quote!({ #(#before)* #lp #(#after)* });
                        }
                    }
                }
            }
            other => {
                struct V<'b, 'a>(&'b mut Loops<'a>);
                impl<'b, 'a> VisitMut for V<'b, 'a> {
                    fn visit_expr_mut(&mut self, e: &mut Expr) {
                        self.0.expr(e)
                    }
                }
                let mut v = V(self);
                visit_mut::visit_expr_mut(&mut v, other);
            }
        }
    }
}

pub fn to_ts<T: ToTokens>(t: &T) -> TokenStream {
    quote!(#t)
}
