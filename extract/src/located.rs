//! Octets that are themselves rather than their values (C21): `[u8]` becomes `[Oct]`, a text
//! that may lie in the input becomes `Txt`, and every place that may hold an octet is read by
//! `Read::read`, which is the identity for plain values.
//!
//!   &[u8], &u8, Iter<u8>            &[Oct], &Oct, Iter<Oct>
//!   &str, &'a str (not 'static)     Txt<'_>, Txt<'a>
//!   s[i], *p  (as values)           Read::read(&s[i]), Read::read(p)
//!   the pattern &b                  b1, with let b = Read::read(b1)
//!   core::str::from_utf8            octets::from_utf8
//!
//! Formatting and printing are left out: they return no octets.
use crate::krate::Module;
use crate::lower::path_str;
use quote::format_ident;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub fn run(mods: &mut Vec<Module>) {
    mods.retain(|m| m.path != ["x509", "printer"] && m.path != ["der", "oid"] && m.path.first().map(|s| s.as_str()) != Some("decoder"));
    for m in mods.iter_mut() {
        m.items.retain(|i| match i {
            Item::Impl(im) => match &im.trait_ {
                Some((_, p, _)) => !matches!(p.segments.last().unwrap().ident.to_string().as_str(), "Display" | "LowerHex" | "UpperHex" | "Printable" | "LinePrinter"),
                None => true,
            },
            _ => true,
        });
        for i in m.items.iter_mut() {
            let mut l = Located::default();
            l.visit_item_mut(i);
        }
    }
}

/// plain values are read as they are
pub fn readable(n: &Ident, g: &Generics) -> String {
    let (ig, tg, wc) = g.split_for_impl();
    let t = quote::quote!(#n #tg).to_string();
    format!(
        "impl {} crate::octets::Read for {} {} {{ type Out = {}; open spec fn out(&self) -> {} {{ *self }} fn read(&self) -> (ret: {}) {{ *self }} }}",
        quote::quote!(#ig),
        t,
        quote::quote!(#wc),
        t,
        t,
        t
    )
}

#[derive(Default)]
struct Located {
    fresh: usize,
}

fn is_u8(t: &Type) -> bool {
    matches!(t, Type::Path(p) if p.path.is_ident("u8"))
}
fn oct() -> Type {
    parse_quote!(crate::octets::Oct)
}

fn literal_pat(p: &Pat) -> bool {
    match p {
        Pat::Lit(_) | Pat::Range(_) => true,
        Pat::Or(o) => o.cases.iter().any(literal_pat),
        Pat::Paren(p) => literal_pat(&p.pat),
        _ => false,
    }
}

fn range(e: &Expr) -> bool {
    match e {
        Expr::Range(_) => true,
        Expr::Paren(p) => range(&p.expr),
        _ => false,
    }
}

/// methods of a number, called on its place
fn of_number(m: &str) -> bool {
    m.starts_with("is_ascii")
        || m.starts_with("wrapping_")
        || m.starts_with("checked_")
        || m.starts_with("saturating_")
        || m.starts_with("overflowing_")
        || m.starts_with("leading_")
        || m.starts_with("trailing_")
        || m.starts_with("rotate_")
        || matches!(m, "count_ones" | "count_zeros" | "pow" | "min" | "max" | "into" | "clone" | "to_owned")
}

impl Located {
    fn read(e: Expr) -> Expr {
        parse_quote!(crate::octets::Read::read(#e))
    }

    /// an expression that names a place
    fn place(&mut self, e: &mut Expr) {
        match e {
            Expr::Index(i) => {
                self.place(&mut i.expr);
                self.visit_expr_mut(&mut i.index);
            }
            Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => self.visit_expr_mut(expr),
            Expr::Field(f) => self.place(&mut f.base),
            Expr::Paren(p) => self.place(&mut p.expr),
            e => self.visit_expr_mut(e),
        }
    }

    /// replaces `&x` in a pattern; the statements to go first where the names are used
    fn pattern(&mut self, p: &mut Pat, pre: &mut Vec<Stmt>) {
        struct P<'a>(&'a mut usize, &'a mut Vec<Stmt>);
        impl<'a> VisitMut for P<'a> {
            fn visit_pat_mut(&mut self, p: &mut Pat) {
                if let Pat::Reference(r) = p {
                    if let Pat::Ident(i) = &*r.pat {
                        if i.subpat.is_none() && i.by_ref.is_none() {
                            *self.0 += 1;
                            let n = format_ident!("__o{}", *self.0);
                            let x = &i.ident;
                            let mu = &i.mutability;
                            self.1.push(parse_quote!(let #mu #x = crate::octets::Read::read(#n);));
                            *p = parse_quote!(#n);
                            return;
                        }
                    }
                }
                visit_mut::visit_pat_mut(self, p);
            }
            fn visit_expr_mut(&mut self, _: &mut Expr) {}
        }
        P(&mut self.fresh, pre).visit_pat_mut(p);
    }
}

fn with(pre: Vec<Stmt>, e: &mut Expr) {
    if !pre.is_empty() {
        let x = e.clone();
        *e = parse_quote!({ #(#pre)* #x });
    }
}

fn first(pre: Vec<Stmt>, b: &mut Block) {
    for (k, s) in pre.into_iter().enumerate() {
        b.stmts.insert(k, s);
    }
}

impl VisitMut for Located {
    fn visit_type_mut(&mut self, t: &mut Type) {
        match t {
            Type::Slice(s) if is_u8(&s.elem) => *s.elem = oct(),
            Type::Reference(r) if is_u8(&r.elem) && r.mutability.is_none() => *r.elem = oct(),
            Type::Reference(r) if matches!(&*r.elem, Type::Path(p) if p.path.is_ident("str")) => match &r.lifetime {
                Some(l) if l.ident == "static" => {}
                Some(l) => *t = parse_quote!(crate::octets::Txt<#l>),
                None => *t = parse_quote!(crate::octets::Txt<'_>),
            },
            Type::Path(p) => {
                if let Some(s) = p.path.segments.last_mut() {
                    if matches!(s.ident.to_string().as_str(), "Iter" | "Chunks" | "Windows" | "ChunksExact") {
                        if let PathArguments::AngleBracketed(a) = &mut s.arguments {
                            for g in a.args.iter_mut() {
                                if let GenericArgument::Type(t) = g {
                                    if is_u8(t) {
                                        *t = oct();
                                    }
                                }
                            }
                        }
                    }
                }
                visit_mut::visit_type_mut(self, t)
            }
            t => visit_mut::visit_type_mut(self, t),
        }
    }

    fn visit_path_mut(&mut self, p: &mut Path) {
        match path_str(p).trim_start_matches("::") {
            "core::str::from_utf8" | "std::str::from_utf8" => *p = parse_quote!(crate::octets::from_utf8),
            _ => visit_mut::visit_path_mut(self, p),
        }
    }

    fn visit_local_mut(&mut self, l: &mut Local) {
        visit_mut::visit_local_mut(self, l);
    }

    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            self.visit_stmt_mut(&mut s);
            let mut pre = vec![];
            if let Stmt::Local(l) = &mut s {
                self.pattern(&mut l.pat, &mut pre);
            }
            out.push(s);
            out.extend(pre);
        }
        b.stmts = out;
    }

    fn visit_arm_mut(&mut self, a: &mut Arm) {
        visit_mut::visit_arm_mut(self, a);
        let mut pre = vec![];
        self.pattern(&mut a.pat, &mut pre);
        if let Some((_, g)) = &mut a.guard {
            with(pre.clone(), g);
        }
        with(pre, &mut a.body);
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let types = crate::oracle::types(e);
        let whole = types.as_ref().and_then(|t| t.last().cloned());
        if let (Expr::Path(_), Some(t)) = (&*e, &types) {
            // a reference to a text, passed as the text
            if t.first().map_or(false, |t| t == "&str") && t.last().map_or(false, |t| t == "&&str") {
                let x = e.clone();
                *e = parse_quote!((*#x));
                return;
            }
        }
        match e {
            Expr::Reference(r) => self.place(&mut r.expr),
            Expr::Assign(a) => {
                self.place(&mut a.left);
                self.visit_expr_mut(&mut a.right);
            }
            Expr::Binary(b)
                if matches!(
                    b.op,
                    BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_) | BinOp::DivAssign(_) | BinOp::RemAssign(_) | BinOp::BitXorAssign(_) | BinOp::BitAndAssign(_) | BinOp::BitOrAssign(_) | BinOp::ShlAssign(_) | BinOp::ShrAssign(_)
                ) =>
            {
                self.place(&mut b.left);
                self.visit_expr_mut(&mut b.right);
            }
            Expr::Field(f) => self.place(&mut f.base),
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if matches!(&*m.receiver, Expr::Paren(_) | Expr::Index(_) | Expr::Unary(_)) && of_number(&n) {
                    self.visit_expr_mut(&mut m.receiver);
                } else {
                    self.place(&mut m.receiver);
                }
                for a in m.args.iter_mut() {
                    self.visit_expr_mut(a);
                }
                if let Some(t) = &mut m.turbofish {
                    self.visit_angle_bracketed_generic_arguments_mut(t);
                }
                if (n == "copied" || n == "cloned") && m.args.is_empty() {
                    if let Expr::MethodCall(r) = &*m.receiver {
                        if matches!(r.method.to_string().as_str(), "first" | "last" | "get" | "next" | "peek" | "next_back") {
                            let r = &m.receiver;
                            *e = parse_quote!(crate::octets::Read::read(&#r));
                        }
                    }
                }
            }
            Expr::Index(i) => {
                self.place(&mut i.expr);
                self.visit_expr_mut(&mut i.index);
                if !range(&i.index) {
                    let x = e.clone();
                    *e = Self::read(parse_quote!(&#x));
                }
            }
            Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => {
                // not the place of one octet
                if let Some(t) = whole {
                    if t.starts_with('[') {
                        self.visit_expr_mut(expr);
                        return;
                    }
                }
                self.visit_expr_mut(expr);
                if !matches!(&**expr, Expr::Path(p) if p.path.is_ident("self")) {
                    let x = (**expr).clone();
                    *e = Self::read(x);
                }
            }
            Expr::Match(m) => {
                if m.arms.iter().any(|a| literal_pat(&a.pat)) || crate::oracle::ty(&m.expr).map_or(false, |t| t == "u8") {
                    self.visit_expr_mut(&mut m.expr);
                } else {
                    self.place(&mut m.expr);
                }
                for a in m.arms.iter_mut() {
                    self.visit_arm_mut(a);
                }
            }
            Expr::If(i) => {
                visit_mut::visit_expr_if_mut(self, i);
                if let Expr::Let(l) = &mut *i.cond {
                    let mut pre = vec![];
                    self.pattern(&mut l.pat, &mut pre);
                    first(pre, &mut i.then_branch);
                }
            }
            Expr::While(w) => {
                visit_mut::visit_expr_while_mut(self, w);
                if let Expr::Let(l) = &mut *w.cond {
                    let mut pre = vec![];
                    self.pattern(&mut l.pat, &mut pre);
                    first(pre, &mut w.body);
                }
            }
            Expr::ForLoop(f) => {
                visit_mut::visit_expr_for_loop_mut(self, f);
                let mut pre = vec![];
                self.pattern(&mut f.pat, &mut pre);
                first(pre, &mut f.body);
            }
            Expr::Let(l) => {
                self.place(&mut l.expr);
            }
            Expr::Closure(c) => {
                visit_mut::visit_expr_closure_mut(self, c);
                let mut pre = vec![];
                for p in c.inputs.iter_mut() {
                    self.pattern(p, &mut pre);
                }
                with(pre, &mut c.body);
            }
            e => visit_mut::visit_expr_mut(self, e),
        }
    }
}
