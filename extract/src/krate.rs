//! Loads the source files of a crate and resolves names to full paths.
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Module {
    pub path: Vec<String>,
    pub file: String,
    pub items: Vec<Item>,
    pub names: BTreeMap<String, Vec<String>>,
}

pub fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("test")
            || (a.path().is_ident("cfg") && {
                let s = quote::quote!(#a).to_string();
                s.contains("test") && !s.contains("not")
            })
    })
}

pub fn has_unknown_cfg(attrs: &[Attribute]) -> bool {
    attrs
        .iter()
        .any(|a| (a.path().is_ident("cfg") && !is_test(&[a.clone()])) || a.path().is_ident("cfg_attr"))
}

pub fn item_attrs(i: &Item) -> &[Attribute] {
    match i {
        Item::Const(x) => &x.attrs,
        Item::Enum(x) => &x.attrs,
        Item::Fn(x) => &x.attrs,
        Item::Impl(x) => &x.attrs,
        Item::Mod(x) => &x.attrs,
        Item::Static(x) => &x.attrs,
        Item::Struct(x) => &x.attrs,
        Item::Trait(x) => &x.attrs,
        Item::Type(x) => &x.attrs,
        Item::Use(x) => &x.attrs,
        Item::Macro(x) => &x.attrs,
        _ => &[],
    }
}

pub fn load(root: &Path, prefix: &[String], out: &mut Vec<Module>) -> std::result::Result<(), String> {
    let dir = root.parent().unwrap().to_path_buf();
    load_file(root, &dir, prefix.to_vec(), out)
}

fn load_file(file: &Path, dir: &Path, path: Vec<String>, out: &mut Vec<Module>) -> std::result::Result<(), String> {
    let text = std::fs::read_to_string(file).map_err(|e| format!("{}: {}", file.display(), e))?;
    let f = syn::parse_file(&text).map_err(|e| format!("{}: {}", file.display(), e))?;
    crate::oracle::note_file(&file.display().to_string(), &f);
    load_items(f.items, file, dir, path, out)
}

fn load_items(
    items: Vec<Item>,
    file: &Path,
    dir: &Path,
    path: Vec<String>,
    out: &mut Vec<Module>,
) -> std::result::Result<(), String> {
    let mut keep = vec![];
    let mut subs = vec![];
    for i in items {
        if is_test(item_attrs(&i)) {
            continue;
        }
        match i {
            Item::Mod(m) => subs.push(m),
            i => keep.push(i),
        }
    }
    out.push(Module {
        path: path.clone(),
        file: file.display().to_string(),
        items: keep,
        names: BTreeMap::new(),
    });
    for m in subs {
        let name = m.ident.to_string();
        let mut p = path.clone();
        p.push(name.clone());
        match m.content {
            Some((_, items)) => load_items(items, file, &dir.join(&name), p, out)?,
            None => {
                let a: PathBuf = dir.join(format!("{}.rs", name));
                let b: PathBuf = dir.join(&name).join("mod.rs");
                let f = if a.exists() { a } else { b };
                load_file(&f, &dir.join(&name), p, out)?;
            }
        }
    }
    Ok(())
}

fn own_name(i: &Item) -> Option<String> {
    Some(match i {
        Item::Const(x) => x.ident.to_string(),
        Item::Enum(x) => x.ident.to_string(),
        Item::Fn(x) => x.sig.ident.to_string(),
        Item::Static(x) => x.ident.to_string(),
        Item::Struct(x) => x.ident.to_string(),
        Item::Trait(x) => x.ident.to_string(),
        Item::Type(x) => x.ident.to_string(),
        _ => return None,
    })
}

fn flatten_use(t: &UseTree, pre: Vec<String>, out: &mut Vec<(String, Vec<String>)>) {
    match t {
        UseTree::Path(p) => {
            let mut v = pre;
            v.push(p.ident.to_string());
            flatten_use(&p.tree, v, out)
        }
        UseTree::Name(n) => {
            let s = n.ident.to_string();
            if s == "self" {
                out.push((pre.last().cloned().unwrap_or_default(), pre));
            } else {
                let mut v = pre;
                v.push(s.clone());
                out.push((s, v));
            }
        }
        UseTree::Rename(n) => {
            let mut v = pre;
            v.push(n.ident.to_string());
            out.push((n.rename.to_string(), v));
        }
        UseTree::Glob(_) => out.push(("*".into(), pre)),
        UseTree::Group(g) => {
            for t in &g.items {
                flatten_use(t, pre.clone(), out)
            }
        }
    }
}

/// modules live in a name space of their own, under `mod:name`
fn lookup<'a>(names: &'a BTreeMap<String, Vec<String>>, x: &str, more: bool) -> Option<&'a Vec<String>> {
    let m = format!("mod:{}", x);
    if more {
        names.get(&m).or_else(|| names.get(x))
    } else {
        names.get(x).or_else(|| names.get(&m))
    }
}

/// first segment `crate`, `self`, `super`, a crate name or a name known in `m`
fn absolutize(m: &Module, p: &[String], krate: &[(&str, &[String])]) -> Option<Vec<String>> {
    let mut base: Vec<String>;
    let mut i = 1;
    match p[0].as_str() {
        "crate" => {
            base = vec![];
            if m.path.first().map(|s| s.as_str()) == Some("decoder") {
                base.push("decoder".into());
            }
        }
        "self" => base = m.path.clone(),
        "super" => {
            base = m.path.clone();
            base.pop();
            while i < p.len() && p[i] == "super" {
                base.pop();
                i += 1;
            }
        }
        x => {
            if let Some((_, b)) = krate.iter().find(|(n, _)| *n == x) {
                base = b.to_vec();
            } else if let Some(b) = lookup(&m.names, x, p.len() > 1) {
                base = b.clone();
            } else {
                return None;
            }
        }
    }
    base.extend(p[i..].iter().cloned());
    Some(base)
}

/// canonical definition paths, through re-exports
pub fn resolve_names(mods: &mut Vec<Module>) {
    let krate: Vec<(&str, &[String])> = vec![("rx509", &[])];
    let index: BTreeMap<Vec<String>, usize> =
        mods.iter().enumerate().map(|(i, m)| (m.path.clone(), i)).collect();
    for k in 0..mods.len() {
        let mut names = BTreeMap::new();
        for i in &mods[k].items {
            if let Some(n) = own_name(i) {
                let mut p = mods[k].path.clone();
                p.push(n.clone());
                names.insert(n, p);
            }
        }
        let path = mods[k].path.clone();
        for m in mods.iter() {
            if m.path.len() == path.len() + 1 && m.path.starts_with(&path) {
                names.insert(format!("mod:{}", m.path.last().unwrap()), m.path.clone());
            }
        }
        mods[k].names = names;
    }
    for _ in 0..6 {
        for k in 0..mods.len() {
            let mut uses = vec![];
            for i in &mods[k].items {
                if let Item::Use(u) = i {
                    flatten_use(&u.tree, vec![], &mut uses);
                }
            }
            for (n, p) in uses {
                if p.is_empty() {
                    continue;
                }
                let abs = match absolutize(&mods[k], &p, &krate) {
                    Some(a) => {
                        // the same path may name a module as well
                        if n != "*" && index.contains_key(&a) {
                            mods[k].names.insert(format!("mod:{}", n), a.clone());
                        }
                        canon(mods, &index, a)
                    }
                    None => {
                        // a path of the standard library
                        if n != "*" && ["core", "std", "alloc"].contains(&p[0].as_str()) {
                            let mut q = vec!["::".to_string()];
                            q.extend(p);
                            mods[k].names.entry(n).or_insert(q);
                        }
                        continue;
                    }
                };
                if n == "*" {
                    if let Some(j) = index.get(&abs) {
                        let add: Vec<_> = mods[*j].names.iter().map(|(a, b)| (a.clone(), b.clone())).collect();
                        for (a, b) in add {
                            mods[k].names.entry(a).or_insert(b);
                        }
                    }
                } else {
                    if index.contains_key(&abs) {
                        mods[k].names.insert(format!("mod:{}", n), abs);
                    } else {
                        mods[k].names.insert(n, abs);
                    }
                }
            }
        }
    }
}

fn canon(mods: &[Module], index: &BTreeMap<Vec<String>, usize>, p: Vec<String>) -> Vec<String> {
    // find the longest module prefix, then look the next segment up in it
    for n in (0..p.len()).rev() {
        if let Some(k) = index.get(&p[..n].to_vec()) {
            if let Some(d) = lookup(&mods[*k].names, &p[n], p.len() > n + 1) {
                let mut r = d.clone();
                if r != p[..n + 1].to_vec() || true {
                    r.extend(p[n + 1..].iter().cloned());
                }
                return r;
            }
            return p;
        }
    }
    p
}

struct Locals(BTreeSet<String>, BTreeSet<String>);
impl<'a> syn::visit::Visit<'a> for Locals {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        self.0.insert(p.ident.to_string());
        syn::visit::visit_pat_ident(self, p);
    }
    fn visit_expr_closure(&mut self, c: &'a ExprClosure) {
        syn::visit::visit_expr_closure(self, c);
    }
}

pub struct Qualify<'a> {
    pub names: &'a BTreeMap<String, Vec<String>>,
    pub mods: &'a [Module],
    pub index: &'a BTreeMap<Vec<String>, usize>,
    pub module: &'a Module,
    pub locals: BTreeSet<String>,
    pub params: BTreeSet<String>,
    pub generics: BTreeSet<String>,
    pub self_ty: Option<Type>,
}

fn seg_path(p: &[String]) -> (bool, Vec<String>) {
    if p[0] == "::" {
        (false, p[1..].to_vec())
    } else {
        (true, p.to_vec())
    }
}

impl<'a> Qualify<'a> {
    fn qualify(&self, p: &mut Path_) {
        if p.leading_colon.is_some() {
            return;
        }
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        let first = segs[0].clone();
        if self.generics.contains(&first) || first == "Self" || (first == "crate" && segs.get(1).map_or(false, |s| s == "vpre")) {
            return;
        }
        // a primitive type, not the module of its name
        if segs.len() == 1 && (first == "str" || first == "char" || crate::oracle::is_int(&first)) {
            return;
        }
        let krate: Vec<(&str, &[String])> = vec![("rx509", &[])];
        let head_abs: Option<Vec<String>> = match first.as_str() {
            "crate" | "self" | "super" | "rx509" if segs.len() > 1 => {
                absolutize(self.module, &segs, &krate).map(|a| canon(self.mods, self.index, a))
            }
            _ => lookup(self.names, &first, segs.len() > 1).map(|b| {
                if b[0] == "::" {
                    let mut r = b.clone();
                    r.extend(segs[1..].iter().cloned());
                    r
                } else {
                    let mut r = b.clone();
                    r.extend(segs[1..].iter().cloned());
                    canon(self.mods, self.index, r)
                }
            }),
        };
        let abs = match head_abs {
            Some(a) => a,
            None => return,
        };
        let (in_crate, abs) = seg_path(&abs);
        // keep the generic arguments of the trailing segments
        let args: Vec<PathArguments> = p.segments.iter().map(|s| s.arguments.clone()).collect();
        let mut segments: punctuated::Punctuated<PathSegment, Token![::]> = Default::default();
        if in_crate {
            segments.push(PathSegment::from(Ident::new("crate", proc_macro2::Span::call_site())));
        }
        for s in &abs {
            segments.push(PathSegment::from(Ident::new(s, proc_macro2::Span::call_site())));
        }
        let n = segments.len();
        // where it stood
        let spans: Vec<proc_macro2::Span> = p.segments.iter().map(|s| s.ident.span()).collect();
        for (k, s) in segments.iter_mut().rev().enumerate() {
            s.ident.set_span(spans[spans.len().saturating_sub(k + 1)]);
        }
        for (k, a) in args.into_iter().rev().enumerate() {
            if k < n {
                segments[n - 1 - k].arguments = a;
            }
        }
        p.segments = segments;
    }
}

type Path_ = syn::Path;

impl<'a> VisitMut for Qualify<'a> {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        self.qualify(p);
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_expr_call_mut(&mut self, c: &mut ExprCall) {
        if let Expr::Path(p) = &mut *c.func {
            if p.qself.is_none() && p.path.segments.len() == 1 {
                let n = p.path.segments[0].ident.to_string();
                if !self.params.contains(&n) {
                    self.qualify(&mut p.path);
                    visit_mut::visit_path_arguments_mut(self, &mut p.path.segments.last_mut().unwrap().arguments);
                }
                for a in c.args.iter_mut() {
                    self.visit_expr_mut(a);
                }
                return;
            }
        }
        visit_mut::visit_expr_call_mut(self, c);
    }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.qself.is_none() && p.path.segments.len() == 1 {
            let n = p.path.segments[0].ident.to_string();
            if self.locals.contains(&n) {
                return;
            }
        }
        visit_mut::visit_expr_path_mut(self, p);
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        self.visit_expr_mut(&mut f.expr);
    }
    fn visit_attribute_mut(&mut self, _: &mut Attribute) {}
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        visit_mut::visit_pat_mut(self, p);
    }
}

pub fn locals_of(b: &Block) -> BTreeSet<String> {
    let mut l = Locals(Default::default(), Default::default());
    syn::visit::Visit::visit_block(&mut l, b);
    l.0
}
pub fn locals_of_pat(p: &Pat, out: &mut BTreeSet<String>) {
    let mut l = Locals(Default::default(), Default::default());
    syn::visit::Visit::visit_pat(&mut l, p);
    out.extend(l.0);
}

thread_local! {
    static ALIASES: std::cell::RefCell<std::collections::HashMap<String, String>> = Default::default();
}

/// the errors of the aliases of `Result`
pub fn note_aliases(path: &[String], items: &[Item]) {
    use quote::ToTokens;
    for i in items {
        if let Item::Type(t) = i {
            if let Type::Path(p) = &*t.ty {
                let l = p.path.segments.last().unwrap();
                if let (true, PathArguments::AngleBracketed(a)) = (l.ident == "Result", &l.arguments) {
                    if let (2, Some(GenericArgument::Type(e))) = (a.args.len(), a.args.last()) {
                        let own: BTreeSet<String> = t.generics.params.iter().filter_map(|g| match g {
                            GenericParam::Type(x) => Some(x.ident.to_string()),
                            _ => None,
                        }).collect();
                        let e = e.to_token_stream().to_string();
                        if !e.split(' ').any(|w| own.contains(w)) {
                            let mut k = vec!["crate".to_string()];
                            k.extend(path.iter().cloned());
                            k.push(t.ident.to_string());
                            ALIASES.with(|m| m.borrow_mut().insert(k.join("::"), e));
                        }
                    }
                }
            }
        }
    }
}

/// the error of a `Result`, by its name or that of an alias
pub fn result_error(t: &Type) -> Option<String> {
    use quote::ToTokens;
    let p = match t {
        Type::Path(p) if p.qself.is_none() => &p.path,
        _ => return None,
    };
    let l = p.segments.last()?;
    if let (true, PathArguments::AngleBracketed(a)) = (l.ident == "Result", &l.arguments) {
        let a: Vec<&GenericArgument> = a.args.iter().filter(|a| matches!(a, GenericArgument::Type(_))).collect();
        if let (2, Some(GenericArgument::Type(e))) = (a.len(), a.last()) {
            return Some(e.to_token_stream().to_string());
        }
    }
    let k: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
    ALIASES.with(|m| m.borrow().get(&k.join("::")).cloned())
}
