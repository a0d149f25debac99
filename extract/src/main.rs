//! Reads the crate's sources, lowers them by fixed rules, inserts the contracts and
//! emits one Verus file plus a map from its lines back to the functions.
mod contracts;
mod early;
mod inline;
mod krate;
mod located;
mod lower;
mod macros;
mod oracle;
mod printer;
mod world;

use contracts::{Contract, Contracts};
use inline::{FnInfo, Inliner};
use krate::Module;
use lower::*;
use printer::Raw;
use quote::{format_ident, quote};
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path as FsPath;
use syn::visit_mut::{self, VisitMut};
use syn::*;

static FIELDS: std::sync::OnceLock<BTreeMap<(String, String), String>> = std::sync::OnceLock::new();

struct Args {
    repo: String,
    contracts: String,
    spec: String,
    out: String,
    map: String,
    skip: BTreeSet<String>,
    drop: BTreeSet<String>,
    nomain: bool,
    located: bool,
    types: String,
}

// put `assert(false)` at the start of every body: it must fail everywhere
static SMOKE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

fn args() -> Args {
    let mut a = Args {
        repo: "/repo".into(),
        contracts: "/verif/contracts".into(),
        spec: "/verif/spec".into(),
        out: "/dev/stdout".into(),
        map: "/dev/null".into(),
        skip: Default::default(),
        drop: Default::default(),
        nomain: false,
        located: false,
        types: String::new(),
    };
    let v: Vec<String> = std::env::args().collect();
    let mut i = 1;
    while i + 1 < v.len() {
        let x = v[i + 1].clone();
        match v[i].as_str() {
            "--repo" => a.repo = x,
            "--contracts" => a.contracts = x,
            "--spec" => a.spec = x,
            "--out" => a.out = x,
            "--map" => a.map = x,
            "--skip" => a.skip = x.split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect(),
            "--drop" => a.drop = x.split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect(),
            "--nomain" => a.nomain = x == "1",
            "--types" => a.types = x,
            "--located" => a.located = x == "1",
            "--smoke" => SMOKE.store(x == "1", std::sync::atomic::Ordering::Relaxed),
            y => panic!("argument {}", y),
        }
        i += 2;
    }
    a
}

fn type_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Reference(r) => format!("ref_{}", type_name(&r.elem)),
        Type::Slice(s) => format!("slice_{}", type_name(&s.elem)),
        _ => "type".into(),
    }
}

/// strips attributes we drop (docs, lints)
struct StripAttrs;
impl VisitMut for StripAttrs {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.retain(|x| x.path().is_ident("derive"));
    }
}

/// hoists functions nested in function bodies
fn hoist(prefix: &str, block: &mut Block, out: &mut Vec<Item>, consts: &mut Vec<(String, Type, Expr)>) {
    struct H<'a> {
        prefix: String,
        out: &'a mut Vec<Item>,
        consts: &'a mut Vec<(String, Type, Expr)>,
        map: BTreeMap<String, Ident>,
    }
    impl<'a> VisitMut for H<'a> {
        fn visit_block_mut(&mut self, b: &mut Block) {
            let mut keep = vec![];
            for s in std::mem::take(&mut b.stmts) {
                match s {
                    Stmt::Item(Item::Fn(mut f)) => {
                        let name = f.sig.ident.to_string();
                        let new = format!("{}__{}", self.prefix, name);
                        let mut inner = vec![];
                        hoist(&new, &mut f.block, &mut inner, self.consts);
                        let nid = id(&new);
                        f.sig.ident = nid.clone();
                        self.map.insert(name, nid);
                        self.out.push(Item::Fn(f));
                        self.out.extend(inner);
                    }
                    Stmt::Item(Item::Const(c)) => {
                        let new = format!("{}__{}", self.prefix, c.ident);
                        self.map.insert(c.ident.to_string(), id(&new));
                        self.consts.push((new, (*c.ty).clone(), (*c.expr).clone()));
                    }
                    s => keep.push(s),
                }
            }
            b.stmts = keep;
            visit_mut::visit_block_mut(self, b);
        }
    }
    let mut h = H {
        prefix: prefix.to_string(),
        out,
        consts,
        map: BTreeMap::new(),
    };
    h.visit_block_mut(block);
    let map = h.map;
    struct R<'b>(&'b BTreeMap<String, Ident>);
    impl<'b> VisitMut for R<'b> {
        fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
            if p.path.segments.len() == 1 {
                if let Some(n) = self.0.get(&p.path.segments[0].ident.to_string()) {
                    p.path.segments[0].ident = n.clone();
                }
            }
        }
        fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
            if let Some(n) = self.0.get(&p.ident.to_string()) {
                if p.ident.to_string().chars().all(|c| c.is_uppercase() || c == '_' || c.is_numeric()) {
                    p.ident = n.clone();
                }
            }
        }
    }
    R(&map).visit_block_mut(block);
    let hoisted: Vec<String> = map.values().map(|v| v.to_string()).collect();
    for i in out.iter_mut() {
        if let Item::Fn(f) = i {
            if hoisted.contains(&f.sig.ident.to_string()) {
                R(&map).visit_block_mut(&mut f.block);
            }
        }
    }
    for (_, _, e) in consts.iter_mut() {
        R(&map).visit_expr_mut(e);
    }
}

/// standard formatting types become the model of the formatter
struct FmtTypes;
impl VisitMut for FmtTypes {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            let s = path_str(&p.path);
            let s = s.trim_start_matches("::");
            match s.replace("std::", "core::").as_str() {
                "core::fmt::Result" => *t = parse_quote!(core::result::Result<(), crate::vpre::FmtError>),
                "core::fmt::Error" => *t = parse_quote!(crate::vpre::FmtError),
                "core::fmt::Formatter" => *t = parse_quote!(crate::vpre::Fmt),
                "core::fmt::Arguments" => *t = parse_quote!(crate::vpre::Args),
                _ => {}
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
}

fn derives(attrs: &[Attribute]) -> Vec<String> {
    let mut v = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|m| {
                v.push(m.path.segments.last().unwrap().ident.to_string());
                Ok(())
            });
        }
    }
    v
}

fn strip_vis(attrs: &mut Vec<Attribute>) {
    attrs.clear();
}

struct Emit {
    text: String,
    fns: Vec<Entry>,
}

struct Entry {
    key: String,
    start: usize,
    end: usize,
    contracted: bool,
    skipped: bool,
    lost: Vec<String>,
    file: String,
    line: usize,
    inlined: Vec<String>,
    shape: Vec<String>,
}

impl Emit {
    fn line(&self) -> usize {
        self.text.matches('\n').count() + 1
    }
    fn push(&mut self, s: &str) {
        self.text.push_str(s);
        self.text.push('\n');
    }
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn json_list(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(","))
}

fn main() {
    let a = args();
    if let Err(e) = run(&a) {
        eprintln!("extract: {}", e);
        std::process::exit(3);
    }
}

fn run(a: &Args) -> std::result::Result<(), String> {
    let mut contracts: Contracts = Default::default();
    contracts::load(&a.contracts, &mut contracts);
    let mut notes: Vec<String> = vec![];

    // 1. sources
    oracle::load(&a.repo, &a.types);
    let mut mods: Vec<Module> = vec![];
    krate::load(&FsPath::new(&a.repo).join("rx509/src/lib.rs"), &[], &mut mods)?;
    let mp = FsPath::new(&a.repo).join("decoder/src/main.rs");
    let dp = FsPath::new(&a.repo).join("decoder/src/der_printer.rs");
    let with_main = mp.exists() && !a.nomain && !a.located;
    if with_main {
        krate::load(&mp, &["decoder".into()], &mut mods)?;
    } else if dp.exists() {
        mods.push(Module {
            path: vec!["decoder".into()],
            file: String::new(),
            items: vec![],
            names: Default::default(),
        });
        krate::load(&dp, &["decoder".into(), "der_printer".into()], &mut mods)?;
    }

    // 1a. the crate's own macros
    macros::run(&mut mods);

    // 2.-4. strip, hoist, macros
    let mut consts_raw: BTreeMap<Vec<String>, Vec<(String, Type, Expr)>> = BTreeMap::new();
    let mut unsupported: Vec<(String, String)> = vec![];
    for m in mods.iter_mut() {
        let mut out: Vec<Item> = vec![];
        let mut consts = vec![];
        for mut i in std::mem::take(&mut m.items) {
            // lines must be read before anything is rewritten
            match &mut i {
                Item::Fn(f) => {
                    let n = f.sig.ident.to_string();
                    hoist(&n, &mut f.block, &mut out, &mut consts);
                }
                Item::Impl(im) => {
                    let t = type_name(&im.self_ty);
                    im.items.retain(|x| match x {
                        ImplItem::Fn(f) => !krate::is_test(&f.attrs),
                        _ => true,
                    });
                    for x in im.items.iter_mut() {
                        if let ImplItem::Fn(f) = x {
                            let n = format!("{}__{}", t, f.sig.ident);
                            hoist(&n, &mut f.block, &mut out, &mut consts);
                        }
                    }
                }
                _ => {}
            }
            out.push(i);
        }
        for i in out.iter_mut() {
            let mut mac = Macros { fresh: 0, errors: vec![], io: m.path == ["decoder"] };
            let mut errs: Vec<(String, Vec<String>)> = vec![];
            match i {
                Item::Fn(f) => {
                    mac.visit_block_mut(&mut f.block);
                    errs.push((f.sig.ident.to_string(), std::mem::take(&mut mac.errors)));
                }
                Item::Impl(im) => {
                    let t = type_name(&im.self_ty);
                    for x in im.items.iter_mut() {
                        if let ImplItem::Fn(f) = x {
                            mac.visit_block_mut(&mut f.block);
                            errs.push((format!("{}::{}", t, f.sig.ident), std::mem::take(&mut mac.errors)));
                        }
                    }
                }
                Item::Macro(mm) => {
                    notes.push(format!("macro item {} in {}", path_str(&mm.mac.path), m.path.join("::")));
                }
                _ => {}
            }
            for (k, e) in errs {
                for x in e {
                    unsupported.push((format!("{}::{}", m.path.join("::"), k), x));
                }
            }
            StripAttrs.visit_item_mut(i);
        }
        m.items = out;
        consts_raw.insert(m.path.clone(), consts);
    }

    // 5. names
    for m in mods.iter_mut() {
        for (n, t, e) in consts_raw.remove(&m.path).unwrap_or_default() {
            let i = id(&n);
            m.items.push(parse_quote!(const #i: #t = #e;));
        }
    }
    krate::resolve_names(&mut mods);
    let index: BTreeMap<Vec<String>, usize> = mods.iter().enumerate().map(|(i, m)| (m.path.clone(), i)).collect();
    let mut new_items: Vec<Vec<Item>> = vec![];
    for m in &mods {
        let mut items = m.items.clone();
        for i in items.iter_mut() {
            if let Item::Use(_) = i {
                continue;
            }
            let generics_of = |g: &Generics| -> BTreeSet<String> { g.type_params().map(|t| t.ident.to_string()).collect() };
            let mk = |locals: BTreeSet<String>, params: BTreeSet<String>, generics: BTreeSet<String>| krate::Qualify {
                names: &m.names,
                mods: &mods,
                index: &index,
                module: m,
                locals,
                params,
                generics,
                self_ty: None,
            };
            let params_of = |s: &Signature| -> BTreeSet<String> {
                let mut v = BTreeSet::new();
                for i in &s.inputs {
                    if let FnArg::Typed(t) = i {
                        krate::locals_of_pat(&t.pat, &mut v);
                    }
                }
                v
            };
            match &mut *i {
                Item::Fn(f) => {
                    let p = params_of(&f.sig);
                    let mut l = krate::locals_of(&f.block);
                    l.extend(p.clone());
                    let mut q = mk(l, p, generics_of(&f.sig.generics));
                    q.visit_signature_mut(&mut f.sig);
                    q.visit_block_mut(&mut f.block);
                }
                Item::Impl(im) => {
                    let g = generics_of(&im.generics);
                    let mut q = mk(Default::default(), Default::default(), g.clone());
                    q.visit_type_mut(&mut im.self_ty);
                    q.visit_generics_mut(&mut im.generics);
                    if let Some((_, p, _)) = &mut im.trait_ {
                        q.visit_path_mut(p);
                    }
                    for x in im.items.iter_mut() {
                        match x {
                            ImplItem::Fn(f) => {
                                let p = params_of(&f.sig);
                                let mut l = krate::locals_of(&f.block);
                                l.extend(p.clone());
                                let mut gg = g.clone();
                                gg.extend(generics_of(&f.sig.generics));
                                let mut q = mk(l, p, gg);
                                q.visit_signature_mut(&mut f.sig);
                                q.visit_block_mut(&mut f.block);
                            }
                            x => {
                                let mut q = mk(Default::default(), Default::default(), g.clone());
                                q.visit_impl_item_mut(x);
                            }
                        }
                    }
                }
                x => {
                    let mut q = mk(Default::default(), Default::default(), Default::default());
                    q.visit_item_mut(x);
                }
            }
            FmtTypes.visit_item_mut(i);
        }
        new_items.push(items);
    }
    for (m, i) in mods.iter_mut().zip(new_items) {
        m.items = i;
    }

    // 6. constants
    let mut ctable: BTreeMap<String, (Type, Expr)> = BTreeMap::new();
    for m in &mods {
        let base = {
            let mut v = vec!["crate".to_string()];
            v.extend(m.path.iter().cloned());
            v.join("::")
        };
        for i in &m.items {
            match i {
                Item::Const(c) => {
                    ctable.insert(format!("{}::{}", base, c.ident), ((*c.ty).clone(), (*c.expr).clone()));
                }
                Item::Impl(im) if im.trait_.is_none() => {
                    let t = type_name(&im.self_ty);
                    for x in &im.items {
                        if let ImplItem::Const(c) = x {
                            let v = (c.ty.clone(), c.expr.clone());
                            ctable.insert(format!("{}::{}::{}", base, t, c.ident), v);
                        }
                    }
                }
                _ => {}
            }
        }
    }
    for m in mods.iter_mut() {
        let base = {
            let mut v = vec!["crate".to_string()];
            v.extend(m.path.iter().cloned());
            v.join("::")
        };
        for i in m.items.iter_mut() {
            match i {
                Item::Fn(f) => {
                    early::Literals::default().visit_block_mut(&mut f.block);
                    Consts { table: &ctable, self_ty: None, depth: 0 }.visit_block_mut(&mut f.block);
                    let mut p = Patterns { fresh: 0, by_value: false, errors: vec![] };
                    p.visit_block_mut(&mut f.block);
                    for e in p.errors {
                        unsupported.push((format!("{}::{}", m.path.join("::"), f.sig.ident), e));
                    }
                }
                Item::Impl(im) => {
                    let t = type_name(&im.self_ty);
                    for x in im.items.iter_mut() {
                        if let ImplItem::Fn(f) = x {
                            early::Literals::default().visit_block_mut(&mut f.block);
                            Consts { table: &ctable, self_ty: Some(format!("{}::{}", base, t)), depth: 0 }.visit_block_mut(&mut f.block);
                            let mut p = Patterns { fresh: 0, by_value: false, errors: vec![] };
                            p.visit_block_mut(&mut f.block);
                            for e in p.errors {
                                unsupported.push((format!("{}::{}::{}", m.path.join("::"), t, f.sig.ident), e));
                            }
                        }
                    }
                }
                _ => {}
            }
        }
    }

    // 6a. adapters
    let tops: BTreeSet<String> = mods.iter().filter(|m| m.path.len() == 1 && m.path[0] != "decoder").map(|m| m.path[0].clone()).collect();
    for m in &mods {
        krate::note_aliases(&m.path, &m.items);
    }
    for m in mods.iter_mut() {
        early::run(&mut m.items, &tops);
    }

    // 7. `impl Iterator` becomes an inherent `next`
    for m in mods.iter_mut() {
        for i in m.items.iter_mut() {
            if let Item::Impl(im) = i {
                let is_iter = im.trait_.as_ref().map_or(false, |t| t.1.segments.last().unwrap().ident == "Iterator");
                if is_iter {
                    let mut item: Option<Type> = None;
                    im.items.retain(|x| match x {
                        ImplItem::Type(t) => {
                            if t.ident == "Item" {
                                item = Some(t.ty.clone());
                            }
                            false
                        }
                        _ => true,
                    });
                    struct It(Type);
                    impl VisitMut for It {
                        fn visit_type_mut(&mut self, t: &mut Type) {
                            if let Type::Path(p) = t {
                                if path_str(&p.path) == "Self::Item" {
                                    *t = self.0.clone();
                                    return;
                                }
                            }
                            visit_mut::visit_type_mut(self, t);
                        }
                    }
                    if let Some(t) = item {
                        It(t).visit_item_impl_mut(im);
                    }
                    im.trait_ = None;
                }
            }
        }
    }

    if a.located {
        located::run(&mut mods);
    }

    // the fields' types, to find the methods called on them
    let mut fields: BTreeMap<(String, String), String> = BTreeMap::new();
    for m in &mods {
        for i in &m.items {
            if let Item::Struct(s) = i {
                let mut p = vec!["crate".to_string()];
                p.extend(m.path.iter().cloned());
                p.push(s.ident.to_string());
                let p = p.join("::");
                for (k, f) in s.fields.iter().enumerate() {
                    let n = f.ident.as_ref().map(|i| i.to_string()).unwrap_or(k.to_string());
                    if let Some(t) = inline::type_path(&f.ty, Some(&p)) {
                        fields.insert((p.clone(), n), t);
                    }
                }
            }
        }
    }
    let _ = FIELDS.set(fields);

    // 8. the table of functions
    let mut fns: BTreeMap<String, FnInfo> = BTreeMap::new();
    let mut methods: BTreeMap<String, Vec<String>> = BTreeMap::new();
    let mut trait_methods: BTreeSet<String> = BTreeSet::new();
    let unsup = |k: &str| unsupported.iter().any(|(x, _)| x == k);
    for m in &mods {
        for i in &m.items {
            match i {
                Item::Fn(f) => {
                    let key = format!("{}::{}", m.path.join("::"), f.sig.ident);
                    fns.insert(
                        format!("crate::{}", key),
                        FnInfo {
                            contracted: contracts.contains_key(&key) && !a.drop.contains(&key),
                            inlineable: !unsup(&key),
                            path: format!("crate::{}", key),
                            key,
                            module: m.path.clone(),
                            self_ty: None,
                            impl_generics: Default::default(),
                            sig: f.sig.clone(),
                            block: (*f.block).clone(),
                            line: f.sig.ident.span().start().line,
                            file: m.file.clone(),
                        },
                    );
                }
                Item::Impl(im) if im.trait_.is_none() => {
                    for x in &im.items {
                        if let ImplItem::Fn(f) = x {
                            let key = format!("{}::{}::{}", m.path.join("::"), type_name(&im.self_ty), f.sig.ident);
                            let path = format!("crate::{}", key);
                            if matches!(f.sig.inputs.first(), Some(FnArg::Receiver(_))) {
                                methods.entry(f.sig.ident.to_string()).or_default().push(path.clone());
                            }
                            fns.insert(
                                path.clone(),
                                FnInfo {
                                    contracted: contracts.contains_key(&key) && !a.drop.contains(&key),
                                    inlineable: !unsup(&key),
                                    path,
                                    key,
                                    module: m.path.clone(),
                                    self_ty: Some((*im.self_ty).clone()),
                                    impl_generics: im.generics.clone(),
                                    sig: f.sig.clone(),
                                    block: f.block.clone(),
                                    line: f.sig.ident.span().start().line,
                                    file: m.file.clone(),
                                },
                            );
                        }
                    }
                }
                Item::Trait(t) => {
                    for x in &t.items {
                        if let TraitItem::Fn(f) = x {
                            trait_methods.insert(f.sig.ident.to_string());
                        }
                    }
                }
                _ => {}
            }
        }
    }

    // 9. emission
    let mut e = Emit { text: String::new(), fns: vec![] };
    e.push("#![allow(unused_imports, unused_variables, unused_mut, dead_code, unreachable_code, unused_parens, unused_braces, non_snake_case, non_camel_case_types, unused_must_use, unused_assignments, unused_doc_comments, mismatched_lifetime_syntaxes, unreachable_patterns)]");
    e.push("use vstd::prelude::*;");
    e.push("verus! {");
    e.push("global size_of usize == 8;");
    for (m, f) in [("octets", "octets.rs"), ("vpre", "vpre.rs"), ("bits", "bits.rs"), ("ints", "ints.rs"), ("spec", "spec.rs"), ("lemmas", "lemmas.rs"), ("props", "props.rs"), ("world", "world.rs")] {
        if m == "world" && !with_main {
            continue;
        }
        let dir = if m == "spec" { &a.spec } else { &a.contracts };
        let f = match m {
            "octets" if a.located => "located.rs",
            "props" if a.located => "props_located.rs",
            _ => f,
        };
        let p = format!("{}/{}", dir, f);
        let t = std::fs::read_to_string(&p).map_err(|x| format!("{}: {}", p, x))?;
        let start = e.line();
        e.push(&format!("pub mod {} {{", m));
        e.push(&t);
        e.push("}");
        e.fns.push(Entry {
            key: format!("@{}", m),
            start,
            end: e.line(),
            contracted: false,
            skipped: false,
            lost: vec![],
            file: p,
            line: 0,
            inlined: vec![],
            shape: vec![],
        });
    }
    let mut used: BTreeSet<String> = BTreeSet::new();
    let traits: Vec<String> = mods
        .iter()
        .flat_map(|m| {
            m.items.iter().filter_map(move |i| match i {
                Item::Trait(t) => {
                    let mut p = m.path.clone();
                    p.push(t.ident.to_string());
                    Some(format!("crate::{}", p.join("::")))
                }
                _ => None,
            })
        })
        .collect();
    emit_modules(&mods, &[], &mut e, &contracts, &fns, &methods, &trait_methods, &traits, a, &unsupported, &mut used, &mut notes);
    e.push("} // verus!");
    e.push("fn main() {}");
    std::fs::write(&a.out, &e.text).map_err(|x| x.to_string())?;

    // the map
    let mut j = String::from("{\n\"functions\": [\n");
    for (k, f) in e.fns.iter().enumerate() {
        j.push_str(&format!(
            "{{\"key\": {}, \"start\": {}, \"end\": {}, \"contracted\": {}, \"skipped\": {}, \"lost\": {}, \"file\": {}, \"line\": {}, \"inlined\": {}, \"loops\": {}, \"props\": {}}}{}\n",
            json_str(&f.key),
            f.start,
            f.end,
            f.contracted,
            f.skipped,
            json_list(&f.lost),
            json_str(&f.file),
            f.line,
            json_list(&f.inlined),
            json_list(&f.shape),
            json_list(&contracts.get(&f.key).map(|c| c.props.clone()).unwrap_or_default()),
            if k + 1 == e.fns.len() { "" } else { "," }
        ));
    }
    j.push_str("],\n");
    let inlined_all: BTreeSet<String> = e.fns.iter().flat_map(|f| f.inlined.iter().cloned()).collect();
    let uncontracted: Vec<String> = fns
        .values()
        .filter(|f| !f.contracted && !inlined_all.contains(&f.key))
        .map(|f| f.key.clone())
        .collect();
    let missing: Vec<String> = contracts
        .keys()
        .filter(|k| !used.contains(*k) && !a.drop.contains(*k))
        .cloned()
        .collect();
    j.push_str(&format!(
        "\"inlined\": {},\n\"not_under_contract\": {},\n\"missing\": {},\n\"unsupported\": {},\n\"notes\": {}\n}}\n",
        json_list(&inlined_all.into_iter().collect::<Vec<_>>()),
        json_list(&uncontracted),
        json_list(&missing),
        json_list(&unsupported.iter().map(|(k, v)| format!("{}: {}", k, v)).collect::<Vec<_>>()),
        json_list(&notes)
    ));
    std::fs::write(&a.map, j).map_err(|x| x.to_string())?;
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn emit_modules(
    mods: &[Module],
    at: &[String],
    e: &mut Emit,
    contracts: &Contracts,
    fns: &BTreeMap<String, FnInfo>,
    methods: &BTreeMap<String, Vec<String>>,
    trait_methods: &BTreeSet<String>,
    traits: &[String],
    a: &Args,
    unsupported: &[(String, String)],
    used: &mut BTreeSet<String>,
    notes: &mut Vec<String>,
) {
    if let Some(m) = mods.iter().find(|m| m.path == at) {
        if !at.is_empty() {
            e.push("use vstd::prelude::*;");
            e.push("use crate::spec;");
            e.push("use crate::vpre::VDisplay;");
            e.push("use vstd::std_specs::iter::IteratorSpec;");
            e.push("broadcast use {crate::lemmas::group_all, crate::bits::group_bits, crate::octets::group_eq};");
            for t in traits {
                if !t.starts_with(&format!("crate::{}::", at.join("::"))) || t.matches("::").count() != at.len() + 1 {
                    e.push(&format!("use {};", t));
                }
            }
        }
        for i in &m.items {
            emit_item(m, i, e, contracts, fns, methods, trait_methods, a, unsupported, used, notes);
        }
        let mk = format!("mod {}", at.join("::"));
        if let Some(c) = contracts.get(&mk) {
            used.insert(mk.clone());
            e.push(&c.items);
        }
    }
    let subs: BTreeSet<Vec<String>> = mods
        .iter()
        .filter(|m| m.path.len() == at.len() + 1 && m.path.starts_with(at))
        .map(|m| m.path.clone())
        .collect();
    for s in subs {
        e.push(&format!("pub mod {} {{", s.last().unwrap()));
        emit_modules(mods, &s, e, contracts, fns, methods, trait_methods, traits, a, unsupported, used, notes);
        e.push("}");
    }
}

struct Pubs;
impl Pubs {
    fn fields(f: &mut Fields) {
        for x in f.iter_mut() {
            x.vis = parse_quote!(pub);
            x.attrs.clear();
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn emit_item(
    m: &Module,
    i: &Item,
    e: &mut Emit,
    contracts: &Contracts,
    fns: &BTreeMap<String, FnInfo>,
    methods: &BTreeMap<String, Vec<String>>,
    trait_methods: &BTreeSet<String>,
    a: &Args,
    unsupported: &[(String, String)],
    used: &mut BTreeSet<String>,
    notes: &mut Vec<String>,
) {
    let none = Raw { texts: vec![] };
    let mp = m.path.join("::");
    match i {
        Item::Struct(s) => {
            let mut s = s.clone();
            let d = derives(&s.attrs);
            let mut keep: Vec<Ident> = vec![];
            if d.contains(&"Clone".to_string()) {
                keep.push(id("Clone"));
            }
            if d.contains(&"Copy".to_string()) {
                keep.push(id("Copy"));
            }
            s.attrs.clear();
            s.vis = parse_quote!(pub);
            Pubs::fields(&mut s.fields);
            if !keep.is_empty() {
                s.attrs.push(parse_quote!(#[derive(#(#keep),*)]));
            }
            e.push(&printer::print(quote!(#s), &none));
            if a.located && d.contains(&"Copy".to_string()) {
                e.push(&located::readable(&s.ident, &s.generics));
            }
            if d.contains(&"PartialOrd".to_string()) && s.generics.params.is_empty() {
                // what the derive generates: lexicographic comparison in field order
                let n = &s.ident;
                let fs: Vec<Member> = s
                    .fields
                    .iter()
                    .enumerate()
                    .map(|(k, f)| match &f.ident {
                        Some(i) => Member::Named(i.clone()),
                        None => Member::Unnamed(k.into()),
                    })
                    .collect();
                if fs.len() == 1 {
                    let f = &fs[0];
                    let key = format!("{}::{}<derive PartialOrd>", mp, n);
                    let start = e.line();
                    e.push(&printer::print(
                        quote! {
                            impl core::cmp::PartialEq for #n { fn eq(&self, other: &Self) -> bool { self.#f == other.#f } }
                            impl core::cmp::PartialOrd for #n { fn partial_cmp(&self, other: &Self) -> Option<core::cmp::Ordering> { core::cmp::PartialOrd::partial_cmp(&self.#f, &other.#f) } }
                        },
                        &none,
                    ));
                    let end = e.line();
                    e.fns.push(Entry { key, start, end, contracted: true, skipped: false, lost: vec![], file: m.file.clone(), line: 0, inlined: vec![], shape: vec![] });
                } else {
                    notes.push(format!("derived PartialOrd of {} dropped", n));
                }
            }
            type_contract(&format!("type {}::{}", mp, s.ident), e, contracts, used);
        }
        Item::Enum(s) => {
            let mut s = s.clone();
            let d = derives(&s.attrs);
            let clike = s.variants.iter().all(|v| matches!(v.fields, Fields::Unit));
            let mut d = d;
            if a.located && clike && !d.contains(&"Copy".to_string()) {
                // compared by `==` through references, as values here
                d.retain(|x| x != "Clone");
                d.push("Clone".into());
                d.push("Copy".into());
            }
            let mut keep: Vec<Ident> = vec![];
            if d.contains(&"Clone".to_string()) {
                keep.push(id("Clone"));
            }
            if d.contains(&"Copy".to_string()) {
                keep.push(id("Copy"));
            }
            if clike && d.contains(&"PartialEq".to_string()) {
                keep.push(id("PartialEq"));
                keep.push(id("Eq"));
            }
            s.attrs.clear();
            s.vis = parse_quote!(pub);
            for v in s.variants.iter_mut() {
                v.attrs.clear();
                for f in v.fields.iter_mut() {
                    f.attrs.clear();
                }
            }
            if !keep.is_empty() {
                s.attrs.push(parse_quote!(#[derive(#(#keep),*)]));
            }
            e.push(&printer::print(quote!(#s), &none));
            if a.located && d.contains(&"Copy".to_string()) {
                e.push(&located::readable(&s.ident, &s.generics));
            }
            if clike && d.contains(&"PartialEq".to_string()) {
                e.push(&format!("unsafe impl Structural for {} {{}}", s.ident));
            }
            type_contract(&format!("type {}::{}", mp, s.ident), e, contracts, used);
        }
        Item::Type(t) => {
            let mut t = t.clone();
            t.attrs.clear();
            t.vis = parse_quote!(pub);
            e.push(&printer::print(quote!(#t), &none));
        }
        Item::Const(_) | Item::Use(_) => {}
        Item::Fn(f) => {
            let key = format!("{}::{}", mp, f.sig.ident);
            let info = &fns[&format!("crate::{}", key)];
            if info.contracted {
                emit_fn(&key, &info.sig, Some(&info.block), info.self_ty.as_ref(), m, true, e, contracts, fns, methods, trait_methods, a, unsupported, used, info.line, None);
            }
        }
        Item::Trait(t) => {
            let g = &t.generics;
            let (ig, _, wc) = g.split_for_impl();
            let st = &t.supertraits;
            let sup = if st.is_empty() { quote!() } else { quote!(: #st) };
            let n = &t.ident;
            e.push(&printer::print(quote!(pub trait #n #ig #sup #wc), &none));
            e.push("{");
            let tk = format!("trait {}::{}", mp, n);
            if let Some(c) = contracts.get(&tk) {
                used.insert(tk.clone());
                e.push(&c.items);
            }
            for x in &t.items {
                match x {
                    TraitItem::Fn(f) => {
                        let key = format!("{}::{}::{}", mp, n, f.sig.ident);
                        emit_fn(&key, &f.sig, f.default.as_ref(), None, m, false, e, contracts, fns, methods, trait_methods, a, unsupported, used, 0, None);
                    }
                    TraitItem::Type(ty) => {
                        let mut ty = ty.clone();
                        ty.attrs.clear();
                        e.push(&printer::print(quote!(#ty), &none));
                    }
                    _ => notes.push(format!("item of trait {} dropped", n)),
                }
            }
            e.push("}");
        }
        Item::Impl(im) => {
            let tn = type_name(&im.self_ty);
            match &im.trait_ {
                None => {
                    let any = im.items.iter().any(|x| match x {
                        ImplItem::Fn(f) => fns[&format!("crate::{}::{}::{}", mp, tn, f.sig.ident)].contracted,
                        _ => false,
                    });
                    if !any {
                        return;
                    }
                    let (ig, _, wc) = im.generics.split_for_impl();
                    let st = &im.self_ty;
                    e.push(&printer::print(quote!(impl #ig #st #wc), &none));
                    e.push("{");
                    for x in &im.items {
                        if let ImplItem::Fn(f) = x {
                            let key = format!("{}::{}::{}", mp, tn, f.sig.ident);
                            let info = &fns[&format!("crate::{}", key)];
                            if info.contracted {
                                emit_fn(&key, &f.sig, Some(&info.block), Some(&im.self_ty), m, true, e, contracts, fns, methods, trait_methods, a, unsupported, used, info.line, None);
                            }
                        }
                    }
                    e.push("}");
                }
                Some((_, tr, _)) => {
                    let mut tr = tr.clone();
                    let last = tr.segments.last().unwrap().ident.to_string();
                    let mut tname = last.clone();
                    match last.as_str() {
                        "Error" | "Debug" | "Default" | "Eq" | "Drop" | "Hash" => {
                            notes.push(format!("impl {} for {} dropped", last, tn));
                            return;
                        }
                        "Display" => {
                            tr = parse_quote!(crate::vpre::VDisplay);
                            tname = "VDisplay".into();
                        }
                        "From" => {
                            if let PathArguments::AngleBracketed(g) = &tr.segments.last().unwrap().arguments {
                                if let Some(GenericArgument::Type(t)) = g.args.first() {
                                    tname = format!("From<{}>", type_name(t));
                                    // the specification of the conversion
                                    let key = format!("{}::{}<{}>::from", mp, tn, tname);
                                    let (ig, _, wc) = im.generics.split_for_impl();
                                    let st = &im.self_ty;
                                    let sp = contracts.get(&key).map(|c| c.fromspec.clone()).unwrap_or_default();
                                    let body = if sp.trim().is_empty() { "arbitrary()".to_string() } else { sp.clone() };
                                    let obeys = !sp.trim().is_empty();
                                    e.push(&printer::print(quote!(impl #ig vstd::std_specs::convert::FromSpecImpl<#t> for #st #wc), &none));
                                    let tt = printer::print(quote!(#t), &none);
                                    e.push(&format!("{{ open spec fn obeys_from_spec() -> bool {{ {} }} open spec fn from_spec(v: {}) -> Self {{ {} }} }}", obeys, tt, if obeys { body } else { "vstd::pervasive::arbitrary()".into() }));
                                }
                            }
                            tr.leading_colon = None;
                        }
                        _ => {}
                    }
                    let (ig, _, wc) = im.generics.split_for_impl();
                    let st = &im.self_ty;
                    e.push(&printer::print(quote!(impl #ig #tr for #st #wc), &none));
                    e.push("{");
                    let ik = format!("impl {}::{}<{}>", mp, tn, tname);
                    if let Some(c) = contracts.get(&ik) {
                        used.insert(ik.clone());
                        e.push(&c.items);
                    } else if tname == "VDisplay" {
                        e.push("open spec fn exact(&self) -> bool { false } open spec fn text(&self) -> Seq<char> { Seq::empty() }");
                    }
                    for x in &im.items {
                        match x {
                            ImplItem::Fn(f) => {
                                let key = format!("{}::{}<{}>::{}", mp, tn, tname, f.sig.ident);
                                let mut sig = f.sig.clone();
                                if tname == "VDisplay" {
                                    sig.output = parse_quote!(-> core::result::Result<(), crate::vpre::FmtError>);
                                }
                                let line = f.sig.ident.span().start().line;
                                emit_fn(&key, &sig, Some(&f.block), Some(&im.self_ty), m, false, e, contracts, fns, methods, trait_methods, a, unsupported, used, line, Some(()));
                            }
                            ImplItem::Type(t) => e.push(&printer::print(quote!(#t), &none)),
                            _ => notes.push(format!("item of impl {} dropped", ik)),
                        }
                    }
                    e.push("}");
                }
            }
        }
        _ => notes.push(format!("item in {} dropped", mp)),
    }
}

fn type_contract(k: &str, e: &mut Emit, contracts: &Contracts, used: &mut BTreeSet<String>) {
    if let Some(c) = contracts.get(k) {
        used.insert(k.to_string());
        let start = e.line();
        e.push(&c.items);
        let end = e.line();
        e.fns.push(Entry { key: k.to_string(), start, end, contracted: true, skipped: false, lost: vec![], file: String::new(), line: 0, inlined: vec![], shape: vec![] });
    }
}

#[allow(clippy::too_many_arguments)]
fn emit_fn(
    key: &str,
    sig: &Signature,
    block: Option<&Block>,
    self_ty: Option<&Type>,
    m: &Module,
    vis: bool,
    e: &mut Emit,
    contracts: &Contracts,
    fns: &BTreeMap<String, FnInfo>,
    methods: &BTreeMap<String, Vec<String>>,
    trait_methods: &BTreeSet<String>,
    a: &Args,
    unsupported: &[(String, String)],
    used: &mut BTreeSet<String>,
    line: usize,
    _trait_impl: Option<()>,
) {
    let contract: Option<&Contract> = contracts.get(key);
    if contract.is_some() {
        used.insert(key.to_string());
    }
    let mut sig = sig.clone();
    let mut raw = Raw { texts: vec![] };
    let mut lost: Vec<String> = vec![];
    let mut inlined: Vec<String> = vec![];
    let mut shape: Vec<String> = vec![];

    // anonymous parameters get names
    let mut params: Vec<String> = vec![];
    let mut scope: Vec<(String, String, bool)> = vec![];
    for (k, i) in sig.inputs.iter_mut().enumerate() {
        if let FnArg::Typed(t) = i {
            match &*t.pat {
                Pat::Ident(p) => {
                    params.push(p.ident.to_string());
                    scope.push((p.ident.to_string(), type_key(&t.ty), true));
                }
                Pat::Wild(_) => {
                    let n = format_ident!("_p{}", k);
                    *t.pat = parse_quote!(#n);
                    params.push(n.to_string());
                }
                _ => lost.push("parameter pattern".into()),
            }
        }
    }
    let mut body_text = String::new();
    let mut looping = false;
    let simple = {
        // the key of an impl function in `unsupported` has no trait name
        let parts: Vec<&str> = key.split("::").collect();
        let s = parts.join("::");
        let mut t = String::new();
        let mut depth = 0;
        for c in s.chars() {
            match c {
                '<' => depth += 1,
                '>' => depth -= 1,
                c if depth == 0 => t.push(c),
                _ => {}
            }
        }
        t
    };
    for (k, x) in unsupported {
        if *k == key || *k == simple {
            lost.push(x.clone());
        }
    }
    if let Some(b) = block {
        let mut b = b.clone();
        let self_path = self_ty.map(|t| format!("crate::{}::{}", m.path.join("::"), type_name(t)));
        let mut inl = Inliner {
            fns,
            methods,
            trait_methods,
            fresh: 0,
            depth: 0,
            problems: vec![],
            inlined: Default::default(),
            cur_self: self_path,
            fields: FIELDS.get().unwrap(),
            tys: Default::default(),
            maybe: vec![],
            ret: match &sig.output {
                ReturnType::Default => None,
                ReturnType::Type(_, t) => Some((**t).clone()),
            },
            closures: 0,
            place: inline::Place::Any,
        };
        inl.note_types(&sig, &b);
        inline::mark_tails(&mut b, &|e| inl.leaves_loops(e));
        inl.visit_block_mut(&mut b);
        lost.extend(inl.problems);
        // names of library methods are left to the verifier: if the receiver is one of the
        // crate's types, the emitted text does not compile
        let _ = inl.maybe;
        inlined = inl.inlined.into_iter().collect();
        let ret_of = |x: &Expr| -> Option<String> { ret_kind(x, fns, methods) };
        lower::Nth::default().visit_block_mut(&mut b);
        Adapters { fresh: 0, ret_of: &ret_of }.visit_block_mut(&mut b);
        if contract.map_or(false, |c| !c.param.trim().is_empty()) {
            let mut w = world::World::default();
            w.visit_block_mut(&mut b);
            lost.extend(w.lost);
        }
        let has_mut = sig.inputs.iter().any(|i| match i {
            FnArg::Receiver(r) => r.reference.is_some() && r.mutability.is_some(),
            FnArg::Typed(t) => matches!(&*t.ty, Type::Reference(r) if r.mutability.is_some()),
        });
        if has_mut {
            lower::Guards::default().visit_block_mut(&mut b);
        }
        shape = lower::shape(&b);
        let mut annotate = |b: &mut Block, contract: Option<&Contract>, raw: &mut Raw| {
            let mut l = Loops {
                consts: vec![],
                contract,
                raw,
                count: 0,
                fresh: 0,
                scope: scope.clone(),
                params: params.clone(),
                self_name: self_ty.map(type_name).unwrap_or_default(),
                lost: vec![],
            };
            l.run(b);
            (l.count, l.lost)
        };
        let (unmarked, untold) = (b.clone(), raw.clone());
        let (mut n, mut gone) = annotate(&mut b, contract, &mut raw);
        if let (false, Some(c)) = (gone.is_empty(), contract) {
            // other locals than the annotations speak of: another form of the same loop?
            if !c.alts.is_empty() {
                let mut other = c.clone();
                other.loops.extend(c.alts.clone());
                let (mut b2, mut raw2) = (unmarked, untold);
                let (n2, gone2) = annotate(&mut b2, Some(&other), &mut raw2);
                if gone2.is_empty() {
                    (b, raw, n, gone) = (b2, raw2, n2, gone2);
                }
            }
        }
        looping = n > 0;
        lost.extend(gone);
        body_text = printer::print(quote!(#b), &raw);
    }
    let skipped = block.is_some() && (a.skip.contains(key) || !lost.is_empty());
    let subst_params = |t: &str| -> String {
        let mut o = t.to_string();
        for (k, p) in params.iter().enumerate().rev() {
            o = o.replace(&format!("${}", k + 1), p);
        }
        o
    };
    let start = e.line();
    if let Some(c) = contract {
        if !c.attr.trim().is_empty() {
            e.push(&c.attr);
        }
    }
    if skipped {
        e.push("#[verifier::external_body]");
    } else if looping {
        e.push("#[verifier::loop_isolation(false)]");
        e.push("#[verifier::allow_complex_invariants]");
    }
    let effects = contract.map_or(false, |c| !c.param.trim().is_empty());
    let ret = match &sig.output {
        ReturnType::Default if effects => Some(parse_quote!(())),
        ReturnType::Default => None,
        ReturnType::Type(_, t) => {
            let mut t = (**t).clone();
            if effects {
                world::World::default().visit_type_mut(&mut t);
            }
            Some(t)
        }
    };
    sig.output = ReturnType::Default;
    let mut s2 = sig.clone();
    if let Some(c) = contract {
        if !c.param.trim().is_empty() {
            match parse_str::<FnArg>(c.param.trim()) {
                Ok(p) => s2.inputs.push(p),
                Err(x) => notes_param(&x),
            }
        }
    }
    let wc = s2.generics.where_clause.take();
    let head = printer::print(quote!(#s2), &raw);
    let none = Raw { texts: vec![] };
    let mut h = String::new();
    if vis {
        h.push_str("pub ");
    }
    h.push_str(head.trim_end());
    if let Some(t) = ret {
        h.push_str(&format!(" -> (ret: {})", printer::print(quote!(#t), &none)));
    }
    if let Some(w) = wc {
        h.push(' ');
        h.push_str(&printer::print(quote!(#w), &none));
    }
    e.push(&h);
    if let Some(c) = contract {
        e.push(&subst_params(&c.spec));
    }
    match block {
        None => e.push(";"),
        Some(_) if skipped => e.push("{ unimplemented!() }"),
        Some(_) => {
            let mut pre = contract.map(|c| subst_params(&c.pre)).unwrap_or_default();
            if effects {
                pre.push_str(&pieces(&body_text));
            }
            if SMOKE.load(std::sync::atomic::Ordering::Relaxed) {
                pre.push_str("\nassert(false);\n");
            }
            if pre.trim().is_empty() {
                e.push(&body_text);
            } else {
                let b = body_text.trim_start();
                let b = b.strip_prefix('{').unwrap_or(b);
                e.push("{");
                e.push(&pre);
                e.push(b);
            }
        }
    }
    let end = e.line();
    e.fns.push(Entry {
        key: key.to_string(),
        start,
        end,
        contracted: contract.is_some(),
        skipped,
        lost,
        file: m.file.clone(),
        line,
        inlined,
        shape,
    });
    let _ = strip_vis;
}

fn notes_param(x: &Error) {
    eprintln!("parameter in a contract: {}", x);
    std::process::exit(2);
}

/// "Result" or "Option" if the call's declared type says so
fn ret_kind(x: &Expr, fns: &BTreeMap<String, FnInfo>, methods: &BTreeMap<String, Vec<String>>) -> Option<String> {
    let of = |f: &FnInfo| -> Option<String> {
        match &f.sig.output {
            ReturnType::Type(_, t) => match &**t {
                Type::Path(p) => {
                    let n = p.path.segments.last()?.ident.to_string();
                    Some(match n.as_str() {
                        "ASNResult" => "Result".into(),
                        _ => n,
                    })
                }
                _ => None,
            },
            _ => None,
        }
    };
    match x {
        Expr::Paren(p) => ret_kind(&p.expr, fns, methods),
        Expr::Call(c) => match &*c.func {
            Expr::Path(p) => of(fns.get(&path_str(&p.path))?),
            _ => None,
        },
        Expr::MethodCall(m) => match m.method.to_string().as_str() {
            "ok_or" | "map_err" | "ok_or_else" => Some("Result".into()),
            "get" | "first" | "last" | "split_first" | "split_last" | "ok" | "pop" => Some("Option".into()),
            n => {
                let v = methods.get(n)?;
                of(fns.get(v.first()?)?)
            }
        },
        Expr::Match(m) => {
            // a lowered map_err / ok_or_else
            let s = m.arms.first().map(|a| { let b = &a.body; quote!(#b).to_string() })?;
            if s.starts_with("Ok (") {
                Some("Result".into())
            } else {
                None
            }
        }
        Expr::Block(b) => match b.block.stmts.first() {
            _ => match b.block.stmts.iter().rev().nth(1) {
                Some(Stmt::Local(l)) => match &l.pat {
                    Pat::Type(t) => match &*t.ty {
                        Type::Path(p) => Some(p.path.segments.last()?.ident.to_string()),
                        _ => None,
                    },
                    _ => None,
                },
                _ => None,
            },
        },
        _ => None,
    }
}

/// the flags of the command line, put together from two literals of the text
fn pieces(text: &str) -> String {
    fn walk(ts: proc_macro2::TokenStream, out: &mut Vec<String>) {
        for t in ts {
            match t {
                proc_macro2::TokenTree::Group(g) => walk(g.stream(), out),
                proc_macro2::TokenTree::Literal(l) => {
                    if let Ok(s) = parse_str::<LitStr>(&l.to_string()) {
                        if !out.contains(&s.value()) {
                            out.push(s.value());
                        }
                    }
                }
                _ => {}
            }
        }
    }
    let mut all = vec![];
    if let Ok(ts) = text.parse::<proc_macro2::TokenStream>() {
        walk(ts, &mut all);
    }
    let mut o = String::new();
    for w in ["--der", "--certs"] {
        for x in &all {
            let Some(rest) = w.strip_prefix(x.as_str()) else { continue };
            if x.is_empty() || rest.is_empty() {
                continue;
            }
            if all.iter().any(|y| y == rest) {
                o.push_str(&format!("\nproof {{ reveal_strlit({:?}); reveal_strlit({:?}); reveal_strlit({:?}); assert({:?}@ + {:?}@ =~= {:?}@); }}\n", x, rest, w, x, rest, w));
            }
        }
    }
    o
}
