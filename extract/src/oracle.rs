//! The types of the sources' expressions, as the compiler has them.
//!
//! `rustc -Zunpretty=thir-tree` prints every expression with its type and its place in the
//! source. The types only choose between lowerings (is this `map` one of `Option` or of an
//! iterator?): what is emitted is type-checked again by the verifier's own compiler. Without
//! the listing the extraction goes by declared types alone.
use proc_macro2::Span;
use quote::ToTokens;
use std::cell::RefCell;
use std::collections::HashMap;
use std::path::Path as FsPath;
use std::process::{Command, Stdio};
use syn::*;

type At = (u32, u32);

#[derive(Clone, Debug)]
pub struct Method {
    /// core::option::{impl#0}::map, rx509::der::parser::{impl#1}::expect_end
    pub path: String,
    /// the type of the receiver, as passed
    pub recv: String,
}

#[derive(Default)]
pub struct Oracle {
    exprs: HashMap<(String, At, At), Vec<String>>,
    methods: HashMap<(String, At), Method>,
    /// first and last position in the source map, file
    files: Vec<(usize, usize, String)>,
}

thread_local! {
    static O: RefCell<Oracle> = RefCell::new(Oracle::default());
}

fn pos(s: Span) -> Option<(usize, usize)> {
    let t = format!("{:?}", s);
    let t = t.strip_prefix("bytes(")?.strip_suffix(')')?.to_string();
    let (a, b) = t.split_once("..")?;
    Some((a.parse().ok()?, b.parse().ok()?))
}

/// a file has been parsed
pub fn note_file(name: &str, f: &File) {
    let ts: Vec<_> = f.to_token_stream().into_iter().collect();
    let all: Vec<(usize, usize)> = ts.iter().filter_map(|t| pos(t.span())).filter(|p| p.1 > 0).collect();
    if let (Some(a), Some(b)) = (all.iter().map(|p| p.0).min(), all.iter().map(|p| p.1).max()) {
        O.with(|o| o.borrow_mut().files.push((a, b, name.to_string())));
    }
}

impl Oracle {
    fn file(&self, s: Span) -> Option<String> {
        let (a, b) = pos(s)?;
        if b == 0 {
            return None;
        }
        self.files.iter().find(|f| f.0 <= a && b <= f.1).map(|f| f.2.clone())
    }
}

fn start(s: Span) -> At {
    let l = s.start();
    (l.line as u32, l.column as u32 + 1)
}
fn end(s: Span) -> At {
    let l = s.end();
    (l.line as u32, l.column as u32 + 1)
}

/// what the name in a method call or a path call stands for
pub fn method(i: &Ident) -> Option<Method> {
    O.with(|o| {
        let o = o.borrow();
        let f = o.file(i.span())?;
        o.methods.get(&(f, start(i.span()))).cloned()
    })
}

fn span_types(a: Span, b: Span) -> Option<Vec<String>> {
    O.with(|o| {
        let o = o.borrow();
        let f = o.file(a)?;
        if o.file(b)? != f {
            return None;
        }
        o.exprs.get(&(f, start(a), end(b))).cloned()
    })
}

/// the types of an expression of the source, the adjusted ones first
pub fn types(e: &Expr) -> Option<Vec<String>> {
    let ts: Vec<_> = e.to_token_stream().into_iter().collect();
    let a = ts.first()?;
    let b = ts.last()?;
    let a = match a {
        proc_macro2::TokenTree::Group(g) => g.span_open(),
        t => t.span(),
    };
    let b = match b {
        proc_macro2::TokenTree::Group(g) => g.span_close(),
        t => t.span(),
    };
    span_types(a, b)
}

/// the type of an expression before adjustments
pub fn ty(e: &Expr) -> Option<String> {
    types(e)?.last().cloned()
}

pub fn pat_ty(p: &PatIdent) -> Option<String> {
    let i = p.ident.span();
    let a = p.mutability.as_ref().map_or(i, |m| m.span);
    span_types(a, i)?.last().cloned()
}

/// without references
pub fn bare(t: &str) -> &str {
    let mut t = t.trim();
    loop {
        if let Some(r) = t.strip_prefix('&') {
            t = r.trim_start();
            t = t.strip_prefix("mut ").unwrap_or(t);
        } else {
            return t;
        }
    }
}

/// the path of a type, without its arguments
pub fn head(t: &str) -> &str {
    let t = bare(t);
    &t[..t.find('<').unwrap_or(t.len())]
}

pub fn is_int(t: &str) -> bool {
    matches!(t, "u8" | "u16" | "u32" | "u64" | "u128" | "usize" | "i8" | "i16" | "i32" | "i64" | "i128" | "isize")
}

// ---- reading the listing -----------------------------------------------------------------

fn place(t: &str) -> Option<(String, At, At)> {
    let t = t.split(" (#").next()?;
    let (rest, to) = t.rsplit_once(": ")?;
    let at = |s: &str| -> Option<At> {
        let (l, c) = s.split_once(':')?;
        Some((l.parse().ok()?, c.parse().ok()?))
    };
    let to = at(to)?;
    let (rest, c) = rest.rsplit_once(':')?;
    let (file, l) = rest.rsplit_once(':')?;
    Some((file.to_string(), (l.parse().ok()?, c.parse().ok()?), to))
}

fn clean(t: &str) -> String {
    t.replace("'{erased} ", "").replace("'{erased}, ", "").replace("<'{erased}>", "").replace("'{erased}", "")
}

fn def_path(t: &str) -> Option<String> {
    // FnDef(DefId(2:16071 ~ core[a802]::slice::{impl#0}::split_first), ..
    let t = t.strip_prefix("FnDef(DefId(")?;
    let (_, t) = t.split_once(" ~ ")?;
    let t = &t[..t.find(')')?];
    let (krate, rest) = t.split_once('[')?;
    let (_, rest) = rest.split_once(']')?;
    Some(format!("{}{}", krate, rest))
}

fn read(text: &str, o: &mut Oracle) {
    let mut last: Option<String> = None;
    let mut age = 0;
    let mut fun: Option<((String, At), String)> = None;
    let mut arg = 0;
    for line in text.lines() {
        let l = line.trim_start();
        age += 1;
        if let Some(t) = l.strip_prefix("ty: ") {
            if arg == 2 {
                if let Some((k, p)) = fun.take() {
                    o.methods.insert(k, Method { path: p, recv: clean(t) });
                }
            }
            arg = 0;
            last = Some(t.to_string());
            age = 0;
        } else if let Some(s) = l.strip_prefix("span: ") {
            if let (Some(t), true) = (last.take(), age <= 2) {
                if let Some((f, a, b)) = place(s) {
                    if let Some(p) = def_path(&t) {
                        fun = Some(((f, a), p));
                    } else {
                        let t = clean(&t);
                        let v = o.exprs.entry((f, a, b)).or_default();
                        if v.last() != Some(&t) {
                            v.push(t);
                        }
                    }
                }
            }
            arg = 0;
        } else if l.starts_with("args: [") && fun.is_some() {
            arg = 1;
            if l.contains(']') {
                arg = 0;
                if let Some((k, p)) = fun.take() {
                    o.methods.insert(k, Method { path: p, recv: String::new() });
                }
            }
        } else if arg == 1 && l.starts_with("Expr {") {
            arg = 2;
        } else if arg > 0 {
            arg = 0;
        }
    }
}

fn rustc(args: &[&str]) -> Option<Vec<u8>> {
    let o = Command::new("rustc").arg("+nightly").args(args).stdin(Stdio::null()).stderr(Stdio::null()).output().ok()?;
    if o.status.success() {
        Some(o.stdout)
    } else {
        None
    }
}

fn write(o: &Oracle) -> String {
    let mut s = String::new();
    for ((f, a, b), v) in &o.exprs {
        for t in v {
            s.push_str(&format!("E\t{}\t{}\t{}\t{}\t{}\t{}\n", f, a.0, a.1, b.0, b.1, t));
        }
    }
    for ((f, a), m) in &o.methods {
        s.push_str(&format!("M\t{}\t{}\t{}\t{}\t{}\n", f, a.0, a.1, m.path, m.recv));
    }
    s
}

fn again(text: &str, o: &mut Oracle) {
    for l in text.lines() {
        let c: Vec<&str> = l.split('\t').collect();
        let n = |k: usize| c[k].parse::<u32>().unwrap_or(0);
        match c.as_slice() {
            ["E", f, _, _, _, _, t] => o.exprs.entry((f.to_string(), (n(2), n(3)), (n(4), n(5)))).or_default().push(t.to_string()),
            ["M", f, _, _, p, r] => {
                o.methods.insert((f.to_string(), (n(2), n(3))), Method { path: p.to_string(), recv: r.to_string() });
            }
            _ => {}
        }
    }
}

/// `cache`: the listing of an earlier extraction of the same sources, if any
pub fn load(repo: &str, cache: &str) {
    let mut o = Oracle::default();
    let have = if cache.is_empty() { None } else { std::fs::read_to_string(cache).ok() };
    match have {
        Some(t) => again(&t, &mut o),
        None => {
            let lib = FsPath::new(repo).join("rx509/src/lib.rs").display().to_string();
            let main = FsPath::new(repo).join("decoder/src/main.rs");
            let tmp = std::env::temp_dir().join(format!("extract-{}", std::process::id()));
            let _ = std::fs::create_dir_all(&tmp);
            let meta = tmp.join("librx509.rmeta").display().to_string();
            let edition = |d: &str| {
                let t = std::fs::read_to_string(FsPath::new(repo).join(d).join("Cargo.toml")).unwrap_or_default();
                let e = t.lines().find_map(|l| l.trim().strip_prefix("edition").map(|r| r.trim_matches(|c: char| !c.is_ascii_digit()).to_string()));
                e.filter(|e| e.len() == 4).unwrap_or("2021".into())
            };
            let e1 = edition("rx509");
            let l2 = lib.clone();
            let dir = tmp.display().to_string();
            let d2 = dir.clone();
            let e2 = e1.clone();
            let listing = std::thread::spawn(move || rustc(&["--edition", &e2, "--crate-type", "lib", "--crate-name", "rx509", "--cap-lints", "allow", "--out-dir", &d2, &l2, "-Zunpretty=thir-tree"]));
            let mut texts = vec![];
            if main.exists() && rustc(&["--edition", &e1, "--crate-type", "lib", "--crate-name", "rx509", "--cap-lints", "allow", &lib, "--emit", "metadata", "-o", &meta]).is_some() {
                let ext = format!("rx509={}", meta);
                let m = main.display().to_string();
                texts.push(rustc(&["--edition", &edition("decoder"), "--crate-name", "decoder", "--cap-lints", "allow", "--extern", &ext, "--out-dir", &dir, &m, "-Zunpretty=thir-tree"]));
            }
            texts.push(listing.join().ok().flatten());
            let _ = std::fs::remove_dir_all(&tmp);
            for t in texts {
                match t {
                    Some(t) => read(&String::from_utf8_lossy(&t), &mut o),
                    None => eprintln!("extract: no listing of types"),
                }
            }
            if !cache.is_empty() {
                let part = format!("{}.{}", cache, std::process::id());
                if std::fs::write(&part, write(&o)).is_ok() {
                    let _ = std::fs::rename(&part, cache);
                }
            }
        }
    }
    O.with(|x| {
        let mut x = x.borrow_mut();
        x.exprs = o.exprs;
        x.methods = o.methods;
    });
}
