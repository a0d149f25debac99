//! Expands the macros the crate itself defines with `macro_rules!`.
//!
//! Matching and transcription are those of the reference: the first rule that matches, a
//! repetition taken as often as it fits.  What is not supported (hygiene that would matter,
//! two macros of one name) stays as it is and is reported as before.
use crate::krate::Module;
use proc_macro2::{Delimiter, Group, Ident, Spacing, Span, TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use syn::parse::{ParseStream, Parser};
use syn::visit_mut::{self, VisitMut};
use syn::*;

enum Matcher {
    Tok(TokenTree),
    Group(Delimiter, Vec<Matcher>),
    Var(String, String),
    Rep(Vec<Matcher>, Vec<TokenTree>, char),
}

struct Rule {
    matcher: Vec<Matcher>,
    body: TokenStream,
}

enum Bound {
    One(TokenStream),
    Many(Vec<BTreeMap<String, Bound>>),
}

type Binds = BTreeMap<String, Bound>;

fn punct(t: Option<&TokenTree>, c: char) -> bool {
    matches!(t, Some(TokenTree::Punct(p)) if p.as_char() == c)
}

/// `$( .. ) sep op` from position k, which is behind the group: separator, operator, next position
fn rep_tail(ts: &[TokenTree], mut k: usize) -> Option<(Vec<TokenTree>, char, usize)> {
    let op = |t: &TokenTree| match t {
        TokenTree::Punct(p) if ['*', '+', '?'].contains(&p.as_char()) => Some(p.as_char()),
        _ => None,
    };
    if let Some(c) = op(ts.get(k)?) {
        return Some((vec![], c, k + 1));
    }
    let mut sep = vec![];
    loop {
        let joint = matches!(ts.get(k)?, TokenTree::Punct(p) if p.spacing() == Spacing::Joint && ts.get(k + 1).map_or(false, |n| op(n).is_none()));
        sep.push(ts[k].clone());
        k += 1;
        if !joint {
            break;
        }
    }
    Some((sep, op(ts.get(k)?)?, k + 1))
}

fn matcher(ts: TokenStream) -> Option<Vec<Matcher>> {
    let ts: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = vec![];
    let mut k = 0;
    while k < ts.len() {
        match &ts[k] {
            t if punct(Some(t), '$') => match ts.get(k + 1)? {
                TokenTree::Group(g) => {
                    let (sep, op, n) = rep_tail(&ts, k + 2)?;
                    out.push(Matcher::Rep(matcher(g.stream())?, sep, op));
                    k = n;
                }
                TokenTree::Ident(i) => {
                    if !punct(ts.get(k + 2), ':') {
                        return None;
                    }
                    out.push(Matcher::Var(i.to_string(), ts.get(k + 3)?.to_string()));
                    k += 4;
                }
                _ => return None,
            },
            TokenTree::Group(g) => {
                out.push(Matcher::Group(g.delimiter(), matcher(g.stream())?));
                k += 1;
            }
            t => {
                out.push(Matcher::Tok(t.clone()));
                k += 1;
            }
        }
    }
    Some(out)
}

fn rules(ts: TokenStream) -> Option<Vec<Rule>> {
    let ts: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = vec![];
    let mut k = 0;
    while k < ts.len() {
        match (&ts[k], ts.get(k + 3)) {
            (TokenTree::Group(m), Some(TokenTree::Group(b))) if punct(ts.get(k + 1), '=') && punct(ts.get(k + 2), '>') => {
                out.push(Rule { matcher: matcher(m.stream())?, body: b.stream() });
                k += 4;
                if punct(ts.get(k), ';') {
                    k += 1;
                }
            }
            _ => return None,
        }
    }
    Some(out)
}

fn fragment(kind: &str, input: ParseStream) -> Result<TokenStream> {
    let fail = || Err(input.error("fragment"));
    Ok(match kind {
        "ident" => {
            if input.peek(Token![_]) {
                return fail();
            }
            <Ident as syn::ext::IdentExt>::parse_any(input)?.to_token_stream()
        }
        "ty" => input.parse::<Type>()?.to_token_stream(),
        "expr" | "expr_2021" => {
            let e = input.parse::<Expr>()?;
            match &e {
                Expr::Path(_) | Expr::Lit(_) | Expr::Paren(_) | Expr::Call(_) | Expr::MethodCall(_) | Expr::Field(_) | Expr::Index(_) => e.to_token_stream(),
                e => TokenTree::Group(Group::new(Delimiter::Parenthesis, e.to_token_stream())).into(),
            }
        }
        "literal" => {
            let mut t = TokenStream::new();
            if input.peek(Token![-]) {
                t.extend(input.parse::<Token![-]>()?.to_token_stream());
            }
            t.extend(input.parse::<Lit>()?.to_token_stream());
            t
        }
        "tt" => input.parse::<TokenTree>()?.into(),
        "path" => input.call(Path::parse_mod_style).or_else(|_| input.parse::<Path>())?.to_token_stream(),
        "pat" => Pat::parse_multi_with_leading_vert(input)?.to_token_stream(),
        "pat_param" => Pat::parse_single(input)?.to_token_stream(),
        "block" => input.parse::<Block>()?.to_token_stream(),
        "lifetime" => input.parse::<Lifetime>()?.to_token_stream(),
        "vis" => input.parse::<Visibility>()?.to_token_stream(),
        "item" => input.parse::<Item>()?.to_token_stream(),
        "stmt" => input.parse::<Stmt>()?.to_token_stream(),
        "meta" => input.parse::<Meta>()?.to_token_stream(),
        _ => return fail(),
    })
}

fn token(t: &TokenTree, input: ParseStream) -> Result<()> {
    let u = input.parse::<TokenTree>()?;
    let same = match (t, &u) {
        (TokenTree::Punct(a), TokenTree::Punct(b)) => a.as_char() == b.as_char(),
        (a, b) => a.to_string() == b.to_string(),
    };
    if same {
        Ok(())
    } else {
        Err(input.error("token"))
    }
}

fn matching(ms: &[Matcher], input: ParseStream, out: &mut Binds) -> Result<()> {
    for m in ms {
        match m {
            Matcher::Tok(t) => token(t, input)?,
            Matcher::Group(d, inner) => {
                let u = input.parse::<TokenTree>()?;
                match u {
                    TokenTree::Group(g) if g.delimiter() == *d => {
                        let mut b = Binds::new();
                        whole(inner, g.stream(), &mut b)?;
                        out.extend(b);
                    }
                    _ => return Err(input.error("group")),
                }
            }
            Matcher::Var(n, kind) => {
                let t = fragment(kind, input)?;
                out.insert(n.clone(), Bound::One(t));
            }
            Matcher::Rep(inner, sep, op) => {
                let mut rounds = vec![];
                loop {
                    if *op == '?' && rounds.len() == 1 {
                        break;
                    }
                    let fork = input.fork();
                    let mut trial = Binds::new();
                    let mut ok = !input.is_empty();
                    if ok && !rounds.is_empty() {
                        ok = sep.iter().all(|s| token(s, &fork).is_ok());
                    }
                    if !ok || matching(inner, &fork, &mut trial).is_err() {
                        break;
                    }
                    if !rounds.is_empty() {
                        for s in sep {
                            token(s, input)?;
                        }
                    }
                    let mut b = Binds::new();
                    matching(inner, input, &mut b)?;
                    rounds.push(b);
                }
                if *op == '+' && rounds.is_empty() {
                    return Err(input.error("repetition"));
                }
                let mut names = vec![];
                vars(inner, &mut names);
                // each variable of the repetition has the rounds of its own
                for n in names {
                    let l = rounds
                        .iter_mut()
                        .map(|r| {
                            let mut one = Binds::new();
                            if let Some(v) = r.remove(&n) {
                                one.insert(n.clone(), v);
                            }
                            one
                        })
                        .collect();
                    out.insert(n, Bound::Many(l));
                }
            }
        }
    }
    Ok(())
}

fn vars(ms: &[Matcher], out: &mut Vec<String>) {
    for m in ms {
        match m {
            Matcher::Var(n, _) => out.push(n.clone()),
            Matcher::Group(_, i) | Matcher::Rep(i, _, _) => vars(i, out),
            _ => {}
        }
    }
}

fn whole(ms: &[Matcher], ts: TokenStream, out: &mut Binds) -> Result<()> {
    let p = |input: ParseStream| -> Result<Binds> {
        let mut b = Binds::new();
        matching(ms, input, &mut b)?;
        if !input.is_empty() {
            return Err(input.error("more"));
        }
        Ok(b)
    };
    out.extend(p.parse2(ts)?);
    Ok(())
}

/// what the variables of a transcribed repetition stand for in one round
type Scope<'a> = BTreeMap<String, &'a Bound>;

fn transcribe(body: TokenStream, sc: &Scope) -> Option<TokenStream> {
    let ts: Vec<TokenTree> = body.into_iter().collect();
    let mut out: Vec<TokenTree> = vec![];
    let mut k = 0;
    while k < ts.len() {
        if punct(ts.get(k), '$') {
            match ts.get(k + 1)? {
                TokenTree::Ident(i) if i == "crate" => {
                    out.push(TokenTree::Ident(Ident::new("crate", Span::call_site())));
                    k += 2;
                }
                TokenTree::Ident(i) => {
                    match sc.get(&i.to_string())? {
                        Bound::One(t) => out.extend(t.clone()),
                        Bound::Many(_) => return None,
                    }
                    k += 2;
                }
                TokenTree::Group(g) => {
                    let (sep, _, n) = rep_tail(&ts, k + 2)?;
                    let mut used = BTreeSet::new();
                    dollars(g.stream(), &mut used);
                    let many: Vec<(&String, &Vec<Binds>)> = used
                        .iter()
                        .filter_map(|u| match sc.get_key_value(u) {
                            Some((n, Bound::Many(l))) => Some((n, l)),
                            _ => None,
                        })
                        .collect();
                    let len = many.first()?.1.len();
                    if many.iter().any(|m| m.1.len() != len) {
                        return None;
                    }
                    for r in 0..len {
                        if r > 0 {
                            out.extend(sep.iter().cloned());
                        }
                        let mut inner = sc.clone();
                        for (n, l) in &many {
                            inner.insert((*n).clone(), l[r].get(*n)?);
                        }
                        out.extend(transcribe(g.stream(), &inner)?);
                    }
                    k = n;
                }
                _ => return None,
            }
            continue;
        }
        out.push(match &ts[k] {
            TokenTree::Group(g) => TokenTree::Group(Group::new(g.delimiter(), transcribe(g.stream(), sc)?)),
            t => {
                // one text, many places: the compiler's types are not looked up here
                let mut t = t.clone();
                t.set_span(Span::call_site());
                t
            }
        });
        k += 1;
    }
    Some(out.into_iter().collect())
}

fn dollars(ts: TokenStream, out: &mut BTreeSet<String>) {
    let ts: Vec<TokenTree> = ts.into_iter().collect();
    for (k, t) in ts.iter().enumerate() {
        match t {
            TokenTree::Group(g) => dollars(g.stream(), out),
            TokenTree::Ident(i) if k > 0 && punct(ts.get(k - 1), '$') => {
                out.insert(i.to_string());
            }
            _ => {}
        }
    }
}

fn names(ts: TokenStream, out: &mut BTreeSet<String>) {
    for t in ts {
        match t {
            TokenTree::Ident(i) => {
                out.insert(i.to_string());
            }
            TokenTree::Group(g) => names(g.stream(), out),
            _ => {}
        }
    }
}

struct Expand<'a> {
    table: &'a BTreeMap<String, Vec<Rule>>,
    depth: usize,
    done: usize,
}

impl<'a> Expand<'a> {
    fn expand(&self, m: &Macro) -> Option<(TokenStream, BTreeSet<String>)> {
        let rs = self.table.get(&m.path.segments.last()?.ident.to_string())?;
        for r in rs {
            let mut b = Binds::new();
            if whole(&r.matcher, m.tokens.clone(), &mut b).is_ok() {
                let sc: Scope = b.iter().map(|(k, v)| (k.clone(), v)).collect();
                let mut own = BTreeSet::new();
                names(r.body.clone(), &mut own);
                let mut given = BTreeSet::new();
                names(m.tokens.clone(), &mut given);
                let both = own.intersection(&given).cloned().collect();
                return Some((transcribe(r.body.clone(), &sc)?, both));
            }
        }
        None
    }

    /// names of the body are not those of the arguments
    fn hygienic(b: &Block, both: &BTreeSet<String>) -> bool {
        crate::krate::locals_of(b).intersection(both).next().is_none()
    }

    fn body(&self, m: &Macro) -> Option<Block> {
        let (ts, both) = self.expand(m)?;
        let stmts = Block::parse_within.parse2(ts).ok()?;
        let b = Block { brace_token: Default::default(), stmts };
        if Self::hygienic(&b, &both) {
            Some(b)
        } else {
            None
        }
    }

    fn items<T: syn::parse::Parse>(&self, m: &Macro) -> Option<Vec<T>> {
        let (ts, _) = self.expand(m)?;
        let p = |input: ParseStream| -> Result<Vec<T>> {
            let mut v = vec![];
            while !input.is_empty() {
                v.push(input.parse()?);
            }
            Ok(v)
        };
        p.parse2(ts).ok()
    }
}

impl<'a> VisitMut for Expand<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        while let (Expr::Macro(m), true) = (&*e, self.depth > 0) {
            match self.body(&m.mac) {
                Some(b) => {
                    self.depth -= 1;
                    self.done += 1;
                    *e = match &b.stmts[..] {
                        [Stmt::Expr(x, None)] => parse_quote!((#x)),
                        _ => parse_quote!(#b),
                    };
                }
                None => break,
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for s in std::mem::take(&mut b.stmts) {
            if let (Stmt::Macro(m), true) = (&s, self.depth > 0) {
                if let Some((ts, both)) = self.expand(&m.mac) {
                    if let Ok(mut stmts) = Block::parse_within.parse2(ts) {
                        let inner = Block { brace_token: Default::default(), stmts: stmts.clone() };
                        if Self::hygienic(&inner, &both) {
                            self.depth -= 1;
                            self.done += 1;
                            if let (Some(semi), Some(Stmt::Expr(_, l @ None))) = (m.semi_token, stmts.last_mut()) {
                                *l = Some(semi);
                            }
                            let mut inner = Block { brace_token: Default::default(), stmts };
                            self.visit_block_mut(&mut inner);
                            // locals the arguments name are the caller's; the macro's own end with it
                            let mut given = BTreeSet::new();
                            names(m.mac.tokens.clone(), &mut given);
                            let mut bound = BTreeSet::new();
                            for s in &inner.stmts {
                                if let Stmt::Local(l) = s {
                                    crate::krate::locals_of_pat(&l.pat, &mut bound);
                                }
                            }
                            if bound.is_empty() && inner.stmts.len() == 1 || !bound.is_empty() && bound.is_subset(&given) {
                                out.extend(inner.stmts);
                            } else if bound.is_disjoint(&given) {
                                out.push(Stmt::Expr(Expr::Block(ExprBlock { attrs: vec![], label: None, block: inner }), None));
                            } else {
                                out.push(s);
                            }
                            continue;
                        }
                    }
                }
            }
            let mut s = s;
            self.visit_stmt_mut(&mut s);
            out.push(s);
        }
        b.stmts = out;
    }
    fn visit_item_impl_mut(&mut self, im: &mut ItemImpl) {
        let mut out = vec![];
        for i in std::mem::take(&mut im.items) {
            match (&i, self.depth > 0) {
                (ImplItem::Macro(m), true) => match self.items::<ImplItem>(&m.mac) {
                    Some(l) => {
                        self.depth -= 1;
                        self.done += 1;
                        out.extend(l);
                    }
                    None => out.push(i),
                },
                _ => out.push(i),
            }
        }
        im.items = out;
        visit_mut::visit_item_impl_mut(self, im);
    }
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        if let (Pat::Macro(m), true) = (&*p, self.depth > 0) {
            if let Some((ts, _)) = self.expand(&m.mac) {
                if let Ok(q) = Pat::parse_multi.parse2(ts) {
                    self.depth -= 1;
                    self.done += 1;
                    *p = q;
                }
            }
        }
        visit_mut::visit_pat_mut(self, p);
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let (Type::Macro(m), true) = (&*t, self.depth > 0) {
            if let Some((ts, _)) = self.expand(&m.mac) {
                if let Ok(q) = parse2::<Type>(ts) {
                    self.depth -= 1;
                    self.done += 1;
                    *t = q;
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
}

fn defined(m: &ItemMacro) -> Option<String> {
    if m.mac.path.is_ident("macro_rules") {
        m.ident.as_ref().map(|i| i.to_string())
    } else {
        None
    }
}

/// definitions within bodies
struct Inner(Vec<(String, TokenStream)>);
impl VisitMut for Inner {
    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.retain(|s| match s {
            Stmt::Item(Item::Macro(m)) if defined(m).is_some() => {
                self.0.push((defined(m).unwrap(), m.mac.tokens.clone()));
                false
            }
            _ => true,
        });
        visit_mut::visit_block_mut(self, b);
    }
}

pub fn run(mods: &mut Vec<Module>) {
    let mut defs: Vec<(String, TokenStream)> = vec![];
    for m in mods.iter_mut() {
        let mut inner = Inner(vec![]);
        for i in m.items.iter_mut() {
            inner.visit_item_mut(i);
        }
        defs.extend(inner.0);
        m.items.retain(|i| match i {
            Item::Macro(x) => match defined(x) {
                Some(n) => {
                    defs.push((n, x.mac.tokens.clone()));
                    false
                }
                None => true,
            },
            _ => true,
        });
    }
    let mut table: BTreeMap<String, Vec<Rule>> = BTreeMap::new();
    let mut twice = BTreeSet::new();
    for (n, ts) in defs {
        if table.contains_key(&n) {
            twice.insert(n.clone());
        }
        if let Some(r) = rules(ts) {
            table.insert(n, r);
        }
    }
    for n in twice {
        table.remove(&n);
    }
    if table.is_empty() {
        return;
    }
    for m in mods.iter_mut() {
        let mut x = Expand { table: &table, depth: 1000, done: 0 };
        for _ in 0..32 {
            let mut again = false;
            let mut out = vec![];
            for i in std::mem::take(&mut m.items) {
                if let Item::Macro(mm) = &i {
                    if let Some(l) = x.items::<Item>(&mm.mac) {
                        if l.iter().all(|i| !matches!(i, Item::Mod(_))) {
                            again = true;
                            out.extend(l.into_iter().filter(|i| !crate::krate::is_test(crate::krate::item_attrs(i))));
                            continue;
                        }
                    }
                }
                out.push(i);
            }
            m.items = out;
            if !again {
                break;
            }
        }
        for i in m.items.iter_mut() {
            x.visit_item_mut(i);
        }
    }
}
