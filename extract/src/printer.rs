//! Prints token streams as Rust text, one statement per line, and replaces the
//! marker identifiers `__VMARK_n` / `__VLOOP_n` by raw text.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

#[derive(Clone)]
pub struct Raw {
    pub texts: Vec<String>,
}

pub fn print(ts: TokenStream, raw: &Raw) -> String {
    let mut out = String::new();
    go(ts, raw, &mut out);
    out
}

fn marker(id: &str, prefix: &str) -> Option<usize> {
    id.strip_prefix(prefix).and_then(|x| x.parse().ok())
}

fn go(ts: TokenStream, raw: &Raw, out: &mut String) {
    let toks: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    while i < toks.len() {
        match &toks[i] {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("", ""),
                };
                let mut inner = g.stream();
                if g.delimiter() == Delimiter::Brace {
                    let v: Vec<TokenTree> = inner.clone().into_iter().collect();
                    if let Some(TokenTree::Ident(id)) = v.first() {
                        if let Some(n) = marker(&id.to_string(), "__VLOOP_") {
                            out.push('\n');
                            out.push_str(&raw.texts[n]);
                            out.push('\n');
                            inner = v.into_iter().skip(2).collect();
                        }
                    }
                    out.push_str("{\n");
                } else {
                    out.push_str(o);
                }
                go(inner, raw, out);
                if g.delimiter() == Delimiter::Brace {
                    out.push_str("\n}");
                    // keep `} else`, `}.x`, `})` on the line
                    match toks.get(i + 1) {
                        Some(TokenTree::Ident(id)) if *id == "else" => out.push(' '),
                        Some(TokenTree::Punct(p)) if ".,;?".contains(p.as_char()) => {}
                        _ => out.push('\n'),
                    }
                } else {
                    out.push_str(c);
                    out.push(' ');
                }
            }
            TokenTree::Ident(id) => {
                let s = id.to_string();
                if let Some(n) = marker(&s, "__VMARK_") {
                    out.push('\n');
                    out.push_str(&raw.texts[n]);
                    out.push('\n');
                    // drop the `;` that follows
                    i += 1;
                } else {
                    out.push_str(&s);
                    out.push(' ');
                }
            }
            TokenTree::Punct(p) => {
                out.push(p.as_char());
                if p.as_char() == ';' {
                    out.push('\n');
                } else if p.spacing() == Spacing::Alone {
                    out.push(' ');
                }
            }
            TokenTree::Literal(l) => {
                out.push_str(&l.to_string());
                out.push(' ');
            }
        }
        i += 1;
    }
}
