// Converts ../spec/spec.rs (the specification the verifier uses) into plain Rust functions.
use std::{env, fs, path::Path};

fn word_replace(line: &str, from: &str, to: &str) -> String {
    let b = line.as_bytes();
    let ok = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
    let mut out = String::new();
    let mut i = 0;
    while i < line.len() {
        if line[i..].starts_with(from)
            && (i == 0 || !ok(b[i - 1]))
            && (i + from.len() == b.len() || !ok(b[i + from.len()]))
        {
            out.push_str(to);
            i += from.len();
        } else {
            let c = line[i..].chars().next().unwrap();
            out.push(c);
            i += c.len_utf8();
        }
    }
    out
}

// "text"@  ->  lit("text")
fn literals(line: &str) -> String {
    let mut out = String::new();
    let mut rest = line;
    while let Some(p) = rest.find("\"@") {
        let start = rest[..p].rfind('"').expect("literal");
        out.push_str(&rest[..start]);
        out.push_str("lit(");
        out.push_str(&rest[start..=p]);
        out.push(')');
        rest = &rest[p + 2..];
    }
    out.push_str(rest);
    out
}

fn main() {
    println!("cargo:rerun-if-changed=../spec/spec.rs");
    let text = fs::read_to_string("../spec/spec.rs").unwrap();
    let mut out = String::new();
    let mut skip = false;
    for line in text.lines() {
        let t = line.trim();
        if skip {
            skip = false;
            continue;
        }
        if t == "decreases" || t.starts_with("decreases ") {
            skip = t == "decreases";
            continue;
        }
        if t.starts_with("use vstd") || t.starts_with("pub use crate::octets") || t == "#[verifier::opaque]" {
            continue;
        }
        if t.starts_with("pub enum ") || t.starts_with("pub struct ") {
            out.push_str("#[derive(Clone, Copy, PartialEq, Debug)]\n");
        }
        let l = line.replace("pub open spec fn ", "pub fn ");
        let l = word_replace(&l, "int", "i128");
        out.push_str(&literals(&l));
        out.push('\n');
    }
    fs::write(Path::new(&env::var("OUT_DIR").unwrap()).join("spec.rs"), out).unwrap();
}
