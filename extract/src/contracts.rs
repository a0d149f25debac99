//! The contract files: sections `## key` with sub-sections `# name [args]`, raw text below.
use std::collections::BTreeMap;

#[derive(Clone, Debug, Default)]
pub struct Contract {
    pub key: String,
    pub props: Vec<String>,
    pub spec: String,
    pub attr: String,
    pub pre: String,
    pub items: String,
    pub fromspec: String,
    pub loops: BTreeMap<usize, LoopC>,
    /// for the same loops, where the code has not the locals `loops` speaks of
    pub alts: BTreeMap<usize, LoopC>,
    /// for the loops that have no invariant of their own
    pub any_loop: Option<LoopC>,
    pub unroll: Option<usize>,
    /// a parameter the extracted function has in addition
    pub param: String,
    pub is_unit: bool,
    pub public: bool,
    pub arity: Option<usize>,
    pub trusted: bool,
}

#[derive(Clone, Debug, Default)]
pub struct LoopC {
    pub spec: String,
    pub body: String,
    pub before: String,
    pub after: String,
}

pub type Contracts = BTreeMap<String, Contract>;

pub fn load(dir: &str, out: &mut Contracts) {
    let mut files: Vec<_> = std::fs::read_dir(dir)
        .unwrap()
        .map(|e| e.unwrap().path())
        .filter(|p| p.extension().map_or(false, |e| e == "vc"))
        .collect();
    files.sort();
    for f in files {
        parse(&std::fs::read_to_string(&f).unwrap(), out);
    }
}

fn parse(text: &str, out: &mut Contracts) {
    let mut cur: Option<Contract> = None;
    let mut sub: Vec<String> = vec![];
    for line in text.lines() {
        if let Some(k) = line.strip_prefix("## ") {
            if let Some(c) = cur.take() {
                out.insert(c.key.clone(), c);
            }
            let k = k.trim();
            cur = Some(Contract {
                key: k.to_string(),
                ..Default::default()
            });
            sub = vec!["spec".into()];
            continue;
        }
        let c = match cur.as_mut() {
            Some(c) => c,
            None => continue,
        };
        if let Some(s) = line.strip_prefix("# ") {
            sub = s.split_whitespace().map(|x| x.to_string()).collect();
            match sub[0].as_str() {
                "props" => {
                    c.props = sub[1..].to_vec();
                    sub = vec!["spec".into()];
                }
                "unroll" => {
                    c.unroll = Some(sub[1].parse().unwrap());
                    sub = vec!["spec".into()];
                }
                "arity" => {
                    c.arity = Some(sub[1].parse().unwrap());
                    sub = vec!["spec".into()];
                }
                "public" => {
                    c.public = true;
                    sub = vec!["spec".into()];
                }
                "loops" => {
                    c.any_loop.get_or_insert_with(Default::default);
                }
                "loop" => {
                    c.loops.entry(sub[1].parse().unwrap()).or_default();
                }
                "alt" => {
                    c.alts.entry(sub[1].parse().unwrap()).or_default();
                }
                _ => {}
            }
            continue;
        }
        let dst: &mut String = match sub[0].as_str() {
            "spec" => &mut c.spec,
            "attr" => &mut c.attr,
            "pre" => &mut c.pre,
            "items" => &mut c.items,
            "param" => &mut c.param,
            "fromspec" => &mut c.fromspec,
            "loops" => {
                let l = c.any_loop.as_mut().unwrap();
                match sub.get(1).map(|x| x.as_str()) {
                    None => &mut l.spec,
                    Some("body") => &mut l.body,
                    Some("before") => &mut l.before,
                    Some("after") => &mut l.after,
                    Some(x) => panic!("loop part {}", x),
                }
            }
            kind @ ("loop" | "alt") => {
                let of = if kind == "loop" { &mut c.loops } else { &mut c.alts };
                let l = of.get_mut(&sub[1].parse().unwrap()).unwrap();
                match sub.get(2).map(|x| x.as_str()) {
                    None => &mut l.spec,
                    Some("body") => &mut l.body,
                    Some("before") => &mut l.before,
                    Some("after") => &mut l.after,
                    Some(x) => panic!("loop part {}", x),
                }
            }
            x => panic!("section {}", x),
        };
        dst.push_str(line);
        dst.push('\n');
    }
    if let Some(c) = cur.take() {
        out.insert(c.key.clone(), c);
    }
}
