use crate::rewrite::LoopInfo;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Default, Clone)]
pub struct Clause {
    pub name: String,
    pub props: Vec<String>,
    pub text: String,
}

#[derive(Default, Clone)]
pub struct LoopC {
    /// substring that the (normalised) iterated expression must contain; "" = any
    pub base: String,
    pub inv: Vec<String>,
    /// type of the accumulator (`@loop base :: TYPE`)
    pub acc_ty: String,
    /// proof text at the start / end of the loop body (lines `> ...`, `< ...`)
    pub head: String,
    pub tail: String,
}

#[derive(Default, Clone)]
pub struct FnC {
    pub props: Vec<String>,
    pub requires: Vec<Clause>,
    pub ensures: Vec<Clause>,
    pub head: String,
    pub tail: String,
    pub attrs: String,
    pub loops: Vec<LoopC>,
    pub trusted: bool,
    pub collect_into: bool,
}

impl FnC {
    pub fn loop_invariants(&self, l: &LoopInfo) -> (Vec<String>, Option<String>) {
        match self.loops.get(l.ord) {
            None => (vec![], Some(format!("loop {} has no contract", l.ord))),
            Some(c) => {
                // tried all the same: an invariant that does not fit fails, and the function counts as out of reach
                let why = if !c.base.is_empty() && !l.base.contains(&c.base) { Some(format!("loop {} iterates over `{}`, contract expects `{}`", l.ord, l.base, c.base)) } else { None };
                let joined = c.inv.join("\n");
                if joined.contains("$acc") && l.acc.is_none() {
                    return (vec![], Some(format!("loop {}: no unique accumulator", l.ord)));
                }
                (c.inv.clone(), why)
            }
        }
    }
}

#[derive(Default)]
pub struct Contracts {
    pub files: Vec<String>,
    pub features: Vec<String>,
    pub drop: BTreeSet<String>,
    pub retrait: std::collections::HashMap<String, String>,
    pub structural: BTreeSet<String>,
    pub prelude: String,
    pub postlude: String,
    pub trait_extra: BTreeMap<String, String>,
    pub impl_extra: BTreeMap<String, String>,
    pub fns: BTreeMap<String, FnC>,
}

impl Contracts {
    pub fn load(&mut self, path: &str) {
        let src = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("cannot read {path}: {e}"));
        let mut lines = src.lines().peekable();
        let err = |s: &str| -> ! { panic!("{path}: {s}") };
        while let Some(l) = lines.next() {
            let t = l.trim();
            if t.is_empty() || t.starts_with("//") {
                continue;
            }
            let mut w = t.split_whitespace();
            let mut block = || {
                let mut s = String::new();
                loop {
                    match lines.next() {
                        None => panic!("{path}: unterminated block {t}"),
                        Some(x) if x.trim() == "@end" => break,
                        Some(x) => {
                            s.push_str(x);
                            s.push('\n');
                        }
                    }
                }
                s
            };
            match w.next().unwrap() {
                "@file" => self.files.push(w.next().unwrap().to_string()),
                "@feature" => self.features.push(w.next().unwrap().to_string()),
                "@drop" => {
                    self.drop.insert(t["@drop".len()..].trim().to_string());
                }
                // impls of this trait are taken as impls of a stand-in with contracts
                "@retrait" => {
                    let (a, b) = (w.next().unwrap().to_string(), w.next().unwrap().to_string());
                    self.retrait.insert(a, b);
                }
                "@structural" => {
                    for x in w {
                        self.structural.insert(x.to_string());
                    }
                }
                "@prelude" => {
                    let b = block();
                    self.prelude.push_str(&b)
                }
                "@verus" => {
                    let b = block();
                    // lemmas, like functions, each have a prover run of their own
                    for l in b.lines() {
                        if ["proof fn ", "pub proof fn ", "pub broadcast proof fn ", "broadcast proof fn "].iter().any(|p| l.starts_with(p)) {
                            self.postlude.push_str("#[verifier::spinoff_prover]\n");
                        }
                        self.postlude.push_str(l);
                        self.postlude.push('\n');
                    }
                }
                "@trait" => {
                    let k = t["@trait".len()..].trim().to_string();
                    let b = block();
                    self.trait_extra.entry(k).or_default().push_str(&b);
                }
                "@impl" => {
                    let k = t["@impl".len()..].trim().to_string();
                    let b = block();
                    self.impl_extra.entry(k).or_default().push_str(&b);
                }
                "@fn" => {
                    let rest = t["@fn".len()..].trim();
                    let (key, props) = match rest.find('[') {
                        Some(i) => (rest[..i].trim().to_string(), rest[i + 1..].trim_end_matches(']').split(',').map(|s| s.trim().to_string()).filter(|s| !s.is_empty()).collect()),
                        None => (rest.to_string(), vec![]),
                    };
                    let b = block();
                    let f = parse_fn(&b, props, path);
                    if self.fns.insert(key.clone(), f).is_some() {
                        err(&format!("duplicate contract for {key}"));
                    }
                }
                x => err(&format!("unknown directive {x}")),
            }
        }
    }
}

fn parse_fn(b: &str, props: Vec<String>, path: &str) -> FnC {
    let mut f = FnC { props: props.clone(), ..Default::default() };
    let mut sec = String::new();
    fn add(v: &mut Vec<Clause>, l: &str, props: &[String]) {
        let t = l.trim();
        if let Some(r) = t.strip_prefix("* ") {
            let (name, pr, text) = match r.strip_prefix('[').and_then(|x| x.find(']').map(|i| (&x[..i], &x[i + 1..]))) {
                Some((tag, rest)) => {
                    let mut name = String::new();
                    let mut pr = vec![];
                    for x in tag.split(',') {
                        let x = x.trim();
                        if let Some(p) = x.strip_prefix('#') {
                            pr.push(p.to_string());
                        } else {
                            name = x.to_string();
                        }
                    }
                    if pr.is_empty() {
                        pr = props.to_vec();
                    }
                    (name, pr, rest.trim().to_string())
                }
                None => (String::new(), props.to_vec(), r.to_string()),
            };
            v.push(Clause { name, props: pr, text });
        } else if let Some(c) = v.last_mut() {
            c.text.push_str("\n            ");
            c.text.push_str(t);
        }
    }
    for l in b.lines() {
        let t = l.trim();
        if t.starts_with("//") {
            continue;
        }
        if t.starts_with('@') {
            sec = t.to_string();
            if t == "@collect" {
                f.collect_into = true;
            } else if t == "@trusted" {
                f.trusted = true;
            }
            if let Some(r) = t.strip_prefix("@loop") {
                let (b, ty) = r.split_once("::TY ").unwrap_or((r, ""));
                f.loops.push(LoopC { base: b.trim().to_string(), inv: vec![], acc_ty: ty.trim().to_string(), head: String::new(), tail: String::new() });
            }
            if let Some(r) = t.strip_prefix("@attr ") {
                f.attrs.push_str(r);
                f.attrs.push('\n');
            }
            continue;
        }
        if t.is_empty() {
            continue;
        }
        match sec.split_whitespace().next().unwrap_or("") {
            "@requires" => add(&mut f.requires, l, &props),
            "@ensures" => add(&mut f.ensures, l, &props),
            "@head" => {
                f.head.push_str(l);
                f.head.push('\n')
            }
            "@tail" => {
                f.tail.push_str(l);
                f.tail.push('\n')
            }
            "@loop" => {
                let lc = f.loops.last_mut().unwrap();
                if let Some(r) = t.strip_prefix("> ") {
                    lc.head.push_str(r);
                    lc.head.push('\n');
                    continue;
                }
                if let Some(r) = t.strip_prefix("< ") {
                    lc.tail.push_str(r);
                    lc.tail.push('\n');
                    continue;
                }
                let inv = &mut lc.inv;
                if let Some(r) = t.strip_prefix("* ") {
                    inv.push(r.to_string());
                } else {
                    let k = inv.len() - 1;
                    inv[k].push(' ');
                    inv[k].push_str(t);
                }
            }
            s => panic!("{path}: stray line `{l}` in section {s}"),
        }
    }
    f
}
