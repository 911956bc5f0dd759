//! vx-extract: mechanical extraction of omnipaxos functions into a Verus file.
//! Every executable token in the output comes from /repo's current sources; this tool only
//!  - selects items and evaluates `cfg`s,
//!  - applies the rewrite rules listed in DESIGN.md ("what the extraction changes"),
//!  - splices the contracts of contracts/*.vspec around the functions.
mod contracts;
mod inline;
mod norm;
mod rewrite;

use contracts::{Clause, Contracts};
use proc_macro2::TokenStream;
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::VisitMut;
use syn::*;

pub struct Ctx {
    pub features: BTreeSet<String>,
    /// struct name -> field name -> type
    pub structs: BTreeMap<String, BTreeMap<String, Type>>,
    /// every function by key
    pub funs: BTreeMap<String, Fun>,
    /// fn simple name -> return types seen
    pub rets: BTreeMap<String, Vec<Type>>,
    pub macros: BTreeMap<String, rewrite::MacroDef>,
    pub modules: BTreeSet<String>,
    /// traits whose impls are taken as impls of a stand-in with contracts
    pub retrait: std::collections::HashMap<String, String>,
}

#[derive(Clone)]
pub struct Fun {
    pub key: String,
    pub owner: Option<String>,
    pub trait_: Option<String>,
    pub sig: Signature,
    pub block: Option<Block>,
    pub file: String,
    pub line: usize,
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut repo = String::new();
    let mut contracts_files = vec![];
    let mut out = String::new();
    let mut map_out = String::new();
    let mut trusted: BTreeSet<String> = BTreeSet::new();
    let mut probe = String::new();
    let mut derive = String::new();
    let mut uncontracted: BTreeSet<String> = BTreeSet::new();
    let mut i = 1;
    while i < args.len() {
        let v = || args[i + 1].clone();
        match args[i].as_str() {
            "--repo" => repo = v(),
            "--contracts" => contracts_files.push(v()),
            "--out" => out = v(),
            "--map" => map_out = v(),
            "--probe" => probe = v(),
            "--derive" => derive = v(),
            "--trust" => trusted.extend(v().split(',').filter(|s| !s.is_empty()).map(|s| s.to_string())),
            "--nocontract" => uncontracted.extend(v().split(',').filter(|s| !s.is_empty()).map(|s| s.to_string())),
            a => panic!("bad arg {a}"),
        }
        i += 2;
    }
    let mut contracts = Contracts::default();
    for f in &contracts_files {
        contracts.load(f);
    }
    for u in &uncontracted {
        contracts.fns.remove(u);
    }
    let mut ctx = Ctx {
        features: contracts.features.iter().cloned().collect(),
        structs: Default::default(),
        funs: Default::default(),
        rets: Default::default(),
        macros: Default::default(),
        modules: Default::default(),
        retrait: contracts.retrait.clone(),
    };
    // ---- load
    let mut items: Vec<(String, Item)> = vec![];
    for f in &contracts.files {
        // @derive: what the derive macro of the tree makes of the entry of derive/src/lib.rs
        let path = if f == "@derive" { derive.clone() } else { format!("{repo}/{f}") };
        let src = std::fs::read_to_string(&path).unwrap_or_else(|e| panic!("cannot read {path}: {e}"));
        let file = syn::parse_file(&src).unwrap_or_else(|e| panic!("cannot parse {path}: {e}"));
        let stem = std::path::Path::new(f).file_stem().unwrap().to_string_lossy().to_string();
        ctx.modules.insert(stem);
        for comp in f.split('/') {
            ctx.modules.insert(comp.to_string());
        }
        flatten(&mut ctx, f, file.items, &mut items);
    }
    // ---- tables
    let mut keep: Vec<(String, Item)> = vec![];
    let mut dropped: Vec<String> = vec![];
    for (f, it) in items {
        let name = item_name(&it);
        if contracts.drop.contains(&name) {
            dropped.push(name);
            continue;
        }
        match &it {
            Item::Use(_) | Item::Macro(_) | Item::Mod(_) => continue,
            Item::Impl(im) => {
                if let Some((_, p, _)) = &im.trait_ {
                    let t = p.segments.last().unwrap().ident.to_string();
                    if ["Display", "Error", "Debug", "Serialize", "Deserialize"].contains(&t.as_str()) {
                        continue;
                    }
                }
            }
            _ => {}
        }
        keep.push((f, it));
    }
    for (f, it) in &keep {
        match it {
            Item::Struct(s) => {
                let mut m = BTreeMap::new();
                for fl in &s.fields {
                    if let Some(id) = &fl.ident {
                        m.insert(id.to_string(), fl.ty.clone());
                    }
                }
                ctx.structs.insert(s.ident.to_string(), m);
            }
            Item::Impl(im) => {
                let ty = type_name(&im.self_ty);
                let tr = im.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
                for ii in &im.items {
                    if let ImplItem::Fn(m) = ii {
                        let key = fn_key(Some(&ty), tr.as_deref(), &m.sig.ident.to_string());
                        add_fun(&mut ctx, Fun { key, owner: Some(ty.clone()), trait_: tr.clone(), sig: m.sig.clone(), block: Some(m.block.clone()), file: f.clone(), line: m.sig.ident.span().start().line });
                    }
                }
            }
            Item::Trait(t) => {
                for ti in &t.items {
                    if let TraitItem::Fn(m) = ti {
                        let key = format!("{}::{}", t.ident, m.sig.ident);
                        add_fun(&mut ctx, Fun { key, owner: Some(t.ident.to_string()), trait_: Some("<decl>".into()), sig: m.sig.clone(), block: None, file: f.clone(), line: m.sig.ident.span().start().line });
                    }
                }
            }
            Item::Fn(m) => {
                add_fun(&mut ctx, Fun { key: m.sig.ident.to_string(), owner: None, trait_: None, sig: m.sig.clone(), block: Some((*m.block).clone()), file: f.clone(), line: m.sig.ident.span().start().line });
            }
            _ => {}
        }
    }
    // expand macros in all bodies first, so that inlining sees plain code
    let keys: Vec<String> = ctx.funs.keys().cloned().collect();
    for k in &keys {
        let mut f = ctx.funs[k].clone();
        if let Some(b) = &mut f.block {
            rewrite::MacroExpander { ctx: &ctx }.visit_block_mut(b);
        }
        ctx.funs.insert(k.clone(), f);
    }
    // ---- emit
    let mut em = Emitter { out: String::new(), map: vec![], ctx: &ctx, contracts: &contracts, trusted: &trusted, probe, inlined: BTreeSet::new(), emitted: BTreeSet::new() };
    em.raw(&contracts.prelude);
    em.raw("\nverus! {\n");
    for (f, it) in &keep {
        em.item(f, it);
    }
    em.raw(&contracts.postlude);
    em.raw("\n} // verus!\nfn main() {}\n");
    std::fs::write(&out, &em.out).unwrap();
    let missing: Vec<String> = contracts.fns.keys().filter(|k| !em.emitted.contains(*k)).cloned().collect();
    let j = serde_json::json!({
        "functions": em.map,
        "missing_contract_targets": missing,
        "inlined": em.inlined.iter().collect::<Vec<_>>(),
        "dropped_items": dropped,
    });
    std::fs::write(&map_out, serde_json::to_string_pretty(&j).unwrap()).unwrap();
}

fn add_fun(ctx: &mut Ctx, f: Fun) {
    if let ReturnType::Type(_, t) = &f.sig.output {
        ctx.rets.entry(f.sig.ident.to_string()).or_default().push((**t).clone());
    }
    ctx.funs.insert(f.key.clone(), f);
}

pub fn fn_key(owner: Option<&str>, tr: Option<&str>, name: &str) -> String {
    match (owner, tr) {
        (Some(o), Some(t)) => format!("<{o} as {t}>::{name}"),
        (Some(o), None) => format!("{o}::{name}"),
        _ => name.to_string(),
    }
}

pub fn type_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Reference(r) => type_name(&r.elem),
        _ => t.to_token_stream().to_string(),
    }
}

fn item_name(it: &Item) -> String {
    match it {
        Item::Struct(s) => s.ident.to_string(),
        Item::Enum(s) => s.ident.to_string(),
        Item::Trait(s) => format!("trait {}", s.ident),
        Item::Type(s) => s.ident.to_string(),
        Item::Const(s) => s.ident.to_string(),
        Item::Fn(s) => s.sig.ident.to_string(),
        Item::Impl(im) => {
            let ty = type_name(&im.self_ty);
            match &im.trait_ {
                Some((_, p, _)) => format!("<{} as {}>", ty, p.segments.last().unwrap().ident),
                None => format!("impl {ty}"),
            }
        }
        _ => String::new(),
    }
}

fn flatten(ctx: &mut Ctx, file: &str, items: Vec<Item>, out: &mut Vec<(String, Item)>) {
    for mut it in items {
        if !rewrite::cfg_ok(rewrite::item_attrs(&it), &ctx.features) {
            continue;
        }
        match it {
            Item::Mod(m) => {
                ctx.modules.insert(m.ident.to_string());
                if let Some((_, its)) = m.content {
                    flatten(ctx, file, its, out);
                }
            }
            Item::Macro(m) => {
                if let (true, Some(id)) = (m.mac.path.is_ident("macro_rules"), &m.ident) {
                    if let Some(d) = rewrite::MacroDef::parse(m.mac.tokens.clone()) {
                        ctx.macros.insert(id.to_string(), d);
                    }
                }
            }
            _ => {
                rewrite::CfgStrip { features: ctx.features.clone() }.visit_item_mut(&mut it);
                out.push((file.to_string(), it));
            }
        }
    }
}

struct Emitter<'a> {
    out: String,
    map: Vec<serde_json::Value>,
    ctx: &'a Ctx,
    contracts: &'a Contracts,
    trusted: &'a BTreeSet<String>,
    /// "head" or "tail": an assertion of false there in every body (a check of the contracts, not of the code)
    probe: String,
    inlined: BTreeSet<String>,
    emitted: BTreeSet<String>,
}

fn toks<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}

impl<'a> Emitter<'a> {
    fn raw(&mut self, s: &str) {
        self.out.push_str(s);
    }
    fn line(&self) -> usize {
        self.out.matches('\n').count() + 1
    }

    fn tyfix(&self, t: &mut Type) {
        rewrite::PathFix { ctx: self.ctx }.visit_type_mut(t);
    }

    fn item(&mut self, file: &str, it: &Item) {
        match it {
            Item::Struct(s) => {
                let mut s = s.clone();
                let derives = derive_list(&s.attrs);
                s.attrs.clear();
                s.vis = parse_quote!(pub);
                for f in s.fields.iter_mut() {
                    f.attrs.clear();
                    f.vis = parse_quote!(pub);
                    self.tyfix(&mut f.ty);
                }
                rewrite::PathFix { ctx: self.ctx }.visit_generics_mut(&mut s.generics);
                let generic = !s.generics.params.is_empty();
                let fields: Vec<(String, Type)> = s.fields.iter().filter_map(|f| f.ident.as_ref().map(|i| (i.to_string(), f.ty.clone()))).collect();
                let structural = !generic && s.fields.iter().all(|f| self.is_structural(&f.ty));
                self.derive_attr(&derives, structural);
                let txt = prettyplease::unparse(&File { shebang: None, attrs: vec![], items: vec![Item::Struct(s.clone())] });
                self.raw(&txt);
                self.derived(file, &s.ident.to_string(), &s.generics, &derives, &fields, structural);
            }
            Item::Enum(s) => {
                let mut s = s.clone();
                let derives = derive_list(&s.attrs);
                s.attrs.clear();
                s.vis = parse_quote!(pub);
                for v in s.variants.iter_mut() {
                    v.attrs.clear();
                    for f in v.fields.iter_mut() {
                        f.attrs.clear();
                        self.tyfix(&mut f.ty);
                    }
                }
                rewrite::PathFix { ctx: self.ctx }.visit_generics_mut(&mut s.generics);
                let generic = !s.generics.params.is_empty();
                let structural = !generic && s.variants.iter().all(|v| v.fields.iter().all(|f| self.is_structural(&f.ty)));
                self.derive_attr(&derives, structural);
                let txt = prettyplease::unparse(&File { shebang: None, attrs: vec![], items: vec![Item::Enum(s.clone())] });
                self.raw(&txt);
                self.derived(file, &s.ident.to_string(), &s.generics, &derives, &[], structural);
            }
            Item::Const(c) => {
                let mut ty = (*c.ty).clone();
                self.tyfix(&mut ty);
                let t = toks(&ty);
                if let Expr::Lit(ExprLit { lit: Lit::ByteStr(b), .. }) = &*c.expr {
                    // a database key: the number its bytes spell
                    let v = b.value().iter().fold(0u128, |a, x| (a << 8) | *x as u128);
                    self.raw(&format!("pub const {}: u128 = {}u128;\n", c.ident, v));
                } else if t.contains("str") {
                    self.raw(&format!("pub const {}: &'static str = {};\n", c.ident, toks(&c.expr)));
                } else {
                    self.raw(&format!("pub const {}: {} = {};\n", c.ident, t, toks(&c.expr)));
                }
            }
            Item::Type(t) => {
                let mut ty = (*t.ty).clone();
                self.tyfix(&mut ty);
                self.raw(&format!("pub type {}{} = {};\n", t.ident, toks(&t.generics), toks(&ty)));
            }
            Item::Trait(t) => {
                let name = t.ident.to_string();
                let mut g = t.generics.clone();
                rewrite::PathFix { ctx: self.ctx }.visit_generics_mut(&mut g);
                let (ig, _, wc) = g.split_for_impl();
                self.raw(&format!("pub trait {}{}: Sized {} {{\n", name, toks(&ig), toks(&wc)));
                if let Some(x) = self.contracts.trait_extra.get(&name) {
                    self.raw(x);
                }
                for ti in &t.items {
                    if let TraitItem::Type(ty) = ti {
                        let b: Vec<String> = ty.bounds.iter().map(|b| toks(b)).collect();
                        self.raw(&format!("type {}: {};\n", ty.ident, b.join(" + ")));
                    }
                    if let TraitItem::Fn(m) = ti {
                        let key = format!("{}::{}", name, m.sig.ident);
                        let f = self.ctx.funs[&key].clone();
                        self.fun(&f, false);
                    }
                }
                self.raw("}\n");
            }
            Item::Impl(im) => {
                let ty = type_name(&im.self_ty);
                let tr = im.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
                let mut g = im.generics.clone();
                rewrite::PathFix { ctx: self.ctx }.visit_generics_mut(&mut g);
                let (ig, _, wc) = g.split_for_impl();
                let mut sty = (*im.self_ty).clone();
                self.tyfix(&mut sty);
                let head = match &im.trait_ {
                    Some((_, p, _)) => {
                        let mut p = p.clone();
                        rewrite::PathFix { ctx: self.ctx }.visit_path_mut(&mut p);
                        if let Some(n) = tr.as_ref().and_then(|t| self.contracts.retrait.get(t)) {
                            p = syn::parse_str(n).unwrap();
                        }
                        format!("impl{} {} for {} {} {{\n", toks(&ig), toks(&p), toks(&sty), toks(&wc))
                    }
                    None => format!("impl{} {} {} {{\n", toks(&ig), toks(&sty), toks(&wc)),
                };
                self.raw(&head);
                if let Some(t) = &tr {
                    if let Some(x) = self.contracts.impl_extra.get(&format!("<{ty} as {t}>")) {
                        self.raw(x);
                    }
                }
                for ii in &im.items {
                    match ii {
                        ImplItem::Fn(m) => {
                            let key = fn_key(Some(&ty), tr.as_deref(), &m.sig.ident.to_string());
                            if self.contracts.drop.contains(&key) {
                                continue;
                            }
                            let f = self.ctx.funs[&key].clone();
                            self.fun(&f, tr.is_none());
                        }
                        ImplItem::Type(t) => {
                            let mut tt = t.ty.clone();
                            self.tyfix(&mut tt);
                            self.raw(&format!("type {} = {};\n", t.ident, toks(&tt)));
                        }
                        _ => {}
                    }
                }
                self.raw("}\n");
            }
            Item::Fn(m) => {
                let key = m.sig.ident.to_string();
                if !self.contracts.drop.contains(&key) {
                    let f = self.ctx.funs[&key].clone();
                    self.fun(&f, true);
                }
            }
            _ => {}
        }
    }

    fn is_structural(&self, t: &Type) -> bool {
        let n = type_name(t);
        match t {
            Type::Path(p) if p.path.segments.last().unwrap().arguments.is_empty() => {
                ["u8", "u16", "u32", "u64", "usize", "bool", "i32", "i64", "NodeId", "ConfigurationId", "TrimmedIndex"].contains(&n.as_str()) || self.contracts.structural.contains(&n)
            }
            _ => false,
        }
    }

    fn derive_attr(&mut self, d: &[String], structural: bool) {
        let has = |x: &str| d.iter().any(|y| y == x);
        let mut v = vec![];
        if has("Copy") {
            v.push("Clone");
            v.push("Copy");
        }
        if has("PartialEq") && structural {
            v.push("PartialEq");
            v.push("Eq");
            v.push("Structural");
        }
        if !v.is_empty() {
            self.raw(&format!("#[derive({})]\n", v.join(", ")));
        }
    }

    fn derived(&mut self, file: &str, name: &str, g: &Generics, d: &[String], fields: &[(String, Type)], _structural: bool) {
        let has = |x: &str| d.iter().any(|y| y == x);
        let (ig, tg, wc) = g.split_for_impl();
        let (ig, tg, wc) = (toks(&ig), toks(&tg), toks(&wc));
        if has("Clone") && !has("Copy") {
            // derived Clone: a field-by-field copy (trusted contract)
            self.raw(&format!("impl{ig} Clone for {name}{tg} {wc} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}\n"));
        }
        if has("Default") && !fields.is_empty() {
            let inits: Vec<String> = fields
                .iter()
                .map(|(n, t)| {
                    let tn = toks(t);
                    let v = match tn.as_str() {
                        "u8" | "u32" | "u64" | "usize" | "NodeId" | "ConfigurationId" => "0".to_string(),
                        "bool" => "false".to_string(),
                        s if s.starts_with("Option") => "None".to_string(),
                        s if s.starts_with("Vec") => "Vec::new()".to_string(),
                        _ => "Default::default()".to_string(),
                    };
                    format!("{n}: {v}")
                })
                .collect();
            let key = format!("<{name} as Default>::default");
            let body = format!("{{ {name} {{ {} }} }}", inits.join(", "));
            let f = Fun {
                key,
                owner: Some(name.into()),
                trait_: Some("Default".into()),
                sig: parse_quote!(fn default() -> Self),
                block: Some(syn::parse_str(&body).unwrap()),
                file: file.into(),
                line: 0,
            };
            self.raw(&format!("impl{ig} Default for {name}{tg} {wc} {{\n"));
            self.fun(&f, false);
            self.raw("}\n");
        }
        if has("Ord") && has("PartialOrd") && !fields.is_empty() {
            // derived Ord is lexicographic in field order
            let mut s = String::from("Ordering::Equal");
            for (n, _) in fields.iter().rev() {
                s = format!("if a.{n} < b.{n} {{ Ordering::Less }} else if a.{n} > b.{n} {{ Ordering::Greater }} else {{ {s} }}");
            }
            self.raw(&format!(
                "pub open spec fn derived_cmp_{name}(a: {name}, b: {name}) -> Ordering {{ {s} }}
impl Ord for {name} {{ fn cmp(&self, other: &Self) -> Ordering {{ let a = self; let b = other; {s} }} }}
impl PartialOrd for {name} {{ fn partial_cmp(&self, other: &Self) -> Option<Ordering> {{ Some(self.cmp(other)) }} }}
impl OrdSpecImpl for {name} {{ open spec fn obeys_cmp_spec() -> bool {{ true }} open spec fn cmp_spec(&self, other: &Self) -> Ordering {{ derived_cmp_{name}(*self, *other) }} }}
impl PartialOrdSpecImpl for {name} {{ open spec fn obeys_partial_cmp_spec() -> bool {{ true }} open spec fn partial_cmp_spec(&self, other: &Self) -> Option<Ordering> {{ Some(derived_cmp_{name}(*self, *other)) }} }}
"
            ));
        }
    }

    fn fun(&mut self, f: &Fun, public: bool) {
        let c = self.contracts.fns.get(&f.key);
        self.emitted.insert(f.key.clone());
        let start = self.line();
        let mut sig = f.sig.clone();
        rewrite::PathFix { ctx: self.ctx }.visit_signature_mut(&mut sig);
        let mut params: Vec<String> = vec![];
        let mut names: Vec<String> = vec![];
        let mut pre_stmts: Vec<Stmt> = vec![];
        let mut unsupported: Option<String> = None;
        for a in sig.inputs.iter() {
            match a {
                FnArg::Receiver(r) => {
                    if r.mutability.is_some() && r.reference.is_none() {
                        params.push("self".into());
                        unsupported = Some("mut self receiver".into());
                    } else {
                        params.push(toks(r));
                    }
                }
                FnArg::Typed(t) => {
                    let (id, m) = match &*t.pat {
                        Pat::Ident(p) => (p.ident.to_string(), p.mutability.is_some()),
                        Pat::Wild(_) => (format!("vp_unused{}", names.len()), false),
                        pat => {
                            let i = Ident::new(&format!("vp_pat{}", names.len()), proc_macro2::Span::call_site());
                            pre_stmts.push(parse_quote!(let #pat = #i;));
                            (i.to_string(), false)
                        }
                    };
                    if m {
                        let i = Ident::new(&id, proc_macro2::Span::call_site());
                        pre_stmts.push(parse_quote!(let mut #i = #i;));
                    }
                    params.push(format!("{}: {}", id, toks(&t.ty)));
                    names.push(id);
                }
            }
        }
        // body
        let mut loops: Vec<rewrite::LoopInfo> = vec![];
        let mut calls_plain: Vec<String> = vec![];
        let mut has_closure = false;
        let mut body_txt = String::new();
        let is_trusted = self.trusted.contains(&f.key) || c.map(|c| c.trusted).unwrap_or(false) || unsupported.is_some();
        if let Some(b) = &f.block {
            if !is_trusted {
                let mut b = b.clone();
                let mut inl = inline::Inliner { ctx: self.ctx, contracts: self.contracts, owner: f.owner.clone(), caller: f.key.clone(), caller_ret: sig.output.clone(), stack: vec![f.key.clone()], done: vec![], plain: vec![], tail: false };
                inl.run(&mut b);
                self.inlined.extend(inl.done.iter().cloned());
                calls_plain = inl.plain.clone();
                for s in pre_stmts.into_iter().rev() {
                    b.stmts.insert(0, s);
                }
                norm::Norm::default().visit_block_mut(&mut b);
                rewrite::LocalClosures.visit_block_mut(&mut b);
                let mut rw = rewrite::Rewriter::new(self.ctx, &sig);
                rw.collect_into = c.map(|c| c.collect_into).unwrap_or(false);
                rw.run(&mut b);
                loops = rw.loops;
                has_closure = rewrite::has_closure(&b);
                let item: Item = Item::Fn(ItemFn { attrs: vec![], vis: Visibility::Inherited, sig: parse_quote!(fn __b()), block: Box::new(b) });
                let txt = prettyplease::unparse(&File { shebang: None, attrs: vec![], items: vec![item] });
                let s = txt.find('{').unwrap();
                let e = txt.rfind('}').unwrap();
                body_txt = txt[s + 1..e].to_string();
            }
        }
        let mut attrs = String::new();
        if is_trusted {
            attrs.push_str("#[verifier::external_body]\n");
        }
        if !loops.is_empty() {
            attrs.push_str("#[verifier::loop_isolation(false)]\n#[verifier::exec_allows_no_decreases_clause]\n");
        }
        if let Some(c) = c {
            attrs.push_str(&c.attrs);
        }
        if !attrs.contains("external_body") && !attrs.contains("spinoff_prover") && c.is_some() && f.block.is_some() {
            // every function has a prover run of its own: what is discharged does not depend on the functions before it
            attrs.push_str("#[verifier::spinoff_prover]\n");
        }
        self.raw(&attrs);
        let vis = if public { "pub " } else { "" };
        let (ig, _, wc) = sig.generics.split_for_impl();
        let ret = match &sig.output {
            ReturnType::Default => String::new(),
            ReturnType::Type(_, t) => format!(" -> (res: {})", toks(t)),
        };
        self.raw(&format!("{vis}fn {}{}({}){} {}\n", sig.ident, toks(&ig), params.join(", "), ret, toks(&wc)));
        let mut clauses: Vec<serde_json::Value> = vec![];
        let sub = |s: &str| -> String {
            let mut s = s.to_string();
            for (k, n) in names.iter().enumerate().rev() {
                s = s.replace(&format!("${}", k + 1), n);
            }
            s
        };
        let put = |em: &mut Self, kw: &str, cls: &[Clause], clauses: &mut Vec<serde_json::Value>| {
            if cls.is_empty() {
                return;
            }
            em.raw(&format!("    {kw}\n"));
            for (i, cl) in cls.iter().enumerate() {
                let l0 = em.line();
                em.raw(&format!("        {},\n", sub(&cl.text)));
                let l1 = em.line() - 1;
                clauses.push(serde_json::json!({"kind": kw, "index": i, "name": cl.name, "props": cl.props, "from": l0, "to": l1}));
            }
        };
        let mut drift: Vec<String> = vec![];
        if let Some(c) = c {
            put(self, "requires", &c.requires, &mut clauses);
            put(self, "ensures", &c.ensures, &mut clauses);
        }
        if f.block.is_none() {
            self.raw(";\n");
        } else if is_trusted {
            self.raw("{ unimplemented!() }\n");
        } else {
            self.raw("{\n");
            if self.probe == "head" {
                self.raw("proof { assert(false); }\n");
            }
            if let Some(c) = c {
                if !c.head.is_empty() {
                    self.raw(&sub(&c.head));
                    self.raw("\n");
                }
            }
            // loops: a loop gets the contract of its place, or, where what it iterates over does not fit, the next one that does
            if let Some(c) = c {
                let fits = |l: &rewrite::LoopInfo, k: usize| c.loops.get(k).map_or(false, |x| x.base.is_empty() || l.base.contains(&x.base));
                if !loops.iter().all(|l| fits(l, l.ord)) {
                    let mut used: Vec<usize> = vec![];
                    let free = |used: &Vec<usize>, l: &rewrite::LoopInfo| (0..c.loops.len()).find(|k| !used.contains(k) && fits(l, *k));
                    let pick: Vec<Option<usize>> = loops.iter().map(|l| {
                        let k = free(&used, l);
                        used.extend(k);
                        k
                    }).collect();
                    for (l, k) in loops.iter_mut().zip(pick) {
                        l.ord = match k {
                            Some(k) => k,
                            None => match (0..c.loops.len()).find(|k| !used.contains(k)) {
                                Some(k) => {
                                    used.push(k);
                                    k
                                }
                                None => c.loops.len(),
                            },
                        };
                    }
                }
            }
            let mut body = body_txt;
            for l in &loops {
                let (inv, why) = match c {
                    Some(c) => c.loop_invariants(l),
                    None => (vec![], None),
                };
                if let Some(w) = why {
                    drift.push(w);
                }
                let lc = if inv.is_empty() { None } else { c.and_then(|c| c.loops.get(l.ord)) };
                let t = |s: &str| sub(&l.subst(s));
                let extra = lc.map(|c| (c.acc_ty.clone(), t(&c.head), t(&c.tail))).unwrap_or_default();
                body = splice_loop(&body, l, &inv.iter().map(|s| t(s)).collect::<Vec<_>>(), &extra);
            }
            if let Some(c) = c {
                if c.loops.len() > loops.len() {
                    drift.push(format!("{} loop contract(s), {} loop(s)", c.loops.len(), loops.len()));
                }
                if !c.tail.is_empty() {
                    body = splice_tail(&body, &sub(&c.tail), !ret.is_empty());
                }
            }
            if self.probe == "tail" {
                body = splice_tail(&body, "proof { assert(false); }", !ret.is_empty());
            }
            self.raw(&body);
            self.raw("\n}\n");
        }
        if has_closure {
            drift.push("a closure the extraction does not translate".into());
        }
        let end = self.line() - 1;
        self.map.push(serde_json::json!({
            "key": f.key, "file": f.file, "line": f.line, "from": start, "to": end,
            "contract": c.is_some(), "props": c.map(|c| c.props.clone()).unwrap_or_default(),
            "trusted": is_trusted, "unsupported": unsupported, "loops": loops.len(), "drift": drift,
            "calls_uncontracted": calls_plain, "clauses": clauses,
            "has_body": f.block.is_some(),
        }));
    }
}

fn derive_list(attrs: &[Attribute]) -> Vec<String> {
    let mut v = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|m| {
                v.push(m.path.segments.last().unwrap().ident.to_string());
                Ok(())
            });
        }
    }
    v
}

/// put the invariants of loop `l` between its header and body, and name its ghost iterator
fn splice_loop(body: &str, l: &rewrite::LoopInfo, inv: &[String], extra: &(String, String, String)) -> String {
    let marker = format!("__vp_inv!({});", l.id);
    let Some(p) = body.find(&marker) else { return body.to_string() };
    let brace = body[..p].rfind('{').unwrap();
    let mut clause = String::new();
    if !inv.is_empty() {
        clause.push_str("\n        invariant\n");
        for i in inv {
            clause.push_str(&format!("            {i},\n"));
        }
    }
    let mut rest_body = body[p + marker.len()..].to_string();
    if !extra.2.is_empty() {
        let mut depth = 1i32;
        for (k, ch) in rest_body.char_indices() {
            match ch {
                '{' => depth += 1,
                '}' => depth -= 1,
                _ => {}
            }
            if depth == 0 {
                rest_body = format!("{}\n{}{}", &rest_body[..k], extra.2, &rest_body[k..]);
                break;
            }
        }
    }
    let mut pre = body[..brace].to_string();
    if !extra.0.is_empty() {
        if let Some(a) = &l.acc {
            pre = pre.replacen(&format!("let mut {a} ="), &format!("let mut {a}: {} =", extra.0), 1);
        }
    }
    let mut s = format!("{}{}{{\n{}{}", pre, clause, extra.1, rest_body);
    let want = format!("{},", l.id);
    let found = s.match_indices("__vp_it(").find_map(|(q, m)| {
        let rest = &s[q + m.len()..];
        let t = rest.trim_start();
        if t.starts_with(&want) { Some((q, m.len() + rest.len() - t.len() + want.len())) } else { None }
    });
    if let Some((q, skip)) = found {
        let mut depth = 1i32;
        let bytes: Vec<char> = s[q + skip..].chars().collect();
        let mut k = 0;
        while depth > 0 {
            match bytes[k] {
                '(' | '[' | '{' => depth += 1,
                ')' | ']' | '}' => depth -= 1,
                _ => {}
            }
            k += 1;
        }
        let inner: String = bytes[..k - 1].iter().collect();
        let rest: String = bytes[k..].iter().collect();
        s = format!("{}vpit{}: {}{}", &s[..q], l.id, inner.trim().trim_end_matches(','), rest);
    }
    s
}

fn splice_tail(body: &str, tail: &str, has_ret: bool) -> String {
    if has_ret {
        format!("let __vp_r = {{ {body} }};\n{tail}\n__vp_r\n")
    } else {
        format!("{{ {body} }}\n{tail}\n")
    }
}

#[allow(dead_code)]
fn _unused(t: TokenStream) -> TokenStream {
    quote!(#t)
}
