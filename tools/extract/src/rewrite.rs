use crate::Ctx;
use proc_macro2::{Span, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::parse::Parser;
use syn::punctuated::Punctuated;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

// ---------------------------------------------------------------- cfg

pub fn item_attrs(it: &Item) -> &[Attribute] {
    match it {
        Item::Const(x) => &x.attrs,
        Item::Enum(x) => &x.attrs,
        Item::Fn(x) => &x.attrs,
        Item::Impl(x) => &x.attrs,
        Item::Macro(x) => &x.attrs,
        Item::Mod(x) => &x.attrs,
        Item::Static(x) => &x.attrs,
        Item::Struct(x) => &x.attrs,
        Item::Trait(x) => &x.attrs,
        Item::Type(x) => &x.attrs,
        Item::Use(x) => &x.attrs,
        _ => &[],
    }
}

pub fn cfg_ok(attrs: &[Attribute], features: &BTreeSet<String>) -> bool {
    attrs.iter().all(|a| {
        if a.path().is_ident("cfg") {
            match a.parse_args::<Meta>() {
                Ok(m) => eval(&m, features),
                Err(_) => true,
            }
        } else {
            true
        }
    })
}

fn eval(m: &Meta, fs: &BTreeSet<String>) -> bool {
    match m {
        Meta::NameValue(nv) if nv.path.is_ident("feature") => {
            if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &nv.value {
                fs.contains(&s.value())
            } else {
                false
            }
        }
        Meta::List(l) => {
            let ms = Punctuated::<Meta, Token![,]>::parse_terminated.parse2(l.tokens.clone()).unwrap_or_default();
            if l.path.is_ident("not") {
                !ms.iter().any(|m| eval(m, fs))
            } else if l.path.is_ident("all") {
                ms.iter().all(|m| eval(m, fs))
            } else if l.path.is_ident("any") {
                ms.iter().any(|m| eval(m, fs))
            } else {
                false
            }
        }
        Meta::Path(p) => p.is_ident("debug_assertions"),
        _ => false,
    }
}

pub fn expr_attrs(e: &mut Expr) -> Option<&mut Vec<Attribute>> {
    Some(match e {
        Expr::Assign(x) => &mut x.attrs,
        Expr::Binary(x) => &mut x.attrs,
        Expr::Block(x) => &mut x.attrs,
        Expr::Call(x) => &mut x.attrs,
        Expr::Field(x) => &mut x.attrs,
        Expr::ForLoop(x) => &mut x.attrs,
        Expr::If(x) => &mut x.attrs,
        Expr::Lit(x) => &mut x.attrs,
        Expr::Macro(x) => &mut x.attrs,
        Expr::Match(x) => &mut x.attrs,
        Expr::MethodCall(x) => &mut x.attrs,
        Expr::Path(x) => &mut x.attrs,
        Expr::Reference(x) => &mut x.attrs,
        Expr::Return(x) => &mut x.attrs,
        Expr::Struct(x) => &mut x.attrs,
        Expr::Tuple(x) => &mut x.attrs,
        Expr::Unary(x) => &mut x.attrs,
        Expr::While(x) => &mut x.attrs,
        Expr::Loop(x) => &mut x.attrs,
        Expr::Let(x) => &mut x.attrs,
        Expr::Index(x) => &mut x.attrs,
        Expr::Closure(x) => &mut x.attrs,
        _ => return None,
    })
}

/// removes what the cfgs exclude and every remaining attribute except derives
pub struct CfgStrip {
    pub features: BTreeSet<String>,
}
impl CfgStrip {
    fn args(&self, a: &mut Punctuated<Expr, Token![,]>) {
        let v: Vec<Expr> = a
            .iter()
            .cloned()
            .filter(|e| {
                let mut e = e.clone();
                expr_attrs(&mut e).map(|a| cfg_ok(a, &self.features)).unwrap_or(true)
            })
            .collect();
        *a = v.into_iter().collect();
    }
}
impl VisitMut for CfgStrip {
    fn visit_fields_named_mut(&mut self, f: &mut FieldsNamed) {
        f.named = f.named.iter().cloned().filter(|x| cfg_ok(&x.attrs, &self.features)).collect();
        visit_mut::visit_fields_named_mut(self, f);
    }
    fn visit_item_enum_mut(&mut self, e: &mut ItemEnum) {
        e.variants = e.variants.iter().cloned().filter(|x| cfg_ok(&x.attrs, &self.features)).collect();
        visit_mut::visit_item_enum_mut(self, e);
    }
    fn visit_item_impl_mut(&mut self, i: &mut ItemImpl) {
        i.items.retain(|x| {
            let a: &[Attribute] = match x {
                ImplItem::Fn(f) => &f.attrs,
                ImplItem::Type(f) => &f.attrs,
                ImplItem::Const(f) => &f.attrs,
                _ => &[],
            };
            cfg_ok(a, &self.features)
        });
        visit_mut::visit_item_impl_mut(self, i);
    }
    fn visit_item_trait_mut(&mut self, i: &mut ItemTrait) {
        i.items.retain(|x| {
            let a: &[Attribute] = match x {
                TraitItem::Fn(f) => &f.attrs,
                TraitItem::Type(f) => &f.attrs,
                TraitItem::Const(f) => &f.attrs,
                _ => &[],
            };
            cfg_ok(a, &self.features)
        });
        visit_mut::visit_item_trait_mut(self, i);
    }
    fn visit_signature_mut(&mut self, s: &mut Signature) {
        s.inputs = s
            .inputs
            .iter()
            .cloned()
            .filter(|a| match a {
                FnArg::Typed(t) => cfg_ok(&t.attrs, &self.features),
                _ => true,
            })
            .map(|mut a| {
                if let FnArg::Typed(t) = &mut a {
                    t.attrs.clear();
                }
                a
            })
            .collect();
        visit_mut::visit_signature_mut(self, s);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.retain_mut(|s| match s {
            Stmt::Local(l) => {
                let k = cfg_ok(&l.attrs, &self.features);
                l.attrs.clear();
                k
            }
            Stmt::Macro(m) => {
                let k = cfg_ok(&m.attrs, &self.features);
                m.attrs.clear();
                k
            }
            Stmt::Expr(e, _) => match expr_attrs(e) {
                Some(a) => {
                    let k = cfg_ok(a, &self.features);
                    a.clear();
                    k
                }
                None => true,
            },
            Stmt::Item(i) => cfg_ok(item_attrs(i), &self.features),
        });
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_match_mut(&mut self, m: &mut ExprMatch) {
        m.arms.retain_mut(|a| {
            let k = cfg_ok(&a.attrs, &self.features);
            a.attrs.clear();
            k
        });
        visit_mut::visit_expr_match_mut(self, m);
    }
    fn visit_expr_struct_mut(&mut self, s: &mut ExprStruct) {
        s.fields = s
            .fields
            .iter()
            .cloned()
            .filter(|f| cfg_ok(&f.attrs, &self.features))
            .map(|mut f| {
                f.attrs.clear();
                f
            })
            .collect();
        visit_mut::visit_expr_struct_mut(self, s);
    }
    fn visit_expr_call_mut(&mut self, c: &mut ExprCall) {
        self.args(&mut c.args);
        visit_mut::visit_expr_call_mut(self, c);
    }
    fn visit_expr_method_call_mut(&mut self, c: &mut ExprMethodCall) {
        self.args(&mut c.args);
        visit_mut::visit_expr_method_call_mut(self, c);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Some(a) = expr_attrs(e) {
            a.clear();
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

// ---------------------------------------------------------------- macros

pub struct MacroDef {
    params: Vec<String>,
    body: TokenStream,
}
impl MacroDef {
    pub fn parse(t: TokenStream) -> Option<MacroDef> {
        let v: Vec<TokenTree> = t.into_iter().collect();
        let TokenTree::Group(pat) = v.first()? else { return None };
        let body = v.iter().skip(1).find_map(|x| if let TokenTree::Group(g) = x { Some(g.stream()) } else { None })?;
        let mut params = vec![];
        let pv: Vec<TokenTree> = pat.stream().into_iter().collect();
        let mut i = 0;
        while i < pv.len() {
            if let TokenTree::Punct(p) = &pv[i] {
                if p.as_char() == '$' {
                    if let Some(TokenTree::Ident(id)) = pv.get(i + 1) {
                        params.push(id.to_string());
                    } else {
                        return None;
                    }
                }
            }
            i += 1;
        }
        Some(MacroDef { params, body })
    }
    fn subst(&self, t: TokenStream, m: &BTreeMap<String, TokenStream>) -> TokenStream {
        let v: Vec<TokenTree> = t.into_iter().collect();
        let mut out = TokenStream::new();
        let mut i = 0;
        while i < v.len() {
            if let (TokenTree::Punct(p), Some(TokenTree::Ident(id))) = (&v[i], v.get(i + 1)) {
                if p.as_char() == '$' {
                    if let Some(r) = m.get(&id.to_string()) {
                        out.extend(quote!((#r)));
                        i += 2;
                        continue;
                    }
                }
            }
            match &v[i] {
                TokenTree::Group(g) => {
                    let inner = self.subst(g.stream(), m);
                    out.extend(std::iter::once(TokenTree::Group(proc_macro2::Group::new(g.delimiter(), inner))));
                }
                x => out.extend(std::iter::once(x.clone())),
            }
            i += 1;
        }
        out
    }
    fn expand(&self, args: TokenStream) -> Option<Block> {
        let es = Punctuated::<Expr, Token![,]>::parse_terminated.parse2(args).ok()?;
        if es.len() != self.params.len() {
            return None;
        }
        let m: BTreeMap<_, _> = self.params.iter().cloned().zip(es.iter().map(|e| e.to_token_stream())).collect();
        let b = self.subst(self.body.clone(), &m);
        parse2(quote!({ #b })).ok()
    }
}

pub struct MacroExpander<'a> {
    pub ctx: &'a Ctx,
}
impl<'a> MacroExpander<'a> {
    fn mac(&self, m: &Macro, stmt: bool) -> Option<Expr> {
        let n = m.path.segments.last().unwrap().ident.to_string();
        if let Some(d) = self.ctx.macros.get(&n) {
            let b = d.expand(m.tokens.clone())?;
            return Some(parse_quote!(#b));
        }
        match n.as_str() {
            "panic" | "unimplemented" | "unreachable" | "todo" => Some(if stmt { parse_quote!(vp_panic::<()>()) } else { parse_quote!(vp_panic()) }),
            "assert" | "debug_assert" => {
                let es = Punctuated::<Expr, Token![,]>::parse_terminated.parse2(m.tokens.clone()).ok()?;
                let c = es.first()?;
                Some(parse_quote!(vp_assert(#c)))
            }
            "assert_eq" | "debug_assert_eq" => {
                let es = Punctuated::<Expr, Token![,]>::parse_terminated.parse2(m.tokens.clone()).ok()?;
                let (a, b) = (es.first()?, es.iter().nth(1)?);
                Some(parse_quote!(vp_assert(#a == #b)))
            }
            "format" => Some(parse_quote!(vp_string())),
            "println" | "eprintln" | "print" | "eprint" | "trace" | "debug" | "info" | "warn" | "error" => Some(parse_quote!(())),
            "matches" => {
                let p = |input: parse::ParseStream| -> Result<(Expr, Pat, Option<Expr>)> {
                    let e: Expr = input.parse()?;
                    input.parse::<Token![,]>()?;
                    let p = Pat::parse_multi_with_leading_vert(input)?;
                    let g = if input.peek(Token![if]) {
                        input.parse::<Token![if]>()?;
                        Some(input.parse::<Expr>()?)
                    } else {
                        None
                    };
                    let _ = input.parse::<Option<Token![,]>>();
                    Ok((e, p, g))
                };
                let (e, p, g) = p.parse2(m.tokens.clone()).ok()?;
                Some(match g {
                    Some(g) => parse_quote!(match #e { #p if #g => true, _ => false }),
                    None => parse_quote!(match #e { #p => true, _ => false }),
                })
            }
            "vec" => {
                let rep = |input: parse::ParseStream| -> Result<(Expr, Expr)> {
                    let e: Expr = input.parse()?;
                    input.parse::<Token![;]>()?;
                    Ok((e, input.parse()?))
                };
                if let Ok((e, n)) = rep.parse2(m.tokens.clone()) {
                    return Some(parse_quote!(vp_vec_elem(#e, #n)));
                }
                let es = Punctuated::<Expr, Token![,]>::parse_terminated.parse2(m.tokens.clone()).ok()?;
                let es: Vec<&Expr> = es.iter().collect();
                if es.is_empty() {
                    return Some(parse_quote!(Vec::new()));
                }
                // kept as a marker call so that the elements are rewritten too; turned back into vec![] when printed
                Some(parse_quote!(__vp_vec(#(#es),*)))
            }
            _ => None,
        }
    }
}
impl<'a> VisitMut for MacroExpander<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        for s in b.stmts.iter_mut() {
            if let Stmt::Macro(m) = s {
                if let Some(e) = self.mac(&m.mac, m.semi_token.is_some()) {
                    *s = Stmt::Expr(e, m.semi_token);
                }
            }
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if let Some(x) = self.mac(&m.mac, false) {
                *e = x;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

// ---------------------------------------------------------------- paths

pub struct PathFix<'a> {
    pub ctx: &'a Ctx,
}
impl<'a> VisitMut for PathFix<'a> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        let segs: Vec<PathSegment> = p.segments.iter().cloned().collect();
        let mut k = 0;
        while k + 1 < segs.len() {
            let n = segs[k].ident.to_string();
            let lower = n.chars().next().map(|c| c.is_lowercase()).unwrap_or(false);
            if n == "crate" || n == "super" || n == "self" || (k > 0 && lower && segs[0].ident == "omnipaxos") || (lower && self.ctx.modules.contains(&n) && n != "std") || n == "omnipaxos" {
                k += 1;
            } else {
                break;
            }
        }
        if k > 0 {
            p.segments = segs[k..].iter().cloned().collect();
            p.leading_colon = None;
        }
        // ::core::clone::Clone::clone of a stand-in trait
        let n = p.segments.len();
        if n >= 2 {
            if let Some(t) = self.ctx.retrait.get(&p.segments[n - 2].ident.to_string()) {
                let (t, f) = (Ident::new(t, p.segments[n - 2].ident.span()), p.segments[n - 1].clone());
                *p = parse_quote!(#t::#f);
            }
        }
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        if let Type::Path(p) = t {
            let s = p.path.segments.last().unwrap();
            if s.ident == "Box" && s.arguments.to_token_stream().to_string().replace(' ', "").contains("dyn") {
                *t = parse_quote!(VErr);
            }
        }
    }
    fn visit_generics_mut(&mut self, g: &mut Generics) {
        // drop bounds the verifier does not need (Debug, serde, ...)
        fn keep(b: &TypeParamBound) -> bool {
            if let TypeParamBound::Trait(t) = b {
                let n = t.path.segments.last().unwrap().ident.to_string();
                return !["Debug", "Serialize", "Deserialize", "Display"].contains(&n.as_str());
            }
            true
        }
        for p in g.params.iter_mut() {
            if let GenericParam::Type(t) = p {
                t.bounds = t.bounds.iter().filter(|b| keep(b)).cloned().collect();
                t.default = None;
                t.eq_token = None;
            }
        }
        if let Some(w) = &mut g.where_clause {
            for pr in w.predicates.iter_mut() {
                if let WherePredicate::Type(t) = pr {
                    t.bounds = t.bounds.iter().filter(|b| keep(b)).cloned().collect();
                }
            }
            w.predicates = w.predicates.iter().filter(|p| if let WherePredicate::Type(t) = p { !t.bounds.is_empty() } else { true }).cloned().collect();
        }
        visit_mut::visit_generics_mut(self, g);
    }
}

// ---------------------------------------------------------------- bodies

#[derive(Clone, Debug)]
pub struct LoopInfo {
    pub id: usize,
    pub ord: usize,
    pub base: String,
    pub acc: Option<String>,
}
impl LoopInfo {
    pub fn subst(&self, s: &str) -> String {
        let it = format!("vpit{}", self.id);
        let mut s = s.replace("$it", &it).replace("$i", &format!("{it}.index@")).replace("$n", &format!("__vpn{}", self.id));
        if let Some(a) = &self.acc {
            s = s.replace("$acc", a);
        }
        s
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Option,
    Result,
    Other,
}

pub struct Rewriter<'a> {
    ctx: &'a Ctx,
    vars: BTreeMap<String, Type>,
    var_kinds: BTreeMap<String, Kind>,
    pub loops: Vec<LoopInfo>,
    n: usize,
    /// collect() makes something else than a Vec here
    pub collect_into: bool,
}

fn id(s: &str) -> Ident {
    Ident::new(s, Span::call_site())
}

fn norm(e: &Expr) -> String {
    let mut s = e.to_token_stream().to_string().replace(' ', "");
    while let Some(r) = s.strip_prefix('&') {
        s = r.strip_prefix("mut").map(|x| x.to_string()).unwrap_or(r.to_string());
    }
    for suf in [".iter()", ".into_iter()", ".iter_mut()", ".vp_clone()", ".clone()"] {
        if let Some(r) = s.strip_suffix(suf) {
            s = r.to_string();
        }
    }
    s
}

fn strip_paren(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip_paren(&p.expr),
        Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] {
            Stmt::Expr(x, None) => strip_paren(x),
            _ => e,
        },
        _ => e,
    }
}

/// a closure that is left after rewriting: the verifier knows nothing about its result
pub fn has_closure(b: &Block) -> bool {
    struct C(bool);
    impl<'ast> Visit<'ast> for C {
        fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {
            self.0 = true;
        }
    }
    let mut c = C(false);
    c.visit_block(b);
    c.0
}

/// `let f = |x| body;` that is only called: the calls are replaced by the body
pub struct LocalClosures;
impl LocalClosures {
    fn idents(t: TokenStream, out: &mut BTreeSet<String>) {
        for x in t {
            match x {
                TokenTree::Ident(i) => {
                    out.insert(i.to_string());
                }
                TokenTree::Group(g) => Self::idents(g.stream(), out),
                _ => {}
            }
        }
    }
    fn count(t: TokenStream, n: &str) -> usize {
        t.into_iter()
            .map(|x| match x {
                TokenTree::Ident(i) => (i == n) as usize,
                TokenTree::Group(g) => Self::count(g.stream(), n),
                _ => 0,
            })
            .sum()
    }
}
struct CallSubst<'a>(String, &'a ExprClosure, usize);
impl<'a> VisitMut for CallSubst<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                if p.path.is_ident(&self.0) && c.args.len() == self.1.inputs.len() {
                    let ps: Vec<&Pat> = self.1.inputs.iter().collect();
                    let args: Vec<&Expr> = c.args.iter().collect();
                    let b = &self.1.body;
                    let lets: Vec<Stmt> = match ps.len() {
                        0 => vec![],
                        1 => {
                            let (p, a) = (ps[0], args[0]);
                            vec![parse_quote!(let #p = #a;)]
                        }
                        _ => {
                            let mut pp = vec![];
                            let mut tt = vec![];
                            for p in &ps {
                                if let Pat::Type(t) = p {
                                    pp.push((*t.pat).clone());
                                    tt.push((*t.ty).clone());
                                } else {
                                    pp.push((*p).clone());
                                    tt.push(parse_quote!(_));
                                }
                            }
                            vec![parse_quote!(let (#(#pp),*): (#(#tt),*) = (#(#args),*);)]
                        }
                    };
                    self.2 += 1;
                    *e = parse_quote!({ #(#lets)* #b });
                }
            }
        }
    }
}
/// `let it = x.iter().map(..); .. it.collect()`: the iterator is put where it is consumed
fn inline_iterators(b: &mut Block) {
    fn lazy(e: &Expr) -> bool {
        match e {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match n.as_str() {
                    "iter" | "into_iter" => m.args.is_empty(),
                    "map" | "filter" | "filter_map" | "enumerate" | "copied" | "cloned" | "rev" => lazy(&m.receiver),
                    _ => false,
                }
            }
            _ => false,
        }
    }
    let mut i = 0;
    while i < b.stmts.len() {
        if let Stmt::Local(Local { pat: Pat::Ident(p), init: Some(LocalInit { expr, diverge: None, .. }), .. }) = &b.stmts[i] {
            if lazy(expr) {
                let (name, e) = (p.ident.to_string(), (**expr).clone());
                struct U(String, usize, usize);
                impl<'ast> Visit<'ast> for U {
                    fn visit_expr_path(&mut self, x: &'ast ExprPath) {
                        if x.path.is_ident(&self.0) {
                            self.1 += 1;
                        }
                    }
                    fn visit_macro(&mut self, m: &'ast Macro) {
                        if m.tokens.to_string().contains(&self.0) {
                            self.1 += 2;
                        }
                    }
                    fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) {
                        if let Expr::Path(x) = &*m.receiver {
                            if x.path.is_ident(&self.0) {
                                self.2 += 1;
                            }
                        }
                        syn::visit::visit_expr_method_call(self, m);
                    }
                    fn visit_expr_for_loop(&mut self, m: &'ast ExprForLoop) {
                        if let Expr::Path(x) = &*m.expr {
                            if x.path.is_ident(&self.0) {
                                self.2 += 1;
                            }
                        }
                        syn::visit::visit_expr_for_loop(self, m);
                    }
                }
                let mut u = U(name.clone(), 0, 0);
                // only over the statement that follows at once: nothing it reads can change in between
                if let Some(st) = b.stmts.get(i + 1) {
                    u.visit_stmt(st);
                }
                let mut later = U(name.clone(), 0, 0);
                for st in b.stmts.iter().skip(i + 2) {
                    later.visit_stmt(st);
                }
                if u.1 == 1 && u.2 == 1 && later.1 == 0 {
                    struct S(String, Expr);
                    impl VisitMut for S {
                        fn visit_expr_mut(&mut self, x: &mut Expr) {
                            if matches!(x, Expr::Path(p) if p.path.is_ident(&self.0)) {
                                *x = self.1.clone();
                                return;
                            }
                            visit_mut::visit_expr_mut(self, x);
                        }
                    }
                    b.stmts.remove(i);
                    S(name, e).visit_stmt_mut(&mut b.stmts[i]);
                    continue;
                }
            }
        }
        i += 1;
    }
}

impl VisitMut for LocalClosures {
    fn visit_block_mut(&mut self, b: &mut Block) {
        inline_iterators(b);
        let mut i = 0;
        while i < b.stmts.len() {
            let hit = match &b.stmts[i] {
                Stmt::Local(l) => match (&l.pat, &l.init) {
                    (Pat::Ident(p), Some(init)) if init.diverge.is_none() && p.mutability.is_none() => match &*init.expr {
                        Expr::Closure(c) if c.capture.is_none() && !Rewriter::has_return(&c.body) => Some((p.ident.to_string(), c.clone())),
                        _ => None,
                    },
                    _ => None,
                },
                _ => None,
            };
            if let Some((n, c)) = hit {
                let mut rest: Block = Block { brace_token: b.brace_token, stmts: b.stmts[i + 1..].to_vec() };
                // a captured name that is bound again below would change its meaning
                let mut used = BTreeSet::new();
                Self::idents(c.body.to_token_stream(), &mut used);
                struct B(BTreeSet<String>);
                impl<'ast> Visit<'ast> for B {
                    fn visit_pat_ident(&mut self, p: &'ast PatIdent) {
                        self.0.insert(p.ident.to_string());
                    }
                }
                let mut bs = B(Default::default());
                bs.visit_block(&rest);
                let total: usize = rest.stmts.iter().map(|s| Self::count(s.to_token_stream(), &n)).sum();
                let mut cs = CallSubst(n, &c, 0);
                cs.visit_block_mut(&mut rest);
                if bs.0.is_disjoint(&used) && cs.2 == total && total > 0 {
                    b.stmts.truncate(i);
                    b.stmts.extend(rest.stmts);
                    continue;
                }
            }
            i += 1;
        }
        visit_mut::visit_block_mut(self, b);
    }
}

enum Stage {
    Map(ExprClosure),
    Filter(ExprClosure),
    FilterMap(ExprClosure),
    MapPath(Expr),
    Enumerate,
    Copied,
    Cloned,
}
enum Consumer {
    Count,
    Collect,
    Max,
    Min,
    Sum,
    Any(ExprClosure),
    All(ExprClosure),
    ForEach(ExprClosure),
    Body(Pat, Block),
}

impl<'a> Rewriter<'a> {
    pub fn new(ctx: &'a Ctx, sig: &Signature) -> Self {
        let mut vars = BTreeMap::new();
        for a in &sig.inputs {
            if let FnArg::Typed(t) = a {
                if let Pat::Ident(p) = &*t.pat {
                    vars.insert(p.ident.to_string(), (*t.ty).clone());
                }
            }
            if let FnArg::Receiver(r) = a {
                if r.reference.is_some() {
                    vars.insert("self".into(), parse_quote!(&Self));
                }
            }
        }
        Rewriter { ctx, vars, var_kinds: Default::default(), loops: vec![], n: 0, collect_into: false }
    }

    pub fn run(&mut self, b: &mut Block) {
        struct Lets<'x, 'y>(&'x mut Rewriter<'y>);
        impl<'x, 'y, 'ast> Visit<'ast> for Lets<'x, 'y> {
            fn visit_local(&mut self, l: &'ast Local) {
                if let (Pat::Ident(p), Some(init)) = (&l.pat, &l.init) {
                    let k = self.0.kind(&init.expr);
                    if k != Kind::Other {
                        self.0.var_kinds.insert(p.ident.to_string(), k);
                    }
                }
                syn::visit::visit_local(self, l);
            }
        }
        Lets(self).visit_block(&b.clone());
        self.visit_block_mut(b);
        PathFix { ctx: self.ctx }.visit_block_mut(b);
    }

    fn ty_kind(t: &Type) -> Kind {
        match t {
            Type::Path(p) => match p.path.segments.last().unwrap().ident.to_string().as_str() {
                "Option" => Kind::Option,
                "Result" | "StorageResult" => Kind::Result,
                _ => Kind::Other,
            },
            _ => Kind::Other,
        }
    }
    fn ty_arg(t: &Type) -> Option<Type> {
        if let Type::Path(p) = t {
            if let PathArguments::AngleBracketed(a) = &p.path.segments.last().unwrap().arguments {
                if let Some(GenericArgument::Type(t)) = a.args.first() {
                    return Some(t.clone());
                }
            }
        }
        None
    }
    fn ty_of(&self, e: &Expr) -> Option<Type> {
        match e {
            Expr::Path(p) => p.path.get_ident().and_then(|i| self.vars.get(&i.to_string()).cloned()),
            Expr::Paren(p) => self.ty_of(&p.expr),
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if ["vp_expect", "vp_unwrap", "expect", "unwrap"].contains(&n.as_str()) {
                    return self.ty_of(&m.receiver).and_then(|t| Self::ty_arg(&t));
                }
                if ["as_ref", "take", "clone", "vp_clone"].contains(&n.as_str()) {
                    if let Some(t) = self.ty_of(&m.receiver) {
                        return Some(t);
                    }
                }
                let r = self.ctx.rets.get(&n)?;
                let k0 = Self::ty_kind(&r[0]);
                if r.iter().all(|t| Self::ty_kind(t) == k0) {
                    Some(r[0].clone())
                } else {
                    None
                }
            }
            Expr::Try(t) => self.ty_of(&t.expr).and_then(|t| Self::ty_arg(&t)),
            Expr::Field(f) => {
                if let Member::Named(n) = &f.member {
                    let mut found = None;
                    for s in self.ctx.structs.values() {
                        if let Some(t) = s.get(&n.to_string()) {
                            if found.is_some() && Self::ty_kind(found.as_ref().unwrap()) != Self::ty_kind(t) {
                                return None;
                            }
                            found = Some(t.clone());
                        }
                    }
                    return found;
                }
                None
            }
            _ => None,
        }
    }
    fn kind(&self, e: &Expr) -> Kind {
        if let Some(t) = self.ty_of(e) {
            let k = Self::ty_kind(&t);
            if k != Kind::Other {
                return k;
            }
        }
        match e {
            Expr::Path(p) => p.path.get_ident().and_then(|i| self.var_kinds.get(&i.to_string()).copied()).unwrap_or(Kind::Other),
            Expr::Call(c) => {
                let f = c.func.to_token_stream().to_string();
                match f.as_str() {
                    "Some" => Kind::Option,
                    "Ok" | "Err" => Kind::Result,
                    _ => Kind::Other,
                }
            }
            Expr::Paren(p) => self.kind(&p.expr),
            Expr::Block(b) => match b.block.stmts.last() {
                Some(Stmt::Expr(x, None)) => self.kind(x),
                _ => Kind::Other,
            },
            // the branches agree on the type: the first one that tells it
            Expr::If(f) => {
                let t = match f.then_branch.stmts.last() {
                    Some(Stmt::Expr(x, None)) => self.kind(x),
                    _ => Kind::Other,
                };
                match (t, &f.else_branch) {
                    (Kind::Other, Some((_, x))) => self.kind(x),
                    _ => t,
                }
            }
            Expr::Match(m) => m.arms.iter().map(|a| self.kind(&a.body)).find(|k| *k != Kind::Other).unwrap_or(Kind::Other),
            _ => Kind::Other,
        }
    }

    /// iterator chain: (base expression to iterate over, stages)
    fn chain(&self, e: &Expr) -> Option<(Expr, Vec<Stage>)> {
        let Expr::MethodCall(m) = e else { return None };
        let n = m.method.to_string();
        let closure = |i: usize| -> Option<ExprClosure> {
            match m.args.iter().nth(i) {
                Some(Expr::Closure(c)) => Some(c.clone()),
                _ => None,
            }
        };
        match n.as_str() {
            "iter" if m.args.is_empty() => {
                let r = &m.receiver;
                Some((parse_quote!(#r.iter()), vec![]))
            }
            "into_iter" if m.args.is_empty() => {
                if let Some(c) = self.chain(&m.receiver) {
                    return Some(c);
                }
                let r = &m.receiver;
                Some((parse_quote!(#r), vec![]))
            }
            "drain" => Some((e.clone(), vec![])),
            "rev" => {
                let (b, st) = self.chain(&m.receiver)?;
                match &b {
                    Expr::MethodCall(i) if i.method == "iter" && st.is_empty() => {
                        let r = &i.receiver;
                        Some((parse_quote!(#r.vp_iter_rev()), vec![]))
                    }
                    _ => None,
                }
            }
            "map" | "filter" | "filter_map" | "enumerate" | "copied" | "cloned" => {
                let (b, mut st) = self.chain(&m.receiver)?;
                st.push(match n.as_str() {
                    "map" => match closure(0) {
                        Some(c) => Stage::Map(c),
                        None => Stage::MapPath(m.args.first()?.clone()),
                    },
                    "filter" => Stage::Filter(closure(0)?),
                    "filter_map" => Stage::FilterMap(closure(0)?),
                    "enumerate" => Stage::Enumerate,
                    "copied" => Stage::Copied,
                    _ => Stage::Cloned,
                });
                Some((b, st))
            }
            _ => None,
        }
    }

    /// a field that is declared as a HashMap
    fn is_map(&self, e: &Expr) -> bool {
        let Expr::Field(f) = e else { return false };
        let Member::Named(n) = &f.member else { return false };
        let n = n.to_string();
        let t: Vec<String> = self.ctx.structs.values().filter_map(|s| s.get(&n)).map(crate::type_name).collect();
        !t.is_empty() && t.iter().all(|t| t == "HashMap")
    }

    fn has_return(e: &Expr) -> bool {
        struct R(bool);
        impl<'ast> Visit<'ast> for R {
            fn visit_expr_return(&mut self, _: &'ast ExprReturn) {
                self.0 = true;
            }
            fn visit_expr_try(&mut self, _: &'ast ExprTry) {
                self.0 = true;
            }
        }
        let mut r = R(false);
        r.visit_expr(e);
        r.0
    }

    fn apply(&self, c: &ExprClosure, x: TokenStream) -> Option<TokenStream> {
        if Self::has_return(&c.body) || c.inputs.len() != 1 {
            return None;
        }
        let mut p = c.inputs[0].clone();
        let b = &c.body;
        if let Pat::Type(t) = p {
            p = *t.pat;
        }
        // `|&x| ..`: bind through the reference
        if let Pat::Reference(r) = &p {
            let inner = &r.pat;
            return Some(quote!({ let #inner = *#x; #b }));
        }
        Some(quote!({ let #p = #x; #b }))
    }

    fn desugar(&mut self, base: Expr, stages: Vec<Stage>, cons: Consumer) -> Option<Expr> {
        // a plain copy of a slice
        if let (Consumer::Collect, [Stage::Cloned | Stage::Copied]) = (&cons, stages.as_slice()) {
            if let Expr::MethodCall(m) = &base {
                if m.method == "iter" && m.args.is_empty() {
                    let r = &m.receiver;
                    return Some(parse_quote!(#r.to_vec()));
                }
            }
        }
        let k = self.n;
        self.n += 1;
        let acc = id(&format!("__vpa{k}"));
        let cnt = id(&format!("__vpn{k}"));
        let x0 = id(&format!("__vpx{k}"));
        let mut pre = TokenStream::new();
        // innermost action, given the current item name
        let mut cur = quote!(#x0);
        let mut wraps: Vec<Box<dyn Fn(TokenStream) -> TokenStream>> = vec![];
        for (j, st) in stages.iter().enumerate() {
            let nx = id(&format!("__vpx{k}_{j}"));
            match st {
                Stage::Map(c) => {
                    let v = self.apply(c, cur.clone())?;
                    wraps.push(Box::new(move |inner| quote!(let #nx = #v; #inner)));
                    let nx = id(&format!("__vpx{k}_{j}"));
                    cur = quote!(#nx);
                }
                Stage::MapPath(p) => {
                    let v = quote!(#p(#cur));
                    wraps.push(Box::new(move |inner| quote!(let #nx = #v; #inner)));
                    let nx = id(&format!("__vpx{k}_{j}"));
                    cur = quote!(#nx);
                }
                Stage::Filter(c) => {
                    let v = self.apply(c, quote!(&#cur))?;
                    wraps.push(Box::new(move |inner| quote!(if #v { #inner })));
                }
                Stage::FilterMap(c) => {
                    let v = self.apply(c, cur.clone())?;
                    wraps.push(Box::new(move |inner| quote!(if let Some(#nx) = #v { #inner })));
                    let nx = id(&format!("__vpx{k}_{j}"));
                    cur = quote!(#nx);
                }
                Stage::Enumerate => {
                    pre.extend(quote!(let mut #cnt: usize = 0;));
                    let c = cur.clone();
                    let cnt = cnt.clone();
                    wraps.push(Box::new(move |inner| quote!(let #nx = (#cnt, #c); #cnt = #cnt + 1; #inner)));
                    let nx = id(&format!("__vpx{k}_{j}"));
                    cur = quote!(#nx);
                }
                Stage::Copied => {
                    let c = cur.clone();
                    wraps.push(Box::new(move |inner| quote!(let #nx = *#c; #inner)));
                    let nx = id(&format!("__vpx{k}_{j}"));
                    cur = quote!(#nx);
                }
                Stage::Cloned => {
                    let c = cur.clone();
                    wraps.push(Box::new(move |inner| quote!(let #nx = #c.clone(); #inner)));
                    let nx = id(&format!("__vpx{k}_{j}"));
                    cur = quote!(#nx);
                }
            }
        }
        let (init, act, ret) = match &cons {
            Consumer::Count => (quote!(let mut #acc: usize = 0;), quote!(#acc = #acc + 1;), quote!(#acc)),
            Consumer::Sum => (quote!(let mut #acc = 0;), quote!(#acc = #acc + #cur;), quote!(#acc)),
            Consumer::Collect => (quote!(let mut #acc = Vec::new();), quote!(#acc.push(#cur);), if self.collect_into { quote!(vp_collect(#acc)) } else { quote!(#acc) }),
            Consumer::Max => (quote!(let mut #acc = None;), quote!(#acc = match #acc { None => Some(#cur), Some(__y) => if __y > #cur { Some(__y) } else { Some(#cur) } };), quote!(#acc)),
            Consumer::Min => (quote!(let mut #acc = None;), quote!(#acc = match #acc { None => Some(#cur), Some(__y) => if __y <= #cur { Some(__y) } else { Some(#cur) } };), quote!(#acc)),
            // `all(p)` is read as `!any(!p)`: both forms give the same loop
            Consumer::Any(c) | Consumer::All(c) => {
                let all = matches!(cons, Consumer::All(_));
                let mut neg = all;
                let mut c = c.clone();
                while let Expr::Unary(ExprUnary { op: UnOp::Not(_), expr, .. }) = strip_paren(&c.body) {
                    neg = !neg;
                    c.body = expr.clone();
                }
                let v = self.apply(&c, cur.clone())?;
                let t = if neg { quote!(!(#v)) } else { v };
                (quote!(let mut #acc = false;), quote!(if #t { #acc = true; }), if all { quote!(!#acc) } else { quote!(#acc) })
            }
            Consumer::ForEach(c) => {
                let v = self.apply(c, cur.clone())?;
                (quote!(), quote!(#v;), quote!(()))
            }
            Consumer::Body(p, b) => {
                let st = &b.stmts;
                (quote!(), quote!(let #p = #cur; #(#st)*), quote!())
            }
        };
        let mut inner = act;
        for w in wraps.into_iter().rev() {
            inner = w(inner);
        }
        let e = quote!({ #pre #init for #x0 in #base { #inner } #ret });
        parse2(e).ok()
    }

    /// combinators of Option, Result, Ordering, bool and ranges, written out as what they stand for
    fn combinator(&self, m: &ExprMethodCall) -> Option<Expr> {
        let r = &m.receiver;
        let cl = |i: usize, n: usize| -> Option<(Vec<Pat>, Expr)> {
            match m.args.iter().nth(i) {
                Some(Expr::Closure(c)) if c.inputs.len() == n && !Self::has_return(&c.body) => {
                    let ps = c.inputs.iter().map(|p| if let Pat::Type(t) = p { (*t.pat).clone() } else { p.clone() }).collect();
                    Some((ps, (*c.body).clone()))
                }
                _ => None,
            }
        };
        let name = m.method.to_string();
        let k = self.kind(r);
        Some(match (name.as_str(), m.args.len(), k) {
            ("and_then", 1, Kind::Option) => {
                let (p, b) = cl(0, 1)?;
                let p = &p[0];
                parse_quote!(match #r { Some(#p) => #b, None => None })
            }
            ("and_then", 1, Kind::Result) => {
                let (p, b) = cl(0, 1)?;
                let p = &p[0];
                parse_quote!(match #r { Ok(#p) => #b, Err(__e) => Err(__e) })
            }
            ("or_else", 1, Kind::Option) => {
                let (_, b) = cl(0, 0)?;
                parse_quote!(match #r { Some(__v) => Some(__v), None => #b })
            }
            ("or", 1, Kind::Option) => {
                let a = &m.args[0];
                parse_quote!({ let (__a, __b) = (#r, #a); match __a { Some(__v) => Some(__v), None => __b } })
            }
            ("unwrap_or_else", 1, Kind::Option) => {
                let (_, b) = cl(0, 0)?;
                parse_quote!(match #r { Some(__v) => __v, None => #b })
            }
            ("unwrap_or_else", 1, Kind::Result) => {
                let (p, b) = cl(0, 1)?;
                let p = &p[0];
                parse_quote!(match #r { Ok(__v) => __v, Err(#p) => #b })
            }
            ("map_or", 2, Kind::Option) => {
                let d = &m.args[0];
                let (p, b) = cl(1, 1)?;
                let p = &p[0];
                parse_quote!({ let (__a, __d) = (#r, #d); match __a { Some(#p) => #b, None => __d } })
            }
            ("map_or_else", 2, Kind::Option) => {
                let (_, d) = cl(0, 0)?;
                let (p, b) = cl(1, 1)?;
                let p = &p[0];
                parse_quote!(match #r { Some(#p) => #b, None => #d })
            }
            ("is_some_and", 1, _) => {
                let (p, b) = cl(0, 1)?;
                let p = &p[0];
                parse_quote!(match #r { Some(#p) => #b, None => false })
            }
            ("is_none_or", 1, _) => {
                let (p, b) = cl(0, 1)?;
                let p = &p[0];
                parse_quote!(match #r { Some(#p) => #b, None => true })
            }
            ("is_ok_and", 1, _) => {
                let (p, b) = cl(0, 1)?;
                let p = &p[0];
                parse_quote!(match #r { Ok(#p) => #b, Err(_) => false })
            }
            ("ok_or_else", 1, _) => {
                let (_, b) = cl(0, 0)?;
                parse_quote!(match #r { Some(__v) => Ok(__v), None => Err(#b) })
            }
            ("then_with", 1, _) => {
                let (_, b) = cl(0, 0)?;
                parse_quote!(match #r { Ordering::Equal => #b, __o => __o })
            }
            ("then", 1, _) => match cl(0, 0) {
                Some((_, b)) => parse_quote!(if #r { Some(#b) } else { None }),
                None => {
                    let a = &m.args[0];
                    parse_quote!({ let (__a, __b) = (#r, #a); match __a { Ordering::Equal => __b, __o => __o } })
                }
            },
            ("then_some", 1, _) => {
                let a = &m.args[0];
                parse_quote!({ let (__a, __b) = (#r, #a); if __a { Some(__b) } else { None } })
            }
            ("max", 1, _) => {
                let a = &m.args[0];
                parse_quote!(std::cmp::max(#r, #a))
            }
            ("min", 1, _) => {
                let a = &m.args[0];
                parse_quote!(std::cmp::min(#r, #a))
            }
            ("contains", 1, _) => {
                let Expr::Range(rg) = strip_paren(r) else { return None };
                let (Some(lo), Some(hi)) = (&rg.start, &rg.end) else { return None };
                let Expr::Reference(x) = &m.args[0] else { return None };
                let x = &x.expr;
                if matches!(rg.limits, RangeLimits::HalfOpen(_)) {
                    parse_quote!({ let (__l, __h, __x) = (#lo, #hi, #x); __l <= __x && __x < __h })
                } else {
                    parse_quote!({ let (__l, __h, __x) = (#lo, #hi, #x); __l <= __x && __x <= __h })
                }
            }
            _ => return None,
        })
    }

    fn consumer(&self, m: &ExprMethodCall) -> Option<Consumer> {
        let cl = || match m.args.first() {
            Some(Expr::Closure(c)) => Some(c.clone()),
            _ => None,
        };
        Some(match (m.method.to_string().as_str(), m.args.len()) {
            ("count", 0) => Consumer::Count,
            ("collect", 0) => {
                if let Some(t) = &m.turbofish {
                    if !t.to_token_stream().to_string().contains("Vec") {
                        return None;
                    }
                }
                Consumer::Collect
            }
            ("max", 0) => Consumer::Max,
            ("min", 0) => Consumer::Min,
            ("sum", 0) => Consumer::Sum,
            ("any", 1) => Consumer::Any(cl()?),
            ("all", 1) => Consumer::All(cl()?),
            ("for_each", 1) => Consumer::ForEach(cl()?),
            _ => return None,
        })
    }

    fn acc_of(&self, b: &Block) -> Option<String> {
        struct A(BTreeSet<String>, BTreeSet<String>);
        impl<'ast> Visit<'ast> for A {
            fn visit_expr_assign(&mut self, a: &'ast ExprAssign) {
                if let Expr::Path(p) = &*a.left {
                    if let Some(i) = p.path.get_ident() {
                        self.0.insert(i.to_string());
                    }
                }
                syn::visit::visit_expr_assign(self, a);
            }
            fn visit_expr_binary(&mut self, a: &'ast ExprBinary) {
                if matches!(a.op, BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::BitOrAssign(_) | BinOp::BitAndAssign(_)) {
                    if let Expr::Path(p) = &*a.left {
                        if let Some(i) = p.path.get_ident() {
                            self.0.insert(i.to_string());
                        }
                    }
                }
                syn::visit::visit_expr_binary(self, a);
            }
            fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) {
                if ["push", "append", "extend", "vp_extend"].contains(&m.method.to_string().as_str()) {
                    if let Expr::Path(p) = &*m.receiver {
                        if let Some(i) = p.path.get_ident() {
                            self.0.insert(i.to_string());
                        }
                    }
                }
                syn::visit::visit_expr_method_call(self, m);
            }
            fn visit_local(&mut self, l: &'ast Local) {
                if let Pat::Ident(p) = &l.pat {
                    self.1.insert(p.ident.to_string());
                }
                syn::visit::visit_local(self, l);
            }
        }
        let mut a = A(Default::default(), Default::default());
        a.visit_block(b);
        let v: Vec<String> = a.0.difference(&a.1).filter(|s| !s.starts_with("__vpn")).cloned().collect();
        if v.len() == 1 {
            Some(v[0].clone())
        } else {
            None
        }
    }
}

impl<'a> VisitMut for Rewriter<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // ---- structural rewrites (before the children)
        match e {
            Expr::MethodCall(m) => {
                // X.extend(chain)
                if m.method == "extend" && m.args.len() == 1 {
                    if let Some((b, st)) = self.chain(&m.args[0]) {
                        if let Some(x) = self.desugar(b, st, Consumer::Collect) {
                            m.args[0] = x;
                        }
                    }
                }
                if let Some(c) = self.consumer(m) {
                    if let Some((b, st)) = self.chain(&m.receiver) {
                        if let Some(x) = self.desugar(b, st, c) {
                            *e = x;
                            return self.visit_expr_mut(e);
                        }
                    }
                } else if let Some(x) = self.combinator(m) {
                    *e = x;
                    return self.visit_expr_mut(e);
                } else if m.args.len() == 1 && (m.method == "map" || m.method == "map_err") {
                    if let Expr::Closure(c) = &m.args[0] {
                        let k = self.kind(&m.receiver);
                        let r = &m.receiver;
                        if c.inputs.len() == 1 && !Self::has_return(&c.body) {
                            let mut p = c.inputs[0].clone();
                            if let Pat::Type(t) = p {
                                p = *t.pat;
                            }
                            let b = &c.body;
                            let ne: Option<Expr> = match (m.method.to_string().as_str(), k) {
                                ("map", Kind::Option) => Some(parse_quote!(match #r { Some(#p) => Some(#b), None => None })),
                                ("map", Kind::Result) => Some(parse_quote!(match #r { Ok(#p) => Ok(#b), Err(__e) => Err(__e) })),
                                ("map_err", _) => Some(parse_quote!(match #r { Ok(__v) => Ok(__v), Err(#p) => Err(#b) })),
                                _ => None,
                            };
                            if let Some(ne) = ne {
                                *e = ne;
                                return self.visit_expr_mut(e);
                            }
                        }
                    }
                }
            }
            Expr::ForLoop(f) => {
                if let Some((b, st)) = self.chain(&f.expr) {
                    if !st.is_empty() {
                        if let Some(x) = self.desugar(b, st, Consumer::Body((*f.pat).clone(), f.body.clone())) {
                            *e = x;
                            return self.visit_expr_mut(e);
                        }
                    } else if matches!(&b, Expr::MethodCall(i) if i.method == "vp_iter_rev") {
                        f.expr = Box::new(b);
                    }
                }
                let idn = self.loops.len();
                let base = norm(&f.expr);
                let acc = self.acc_of(&f.body);
                self.loops.push(LoopInfo { id: idn, ord: idn, base, acc });
                visit_mut::visit_expr_for_loop_mut(self, f);
                let n = LitInt::new(&idn.to_string(), Span::call_site());
                let ex = &f.expr;
                f.expr = Box::new(parse_quote!(__vp_it(#n, #ex)));
                f.body.stmts.insert(0, parse_quote!(__vp_inv!(#n);));
                return;
            }
            Expr::While(w) => {
                let idn = self.loops.len();
                let acc = self.acc_of(&w.body);
                self.loops.push(LoopInfo { id: idn, ord: idn, base: "<while>".into(), acc });
                visit_mut::visit_expr_while_mut(self, w);
                let n = LitInt::new(&idn.to_string(), Span::call_site());
                w.body.stmts.insert(0, parse_quote!(__vp_inv!(#n);));
                return;
            }
            Expr::Loop(w) => {
                let idn = self.loops.len();
                let acc = self.acc_of(&w.body);
                self.loops.push(LoopInfo { id: idn, ord: idn, base: "<loop>".into(), acc });
                visit_mut::visit_expr_loop_mut(self, w);
                let n = LitInt::new(&idn.to_string(), Span::call_site());
                w.body.stmts.insert(0, parse_quote!(__vp_inv!(#n);));
                return;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        // ---- local rewrites (after the children)
        match e {
            // a comparison of two references compares what they refer to
            Expr::Binary(b) if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_)) => {
                let is_ref = |x: &Expr| match x {
                    Expr::Path(p) => p.path.get_ident().map_or(false, |i| matches!(self.vars.get(&i.to_string()), Some(Type::Reference(r)) if r.mutability.is_none())),
                    _ => false,
                };
                if is_ref(&b.left) && is_ref(&b.right) {
                    let (l, r) = (&b.left, &b.right);
                    let (l, r): (Expr, Expr) = (parse_quote!(*#l), parse_quote!(*#r));
                    *b.left = l;
                    *b.right = r;
                }
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let nargs = m.args.len();
                let ren = |m: &mut ExprMethodCall, to: &str| m.method = id(to);
                match (n.as_str(), nargs) {
                    // a UniCache clones to its mirror image, everything else to an equal value
                    ("clone", 0) if self.ty_of(&m.receiver).map_or(false, |t| quote::ToTokens::to_token_stream(&t).to_string().replace(' ', "").ends_with("::UniCache")) => ren(m, "uc_clone"),
                    ("clone", 0) => ren(m, "vp_clone"),
                    ("expect", 1) => {
                        ren(m, "vp_expect");
                        m.args.clear();
                    }
                    ("unwrap", 0) => ren(m, "vp_unwrap"),
                    ("extend", 1) => ren(m, "vp_extend"),
                    ("extend_from_slice", 1) => ren(m, "vp_extend_from_slice"),
                    ("to_vec", 0) => ren(m, "vp_to_vec"),
                    ("to_owned", 0) | ("to_string", 0) => ren(m, "vp_to_owned"),
                    ("start_bound", 0) => ren(m, "vp_start_bound"),
                    ("end_bound", 0) => ren(m, "vp_end_bound"),
                    ("copied", 0) => ren(m, "vp_copied"),
                    ("downcast", 0) => ren(m, "vp_downcast"),
                    ("or_default", 0) => {
                        if let Expr::MethodCall(i) = &*m.receiver {
                            if i.method == "entry" && i.args.len() == 1 {
                                let (r, k) = (&i.receiver, &i.args[0]);
                                *e = parse_quote!(#r.vp_entry_or_default(#k));
                            }
                        }
                    }
                    ("to_be_bytes", 0) => ren(m, "vp_be"),
                    ("drain", 1) => {
                        let r = &m.receiver;
                        match m.args[0].clone() {
                            Expr::Range(rg) if matches!(rg.limits, RangeLimits::HalfOpen(_)) => {
                                let a: Expr = rg.start.map(|x| *x).unwrap_or(parse_quote!(0));
                                *e = match rg.end {
                                    Some(b) => parse_quote!(#r.vp_drain(#a, #b)),
                                    None => parse_quote!(#r.vp_drain_from(#a)),
                                };
                            }
                            _ => {}
                        }
                    }
                    ("get", 1) => {
                        let r = &m.receiver;
                        if let Expr::Range(rg) = m.args[0].clone() {
                            if matches!(rg.limits, RangeLimits::HalfOpen(_)) {
                                let a: Expr = rg.start.map(|x| *x).unwrap_or(parse_quote!(0));
                                *e = match rg.end {
                                    Some(b) => parse_quote!(#r.vp_get_range(#a, #b)),
                                    None => parse_quote!(#r.vp_get_from(#a)),
                                };
                            }
                        }
                    }
                    ("into", 0) if m.receiver.to_token_stream().to_string().replace(' ', "").starts_with("CompactionErr::") => ren(m, "vp_err"),
                    ("clone_from", 1) => {
                        let r = &m.receiver;
                        let a = &m.args[0];
                        *e = parse_quote!(#r = (#a).vp_clone());
                    }
                    ("merge", 1) => {
                        let r = &m.receiver;
                        let a = &m.args[0];
                        *e = parse_quote!(snap_merge(&mut #r, #a));
                    }
                    _ => {}
                }
            }
            Expr::Try(t) => {
                // `Err(x)?` converts the error through From: make the conversion explicit
                if let Expr::Call(c) = &*t.expr {
                    if c.func.to_token_stream().to_string() == "Err" && c.args.len() == 1 {
                        let a = &c.args[0];
                        *e = parse_quote!(return Err((#a).vp_err()));
                    }
                } else if let Expr::MethodCall(m) = &*t.expr {
                    // `X.ok_or(E)?`: likewise
                    if m.method == "ok_or" && m.args.len() == 1 {
                        let (r, a) = (&m.receiver, &m.args[0]);
                        *e = parse_quote!(match #r { Some(__v) => __v, None => return Err((#a).vp_err()) });
                    }
                }
            }
            Expr::Binary(b) => {
                let strip = |x: &Expr| -> Expr {
                    match x {
                        Expr::Reference(r) => (*r.expr).clone(),
                        _ => x.clone(),
                    }
                };
                match b.op {
                    BinOp::Add(_) => {
                        let (l, r) = (strip(&b.left), strip(&b.right));
                        *e = parse_quote!(vp_add(#l, #r));
                    }
                    BinOp::AddAssign(_) => {
                        let (l, r) = (&b.left, strip(&b.right));
                        *e = parse_quote!(#l = vp_add(#l, #r));
                    }
                    _ => {}
                }
            }
            Expr::Index(x) if self.is_map(&x.expr) => {
                let (v, k) = (&x.expr, &x.index);
                *e = parse_quote!((*#v.vp_at(#k)));
            }
            Expr::Index(x) => {
                // v[a..b] is a slice; its bounds become an obligation
                if let Expr::Range(rg) = &*x.index {
                    if matches!(rg.limits, RangeLimits::HalfOpen(_)) {
                        let v = &x.expr;
                        let ne: Option<Expr> = match (&rg.start, &rg.end) {
                            (None, Some(b)) => Some(parse_quote!(#v.vp_slice_to(#b))),
                            (Some(a), None) => Some(parse_quote!(#v.vp_slice_from(#a))),
                            (Some(a), Some(b)) => Some(parse_quote!(#v.vp_slice(#a, #b))),
                            _ => None,
                        };
                        if let Some(ne) = ne {
                            *e = ne;
                        }
                    }
                }
            }
            Expr::Reference(r) if r.mutability.is_none() => {
                if let Expr::MethodCall(m) = &*r.expr {
                    if m.method.to_string().starts_with("vp_slice") {
                        *e = (*r.expr).clone();
                    }
                }
            }
            Expr::Call(c) => {
                let f = c.func.to_token_stream().to_string().replace(' ', "");
                if f == "usize::as_bytes" {
                    c.func = Box::new(parse_quote!(vp_as_bytes));
                } else if f == "usize::read_from" {
                    c.func = Box::new(parse_quote!(vp_read_from));
                } else if f == "usize::from_be_bytes" {
                    c.func = Box::new(parse_quote!(vp_from_be));
                } else if f == "drop" && c.args.len() == 1 {
                    c.func = Box::new(parse_quote!(vp_drop));
                } else if f == "std::mem::take" || f == "mem::take" || f == "core::mem::take" {
                    c.func = Box::new(parse_quote!(vp_take));
                } else if let Some(p) = f.strip_suffix("::Snapshot::create") {
                    let t: Type = parse_str(p.trim_start_matches('<')).unwrap_or(parse_quote!(T));
                    c.func = Box::new(parse_quote!(snap_create::<#t>));
                } else if let Some(p) = f.strip_suffix("::Snapshot::use_snapshots") {
                    let t: Type = parse_str(p).unwrap_or(parse_quote!(T));
                    c.func = Box::new(parse_quote!(snap_use::<#t>));
                } else if f == "Box::new" && c.args.len() == 1 && c.args[0].to_token_stream().to_string().replace(' ', "").starts_with("CompactionErr::") {
                    // an error boxed by hand
                    let a = &c.args[0];
                    *e = parse_quote!((#a).vp_err());
                } else if f == "__vp_vec" {
                    let a = &c.args;
                    *e = parse_quote!(vec![#a]);
                }
            }
            _ => {}
        }
    }
}
