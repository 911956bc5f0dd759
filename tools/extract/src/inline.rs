//! Inlining of functions that carry no contract, so that extracting a helper (or writing a new
//! one) does not lose the proof: the body of the helper is verified at its call sites.
use crate::contracts::Contracts;
use crate::{type_name, Ctx, Fun};
use proc_macro2::Span;
use quote::ToTokens;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Inliner<'a> {
    pub ctx: &'a Ctx,
    pub contracts: &'a Contracts,
    pub owner: Option<String>,
    pub caller: String,
    pub caller_ret: ReturnType,
    pub stack: Vec<String>,
    pub done: Vec<String>,
    pub plain: Vec<String>,
    pub tail: bool,
}

struct SelfSubst<'x>(&'x Expr, Option<String>, bool);
impl<'x> SelfSubst<'x> {
    fn is_self(e: &Expr) -> bool {
        matches!(e, Expr::Path(p) if p.path.is_ident("self"))
    }
}
impl<'x> VisitMut for SelfSubst<'x> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Field(f) if Self::is_self(&f.base) => {
                f.base = Box::new(self.0.clone());
                return;
            }
            Expr::MethodCall(m) if Self::is_self(&m.receiver) => {
                m.receiver = Box::new(self.0.clone());
                for a in m.args.iter_mut() {
                    self.visit_expr_mut(a);
                }
                return;
            }
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) && Self::is_self(&u.expr) && !Self::is_self(self.0) => {
                *e = self.0.clone();
                return;
            }
            _ => {}
        }
        if Self::is_self(e) {
            let r = self.0;
            if !Self::is_self(r) {
                *e = if self.2 { parse_quote!((&mut #r)) } else { parse_quote!((&#r)) };
            }
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        if let Some(o) = &self.1 {
            if p.segments.len() >= 1 && p.segments[0].ident == "Self" {
                p.segments[0].ident = Ident::new(o, Span::call_site());
            }
        }
        visit_mut::visit_path_mut(self, p);
    }
}

fn returns(b: &Block) -> (bool, bool) {
    struct R(bool, bool);
    impl<'ast> Visit<'ast> for R {
        fn visit_expr_return(&mut self, _: &'ast ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_try(&mut self, t: &'ast ExprTry) {
            self.1 = true;
            syn::visit::visit_expr_try(self, t);
        }
        fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
    }
    let mut r = R(false, false);
    r.visit_block(b);
    (r.0, r.1)
}

/// does every way through the block end in `return`?
fn diverges(b: &Block) -> bool {
    match b.stmts.last() {
        Some(Stmt::Expr(e, _)) => diverges_e(e),
        _ => false,
    }
}
fn diverges_e(e: &Expr) -> bool {
    match e {
        Expr::Return(_) => true,
        Expr::Block(b) => diverges(&b.block),
        Expr::If(f) => diverges(&f.then_branch) && f.else_branch.as_ref().map_or(false, |(_, x)| diverges_e(x)),
        Expr::Match(m) => !m.arms.is_empty() && m.arms.iter().all(|a| diverges_e(&a.body)),
        _ => false,
    }
}
/// exactly one arm goes on (and has no return inside), and what it binds is not what `rest` means by these names
fn one_way(m: &ExprMatch, rest: &[Stmt], p: &Pat) -> bool {
    let on: Vec<&Arm> = m.arms.iter().filter(|a| !diverges_e(&a.body)).collect();
    if on.len() != 1 || m.arms.len() < 2 || has_return_e(&on[0].body) || has_return_e(&m.expr) {
        return false;
    }
    struct B(Vec<String>);
    impl<'ast> Visit<'ast> for B {
        fn visit_pat_ident(&mut self, p: &'ast PatIdent) {
            self.0.push(p.ident.to_string());
        }
    }
    let (mut arm, mut own) = (B(vec![]), B(vec![]));
    arm.visit_pat(&on[0].pat);
    own.visit_pat(p);
    fn has(t: proc_macro2::TokenStream, n: &str) -> bool {
        t.into_iter().any(|x| match x {
            proc_macro2::TokenTree::Ident(i) => i == n,
            proc_macro2::TokenTree::Group(g) => has(g.stream(), n),
            _ => false,
        })
    }
    arm.0.iter().all(|n| own.0.contains(n) || n.starts_with(char::is_uppercase) || !rest.iter().any(|s| has(s.to_token_stream(), n)))
}
fn has_return_e(e: &Expr) -> bool {
    returns(&parse_quote!({ #e })).0
}

/// the expression is in tail position: its `return X` are its values
fn tail_returns(e: &mut Expr) {
    match e {
        Expr::Return(r) => {
            *e = match r.expr.take() {
                Some(x) => *x,
                None => parse_quote!(()),
            };
            tail_returns(e)
        }
        Expr::Block(b) => guard_returns(&mut b.block),
        Expr::If(f) => {
            guard_returns(&mut f.then_branch);
            if let Some((_, x)) = &mut f.else_branch {
                tail_returns(x)
            }
        }
        Expr::Match(m) => m.arms.iter_mut().for_each(|a| tail_returns(&mut a.body)),
        _ => {}
    }
}

/// `if c { ..; return X; } rest` => `if c { ..; X } else { rest }`, tail `return X;` => `X`, and the like for else
/// branches, matches and let-else: what the block evaluates to is then what it returned
pub fn guard_returns(b: &mut Block) {
    for i in 0..b.stmts.len() {
        let is_last = i + 1 == b.stmts.len();
        if is_last {
            if let Stmt::Expr(e, semi) = &mut b.stmts[i] {
                let ret = matches!(e, Expr::Return(_)) || diverges_e(e);
                if semi.is_none() || ret || has_return_e(e) && matches!(e, Expr::If(_) | Expr::Match(_) | Expr::Block(_)) {
                    tail_returns(e);
                    if ret {
                        *semi = None;
                    }
                }
            }
            return;
        }
        match &b.stmts[i] {
            Stmt::Expr(Expr::If(f), _) if diverges(&f.then_branch) => {
                let mut f = f.clone();
                guard_returns(&mut f.then_branch);
                let mut rest: Vec<Stmt> = b.stmts.split_off(i + 1);
                if let Some((_, x)) = &f.else_branch {
                    rest.insert(0, Stmt::Expr((**x).clone(), Some(Default::default())));
                }
                let mut rb: Block = parse_quote!({ #(#rest)* });
                guard_returns(&mut rb);
                f.else_branch = Some((Default::default(), Box::new(parse_quote!(#rb))));
                b.stmts[i] = Stmt::Expr(Expr::If(f), None);
                return;
            }
            Stmt::Expr(Expr::If(f), _) if f.else_branch.as_ref().map_or(false, |(_, x)| diverges_e(x)) && !has_return_e(&Expr::Block(ExprBlock { attrs: vec![], label: None, block: f.then_branch.clone() })) => {
                let mut f = f.clone();
                let rest: Vec<Stmt> = b.stmts.split_off(i + 1);
                let t = &f.then_branch;
                let mut rb: Block = parse_quote!({ #t #(#rest)* });
                guard_returns(&mut rb);
                f.then_branch = rb;
                if let Some((_, x)) = &mut f.else_branch {
                    tail_returns(x);
                }
                b.stmts[i] = Stmt::Expr(Expr::If(f), None);
                return;
            }
            Stmt::Local(l) => {
                if let Some(LocalInit { expr, diverge: Some((_, d)), .. }) = &l.init {
                    if diverges_e(d) {
                        let (p, x, mut d) = (l.pat.clone(), expr.clone(), d.clone());
                        let rest: Vec<Stmt> = b.stmts.split_off(i + 1);
                        let mut rb: Block = parse_quote!({ #(#rest)* });
                        guard_returns(&mut rb);
                        tail_returns(&mut d);
                        b.stmts[i] = Stmt::Expr(parse_quote!(if let #p = #x #rb else #d), None);
                        return;
                    }
                }
                // `let p = match x { A => v, B => return y }; rest` => `match x { A => { let p = v; rest }, B => y }`
                let (p, init) = (l.pat.clone(), l.init.clone());
                if let Some(LocalInit { expr, diverge: None, .. }) = init {
                    let mut expr = *expr;
                    let ok = match &expr {
                        Expr::Match(m) => one_way(m, &b.stmts[i + 1..], &p),
                        Expr::If(f) => f.else_branch.as_ref().map_or(false, |(_, x)| diverges(&f.then_branch) != diverges_e(x)) && !has_return_e(&f.cond) && !matches!(&*f.cond, Expr::Let(_)),
                        _ => false,
                    };
                    if ok {
                        let rest: Vec<Stmt> = b.stmts.split_off(i + 1);
                        let cont = |v: &Expr| -> Block {
                            let mut rb: Block = parse_quote!({ let #p = #v; #(#rest)* });
                            guard_returns(&mut rb);
                            rb
                        };
                        match &mut expr {
                            Expr::Match(m) => {
                                for a in m.arms.iter_mut() {
                                    if diverges_e(&a.body) {
                                        tail_returns(&mut a.body);
                                    } else {
                                        let rb = cont(&a.body);
                                        *a.body = parse_quote!(#rb);
                                    }
                                }
                            }
                            Expr::If(f) => {
                                let (_, x) = f.else_branch.as_mut().unwrap();
                                if diverges_e(x) {
                                    tail_returns(x);
                                    let t = f.then_branch.clone();
                                    f.then_branch = cont(&parse_quote!(#t));
                                } else {
                                    guard_returns(&mut f.then_branch);
                                    let rb = cont(x);
                                    **x = parse_quote!(#rb);
                                }
                            }
                            _ => {}
                        }
                        b.stmts[i] = Stmt::Expr(expr, None);
                        return;
                    }
                }
            }
            Stmt::Expr(Expr::Match(m), _) if one_way(m, &b.stmts[i + 1..], &parse_quote!(_)) => {
                let mut m = m.clone();
                let rest: Vec<Stmt> = b.stmts.split_off(i + 1);
                for a in m.arms.iter_mut() {
                    if diverges_e(&a.body) {
                        tail_returns(&mut a.body);
                    } else {
                        let v = &a.body;
                        let mut rb: Block = parse_quote!({ #v; #(#rest)* });
                        guard_returns(&mut rb);
                        *a.body = parse_quote!(#rb);
                    }
                }
                b.stmts[i] = Stmt::Expr(Expr::Match(m), None);
                return;
            }
            _ => {}
        }
    }
}

impl<'a> Inliner<'a> {
    pub fn run(&mut self, b: &mut Block) {
        // tail call with identical return type: `return`s of the helper are returns of the caller
        self.tail_block(b);
        self.visit_block_mut(b);
    }

    fn tail_block(&mut self, b: &mut Block) {
        struct Rets<'x, 'y>(&'x mut Inliner<'y>);
        impl<'x, 'y> VisitMut for Rets<'x, 'y> {
            fn visit_expr_return_mut(&mut self, r: &mut ExprReturn) {
                if let Some(x) = &mut r.expr {
                    self.0.tail_expr(x);
                }
            }
            fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
        }
        Rets(self).visit_block_mut(b);
        match b.stmts.last_mut() {
            Some(Stmt::Expr(e, None)) => self.tail_expr(e),
            Some(Stmt::Expr(e, Some(_))) if matches!(self.caller_ret, ReturnType::Default) => self.tail_expr(e),
            _ => {}
        }
    }
    fn tail_expr(&mut self, e: &mut Expr) {
        match e {
            Expr::Block(b) => {
                if let Some(Stmt::Expr(e, None)) = b.block.stmts.last_mut() {
                    self.tail_expr(e)
                }
            }
            Expr::If(f) => {
                if let Some(Stmt::Expr(e, None)) = f.then_branch.stmts.last_mut() {
                    self.tail_expr(e)
                }
                if let Some((_, x)) = &mut f.else_branch {
                    self.tail_expr(x)
                }
            }
            Expr::Match(m) => m.arms.iter_mut().for_each(|a| self.tail_expr(&mut a.body)),
            Expr::MethodCall(_) | Expr::Call(_) => {
                let same = self.target(e).map_or(false, |(f, _, _)| f.sig.output.to_token_stream().to_string() == self.caller_ret.to_token_stream().to_string());
                if same {
                    self.tail = true;
                    let r = self.try_inline(&e.clone(), false);
                    self.tail = false;
                    if let Some(x) = r {
                        *e = x;
                    }
                }
            }
            _ => {}
        }
    }

    fn recv_type(&self, e: &Expr) -> Option<String> {
        match e {
            Expr::Path(p) if p.path.is_ident("self") => self.owner.clone(),
            Expr::Field(f) => {
                let t = self.recv_type(&f.base)?;
                if let Member::Named(n) = &f.member {
                    return self.ctx.structs.get(&t)?.get(&n.to_string()).map(type_name);
                }
                None
            }
            Expr::Paren(p) => self.recv_type(&p.expr),
            _ => None,
        }
    }

    fn target(&self, e: &Expr) -> Option<(Fun, Option<Expr>, Vec<Expr>)> {
        match e {
            Expr::MethodCall(m) => {
                let t = self.recv_type(&m.receiver)?;
                let key = format!("{}::{}", t, m.method);
                let f = self.ctx.funs.get(&key)?.clone();
                Some((f, Some((*m.receiver).clone()), m.args.iter().cloned().collect()))
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let name = segs.last()?.clone();
                    if segs.len() >= 2 {
                        let mut ty = segs[segs.len() - 2].clone();
                        if ty == "Self" {
                            ty = self.owner.clone()?;
                        }
                        let f = self.ctx.funs.get(&format!("{ty}::{name}"))?.clone();
                        return Some((f, None, c.args.iter().cloned().collect()));
                    }
                    let f = self.ctx.funs.get(&name)?.clone();
                    if f.owner.is_none() {
                        return Some((f, None, c.args.iter().cloned().collect()));
                    }
                }
                None
            }
            _ => None,
        }
    }

    fn try_inline(&mut self, e: &Expr, under_try: bool) -> Option<Expr> {
        let (f, recv, args) = self.target(e)?;
        if self.contracts.fns.contains_key(&f.key) || f.trait_.is_some() || self.contracts.drop.contains(&f.key) {
            return None;
        }
        let fail = |s: &mut Self| {
            if !s.plain.contains(&f.key) {
                s.plain.push(f.key.clone());
            }
            None
        };
        if self.stack.contains(&f.key) || self.stack.len() > 8 {
            return fail(self);
        }
        let mut b = f.block.clone()?;
        if let ReturnType::Type(_, t) = &f.sig.output {
            let t = t.to_token_stream().to_string();
            if t.contains("& mut") || t.contains("mut &") || t.contains("& '") {
                return fail(self);
            }
        }
        let tail = std::mem::replace(&mut self.tail, false);
        if !tail || matches!(f.sig.output, ReturnType::Default) {
            guard_returns(&mut b);
        }
        let (has_ret, has_try) = returns(&b);
        if tail {
        } else if has_ret || (has_try && !under_try) {
            return fail(self);
        }
        let mut pats: Vec<Pat> = vec![];
        let mut tys: Vec<Type> = vec![];
        let mut has_self = false;
        let mut self_mut = false;
        for a in &f.sig.inputs {
            match a {
                FnArg::Receiver(r) => {
                    has_self = true;
                    self_mut = r.mutability.is_some();
                    if r.reference.is_none() {
                        return fail(self);
                    }
                }
                FnArg::Typed(t) => {
                    pats.push((*t.pat).clone());
                    tys.push((*t.ty).clone());
                }
            }
        }
        let mut args = args;
        let recv = match (recv, has_self) {
            (Some(r), true) => Some(r),
            (None, false) => None,
            (None, true) => {
                if args.is_empty() {
                    return fail(self);
                }
                let a = args.remove(0);
                match a {
                    Expr::Reference(r) => Some(*r.expr),
                    x => Some(x),
                }
            }
            _ => return fail(self),
        };
        if pats.len() != args.len() {
            return fail(self);
        }
        if let Some(r) = &recv {
            SelfSubst(r, if f.owner != self.owner { f.owner.clone() } else { None }, self_mut).visit_block_mut(&mut b);
        } else if f.owner != self.owner {
            let dummy: Expr = parse_quote!(self);
            SelfSubst(&dummy, f.owner.clone(), false).visit_block_mut(&mut b);
        }
        // generics of a different owner may be named differently
        let stmts = &b.stmts;
        let plain_ty = |t: &Type| !t.to_token_stream().to_string().contains("impl ") && f.sig.generics.params.is_empty();
        let bind: Vec<Stmt> = match pats.len() {
            0 => vec![],
            1 => {
                let (p, a, t) = (&pats[0], &args[0], &tys[0]);
                if plain_ty(t) { vec![parse_quote!(let #p: #t = #a;)] } else { vec![parse_quote!(let #p = #a;)] }
            }
            _ => {
                if tys.iter().all(plain_ty) { vec![parse_quote!(let (#(#pats),*): (#(#tys),*) = (#(#args),*);)] } else { vec![parse_quote!(let (#(#pats),*) = (#(#args),*);)] }
            }
        };
        let e: Expr = match &f.sig.output {
            ReturnType::Type(_, t) if plain_ty(t) && t.to_token_stream().to_string() != "Self" => {
                let rn = Ident::new(&format!("__vp_ret{}", self.done.len()), Span::call_site());
                parse_quote!({ let #rn: #t = { #(#bind)* #(#stmts)* }; #rn })
            }
            _ => parse_quote!({ #(#bind)* #(#stmts)* }),
        };
        self.done.push(f.key.clone());
        let mut e = e;
        self.stack.push(f.key.clone());
        if tail {
            if let Expr::Block(b) = &mut e {
                let mut wrapped = false;
                if let Some(Stmt::Local(l)) = b.block.stmts.first_mut() {
                    if l.pat.to_token_stream().to_string().starts_with("__vp_ret") {
                        wrapped = true;
                        if let Some(i) = &mut l.init {
                            if let Expr::Block(b) = &mut *i.expr {
                                self.tail_block(&mut b.block);
                            }
                        }
                    }
                }
                if !wrapped {
                    self.tail_block(&mut b.block);
                }
            }
        }
        self.visit_expr_mut(&mut e);
        self.stack.pop();
        Some(e)
    }
}

impl<'a> VisitMut for Inliner<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Try(t) = e {
            if let Some(x) = self.try_inline(&t.expr.clone(), true) {
                t.expr = Box::new(x);
                return;
            }
            visit_mut::visit_expr_mut(self, &mut t.expr);
            return;
        }
        if let Some(x) = self.try_inline(&e.clone(), false) {
            *e = x;
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
