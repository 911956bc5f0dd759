//! Source-level normalisation before the rewriting proper: equivalent Rust inside the verifier's subset.
//! Each step is an equivalence of the language and looks at no name of the code base:
//!   * `continue` in a `for`/`while` body becomes the else branch around what it skips
//!   * `&x` in a pattern becomes a plain binding and `let x = *..;`
//!   * `.map(Some)` and the like become `.map(|x| Some(x))`
//!   * `for x in v { w.push(x); }` becomes `w.extend(v);`
use proc_macro2::Span;
use quote::ToTokens;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

use crate::inline::guard_returns;

#[derive(Default)]
pub struct Norm {
    n: usize,
}

/// `continue` of this loop <-> `return`; false if the loop has a return or break of its own, or labels
struct Conts {
    to_return: bool,
    found: bool,
    bad: bool,
}
impl VisitMut for Conts {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Continue(c) => {
                if c.label.is_some() {
                    self.bad = true;
                }
                self.found = true;
                if self.to_return {
                    *e = parse_quote!(return);
                }
            }
            Expr::Return(_) => self.bad = true,
            Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) => {
                struct L(bool);
                impl<'ast> Visit<'ast> for L {
                    fn visit_expr_return(&mut self, _: &'ast ExprReturn) {
                        self.0 = true;
                    }
                    fn visit_expr_continue(&mut self, c: &'ast ExprContinue) {
                        self.0 |= c.label.is_some();
                    }
                    fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
                }
                let mut l = L(false);
                l.visit_expr(e);
                self.bad |= l.0;
            }
            Expr::Closure(_) => {}
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}
fn no_continue(b: &mut Block) {
    let mut probe = Conts { to_return: false, found: false, bad: false };
    probe.visit_block_mut(b);
    if !probe.found || probe.bad {
        return;
    }
    let mut nb = b.clone();
    Conts { to_return: true, found: false, bad: false }.visit_block_mut(&mut nb);
    guard_returns(&mut nb);
    struct R(bool);
    impl<'ast> Visit<'ast> for R {
        fn visit_expr_return(&mut self, _: &'ast ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
        fn visit_expr_for_loop(&mut self, _: &'ast ExprForLoop) {}
        fn visit_expr_while(&mut self, _: &'ast ExprWhile) {}
        fn visit_expr_loop(&mut self, _: &'ast ExprLoop) {}
    }
    let mut r = R(false);
    r.visit_block(&nb);
    if !r.0 {
        *b = nb;
    }
}

/// replaces `&p` by a fresh name and collects `let p = *name;`
struct Refs<'a> {
    n: &'a mut usize,
    lets: Vec<Stmt>,
}
impl<'a> VisitMut for Refs<'a> {
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        if let Pat::Reference(r) = p {
            if r.mutability.is_none() {
                let nm = Ident::new(&format!("__vpr{}", *self.n), Span::call_site());
                *self.n += 1;
                let inner = &r.pat;
                match &**inner {
                    Pat::Ident(_) | Pat::Tuple(_) | Pat::Wild(_) => {
                        if !matches!(&**inner, Pat::Wild(_)) {
                            self.lets.push(parse_quote!(let #inner = *#nm;));
                        }
                        *p = parse_quote!(#nm);
                    }
                    _ => {}
                }
                return;
            }
        }
        visit_mut::visit_pat_mut(self, p);
    }
    fn visit_expr_mut(&mut self, _: &mut Expr) {}
}
impl Norm {
    fn refs(&mut self, p: &mut Pat) -> Vec<Stmt> {
        let mut r = Refs { n: &mut self.n, lets: vec![] };
        r.visit_pat_mut(p);
        r.lets
    }
}

fn prepend(b: &mut Block, mut lets: Vec<Stmt>) {
    lets.append(&mut b.stmts);
    b.stmts = lets;
}

impl VisitMut for Norm {
    fn visit_block_mut(&mut self, b: &mut Block) {
        for s in b.stmts.iter_mut() {
            // for x in v { w.push(x); }
            if let Stmt::Expr(Expr::ForLoop(f), semi) = s {
                if let (Pat::Ident(p), [Stmt::Expr(Expr::MethodCall(m), _)]) = (&*f.pat, f.body.stmts.as_slice()) {
                    let plain = p.by_ref.is_none() && p.subpat.is_none() && f.label.is_none();
                    let pushes = m.method == "push" && m.args.len() == 1 && matches!(&m.args[0], Expr::Path(a) if a.path.is_ident(&p.ident));
                    let mut src = (*f.expr).clone();
                    if let Expr::MethodCall(i) = &src {
                        if i.method == "into_iter" && i.args.is_empty() {
                            src = (*i.receiver).clone();
                        }
                    }
                    if plain && pushes && matches!(src, Expr::Path(_) | Expr::Field(_)) && matches!(&*m.receiver, Expr::Path(_) | Expr::Field(_)) && src.to_token_stream().to_string() != m.receiver.to_token_stream().to_string() {
                        let w = &m.receiver;
                        *s = Stmt::Expr(parse_quote!(#w.extend(#src)), Some(Default::default()));
                        continue;
                    }
                }
                let _ = semi;
            }
        }
        let mut i = 0;
        while i < b.stmts.len() {
            if let Stmt::Local(l) = &mut b.stmts[i] {
                if l.init.as_ref().map_or(false, |x| x.diverge.is_none()) && !matches!(l.pat, Pat::Ident(_)) {
                    let lets = self.refs(&mut l.pat);
                    let k = lets.len();
                    for (j, s) in lets.into_iter().enumerate() {
                        b.stmts.insert(i + 1 + j, s);
                    }
                    i += k;
                }
            }
            i += 1;
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::ForLoop(f) => {
                let lets = self.refs(&mut f.pat);
                prepend(&mut f.body, lets);
                if f.label.is_none() {
                    no_continue(&mut f.body);
                }
            }
            Expr::While(w) if w.label.is_none() => no_continue(&mut w.body),
            Expr::Match(m) => {
                for a in m.arms.iter_mut() {
                    if a.guard.is_some() {
                        continue;
                    }
                    let lets = self.refs(&mut a.pat);
                    if !lets.is_empty() {
                        let b = &a.body;
                        *a.body = parse_quote!({ #(#lets)* #b });
                    }
                }
            }
            Expr::If(f) => {
                if let Expr::Let(l) = &mut *f.cond {
                    let lets = self.refs(&mut l.pat);
                    prepend(&mut f.then_branch, lets);
                }
            }
            Expr::Closure(c) => {
                let mut lets = vec![];
                for p in c.inputs.iter_mut() {
                    lets.append(&mut self.refs(p));
                }
                if !lets.is_empty() {
                    let b = &c.body;
                    *c.body = parse_quote!({ #(#lets)* #b });
                }
            }
            Expr::MethodCall(m) if m.args.len() == 1 && ["map", "map_err", "and_then", "filter_map", "ok_or_else", "unwrap_or_else"].contains(&m.method.to_string().as_str()) => {
                if let Expr::Path(p) = &m.args[0] {
                    let ctor = p.path.segments.last().map_or(false, |s| s.ident.to_string().starts_with(char::is_uppercase));
                    if ctor {
                        let p = p.clone();
                        m.args[0] = parse_quote!(|__vpc| #p(__vpc));
                    }
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
