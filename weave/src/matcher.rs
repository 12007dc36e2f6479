//! Structural matching of expressions against a pattern with metavariables (`__name`).
use quote::ToTokens;
use std::collections::HashMap;
use syn::*;

pub type Binds = HashMap<String, Expr>;

fn meta(e: &Expr) -> Option<String> {
    if let Expr::Path(p) = e {
        if p.path.segments.len() == 1 && p.qself.is_none() {
            let s = p.path.segments[0].ident.to_string();
            if s.starts_with("__") && s.len() <= 4 { return Some(s); }
        }
    }
    None
}

fn toks(t: &impl ToTokens) -> String { t.to_token_stream().to_string() }

fn strip(e: &Expr) -> &Expr {
    match e { Expr::Paren(p) => strip(&p.expr), Expr::Group(g) => strip(&g.expr), _ => e }
}

pub fn matches(pat: &Expr, e: &Expr, b: &mut Binds) -> bool {
    let (pat, e) = (strip(pat), strip(e));
    if let Some(m) = meta(pat) {
        if let Some(old) = b.get(&m) { return toks(old) == toks(e); }
        b.insert(m, e.clone());
        return true;
    }
    fn all<'a>(p: impl Iterator<Item = &'a Expr>, e: impl Iterator<Item = &'a Expr>, b: &mut Binds) -> bool {
        let (p, e): (Vec<_>, Vec<_>) = (p.collect(), e.collect());
        p.len() == e.len() && p.iter().zip(e).all(|(p, e)| matches(p, e, b))
    }
    match (pat, e) {
        (Expr::Path(p), Expr::Path(q)) => toks(p) == toks(q),
        (Expr::Lit(p), Expr::Lit(q)) => toks(p) == toks(q),
        (Expr::Call(p), Expr::Call(q)) => matches(&p.func, &q.func, b) && all(p.args.iter(), q.args.iter(), b),
        (Expr::MethodCall(p), Expr::MethodCall(q)) => {
            p.method == q.method
                && p.turbofish.as_ref().map(toks).map_or(true, |t| Some(t) == q.turbofish.as_ref().map(toks))
                && matches(&p.receiver, &q.receiver, b)
                && all(p.args.iter(), q.args.iter(), b)
        }
        (Expr::Index(p), Expr::Index(q)) => matches(&p.expr, &q.expr, b) && matches(&p.index, &q.index, b),
        (Expr::Reference(p), Expr::Reference(q)) => p.mutability.is_some() == q.mutability.is_some() && matches(&p.expr, &q.expr, b),
        (Expr::Unary(p), Expr::Unary(q)) => toks(&p.op) == toks(&q.op) && matches(&p.expr, &q.expr, b),
        (Expr::Binary(p), Expr::Binary(q)) => toks(&p.op) == toks(&q.op) && matches(&p.left, &q.left, b) && matches(&p.right, &q.right, b),
        (Expr::Cast(p), Expr::Cast(q)) => toks(&p.ty) == toks(&q.ty) && matches(&p.expr, &q.expr, b),
        (Expr::Field(p), Expr::Field(q)) => toks(&p.member) == toks(&q.member) && matches(&p.base, &q.base, b),
        (Expr::Try(p), Expr::Try(q)) => matches(&p.expr, &q.expr, b),
        (Expr::Tuple(p), Expr::Tuple(q)) => all(p.elems.iter(), q.elems.iter(), b),
        (Expr::Array(p), Expr::Array(q)) => all(p.elems.iter(), q.elems.iter(), b),
        (Expr::Repeat(p), Expr::Repeat(q)) => matches(&p.expr, &q.expr, b) && matches(&p.len, &q.len, b),
        (Expr::Assign(p), Expr::Assign(q)) => matches(&p.left, &q.left, b) && matches(&p.right, &q.right, b),
        (Expr::Closure(p), Expr::Closure(q)) => toks(&p.inputs) == toks(&q.inputs) && matches(&p.body, &q.body, b),
        (Expr::Range(p), Expr::Range(q)) => {
            let o = |x: &Option<Box<Expr>>, y: &Option<Box<Expr>>, b: &mut Binds| match (x, y) { (None, None) => true, (Some(x), Some(y)) => matches(x, y, b), _ => false };
            toks(&p.limits) == toks(&q.limits) && o(&p.start, &q.start, b) && o(&p.end, &q.end, b)
        }
        _ => toks(pat) == toks(e),
    }
}

pub fn substitute(repl: &Expr, b: &Binds) -> Expr {
    struct S<'a>(&'a Binds);
    impl syn::visit_mut::VisitMut for S<'_> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if let Some(m) = meta(e) {
                if let Some(x) = self.0.get(&m) {
                    let x = x.clone();
                    *e = match x {
                        Expr::Path(_) | Expr::Lit(_) | Expr::Call(_) | Expr::MethodCall(_) | Expr::Index(_) | Expr::Field(_) | Expr::Paren(_) | Expr::Tuple(_) | Expr::Closure(_) => x,
                        _ => Expr::Paren(ExprParen { attrs: vec![], paren_token: Default::default(), expr: Box::new(x) }),
                    };
                    return;
                }
            }
            syn::visit_mut::visit_expr_mut(self, e);
        }
    }
    let mut r = repl.clone();
    syn::visit_mut::VisitMut::visit_expr_mut(&mut S(b), &mut r);
    r
}
