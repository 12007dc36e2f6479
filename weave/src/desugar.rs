//! The declared, mechanical desugaring of a Rust function body into the subset Verus accepts.
use crate::matcher::{matches, substitute, Binds};
use crate::unit::FnSpec;
use proc_macro2::{TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use std::collections::BTreeMap;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Rewrite { pat: Expr, repl: Expr, text: String }

impl Rewrite {
    pub fn new(p: &str, r: &str) -> std::result::Result<Self, String> {
        let e = |s: &str| parse_str::<Expr>(s).map_err(|e| format!("rewrite `{s}`: {e}"));
        Ok(Rewrite { pat: e(p)?, repl: e(r)?, text: format!("{p} => {r}") })
    }
}

pub struct Desugar<'a> {
    spec: &'a FnSpec,
    rewrites: Vec<Rewrite>,
    pub loops: usize,
    closures: usize,
    tmp: usize,
    pub applied: BTreeMap<String, usize>,
    pub dropped: Vec<String>,
    error: Option<String>,
    lazy: BTreeMap<String, Expr>,
    srcs: BTreeMap<usize, usize>,
}

fn norm(s: &str) -> String { s.chars().filter(|c| !c.is_whitespace()).collect() }
fn ntoks(t: &impl ToTokens) -> String { norm(&t.to_token_stream().to_string()) }

#[derive(Clone)]
enum Base { Slice(Expr, bool), Mut(Expr), Range(Expr, Expr), Zip(Box<Pipe>, Box<Pipe>) }
#[derive(Clone)]
enum Stage { Enumerate, Copied, Map(Expr), Filter(Expr), FilterMap(Expr), SkipWhile(Expr), Scan(Expr, Expr) }
#[derive(Clone)]
struct Pipe { pre: Vec<Stmt>, base: Base, skip: Option<Expr>, take: Option<Expr>, rev: bool, stages: Vec<Stage> }

fn paren(e: Expr) -> Expr {
    match e { Expr::Path(_) | Expr::Lit(_) | Expr::Call(_) | Expr::MethodCall(_) | Expr::Index(_) | Expr::Field(_) | Expr::Paren(_) | Expr::Tuple(_) | Expr::Block(_) => e, _ => parse_quote!((#e)) }
}

impl<'a> Desugar<'a> {
    pub fn new(spec: &'a FnSpec, rewrites: Vec<Rewrite>) -> Self {
        Desugar { spec, rewrites, loops: 0, closures: 0, tmp: 0, applied: BTreeMap::new(), dropped: vec![], error: None, lazy: BTreeMap::new(), srcs: BTreeMap::new() }
    }

    fn note(&mut self, r: &str) { *self.applied.entry(r.to_string()).or_insert(0) += 1; }
    fn fail(&mut self, e: String) { if self.error.is_none() { self.error = Some(format!("unsupported: {e}")); } }

    pub fn function(&mut self, mut block: Block, renames: &[(String, String)]) -> std::result::Result<Block, String> {
        if !renames.is_empty() {
            struct R<'b>(&'b [(String, String)]);
            impl VisitMut for R<'_> {
                fn visit_ident_mut(&mut self, i: &mut Ident) {
                    if let Some((_, n)) = self.0.iter().find(|(o, _)| i == o) { *i = Ident::new(n, i.span()); }
                }
                fn visit_macro_mut(&mut self, m: &mut Macro) {
                    fn go(ts: TokenStream, r: &[(String, String)]) -> TokenStream {
                        ts.into_iter().map(|t| match t {
                            TokenTree::Ident(i) => match r.iter().find(|(o, _)| i == o) { Some((_, n)) => TokenTree::Ident(Ident::new(n, i.span())), None => TokenTree::Ident(i) },
                            TokenTree::Group(g) => { let mut n = proc_macro2::Group::new(g.delimiter(), go(g.stream(), r)); n.set_span(g.span()); TokenTree::Group(n) }
                            t => t,
                        }).collect()
                    }
                    m.tokens = go(m.tokens.clone(), self.0);
                }
            }
            R(renames).visit_block_mut(&mut block);
        }
        // `uncurry a b`: a function that returns a closure becomes the function of the closure's arguments
        if let Some(args) = self.spec.opts.iter().find_map(|o| o.strip_prefix("uncurry ")) {
            let names: Vec<Ident> = args.split_whitespace().map(|a| Ident::new(a, proc_macro2::Span::call_site())).collect();
            fn go(e: &mut Expr, names: &[Ident]) -> std::result::Result<(), String> {
                match e {
                    Expr::Match(m) => { for a in &mut m.arms { go(&mut a.body, names)?; } Ok(()) }
                    Expr::Block(b) => match b.block.stmts.last_mut() { Some(Stmt::Expr(t, None)) => go(t, names), _ => Err("uncurry: no tail expression".into()) },
                    Expr::Closure(c) if c.inputs.len() == names.len() => {
                        let pats: Vec<Pat> = c.inputs.iter().cloned().collect();
                        let body = (*c.body).clone();
                        *e = parse_quote!({ #(let #pats = #names;)* #body });
                        Ok(())
                    }
                    _ => Err("uncurry: the result is not a closure of that many arguments".into()),
                }
            }
            match block.stmts.last_mut() { Some(Stmt::Expr(t, None)) => go(t, &names)?, _ => return Err("uncurry: no tail expression".into()) }
        }
        self.visit_block_mut(&mut block);
        struct T<'b>(&'b [(String, String)]);
        impl VisitMut for T<'_> {
            fn visit_local_mut(&mut self, l: &mut Local) {
                if let Pat::Ident(i) = &l.pat {
                    if i.ident.to_string().starts_with("__") {
                        if let Some((_, t)) = self.0.iter().find(|(n, _)| i.ident == n) {
                            let (p, t) = (l.pat.clone(), parse_str::<Type>(t).unwrap());
                            l.pat = Pat::Type(PatType { attrs: vec![], pat: Box::new(p), colon_token: Default::default(), ty: Box::new(t) });
                        }
                    }
                }
                visit_mut::visit_local_mut(self, l);
            }
        }
        T(&self.spec.let_types).visit_block_mut(&mut block);
        // end-of-function proofs, before the tail expression
        let ends = self.markers("end");
        let unit = !self.spec.sig.split("requires").next().unwrap_or("").split("ensures").next().unwrap_or("").contains("->");
        let at = match block.stmts.last() { Some(Stmt::Expr(_, None)) if !unit => block.stmts.len() - 1, _ => block.stmts.len() };
        // a unit function ending in a call without a semicolon
        if unit && !ends.is_empty() { if let Some(Stmt::Expr(e, semi @ None)) = block.stmts.last_mut() { if matches!(e, Expr::MethodCall(_) | Expr::Call(_)) { *semi = Some(Default::default()); } } }
        for (k, m) in ends.into_iter().enumerate() { block.stmts.insert(at + k, m); }
        for (k, m) in self.markers("begin").into_iter().enumerate() { block.stmts.insert(k, m); }
        match self.error.take() { Some(e) => Err(e), None => Ok(block) }
    }

    fn markers(&self, place: &str) -> Vec<Stmt> {
        self.spec.proofs.iter().enumerate().filter(|(_, (w, _))| w == place).map(|(i, _)| { let m = format_ident!("__proof_{i}"); parse_quote!(#m!();) }).collect()
    }

    fn ident(&mut self, p: &str) -> Ident { self.tmp += 1; format_ident!("__{p}{}", self.tmp) }

    // ---------------------------------------------------------------- macros

    fn expand(&mut self, m: &Macro) -> Option<Expr> {
        let name = m.path.segments.last()?.ident.to_string();
        if name.starts_with("__") { return None; }
        let args = || m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok().map(|p| p.into_iter().collect::<Vec<_>>());
        self.note(&format!("macro {name}!"));
        Some(match name.as_str() {
            "assert" | "debug_assert" => { let a = args()?; let c = &a[0]; parse_quote!(vassert(#c)) }
            "assert_eq" | "debug_assert_eq" => { let a = args()?; let (x, y) = (paren(a[0].clone()), paren(a[1].clone())); parse_quote!(vassert(#x == #y)) }
            "assert_ne" | "debug_assert_ne" => { let a = args()?; let (x, y) = (paren(a[0].clone()), paren(a[1].clone())); parse_quote!(vassert(#x != #y)) }
            "trace" | "debug" | "info" | "warn" | "error" => parse_quote!({}),
            "format" => parse_quote!(vformat()),
            "vortex_bail" => parse_quote!(return Err(VErr)),
            "vortex_err" => parse_quote!(VErr),
            "vortex_panic" | "unreachable" | "panic" | "todo" | "unimplemented" => parse_quote!(vpanic()),
            "vec" => {
                if m.tokens.is_empty() { return Some(parse_quote!(Vec::new())); }
                if let Ok(r) = parse2::<VecRepeat>(m.tokens.clone()) { let (x, n) = (r.0, r.1); return Some(parse_quote!(vec_filled(#x, #n))); }
                let a = args()?;
                let v = self.ident("v");
                parse_quote!({ let mut #v = Vec::new(); #(#v.push(#a);)* #v })
            }
            "ready" => {
                let a = args()?; let x = &a[0];
                parse_quote!(match #x { Poll::Ready(__v) => __v, Poll::Pending => { return Poll::Pending; } })
            }
            "matches" => {
                let p = parse2::<Matches>(m.tokens.clone()).ok()?;
                let (x, pat) = (p.0, p.1);
                match p.2 { Some(g) => parse_quote!(match #x { #pat if #g => true, _ => false }), None => parse_quote!(match #x { #pat => true, _ => false }) }
            }
            n if n.starts_with("match_each_") => {
                // (expr, |$P| body)
                let toks: Vec<TokenTree> = m.tokens.clone().into_iter().collect();
                let bar = toks.iter().position(|t| matches!(t, TokenTree::Punct(p) if p.as_char() == '|'))?;
                let var = toks.get(bar + 2)?.to_string();
                let body: TokenStream = toks[bar + 4..].iter().cloned().collect();
                let Some(ty) = self.spec.ptype.clone() else { self.fail("match_each macro without @ptype".into()); return None; };
                // one type for every macro, or one for each macro variable: `O=OT I=IT`
                let ty = if ty.contains('=') {
                    match ty.split_whitespace().find_map(|b| b.split_once('=').filter(|(v, _)| *v == var).map(|(_, t)| t.to_string())) {
                        Some(t) => t, None => { self.fail(format!("no type for ${var} in @ptype")); return None; }
                    }
                } else { ty };
                fn sub(ts: TokenStream, var: &str, ty: &TokenStream) -> TokenStream {
                    let mut out = TokenStream::new();
                    let mut it = ts.into_iter().peekable();
                    while let Some(t) = it.next() {
                        match t {
                            TokenTree::Punct(ref p) if p.as_char() == '$' => {
                                match it.peek() { Some(TokenTree::Ident(i)) if i == var => { it.next(); out.extend(ty.clone()); } _ => out.extend([t]) }
                            }
                            TokenTree::Group(g) => out.extend([TokenTree::Group(proc_macro2::Group::new(g.delimiter(), sub(g.stream(), var, ty)))]),
                            t => out.extend([t]),
                        }
                    }
                    out
                }
                // `*`: the whole match, one arm per type, as the macro writes it
                if ty == "*" {
                    let scrut: TokenStream = toks[..bar].iter().take(bar.saturating_sub(1)).cloned().collect();
                    let mut arms = TokenStream::new();
                    let int = n.contains("integer"); let uns = n.contains("unsigned"); let flt = n.contains("float");
                    for (v, t) in [("I8", "i8"), ("I16", "i16"), ("I32", "i32"), ("I64", "i64"), ("U8", "u8"), ("U16", "u16"), ("U32", "u32"), ("U64", "u64"), ("F16", "F16"), ("F32", "F32"), ("F64", "F64")] {
                        let f = v.starts_with('F'); let u = v.starts_with('U');
                        let v = format_ident!("{v}");
                        if (int && f) || (uns && !u) || (flt && !f) { arms.extend(quote!(PType::#v => panic!("unsupported"),)); continue; }
                        let b = sub(body.clone(), &var, &t.parse().ok()?);
                        arms.extend(quote!(PType::#v => { #b }));
                    }
                    return match parse2::<Expr>(quote!(match #scrut { #arms })) { Ok(e) => Some(e), Err(e) => { self.fail(format!("{name} body: {e}")); None } };
                }
                let ty: TokenStream = ty.parse().ok()?;
                let body = sub(body, &var, &ty);
                match parse2::<Expr>(body) { Ok(e) => e, Err(e) => { self.fail(format!("{name} body: {e}")); return None } }
            }
            _ => { let toks = &m.tokens; let f = format_ident!("macro_{}", name); let _ = toks; let a = args()?; parse_quote!(#f(#(#a),*)) }
        })
    }

    // ---------------------------------------------------------------- iterator pipelines

    fn hoist(&mut self, x: Expr, pre: &mut Vec<Stmt>) -> Expr {
        match &x {
            Expr::Path(_) => x,
            Expr::Field(f) if matches!(&*f.base, Expr::Path(_)) => x,
            Expr::Reference(r) if matches!(&*r.expr, Expr::Path(_)) => (*r.expr).clone(),
            _ => {
                let n = self.loops;
                let used = self.srcs.entry(n).or_insert(0);
                let s = match *used { 0 => format_ident!("__src{n}"), 1 => format_ident!("__src{n}b"), k => format_ident!("__src{n}_{k}") };
                *used += 1;
                let x: Expr = match &x { Expr::Index(i) if matches!(&*i.index, Expr::Range(_)) => parse_quote!(&#x), _ => x };
                pre.push(parse_quote!(let #s = #x;)); parse_quote!(#s) }
        }
    }

    fn range(&mut self, r: &ExprRange) -> Option<Pipe> {
        let (mut lo, mut hi) = ((**r.start.as_ref()?).clone(), (**r.end.as_ref()?).clone());
        self.visit_expr_mut(&mut lo);
        self.visit_expr_mut(&mut hi);
        if matches!(r.limits, RangeLimits::Closed(_)) { hi = parse_quote!(#hi + 1); }
        Some(Pipe { pre: vec![], base: Base::Range(lo, hi), skip: None, take: None, rev: false, stages: vec![] })
    }

    /// The index of the rewrite that turns `e` into an iterator source (`iter_...(..)`, a Vec in iteration order).
    fn source_rewrite(&self, e: &Expr) -> Option<usize> {
        self.rewrites.iter().position(|r| matches!(&r.repl, Expr::Call(c) if ntoks(&c.func).starts_with("iter_")) && matches(&r.pat, e, &mut Binds::new()))
    }

    fn pipeline(&mut self, e: &Expr, in_for: bool) -> Option<Pipe> {
        if self.source_rewrite(e).is_some() || matches!(e, Expr::Call(c) if ntoks(&c.func).starts_with("iter_")) {
            let mut x = e.clone();
            self.visit_expr_mut(&mut x);
            let mut pre = vec![];
            let x = self.hoist(x, &mut pre);
            return Some(Pipe { pre, base: Base::Slice(x, false), skip: None, take: None, rev: false, stages: vec![] });
        }
        match e {
            Expr::Paren(p) => self.pipeline(&p.expr, in_for),
            Expr::Path(_) if self.lazy.contains_key(&ntoks(e)) => { let x = self.lazy[&ntoks(e)].clone(); self.note("lazy iterator binding => inlined at its use"); self.pipeline(&x, in_for) }
            Expr::Range(r) => self.range(r),
            Expr::Call(c) if ntoks(&c.func) == "stream::iter" && c.args.len() == 1 => { self.note("stream::iter(x) => x"); let x = c.args[0].clone(); self.pipeline(&x, in_for) }
            Expr::Reference(r) if in_for && r.mutability.is_some() => {
                let (v, lo, hi): (Expr, Option<Expr>, Option<Expr>) = match &*r.expr {
                    Expr::Index(i) => match &*i.index { Expr::Range(g) if matches!(g.limits, RangeLimits::HalfOpen(_)) => ((*i.expr).clone(), g.start.as_deref().cloned(), g.end.as_deref().cloned()), _ => return None },
                    x => (x.clone(), None, None),
                };
                if !matches!(v, Expr::Path(_) | Expr::Field(_)) { self.fail("mutable iteration over an expression".into()); return None; }
                // an empty or ordered in-bounds range is what indexing with it demands
                let mut pre: Vec<Stmt> = vec![];
                let n = self.loops;
                let (a, b) = (format_ident!("__lo{n}"), format_ident!("__hi{n}"));
                let mut lo = lo.unwrap_or(parse_quote!(0)); self.visit_expr_mut(&mut lo);
                let mut hi = hi.unwrap_or(parse_quote!(#v.len())); self.visit_expr_mut(&mut hi);
                pre.push(parse_quote!(let #a: usize = #lo;)); pre.push(parse_quote!(let #b: usize = #hi;));
                pre.push(parse_quote!(vassert(#a <= #b && #b <= #v.len());));
                Some(Pipe { pre, base: Base::Mut(v), skip: Some(parse_quote!(#a)), take: Some(parse_quote!((#b - #a))), rev: false, stages: vec![] })
            }
            Expr::Reference(r) if in_for => {
                let mut x = (*r.expr).clone();
                self.visit_expr_mut(&mut x);
                let mut pre = vec![];
                let x = self.hoist(x, &mut pre);
                Some(Pipe { pre, base: Base::Slice(x, true), skip: None, take: None, rev: false, stages: vec![] })
            }
            Expr::Path(_) if in_for => {
                let by_value = self.spec.opts.iter().any(|o| *o == format!("by-value {}", ntoks(e)));
                Some(Pipe { pre: vec![], base: Base::Slice(e.clone(), !by_value), skip: None, take: None, rev: false, stages: vec![] })
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let arg = |k: usize| m.args.iter().nth(k).cloned();
                match name.as_str() {
                    "iter" if m.args.is_empty() => {
                        let mut x = (*m.receiver).clone();
                        self.visit_expr_mut(&mut x);
                        let mut pre = vec![];
                        let x = self.hoist(x, &mut pre);
                        Some(Pipe { pre, base: Base::Slice(x, true), skip: None, take: None, rev: false, stages: vec![] })
                    }
                    "iter_mut" if m.args.is_empty() => {
                        let v = (*m.receiver).clone();
                        if !matches!(v, Expr::Path(_) | Expr::Field(_)) { self.fail("mutable iteration over an expression".into()); return None; }
                        Some(Pipe { pre: vec![], base: Base::Mut(v), skip: None, take: None, rev: false, stages: vec![] })
                    }
                    "into_iter" if m.args.is_empty() => {
                        if let Some(p) = self.try_pipe(&m.receiver) { return Some(p); }
                        let mut x = (*m.receiver).clone();
                        self.visit_expr_mut(&mut x);
                        let mut pre = vec![];
                        let x = self.hoist(x, &mut pre);
                        Some(Pipe { pre, base: Base::Slice(x, false), skip: None, take: None, rev: false, stages: vec![] })
                    }
                    // the positions of the set bits of a buffer: as a vector
                    "set_indices" if m.args.is_empty() => {
                        let mut x = (*m.receiver).clone();
                        self.visit_expr_mut(&mut x);
                        let mut pre = vec![];
                        let x = self.hoist(parse_quote!(#x.set_indices()), &mut pre);
                        Some(Pipe { pre, base: Base::Slice(x, false), skip: None, take: None, rev: false, stages: vec![] })
                    }
                    "skip" | "take" => {
                        let mut p = self.try_pipe(&m.receiver)?;
                        let mut a = arg(0)?;
                        self.visit_expr_mut(&mut a);
                        if p.stages.iter().any(|s| !matches!(s, Stage::Copied)) || p.rev { self.fail(format!(".{name} after other stages")); return None; }
                        if name == "skip" { if p.skip.is_some() || p.take.is_some() { self.fail("repeated skip".into()); } p.skip = Some(a) } else { p.take = Some(a) }
                        Some(p)
                    }
                    "rev" => { let mut p = self.try_pipe(&m.receiver)?; if !p.stages.is_empty() { self.fail("rev after stages".into()); } p.rev = !p.rev; Some(p) }
                    // polled ahead, delivered in order
                    "buffered" => { self.note(".buffered(n) => in order, one at a time"); self.try_pipe(&m.receiver) }
                    "enumerate" => { let mut p = self.try_pipe(&m.receiver)?; p.stages.push(Stage::Enumerate); Some(p) }
                    "copied" | "cloned" => { let mut p = self.try_pipe(&m.receiver)?; p.stages.push(Stage::Copied); Some(p) }
                    "map" => { let mut p = self.try_pipe(&m.receiver)?; p.stages.push(Stage::Map(arg(0)?)); Some(p) }
                    "filter" => { let mut p = self.try_pipe(&m.receiver)?; p.stages.push(Stage::Filter(arg(0)?)); Some(p) }
                    "filter_map_ok" if matches!(&m.args[0], Expr::Path(p) if p.path.is_ident("identity")) => { let mut p = self.try_pipe(&m.receiver)?; p.stages.push(Stage::FilterMap(parse_quote!(|__r| match __r { Ok(None) => None, Ok(Some(__v)) => Some(Ok(__v)), Err(__e) => Some(Err(__e)) }))); Some(p) }
                    "filter_map" => { let mut p = self.try_pipe(&m.receiver)?; p.stages.push(Stage::FilterMap(arg(0)?)); Some(p) }
                    "skip_while" => { let mut p = self.try_pipe(&m.receiver)?; p.stages.push(Stage::SkipWhile(arg(0)?)); Some(p) }
                    "scan" => { let mut p = self.try_pipe(&m.receiver)?; p.stages.push(Stage::Scan(arg(0)?, arg(1)?)); Some(p) }
                    // both halves are collected first; they have no effects of their own
                    "chain" => {
                        let b = arg(0)?;
                        let b = match b { Expr::Array(a) => Err(a), b => Ok(self.try_pipe(&b)?) };
                        let c = format_ident!("__chain{}", self.loops);
                        let mut ss: Vec<Stmt> = vec![parse_quote!(let mut #c = Vec::new();)];
                        match &*m.receiver {
                            Expr::MethodCall(l) if l.method == "into_iter" && matches!(&*l.receiver, Expr::Array(_)) => {
                                let Expr::Array(a) = &*l.receiver else { return None };
                                for x in &a.elems { let mut x = x.clone(); self.visit_expr_mut(&mut x); ss.push(parse_quote!(#c.push(#x);)); }
                            }
                            x => { let a = self.try_pipe(x)?; ss.extend(self.build(a, None, &mut |_, it, out| out.push(parse_quote!(#c.push(#it);)))); }
                        }
                        match b {
                            Ok(b) => ss.extend(self.build(b, None, &mut |_, it, out| out.push(parse_quote!(#c.push(#it);)))),
                            Err(a) => for x in &a.elems { let mut x = x.clone(); self.visit_expr_mut(&mut x); ss.push(parse_quote!(#c.push(#x);)); },
                        }
                        Some(Pipe { pre: ss, base: Base::Slice(parse_quote!(#c), false), skip: None, take: None, rev: false, stages: vec![] })
                    }
                    "zip" | "zip_eq" => {
                        let a = self.try_pipe(&m.receiver)?;
                        let other = arg(0)?;
                        let b = match self.try_pipe(&other) { Some(b) => b, None => self.pipeline(&other, true)? };
                        let mut pre = a.pre.clone(); pre.extend(b.pre.clone());
                        Some(Pipe { pre, base: Base::Zip(Box::new(a), Box::new(b)), skip: None, take: None, rev: false, stages: vec![] })
                    }
                    _ => None,
                }
            }
            _ => None,
        }
    }

    /// A pipeline in method position: only chains that start at a known iterator source.
    fn try_pipe(&mut self, e: &Expr) -> Option<Pipe> {
        if self.rooted(e) { self.pipeline(e, false) } else { None }
    }

    fn rooted(&self, e: &Expr) -> bool {
        fn rooted(d: &Desugar, e: &Expr) -> bool {
            if d.source_rewrite(e).is_some() { return true; }
            match e {
                Expr::Call(c) if ntoks(&c.func) == "stream::iter" && c.args.len() == 1 => rooted(d, &c.args[0]),
                Expr::Call(c) => ntoks(&c.func).starts_with("iter_"),
                Expr::Paren(p) => rooted(d, &p.expr),
                Expr::Path(_) => d.lazy.contains_key(&ntoks(e)),
                Expr::Range(r) => r.start.is_some() && r.end.is_some(),
                Expr::MethodCall(m) => {
                    let n = m.method.to_string();
                    (n == "iter" || n == "iter_mut" || n == "into_iter" || n == "set_indices") && m.args.is_empty()
                        || matches!(n.as_str(), "skip" | "take" | "rev" | "enumerate" | "copied" | "cloned" | "map" | "filter" | "filter_map" | "filter_map_ok" | "zip" | "zip_eq" | "chain" | "scan" | "skip_while" | "buffered") && rooted(d, &m.receiver)
                }
                _ => false,
            }
        }
        rooted(self, e)
    }

    fn base_len(&mut self, p: &Pipe) -> Expr {
        // exclusive upper bound of the raw counter, which starts at `start`
        match &p.base {
            Base::Slice(s, _) | Base::Mut(s) => { let s = paren(s.clone()); parse_quote!(#s.len()) }
            Base::Range(_, hi) => hi.clone(),
            Base::Zip(a, b) => {
                let (x, y) = (self.count_expr(a), self.count_expr(b));
                parse_quote!(vmin(#x, #y))
            }
        }
    }

    fn count_expr(&mut self, p: &Pipe) -> Expr {
        let l = self.base_len(p);
        let n: Expr = match &p.base { Base::Range(lo, hi) => parse_quote!(vsub_sat(#hi, #lo)), _ => l };
        let n = match &p.skip { Some(s) => parse_quote!(vsub_sat(#n, #s)), None => n };
        match &p.take { Some(t) => parse_quote!(vmin(#n, #t)), None => n }
    }

    /// Expression of the raw item at 0-based position `k`.
    fn item_at(&mut self, p: &Pipe, k: &Expr) -> Expr {
        let k: Expr = match (&p.skip, p.rev) {
            (None, false) => k.clone(),
            (Some(s), false) => parse_quote!((#k + #s)),
            (None, true) => { let n = self.count_expr(p); parse_quote!((#n - 1 - #k)) }
            (Some(s), true) => { let n = self.count_expr(p); parse_quote!((#n - 1 - #k + #s)) }
        };
        match &p.base {
            Base::Slice(s, true) => { let s = paren(s.clone()); parse_quote!(&#s[#k]) }
            Base::Slice(s, false) => { let s = paren(s.clone()); parse_quote!(#s[#k]) }
            Base::Mut(s) => parse_quote!(&mut #s[#k]),
            Base::Range(lo, _) => if ntoks(lo) == "0" { k } else { parse_quote!((#lo + #k)) },
            Base::Zip(a, b) => {
                let (a, b) = ((**a).clone(), (**b).clone());
                let (x, y) = (self.item_at(&a, &k), self.item_at(&b, &k));
                parse_quote!((#x, #y))
            }
        }
    }

    fn bind(&mut self, pat: &Pat, item: Expr, out: &mut Vec<Stmt>) {
        match (pat, &item) {
            (Pat::Wild(_), _) => {}
            (Pat::Reference(r), _) => self.bind(&r.pat.clone(), deref(item), out),
            (Pat::Paren(p), _) => self.bind(&p.pat.clone(), item, out),
            (Pat::Type(t), _) => self.bind(&t.pat.clone(), item, out),
            (Pat::Tuple(t), Expr::Tuple(e)) if t.elems.len() == e.elems.len() => {
                for (p, x) in t.elems.iter().zip(&e.elems) { self.bind(p, x.clone(), out); }
            }
            (Pat::Tuple(t), Expr::Reference(r)) if matches!(&*r.expr, Expr::Tuple(_)) => {
                if let Expr::Tuple(e) = &*r.expr { for (p, x) in t.elems.iter().zip(&e.elems) { let x: Expr = parse_quote!(&#x); self.bind(p, x, out); } }
            }
            _ => { if ntoks(pat) != ntoks(&item) { out.push(parse_quote!(let #pat = #item;)) } }
        }
    }

    fn call(&mut self, f: &Expr, item: Expr, out: &mut Vec<Stmt>) -> Expr {
        match f {
            Expr::Closure(c) => {
                self.bind(&c.inputs[0].clone(), item, out);
                let mut b = (*c.body).clone();
                self.visit_expr_mut(&mut b);
                b
            }
            f => {
                // a declared rewrite of a function path applies to its uses as an argument as well
                if let Some(i) = self.rewrites.iter().position(|r| matches(&r.pat, f, &mut Binds::new()) && ntoks(&r.pat) == ntoks(f)) {
                    let (t, r) = (self.rewrites[i].text.clone(), self.rewrites[i].repl.clone());
                    self.note(&format!("rewrite {t}"));
                    return self.call(&r, item, out);
                }
                parse_quote!(#f(#item))
            }
        }
    }

    /// `{ pre; let mut k = start; while k < end { stages; body } }`
    fn build(&mut self, p: Pipe, label: Option<Label>, body: &mut dyn FnMut(&mut Self, Expr, &mut Vec<Stmt>)) -> Vec<Stmt> {
        let n = self.loops;
        self.loops += 1;
        let (k, hi) = (format_ident!("__k{n}"), format_ident!("__n{n}"));
        let mut out: Vec<Stmt> = p.pre.clone();
        // a direct range or slice keeps its own counter, so that contracts can name positions
        let direct = !p.rev && !matches!(p.base, Base::Zip(..));
        let (start, end, item): (Expr, Expr, Expr) = if direct {
            let lo: Expr = match &p.base { Base::Range(lo, _) => lo.clone(), _ => parse_quote!(0) };
            let start: Expr = match &p.skip { Some(s) if ntoks(&lo) == "0" => s.clone(), Some(s) => parse_quote!(#lo + #s), None => lo.clone() };
            let end = self.base_len(&p);
            let end = match &p.take { Some(t) => parse_quote!(vmin(#end, #start + #t)), None => end };
            let item: Expr = match &p.base { Base::Slice(s, r) => { let s = paren(s.clone()); if *r { parse_quote!(&#s[#k]) } else { parse_quote!(#s[#k]) } } Base::Mut(s) => parse_quote!(&mut #s[#k]), _ => parse_quote!(#k) };
            (start, end, item)
        } else {
            let end = self.count_expr(&p);
            let ke: Expr = parse_quote!(#k);
            (parse_quote!(0), end, self.item_at(&p, &ke))
        };
        let marker = format_ident!("__loop_{n}");
        let mut inner: Vec<Stmt> = vec![];
        // current item
        let cur = self.ident("x");
        // the raw item is fetched before the counter advances
        fn fetch(d: &mut Desugar, item: Expr, inner: &mut Vec<Stmt>) -> Expr {
            match item {
                Expr::Tuple(t) => { let xs: Vec<Expr> = t.elems.into_iter().map(|x| fetch(d, x, inner)).collect(); parse_quote!((#(#xs),*)) }
                // the reference is re-taken at each use of the position, which is kept under its own name
                Expr::Reference(r) => { let i = d.ident("x"); let x = &r; inner.push(parse_quote!(let #i = #x;)); parse_quote!(#i) }
                item => { let i = d.ident("x"); inner.push(parse_quote!(let #i = #item;)); parse_quote!(#i) }
            }
        }
        // a filtered mutable iteration tests the place through a shared borrow and borrows it mutably afterwards
        let lazy_mut = matches!(p.base, Base::Mut(_)) && p.stages.iter().any(|s| matches!(s, Stage::Filter(_)));
        let mut it: Expr = if let (true, Base::Mut(s)) = (lazy_mut, &p.base) { parse_quote!(&mut #s[(#k - 1)]) } else { fetch(self, item, &mut inner) };
        fn shared(e: &Expr) -> Expr {
            match e {
                Expr::Reference(r) if r.mutability.is_some() => { let x = &r.expr; parse_quote!(&#x) }
                Expr::Tuple(t) => { let xs: Vec<Expr> = t.elems.iter().map(shared).collect(); parse_quote!((#(#xs),*)) }
                e => e.clone(),
            }
        }
        let _ = cur;
        fn zipped(d: &mut Desugar, p: &Pipe, it: Expr, k: &Ident, out: &mut Vec<Stmt>) -> Expr {
            let Base::Zip(a, b) = &p.base else { return it };
            let Expr::Tuple(t) = it else { return it };
            let mut xs = vec![];
            for (q, x) in [a, b].into_iter().zip(t.elems) {
                let mut x = zipped(d, q, x, k, out);
                for s in &q.stages {
                    x = match s {
                        Stage::Copied => deref(x),
                        Stage::Enumerate => { if q.skip.is_some() { d.fail("zip of skipped enumerate".into()); } parse_quote!(((#k - 1), #x)) }
                        Stage::Map(f) => { let e = d.call(f, x, out); let m = d.ident("m"); out.push(parse_quote!(let #m = #e;)); parse_quote!(#m) }
                        _ => { d.fail("zip of filtered iterators".into()); x }
                    };
                }
                xs.push(x);
            }
            parse_quote!((#(#xs),*))
        }
        let mut stmts: Vec<Stmt> = vec![];
        it = zipped(self, &p, it, &k, &mut stmts);
        let mut counter: Option<Ident> = None;
        let stages = p.stages.clone();
        let filtered_before = |i: usize| stages[..i].iter().any(|s| matches!(s, Stage::Filter(_) | Stage::FilterMap(_) | Stage::SkipWhile(_)));
        // nest = list of (guard, stmts so far)
        let mut wraps: Vec<(Vec<Stmt>, Wrap)> = vec![];
        for (i, s) in stages.iter().enumerate() {
            match s {
                Stage::Copied => it = deref(it),
                Stage::Enumerate => {
                    if filtered_before(i) {
                        let c = self.ident("c"); let c2 = self.ident("c");
                        stmts.push(parse_quote!(let #c2 = #c;)); stmts.push(parse_quote!(#c = #c + 1;));
                        counter = Some(c); it = parse_quote!((#c2, #it));
                    } else {
                        let sub = if direct { match (&p.skip, &p.base) { (Some(s), _) => Some(s.clone()), (None, Base::Range(lo, _)) if ntoks(lo) != "0" => Some(lo.clone()), _ => None } } else { None };
                        let kk: Expr = match sub { Some(s) => parse_quote!((#k - 1 - (#s))), None => parse_quote!((#k - 1)) };
                        it = parse_quote!((#kk, #it));
                    }
                }
                Stage::Map(f) => {
                    let e = self.call(f, it, &mut stmts);
                    let m = self.ident("m");
                    stmts.push(parse_quote!(let #m = #e;));
                    it = parse_quote!(#m);
                }
                Stage::Filter(f) => {
                    let arg: Expr = if lazy_mut { shared(&it) } else { parse_quote!(&#it) };
                    let c = self.call(f, arg, &mut stmts);
                    wraps.push((std::mem::take(&mut stmts), Wrap::If(c)));
                }
                Stage::SkipWhile(f) => {
                    let arg: Expr = parse_quote!(&#it);
                    let c = paren(self.call(f, arg, &mut stmts));
                    let st = format_ident!("__skip{n}");
                    out.push(parse_quote!(let mut #st = true;));
                    wraps.push((std::mem::take(&mut stmts), Wrap::If(parse_quote!(!(#st && #c)))));
                    stmts.push(parse_quote!(#st = false;));
                }
                Stage::Scan(init, f) => {
                    let Expr::Closure(c) = f else { self.fail("scan without closure".into()); continue };
                    let st = format_ident!("__scan{n}");
                    let mut init = init.clone(); self.visit_expr_mut(&mut init);
                    out.push(parse_quote!(let mut #st = #init;));
                    struct S(String, Ident);
                    impl VisitMut for S {
                        fn visit_expr_mut(&mut self, e: &mut Expr) {
                            if let Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) = e { if ntoks(expr) == self.0 { let i = &self.1; *e = parse_quote!(#i); return; } }
                            visit_mut::visit_expr_mut(self, e);
                        }
                    }
                    let mut b = (*c.body).clone();
                    S(ntoks(&c.inputs[0]), st).visit_expr_mut(&mut b);
                    self.bind(&c.inputs[1].clone(), it, &mut stmts);
                    self.visit_expr_mut(&mut b);
                    // `{ stmts; Some(x) }` never ends the iteration early
                    let mut tail = b.clone();
                    if let Expr::Block(bl) = &b {
                        let mut ss = bl.block.stmts.clone();
                        if let Some(Stmt::Expr(t, None)) = ss.pop() { stmts.extend(ss); tail = t; }
                    }
                    let m = self.ident("m");
                    match &tail {
                        Expr::Call(x) if ntoks(&x.func) == "Some" && x.args.len() == 1 => { let a = &x.args[0]; stmts.push(parse_quote!(let #m = #a;)); }
                        _ => stmts.push(parse_quote!(let #m = match #tail { Some(__v) => __v, None => { break } };)),
                    }
                    it = parse_quote!(#m);
                }
                Stage::FilterMap(f) => {
                    let e = self.call(f, it, &mut stmts);
                    let m = self.ident("m");
                    wraps.push((std::mem::take(&mut stmts), Wrap::Some(e, m.clone())));
                    it = parse_quote!(#m);
                }
            }
        }
        body(self, it, &mut stmts);
        while let Some((mut before, w)) = wraps.pop() {
            let inner_stmts = stmts;
            match w {
                Wrap::If(c) => before.push(parse_quote!(if #c { #(#inner_stmts)* })),
                Wrap::Some(e, m) => before.push(parse_quote!(match #e { Some(#m) => { #(#inner_stmts)* } None => {} })),
            }
            stmts = before;
        }
        if let Some(c) = counter { out.push(parse_quote!(let mut #c: usize = 0;)); }
        let mb = self.markers(&format!("loop {n} before"));
        let ma = self.markers(&format!("loop {n} after"));
        let mi = self.markers(&format!("loop {n} begin"));
        let me = self.markers(&format!("loop {n} end"));
        out.push(if ntoks(&start) == "0" && !matches!(p.base, Base::Range(..)) { parse_quote!(let mut #k: usize = #start;) } else { parse_quote!(let mut #k = #start;) });
        out.push(parse_quote!(let #hi = #end;));
        out.extend(mb);
        let w: Expr = parse_quote!(#label while #k < #hi { #marker!(); #(#mi)* #(#inner)* #k = #k + 1; #(#stmts)* #(#me)* });
        out.push(Stmt::Expr(w, None));
        out.extend(ma);
        out
    }

    fn sink(&mut self, e: &Expr) -> Option<Expr> {
        match e {
            Expr::ForLoop(f) => {
                self.note("for loop over an iterator => while loop over an index");
                let Some(p) = self.pipeline(&f.expr, true) else { self.fail(format!("iterator {}", ntoks(&f.expr))); return None; };
                let (pat, body, label) = ((*f.pat).clone(), f.body.clone(), f.label.clone());
                let ss = self.build(p, label, &mut |d, it, out| {
                    d.bind(&pat, it, out);
                    let mut b = body.clone();
                    d.visit_block_mut(&mut b);
                    out.extend(b.stmts);
                });
                Some(parse_quote!({ #(#ss)* }))
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let arg = |k: usize| m.args.iter().nth(k).cloned();
                if name == "extend" {
                    if let Some(p) = arg(0).and_then(|a| self.try_pipe(&a)) {
                        self.note("extend(iterator) => loop");
                        let mut v = (*m.receiver).clone();
                        self.visit_expr_mut(&mut v);
                        let ss = self.build(p, None, &mut |_, it, out| out.push(parse_quote!(#v.push(#it);)));
                        return Some(parse_quote!({ #(#ss)* }));
                    }
                    return None;
                }
                if !matches!(name.as_str(), "for_each" | "collect" | "collect_vec" | "try_collect" | "sum" | "count" | "any" | "all" | "fold" | "reduce" | "next" | "max" | "min" | "position" | "find" | "unzip" | "process_results") { return None; }
                // a failure to collect is never one to return: the obligation is that there is none
                let sure = self.spec.opts.iter().any(|o| *o == "never-err");
                let flat = name == "try_collect" && matches!(&*m.receiver, Expr::MethodCall(f) if f.method == "try_flatten");
                let recv = match &*m.receiver { Expr::MethodCall(f) if flat => (*f.receiver).clone(), x => x.clone() };
                let p = self.try_pipe(&recv)?;
                self.note(&format!("iterator chain ending in .{name}() => while loop over an index"));
                let acc = format_ident!("__out{}", self.loops);
                let (pre, post, mut body): (Vec<Stmt>, Option<Expr>, Box<dyn FnMut(&mut Self, Expr, &mut Vec<Stmt>)>) = match name.as_str() {
                    "for_each" => { let f = arg(0)?; (vec![], None, Box::new(move |d, it, out| { let e = d.call(&f, it, out); out.push(Stmt::Expr(e, Some(Default::default()))); })) }
                    "collect" if m.turbofish.as_ref().is_some_and(|t| ntoks(t).contains("Result")) => (vec![parse_quote!(let mut #acc = Vec::new();)], Some(parse_quote!(Ok::<_, VErr>(#acc))), { let a = acc.clone(); Box::new(move |_, it, out| { out.push(if sure { parse_quote!(match #it { Ok(__v) => #a.push(__v), Err(_) => { vpanic(); } }) } else { parse_quote!(match #it { Ok(__v) => #a.push(__v), Err(_) => { return Err(VErr); } }) }); }) }),
                    "try_collect" if flat => (vec![parse_quote!(let mut #acc = Vec::new();)], Some(parse_quote!(Ok::<_, VErr>(#acc))), { let a = acc.clone(); Box::new(move |_, it, out| { out.push(parse_quote!(match #it { Ok(__v) => { match drain(__v) { Ok(__w) => append_all(&mut #a, __w), Err(_) => { return Err(VErr); } } } Err(_) => { return Err(VErr); } })); }) }),
                    "try_collect" => (vec![parse_quote!(let mut #acc = Vec::new();)], Some(parse_quote!(Ok::<_, VErr>(#acc))), { let a = acc.clone(); Box::new(move |_, it, out| { out.push(parse_quote!(match #it { Ok(__v) => #a.push(__v), Err(_) => { return Err(VErr); } })); }) }),
                    "collect" | "collect_vec" => (vec![parse_quote!(let mut #acc = Vec::new();)], Some(parse_quote!(#acc)), { let a = acc.clone(); Box::new(move |_, it, out| out.push(parse_quote!(#a.push(#it);))) }),
                    "unzip" => { let (a, b) = (acc.clone(), format_ident!("{}b", acc)); (vec![parse_quote!(let mut #acc = Vec::new();), parse_quote!(let mut #b = Vec::new();)], Some(parse_quote!((#acc, #b))), Box::new(move |_, it, out| { out.push(parse_quote!(let (__u, __w) = #it;)); out.push(parse_quote!(#a.push(__u);)); out.push(parse_quote!(#b.push(__w);)); })) }
                    "process_results" => {
                        // `.process_results(|iter| iter.map(f).unzip())` or `.collect()`: stop at the first error
                        let Expr::Closure(c) = arg(0)? else { self.fail("process_results without closure".into()); return None; };
                        let Expr::MethodCall(t) = (*c.body).clone() else { self.fail("process_results body".into()); return None; };
                        let f = match &*t.receiver {
                            Expr::MethodCall(x) if x.method == "map" && ntoks(&x.receiver) == ntoks(&c.inputs[0]) => x.args.first().cloned(),
                            x if ntoks(x) == ntoks(&c.inputs[0]) => None,
                            _ => { self.fail("process_results chain".into()); return None; }
                        };
                        let two = t.method == "unzip";
                        if !two && t.method != "collect" { self.fail("process_results terminal".into()); return None; }
                        let (a, b) = (acc.clone(), format_ident!("{}b", acc));
                        let pre: Vec<Stmt> = if two { vec![parse_quote!(let mut #acc = Vec::new();), parse_quote!(let mut #b = Vec::new();)] } else { vec![parse_quote!(let mut #acc = Vec::new();)] };
                        let post: Expr = if two { parse_quote!(Ok::<_, VErr>((#acc, #b))) } else { parse_quote!(Ok::<_, VErr>(#acc)) };
                        (pre, Some(post), Box::new(move |d, it, out| {
                            out.push(parse_quote!(let __r = match #it { Ok(__v) => __v, Err(_) => { return Err(VErr); } };));
                            let x = match &f { Some(f) => d.call(f, parse_quote!(__r), out), None => parse_quote!(__r) };
                            if two { out.push(parse_quote!(let (__u, __w) = #x;)); out.push(parse_quote!(#a.push(__u);)); out.push(parse_quote!(#b.push(__w);)); } else { out.push(parse_quote!(#a.push(#x);)); }
                        }))
                    }
                    "sum" => (vec![parse_quote!(let mut #acc = 0;)], Some(parse_quote!(#acc)), { let a = acc.clone(); Box::new(move |_, it, out| out.push(parse_quote!(#a = #a + #it;))) }),
                    "count" => (vec![parse_quote!(let mut #acc: usize = 0;)], Some(parse_quote!(#acc)), { let a = acc.clone(); Box::new(move |_, _, out| out.push(parse_quote!(#a = #a + 1;))) }),
                    "any" => { let f = arg(0)?; let a = acc.clone(); (vec![parse_quote!(let mut #acc = false;)], Some(parse_quote!(#acc)), Box::new(move |d, it, out| { let c = d.call(&f, it, out); out.push(parse_quote!(if #c { #a = true; break; })); })) }
                    "all" => { let f = arg(0)?; let a = acc.clone(); (vec![parse_quote!(let mut #acc = true;)], Some(parse_quote!(#acc)), Box::new(move |d, it, out| { let c = d.call(&f, it, out); let c = paren(c); out.push(parse_quote!(if !#c { #a = false; break; })); })) }
                    "max" | "min" => {
                        let a = acc.clone();
                        let op: BinOp = if name == "max" { parse_quote!(>=) } else { parse_quote!(<) };
                        (vec![parse_quote!(let mut #acc = None;)], Some(parse_quote!(#acc)), Box::new(move |_, it, out| out.push(parse_quote!(#a = match #a { None => Some(#it), Some(__b) => if #it #op __b { Some(#it) } else { Some(__b) } };))))
                    }
                    "fold" => {
                        let mut init = arg(0)?; self.visit_expr_mut(&mut init);
                        let f = arg(1)?; let a = acc.clone();
                        let Expr::Closure(c) = f else { self.fail("fold without closure".into()); return None; };
                        (vec![parse_quote!(let mut #acc = #init;)], Some(parse_quote!(#acc)), Box::new(move |d, it, out| {
                            let ae: Expr = parse_quote!(#a);
                            d.bind(&c.inputs[0].clone(), ae, out); d.bind(&c.inputs[1].clone(), it, out);
                            let mut b = (*c.body).clone(); d.visit_expr_mut(&mut b);
                            out.push(parse_quote!(#a = #b;));
                        }))
                    }
                    "next" => { let a = acc.clone(); (vec![parse_quote!(let mut #acc = None;)], Some(parse_quote!(#acc)), Box::new(move |_, it, out| { out.push(parse_quote!(#a = Some(#it);)); out.push(parse_quote!(break;)); })) }
                    "reduce" => {
                        let f = arg(0)?; let a = acc.clone();
                        let Expr::Closure(c) = f else { self.fail("reduce without closure".into()); return None; };
                        (vec![parse_quote!(let mut #acc = None;)], Some(parse_quote!(#acc)), Box::new(move |d, it, out| {
                            let mut st = vec![];
                            let ae: Expr = parse_quote!(__prev);
                            d.bind(&c.inputs[0].clone(), ae, &mut st); d.bind(&c.inputs[1].clone(), parse_quote!(__next), &mut st);
                            let mut b = (*c.body).clone(); d.visit_expr_mut(&mut b);
                            out.push(parse_quote!(let __next = #it;));
                            out.push(parse_quote!(#a = match #a { None => Some(__next), Some(__prev) => Some({ #(#st)* #b }) };));
                        }))
                    }
                    "position" => {
                        let f = arg(0)?; let a = acc.clone(); let n = self.loops; let k = format_ident!("__k{n}");
                        (vec![parse_quote!(let mut #acc: Option<usize> = None;)], Some(parse_quote!(#acc)), Box::new(move |d, it, out| { let c = d.call(&f, it, out); out.push(parse_quote!(if #c { #a = Some(#k - 1); break; })); }))
                    }
                    _ => { self.fail(format!("iterator sink .{name}")); return None; }
                };
                let ss = self.build(p, None, &mut *body);
                Some(parse_quote!({ #(#pre)* #(#ss)* #post }))
            }
            _ => None,
        }
    }

    // ---------------------------------------------------------------- option and result combinators

    /// `if let Entry::Occupied(mut e) = map.entry(k) { .. } else { .. }`: a test for the key; the entry is the map at that key
    fn occupied(&mut self, x: &Expr) -> Option<Expr> {
        let Expr::If(i) = x else { return None };
        let Expr::Let(l) = &*i.cond else { return None };
        let Pat::TupleStruct(p) = &*l.pat else { return None };
        if ntoks(&p.path) != "Entry::Occupied" { return None; }
        let Some(Pat::Ident(name)) = p.elems.first() else { return None };
        let Expr::MethodCall(m) = &*l.expr else { return None };
        if m.method != "entry" { return None; }
        let (map, key) = (&m.receiver, m.args.first()?);
        if !matches!(key, Expr::Path(_)) { return None; }
        struct E<'a>(String, &'a Expr, &'a Expr);
        impl VisitMut for E<'_> {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                visit_mut::visit_expr_mut(self, e);
                let Expr::MethodCall(m) = e else { return };
                if ntoks(&m.receiver) != self.0 { return; }
                let (map, key) = (self.1, self.2);
                let a = m.args.first().cloned();
                *e = match (m.method.to_string().as_str(), a) {
                    ("get", None) => parse_quote!(map_at(&#map, &#key)),
                    ("insert", Some(v)) => parse_quote!(map_insert(&mut #map, #key, #v)),
                    ("remove", None) => parse_quote!(map_remove(&mut #map, &#key)),
                    _ => return,
                };
            }
        }
        let mut then = i.then_branch.clone();
        E(name.ident.to_string(), map, key).visit_block_mut(&mut then);
        let els = i.else_branch.as_ref().map(|(_, b)| (**b).clone());
        self.note("if let Entry::Occupied(e) = map.entry(k) => test for the key");
        Some(match els { Some(b) => parse_quote!(if map_has(&#map, &#key) #then else #b), None => parse_quote!(if map_has(&#map, &#key) #then) })
    }

    /// iteration over an iterator that is used again afterwards (`@opt stateful NAME`): a loop over its `next()`
    fn stateful(&mut self, x: &Expr) -> Option<Expr> {
        let is = |e: &Expr| { let t = ntoks(e); self.spec.opts.iter().filter_map(|o| o.strip_prefix("stateful ")).find(|n| t == **n || t == format!("&mut*{n}") || t == format!("&mut{n}")).map(|n| format_ident!("{n}")) };
        match x {
            Expr::ForLoop(f) if f.label.is_none() => {
                let it = is(&f.expr)?;
                let (p, b) = (&f.pat, &f.body);
                self.note("for loop over an iterator that is used again => loop over its next()");
                Some(parse_quote!(loop { match #it.next() { Some(#p) => #b None => { break; } } }))
            }
            Expr::MethodCall(m) if m.method == "for_each" => {
                let it = is(&m.receiver)?;
                let Some(Expr::Closure(c)) = m.args.first() else { return None };
                let (p, b) = (&c.inputs[0], &c.body);
                self.note("for_each over an iterator that is used again => loop over its next()");
                Some(parse_quote!(loop { match #it.next() { Some(#p) => { #b; } None => { break; } } }))
            }
            _ => None,
        }
    }

    /// `HashMap::from([(k, v), ..])`: the entries put in one after the other
    fn map_literal(&mut self, x: &Expr) -> Option<Expr> {
        let Expr::Call(c) = x else { return None };
        if ntoks(&c.func) != "HashMap::from" { return None; }
        let Some(Expr::Array(a)) = c.args.first() else { return None };
        let mut st: Vec<Stmt> = vec![];
        for t in &a.elems {
            let Expr::Tuple(t) = t else { return None };
            let (k, v) = (t.elems.first()?, t.elems.last()?);
            st.push(parse_quote!(map_insert(&mut __map, #k, #v);));
        }
        self.note("HashMap::from([(k, v), ..]) => map with the entries inserted in order");
        Some(parse_quote!({ let mut __map = map_new(); #(#st)* __map }))
    }

    fn combinator(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        let clos = |k: usize| match m.args.iter().nth(k) { Some(Expr::Closure(c)) => Some(c.clone()), _ => None };
        // a struct literal cannot start the scrutinee of a match
        let rooted_in_literal = { let mut e = &*m.receiver; loop { match e { Expr::MethodCall(c) => e = &c.receiver, Expr::Field(f) => e = &f.base, Expr::Try(t) => e = &t.expr, Expr::Struct(_) => break true, _ => break false } } };
        let r = &if rooted_in_literal { let e = &m.receiver; Box::new(parse_quote!((#e))) } else { m.receiver.clone() };
        let is_result = self.spec.opts.iter().any(|o| o == &format!("result .{name}"));
        let e: Expr = match name.as_str() {
            "map" => { let c = clos(0)?; let (p, b) = (&c.inputs[0], &c.body); if is_result { parse_quote!(match #r { Ok(#p) => Ok(#b), Err(__e) => Err(__e) }) } else { parse_quote!(match #r { Some(#p) => Some(#b), None => None }) } }
            "and_then" => { let c = clos(0)?; let (p, b) = (&c.inputs[0], &c.body); if is_result { parse_quote!(match #r { Ok(#p) => #b, Err(__e) => Err(__e) }) } else { parse_quote!(match #r { Some(#p) => #b, None => None }) } }
            "unwrap_or_else" => { let c = clos(0)?; let b = &c.body; if c.inputs.is_empty() { parse_quote!(match #r { Some(__v) => __v, None => #b }) } else { parse_quote!(match #r { Ok(__v) => __v, Err(_) => #b }) } }
            "unwrap_or" => { let a = m.args.first()?; parse_quote!(match #r { Some(__v) => __v, None => #a }) }
            "map_or" => { let a = m.args.first()?; let c = clos(1)?; let (p, b) = (&c.inputs[0], &c.body); parse_quote!(match #r { Some(#p) => #b, None => #a }) }
            "ok_or_else" => { parse_quote!(match #r { Some(__v) => Ok(__v), None => Err(VErr) }) }
            // map entry: change the value that is there, or put one in
            "or_insert" => {
                let Expr::MethodCall(am) = &*m.receiver else { return None };
                let Expr::MethodCall(en) = &*am.receiver else { return None };
                if am.method != "and_modify" || en.method != "entry" { return None; }
                let (map, key, v) = (&en.receiver, en.args.first()?, m.args.first()?);
                let Some(Expr::Closure(c)) = am.args.first() else { return None };
                let p = match &c.inputs[0] { Pat::Type(t) => (*t.pat).clone(), p => p.clone() };
                let b = &c.body;
                parse_quote!({ let __key = #key; match map_get(&#map, __key) { Some(__old) => { let mut __val = __old; { let #p = &mut __val; #b } map_put(&mut #map, __key, __val); } None => { map_put(&mut #map, __key, #v); } } })
            }
            "map_err" => parse_quote!(match #r { Ok(__v) => Ok(__v), Err(_) => Err(VErr) }),
            "then" => { let c = clos(0)?; let b = &c.body; parse_quote!(if #r { Some(#b) } else { None }) }
            "transpose" => parse_quote!(match #r { Some(Ok(__v)) => Ok(Some(__v)), Some(Err(__e)) => Err(__e), None => Ok(None) }),
            "flatten" => parse_quote!(match #r { Some(__v) => __v, None => None }),
            "then_some" => { let a = m.args.first()?; parse_quote!(if #r { Some(#a) } else { None }) }
            _ => return None,
        };
        self.note(&format!(".{name}(closure) => match"));
        Some(e)
    }
}

enum Wrap { If(Expr), Some(Expr, Ident) }

fn deref(e: Expr) -> Expr {
    match e { Expr::Reference(r) => *r.expr, e => parse_quote!(*#e) }
}

/// Does a statement of a block inside `s` contain the text by itself?
fn nested_contains(s: &Stmt, t: &str) -> bool {
    struct N<'a>(&'a str, bool);
    impl<'a, 'b> syn::visit::Visit<'b> for N<'a> {
        fn visit_block(&mut self, b: &'b Block) { if b.stmts.iter().any(|s| ntoks(s).contains(self.0)) { self.1 = true; } }
    }
    let mut n = N(t, false);
    syn::visit::Visit::visit_stmt(&mut n, s);
    n.1
}

struct VecRepeat(Expr, Expr);
impl parse::Parse for VecRepeat {
    fn parse(i: parse::ParseStream) -> Result<Self> { let a = i.parse()?; i.parse::<Token![;]>()?; Ok(VecRepeat(a, i.parse()?)) }
}

struct Matches(Expr, Pat, Option<Expr>);
impl parse::Parse for Matches {
    fn parse(i: parse::ParseStream) -> Result<Self> {
        let a = i.parse()?; i.parse::<Token![,]>()?;
        let p = Pat::parse_multi_with_leading_vert(i)?;
        let g = if i.peek(Token![if]) { i.parse::<Token![if]>()?; Some(i.parse()?) } else { None };
        let _ = i.parse::<Token![,]>();
        Ok(Matches(a, p, g))
    }
}

impl VisitMut for Desugar<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let stmts = std::mem::take(&mut b.stmts);
        let count = stmts.len();
        for (nth, s) in stmts.into_iter().enumerate() {
            let txt = ntoks(&s);
            // only simple statements can be dropped
            if let Some(d) = self.spec.drops.iter().find(|d| txt.contains(&norm(d)) && !nested_contains(&s, &norm(d)) && !matches!(&s, Stmt::Expr(Expr::ForLoop(_) | Expr::While(_) | Expr::If(_) | Expr::Match(_) | Expr::Block(_) | Expr::Unsafe(_) | Expr::Loop(_), _)) && !txt.contains("for_each(")) {
                let _ = d;
                self.dropped.push(txt.chars().take(160).collect());
                continue;
            }
            // a local constant is a local variable here
            let s = match s { Stmt::Item(Item::Const(c)) => { let (i, t, e) = (c.ident, c.ty, c.expr); parse_quote!(let #i: #t = #e;) } s => s };
            if matches!(s, Stmt::Item(_)) { self.dropped.push(format!("item {}", txt.chars().take(80).collect::<String>())); continue; }
            if let Stmt::Local(l) = &s {
                if let (Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
                    if matches!(&*init.expr, Expr::MethodCall(m) if matches!(m.method.to_string().as_str(), "iter" | "into_iter" | "skip" | "take" | "rev" | "enumerate" | "copied" | "cloned" | "map" | "filter" | "filter_map" | "zip" | "zip_eq")) && self.rooted(&init.expr) && !(i.mutability.is_some() && self.rewrites.iter().any(|r| matches(&r.pat, &init.expr, &mut Binds::new()))) {
                        self.lazy.insert(i.ident.to_string(), (*init.expr).clone());
                        continue;
                    }
                }
            }
            let mut before: Vec<Stmt> = vec![]; let mut after: Vec<Stmt> = vec![];
            for (i, (w, _)) in self.spec.proofs.iter().enumerate() {
                let m = format_ident!("__proof_{i}");
                let (t, list) = if let Some(t) = w.strip_prefix("before ") { (t, &mut before) } else if let Some(t) = w.strip_prefix("after ") { (t, &mut after) } else { continue };
                let t = norm(t.trim().trim_matches('"'));
                if txt.contains(&t) && !nested_contains(&s, &t) { list.push(parse_quote!(#m!();)); }
            }
            let mut s = s;
            let is_for = matches!(&s, Stmt::Expr(Expr::ForLoop(_), _));
            self.visit_stmt_mut(&mut s);
            if nth + 1 < count {
                if let Stmt::Expr(Expr::Call(_) | Expr::MethodCall(_) | Expr::Macro(_), semi @ None) = &mut s { *semi = Some(Default::default()); }
            }
            b.stmts.extend(before);
            match s {
                // the names a loop introduces are unique, so its statements stay in the enclosing scope
                Stmt::Expr(Expr::Block(bl), _) if is_for => b.stmts.extend(bl.block.stmts),
                s => b.stmts.push(s),
            }
            b.stmts.extend(after);
        }
    }

    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            let semi = m.semi_token;
            if let Some(e) = self.expand(&m.mac) { *s = Stmt::Expr(e, semi.or(Some(Default::default())).filter(|_| semi.is_some())); }
        }
        if let Stmt::Local(l) = s {
            l.attrs.clear();
            // an annotation the verifier cannot resolve (an associated type of the element type) is replaced
            if let Pat::Type(t) = &l.pat {
                if let Pat::Ident(i) = &*t.pat {
                    // `@let x!: T` replaces an annotation that is there
                    if let Some((_, r)) = self.spec.let_types.iter().find(|(n, _)| n.strip_suffix('!').is_some_and(|n| i.ident == n)) {
                        let mut t = t.clone();
                        t.ty = Box::new(parse_str(r).unwrap());
                        l.pat = Pat::Type(t);
                    }
                }
            }
            if let Pat::Ident(i) = &mut l.pat {
                if self.spec.let_types.iter().any(|(n, _)| n.strip_prefix("mut ").is_some_and(|n| i.ident == n)) { i.mutability = Some(Default::default()); }
                if let Some((_, t)) = self.spec.let_types.iter().find(|(n, _)| i.ident == n.trim_start_matches("mut ")) {
                    let p = &l.pat;
                    let t: Type = parse_str(t).unwrap();
                    l.pat = Pat::Type(PatType { attrs: vec![], pat: Box::new(p.clone()), colon_token: Default::default(), ty: Box::new(t) });
                }
            }
        }
        visit_mut::visit_stmt_mut(self, s);
        // blocks produced from statement-level expressions need no trailing value
    }

    fn visit_ident_mut(&mut self, _: &mut Ident) {}

    /// `Some(&v) => b` is `Some(__rv) => { let v = *__rv; b }` for a copied v
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        struct R { lets: Vec<Stmt> }
        impl VisitMut for R {
            fn visit_pat_mut(&mut self, p: &mut Pat) {
                if let Pat::Reference(r) = p { if let (Pat::Ident(i), None) = (&*r.pat, r.mutability) { if i.by_ref.is_none() && i.subpat.is_none() {
                    let (v, n) = (i.ident.clone(), format_ident!("__r{}", i.ident));
                    self.lets.push(parse_quote!(let #v = *#n;));
                    *p = parse_quote!(#n);
                    return;
                } } }
                visit_mut::visit_pat_mut(self, p);
            }
        }
        if a.guard.is_none() {
            let mut r = R { lets: vec![] };
            r.visit_pat_mut(&mut a.pat);
            if !r.lets.is_empty() { let (l, b) = (r.lets, &a.body); *a.body = parse_quote!({ #(#l)* #b }); }
        }
        visit_mut::visit_arm_mut(self, a);
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        let t = ntoks(p);
        if let Some((_, r)) = self.spec.substs.iter().find(|(k, _)| norm(k) == t) {
            if let Ok(np) = parse_str::<Path>(r) { *p = np; return; }
        }
        visit_mut::visit_path_mut(self, p);
    }

    fn visit_type_mut(&mut self, t: &mut Type) {
        let s = ntoks(t);
        if let Some((_, r)) = self.spec.substs.iter().find(|(k, _)| norm(k) == s) {
            if let Ok(nt) = parse_str::<Type>(r) { *t = nt; return; }
        }
        visit_mut::visit_type_mut(self, t);
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if self.error.is_some() { return; }
        if matches!(e, Expr::Macro(_)) {
            if let Some(i) = self.rewrites.iter().position(|r| matches!(r.pat, Expr::Macro(_)) && matches(&r.pat, e, &mut Binds::new())) {
                let t = self.rewrites[i].text.clone();
                *e = self.rewrites[i].repl.clone();
                self.note(&format!("rewrite {t}"));
            }
        }
        if let Expr::Macro(m) = e {
            match self.expand(&m.mac) { Some(x) => *e = x, None => return }
        }
        if let Expr::Unsafe(u) = e {
            self.note("unsafe block => block");
            *e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: u.block.clone() });
        }
        // declared rewrites, outermost first
        let mut i = 0;
        while i < self.rewrites.len() {
            let mut b = Binds::new();
            if matches(&self.rewrites[i].pat, e, &mut b) {
                let t = self.rewrites[i].text.clone();
                let name = matches!(self.rewrites[i].pat, Expr::Path(_)) && matches!(&self.rewrites[i].repl, Expr::Call(c) if c.args.iter().any(|a| ntoks(a) == ntoks(&self.rewrites[i].pat)));
                *e = substitute(&self.rewrites[i].repl, &b);
                self.note(&format!("rewrite {t}"));
                // the replacement of a name mentions the name itself
                if name { return; }
            }
            i += 1;
        }
        if let Expr::Match(m) = e {
            // `match x { A::ID => .., _ => .. }` over associated constants
            fn konst(p: &Pat) -> Option<Expr> { match p { Pat::Path(p) if p.path.segments.len() > 1 && p.path.segments.last()?.ident.to_string().chars().all(|c| c.is_ascii_uppercase() || c == '_') && p.path.segments.last()?.ident.to_string().len() > 1 => { let p = &p.path; Some(parse_quote!(#p)) } _ => None } }
            if m.arms.len() > 1 && m.arms.iter().all(|a| a.guard.is_none()) && m.arms[..m.arms.len() - 1].iter().all(|a| konst(&a.pat).is_some()) && matches!(m.arms.last().map(|a| &a.pat), Some(Pat::Wild(_))) {
                let v = self.ident("m");
                let last = &m.arms.last().unwrap().body;
                let mut out: Expr = parse_quote!({ #last });
                for a in m.arms[..m.arms.len() - 1].iter().rev() { let (k, b) = (konst(&a.pat).unwrap(), &a.body); out = parse_quote!(if #v == #k { #b } else #out); }
                let x = &m.expr;
                *e = parse_quote!({ let #v = #x; #out });
                self.note("match over constants => if chain");
            }
        }
        if let Some(x) = self.stateful(e) { *e = x; }
        if let Some(x) = self.sink(e) { *e = x; return; }
        if let Some(x) = self.occupied(e) { *e = x; }
        if let Some(x) = self.map_literal(e) { *e = x; }
        if let Expr::MethodCall(m) = e {
            let m2 = m.clone();
            if let Some(x) = self.combinator(&m2) { *e = x; }
        }
        if let Expr::Await(a) = e {
            self.note(".await => its value");
            let b = (*a.base).clone();
            *e = b;
            self.visit_expr_mut(e);
            return;
        }
        if let Expr::Try(t) = e {
            if self.spec.opts.iter().any(|o| o == "poll") {
                self.note("? in a poll function => return Poll::Ready(Some(Err))");
                let mut x = (*t.expr).clone();
                self.visit_expr_mut(&mut x);
                *e = parse_quote!(match #x { Ok(__v) => __v, Err(_) => { return Poll::Ready(Some(Err(VErr))); } });
                return;
            }
        }
        if let Expr::While(w) = e {
            if let Expr::Let(l) = &*w.cond {
                self.note("while let => loop with match");
                let (p, x, b) = (&l.pat, &l.expr, &w.body);
                *e = parse_quote!(loop { match #x { #p => #b _ => { break; } } });
                self.visit_expr_mut(e);
                return;
            }
        }
        if let Expr::Loop(w) = e {
            let n = self.loops;
            self.loops += 1;
            self.visit_block_mut(&mut w.body);
            let marker = format_ident!("__loop_{n}");
            let mi = self.markers(&format!("loop {n} begin")); let me = self.markers(&format!("loop {n} end"));
            let (mb, ma) = (self.markers(&format!("loop {n} before")), self.markers(&format!("loop {n} after")));
            for (k, s) in mi.into_iter().enumerate() { w.body.stmts.insert(k, s); }
            w.body.stmts.insert(0, parse_quote!(#marker!();));
            w.body.stmts.extend(me);
            let w2 = w.clone();
            if !mb.is_empty() || !ma.is_empty() { *e = parse_quote!({ #(#mb)* #w2 #(#ma)* }); }
            return;
        }
        if let Expr::While(w) = e {
            let n = self.loops;
            self.loops += 1;
            visit_mut::visit_expr_mut(self, &mut w.cond);
            self.visit_block_mut(&mut w.body);
            let marker = format_ident!("__loop_{n}");
            let mi = self.markers(&format!("loop {n} begin")); let me = self.markers(&format!("loop {n} end"));
            let (mb, ma) = (self.markers(&format!("loop {n} before")), self.markers(&format!("loop {n} after")));
            for (k, s) in mi.into_iter().enumerate() { w.body.stmts.insert(k, s); }
            w.body.stmts.insert(0, parse_quote!(#marker!();));
            w.body.stmts.extend(me);
            let w2 = w.clone();
            if !mb.is_empty() || !ma.is_empty() { *e = parse_quote!({ #(#mb)* #w2 #(#ma)* }); }
            return;
        }
        if let Expr::Loop(w) = e {
            let n = self.loops;
            self.loops += 1;
            self.visit_block_mut(&mut w.body);
            let marker = format_ident!("__loop_{n}");
            let mi = self.markers(&format!("loop {n} begin")); let me = self.markers(&format!("loop {n} end"));
            for (k, s) in mi.into_iter().enumerate() { w.body.stmts.insert(k, s); }
            w.body.stmts.insert(0, parse_quote!(#marker!();));
            w.body.stmts.extend(me);
            return;
        }
        if let Expr::Closure(c) = e {
            let n = self.closures;
            self.closures += 1;
            if let Some((tys, _)) = self.spec.closures.get(&n) {
                let tys: Vec<Type> = tys.split(';').filter(|t| !t.trim().is_empty()).map(|t| parse_str(t).unwrap()).collect();
                let mut lets: Vec<Stmt> = vec![];
                for (k, (p, t)) in c.inputs.iter_mut().zip(tys).enumerate() {
                    if matches!(p, Pat::Tuple(_)) { let q = p.clone(); let id = format_ident!("__c{k}"); lets.push(parse_quote!(let #q = #id;)); *p = parse_quote!(#id); let q = p.clone(); *p = Pat::Type(PatType { attrs: vec![], pat: Box::new(q), colon_token: Default::default(), ty: Box::new(t) }); continue; }
                    if !matches!(p, Pat::Type(_)) { let q = p.clone(); *p = Pat::Type(PatType { attrs: vec![], pat: Box::new(q), colon_token: Default::default(), ty: Box::new(t) }); }
                }
                self.visit_expr_mut(&mut c.body);
                c.output = ReturnType::Default;
                let m = format_ident!("__closure_{n}");
                let mut b = (*c.body).clone();
                if !lets.is_empty() { let v = b.clone(); b = parse_quote!({ #(#lets)* #v }); }
                c.body = Box::new(match b {
                    Expr::Block(mut b) if b.label.is_none() => { b.block.stmts.insert(0, parse_quote!(#m!();)); Expr::Block(b) }
                    b => parse_quote!({ #m!(); #b }),
                });
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

#[allow(dead_code)]
fn _q() -> TokenStream { quote!() }
