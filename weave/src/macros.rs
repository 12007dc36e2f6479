//! Item-position expansion of the source file's own single-arm `macro_rules!` without repetitions
//! (`int_pvalue!(u8, U8);`), by substituting the arguments for the metavariables. Other macro
//! invocations are left as they are. A single-arm macro defined inside a function is expanded where
//! that function uses it.
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use std::collections::HashMap;
use syn::visit_mut::{self, VisitMut};

struct Rule { params: Vec<(String, bool)>, body: TokenStream }

fn rule(tokens: &TokenStream) -> Option<Rule> {
    let t: Vec<TokenTree> = tokens.clone().into_iter().collect();
    let (m, b) = match &t[..] {
        [TokenTree::Group(m), TokenTree::Punct(e), TokenTree::Punct(g), TokenTree::Group(b), rest @ ..]
            if e.as_char() == '=' && g.as_char() == '>' && rest.iter().all(|x| matches!(x, TokenTree::Punct(p) if p.as_char() == ';')) => (m, b),
        _ => return None,
    };
    let mut params = vec![];
    for part in split(&m.stream()) {
        match &part[..] {
            [TokenTree::Punct(d), TokenTree::Ident(n), TokenTree::Punct(c), TokenTree::Ident(k)] if d.as_char() == '$' && c.as_char() == ':' => params.push((n.to_string(), k == "expr")),
            _ => return None,
        }
    }
    Some(Rule { params, body: b.stream() })
}

/// Split at top-level commas (outside angle brackets); a trailing comma adds nothing.
fn split(ts: &TokenStream) -> Vec<Vec<TokenTree>> {
    let mut out = vec![]; let mut cur = vec![]; let mut d = 0i32;
    for t in ts.clone() {
        if let TokenTree::Punct(p) = &t {
            match p.as_char() {
                ',' if d == 0 => { out.push(std::mem::take(&mut cur)); continue; }
                '<' => d += 1, '>' => d -= 1, _ => {}
            }
        }
        cur.push(t);
    }
    if !cur.is_empty() { out.push(cur); }
    out
}

fn fill(ts: TokenStream, a: &HashMap<String, Vec<TokenTree>>) -> Option<TokenStream> {
    let mut out: Vec<TokenTree> = vec![];
    let mut it = ts.into_iter().peekable();
    while let Some(t) = it.next() {
        match t {
            TokenTree::Punct(ref p) if p.as_char() == '$' => match it.next() {
                Some(TokenTree::Ident(i)) => out.extend(a.get(&i.to_string())?.iter().cloned()),
                _ => return None,
            },
            TokenTree::Group(g) => {
                let mut n = Group::new(g.delimiter(), fill(g.stream(), a)?);
                n.set_span(g.span());
                out.push(TokenTree::Group(n));
            }
            t => out.push(t),
        }
    }
    Some(out.into_iter().collect())
}

fn expand(rules: &HashMap<String, Rule>, mac: &syn::Macro) -> Option<TokenStream> {
    let r = rules.get(&mac.path.get_ident()?.to_string())?;
    let args = split(&mac.tokens);
    if args.len() != r.params.len() { return None; }
    // an expression stays one wherever it is put
    let group = |e: bool, a: Vec<TokenTree>| if e && a.len() > 1 { vec![TokenTree::Group(Group::new(Delimiter::Parenthesis, a.into_iter().collect()))] } else { a };
    fill(r.body.clone(), &r.params.iter().cloned().zip(args).map(|((n, e), a)| (n, group(e, a))).collect())
}

/// Macros a block defines for itself.
struct Locals;
impl VisitMut for Locals {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let mut rules: HashMap<String, Rule> = HashMap::new();
        for s in &b.stmts {
            if let syn::Stmt::Item(syn::Item::Macro(m)) = s {
                if let (Some(i), true) = (&m.ident, m.mac.path.is_ident("macro_rules")) {
                    if let Some(r) = rule(&m.mac.tokens) { rules.insert(i.to_string(), r); }
                }
            }
        }
        if !rules.is_empty() {
            b.stmts.retain(|s| !matches!(s, syn::Stmt::Item(syn::Item::Macro(m)) if m.ident.as_ref().is_some_and(|i| rules.contains_key(&i.to_string()))));
            Uses(&rules).visit_block_mut(b);
        }
        visit_mut::visit_block_mut(self, b);
    }
}
struct Uses<'a>(&'a HashMap<String, Rule>);
impl VisitMut for Uses<'_> {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        if let syn::Expr::Macro(m) = e {
            if let Some(x) = expand(self.0, &m.mac).and_then(|t| syn::parse2::<syn::Expr>(t).ok()) { *e = x; }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// `Iterator::zip(a, b)` is `a.zip(b)`.
struct Plain;
impl VisitMut for Plain {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let syn::Expr::Call(c) = e {
            if c.args.len() == 2 && quote::ToTokens::to_token_stream(&c.func).to_string().replace(' ', "") == "Iterator::zip" {
                let (a, b) = (&c.args[0], &c.args[1]);
                *e = syn::parse_quote!(#a.zip(#b));
            }
        }
    }
}

pub fn parse_source(src: &str) -> syn::Result<syn::File> {
    let mut file = syn::parse_file(src)?;
    let mut rules: HashMap<String, Rule> = HashMap::new();
    for it in &file.items {
        if let syn::Item::Macro(m) = it {
            if let (Some(i), true) = (&m.ident, m.mac.path.is_ident("macro_rules")) {
                if let Some(r) = rule(&m.mac.tokens) { rules.insert(i.to_string(), r); }
            }
        }
    }
    let mut items = vec![];
    for it in std::mem::take(&mut file.items) {
        match it {
            syn::Item::Macro(ref m) if m.ident.is_none() => match expand(&rules, &m.mac).and_then(|t| syn::parse2::<syn::File>(t).ok()) {
                Some(f) => items.extend(f.items),
                None => items.push(it),
            },
            syn::Item::Impl(mut im) => {
                let mut ii = vec![];
                for x in std::mem::take(&mut im.items) {
                    match x {
                        syn::ImplItem::Macro(ref m) => match expand(&rules, &m.mac).and_then(|t| syn::parse2::<syn::ItemImpl>(quote::quote! { impl X { #t } }).ok()) {
                            Some(f) => ii.extend(f.items),
                            None => ii.push(x),
                        },
                        x => ii.push(x),
                    }
                }
                im.items = ii;
                items.push(syn::Item::Impl(im));
            }
            it => items.push(it),
        }
    }
    file.items = items;
    Locals.visit_file_mut(&mut file);
    Plain.visit_file_mut(&mut file);
    Ok(file)
}
