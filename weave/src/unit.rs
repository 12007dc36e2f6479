use crate::desugar::{self, Rewrite};
use quote::ToTokens;
use std::collections::BTreeMap;

#[derive(Default, Clone)]
pub struct FnSpec {
    pub source: String,
    pub path: String,
    pub sig: String,
    pub attr: String,
    pub loops: BTreeMap<usize, String>,
    pub proofs: Vec<(String, String)>,
    pub rewrites: Vec<(String, String)>,
    pub drops: Vec<String>,
    pub substs: Vec<(String, String)>,
    pub ptype: Option<String>,
    pub arm: Option<String>,
    pub let_types: Vec<(String, String)>,
    pub opts: Vec<String>,
    /// contracts of closure literals, in source order: parameter types, and the text between `|..|` and the body
    pub closures: BTreeMap<usize, (String, String)>,
}

#[derive(Default, Clone)]
pub struct Unit {
    pub name: String,
    pub each: Vec<(String, Vec<String>)>,
    pub parts: Vec<Part>,
}

#[derive(Clone)]
pub enum Part { Text(String), Fn(Box<FnSpec>), Item { source: String, name: String, attr: String, substs: Vec<(String, String)>, drops: Vec<String> } }

pub fn parse(text: &str, dir: &str) -> Result<Vec<Unit>, String> {
    let mut units: Vec<Unit> = vec![];
    let mut sections: Vec<(String, String, String)> = vec![]; // directive, arg, body
    // shared directives, from a file beside the unit file
    let mut lines: Vec<String> = vec![];
    for line in text.lines() {
        match line.strip_prefix("@splice ") {
            Some(f) => lines.extend(std::fs::read_to_string(format!("{dir}/{}", f.trim())).map_err(|e| format!("@splice {f}: {e}"))?.lines().map(String::from)),
            None => lines.push(line.to_string()),
        }
    }
    for line in lines.iter().map(|l| l.as_str()) {
        if let Some(rest) = line.strip_prefix('@') {
            let (d, a) = rest.split_once(char::is_whitespace).unwrap_or((rest, ""));
            sections.push((d.to_string(), a.trim().to_string(), String::new()));
        } else if let Some(s) = sections.last_mut() {
            s.2.push_str(line);
            s.2.push('\n');
        }
    }
    let mut cur_source = String::new();
    for (d, a, b) in sections {
        if d == "unit" { units.push(Unit { name: a, ..Default::default() }); continue; }
        let u = units.last_mut().ok_or("directive before @unit")?;
        fn cur(u: &mut Unit) -> Result<&mut FnSpec, String> {
            match u.parts.last_mut() { Some(Part::Fn(f)) => Ok(f), _ => Err("function directive outside @fn".into()) }
        }
        match d.as_str() {
            "each" => {
                let (v, l) = a.split_once(" in ").ok_or("@each VAR in ...")?;
                u.each.push((v.trim().into(), l.split_whitespace().map(String::from).collect()));
            }
            "source" => cur_source = a,
            "item" => u.parts.push(Part::Item { source: cur_source.clone(), name: a, attr: b, substs: vec![], drops: vec![] }),
            // the variants of an enum in declaration order, as a spec function variants_NAME
            "variants" => u.parts.push(Part::Item { source: cur_source.clone(), name: format!("variants {a}"), attr: b, substs: vec![], drops: vec![] }),
            "text" => u.parts.push(Part::Text(b)),
            // shared contracts, from a file beside the unit file
            "include" => u.parts.push(Part::Text(std::fs::read_to_string(format!("{dir}/{a}")).map_err(|e| format!("@include {a}: {e}"))? + "\n" + &b)),
            "fn" => u.parts.push(Part::Fn(Box::new(FnSpec { source: cur_source.clone(), path: a, ..Default::default() }))),
            "sig" => cur(u)?.sig = format!("{a}\n{b}"),
            "attr" => cur(u)?.attr = format!("{a}\n{b}"),
            "loop" => { let n = a.parse().map_err(|_| "loop number")?; cur(u)?.loops.insert(n, b); }
            "closure" => {
                let (n, t) = a.split_once(char::is_whitespace).unwrap_or((&a, ""));
                let n = n.parse().map_err(|_| "closure number")?;
                cur(u)?.closures.insert(n, (t.trim().to_string(), b));
            }
            "proof" => cur(u)?.proofs.push((a, b)),
            "rewrite" => {
                let t = if b.trim().is_empty() { a } else { format!("{a}{b}") };
                let (p, r) = t.split_once("=>>").ok_or("@rewrite pat =>> repl")?;
                cur(u)?.rewrites.push((p.trim().into(), r.trim().into()));
            }
            "drop" => { if let Some(Part::Item { drops, .. }) = u.parts.last_mut() { drops.push(a) } else { cur(u)?.drops.push(a) } }
            "subst" => { let (p, r) = a.split_once("=>").ok_or("@subst a => b")?; if let Some(Part::Item { substs, .. }) = u.parts.last_mut() { substs.push((p.trim().into(), r.trim().into())); continue; } cur(u)?.substs.push((p.trim().into(), r.trim().into())); }
            "ptype" => cur(u)?.ptype = Some(a),
            "arm" => cur(u)?.arm = Some(a),
            "let" => { let (p, r) = a.split_once(':').ok_or("@let x: T")?; cur(u)?.let_types.push((p.trim().into(), r.trim().into())); }
            "opt" => cur(u)?.opts.push(a),
            "note" => {}
            _ => return Err(format!("unknown directive @{d}")),
        }
    }
    Ok(units)
}

fn inst_sub(s: &str, inst: &[(String, String)]) -> String {
    let mut s = s.to_string();
    // longest variable first
    let mut v: Vec<_> = inst.to_vec();
    v.sort_by_key(|(k, _)| std::cmp::Reverse(k.len()));
    for (k, r) in v { s = s.replace(&k, &r); }
    s
}

impl Unit {
    pub fn instances(&self) -> Vec<Vec<(String, String)>> {
        if self.each.is_empty() { return vec![vec![]]; }
        let n = self.each[0].1.len();
        (0..n).map(|i| self.each.iter().map(|(k, l)| (k.clone(), l[i].clone())).collect()).collect()
    }

    pub fn emit(&self, repo: &str, inst: &[(String, String)]) -> Result<(String, Vec<serde_json::Value>, String), String> {
        let mut out = String::new();
        let mut vac = String::new();
        let mut fns = vec![];
        for p in &self.parts {
            match p {
                Part::Text(t) => { let t = inst_sub(t, inst); out.push_str(&t); vac.push_str(&t); }
                Part::Item { source, name, attr, substs, drops } => {
                    let t = emit_item(repo, source, name, attr, substs, drops)?;
                    out.push_str(&t); vac.push_str(&t);
                }
                Part::Fn(f) => {
                    let mut f = (**f).clone();
                    f.path = inst_sub(&f.path, inst);
                    f.sig = inst_sub(&f.sig, inst);
                    f.attr = inst_sub(&f.attr, inst);
                    for l in f.loops.values_mut() { *l = inst_sub(l, inst); }
                    for l in f.closures.values_mut() { l.0 = inst_sub(&l.0, inst); l.1 = inst_sub(&l.1, inst); }
                    for l in f.proofs.iter_mut() { l.1 = inst_sub(&l.1, inst); }
                    for l in f.rewrites.iter_mut() { l.0 = inst_sub(&l.0, inst); l.1 = inst_sub(&l.1, inst); }
                    for l in f.substs.iter_mut() { l.1 = inst_sub(&l.1, inst); }
                    for l in f.let_types.iter_mut() { l.1 = inst_sub(&l.1, inst); }
                    f.ptype = f.ptype.map(|p| inst_sub(&p, inst));
                    let (txt, rep, v) = emit_fn(repo, &f).map_err(|e| format!("{}: {}: {e}", f.source, f.path))?;
                    out.push_str(&txt);
                    vac.push_str(&v);
                    fns.push(rep);
                }
            }
        }
        Ok((out, fns, vac))
    }
}

/// A struct, enum or constant of the source, without its attributes.
fn emit_item(repo: &str, source: &str, name: &str, attr: &str, substs: &[(String, String)], drops: &[String]) -> Result<String, String> {
    let src = std::fs::read_to_string(format!("{repo}/{source}")).map_err(|e| format!("lost anchor: {e}"))?;
    let file = crate::macros::parse_source(&src).map_err(|e| format!("parse: {e}"))?;
    if let Some(n) = name.strip_prefix("variants ") {
        for it in &file.items {
            if let syn::Item::Enum(e) = it {
                if e.ident == n {
                    if e.variants.iter().any(|v| !matches!(v.fields, syn::Fields::Unit)) { return Err("@variants of an enum with fields".into()); }
                    let vs: Vec<String> = e.variants.iter().map(|v| format!("{n}::{}", v.ident)).collect();
                    return Ok(format!("pub open spec fn variants_{n}() -> Seq<{n}> {{ seq![{}] }}\n", vs.join(", ")));
                }
            }
        }
        return Err(format!("lost anchor: enum {n} not found"));
    }
    // the rank of each variant in the derived order
    if let Some(n) = name.strip_prefix("order ") {
        for it in &file.items {
            if let syn::Item::Enum(e) = it {
                if e.ident == n {
                    let d = norm(&e.attrs.iter().map(|a| a.to_token_stream().to_string()).collect::<Vec<_>>().join(" "));
                    if !d.contains("PartialOrd") || !d.contains("PartialEq") { return Err(format!("lost anchor: {n} has no derived order")); }
                    let vs: Vec<String> = e.variants.iter().enumerate().map(|(i, v)| format!("{n}::{} {{ .. }} => {i}", v.ident)).collect();
                    return Ok(format!("pub open spec fn order_{n}(x: {n}) -> int {{ match x {{ {} }} }}\n", vs.join(", ")));
                }
            }
        }
        return Err(format!("lost anchor: enum {n} not found"));
    }
    for it in file.items {
        let it = match it {
            syn::Item::Enum(mut e) if e.ident == name => { e.attrs.clear(); for v in e.variants.iter_mut() { v.attrs.clear(); } e.vis = syn::parse_quote!(pub); syn::Item::Enum(e) }
            syn::Item::Struct(mut e) if e.ident == name => { e.attrs.clear(); for f in e.fields.iter_mut() { f.attrs.clear(); f.vis = syn::parse_quote!(pub); } e.vis = syn::parse_quote!(pub); syn::Item::Struct(e) }
            syn::Item::Const(mut e) if e.ident == name => { e.attrs.clear(); e.vis = syn::parse_quote!(pub); syn::Item::Const(e) }
            _ => continue,
        };
        struct S<'a>(&'a [(String, String)]);
        impl syn::visit_mut::VisitMut for S<'_> {
            fn visit_type_mut(&mut self, t: &mut syn::Type) {
                let s = norm(&t.to_token_stream().to_string());
                if let Some((_, r)) = self.0.iter().find(|(k, _)| norm(k) == s) { if let Ok(n) = syn::parse_str(r) { *t = n; return; } }
                syn::visit_mut::visit_type_mut(self, t);
            }
        }
        let mut it = it;
        if let syn::Item::Struct(e) = &mut it {
            if let syn::Fields::Named(f) = &mut e.fields {
                f.named = std::mem::take(&mut f.named).into_iter().filter(|x| !drops.iter().any(|d| x.ident.as_ref().map_or(false, |i| i == d))).collect();
            }
        }
        syn::visit_mut::VisitMut::visit_item_mut(&mut S(substs), &mut it);
        // lifetimes whose last use a substitution removed
        if let syn::Item::Struct(e) = &mut it {
            let used = e.fields.to_token_stream().to_string();
            e.generics.params = std::mem::take(&mut e.generics.params).into_iter().filter(|g| match g { syn::GenericParam::Lifetime(l) => used.contains(&l.lifetime.to_string()), _ => true }).collect();
        }
        return Ok(format!("{attr}{}", prettyplease::unparse(&syn::File { shebang: None, attrs: vec![], items: vec![it] })));
    }
    Err(format!("lost anchor: no item {name} in {source}"))
}

fn norm(s: &str) -> String { s.chars().filter(|c| !c.is_whitespace()).collect() }

fn cfg_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| { let t = norm(&a.to_token_stream().to_string()); t.contains("cfg(test)") || t.contains("#[test]") })
}

/// Find `name`, or `IMPL::name` where IMPL is the text between `impl` and `{` without generics.
fn find_fn(file: &syn::File, path: &str) -> Option<(syn::Signature, syn::Block, (usize, usize))> {
    let (imp, name) = match path.rsplit_once("::") { Some((i, n)) => (Some(norm(i)), n.to_string()), None => (None, path.to_string()) };
    fn walk(items: &[syn::Item], imp: &Option<String>, name: &str) -> Option<(syn::Signature, syn::Block, (usize, usize))> {
        for it in items {
            match it {
                syn::Item::Fn(f) if imp.is_none() && f.sig.ident == name && !cfg_test(&f.attrs) => {
                    let sp = (f.sig.fn_token.span.start().line, f.block.brace_token.span.close().end().line);
                    return Some((f.sig.clone(), (*f.block).clone(), sp));
                }
                // a function inside a function
                syn::Item::Fn(f) if imp.as_ref().is_some_and(|w| f.sig.ident == w) && !cfg_test(&f.attrs) => {
                    let its: Vec<syn::Item> = f.block.stmts.iter().filter_map(|s| match s { syn::Stmt::Item(i) => Some(i.clone()), _ => None }).collect();
                    if let Some(r) = walk(&its, &None, name) { return Some(r); }
                }
                syn::Item::Impl(im) => {
                    if let Some(want) = imp {
                        let st = norm(&im.self_ty.to_token_stream().to_string());
                        let full = match &im.trait_ { Some((_, p, _)) => format!("{}for{}", norm(&p.to_token_stream().to_string()), st), None => st.clone() };
                        if full == *want {
                            for ii in &im.items {
                                // an associated constant, as a function of no arguments
                                if let syn::ImplItem::Const(c) = ii {
                                    if c.ident == name {
                                        let (t, e) = (&c.ty, &c.expr);
                                        let f: syn::ItemFn = syn::parse_quote!(fn constant() -> #t { #e });
                                        return Some((f.sig, *f.block, (c.const_token.span.start().line, c.semi_token.span.end().line)));
                                    }
                                }
                                if let syn::ImplItem::Fn(f) = ii {
                                    if f.sig.ident == name {
                                        let sp = (f.sig.fn_token.span.start().line, f.block.brace_token.span.close().end().line);
                                        return Some((f.sig.clone(), f.block.clone(), sp));
                                    }
                                }
                            }
                        }
                    }
                }
                syn::Item::Trait(tr) => {
                    if let Some(want) = imp {
                        if norm(&tr.ident.to_string()) == *want {
                            for ii in &tr.items {
                                if let syn::TraitItem::Fn(f) = ii {
                                    if f.sig.ident == name {
                                        if let Some(b) = &f.default {
                                            let sp = (f.sig.fn_token.span.start().line, b.brace_token.span.close().end().line);
                                            return Some((f.sig.clone(), b.clone(), sp));
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
                syn::Item::Mod(m) if !cfg_test(&m.attrs) => {
                    if let Some((_, its)) = &m.content { if let Some(r) = walk(its, imp, name) { return Some(r); } }
                }
                _ => {}
            }
        }
        None
    }
    walk(&file.items, &imp, &name)
}

fn contract_params(sig: &str) -> Result<(String, Vec<String>), String> {
    // sig text up to the first top-level ')' after the name
    let i = sig.find("fn ").ok_or("signature without fn")?;
    let open = {
        // skip generics
        let b: Vec<char> = sig.chars().collect();
        let mut d = 0i32; let mut k = i;
        loop {
            if k >= b.len() { return Err("signature without (".into()); }
            match b[k] { '<' => d += 1, '>' if b[k - 1] != '-' => d -= 1, '(' if d == 0 => break, _ => {} }
            k += 1;
        }
        k
    };
    let b: Vec<char> = sig.chars().collect();
    let name: String = b[i + 3..open].iter().collect::<String>();
    let name = name.split('<').next().unwrap().trim().to_string();
    let mut d = 0i32; let mut k = open; let mut cur = String::new(); let mut ps = vec![];
    loop {
        if k >= b.len() { return Err("unbalanced signature".into()); }
        let c = b[k];
        match c {
            '(' | '[' | '<' | '{' => { d += 1; if d > 1 { cur.push(c); } }
            ')' | ']' | '}' => { d -= 1; if d == 0 { break; } cur.push(c); }
            '>' if k > 0 && b[k - 1] != '-' => { d -= 1; cur.push(c); }
            ',' if d == 1 => { ps.push(std::mem::take(&mut cur)); }
            _ => cur.push(c),
        }
        k += 1;
    }
    if !cur.trim().is_empty() { ps.push(cur); }
    let names = ps.iter().map(|p| {
        let n = p.split(':').next().unwrap_or("").trim();
        let n = n.trim_start_matches("mut ").trim_start_matches("Tracked(").trim_start_matches("Ghost(");
        n.trim_start_matches('&').trim_start_matches("mut ").trim_end_matches(')').trim().to_string()
    }).collect();
    Ok((name, names))
}

fn emit_fn(repo: &str, f: &FnSpec) -> Result<(String, serde_json::Value, String), String> {
    let src = std::fs::read_to_string(format!("{repo}/{}", f.source)).map_err(|e| format!("lost anchor: {e}"))?;
    let file = crate::macros::parse_source(&src).map_err(|e| format!("parse: {e}"))?;
    let (sig, block, lines) = find_fn(&file, &f.path).ok_or("lost anchor: function not found")?;
    let (cname, cparams) = contract_params(&f.sig)?;
    // positional renaming of parameters to the contract's names
    let mut renames: Vec<(String, String)> = vec![];
    let mut real: Vec<String> = vec![];
    let mut mut_params = vec![];
    for inp in &sig.inputs {
        match inp {
            syn::FnArg::Receiver(r) => { if r.reference.is_none() && r.mutability.is_some() { mut_params.push("self".into()); } real.push("self".into()) }
            syn::FnArg::Typed(t) => match &*t.pat {
                syn::Pat::Ident(i) => { if i.mutability.is_some() { mut_params.push(i.ident.to_string()); } real.push(i.ident.to_string()) }
                syn::Pat::Wild(_) => real.push("_".into()),
                _ => return Err("unsupported parameter pattern".into()),
            },
        }
    }
    let ghost = f.opts.iter().filter_map(|o| o.strip_prefix("extra-params ")).flat_map(|s| s.split_whitespace().map(String::from)).collect::<Vec<_>>();
    let cp: Vec<String> = cparams.iter().filter(|p| !ghost.contains(p)).cloned().collect();
    if cp.len() != real.len() { return Err(format!("lost anchor: {} parameters, contract has {}", real.len(), cp.len())); }
    for (r, c) in real.iter().zip(&cp) {
        if r == "self" || r == "_" { if r == "self" && c != "self" { renames.push(("self".into(), c.clone())); } continue; }
        if r != c { renames.push((r.clone(), c.clone())); }
    }
    let rewrites = f.rewrites.iter().map(|(p, r)| Rewrite::new(p, r)).collect::<Result<Vec<_>, _>>()?;
    let mut d = desugar::Desugar::new(f, rewrites);
    let block = d.function(block, &renames)?;
    let block_v = block.clone();
    if std::env::var("WEAVE_DEBUG").is_ok() { eprintln!("{}", quote::ToTokens::to_token_stream(&block)); }
    let nloops = d.loops;
    if nloops != f.loops.len() {
        return Err(format!("lost anchor: {} loops in the source, contract annotates {}", nloops, f.loops.len()));
    }
    // print through prettyplease
    let item: syn::ItemFn = syn::parse_quote! { fn __weave() #block };
    let printed = prettyplease::unparse(&syn::File { shebang: None, attrs: vec![], items: vec![syn::Item::Fn(item)] });
    let open = printed.find('{').unwrap();
    let mut body = printed[open..].trim_end().to_string();
    // mutable parameters
    let mut head = String::new();
    for m in &mut_params {
        let c = real.iter().position(|r| r == m).map(|i| cp[i].clone()).unwrap();
        if c == "self" { continue; }
        head.push_str(&format!("    let mut {c} = {c};\n"));
    }
    body = weave_loops(&body, f)?;
    for (i, (w, t)) in f.proofs.iter().enumerate() {
        let mk = format!("__proof_{i}!();");
        let n = body.matches(&mk).count();
        if n == 0 { return Err(format!("lost anchor: no place for proof `{w}`")); }
        body = body.replace(&mk, t);
    }
    let txt = format!("{}\n{}{{\n{head}{}\n", f.attr, f.sig, &body.trim_start()[1..]);
    // vacuity twin: `false` as the goal at the end of the function (or of its head, when it ends in a
    // tail expression) and at the end of every loop body
    let v = {
        let mut b = block_v;
        let at = match b.stmts.last() { Some(syn::Stmt::Expr(_, None)) => b.stmts.len() - 1, _ => b.stmts.len() };
        b.stmts.insert(at, syn::parse_quote!(__vac!();));
        let item: syn::ItemFn = syn::parse_quote! { fn __weave() #b };
        let printed = prettyplease::unparse(&syn::File { shebang: None, attrs: vec![], items: vec![syn::Item::Fn(item)] });
        let mut body = printed[printed.find('{').unwrap()..].trim_end().to_string();
        body = weave_loops(&body, f)?;
        for (i, (_, t)) in f.proofs.iter().enumerate() { body = body.replace(&format!("__proof_{i}!();"), t); }
        body = body.replace("__vac!();", "assert(false); // VACUITY");
        format!("{}\n{}{{\n{head}{}\n", f.attr, f.sig, &body.trim_start()[1..])
    };
    let rep = serde_json::json!({
        "name": cname, "source": f.source, "path": f.path, "lines": [lines.0, lines.1], "loops": nloops,
        "rewritten": d.applied, "dropped": d.dropped,
    });
    Ok((txt, rep, v))
}

fn weave_loops(body: &str, f: &FnSpec) -> Result<String, String> {
    let mut out = body.to_string();
    for (n, (_, spec)) in &f.closures {
        let mk = format!("__closure_{n}!();");
        let pos = out.find(&mk).ok_or(format!("lost anchor: no closure {n}"))?;
        let brace = out[..pos].rfind('{').unwrap();
        out = format!("{} {}{{{}", out[..brace].trim_end(), spec, &out[pos + mk.len()..]);
    }
    for (n, spec) in &f.loops {
        let mk = format!("__loop_{n}!();");
        let pos = out.find(&mk).ok_or(format!("marker of loop {n}"))?;
        let brace = out[..pos].rfind('{').unwrap();
        let mut s = String::new();
        s.push_str(out[..brace].trim_end());
        s.push('\n');
        s.push_str(spec);
        s.push_str("{\n");
        s.push_str(&out[pos + mk.len()..]);
        out = s;
    }
    Ok(out)
}
