//! weave: extract functions from /repo's current source, desugar them into the subset Verus accepts
//! by declared mechanical rules, and weave the contracts of a unit file around them.
mod macros;
mod desugar;
mod matcher;
mod unit;

use std::fmt::Write as _;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    // weave REPO UNITFILE OUTDIR COMMON
    let (repo, unitf, outdir, common) = (&args[1], &args[2], &args[3], &args[4]);
    let text = std::fs::read_to_string(unitf).unwrap();
    let common = std::fs::read_to_string(common).unwrap();
    let units = match unit::parse(&text, std::path::Path::new(unitf).parent().map(|p| p.to_str().unwrap_or(".")).unwrap_or(".")) {
        Ok(u) => u,
        Err(e) => { println!("{}", serde_json::json!({"error": e, "kind": "unit"})); std::process::exit(2); }
    };
    let mut reports = vec![];
    for u in &units {
        for inst in u.instances() {
            let name = if inst.is_empty() { u.name.clone() } else { format!("{}_{}", u.name, inst.iter().map(|(_, v)| v.replace(|c: char| !c.is_alphanumeric(), "")).collect::<Vec<_>>().join("_")) };
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| u.emit(repo, &inst))).unwrap_or_else(|_| Err("the extractor cannot handle this source".to_string())) {
                Ok((body, fns, vac)) => {
                    let mut o = String::new();
                    let _ = write!(o, "#![allow(unused_imports, unused_variables, unused_mut, unused_assignments, dead_code, unused_parens, non_snake_case, unused_braces)]\nuse vstd::prelude::*;\n#[allow(unused_macros)]\nmacro_rules! __nop {{ () => {{}} }}\nverus! {{\n{common}\n{body}\n}} // verus!\nfn main() {{}}\n");
                    let path = format!("{outdir}/{name}.rs");
                    std::fs::write(&path, &o).unwrap();
                    // vacuity twin: every function contract and loop must not prove false
                    let mut v = String::new();
                    let _ = write!(v, "#![allow(unused_imports, unused_variables, unused_mut, unused_assignments, dead_code, unused_parens, non_snake_case, unused_braces)]\nuse vstd::prelude::*;\nverus! {{\n{common}\n{vac}\n}} // verus!\nfn main() {{}}\n");
                    std::fs::write(format!("{outdir}/{name}_vac.rs"), &v).unwrap();
                    reports.push(serde_json::json!({"unit": name, "file": path, "fns": fns}));
                }
                Err(e) => reports.push(serde_json::json!({"unit": name, "error": e})),
            }
        }
    }
    println!("{}", serde_json::json!({"units": reports}));
}
