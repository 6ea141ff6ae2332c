//! vx: mechanical extraction of the functions under contract from /repo's current source.
//!
//! usage: vx <src-dir> <request.json>     (result: JSON on stdout)
//!        vx --wrappers <expanded.rs>     public functions of every module named *_precision, after macro expansion
mod index;
mod inline;
mod lower;

use serde_json::{json, Value};
use std::io::Write;
use std::process::{Command, Stdio};

fn rustfmt(text: &str) -> String {
    let child = Command::new("rustfmt")
        .args(["--edition", "2021", "--config", "max_width=110"])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn();
    let Ok(mut child) = child else { return text.to_string() };
    let mut stdin = child.stdin.take().unwrap();
    let owned = text.to_string();
    let writer = std::thread::spawn(move || {
        let _ = stdin.write_all(owned.as_bytes());
    });
    let out = child.wait_with_output();
    let _ = writer.join();
    match out {
        Ok(o) if o.status.success() => String::from_utf8_lossy(&o.stdout).to_string(),
        _ => text.to_string(),
    }
}

/// `super::super::graham_scan::<f32, u8>` -> `graham_scan::<f32, u8>`
struct DropModules;
impl syn::visit_mut::VisitMut for DropModules {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        let n = p.segments.len();
        let lower = |s: &syn::PathSegment| s.ident.to_string().chars().next().is_some_and(|c| c.is_lowercase());
        if n > 1 && p.segments.iter().take(n - 1).all(|s| lower(s) && s.arguments.is_none()) {
            p.leading_colon = None;
            p.segments = p.segments.iter().skip(n - 1).cloned().collect();
            // a function of an enclosing module: the generic one
            if lower(&p.segments[0]) {
                let s = &mut p.segments[0].ident;
                *s = syn::Ident::new(&format!("generic_{s}"), s.span());
            }
        }
        syn::visit_mut::visit_path_mut(self, p);
    }
}

fn wrappers(items: &[syn::Item], path: &mut Vec<String>, out: &mut Vec<Value>) {
    use quote::ToTokens;
    use syn::visit_mut::VisitMut;
    for i in items {
        match i {
            syn::Item::Mod(m) => {
                if let Some((_, c)) = &m.content {
                    path.push(m.ident.to_string());
                    wrappers(c, path, out);
                    path.pop();
                }
            }
            syn::Item::Fn(f) if path.last().is_some_and(|m| m.ends_with("_precision")) => {
                let mut f = f.clone();
                f.attrs.clear();
                DropModules.visit_item_fn_mut(&mut f);
                let params: Vec<Value> = f
                    .sig
                    .inputs
                    .iter()
                    .map(|a| match a {
                        syn::FnArg::Typed(t) => json!([t.pat.to_token_stream().to_string(), t.ty.to_token_stream().to_string()]),
                        _ => json!(["self", "Self"]),
                    })
                    .collect();
                let ret = match &f.sig.output {
                    syn::ReturnType::Type(_, t) => t.to_token_stream().to_string(),
                    _ => "()".into(),
                };
                out.push(json!({"module": path.join("::"), "name": f.sig.ident.to_string(), "params": params, "ret": ret, "body": f.block.to_token_stream().to_string(),
                    "public": matches!(f.vis, syn::Visibility::Public(_)), "generic": !f.sig.generics.params.is_empty()}));
            }
            _ => {}
        }
    }
}

fn main() {
    if std::env::args().nth(1).as_deref() == Some("--wrappers") {
        let text = std::fs::read_to_string(std::env::args().nth(2).expect("file")).expect("file");
        match syn::parse_file(&text) {
            Ok(f) => {
                let mut out = vec![];
                wrappers(&f.items, &mut vec![], &mut out);
                println!("{}", Value::from(out));
            }
            Err(e) => println!("{}", json!({"fatal": e.to_string()})),
        }
        return;
    }
    let args: Vec<String> = std::env::args().collect();
    let req: Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).expect("request")).expect("request json");
    let index = match index::Index::load(std::path::Path::new(&args[1])) {
        Ok(i) => i,
        Err(e) => {
            println!("{}", json!({"fatal": e}));
            return;
        }
    };
    let known: Vec<String> = req["known"]
        .as_array()
        .map(|a| a.iter().filter_map(|v| v.as_str().map(String::from)).collect())
        .unwrap_or_default();
    let mut fns = serde_json::Map::new();
    for f in req["fns"].as_array().into_iter().flatten() {
        let key = f["key"].as_str().unwrap().to_string();
        fns.insert(key, lower::extract(&index, f, &known, rustfmt));
    }
    let mut types = serde_json::Map::new();
    for t in req["types"].as_array().into_iter().flatten() {
        let name = t.as_str().unwrap();
        types.insert(
            name.to_string(),
            match index.type_text(name) {
                Some((text, derives)) => json!({"ok": true, "text": rustfmt(&text), "derives": derives}),
                None => json!({"ok": false, "error": format!("type {name} not found")}),
            },
        );
    }
    println!("{}", json!({"fns": fns, "types": types, "files": index.files}));
}
