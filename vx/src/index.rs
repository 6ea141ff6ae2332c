//! Finds every function, method and type of the crate (test modules left out).
use quote::ToTokens;
use std::path::Path;
use syn::{Attribute, Item, ItemImpl, Signature, Type};

#[derive(Clone)]
pub struct FnEntry {
    pub file: String,
    pub module: String,
    /// head identifier of the self type of the impl, if any
    pub self_ty: Option<String>,
    /// full token text of the self type without spaces
    pub self_full: String,
    /// identifier of the implemented trait, if any
    pub trait_: Option<String>,
    pub sig: Signature,
    pub block: syn::Block,
}

pub struct Index {
    pub fns: Vec<FnEntry>,
    pub types: Vec<(String, Item)>,
    pub files: Vec<String>,
    pub consts: Vec<(String, syn::Expr)>,
}

pub fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        let t = a.to_token_stream().to_string().replace(' ', "");
        t.contains("cfg(test)") || t == "#[test]"
    })
}

/// the features of the build under consideration: VX_FEATURES, or the default ones
fn features() -> Vec<String> {
    std::env::var("VX_FEATURES").unwrap_or("std,pregenerated".into()).split(',').map(|s| s.to_string()).collect()
}

/// value of a cfg predicate, None when it depends on something else than features and test
fn cfg_value(m: &syn::Meta, on: &[String]) -> Option<bool> {
    let list = |l: &syn::MetaList| -> Vec<Option<bool>> {
        l.parse_args_with(syn::punctuated::Punctuated::<syn::Meta, syn::Token![,]>::parse_terminated)
            .map(|p| p.iter().map(|m| cfg_value(m, on)).collect())
            .unwrap_or(vec![None])
    };
    match m {
        syn::Meta::Path(p) if p.is_ident("test") => Some(false),
        syn::Meta::NameValue(nv) if nv.path.is_ident("feature") => {
            let t = nv.value.to_token_stream().to_string();
            Some(on.iter().any(|f| t == format!("\"{f}\"")))
        }
        syn::Meta::List(l) if l.path.is_ident("not") => list(l).first().copied().flatten().map(|b| !b),
        syn::Meta::List(l) if l.path.is_ident("all") => {
            let v = list(l);
            if v.contains(&Some(false)) { Some(false) } else if v.contains(&None) { None } else { Some(true) }
        }
        syn::Meta::List(l) if l.path.is_ident("any") => {
            let v = list(l);
            if v.contains(&Some(true)) { Some(true) } else if v.contains(&None) { None } else { Some(false) }
        }
        _ => None,
    }
}

/// leaves out what the build leaves out: items, statements, fields, arms under a cfg that is off; cfg!(..) becomes a literal
struct Strip(Vec<String>);
impl Strip {
    /// whether the thing with these attributes is in the build; decided cfg attributes are removed
    fn keep(&self, attrs: &mut Vec<Attribute>) -> bool {
        let mut on = true;
        attrs.retain(|a| {
            if !a.path().is_ident("cfg") {
                return true;
            }
            let v = match &a.meta {
                syn::Meta::List(l) => l.parse_args::<syn::Meta>().ok().and_then(|m| cfg_value(&m, &self.0)),
                _ => None,
            };
            on &= v != Some(false);
            v.is_none()
        });
        on
    }
    fn keep_item(&self, i: &mut Item) -> bool {
        match i {
            Item::Const(x) => self.keep(&mut x.attrs),
            Item::Enum(x) => self.keep(&mut x.attrs),
            Item::Fn(x) => self.keep(&mut x.attrs),
            Item::Impl(x) => self.keep(&mut x.attrs),
            Item::Macro(x) => self.keep(&mut x.attrs),
            Item::Mod(x) => self.keep(&mut x.attrs),
            Item::Static(x) => self.keep(&mut x.attrs),
            Item::Struct(x) => self.keep(&mut x.attrs),
            Item::Trait(x) => self.keep(&mut x.attrs),
            Item::Type(x) => self.keep(&mut x.attrs),
            Item::Use(x) => self.keep(&mut x.attrs),
            _ => true,
        }
    }
    fn keep_expr(&self, e: &mut syn::Expr) -> bool {
        use syn::Expr::*;
        match e {
            Assign(x) => self.keep(&mut x.attrs),
            Binary(x) => self.keep(&mut x.attrs),
            Block(x) => self.keep(&mut x.attrs),
            Call(x) => self.keep(&mut x.attrs),
            ForLoop(x) => self.keep(&mut x.attrs),
            If(x) => self.keep(&mut x.attrs),
            Loop(x) => self.keep(&mut x.attrs),
            Match(x) => self.keep(&mut x.attrs),
            MethodCall(x) => self.keep(&mut x.attrs),
            Return(x) => self.keep(&mut x.attrs),
            While(x) => self.keep(&mut x.attrs),
            Lit(x) => self.keep(&mut x.attrs),
            Path(x) => self.keep(&mut x.attrs),
            Unary(x) => self.keep(&mut x.attrs),
            Macro(x) => self.keep(&mut x.attrs),
            Paren(x) => self.keep(&mut x.attrs),
            Tuple(x) => self.keep(&mut x.attrs),
            Struct(x) => self.keep(&mut x.attrs),
            Field(x) => self.keep(&mut x.attrs),
            Index(x) => self.keep(&mut x.attrs),
            Reference(x) => self.keep(&mut x.attrs),
            _ => true,
        }
    }
    fn fields(&self, f: &mut syn::Fields) {
        match f {
            syn::Fields::Named(n) => n.named = std::mem::take(&mut n.named).into_iter().filter_map(|mut x| self.keep(&mut x.attrs).then_some(x)).collect(),
            syn::Fields::Unnamed(n) => n.unnamed = std::mem::take(&mut n.unnamed).into_iter().filter_map(|mut x| self.keep(&mut x.attrs).then_some(x)).collect(),
            _ => {}
        }
    }
}
impl syn::visit_mut::VisitMut for Strip {
    fn visit_file_mut(&mut self, f: &mut syn::File) {
        f.items.retain_mut(|i| self.keep_item(i));
        syn::visit_mut::visit_file_mut(self, f);
    }
    fn visit_item_mod_mut(&mut self, m: &mut syn::ItemMod) {
        if let Some((_, items)) = &mut m.content {
            items.retain_mut(|i| self.keep_item(i));
        }
        syn::visit_mut::visit_item_mod_mut(self, m);
    }
    fn visit_item_impl_mut(&mut self, m: &mut ItemImpl) {
        m.items.retain_mut(|i| match i {
            syn::ImplItem::Fn(f) => self.keep(&mut f.attrs),
            syn::ImplItem::Const(f) => self.keep(&mut f.attrs),
            syn::ImplItem::Type(f) => self.keep(&mut f.attrs),
            _ => true,
        });
        syn::visit_mut::visit_item_impl_mut(self, m);
    }
    fn visit_item_trait_mut(&mut self, m: &mut syn::ItemTrait) {
        m.items.retain_mut(|i| match i {
            syn::TraitItem::Fn(f) => self.keep(&mut f.attrs),
            syn::TraitItem::Const(f) => self.keep(&mut f.attrs),
            syn::TraitItem::Type(f) => self.keep(&mut f.attrs),
            _ => true,
        });
        syn::visit_mut::visit_item_trait_mut(self, m);
    }
    fn visit_item_struct_mut(&mut self, m: &mut syn::ItemStruct) {
        self.fields(&mut m.fields);
        syn::visit_mut::visit_item_struct_mut(self, m);
    }
    fn visit_item_enum_mut(&mut self, m: &mut syn::ItemEnum) {
        m.variants = std::mem::take(&mut m.variants).into_iter().filter_map(|mut v| self.keep(&mut v.attrs).then_some(v)).collect();
        m.variants.iter_mut().for_each(|v| self.fields(&mut v.fields));
        syn::visit_mut::visit_item_enum_mut(self, m);
    }
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        b.stmts.retain_mut(|s| match s {
            syn::Stmt::Local(l) => self.keep(&mut l.attrs),
            syn::Stmt::Item(i) => self.keep_item(i),
            syn::Stmt::Expr(e, _) => self.keep_expr(e),
            syn::Stmt::Macro(m) => self.keep(&mut m.attrs),
        });
        syn::visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_match_mut(&mut self, m: &mut syn::ExprMatch) {
        m.arms.retain_mut(|a| self.keep(&mut a.attrs));
        syn::visit_mut::visit_expr_match_mut(self, m);
    }
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        if let syn::Expr::Macro(m) = e {
            if m.mac.path.is_ident("cfg") {
                if let Some(v) = m.mac.parse_body::<syn::Meta>().ok().and_then(|m| cfg_value(&m, &self.0)) {
                    *e = if v { syn::parse_quote!(true) } else { syn::parse_quote!(false) };
                    return;
                }
            }
        }
        syn::visit_mut::visit_expr_mut(self, e);
    }
}

pub fn type_head(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        Type::Reference(r) => type_head(&r.elem),
        _ => t.to_token_stream().to_string(),
    }
}

impl Index {
    pub fn load(root: &Path) -> Result<Index, String> {
        let mut ix = Index { fns: vec![], types: vec![], files: vec![], consts: vec![] };
        ix.walk(root, root)?;
        Ok(ix)
    }
    fn walk(&mut self, root: &Path, dir: &Path) -> Result<(), String> {
        let mut entries: Vec<_> = std::fs::read_dir(dir)
            .map_err(|e| format!("{}: {e}", dir.display()))?
            .filter_map(|e| e.ok().map(|e| e.path()))
            .collect();
        entries.sort();
        for p in entries {
            if p.is_dir() {
                self.walk(root, &p)?;
            } else if p.extension().is_some_and(|e| e == "rs") {
                let rel = p.strip_prefix(root).unwrap().to_string_lossy().to_string();
                let text = std::fs::read_to_string(&p).map_err(|e| e.to_string())?;
                match syn::parse_file(&text) {
                    Ok(mut f) => {
                        syn::visit_mut::VisitMut::visit_file_mut(&mut Strip(features()), &mut f);
                        self.files.push(rel.clone());
                        self.items(&rel, "", &f.items);
                    }
                    Err(e) => return Err(format!("{rel}: does not parse: {e}")),
                }
            }
        }
        Ok(())
    }
    fn items(&mut self, file: &str, module: &str, items: &[Item]) {
        for it in items {
            match it {
                Item::Fn(f) if !is_test(&f.attrs) => self.fns.push(FnEntry {
                    file: file.into(),
                    module: module.into(),
                    self_ty: None,
                    self_full: String::new(),
                    trait_: None,
                    sig: f.sig.clone(),
                    block: (*f.block).clone(),
                }),
                Item::Mod(m) if !is_test(&m.attrs) => {
                    if let Some((_, items)) = &m.content {
                        self.items(file, &format!("{module}::{}", m.ident), items);
                    }
                }
                Item::Impl(i) if !is_test(&i.attrs) => self.item_impl(file, module, i),
                Item::Trait(t) if !is_test(&t.attrs) => {
                    for ti in &t.items {
                        if let syn::TraitItem::Fn(f) = ti {
                            if let Some(b) = &f.default {
                                self.fns.push(FnEntry {
                                    file: file.into(),
                                    module: module.into(),
                                    self_ty: Some(t.ident.to_string()),
                                    self_full: t.ident.to_string(),
                                    trait_: Some(t.ident.to_string()),
                                    sig: f.sig.clone(),
                                    block: b.clone(),
                                });
                            }
                        }
                    }
                }
                Item::Struct(s) if !is_test(&s.attrs) => self.types.push((s.ident.to_string(), it.clone())),
                Item::Enum(s) if !is_test(&s.attrs) => self.types.push((s.ident.to_string(), it.clone())),
                Item::Const(c) if !is_test(&c.attrs) => {
                    self.consts.push((c.ident.to_string(), (*c.expr).clone()))
                }
                _ => {}
            }
        }
    }
    fn item_impl(&mut self, file: &str, module: &str, i: &ItemImpl) {
        let head = type_head(&i.self_ty);
        let full = i.self_ty.to_token_stream().to_string().replace(' ', "");
        let tr = i.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
        for ii in &i.items {
            if let syn::ImplItem::Fn(f) = ii {
                self.fns.push(FnEntry {
                    file: file.into(),
                    module: module.into(),
                    self_ty: Some(head.clone()),
                    self_full: full.clone(),
                    trait_: tr.clone(),
                    sig: f.sig.clone(),
                    block: f.block.clone(),
                });
            }
        }
    }
    /// free functions of that name outside pregenerated modules
    pub fn free(&self, name: &str) -> Vec<&FnEntry> {
        self.fns.iter().filter(|f| f.self_ty.is_none() && f.sig.ident == name).collect()
    }
    pub fn methods(&self, ty: &str, name: &str) -> Vec<&FnEntry> {
        self.fns
            .iter()
            .filter(|f| f.self_ty.as_deref() == Some(ty) && f.sig.ident == name)
            .collect()
    }
    pub fn type_text(&self, name: &str) -> Option<(String, Vec<String>)> {
        let mut found = self.types.iter().filter(|(n, _)| n == name);
        let (_, item) = found.next()?;
        if found.next().is_some() {
            return None;
        }
        let mut derives = vec![];
        let mut grab = |attrs: &[Attribute]| {
            for a in attrs {
                if a.path().is_ident("derive") {
                    derives.push(a.to_token_stream().to_string());
                }
            }
        };
        let text = match item {
            Item::Struct(s) => {
                grab(&s.attrs);
                let mut s = s.clone();
                s.attrs.clear();
                s.vis = syn::parse_quote!(pub);
                s.generics.where_clause = None;
                strip_bounds(&mut s.generics);
                for f in s.fields.iter_mut() {
                    f.attrs.clear();
                    f.vis = syn::parse_quote!(pub);
                }
                s.to_token_stream().to_string()
            }
            Item::Enum(s) => {
                grab(&s.attrs);
                let mut s = s.clone();
                s.attrs.clear();
                s.vis = syn::parse_quote!(pub);
                s.generics.where_clause = None;
                strip_bounds(&mut s.generics);
                for v in s.variants.iter_mut() {
                    v.attrs.clear();
                    for f in v.fields.iter_mut() {
                        f.attrs.clear();
                    }
                }
                s.to_token_stream().to_string()
            }
            _ => return None,
        };
        Some((text, derives))
    }
}

fn strip_bounds(g: &mut syn::Generics) {
    for p in g.params.iter_mut() {
        if let syn::GenericParam::Type(t) = p {
            t.bounds.clear();
            t.colon_token = None;
        }
    }
}
