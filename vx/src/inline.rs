//! Inlining of crate functions that carry no contract of their own (e.g. a freshly extracted helper),
//! identifier renaming, constants.
use crate::index::{FnEntry, Index};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Block, Expr, FnArg, Ident, Pat, Stmt};

pub struct Rename<'a> {
    pub map: &'a BTreeMap<String, String>,
}
impl VisitMut for Rename<'_> {
    fn visit_pat_ident_mut(&mut self, p: &mut syn::PatIdent) {
        if let Some(n) = self.map.get(&p.ident.to_string()) {
            p.ident = Ident::new(n, p.ident.span());
        }
        visit_mut::visit_pat_ident_mut(self, p);
    }
    fn visit_expr_path_mut(&mut self, p: &mut syn::ExprPath) {
        if p.qself.is_none() && p.path.segments.len() == 1 && p.path.leading_colon.is_none() {
            let s = &mut p.path.segments[0];
            if s.arguments.is_none() {
                if let Some(n) = self.map.get(&s.ident.to_string()) {
                    s.ident = Ident::new(n, s.ident.span());
                }
            }
        }
        visit_mut::visit_expr_path_mut(self, p);
    }
    fn visit_field_value_mut(&mut self, f: &mut syn::FieldValue) {
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        m.tokens = self.tokens(m.tokens.clone());
    }
}
impl Rename<'_> {
    fn tokens(&self, ts: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
        ts.into_iter()
            .map(|t| match t {
                proc_macro2::TokenTree::Ident(i) => match self.map.get(&i.to_string()) {
                    Some(n) => proc_macro2::TokenTree::Ident(Ident::new(n, i.span())),
                    None => proc_macro2::TokenTree::Ident(i),
                },
                proc_macro2::TokenTree::Group(g) => {
                    proc_macro2::TokenTree::Group(proc_macro2::Group::new(g.delimiter(), self.tokens(g.stream())))
                }
                t => t,
            })
            .collect()
    }
}

#[derive(Default)]
pub struct Bound(pub BTreeSet<String>);
impl<'a> Visit<'a> for Bound {
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
        self.0.insert(p.ident.to_string());
        visit::visit_pat_ident(self, p);
    }
}

/// every name bound by a pattern, in order of first declaration
#[derive(Default)]
pub struct BoundOrder(pub Vec<String>);
impl<'a> Visit<'a> for BoundOrder {
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
        let s = p.ident.to_string();
        if !self.0.contains(&s) {
            self.0.push(s);
        }
        visit::visit_pat_ident(self, p);
    }
}

/// every single-segment identifier used as an expression or bound by a pattern
#[derive(Default)]
pub struct Idents(pub BTreeSet<String>);
impl<'a> Visit<'a> for Idents {
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
        self.0.insert(p.ident.to_string());
        visit::visit_pat_ident(self, p);
    }
    fn visit_expr_path(&mut self, p: &'a syn::ExprPath) {
        if let Some(i) = p.path.get_ident() {
            self.0.insert(i.to_string());
        }
        visit::visit_expr_path(self, p);
    }
}

#[derive(Default)]
struct HasReturn {
    ret: bool,
    question: bool,
}
impl<'a> Visit<'a> for HasReturn {
    fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) {
        self.ret = true;
    }
    fn visit_expr_try(&mut self, t: &'a syn::ExprTry) {
        self.question = true;
        visit::visit_expr_try(self, t);
    }
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
}
pub fn returns(e: &Expr) -> (bool, bool) {
    let mut h = HasReturn::default();
    h.visit_expr(e);
    (h.ret, h.question)
}
fn stmt_returns(s: &Stmt) -> bool {
    let mut h = HasReturn::default();
    h.visit_stmt(s);
    h.ret
}
fn block_flags(b: &Block) -> (bool, bool) {
    let mut h = HasReturn::default();
    h.visit_block(b);
    (h.ret, h.question)
}

/// Rewrites a statement list so that `return` disappears (only for forward, loop-free control flow).
/// The result's tail is the value of the block.
fn no_return(stmts: Vec<Stmt>) -> Result<Vec<Stmt>, String> {
    let mut out = vec![];
    let mut it = stmts.into_iter();
    while let Some(s) = it.next() {
        if !stmt_returns(&s) {
            out.push(s);
            continue;
        }
        let rest: Vec<Stmt> = it.collect();
        let is_tail = rest.is_empty();
        match s {
            Stmt::Expr(Expr::Return(r), _) => {
                let e = r.expr.map(|e| *e).unwrap_or_else(|| parse_quote!(()));
                if returns(&e).0 {
                    return Err("nested return".into());
                }
                out.push(Stmt::Expr(e, None));
                return Ok(out);
            }
            Stmt::Expr(e, semi) => {
                let e = push_rest(e, if is_tail && semi.is_none() { None } else { Some(rest) })?;
                out.push(Stmt::Expr(e, None));
                return Ok(out);
            }
            Stmt::Local(l) => {
                let Some(init) = l.init.clone() else { return Err("return in let".into()) };
                if let Some((_, div)) = &init.diverge {
                    let pat = &l.pat;
                    let e = &init.expr;
                    if returns(e).0 {
                        return Err("return in let".into());
                    }
                    let rest = no_return(rest)?;
                    let div: Block = match &**div {
                        Expr::Block(b) => b.block.clone(),
                        e => parse_quote!({ #e }),
                    };
                    let div = no_return(div.stmts)?;
                    out.push(Stmt::Expr(parse_quote!(if let #pat = #e { #(#rest)* } else { #(#div)* }), None));
                    return Ok(out);
                }
                let pat = &l.pat;
                match *init.expr {
                    Expr::Match(mut m) => {
                        if returns(&m.expr).0 {
                            return Err("return in let".into());
                        }
                        for arm in m.arms.iter_mut() {
                            let body = &arm.body;
                            let h = returns(body).0;
                            let stmts: Vec<Stmt> = if h {
                                match &**body {
                                    Expr::Block(b) => no_return(b.block.stmts.clone())?,
                                    e => no_return(vec![Stmt::Expr(e.clone(), None)])?,
                                }
                            } else {
                                let mut v: Vec<Stmt> = vec![parse_quote!(let #pat = #body;)];
                                v.extend(no_return(rest.clone())?);
                                v
                            };
                            arm.body = Box::new(parse_quote!({ #(#stmts)* }));
                            arm.comma = Some(Default::default());
                        }
                        out.push(Stmt::Expr(Expr::Match(m), None));
                        return Ok(out);
                    }
                    Expr::If(i) if !returns(&i.cond).0 => {
                        let e = let_if(pat, i, &rest)?;
                        out.push(Stmt::Expr(e, None));
                        return Ok(out);
                    }
                    _ => return Err("return in let".into()),
                }
            }
            _ => return Err("return in statement".into()),
        }
    }
    Ok(out)
}
fn let_if(pat: &Pat, i: syn::ExprIf, rest: &[Stmt]) -> Result<Expr, String> {
    let branch = |b: &Block| -> Result<Vec<Stmt>, String> {
        if block_flags(b).0 {
            no_return(b.stmts.clone())
        } else {
            let mut v: Vec<Stmt> = vec![parse_quote!(let #pat = #b;)];
            v.extend(no_return(rest.to_vec())?);
            Ok(v)
        }
    };
    let t = branch(&i.then_branch)?;
    let e = match i.else_branch {
        Some((_, e)) => match *e {
            Expr::Block(b) => branch(&b.block)?,
            e => branch(&parse_quote!({ #e }))?,
        },
        None => return Err("return in let".into()),
    };
    let c = &i.cond;
    Ok(parse_quote!(if #c { #(#t)* } else { #(#e)* }))
}

/// expression statement containing `return`; `rest` is what follows it (None: it is the tail value)
fn push_rest(e: Expr, rest: Option<Vec<Stmt>>) -> Result<Expr, String> {
    let cont = |b: Vec<Stmt>| -> Result<Vec<Stmt>, String> {
        // a branch: either ends in return (rest unreachable) or falls through to rest
        let mut b = b;
        match &rest {
            None => no_return(b),
            Some(r) => {
                let ends = matches!(b.last(), Some(Stmt::Expr(Expr::Return(_), _)));
                if !ends {
                    if let Some(Stmt::Expr(_, semi)) = b.last_mut() {
                        if semi.is_none() {
                            *semi = Some(Default::default());
                        }
                    }
                    b.extend(r.clone());
                }
                no_return(b)
            }
        }
    };
    match e {
        Expr::If(i) => {
            if returns(&i.cond).0 {
                return Err("return in condition".into());
            }
            let t = cont(i.then_branch.stmts)?;
            let els = match i.else_branch {
                None => cont(vec![])?,
                Some((_, e)) => match *e {
                    Expr::Block(b) => cont(b.block.stmts)?,
                    e => cont(vec![Stmt::Expr(e, None)])?,
                },
            };
            let c = i.cond;
            Ok(parse_quote!(if #c { #(#t)* } else { #(#els)* }))
        }
        Expr::Match(mut m) => {
            if returns(&m.expr).0 {
                return Err("return in scrutinee".into());
            }
            for arm in m.arms.iter_mut() {
                let stmts = match &*arm.body {
                    Expr::Block(b) => b.block.stmts.clone(),
                    e => vec![Stmt::Expr(e.clone(), None)],
                };
                let stmts = cont(stmts)?;
                arm.body = Box::new(parse_quote!({ #(#stmts)* }));
            }
            Ok(Expr::Match(m))
        }
        Expr::Block(b) => {
            let s = cont(b.block.stmts)?;
            Ok(parse_quote!({ #(#s)* }))
        }
        _ => Err("return in a loop or unsupported position".into()),
    }
}

/// substitution of a by-reference argument: parameter `p` bound to place `place`
struct SubstRef<'a> {
    name: String,
    place: &'a Expr,
    reference: Expr,
}
impl SubstRef<'_> {
    fn is(&self, e: &Expr) -> bool {
        matches!(e, Expr::Path(p) if p.qself.is_none() && p.path.is_ident(&self.name))
    }
}
impl VisitMut for SubstRef<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) && self.is(&u.expr) => {
                *e = self.place.clone();
                return;
            }
            Expr::MethodCall(m) if self.is(&m.receiver) => {
                *m.receiver = self.place.clone();
                for a in m.args.iter_mut() {
                    self.visit_expr_mut(a);
                }
                return;
            }
            Expr::Field(f) if self.is(&f.base) => {
                *f.base = self.place.clone();
                return;
            }
            Expr::Index(f) if self.is(&f.expr) => {
                *f.expr = self.place.clone();
                self.visit_expr_mut(&mut f.index);
                return;
            }
            _ if self.is(e) => {
                *e = self.reference.clone();
                return;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// `Self` inside a method inlined elsewhere
struct SubstSelfTy(String);
impl VisitMut for SubstSelfTy {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        if let Some(s) = p.segments.first_mut() {
            if s.ident == "Self" {
                s.ident = Ident::new(&self.0, s.ident.span());
            }
        }
        visit_mut::visit_path_mut(self, p);
    }
}

struct SubstSelf<'a>(&'a Expr);
impl VisitMut for SubstSelf<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if p.path.is_ident("self") {
                *e = self.0.clone();
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

pub fn is_place(e: &Expr) -> bool {
    match e {
        Expr::Path(p) => p.qself.is_none() && p.path.get_ident().is_some(),
        Expr::Field(f) => is_place(&f.base),
        Expr::Paren(p) => is_place(&p.expr),
        Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => is_place(&u.expr),
        _ => false,
    }
}
fn root(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
        Expr::Field(f) => root(&f.base),
        Expr::Paren(p) => root(&p.expr),
        Expr::Unary(u) => root(&u.expr),
        _ => None,
    }
}

pub struct Inliner<'a> {
    pub index: &'a Index,
    pub known: &'a [String],
    pub self_ty: Option<String>,
    pub current: String,
    pub depth: usize,
    pub counter: usize,
    pub inlined: Vec<String>,
}

impl Inliner<'_> {
    fn known(&self, full: &str) -> bool {
        self.known.iter().any(|k| k == full)
    }
    fn expand(&mut self, f: &FnEntry, recv: Option<Expr>, args: Vec<Expr>) -> Result<Expr, String> {
        if self.depth >= 6 {
            return Err("inlining too deep".into());
        }
        let mut block = f.block.clone();
        let (ret, question) = block_flags(&block);
        if question {
            return Err("`?` in inlined function".into());
        }
        if ret {
            block.stmts = no_return(block.stmts)?;
        }
        // names bound in the helper
        let mut params: Vec<(Pat, bool)> = vec![];
        let mut has_self = false;
        for a in &f.sig.inputs {
            match a {
                FnArg::Receiver(_) => has_self = true,
                FnArg::Typed(t) => params.push(((*t.pat).clone(), matches!(*t.ty, syn::Type::Reference(_)))),
            }
        }
        if has_self != recv.is_some() || params.len() != args.len() {
            return Err("argument count".into());
        }
        let mut bound = Bound::default();
        bound.visit_block(&block);
        let mut roots = BTreeSet::new();
        for a in args.iter().chain(recv.iter()) {
            let mut ids = Idents::default();
            ids.visit_expr(a);
            roots.extend(ids.0);
            if let Some(r) = root(a) {
                roots.insert(r);
            }
        }
        let mut map = BTreeMap::new();
        for b in &bound.0 {
            if roots.contains(b) {
                self.counter += 1;
                map.insert(b.clone(), format!("{b}_h{}", self.counter));
            }
        }
        if let Some(t) = &f.self_ty {
            SubstSelfTy(t.clone()).visit_block_mut(&mut block);
        }
        // do not rename parameters here; they are handled below
        let mut pre: Vec<Stmt> = vec![];
        let mut post: Vec<Stmt> = vec![];
        for (p, _) in &params {
            if let Pat::Ident(i) = p {
                map.remove(&i.ident.to_string());
            }
        }
        Rename { map: &map }.visit_block_mut(&mut block);
        if let Some(r) = &recv {
            SubstSelf(r).visit_block_mut(&mut block);
        }
        for ((pat, _), arg) in params.iter().zip(args.iter()) {
            let Pat::Ident(pi) = pat else { return Err("pattern parameter".into()) };
            let name = pi.ident.to_string();
            // shadowing of the parameter by a local of the helper: fall back to a plain binding
            let shadowed = bound.0.contains(&name);
            match arg {
                Expr::Reference(r) if is_place(&r.expr) && !shadowed && pi.mutability.is_none() => {
                    let tmp = format!("vxparam_{name}");
                    let one: BTreeMap<_, _> = [(name.clone(), tmp.clone())].into();
                    Rename { map: &one }.visit_block_mut(&mut block);
                    let reference = arg.clone();
                    SubstRef { name: tmp, place: &r.expr, reference }.visit_block_mut(&mut block);
                }
                Expr::Path(p) if p.path.is_ident(&name) && pi.mutability.is_none() => {}
                // a `&mut` local passed on as it is
                _ => {
                    self.counter += 1;
                    let tmp = Ident::new(&format!("vxarg{}", self.counter), proc_macro2::Span::call_site());
                    let m = &pi.mutability;
                    let id = &pi.ident;
                    pre.push(parse_quote!(let #tmp = #arg;));
                    post.push(parse_quote!(let #m #id = #tmp;));
                }
            }
        }
        // no argument mentions a parameter name: bind directly
        let pnames: BTreeSet<String> = params
            .iter()
            .filter_map(|(p, _)| if let Pat::Ident(i) = p { Some(i.ident.to_string()) } else { None })
            .collect();
        if roots.is_disjoint(&pnames) && !pre.is_empty() {
            for (a, b) in pre.iter().zip(post.iter_mut()) {
                if let (Stmt::Local(a), Stmt::Local(b)) = (a, b) {
                    b.init = a.init.clone();
                }
            }
            pre.clear();
        }
        let has_lets = !post.is_empty();
        self.inlined.push(f.sig.ident.to_string());
        self.depth += 1;
        self.visit_block_mut(&mut block);
        self.depth -= 1;
        let stmts = &block.stmts;
        if !has_lets && stmts.len() == 1 {
            if let Stmt::Expr(e, None) = &stmts[0] {
                return Ok(parse_quote!((#e)));
            }
        }
        Ok(parse_quote!({ #(#pre)* #(#post)* #(#stmts)* }))
    }
}

impl VisitMut for Inliner<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Path(p) if p.qself.is_none() => {
                let last = p.path.segments.last().unwrap().ident.to_string();
                if last.chars().all(|c| c.is_uppercase() || c == '_' || c.is_ascii_digit()) && last.len() > 1 {
                    let found: Vec<_> = self.index.consts.iter().filter(|c| c.0 == last).collect();
                    if found.len() == 1 {
                        let v = &found[0].1;
                        *e = parse_quote!((#v));
                    }
                }
            }
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return };
                if p.qself.is_some() {
                    return;
                }
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let last = segs.last().unwrap().clone();
                let ty = if segs.len() >= 2 { segs[segs.len() - 2].clone() } else { String::new() };
                let ty = if ty == "Self" { self.self_ty.clone().unwrap_or_default() } else { ty };
                let is_type = ty.chars().next().is_some_and(|c| c.is_uppercase());
                let (full, cands) = if is_type {
                    (format!("{ty}::{last}"), self.index.methods(&ty, &last))
                } else {
                    (last.clone(), self.index.free(&last))
                };
                if self.known(&full) || cands.len() != 1 || full == self.current {
                    return;
                }
                let f = cands[0].clone();
                let mut args: Vec<Expr> = c.args.iter().cloned().collect();
                let takes_self = matches!(f.sig.inputs.first(), Some(FnArg::Receiver(_)));
                let recv = if takes_self && !args.is_empty() {
                    match args.remove(0) {
                        Expr::Reference(r) => Some(*r.expr),
                        o => Some(o),
                    }
                } else {
                    None
                };
                if let Ok(new) = self.expand(&f, recv, args) {
                    *e = new;
                }
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                if !is_place(&m.receiver) {
                    return;
                }
                let own = root(&m.receiver).as_deref() == Some("self") && matches!(*m.receiver, Expr::Path(_));
                let Some(ty) = self.self_ty.clone() else { return };
                if !own {
                    return;
                }
                let full = format!("{ty}::{name}");
                let cands = self.index.methods(&ty, &name);
                if self.known(&full) || cands.len() != 1 || full == self.current {
                    return;
                }
                let f = cands[0].clone();
                let args: Vec<Expr> = m.args.iter().cloned().collect();
                let recv = (*m.receiver).clone();
                if let Ok(new) = self.expand(&f, Some(recv), args) {
                    *e = new;
                }
            }
            _ => {}
        }
    }
}
