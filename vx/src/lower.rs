//! Lowering of a function to the subset of Rust that Verus accepts (see DESIGN.md, section 2).
use crate::index::{FnEntry, Index};
use crate::inline::{self, is_place, Inliner, Rename};
use proc_macro2::Span;
use quote::{quote, ToTokens};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Block, Expr, ExprClosure, ExprMethodCall, FnArg, GenericParam, Ident, Pat, Stmt};

fn id(s: &str) -> Ident {
    Ident::new(s, Span::call_site())
}
fn mark(name: &str) -> Stmt {
    let n = id(name);
    parse_quote!(vx_mark!(#n);)
}

#[derive(Clone)]
enum Item {
    /// expression; the flag says that it is a reference into a collection
    Val(Expr, bool),
    Tuple(Vec<Item>),
    /// mutable element: (read place as reference, base, index args)
    Mut { base: Expr, idx: Vec<Expr>, at: &'static str, set: &'static str },
}
impl Item {
    fn expr(&self) -> Expr {
        match self {
            Item::Val(e, _) => e.clone(),
            Item::Tuple(v) => {
                let v: Vec<Expr> = v.iter().map(|i| i.expr()).collect();
                parse_quote!((#(#v),*))
            }
            Item::Mut { base, idx, at, .. } => {
                let at = id(at);
                parse_quote!(#base.#at(#(#idx),*))
            }
        }
    }
}

type Get = Box<dyn FnOnce(&mut Lower, Expr) -> Result<(Vec<Stmt>, Item), String>>;
enum Post {
    Map(Expr),
    Filter(Expr),
    FilterMap(Expr),
}
struct Stream {
    pre: Vec<Stmt>,
    len: Expr,
    get: Get,
    post: Vec<Post>,
}

pub struct Lower {
    k: usize,
    t: usize,
    closures: usize,
    loops: Vec<Value>,
    point_vars: BTreeSet<String>,
    fn_params: BTreeSet<String>,
    fn_params_by_value: BTreeSet<String>,
    err: Option<String>,
    loop_stack: Vec<usize>,
    unit_ret: bool,
}

struct SubstPlace<'a> {
    name: String,
    base: &'a Expr,
    idx: &'a [Expr],
    at: Ident,
    set: Ident,
}
impl SubstPlace<'_> {
    fn is(&self, e: &Expr) -> bool {
        matches!(e, Expr::Path(p) if p.qself.is_none() && p.path.is_ident(&self.name))
    }
    fn is_deref(&self, e: &Expr) -> bool {
        match e {
            Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => self.is(&u.expr),
            Expr::Paren(p) => self.is_deref(&p.expr),
            _ => false,
        }
    }
}
impl VisitMut for SubstPlace<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let (base, idx, at, set) = (self.base, self.idx, self.at.clone(), self.set.clone());
        match e {
            Expr::Assign(a) if self.is_deref(&a.left) => {
                self.visit_expr_mut(&mut a.right);
                let r = &a.right;
                *e = parse_quote!(#base.#set(#(#idx,)* #r));
                return;
            }
            Expr::Binary(b) if self.is_deref(&b.left) && compound(&b.op).is_some() => {
                self.visit_expr_mut(&mut b.right);
                let op = compound(&b.op).unwrap();
                let r = &b.right;
                let cur: Expr = parse_quote!((*#base.#at(#(#idx),*)));
                let val = bin(cur, op, paren((**r).clone()));
                *e = parse_quote!(#base.#set(#(#idx,)* #val));
                return;
            }
            _ if self.is(e) => {
                *e = parse_quote!(#base.#at(#(#idx),*));
                return;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

fn compound(op: &syn::BinOp) -> Option<syn::BinOp> {
    use syn::BinOp::*;
    Some(match op {
        AddAssign(_) => Add(Default::default()),
        SubAssign(_) => Sub(Default::default()),
        MulAssign(_) => Mul(Default::default()),
        DivAssign(_) => Div(Default::default()),
        RemAssign(_) => Rem(Default::default()),
        BitAndAssign(_) => BitAnd(Default::default()),
        BitOrAssign(_) => BitOr(Default::default()),
        BitXorAssign(_) => BitXor(Default::default()),
        _ => return None,
    })
}
fn bin(l: Expr, op: syn::BinOp, r: Expr) -> Expr {
    Expr::Binary(syn::ExprBinary { attrs: vec![], left: Box::new(l), op, right: Box::new(r) })
}
fn paren(e: Expr) -> Expr {
    match e {
        Expr::Path(_) | Expr::Lit(_) | Expr::Call(_) | Expr::MethodCall(_) | Expr::Index(_) | Expr::Field(_)
        | Expr::Paren(_) => e,
        e => parse_quote!((#e)),
    }
}
fn unparen(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => unparen(&p.expr),
        Expr::Group(p) => unparen(&p.expr),
        e => e,
    }
}
fn lit0(e: &Expr) -> bool {
    e.to_token_stream().to_string() == "0" || e.to_token_stream().to_string() == "0usize"
}
fn simple(e: &Expr) -> bool {
    match e {
        Expr::Path(_) | Expr::Lit(_) => true,
        Expr::Field(f) => simple(&f.base),
        Expr::Unary(u) => simple(&u.expr),
        Expr::Reference(r) => simple(&r.expr),
        Expr::Paren(p) => simple(&p.expr),
        _ => false,
    }
}

/// `loopend` hints also before every `continue` of that loop
struct MarkContinue(usize);
impl VisitMut for MarkContinue {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::While(_) | Expr::ForLoop(_) | Expr::Loop(_) | Expr::Closure(_) => return,
            Expr::Continue(_) => {
                let m = mark(&format!("loopend_{}", self.0));
                let c = e.clone();
                *e = parse_quote!({ #m #c });
                return;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

impl Lower {
    fn fail(&mut self, s: impl Into<String>) {
        if self.err.is_none() {
            self.err = Some(s.into());
        }
    }
    fn tmp(&mut self, p: &str) -> Ident {
        let i = id(&format!("{p}{}", self.t));
        self.t += 1;
        i
    }
    fn low(&mut self, e: &Expr) -> Expr {
        let mut e = e.clone();
        self.visit_expr_mut(&mut e);
        e
    }

    // ------------------------------------------------------------------ patterns
    /// binds `pat` to `item`; `body` (not yet lowered) is rewritten where the item is a mutable element
    fn bind(&mut self, pat: &Pat, item: Item, body: &mut Expr) -> Result<Vec<Stmt>, String> {
        match (pat, item) {
            (Pat::Type(t), i) => self.bind(&t.pat, i, body),
            (Pat::Paren(t), i) => self.bind(&t.pat, i, body),
            (Pat::Wild(_), Item::Val(e, _)) => Ok(if simple(&e) || matches!(e, Expr::MethodCall(_)) {
                vec![]
            } else {
                vec![parse_quote!(let _ = #e;)]
            }),
            (Pat::Wild(_), _) => Ok(vec![]),
            (Pat::Ident(p), Item::Mut { base, idx, at, set }) if p.subpat.is_none() && p.by_ref.is_none() => {
                let tmp = format!("vxelem_{}", p.ident);
                let map: BTreeMap<_, _> = [(p.ident.to_string(), tmp.clone())].into();
                Rename { map: &map }.visit_expr_mut(body);
                SubstPlace { name: tmp, base: &base, idx: &idx, at: id(at), set: id(set) }.visit_expr_mut(body);
                Ok(vec![])
            }
            (Pat::Ident(p), i) => {
                if p.subpat.is_some() || p.by_ref.is_some() {
                    return Err("ref/@ pattern".into());
                }
                let e = i.expr();
                let (m, n) = (&p.mutability, &p.ident);
                Ok(vec![parse_quote!(let #m #n = #e;)])
            }
            (Pat::Reference(r), Item::Val(e, _)) => {
                let e = paren(e);
                self.bind(&r.pat, Item::Val(parse_quote!(*#e), false), body)
            }
            (Pat::Tuple(t), Item::Tuple(items)) if t.elems.len() == items.len() => {
                let mut out = vec![];
                for (p, i) in t.elems.iter().zip(items) {
                    out.extend(self.bind(p, i, body)?);
                }
                Ok(out)
            }
            (Pat::Tuple(t), Item::Val(e, is_ref)) => {
                let n = self.tmp("t");
                let mut out: Vec<Stmt> = vec![parse_quote!(let #n = #e;)];
                for (i, p) in t.elems.iter().enumerate() {
                    let ix = syn::Index::from(i);
                    let c: Expr = if is_ref { parse_quote!((&#n.#ix)) } else { parse_quote!(#n.#ix) };
                    out.extend(self.bind(p, Item::Val(c, is_ref), body)?);
                }
                Ok(out)
            }
            (p, i) => {
                let e = i.expr();
                Ok(vec![parse_quote!(let #p = #e;)])
            }
        }
    }
    /// closure (or function) applied to items: statements and the value
    fn apply(&mut self, f: &Expr, args: Vec<Item>) -> Result<(Vec<Stmt>, Expr), String> {
        match unparen(f) {
            Expr::Closure(c) => {
                if c.inputs.len() != args.len() {
                    return Err("closure arity".into());
                }
                if inline::returns(&c.body).0 {
                    return Err("return in closure".into());
                }
                let mut body = (*c.body).clone();
                let mut st = vec![];
                for (p, a) in c.inputs.iter().zip(args) {
                    st.extend(self.bind(p, a, &mut body)?);
                }
                self.visit_expr_mut(&mut body);
                Ok((st, body))
            }
            f => {
                let s = f.to_token_stream().to_string().replace(' ', "");
                let args: Vec<Expr> = args.iter().map(|a| a.expr()).collect();
                let f: Expr = match s.as_str() {
                    "ToOwned::to_owned" | "Clone::clone" => parse_quote!(vx_to_owned),
                    _ => self.low(f),
                };
                Ok((vec![], parse_quote!(#f(#(#args),*))))
            }
        }
    }
    fn block(st: Vec<Stmt>, e: Expr) -> Expr {
        if st.is_empty() {
            return e;
        }
        match e {
            Expr::Block(b) if b.label.is_none() && b.attrs.is_empty() => {
                let inner = b.block.stmts;
                parse_quote!({ #(#st)* #(#inner)* })
            }
            e => parse_quote!({ #(#st)* #e }),
        }
    }

    // ------------------------------------------------------------------ streams
    fn source(&mut self, e: &Expr, pre: &mut Vec<Stmt>) -> Expr {
        let e = unparen(e);
        let low = self.low(e);
        if is_place(e) {
            paren_place(low)
        } else {
            let s = self.tmp("s");
            pre.push(parse_quote!(let #s = #low;));
            parse_quote!(#s)
        }
    }
    fn into_stream(&mut self, e: &Expr) -> Result<Stream, String> {
        if let Some(s) = self.stream(e)? {
            return Ok(s);
        }
        match unparen(e) {
            Expr::Reference(r) => {
                let inner = &r.expr;
                let c: Expr = if r.mutability.is_some() {
                    parse_quote!((#inner).iter_mut())
                } else {
                    parse_quote!((#inner).iter())
                };
                Ok(self.stream(&c)?.unwrap())
            }
            e => Ok(self.owned(e)),
        }
    }
    fn owned(&mut self, e: &Expr) -> Stream {
        let mut pre = vec![];
        let x = self.source(e, &mut pre);
        let x2 = x.clone();
        Stream {
            pre,
            len: parse_quote!(VxInto::vx_ilen(&#x)),
            get: Box::new(move |_, i| Ok((vec![], Item::Val(parse_quote!(VxInto::vx_get(&#x2, #i)), true)))),
            post: vec![],
        }
    }
    fn stream(&mut self, e: &Expr) -> Result<Option<Stream>, String> {
        match unparen(e) {
            Expr::Range(r) => {
                let (Some(a), Some(b)) = (&r.start, &r.end) else { return Ok(None) };
                let incl = matches!(r.limits, syn::RangeLimits::Closed(_));
                let (a, b) = (self.low(a), self.low(b));
                let mut pre = vec![];
                if lit0(&a) {
                    let len: Expr = if incl { parse_quote!((#b) + 1) } else { b };
                    return Ok(Some(Stream {
                        pre,
                        len,
                        get: Box::new(|_, i| Ok((vec![], Item::Val(i, false)))),
                        post: vec![],
                    }));
                }
                let (ta, tb) = (self.tmp("t"), self.tmp("t"));
                pre.push(parse_quote!(let #ta: usize = #a;));
                pre.push(if incl { parse_quote!(let #tb: usize = (#b) + 1;) } else { parse_quote!(let #tb: usize = #b;) });
                Ok(Some(Stream {
                    pre,
                    len: parse_quote!(vx_range_len(#ta, #tb)),
                    get: Box::new(move |_, i| Ok((vec![], Item::Val(parse_quote!(#ta + #i), false)))),
                    post: vec![],
                }))
            }
            Expr::MethodCall(m) => self.stream_call(m),
            _ => Ok(None),
        }
    }
    fn stream_call(&mut self, m: &ExprMethodCall) -> Result<Option<Stream>, String> {
        let name = m.method.to_string();
        let args: Vec<&Expr> = m.args.iter().collect();
        match (name.as_str(), args.len()) {
            ("iter", 0) => {
                let mut pre = vec![];
                let x = self.source(&m.receiver, &mut pre);
                let x2 = x.clone();
                Ok(Some(Stream {
                    pre,
                    len: parse_quote!(#x.vx_len()),
                    get: Box::new(move |_, i| Ok((vec![], Item::Val(parse_quote!(#x2.vx_at(#i)), true)))),
                    post: vec![],
                }))
            }
            ("iter_mut", 0) => {
                let mut pre = vec![];
                if let Expr::MethodCall(c) = unparen(&m.receiver) {
                    if c.method == "column_mut" && c.args.len() == 1 && is_place(&c.receiver) {
                        let x = self.low(&c.receiver);
                        let j = self.low(&c.args[0]);
                        let tj = self.tmp("t");
                        pre.push(parse_quote!(let #tj: usize = #j;));
                        let x2 = x.clone();
                        return Ok(Some(Stream {
                            pre,
                            len: parse_quote!(#x.vx_column_len(#tj)),
                            get: Box::new(move |_, i| {
                                Ok((
                                    vec![],
                                    Item::Mut {
                                        base: x2,
                                        idx: vec![i, parse_quote!(#tj)],
                                        at: "vx_mat_at",
                                        set: "vx_mat_set",
                                    },
                                ))
                            }),
                            post: vec![],
                        }));
                    }
                }
                if !is_place(unparen(&m.receiver)) {
                    return Err("iter_mut on an expression".into());
                }
                let x = self.source(&m.receiver, &mut pre);
                let x2 = x.clone();
                Ok(Some(Stream {
                    pre,
                    len: parse_quote!(#x.vx_len()),
                    get: Box::new(move |_, i| {
                        Ok((vec![], Item::Mut { base: x2, idx: vec![i], at: "vx_at", set: "vx_set" }))
                    }),
                    post: vec![],
                }))
            }
            ("into_iter", 0) => {
                if let Some(s) = self.stream(&m.receiver)? {
                    return Ok(Some(s));
                }
                Ok(Some(self.into_stream(&m.receiver)?))
            }
            ("into_values", 0) => Ok(Some(self.owned(&Expr::MethodCall(m.clone())))),
            ("rev", 0) => {
                let Some(s) = self.stream(&m.receiver)? else { return Ok(None) };
                if s.post.iter().any(|p| !matches!(p, Post::Map(_))) {
                    return Err("rev after filter".into());
                }
                let n = self.tmp("t");
                let mut pre = s.pre;
                let len = s.len;
                pre.push(parse_quote!(let #n: usize = #len;));
                let get = s.get;
                Ok(Some(Stream {
                    pre,
                    len: parse_quote!(#n),
                    get: Box::new(move |l, i| get(l, parse_quote!((#n - 1 - #i)))),
                    post: s.post,
                }))
            }
            ("enumerate", 0) => {
                let Some(s) = self.stream(&m.receiver)? else { return Ok(None) };
                let s = Self::settle(s)?;
                let get = s.get;
                Ok(Some(Stream {
                    pre: s.pre,
                    len: s.len,
                    get: Box::new(move |l, i| {
                        let (st, it) = get(l, i.clone())?;
                        Ok((st, Item::Tuple(vec![Item::Val(i, false), it])))
                    }),
                    post: vec![],
                }))
            }
            ("copied" | "cloned", 0) => {
                let Some(s) = self.stream(&m.receiver)? else { return Ok(None) };
                if s.post.is_empty() {
                    let get = s.get;
                    return Ok(Some(Stream {
                        pre: s.pre,
                        len: s.len,
                        get: Box::new(move |l, i| {
                            let (st, it) = get(l, i)?;
                            let e = it.expr();
                            Ok((st, Item::Val(parse_quote!((*#e)), false)))
                        }),
                        post: vec![],
                    }));
                }
                let mut s = s;
                s.post.push(Post::Map(parse_quote!(|vxc| *vxc)));
                Ok(Some(s))
            }
            ("take", 1) | ("skip", 1) => {
                let Some(s) = self.stream(&m.receiver)? else { return Ok(None) };
                if s.post.iter().any(|p| !matches!(p, Post::Map(_))) {
                    return Err("take/skip after filter".into());
                }
                let a = self.low(args[0]);
                let (t, n) = (self.tmp("t"), self.tmp("t"));
                let mut pre = s.pre;
                let len = s.len;
                pre.push(parse_quote!(let #t: usize = #a;));
                pre.push(parse_quote!(let #n: usize = #len;));
                let get = s.get;
                Ok(Some(if name == "take" {
                    Stream { pre, len: parse_quote!(vx_min(#t, #n)), get, post: s.post }
                } else {
                    Stream {
                        pre,
                        len: parse_quote!(vx_range_len(#t, #n)),
                        get: Box::new(move |l, i| get(l, parse_quote!((#t + #i)))),
                        post: s.post,
                    }
                }))
            }
            ("zip", 1) | ("chain", 1) => {
                let Some(s) = self.stream(&m.receiver)? else { return Ok(None) };
                let s = Self::settle(s)?;
                let o = self.into_stream(args[0])?;
                let o = Self::settle(o)?;
                let (na, nb) = (self.tmp("t"), self.tmp("t"));
                let mut pre = s.pre;
                let (la, lb) = (s.len, o.len);
                pre.push(parse_quote!(let #na: usize = #la;));
                pre.extend(o.pre);
                pre.push(parse_quote!(let #nb: usize = #lb;));
                let (ga, gb) = (s.get, o.get);
                Ok(Some(if name == "zip" {
                    Stream {
                        pre,
                        len: parse_quote!(vx_min(#na, #nb)),
                        get: Box::new(move |l, i| {
                            let (mut st, a) = ga(l, i.clone())?;
                            let (st2, b) = gb(l, i)?;
                            st.extend(st2);
                            Ok((st, Item::Tuple(vec![a, b])))
                        }),
                        post: vec![],
                    }
                } else {
                    Stream {
                        pre,
                        len: parse_quote!(vx_add_len(#na, #nb)),
                        get: Box::new(move |l, i| {
                            let (sa, a) = ga(l, i.clone())?;
                            let (sb, b) = gb(l, parse_quote!((#i - #na)))?;
                            let (Item::Val(a, ra), Item::Val(b, rb)) = (a, b) else {
                                return Err("chain of tuples".into());
                            };
                            let a = Self::block(sa, a);
                            let b = Self::block(sb, b);
                            Ok((vec![], Item::Val(parse_quote!((if #i < #na { #a } else { #b })), ra && rb)))
                        }),
                        post: vec![],
                    }
                }))
            }
            ("map", 1) | ("filter", 1) | ("filter_map", 1) => {
                let Some(mut s) = self.stream(&m.receiver)? else { return Ok(None) };
                let f = args[0].clone();
                s.post.push(match name.as_str() {
                    "map" => Post::Map(f),
                    "filter" => Post::Filter(f),
                    _ => Post::FilterMap(f),
                });
                Ok(Some(s))
            }
            _ => Ok(None),
        }
    }
    /// moves trailing maps into the indexed part
    fn settle(s: Stream) -> Result<Stream, String> {
        if s.post.iter().any(|p| !matches!(p, Post::Map(_))) {
            return Err("positional adapter after filter".into());
        }
        let Stream { pre, len, get, post } = s;
        Ok(Stream {
            pre,
            len,
            get: Box::new(move |l, i| {
                let (mut st, mut it) = get(l, i)?;
                for p in post {
                    let Post::Map(f) = p else { unreachable!() };
                    let (s2, v) = l.apply(&f, vec![it])?;
                    st.extend(s2);
                    let n = l.tmp("m");
                    st.push(parse_quote!(let #n = #v;));
                    it = Item::Val(parse_quote!(#n), false);
                }
                Ok((st, it))
            }),
            post: vec![],
        })
    }

    /// the loop over a stream; `body` consumes one item
    fn build_loop(
        &mut self,
        kind: &str,
        s: Stream,
        k: usize,
        guard: Option<Expr>,
        body: impl FnOnce(&mut Lower, Item) -> Result<Vec<Stmt>, String>,
    ) -> Result<Vec<Stmt>, String> {
        let (i, j, n) = (id(&format!("i{k}")), id(&format!("j{k}")), id(&format!("n{k}")));
        let at = self.loops.len();
        self.loops.push(json!({"k": k, "kind": kind, "i": i.to_string(), "n": n.to_string()}));
        let _ = at;
        let mut out = s.pre;
        let len = s.len;
        out.push(parse_quote!(let #n: usize = #len;));
        out.push(parse_quote!(let mut #i: usize = 0;));
        self.loop_stack.push(k);
        let (gst, it) = (s.get)(self, parse_quote!(#j))?;
        let inner = self.posts(s.post, it, Box::new(body))?;
        self.loop_stack.pop();
        let (m1, m2, m3, m4) = (
            mark(&format!("loopspec_{k}")),
            mark(&format!("loopstart_{k}")),
            mark(&format!("loopend_{k}")),
            mark(&format!("after_{k}")),
        );
        let cond: Expr = match guard {
            Some(g) => parse_quote!(#i < #n && #g),
            None => parse_quote!(#i < #n),
        };
        let mut w: Expr = parse_quote!({
            let #j: usize = #i;
            #i = #i + 1;
            #(#gst)*
            #m2
            #(#inner)*
            #m3
        });
        MarkContinue(k).visit_expr_mut(&mut w);
        let Expr::Block(b) = w else { unreachable!() };
        let st = b.block.stmts;
        out.push(Stmt::Expr(parse_quote!(while #cond { #m1 #(#st)* }), Some(Default::default())));
        out.push(m4);
        Ok(out)
    }
    #[allow(clippy::type_complexity)]
    fn posts(
        &mut self,
        mut post: Vec<Post>,
        it: Item,
        body: Box<dyn FnOnce(&mut Lower, Item) -> Result<Vec<Stmt>, String> + '_>,
    ) -> Result<Vec<Stmt>, String> {
        if post.is_empty() {
            return body(self, it);
        }
        let p = post.remove(0);
        match p {
            Post::Map(f) => {
                let (mut st, v) = self.apply(&f, vec![it])?;
                let n = self.tmp("m");
                st.push(parse_quote!(let #n = #v;));
                // the statements of a map closure live in their own block: names do not leak
                let st = if st.len() > 1 {
                    let v = match st.pop() {
                        Some(Stmt::Local(l)) => *l.init.unwrap().expr,
                        _ => unreachable!(),
                    };
                    let b = Self::block(st, v);
                    vec![parse_quote!(let #n = #b;)]
                } else {
                    st
                };
                let mut out: Vec<Stmt> = st;
                out.extend(self.posts(post, Item::Val(parse_quote!(#n), false), body)?);
                Ok(out)
            }
            Post::Filter(f) => {
                let e = it.expr();
                let x = self.tmp("f");
                let mut out: Vec<Stmt> = vec![parse_quote!(let #x = #e;)];
                let (st, c) = self.apply(&f, vec![Item::Val(parse_quote!((&#x)), true)])?;
                let c = Self::block(st, c);
                let y = self.tmp("c");
                out.push(parse_quote!(let #y = #c;));
                let inner = self.posts(post, Item::Val(parse_quote!(#x), false), body)?;
                out.push(parse_quote!(if #y { #(#inner)* }));
                Ok(out)
            }
            Post::FilterMap(f) => {
                let (st, v) = self.apply(&f, vec![it])?;
                let v = Self::block(st, v);
                let x = self.tmp("f");
                let y = self.tmp("o");
                let inner = self.posts(post, Item::Val(parse_quote!(#x), false), body)?;
                Ok(vec![
                    parse_quote!(let #y = #v;),
                    parse_quote!(if let Some(#x) = #y { #(#inner)* }),
                ])
            }
        }
    }
    fn next_k(&mut self) -> usize {
        self.k += 1;
        self.k - 1
    }

    /// iterator pipelines ending in a consuming method
    fn pipeline(&mut self, e: &Expr) -> Result<Option<Expr>, String> {
        let (m, is_try) = match e {
            Expr::MethodCall(m) => (m, false),
            Expr::Try(t) => match unparen(&t.expr) {
                Expr::MethodCall(m) if m.method == "try_fold" || m.method == "try_for_each" => (m, true),
                _ => return Ok(None),
            },
            _ => return Ok(None),
        };
        let name = m.method.to_string();
        let sinks = [
            "fold", "for_each", "any", "all", "count", "sum", "collect", "max_by", "min_by", "try_fold",
        ];
        if !sinks.contains(&name.as_str()) || (name == "try_fold") != is_try {
            return Ok(None);
        }
        let Some(s) = self.stream(&m.receiver)? else { return Ok(None) };
        let args: Vec<Expr> = m.args.iter().cloned().collect();
        let pre_init = match name.as_str() {
            "fold" | "try_fold" => Some(self.low(&args[0])),
            _ => None,
        };
        let k = self.next_k();
        let acc = id(&format!("acc{k}"));
        let mut out: Vec<Stmt> = vec![];
        let value: Expr = parse_quote!(#acc);
        let a2 = acc.clone();
        match name.as_str() {
            "fold" => {
                let init = pre_init.unwrap();
                out.push(parse_quote!(let mut #acc = #init;));
                let f = args[1].clone();
                out.extend(self.build_loop("fold", s, k, None, move |l, it| {
                    let (st, v) = l.apply(&f, vec![Item::Val(parse_quote!(#a2), false), it])?;
                    let v = Self::block(st, v);
                    Ok(vec![parse_quote!(#a2 = #v;)])
                })?);
            }
            "try_fold" => {
                let init = pre_init.unwrap();
                out.push(parse_quote!(let mut #acc = #init;));
                let Expr::Closure(c) = unparen(&args[1]) else { return Err("try_fold without closure".into()) };
                let mut c = c.clone();
                unwrap_tail(&mut c)?;
                out.extend(self.build_loop("fold", s, k, None, move |l, it| {
                    let (st, v) = l.apply(&Expr::Closure(c), vec![Item::Val(parse_quote!(#a2), false), it])?;
                    let v = Self::block(st, v);
                    Ok(vec![parse_quote!(#a2 = #v;)])
                })?);
            }
            "for_each" => {
                let f = args[0].clone();
                let mut st = self.build_loop("for", s, k, None, move |l, it| {
                    let (mut st, v) = l.apply(&f, vec![it])?;
                    st.push(Stmt::Expr(v, Some(Default::default())));
                    Ok(st)
                })?;
                let last = st.pop();
                return Ok(Some(parse_quote!({ #(#st)* #last })));
            }
            "any" | "all" => {
                let any = name == "any";
                let init: Expr = if any { parse_quote!(false) } else { parse_quote!(true) };
                out.push(parse_quote!(let mut #acc: bool = #init;));
                let f = args[0].clone();
                let g: Expr = if any { parse_quote!(!#acc) } else { parse_quote!(#acc) };
                out.extend(self.build_loop(&name, s, k, Some(g), move |l, it| {
                    let (st, v) = l.apply(&f, vec![it])?;
                    let v = Self::block(st, v);
                    Ok(vec![parse_quote!(#a2 = #v;)])
                })?);
            }
            "count" => {
                out.push(parse_quote!(let mut #acc: usize = 0;));
                out.extend(self.build_loop("sum", s, k, None, move |_, it| {
                    let e = it.expr();
                    Ok(vec![parse_quote!(let _ = #e;), parse_quote!(#a2 = #a2 + 1;)])
                })?);
            }
            "sum" => {
                let ty: Option<syn::GenericArgument> = m.turbofish.as_ref().and_then(|t| t.args.first().cloned());
                match ty {
                    Some(t) => out.push(parse_quote!(let mut #acc: #t = <#t as VxSum>::vx_sum_zero();)),
                    None => out.push(parse_quote!(let mut #acc = VxSum::vx_sum_zero();)),
                }
                out.extend(self.build_loop("sum", s, k, None, move |_, it| {
                    let e = it.expr();
                    Ok(vec![parse_quote!(#a2 = #a2 + #e;)])
                })?);
            }
            "collect" => {
                if let Some(t) = &m.turbofish {
                    let s = t.to_token_stream().to_string().replace(' ', "");
                    if !s.starts_with("::<Vec<") {
                        return Err(format!("collect{s}"));
                    }
                }
                out.push(parse_quote!(let mut #acc = Vec::new();));
                out.extend(self.build_loop("collect", s, k, None, move |_, it| {
                    let e = it.expr();
                    Ok(vec![parse_quote!(#a2.push(#e);)])
                })?);
            }
            "max_by" | "min_by" => {
                let keep: Expr = if name == "max_by" {
                    parse_quote!(matches_greater(vxo))
                } else {
                    parse_quote!(!matches_greater(vxo))
                };
                let _ = keep;
                out.push(parse_quote!(let mut #acc = None;));
                let f = args[0].clone();
                let is_max = name == "max_by";
                out.extend(self.build_loop(&name, s, k, None, move |l, it| {
                    let e = it.expr();
                    let (st, v) = l.apply(
                        &f,
                        vec![Item::Val(parse_quote!((&vxb)), true), Item::Val(parse_quote!((&vxx)), true)],
                    )?;
                    let v = Self::block(st, v);
                    let pick: Expr = if is_max {
                        parse_quote!(match vxo {
                            Ordering::Greater => Some(vxb),
                            _ => Some(vxx),
                        })
                    } else {
                        parse_quote!(match vxo {
                            Ordering::Greater => Some(vxx),
                            _ => Some(vxb),
                        })
                    };
                    Ok(vec![
                        parse_quote!(let vxx = #e;),
                        parse_quote!(#a2 = match #a2 {
                            None => Some(vxx),
                            Some(vxb) => {
                                let vxo: Ordering = #v;
                                #pick
                            }
                        };),
                    ])
                })?);
            }
            _ => return Err(name),
        }
        Ok(Some(parse_quote!({ #(#out)* #value })))
    }

    fn for_loop(&mut self, f: &syn::ExprForLoop) -> Result<Expr, String> {
        if f.label.is_some() {
            return Err("loop label".into());
        }
        let s = self.into_stream(&f.expr)?;
        let k = self.next_k();
        let (pat, body) = ((*f.pat).clone(), f.body.clone());
        let mut st = self.build_loop("for", s, k, None, move |l, it| {
            let mut b: Expr = Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: body });
            let mut st = l.bind(&pat, it, &mut b)?;
            l.visit_expr_mut(&mut b);
            let Expr::Block(b) = b else { unreachable!() };
            let mut inner = b.block.stmts;
            if let Some(Stmt::Expr(_, semi @ None)) = inner.last_mut() {
                *semi = Some(Default::default());
            }
            st.extend(inner);
            Ok(st)
        })?;
        let last = st.pop();
        Ok(parse_quote!({ #(#st)* #last }))
    }

    fn from_fn(&mut self, f: &Expr) -> Result<Expr, String> {
        let k = self.next_k();
        let (b, v) = (id(&format!("b{k}")), id(&format!("v{k}")));
        let s = Stream {
            pre: vec![],
            len: parse_quote!(#b.vx_cap()),
            get: Box::new(|_, i| Ok((vec![], Item::Val(i, false)))),
            post: vec![],
        };
        let f = f.clone();
        let (b2, v2) = (b.clone(), v.clone());
        let st = self.build_loop("array", s, k, None, move |l, it| {
            let (st, e) = l.apply(&f, vec![it])?;
            let e = Self::block(st, e);
            Ok(vec![parse_quote!(let #v2 = #e;), parse_quote!(#b2.vx_push(#v2);)])
        })?;
        Ok(parse_quote!({ let mut #b = vx_arr_begin(); #(#st)* #b.vx_finish() }))
    }

    fn is_point(&self, e: &Expr) -> bool {
        match unparen(e) {
            Expr::Path(p) => p.path.get_ident().is_some_and(|i| self.point_vars.contains(&i.to_string())),
            Expr::Unary(u) => self.is_point(&u.expr),
            _ => false,
        }
    }

    /// Option / bool / Ordering combinators
    fn combinator(&mut self, m: &ExprMethodCall) -> Result<Option<Expr>, String> {
        let name = m.method.to_string();
        let a: Vec<&Expr> = m.args.iter().collect();
        let closure = |i: usize| a.get(i).is_some_and(|e| matches!(unparen(e), Expr::Closure(_)));
        let v = || Item::Val(parse_quote!(vxv), false);
        macro_rules! app {
            ($f:expr, $args:expr) => {{
                let (st, e) = self.apply($f, $args)?;
                Self::block(st, e)
            }};
        }
        Ok(Some(match (name.as_str(), a.len()) {
            ("and_then", 1) => {
                let r = self.low(&m.receiver);
                let b = app!(a[0], vec![v()]);
                parse_quote!((match #r { Some(vxv) => #b, None => None }))
            }
            ("map", 1) if self.is_point(&m.receiver) => {
                let r = self.low(&m.receiver);
                let f = a[0].clone();
                let k = self.next_k();
                let (b, w) = (id(&format!("b{k}")), id(&format!("v{k}")));
                let s = Stream {
                    pre: vec![],
                    len: parse_quote!(#b.vx_cap()),
                    get: Box::new(move |_, i| Ok((vec![], Item::Val(parse_quote!((*#r.vx_at(#i))), false)))),
                    post: vec![],
                };
                let (b2, w2) = (b.clone(), w.clone());
                let st = self.build_loop("array", s, k, None, move |l, it| {
                    let (st, e) = l.apply(&f, vec![it])?;
                    let e = Self::block(st, e);
                    Ok(vec![parse_quote!(let #w2 = #e;), parse_quote!(#b2.vx_push(#w2);)])
                })?;
                parse_quote!({ let mut #b = vx_arr_begin(); #(#st)* Point::from(#b.vx_finish()) })
            }
            ("map", 1) => {
                let r = self.low(&m.receiver);
                let b = app!(a[0], vec![v()]);
                parse_quote!((match #r { Some(vxv) => Some(#b), None => None }))
            }
            ("map_or", 2) => {
                let r = self.low(&m.receiver);
                let d = self.low(a[0]);
                let b = app!(a[1], vec![v()]);
                parse_quote!({ let vxr = #r; let vxd = #d; match vxr { Some(vxv) => #b, None => vxd } })
            }
            ("map_or_else", 2) => {
                let r = self.low(&m.receiver);
                let d = app!(a[0], vec![]);
                let b = app!(a[1], vec![v()]);
                parse_quote!((match #r { Some(vxv) => #b, None => #d }))
            }
            ("is_some_and", 1) => {
                let r = self.low(&m.receiver);
                let b = app!(a[0], vec![v()]);
                parse_quote!((match #r { Some(vxv) => #b, None => false }))
            }
            ("is_none_or", 1) => {
                let r = self.low(&m.receiver);
                let b = app!(a[0], vec![v()]);
                parse_quote!((match #r { Some(vxv) => #b, None => true }))
            }
            ("filter", 1) => {
                let r = self.low(&m.receiver);
                let b = app!(a[0], vec![Item::Val(parse_quote!((&vxv)), true)]);
                parse_quote!((match #r { Some(vxv) => if #b { Some(vxv) } else { None }, None => None }))
            }
            ("unwrap_or", 1) => {
                let r = self.low(&m.receiver);
                let d = self.low(a[0]);
                if simple(&d) {
                    parse_quote!((match #r { Some(vxv) => vxv, None => #d }))
                } else {
                    parse_quote!({ let vxr = #r; let vxd = #d; match vxr { Some(vxv) => vxv, None => vxd } })
                }
            }
            ("as_deref", 0) => {
                let r = self.low(&m.receiver);
                parse_quote!(vx_as_deref(&#r))
            }
            ("unwrap_or_default", 0) => {
                let r = self.low(&m.receiver);
                parse_quote!((match #r { Some(vxv) => vxv, None => VxDefault::vx_default() }))
            }
            ("unwrap_or_else", 1) => {
                let r = self.low(&m.receiver);
                let d = app!(a[0], vec![]);
                parse_quote!((match #r { Some(vxv) => vxv, None => #d }))
            }
            ("or_else", 1) => {
                let r = self.low(&m.receiver);
                let d = app!(a[0], vec![]);
                parse_quote!((match #r { Some(vxv) => Some(vxv), None => #d }))
            }
            ("or", 1) => {
                let r = self.low(&m.receiver);
                let d = self.low(a[0]);
                parse_quote!({ let vxr = #r; let vxd = #d; match vxr { Some(vxv) => Some(vxv), None => vxd } })
            }
            ("ok_or", 1) => {
                let r = self.low(&m.receiver);
                let d = self.low(a[0]);
                parse_quote!((match #r { Some(vxv) => Ok(vxv), None => Err(#d) }))
            }
            ("ok_or_else", 1) => {
                let r = self.low(&m.receiver);
                let d = app!(a[0], vec![]);
                parse_quote!((match #r { Some(vxv) => Ok(vxv), None => Err(#d) }))
            }
            ("then", 1) if closure(0) => {
                let r = self.low(&m.receiver);
                let b = app!(a[0], vec![]);
                parse_quote!((if #r { Some(#b) } else { None }))
            }
            ("then_some", 1) => {
                let r = self.low(&m.receiver);
                let d = self.low(a[0]);
                if simple(&d) {
                    parse_quote!((if #r { Some(#d) } else { None }))
                } else {
                    parse_quote!({ let vxr = #r; let vxd = #d; if vxr { Some(vxd) } else { None } })
                }
            }
            ("then_with", 1) => {
                let r = self.low(&m.receiver);
                let b = app!(a[0], vec![]);
                parse_quote!((match #r { Ordering::Equal => #b, vxo => vxo }))
            }
            ("then", 1) => {
                let r = self.low(&m.receiver);
                let d = self.low(a[0]);
                parse_quote!({ let vxr = #r; let vxd = #d; match vxr { Ordering::Equal => vxd, vxo => vxo } })
            }
            _ => return Ok(None),
        }))
    }

    fn sort_closure(&mut self, c: &ExprClosure) -> Result<Expr, String> {
        let q = self.closures;
        self.closures += 1;
        let mut body = (*c.body).clone();
        let mut st = vec![mark(&format!("closure_{q}"))];
        let mut ps = vec![];
        for (i, p) in c.inputs.iter().enumerate() {
            let n = id(&format!("vxp{i}"));
            st.extend(self.bind(p, Item::Val(parse_quote!(#n), true), &mut body)?);
            ps.push(n);
        }
        self.visit_expr_mut(&mut body);
        let body = Self::block(st, body);
        Ok(parse_quote!(|#(#ps),*| #body))
    }
}

fn paren_place(e: Expr) -> Expr {
    match e {
        Expr::Unary(_) => parse_quote!((#e)),
        e => e,
    }
}

/// the tail `Ok(x)` / `Some(x)` of a try_fold closure becomes `x`
fn unwrap_tail(c: &mut ExprClosure) -> Result<(), String> {
    fn tail(e: &mut Expr) -> Result<(), String> {
        match e {
            Expr::Call(c) => {
                let f = c.func.to_token_stream().to_string().replace(' ', "");
                let f = f.split("::<").next().unwrap().to_string();
                if (f == "Ok" || f == "Some") && c.args.len() == 1 {
                    let x = c.args[0].clone();
                    *e = x;
                    return Ok(());
                }
                Err("try_fold closure result".into())
            }
            Expr::Block(b) => match b.block.stmts.last_mut() {
                Some(Stmt::Expr(e, None)) => tail(e),
                _ => Err("try_fold closure result".into()),
            },
            _ => Err("try_fold closure result".into()),
        }
    }
    tail(&mut c.body)
}

impl VisitMut for Lower {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let stmts = std::mem::take(&mut b.stmts);
        let mut out: Vec<Stmt> = vec![];
        for mut s in stmts {
            match &mut s {
                Stmt::Item(syn::Item::Use(_)) => continue,
                Stmt::Macro(m) => {
                    let name = m.mac.path.segments.last().unwrap().ident.to_string();
                    if is_log(&m.mac) {
                        continue;
                    }
                    if name == "vx_mark" {
                        out.push(s);
                        continue;
                    }
                    let mac = m.mac.clone();
                    let semi = m.semi_token;
                    let mut e = Expr::Macro(syn::ExprMacro { attrs: vec![], mac });
                    self.visit_expr_mut(&mut e);
                    out.push(Stmt::Expr(e, semi));
                    continue;
                }
                Stmt::Local(l) => {
                    l.attrs.clear();
                    if let Some(init) = &mut l.init {
                        if matches!(l.pat, Pat::Wild(_)) && simple(&init.expr) {
                            continue;
                        }
                        if let Some((_, div)) = init.diverge.take() {
                            // let-else
                            let mut ids = inline::Bound::default();
                            ids.visit_pat(&l.pat);
                            let names: Vec<Ident> = ids.0.iter().filter(|n| n.as_str() != "None").map(|n| id(n)).collect();
                            let (pat, ex) = (&l.pat, &init.expr);
                            let new: Stmt = if names.len() == 1 {
                                let n = &names[0];
                                parse_quote!(let #n = match #ex { #pat => #n, _ => #div };)
                            } else {
                                parse_quote!(let (#(#names),*) = match #ex { #pat => (#(#names),*), _ => #div };)
                            };
                            s = new;
                        }
                    }
                    let Stmt::Local(l) = &mut s else { unreachable!() };
                    // aliases of points
                    let (name, _) = match &l.pat {
                        Pat::Ident(p) => (Some(p.ident.to_string()), ()),
                        Pat::Type(t) => match &*t.pat {
                            Pat::Ident(p) => (Some(p.ident.to_string()), ()),
                            _ => (None, ()),
                        },
                        _ => (None, ()),
                    };
                    if let (Some(n), Some(init)) = (&name, &l.init) {
                        if self.is_point(&init.expr) {
                            self.point_vars.insert(n.clone());
                        } else {
                            self.point_vars.remove(n);
                        }
                    }
                    if let Pat::Reference(_) | Pat::Tuple(_) = &l.pat {
                        if let Some(init) = &l.init {
                            if has_ref_pat(&l.pat) {
                                let e = self.low(&init.expr);
                                let mut dummy: Expr = parse_quote!(());
                                match self.bind(&l.pat.clone(), Item::Val(e, false), &mut dummy) {
                                    Ok(st) => out.extend(st),
                                    Err(e) => self.fail(e),
                                }
                                continue;
                            }
                        }
                    }
                    self.visit_stmt_mut(&mut s);
                }
                Stmt::Expr(e, Some(_)) if simple(e) || matches!(&*e, Expr::Tuple(t) if t.elems.is_empty()) => continue,
                _ => self.visit_stmt_mut(&mut s),
            }
            out.push(s);
        }
        b.stmts = out;
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match self.pipeline(e) {
            Ok(Some(n)) => {
                *e = n;
                return;
            }
            Ok(None) => {}
            Err(x) => {
                self.fail(x);
                return;
            }
        }
        match e {
            Expr::ForLoop(f) => {
                let f = f.clone();
                match self.for_loop(&f) {
                    Ok(n) => *e = n,
                    Err(x) => self.fail(x),
                }
                return;
            }
            Expr::While(w) => {
                if w.label.is_some() {
                    self.fail("loop label");
                }
                if let Expr::Let(l) = &*w.cond {
                    let (p, x, b) = (&l.pat, &l.expr, &w.body.stmts);
                    *e = parse_quote!(loop { if let #p = #x { #(#b)* } else { break; } });
                    self.visit_expr_mut(e);
                    return;
                }
                let k = self.next_k();
                self.loops.push(json!({"k": k, "kind": "while"}));
                self.visit_expr_mut(&mut w.cond);
                self.loop_body(k, &mut w.body);
                let m = mark(&format!("after_{k}"));
                let w = w.clone();
                *e = parse_quote!({ #w #m });
                return;
            }
            Expr::Loop(w) => {
                if w.label.is_some() {
                    self.fail("loop label");
                }
                let k = self.next_k();
                self.loops.push(json!({"k": k, "kind": "loop"}));
                self.loop_body(k, &mut w.body);
                let m = mark(&format!("after_{k}"));
                let w = w.clone();
                *e = parse_quote!({ #w #m });
                return;
            }
            Expr::MethodCall(m) => {
                let m = m.clone();
                match self.combinator(&m) {
                    Ok(Some(n)) => {
                        *e = n;
                        return;
                    }
                    Ok(None) => {}
                    Err(x) => {
                        self.fail(x);
                        return;
                    }
                }
                // map.entry(k).or_default().push(v)
                if m.method == "push" && m.args.len() == 1 {
                    if let Expr::MethodCall(d) = &*m.receiver {
                        let dn = d.method.to_string();
                        let arg = d.args.first().map(|a| a.to_token_stream().to_string().replace(' ', ""));
                        let fresh = dn == "or_default"
                            || (dn == "or_insert_with" && matches!(arg.as_deref(), Some("Vec::new") | Some("||Vec::new()") | Some("Vec::default")))
                            || (dn == "or_insert" && matches!(arg.as_deref(), Some("Vec::new()") | Some("vec![]")));
                        if fresh {
                            if let Expr::MethodCall(en) = &*d.receiver {
                                if en.method == "entry" && en.args.len() == 1 {
                                    let (r, key, v) = (self.low(&en.receiver), self.low(&en.args[0]), self.low(&m.args[0]));
                                    *e = parse_quote!(#r.vx_entry_push(#key, #v));
                                    return;
                                }
                            }
                        }
                    }
                }
                if m.method.to_string().starts_with("sort") && m.args.len() == 1 {
                    let r = self.low(&m.receiver);
                    let name = id(&format!("vx_{}", m.method));
                    let f = match unparen(&m.args[0]) {
                        Expr::Closure(c) => match self.sort_closure(c) {
                            Ok(f) => f,
                            Err(x) => {
                                self.fail(x);
                                return;
                            }
                        },
                        f => self.low(f),
                    };
                    *e = parse_quote!(#r.#name(#f));
                    return;
                }
            }
            Expr::Call(c) => {
                let name = match &*c.func {
                    Expr::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
                    _ => String::new(),
                };
                let full = c.func.to_token_stream().to_string().replace(' ', "");
                if name == "from_fn" && c.args.len() == 1 {
                    let f = c.args[0].clone();
                    match self.from_fn(&f) {
                        Ok(n) => *e = n,
                        Err(x) => self.fail(x),
                    }
                    return;
                }
                if full == "usize::from" && c.args.len() == 1 {
                    let a = self.low(&c.args[0]);
                    *e = parse_quote!(vx_usize_of(#a));
                    return;
                }
                if full == "Vec::from" && c.args.len() == 1 {
                    let a = self.low(&c.args[0]);
                    *e = parse_quote!(vx_vec_from(#a));
                    return;
                }
                if let Expr::Path(p) = &*c.func {
                    if let Some(i) = p.path.get_ident() {
                        if self.fn_params.contains(&i.to_string()) {
                            let i = i.clone();
                            let args: Vec<Expr> = c.args.iter().map(|a| self.low(a)).collect();
                            *e = parse_quote!(#i.vx_call(#(#args),*));
                            return;
                        }
                    }
                }
            }
            Expr::Reference(r) if r.mutability.is_some() => {
                if let Expr::Path(p) = &*r.expr {
                    if p.path.get_ident().is_some_and(|i| self.fn_params_by_value.contains(&i.to_string())) {
                        let x = (*r.expr).clone();
                        *e = x;
                        return;
                    }
                }
            }
            Expr::Binary(b) if compound(&b.op).is_some() => {
                let op = compound(&b.op).unwrap();
                let l = self.low(&b.left);
                let r = paren(self.low(&b.right));
                let val = bin(paren(l.clone()), op, r);
                *e = Self::assign(l, val);
                return;
            }
            Expr::Assign(a) => {
                let l = self.low(&a.left);
                let r = self.low(&a.right);
                *e = Self::assign(l, r);
                return;
            }
            Expr::Range(r) if r.start.is_some() && r.end.is_some() => {
                let (a, b) = (self.low(r.start.as_ref().unwrap()), self.low(r.end.as_ref().unwrap()));
                if matches!(r.limits, syn::RangeLimits::Closed(_)) {
                    *e = parse_quote!(vx_range_incl(#a, #b));
                    return;
                }
            }
            Expr::Macro(m) => {
                let name = m.mac.path.segments.last().unwrap().ident.to_string();
                match name.as_str() {
                    "matches" => {
                        let ts = m.mac.tokens.clone();
                        let parser = |input: syn::parse::ParseStream| -> syn::Result<(Expr, Pat, Option<Expr>)> {
                            let e: Expr = input.parse()?;
                            input.parse::<syn::Token![,]>()?;
                            let p = Pat::parse_multi_with_leading_vert(input)?;
                            let g = if input.peek(syn::Token![if]) {
                                input.parse::<syn::Token![if]>()?;
                                Some(input.parse()?)
                            } else {
                                None
                            };
                            let _ = input.parse::<syn::Token![,]>();
                            Ok((e, p, g))
                        };
                        match syn::parse::Parser::parse2(parser, ts) {
                            Ok((x, p, None)) => {
                                let x = self.low(&x);
                                *e = parse_quote!((match #x { #p => true, _ => false }));
                            }
                            Ok((x, p, Some(g))) => {
                                let (x, g) = (self.low(&x), self.low(&g));
                                *e = parse_quote!((match #x { #p if #g => true, _ => false }));
                            }
                            Err(_) => self.fail("matches!"),
                        }
                        return;
                    }
                    "assert" | "debug_assert" => {
                        let ts = m.mac.tokens.clone();
                        let parser = syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated;
                        match syn::parse::Parser::parse2(parser, ts) {
                            Ok(p) if !p.is_empty() => {
                                let c = self.low(&p[0]);
                                *e = parse_quote!(vx_assert(#c));
                            }
                            _ => self.fail("assert!"),
                        }
                        return;
                    }
                    "unreachable" | "panic" | "unimplemented" | "todo" => {
                        *e = parse_quote!(vx_unreachable());
                        return;
                    }
                    "vx_mark" => return,
                    "vec" => {
                        let ts = m.mac.tokens.clone();
                        let parser = syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated;
                        if let Ok(p) = syn::parse::Parser::parse2(parser, ts.clone()) {
                            let v: Vec<Expr> = p.iter().map(|x| self.low(x)).collect();
                            *e = if v.is_empty() { parse_quote!(Vec::new()) } else { parse_quote!(vx_vec_from([#(#v),*])) };
                            return;
                        }
                        let parser = |input: syn::parse::ParseStream| -> syn::Result<(Expr, Expr)> {
                            let e: Expr = input.parse()?;
                            input.parse::<syn::Token![;]>()?;
                            Ok((e, input.parse()?))
                        };
                        match syn::parse::Parser::parse2(parser, ts) {
                            Ok((x, n)) => {
                                let (x, n) = (self.low(&x), self.low(&n));
                                *e = parse_quote!(vx_vec_repeat(#x, #n));
                            }
                            Err(_) => self.fail("vec!"),
                        }
                        return;
                    }
                    _ => {
                        if is_log(&m.mac) {
                            *e = parse_quote!(());
                        } else {
                            self.fail(format!("macro {name}!"));
                        }
                        return;
                    }
                }
            }
            Expr::Return(r) => {
                let v = r.expr.as_ref().map(|x| self.low(x));
                let m = mark("ret");
                *e = match v {
                    Some(v) => parse_quote!({ let vx_ret = #v; #m return vx_ret; }),
                    None => parse_quote!({ #m return; }),
                };
                return;
            }
            Expr::Field(f) => {
                if let syn::Member::Named(n) = &f.member {
                    let ix = match n.to_string().as_str() {
                        "x" => Some(0usize),
                        "y" => Some(1),
                        "z" => Some(2),
                        _ => None,
                    };
                    if let Some(ix) = ix {
                        let b = self.low(&f.base);
                        let l = proc_macro2::Literal::usize_unsuffixed(ix);
                        *e = parse_quote!(#b[#l]);
                        return;
                    }
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }

    fn visit_arm_mut(&mut self, a: &mut syn::Arm) {
        // `Some(&x) => body`: no reference patterns inside match arms
        fix_arm(&mut a.pat, &mut a.body);
        visit_mut::visit_arm_mut(self, a);
    }
    fn visit_expr_if_mut(&mut self, i: &mut syn::ExprIf) {
        if let Expr::Let(l) = &mut *i.cond {
            let mut b: Expr = {
                let b = &i.then_branch;
                parse_quote!(#b)
            };
            fix_arm(&mut l.pat, &mut b);
            if let Expr::Block(b) = b {
                i.then_branch = b.block;
            }
        }
        visit_mut::visit_expr_if_mut(self, i);
    }
}

/// replaces `&x` inside a pattern by a fresh name dereferenced at the start of the body
fn fix_arm(p: &mut Pat, body: &mut Expr) {
    struct F(Vec<(Pat, Ident)>, bool);
    impl VisitMut for F {
        fn visit_pat_mut(&mut self, p: &mut Pat) {
            if let Pat::Reference(r) = p {
                let n = id(&format!("vxr_{}", self.0.len()));
                self.0.push(((*r.pat).clone(), n.clone()));
                *p = parse_quote!(#n);
                return;
            }
            visit_mut::visit_pat_mut(self, p);
        }
    }
    let mut f = F(vec![], false);
    f.visit_pat_mut(p);
    if !f.0.is_empty() {
        let lets: Vec<Stmt> = f.0.iter().map(|(p, n)| parse_quote!(let #p = *#n;)).collect();
        let b = body.clone();
        *body = match b {
            Expr::Block(b) if b.label.is_none() => {
                let st = b.block.stmts;
                parse_quote!({ #(#lets)* #(#st)* })
            }
            b => parse_quote!({ #(#lets)* #b }),
        };
    }
}

fn has_ref_pat(p: &Pat) -> bool {
    struct H(bool);
    impl<'a> Visit<'a> for H {
        fn visit_pat_reference(&mut self, _: &'a syn::PatReference) {
            self.0 = true;
        }
    }
    let mut h = H(false);
    h.visit_pat(p);
    h.0
}

fn is_log(m: &syn::Macro) -> bool {
    let segs: Vec<String> = m.path.segments.iter().map(|s| s.ident.to_string()).collect();
    let last = segs.last().map(|s| s.as_str()).unwrap_or("");
    let tracing = ["trace", "debug", "info", "warn", "error", "event"];
    if segs.len() > 1 && (segs[0] == "log" || segs[0] == "tracing") {
        return true;
    }
    tracing.contains(&last) || ["println", "eprintln", "print", "eprint"].contains(&last)
}

impl Lower {
    fn assign(l: Expr, r: Expr) -> Expr {
        match unparen(&l) {
            Expr::Index(ix) => {
                let (b, i) = (&ix.expr, &ix.index);
                parse_quote!(#b.vx_set(#i, #r))
            }
            _ => parse_quote!(#l = #r),
        }
    }
    fn loop_body(&mut self, k: usize, body: &mut Block) {
        self.loop_stack.push(k);
        self.visit_block_mut(body);
        self.loop_stack.pop();
        let mut b: Expr = parse_quote!(#body);
        MarkContinue(k).visit_expr_mut(&mut b);
        let Expr::Block(b) = b else { unreachable!() };
        let mut st = b.block.stmts;
        if let Some(Stmt::Expr(_, semi @ None)) = st.last_mut() {
            *semi = Some(Default::default());
        }
        let (m1, m2, m3) = (
            mark(&format!("loopspec_{k}")),
            mark(&format!("loopstart_{k}")),
            mark(&format!("loopend_{k}")),
        );
        body.stmts = parse_quote!(#m1 #m2 #(#st)* #m3);
    }
}

/// generic arguments of calls to functions under contract are inferred
struct DropTurbofish<'a> {
    known: &'a BTreeSet<String>,
}
impl VisitMut for DropTurbofish<'_> {
    fn visit_expr_call_mut(&mut self, c: &mut syn::ExprCall) {
        if let Expr::Path(p) = &mut *c.func {
            if p.qself.is_none() {
                let last = p.path.segments.last().unwrap().ident.to_string();
                // `usize::from` is no function of the crate
                let prim = p.path.segments.len() == 2 && primitive(&p.path.segments[0].ident.to_string());
                if self.known.contains(&last) && !prim {
                    // also drop a module path: `helpers::calculate_mse` -> `calculate_mse`
                    let keep: Vec<_> = p
                        .path
                        .segments
                        .iter()
                        .filter(|s| {
                            let t = s.ident.to_string();
                            t == last || t.chars().next().is_some_and(|c| c.is_uppercase())
                        })
                        .cloned()
                        .collect();
                    p.path.segments = keep.into_iter().collect();
                    p.path.segments.last_mut().unwrap().arguments = syn::PathArguments::None;
                }
            }
        }
        visit_mut::visit_expr_call_mut(self, c);
    }
}

/// names of the integer types
fn primitive(t: &str) -> bool {
    (t.starts_with('u') || t.starts_with('i')) && (t.ends_with("size") || t[1..].parse::<u8>().is_ok())
}

/// drops lower-case module segments before the first capitalised one
struct DropPrefix;
impl VisitMut for DropPrefix {
    // `<T as module::Trait>::item`: the trait's path shrinks, and with it the position of its end
    fn visit_expr_path_mut(&mut self, e: &mut syn::ExprPath) {
        let n = e.path.segments.len();
        self.visit_path_mut(&mut e.path);
        let cut = n - e.path.segments.len();
        if let Some(q) = e.qself.as_mut() {
            self.visit_type_mut(&mut q.ty);
            q.position = q.position.saturating_sub(cut);
        }
    }
    fn visit_type_path_mut(&mut self, e: &mut syn::TypePath) {
        let n = e.path.segments.len();
        self.visit_path_mut(&mut e.path);
        let cut = n - e.path.segments.len();
        if let Some(q) = e.qself.as_mut() {
            self.visit_type_mut(&mut q.ty);
            q.position = q.position.saturating_sub(cut);
        }
    }
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        let up = |s: &syn::PathSegment| s.ident.to_string().chars().next().is_some_and(|c| c.is_uppercase());
        if let Some(i) = p.segments.iter().position(up) {
            // `usize::MAX` and the like keep the type
            let prim = i == 1 && p.segments.len() == 2 && primitive(&p.segments[0].ident.to_string());
            if i > 0 && !prim {
                p.leading_colon = None;
                p.segments = p.segments.iter().skip(i).cloned().collect();
            }
        }
        visit_mut::visit_path_mut(self, p);
    }
}

/// a decimal literal as a fraction: `0.01` -> (1, 100)
fn fraction(digits: &str) -> Option<(u128, u128)> {
    let d = digits.to_lowercase();
    let (m, e) = match d.split_once('e') {
        Some((m, e)) => (m.to_string(), e.parse::<i32>().ok()?),
        None => (d, 0),
    };
    let (i, f) = m.split_once('.').unwrap_or((&m, ""));
    let mut n: u128 = format!("{i}{f}").parse().ok()?;
    let mut q: u128 = 1;
    let sh = e - f.len() as i32;
    for _ in 0..sh.unsigned_abs() {
        if sh > 0 {
            n = n.checked_mul(10)?;
        } else {
            q = q.checked_mul(10)?;
        }
    }
    let (mut a, mut b) = (n, q);
    while b != 0 {
        (a, b) = (b, a % b);
    }
    Some((n / a.max(1), q / a.max(1)))
}

/// floating-point literals become `vx_lit(numerator, denominator)`
struct FloatLits;
impl VisitMut for FloatLits {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Lit(syn::ExprLit { lit: syn::Lit::Float(l), .. }) = e {
            if let Some((n, d)) = fraction(l.base10_digits()) {
                if let (Ok(n), Ok(d)) = (u64::try_from(n), u64::try_from(d)) {
                    let (n, d) = (syn::LitInt::new(&n.to_string(), proc_macro2::Span::call_site()), syn::LitInt::new(&d.to_string(), proc_macro2::Span::call_site()));
                    *e = parse_quote!(vx_lit(#n, #d));
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

fn find<'a>(ix: &'a Index, f: &Value) -> Result<&'a FnEntry, String> {
    let name = f["name"].as_str().unwrap();
    let ty = f["ty"].as_str();
    let imp = f["impl"].as_str().map(|s| s.replace(' ', ""));
    let tr = f["trait"].as_str();
    let file = f["file"].as_str();
    let mut c: Vec<&FnEntry> = ix
        .fns
        .iter()
        .filter(|e| {
            e.sig.ident == name
                && e.self_ty.as_deref() == ty
                && imp.as_ref().is_none_or(|i| &e.self_full == i)
                && tr.is_none_or(|t| e.trait_.as_deref() == Some(t))
        })
        .collect();
    if c.len() > 1 {
        if let Some(file) = file {
            let d: Vec<_> = c.iter().filter(|e| e.file == file).cloned().collect();
            if !d.is_empty() {
                c = d;
            }
        }
    }
    match c.len() {
        1 => Ok(c[0]),
        0 => Err(format!("function {name} not found")),
        n => Err(format!("{n} functions named {name}")),
    }
}

pub fn extract(ix: &Index, f: &Value, known: &[String], fmt: fn(&str) -> String) -> Value {
    // what the lowering cannot make sense of concerns this function only
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| extract_inner(ix, f, known, fmt)));
    match r {
        Ok(Ok(v)) => v,
        Ok(Err(e)) => json!({"ok": false, "error": e}),
        Err(e) => {
            let what = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            json!({"ok": false, "error": format!("not in the supported subset: {what}")})
        }
    }
}

fn is_fnmut(bounds: &syn::punctuated::Punctuated<syn::TypeParamBound, syn::Token![+]>) -> bool {
    bounds.iter().any(|b| {
        let s = b.to_token_stream().to_string();
        s.starts_with("FnMut") || s.starts_with("Fn ") || s.starts_with("Fn(") || s.starts_with("FnOnce")
    })
}

fn extract_inner(ix: &Index, f: &Value, known: &[String], fmt: fn(&str) -> String) -> Result<Value, String> {
    let entry = find(ix, f)?;
    let mut sig = entry.sig.clone();
    let mut block = entry.block.clone();
    let ty = f["ty"].as_str();
    let current = match ty {
        Some(t) => format!("{t}::{}", sig.ident),
        None => sig.ident.to_string(),
    };

    // generics
    let mut fn_types: BTreeMap<String, bool> = BTreeMap::new();
    for p in &sig.generics.params {
        if let GenericParam::Type(t) = p {
            if is_fnmut(&t.bounds) {
                fn_types.insert(t.ident.to_string(), t.bounds.to_token_stream().to_string().contains("& mut"));
            }
        }
    }
    if let Some(w) = &sig.generics.where_clause {
        for p in &w.predicates {
            if let syn::WherePredicate::Type(t) = p {
                if is_fnmut(&t.bounds) {
                    fn_types.insert(
                        t.bounded_ty.to_token_stream().to_string(),
                        t.bounds.to_token_stream().to_string().contains("& mut"),
                    );
                }
            }
        }
    }
    sig.generics.where_clause = None;
    sig.generics.params = sig
        .generics
        .params
        .into_iter()
        .filter(|p| !matches!(p, GenericParam::Type(_)))
        .collect();

    // inlining of helpers without contract
    let mut inl = Inliner {
        index: ix,
        known,
        self_ty: ty.map(String::from),
        current: current.clone(),
        depth: 0,
        counter: 0,
        inlined: vec![],
    };
    inl.visit_block_mut(&mut block);
    let inlined = inl.inlined.clone();

    // parameters
    let canon: Vec<String> = f["params"]
        .as_array()
        .map(|a| a.iter().map(|v| v.as_str().unwrap().to_string()).collect())
        .unwrap_or_default();
    let mut names = vec![];
    for a in &sig.inputs {
        if let FnArg::Typed(t) = a {
            match &*t.pat {
                Pat::Ident(p) => names.push(p.ident.to_string()),
                Pat::Wild(_) => names.push("_".into()),
                _ => return Err("pattern parameter".into()),
            }
        }
    }
    if !canon.is_empty() && canon.len() != names.len() {
        return Err(format!("{} parameters, contract expects {}", names.len(), canon.len()));
    }
    if !canon.is_empty() {
        let mut map = BTreeMap::new();
        let mut used = inline::Idents::default();
        used.visit_block(&block);
        for (c, n) in canon.iter().zip(&names) {
            let n = n.trim_start_matches("mut ");
            if c != n && n != "_" {
                map.insert(n.to_string(), c.clone());
                if used.0.contains(c) && !names.contains(c) {
                    map.insert(c.clone(), format!("{c}_l"));
                }
            }
        }
        Rename { map: &map }.visit_block_mut(&mut block);
    }
    let final_names: Vec<String> = if canon.is_empty() { names.clone() } else { canon.clone() };

    let mut lower = Lower {
        k: 0,
        t: 0,
        closures: 0,
        loops: vec![],
        point_vars: BTreeSet::new(),
        fn_params: BTreeSet::new(),
        fn_params_by_value: BTreeSet::new(),
        err: None,
        loop_stack: vec![],
        unit_ret: matches!(sig.output, syn::ReturnType::Default),
    };
    let mut head: Vec<Stmt> = vec![];
    let mut i = 0;
    for a in sig.inputs.iter_mut() {
        match a {
            FnArg::Receiver(r) => {
                r.attrs.clear();
                if r.mutability.is_some() && r.reference.is_none() {
                    return Err("mut self".into());
                }
            }
            FnArg::Typed(t) => {
                t.attrs.clear();
                let n = id(&final_names[i]);
                let mutable = matches!(&*t.pat, Pat::Ident(p) if p.mutability.is_some());
                *t.pat = parse_quote!(#n);
                let tt = t.ty.to_token_stream().to_string();
                let bare = tt.trim_start_matches('&').trim_start_matches(" mut ").trim().to_string();
                let bare = bare.trim_start_matches("mut ").trim().to_string();
                if let Some(m) = fn_types.get(&bare) {
                    lower.fn_params.insert(final_names[i].clone());
                    if tt == bare {
                        lower.fn_params_by_value.insert(final_names[i].clone());
                    }
                    *t.ty = if *m { parse_quote!(&mut VxFnMutMut) } else { parse_quote!(&mut VxFnMut) };
                } else if mutable {
                    head.push(parse_quote!(let mut #n = #n;));
                }
                let s = bare.replace(' ', "");
                if s.starts_with("Point<") || s.starts_with("Point2<") || s.starts_with("Point3<") {
                    lower.point_vars.insert(final_names[i].clone());
                }
                i += 1;
            }
        }
    }

    // module prefixes of types: `crate::ops::RangeInclusive` -> `RangeInclusive`
    DropPrefix.visit_signature_mut(&mut sig);
    DropPrefix.visit_block_mut(&mut block);
    // body
    let knownset: BTreeSet<String> = known.iter().map(|k| k.rsplit("::").next().unwrap().to_string()).collect();
    DropTurbofish { known: &knownset }.visit_block_mut(&mut block);
    lower.visit_block_mut(&mut block);
    if let Some(e) = lower.err {
        return Err(format!("not in the supported subset: {e}"));
    }
    let mut stmts = head;
    stmts.push(mark("start"));
    let mut body = block.stmts;
    let unit = lower.unit_ret;
    let tail = match body.last() {
        Some(Stmt::Expr(_, None)) => {
            let Some(Stmt::Expr(e, None)) = body.pop() else { unreachable!() };
            Some(e)
        }
        Some(Stmt::Macro(_)) | None => None,
        _ => None,
    };
    stmts.extend(body);
    match tail {
        Some(e) if unit => {
            stmts.push(Stmt::Expr(e, Some(Default::default())));
            stmts.push(mark("end"));
        }
        Some(e) => {
            stmts.push(parse_quote!(let vx_ret = #e;));
            stmts.push(mark("end"));
            stmts.push(Stmt::Expr(parse_quote!(vx_ret), None));
        }
        None => {
            if unit {
                stmts.push(mark("end"));
            }
        }
    }
    // locals
    let mut bound = inline::BoundOrder::default();
    let mut blk: Block = parse_quote!({ #(#stmts)* });
    FloatLits.visit_block_mut(&mut blk);
    bound.visit_block(&blk);

    let ident = &sig.ident;
    let gen = &sig.generics;
    let inputs = &sig.inputs;
    let out = &sig.output;
    let text = quote!(fn #ident #gen (#inputs) #out #blk).to_string();
    let text = fmt(&text);
    Ok(json!({
        "ok": true,
        "file": entry.file,
        "text": text,
        "loops": lower.loops,
        "closures": lower.closures,
        "locals": bound.0,
        "params": final_names,
        "inlined": inlined,
    }))
}
