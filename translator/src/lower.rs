//! Lowers a Rust function body into the dialect Verus accepts.
//!
//! Every rule is mechanical and local; the rules are listed (R1..) in
//! /verif/DESIGN.md. A construct no rule covers is recorded in `errors`: the
//! function is then reported as untranslatable, never silently approximated.
use crate::spec::FnSpec;
use proc_macro2::{Span, TokenStream};
use quote::{format_ident, quote};
use std::collections::{HashMap, HashSet};
use syn::fold::{self, Fold};
use syn::*;

pub struct Lower<'a> {
    pub spec: &'a FnSpec,
    pub prefix: String,
    pub n_loops: usize,
    pub n_tuple_matches: usize,
    pub raws: Vec<String>,
    pub errors: Vec<String>,
    pub ptr_fields: &'a HashSet<String>,
    pub strip_args: &'a HashSet<String>,
    pub ptr_params: HashSet<String>,
    pub ptr_targets: HashSet<String>,
    pub ref_params: HashSet<String>,
    pub dropped_generics: HashSet<String>,
    pub slice_generics: HashMap<String, Type>,
    pub aliases: HashSet<String>,
    pub places: HashMap<String, (Expr, Expr, Option<Expr>)>, // var -> (base, index, outer index)
    pub in_unsafe: usize,
    pub nested: Vec<ItemFn>,
    pub nested_names: HashMap<String, String>,
    pub self_item: Option<Type>,
    pub fn_calls: Vec<String>,
    pub free_fn_prefix: String,
    pub call_counts: HashMap<String, usize>,
    pub let_counts: HashMap<String, usize>,
    pub hint: Option<Type>,
}

enum Src {
    Slice { base: Expr, lo: Option<Expr>, hi: Option<Expr> },
    SliceMut(Expr),
    Into(Expr),
    MapInto(Expr),
    IntoCall(Expr),
    Chunks(Expr, Expr),
    Windows(Box<Src>),
    Range(Expr, Expr, bool),
}
enum Ad {
    Map(ExprClosure),
    Filter(ExprClosure),
    FlatMap(ExprClosure),
    Enumerate,
    Rev,
    Chain(Box<Pipe>),
    Copied,
}
struct Pipe { src: Src, ads: Vec<Ad> }

enum Consumer {
    For { pat: Pat, body: Block },
    Collect,
    Partition(ExprClosure),
    Position(ExprClosure),
    MinByKey(ExprClosure),
    AnyAll(ExprClosure, bool),
    Sum,
    Extend(Expr),
}

fn strip(e: &Expr) -> &Expr {
    match e { Expr::Paren(p) => strip(&p.expr), Expr::Group(p) => strip(&p.expr), _ => e }
}
pub fn is_place(e: &Expr) -> bool {
    match strip(e) {
        Expr::Path(_) => true,
        Expr::Field(f) => is_place(&f.base),
        Expr::Unary(u) => matches!(u.op, UnOp::Deref(_)) && is_place(&u.expr),
        Expr::Index(i) => is_place(&i.expr) && is_simple(&i.index),
        _ => false,
    }
}
fn is_full_index(e: &Expr) -> bool {
    match strip(e) {
        Expr::Index(i) => matches!(strip(&i.index), Expr::Range(r) if r.start.is_none() && r.end.is_none()),
        _ => false,
    }
}
fn is_simple(e: &Expr) -> bool {
    matches!(strip(e), Expr::Path(_) | Expr::Lit(_)) || matches!(strip(e), Expr::Field(f) if is_simple(&f.base))
}
fn path_ident(e: &Expr) -> Option<String> {
    match strip(e) { Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()), _ => None }
}
fn pat_has_ref(p: &Pat) -> bool { quote!(#p).to_string().split_whitespace().any(|t| t == "ref") }
fn strip_ref_in_pat(p: Pat) -> Pat {
    struct S;
    impl Fold for S {
        fn fold_pat_ident(&mut self, mut p: PatIdent) -> PatIdent { p.by_ref = None; p.mutability = None; p }
    }
    S.fold_pat(p)
}
fn pe(ts: TokenStream) -> Expr { parse2::<Expr>(ts.clone()).unwrap_or_else(|e| panic!("internal: {} in {}", e, ts)) }

impl<'a> Lower<'a> {
    fn err(&mut self, s: impl Into<String>) { let s = s.into(); self.errors.push(s); }

    fn raw(&mut self, text: String) -> Stmt {
        let id = format_ident!("__vraw_{}", self.raws.len());
        self.raws.push(text);
        Stmt::Expr(pe(quote!(#id())), Some(Default::default()))
    }
    fn anchor(&mut self, name: &str) -> Vec<Stmt> {
        match self.spec.at.get(name) {
            Some(t) => {
                self.spec.used.borrow_mut().insert(name.to_string());
                let t = t.clone();
                vec![self.raw(t)]
            }
            None => vec![],
        }
    }

    // ---- iterator pipelines -------------------------------------------------
    fn parse_pipe(&mut self, e: &Expr) -> Option<Pipe> {
        match strip(e) {
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let closure = || match m.args.first().map(strip) { Some(Expr::Closure(c)) => Some(c.clone()), _ => None };
                match (name.as_str(), m.args.len()) {
                    ("iter", 0) => Some(Pipe { src: self.slice_src(&m.receiver), ads: vec![] }),
                    ("iter_mut", 0) => Some(Pipe { src: Src::SliceMut((*m.receiver).clone()), ads: vec![] }),
                    ("into_iter", 0) => match self.parse_pipe(&m.receiver) {
                        Some(p) => Some(p),
                        None => Some(Pipe { src: Src::Into((*m.receiver).clone()), ads: vec![] }),
                    },
                    ("chunks", 1) => Some(Pipe { src: Src::Chunks((*m.receiver).clone(), m.args[0].clone()), ads: vec![] }),
                    ("tuple_windows", 0) => {
                        let p = self.parse_pipe(&m.receiver)?;
                        if !p.ads.is_empty() { return None; }
                        let src = match p.src {
                            Src::Into(x) => self.slice_src(&x),
                            s @ Src::Slice { .. } => s,
                            _ => return None,
                        };
                        Some(Pipe { src: Src::Windows(Box::new(src)), ads: vec![] })
                    }
                    ("map", 1) | ("filter", 1) | ("flat_map", 1) | ("filter_map", 1) => {
                        let c = closure()?;
                        let mut p = self.parse_pipe(&m.receiver)?;
                        p.ads.push(match name.as_str() { "map" => Ad::Map(c), "filter" => Ad::Filter(c), _ => Ad::FlatMap(c) });
                        Some(p)
                    }
                    ("enumerate", 0) => { let mut p = self.parse_pipe(&m.receiver)?; p.ads.push(Ad::Enumerate); Some(p) }
                    ("rev", 0) => { let mut p = self.parse_pipe(&m.receiver)?; p.ads.push(Ad::Rev); Some(p) }
                    ("cloned", 0) | ("copied", 0) => { let mut p = self.parse_pipe(&m.receiver)?; p.ads.push(Ad::Copied); Some(p) }
                    ("chain", 1) => {
                        let mut p = self.parse_pipe(&m.receiver)?;
                        let q = self.parse_pipe(&m.args[0])?;
                        p.ads.push(Ad::Chain(Box::new(q)));
                        Some(p)
                    }
                    _ => None,
                }
            }
            Expr::Range(r) => match (&r.start, &r.end) {
                (Some(a), Some(b)) => Some(Pipe { src: Src::Range((**a).clone(), (**b).clone(), matches!(r.limits, RangeLimits::Closed(_))), ads: vec![] }),
                _ => None,
            },
            _ => None,
        }
    }

    fn slice_src(&mut self, e: &Expr) -> Src {
        match strip(e) {
            Expr::Reference(r) => self.slice_src(&r.expr),
            Expr::Index(i) => match strip(&i.index) {
                Expr::Range(r) if matches!(r.limits, RangeLimits::HalfOpen(_)) => {
                    // nested ranges are not combined
                    Src::Slice { base: (*i.expr).clone(), lo: r.start.as_deref().cloned(), hi: r.end.as_deref().cloned() }
                }
                _ => Src::Slice { base: e.clone(), lo: None, hi: None },
            },
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) && self.in_unsafe == 0 && matches!(strip(&u.expr), Expr::Path(_) | Expr::Field(_)) => Src::Slice { base: (*u.expr).clone(), lo: None, hi: None },
            x => Src::Slice { base: x.clone(), lo: None, hi: None },
        }
    }

    /// Binds `pat` to `val` (R4: reference patterns are bound without `&`).
    fn bind(&mut self, pat: &Pat, val: Expr, out: &mut Vec<Stmt>) {
        match pat {
            Pat::Wild(_) => {}
            Pat::Type(t) => self.bind(&t.pat, val, out),
            Pat::Paren(p) => self.bind(&p.pat, val, out),
            Pat::Reference(r) => {
                let v = match strip(&val) {
                    Expr::Reference(x) => (*x.expr).clone(),
                    x => { let x = x.clone(); pe(quote!(*#x)) }
                };
                self.bind(&r.pat, v, out)
            }
            Pat::Tuple(t) => match strip(&val).clone() {
                Expr::Tuple(v) if v.elems.len() == t.elems.len() => {
                    for (p, x) in t.elems.iter().zip(v.elems.iter()) { self.bind(p, x.clone(), out); }
                }
                x => out.push(Stmt::Local(Local {
                    attrs: vec![], let_token: Default::default(), pat: pat.clone(),
                    init: Some(LocalInit { eq_token: Default::default(), expr: Box::new(x), diverge: None }), semi_token: Default::default(),
                })),
            },
            Pat::Ident(i) => {
                let id = &i.ident;
                // remember where the element lives, for `v as *const T`
                let inner = match strip(&val) { Expr::Reference(r) => Some(strip(&r.expr).clone()), _ => None };
                if let Some(Expr::Index(ix)) = inner {
                    let outer = self.outer_index(&ix.expr);
                    self.places.insert(id.to_string(), ((*ix.expr).clone(), (*ix.index).clone(), outer));
                }
                // `ref mut x` on a mutable reference: x is used through one more dereference only
                let is_mut_ref = matches!(strip(&val), Expr::Reference(r) if r.mutability.is_some());
                let v = if i.by_ref.is_some() && !(i.mutability.is_some() && is_mut_ref) { quote!(&#val) } else { quote!(#val) };
                let m = if i.by_ref.is_none() { i.mutability.clone() } else { None };
                let m = if m.is_some() && matches!(strip(&val), Expr::Reference(_)) { None } else { m };
                out.push(parse2(quote!(let #m #id = #v;)).unwrap());
            }
            other => {
                out.push(Stmt::Local(Local {
                    attrs: vec![], let_token: Default::default(), pat: other.clone(),
                    init: Some(LocalInit { eq_token: Default::default(), expr: Box::new(val), diverge: None }), semi_token: Default::default(),
                }));
            }
        }
    }
    fn outer_index(&self, e: &Expr) -> Option<Expr> {
        match strip(e) {
            Expr::Field(f) => self.outer_index(&f.base),
            Expr::Path(_) => path_ident(e).and_then(|n| self.places.get(&n).map(|p| p.1.clone())),
            _ => None,
        }
    }

    fn closure_body(&mut self, c: &ExprClosure) -> Expr {
        let body = (*c.body).clone();
        let s = quote!(#body).to_string();
        if s.split(|ch: char| !ch.is_alphanumeric() && ch != '_').any(|t| t == "return") || s.contains("?") {
            self.err("closure with return or ?");
        }
        self.fold_expr(body)
    }

    fn lower_pipe(&mut self, p: Pipe, consumer: Consumer) -> Expr {
        let hint = self.hint.take();
        self.n_loops += 1;
        let n = self.n_loops;
        let k = format_ident!("__k{}", n);
        let i = format_ident!("__i{}", n);
        let nn = format_ident!("__n{}", n);
        let c = format_ident!("__c{}", n);
        let mut pre: Vec<Stmt> = vec![];
        let mut auto_inv: Vec<String> = vec![format!("{} <= {}", k, nn)];
        let override_kind = self.spec.iters.get(&n).cloned();

        let mut p = p;
        if let Some(kind) = &override_kind {
            p.src = match (p.src, kind.as_str()) {
                (Src::Into(e), "ref") => self.slice_src(&e),
                (Src::Into(e), "map") => Src::MapInto(e),
                (Src::Into(e), "call") => Src::IntoCall(e),
                (s, _) => s,
            };
        }
        // rev directly on the source
        let mut rev = false;
        if matches!(p.ads.first(), Some(Ad::Rev)) { rev = true; p.ads.remove(0); }
        if p.ads.iter().any(|a| matches!(a, Ad::Rev)) { self.err("rev() not directly on the source"); }
        // chain directly on the source
        let mut chain = None;
        if matches!(p.ads.first(), Some(Ad::Chain(_))) {
            if let Ad::Chain(q) = p.ads.remove(0) { chain = Some(*q); }
        }
        if p.ads.iter().any(|a| matches!(a, Ad::Chain(_))) { self.err("chain() not directly on the source"); }

        let idx: Expr = if rev { pe(quote!(#nn - 1 - #i)) } else { pe(quote!(#i)) };
        let mut move_item: Option<Expr> = None;
        // hoist a base that is not a place
        let mut item: Expr = match p.src {
            Src::Slice { base, lo, hi } => {
                let base = self.hoist(base, n, "", &mut pre);
                let lo = lo.map(|e| self.fold_expr(e));
                let hi = hi.map(|e| self.fold_expr(e));
                if let Some(q) = chain {
                    let b2 = match q.src { Src::Slice { base, lo: None, hi: None } if q.ads.is_empty() => base, _ => { self.err("unsupported chain"); pe(quote!(())) } };
                    let b2 = self.hoist(b2, n, "b", &mut pre);
                    let na = format_ident!("__n{}a", n);
                    pre.push(parse2(quote!(let #na: usize = #base.len();)).unwrap());
                    pre.push(parse2(quote!(let #nn: usize = #na + #b2.len();)).unwrap());
                    pe(quote!(if #i < #na { &#base[#i] } else { &#b2[#i - #na] }))
                } else {
                    match (lo, hi) {
                        (None, None) => { pre.push(parse2(quote!(let #nn: usize = #base.len();)).unwrap()); pe(quote!(&#base[#idx])) }
                        (Some(lo), None) => {
                            pre.push(parse2(quote!(let #nn: usize = crate::prelude::slice_len(#lo, #base.len(), #base.len());)).unwrap());
                            pe(quote!(&#base[#lo + #idx]))
                        }
                        (None, Some(hi)) => {
                            pre.push(parse2(quote!(let #nn: usize = crate::prelude::slice_len(0, #hi, #base.len());)).unwrap());
                            pe(quote!(&#base[#idx]))
                        }
                        (Some(lo), Some(hi)) => {
                            pre.push(parse2(quote!(let #nn: usize = crate::prelude::slice_len(#lo, #hi, #base.len());)).unwrap());
                            pe(quote!(&#base[#lo + #idx]))
                        }
                    }
                }
            }
            Src::Windows(s) => match *s {
                Src::Slice { base, lo: None, hi: None } => {
                    let base = self.hoist(base, n, "", &mut pre);
                    pre.push(parse2(quote!(let #nn: usize = if #base.len() == 0 { 0 } else { #base.len() - 1 };)).unwrap());
                    pe(quote!((&#base[#idx], &#base[#idx + 1])))
                }
                _ => { self.err("tuple_windows on a range"); pe(quote!(())) }
            },
            Src::SliceMut(e) => {
                if !is_place(&e) { self.err("iter_mut on a temporary"); }
                let base = self.fold_expr(e);
                if let Some(q) = chain {
                    let b2 = match q.src { Src::SliceMut(b) if q.ads.is_empty() => self.fold_expr(b), _ => { self.err("unsupported chain"); pe(quote!(())) } };
                    let na = format_ident!("__n{}a", n);
                    pre.push(parse2(quote!(let #na: usize = #base.len();)).unwrap());
                    pre.push(parse2(quote!(let #nn: usize = crate::prelude::chain_len(#na, #b2.len());)).unwrap());
                    let bs = quote!(#base).to_string();
                    let b2s = quote!(#b2).to_string();
                    auto_inv.push(format!("{} == {}.len()", na, bs));
                    auto_inv.push(format!("{} == {} + {}.len()", nn, na, b2s));
                    // remember the chained element's address
                    if let Consumer::For { pat, .. } = &consumer {
                        if let Pat::Ident(id) = pat {
                            let outer = self.outer_index(&base);
                            self.places.insert(id.ident.to_string(), (base.clone(), pe(quote!(#i)), outer));
                        }
                    }
                    pe(quote!(if #i < #na { &mut #base[#i] } else { &mut #b2[#i - #na] }))
                } else {
                    pre.push(parse2(quote!(let #nn: usize = #base.len();)).unwrap());
                    auto_inv.push(format!("{} == {}.len()", nn, quote!(#base)));
                    pe(quote!(&mut #base[#i]))
                }
            }
            Src::Into(e) | Src::MapInto(e) | Src::IntoCall(e) if rev || chain.is_some() => {
                let _ = e; self.err("rev/chain on into_iter"); pe(quote!(()))
            }
            Src::Into(e) => {
                let v = format_ident!("__v{}", n);
                let e = self.fold_expr(e);
                pre.push(parse2(quote!(let mut #v = #e;)).unwrap());
                pre.push(parse2(quote!(let #nn: usize = #v.len();)).unwrap());
                let s = self.raw(format!("let ghost __s{} = {}@;", n, v));
                pre.push(s);
                auto_inv.push(format!("{}@ =~= __s{}.subrange({} as int, {} as int)", v, n, k, nn));
                let it = format_ident!("__x{}", n);
                move_item = Some(pe(quote!(#v.remove(0))));
                pe(quote!(#it))
            }
            s @ Src::MapInto(_) | s @ Src::IntoCall(_) => {
                let v = format_ident!("__v{}", n);
                let f = format_ident!("{}", if matches!(s, Src::MapInto(_)) { "into_entries" } else { "into_iter" });
                let e = match s { Src::MapInto(e) | Src::IntoCall(e) => self.fold_expr(e), _ => unreachable!() };
                pre.push(parse2(quote!(let mut #v = #e.#f();)).unwrap());
                pre.push(parse2(quote!(let #nn: usize = #v.len();)).unwrap());
                let s = self.raw(format!("let ghost __s{} = {}@;", n, v));
                pre.push(s);
                auto_inv.push(format!("{}@ =~= __s{}.subrange({} as int, {} as int)", v, n, k, nn));
                let it = format_ident!("__x{}", n);
                move_item = Some(pe(quote!(#v.remove(0))));
                pe(quote!(#it))
            }
            Src::Chunks(e, sz) => {
                if rev { self.err("rev on chunks"); }
                let src = self.slice_src(&e);
                let sz = self.fold_expr(sz);
                let b = format_ident!("__e{}", n);
                match src {
                    Src::Slice { base, lo, hi } => {
                        let base = self.fold_expr(base);
                        let lo = lo.map(|e| self.fold_expr(e));
                        let hi = hi.map(|e| self.fold_expr(e));
                        pre.push(parse2(quote!(let #b = &#base[#lo .. #hi];)).unwrap());
                    }
                    _ => self.err("chunks source"),
                }
                pre.push(parse2(quote!(let #nn: usize = crate::prelude::n_chunks(#b, #sz);)).unwrap());
                pe(quote!(crate::prelude::chunk(#b, #sz, #i)))
            }
            Src::Range(a, b, incl) => {
                let a = self.fold_expr(a);
                let b = self.fold_expr(b);
                if incl { self.err("inclusive range"); }
                pre.push(parse2(quote!(let #nn: usize = crate::prelude::range_len(#a, #b);)).unwrap());
                let is_zero = matches!(strip(&a), Expr::Lit(l) if quote!(#l).to_string() == "0");
                if is_zero { pe(quote!(#idx)) } else { pe(quote!(#a + #idx)) }
            }
        };

        if self.errors.len() > 20 { return pe(quote!(())); }

        // collector
        let result: Option<Expr> = match &consumer {
            Consumer::Collect => {
                let t = self.spec.ctys.get(&n).and_then(|t| parse_str::<Type>(t).ok()).or(hint);
                match t {
                    Some(t) => pre.push(parse2(quote!(let mut #c: #t = Vec::new();)).unwrap()),
                    None => pre.push(parse2(quote!(let mut #c = Vec::new();)).unwrap()),
                }
                Some(pe(quote!(#c)))
            }
            Consumer::Partition(_) => {
                let ca = format_ident!("__c{}a", n); let cb = format_ident!("__c{}b", n);
                pre.push(parse2(quote!(let mut #ca = Vec::new();)).unwrap());
                pre.push(parse2(quote!(let mut #cb = Vec::new();)).unwrap());
                Some(pe(quote!((#ca, #cb))))
            }
            Consumer::Position(_) => { pre.push(parse2(quote!(let mut #c: Option<usize> = None;)).unwrap()); Some(pe(quote!(#c))) }
            Consumer::AnyAll(_, any) => { let init = !*any; pre.push(parse2(quote!(let mut #c: bool = #init;)).unwrap()); Some(pe(quote!(#c))) }
            Consumer::MinByKey(_) => {
                let b = format_ident!("__b{}", n);
                pre.push(parse2(quote!(let mut #b: usize = 0;)).unwrap());
                auto_inv.push(format!("{} > 0 ==> {} < {}", k, b, k));
                auto_inv.push(format!("{} == 0 ==> {} == 0", k, b));
                None
            }
            Consumer::Sum => { pre.push(parse2(quote!(let mut #c = 0;)).unwrap()); Some(pe(quote!(#c))) }
            Consumer::Extend(_) | Consumer::For { .. } => None,
        };

        // body
        let is_mut_chain = matches!(&item, Expr::If(_));
        let mut body: Vec<Stmt> = vec![];
        body.push(parse2(quote!(let #i: usize = #k;)).unwrap());
        body.push(parse2(quote!(#k = #k + 1;)).unwrap());
        if let Some(m) = move_item {
            let it = format_ident!("__x{}", n);
            body.push(parse2(quote!(let #it = #m;)).unwrap());
        }
        let _ = is_mut_chain;
        let mut result = result;
        if let Consumer::MinByKey(cl) = &consumer {
            if !p.ads.iter().all(|a| matches!(a, Ad::Enumerate)) { self.err("min_by_key after an adapter"); }
            for _ in &p.ads { let it = item.clone(); item = pe(quote!((#i, #it))); }
            let b = format_ident!("__b{}", n);
            let best = subst_ident(item.clone(), &i.to_string(), &b);
            let cl = cl.clone();
            let mut s1 = vec![]; let mut s2 = vec![];
            let it1 = item.clone();
            self.bind(&cl.inputs[0], pe(quote!(&#it1)), &mut s1);
            let b1 = self.closure_body(&cl);
            let best1 = best.clone();
            self.bind(&cl.inputs[0], pe(quote!(&#best1)), &mut s2);
            let b2 = self.closure_body(&cl);
            body.extend(self.anchor(&format!("loop{}.start", n)));
            body.push(parse2(quote!(if #i > 0 && ({ #(#s1)* #b1 }) < ({ #(#s2)* #b2 }) { #b = #i; })).unwrap());
            result = Some(pe(quote!(if #nn == 0 { None } else { Some(#best) })));
        } else {
            let inner = self.apply(item, &p.ads, 0, &consumer, n);
            body.extend(inner);
        }
        body.extend(self.anchor(&format!("loop{}.end", n)));

        let mut except = String::new();
        match &consumer {
            Consumer::Position(_) => except.push_str(&format!("            {} is None,\n", c)),
            Consumer::AnyAll(_, any) => except.push_str(&format!("            {} == {},\n", c, !*any)),
            _ => {}
        }
        let mut head = String::new();
        for a in &auto_inv { head.push_str(&format!("            {},\n", a)); }
        let t = self.spec.loops.get(&n).cloned().unwrap_or_default();
        if self.spec.loops.contains_key(&n) { self.spec.used.borrow_mut().insert(format!("loop {}", n)); }
        let inv = compose_inv(&except, &head, &t, &format!("{} - {}", nn, k));
        let inv_id = format_ident!("__vinv_{}", self.raws.len());
        self.raws.push(inv);
        pre.push(parse2(quote!(let mut #k: usize = 0;)).unwrap());
        pre.extend(self.anchor(&format!("loop{}.before", n)));
        let after = self.anchor(&format!("loop{}.after", n));
        pe(quote!({ #(#pre)* while #k < #nn { #inv_id(); #(#body)* } #(#after)* #result }))
    }

    fn hoist(&mut self, base: Expr, n: usize, suffix: &str, pre: &mut Vec<Stmt>) -> Expr {
        let place = is_place(&base);
        let base = self.fold_expr(base);
        if place && is_place(&base) { return base; }
        let b = format_ident!("__e{}{}", n, suffix);
        if place { pre.push(parse2(quote!(let #b = &#base;)).unwrap()); }
        else { pre.push(parse2(quote!(let #b = #base;)).unwrap()); }
        pe(quote!(#b))
    }

    fn apply(&mut self, item: Expr, ads: &[Ad], at: usize, consumer: &Consumer, n: usize) -> Vec<Stmt> {
        let i = format_ident!("__i{}", n);
        let mut out = vec![];
        if at == ads.len() {
            let c = format_ident!("__c{}", n);
            match consumer {
                Consumer::For { pat, body } => {
                    self.bind(pat, item, &mut out);
                    out.extend(self.anchor(&format!("loop{}.start", n)));
                    let b = self.fold_block(body.clone());
                    let stmts = b.stmts;
                    // the body's value is (); make the last expression a statement
                    let m = stmts.len();
                    for (j, s) in stmts.into_iter().enumerate() {
                        match s {
                            Stmt::Expr(e, None) if j + 1 == m => {
                                if matches!(e, Expr::If(_) | Expr::Match(_) | Expr::Block(_) | Expr::While(_) | Expr::Loop(_)) { out.push(Stmt::Expr(e, None)) }
                                else { out.push(Stmt::Expr(e, Some(Default::default()))) }
                            }
                            s => out.push(s),
                        }
                    }
                }
                Consumer::Collect => {
                    let x = format_ident!("__y{}", n);
                    out.push(parse2(quote!(let #x = #item;)).unwrap());
                    out.extend(self.anchor(&format!("loop{}.start", n)));
                    out.push(parse2(quote!(#c.push(#x);)).unwrap());
                }
                Consumer::Extend(recv) => {
                    let x = format_ident!("__y{}", n);
                    out.push(parse2(quote!(let #x = #item;)).unwrap());
                    out.extend(self.anchor(&format!("loop{}.start", n)));
                    let r = recv.clone();
                    out.push(parse2(quote!(#r.push(#x);)).unwrap());
                }
                Consumer::Sum => {
                    out.extend(self.anchor(&format!("loop{}.start", n)));
                    out.push(parse2(quote!(#c = #c + #item;)).unwrap());
                }
                Consumer::Partition(cl) => {
                    let ca = format_ident!("__c{}a", n); let cb = format_ident!("__c{}b", n);
                    let x = format_ident!("__y{}", n);
                    let mut s = vec![];
                    self.bind(&cl.inputs[0], pe(quote!(&#x)), &mut s);
                    let b = self.closure_body(cl);
                    out.push(parse2(quote!(let #x = #item;)).unwrap());
                    out.extend(self.anchor(&format!("loop{}.start", n)));
                    out.push(parse2(quote!(if ({ #(#s)* #b }) { #ca.push(#x); } else { #cb.push(#x); })).unwrap());
                }
                Consumer::Position(cl) => {
                    let mut s = vec![];
                    self.bind(&cl.inputs[0], item, &mut s);
                    let b = self.closure_body(cl);
                    out.extend(self.anchor(&format!("loop{}.start", n)));
                    out.push(parse2(quote!(if ({ #(#s)* #b }) { #c = Some(#i); break; })).unwrap());
                }
                Consumer::AnyAll(cl, any) => {
                    let mut s = vec![];
                    self.bind(&cl.inputs[0], item, &mut s);
                    let b = self.closure_body(cl);
                    out.extend(self.anchor(&format!("loop{}.start", n)));
                    if *any { out.push(parse2(quote!(if ({ #(#s)* #b }) { #c = true; break; })).unwrap()); }
                    else { out.push(parse2(quote!(if !({ #(#s)* #b }) { #c = false; break; })).unwrap()); }
                }
                Consumer::MinByKey(_) => unreachable!(),
            }
            return out;
        }
        match &ads[at] {
            Ad::Map(cl) => {
                let cl = cl.clone();
                let x = format_ident!("__m{}_{}", n, at);
                let mut s = vec![];
                self.bind(&cl.inputs[0], item, &mut s);
                let b = self.closure_body(&cl);
                out.push(parse2(quote!(let #x = { #(#s)* #b };)).unwrap());
                out.extend(self.apply(pe(quote!(#x)), ads, at + 1, consumer, n));
            }
            Ad::Filter(cl) => {
                let cl = cl.clone();
                let x = format_ident!("__f{}_{}", n, at);
                let simple = is_simple(&item) || matches!(strip(&item), Expr::Reference(_));
                let item = if simple { item } else { out.push(parse2(quote!(let #x = #item;)).unwrap()); pe(quote!(#x)) };
                let mut s = vec![];
                let it = item.clone();
                self.bind(&cl.inputs[0], pe(quote!(&#it)), &mut s);
                let b = self.closure_body(&cl);
                let rest = self.apply(item, ads, at + 1, consumer, n);
                out.push(parse2(quote!(if ({ #(#s)* #b }) { #(#rest)* })).unwrap());
            }
            Ad::FlatMap(cl) => {
                let cl = cl.clone();
                let x = format_ident!("__o{}_{}", n, at);
                let mut s = vec![];
                self.bind(&cl.inputs[0], item, &mut s);
                let b = self.closure_body(&cl);
                let rest = self.apply(pe(quote!(#x)), ads, at + 1, consumer, n);
                let none = self.anchor(&format!("loop{}.none", n));
                out.push(Stmt::Expr(pe(quote!(match ({ #(#s)* #b }) { Some(#x) => { #(#rest)* } None => { #(#none)* } })), None));
            }
            Ad::Enumerate => {
                if at != 0 { self.err("enumerate after an adapter"); }
                out.extend(self.apply(pe(quote!((#i, #item))), ads, at + 1, consumer, n));
            }
            Ad::Copied => {
                out.extend(self.apply(pe(quote!(*#item)), ads, at + 1, consumer, n));
            }
            Ad::Rev | Ad::Chain(_) => self.err("rev/chain in the middle"),
        }
        out
    }

    // ---- pointers -----------------------------------------------------------
    fn deref_ptr(&mut self, p: Expr) -> Expr {
        // p is already folded
        match &self.spec.arena {
            Some(a) if a.starts_with("heap") => {
                // %arena heap FIELD:TYPE ...: what the pointers in each field point to
                let f = Self::field_name(&p).unwrap_or_default();
                match a.split_whitespace().skip(1).filter_map(|w| w.split_once(':')).find(|(n, _)| *n == f) {
                    Some((_, ty)) => { let ty: Type = parse_str(ty).unwrap(); pe(quote!((*crate::prelude::heap_ref::<#ty>(#p)))) }
                    None => { self.err("raw pointer dereference: unknown target type"); p }
                }
            }
            Some(a) => { let a: Expr = parse_str(a).unwrap(); pe(quote!(#a[(#p).ix()])) }
            None => { self.err("raw pointer dereference without an arena"); p }
        }
    }
    fn is_raw_ty(t: &Type) -> bool { matches!(t, Type::Ptr(_)) }

    fn ptr_of(&mut self, e: &Expr) -> Option<Expr> {
        match strip(e) {
            Expr::Reference(r) => match strip(&r.expr) {
                Expr::Index(ix) if !matches!(strip(&ix.index), Expr::Range(_)) => {
                    let i = self.fold_expr((*ix.index).clone());
                    let b = self.fold_expr((*ix.expr).clone());
                    Some(pe(quote!(crate::prelude::Ptr::at_of(#i, #b.len()))))
                }
                _ => None,
            },
            Expr::Path(_) => {
                let n = path_ident(e)?;
                let (_, idx, outer) = self.places.get(&n)?.clone();
                Some(match outer { Some(o) => pe(quote!(crate::prelude::Ptr::at2(#o, #idx))), None => pe(quote!(crate::prelude::Ptr::at(#idx))) })
            }
            _ => None,
        }
    }
    fn field_name(e: &Expr) -> Option<String> {
        match strip(e) {
            Expr::Field(f) => match &f.member { Member::Named(i) => Some(i.to_string()), _ => None },
            Expr::Index(i) => Self::field_name(&i.expr),
            _ => None,
        }
    }
    fn is_ptr_expr(&self, e: &Expr) -> bool {
        match strip(e) {
            Expr::Path(_) => path_ident(e).map_or(false, |n| self.ptr_params.contains(&n)),
            Expr::Field(_) => Self::field_name(e).map_or(false, |n| self.ptr_fields.contains(&n)),
            Expr::Cast(c) => Self::is_raw_ty(&c.ty),
            _ => false,
        }
    }

    fn opaque(&self) -> Expr { pe(quote!(crate::prelude::opaque_string())) }

    fn lower_result_closure(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let c = match m.args.last().map(strip) { Some(Expr::Closure(c)) => c.clone(), _ => return None };
        let opt = self.spec.opts.contains(&format!("option_{}", m.method));
        let recv = self.fold_expr((*m.receiver).clone());
        let mut s = vec![];
        let x = format_ident!("__r");
        if let Some(p) = c.inputs.first() { self.bind(p, pe(quote!(#x)), &mut s); }
        let b = self.closure_body(&c);
        Some(match (m.method.to_string().as_str(), opt) {
            ("map", false) => pe(quote!(match #recv { Ok(#x) => Ok({ #(#s)* #b }), Err(__e) => Err(__e) })),
            ("and_then", false) => pe(quote!(match #recv { Ok(#x) => { #(#s)* #b }, Err(__e) => Err(__e) })),
            ("map_err", _) => pe(quote!(match #recv { Ok(__v) => Ok(__v), Err(#x) => Err({ #(#s)* #b }) })),
            ("map", true) => pe(quote!(match #recv { Some(#x) => Some({ #(#s)* #b }), None => None })),
            ("and_then", true) => pe(quote!(match #recv { Some(#x) => { #(#s)* #b }, None => None })),
            ("unwrap_or_else", _) => pe(quote!(match #recv { Some(__v) => __v, None => { #b } })),
            _ => return None,
        })
    }

    fn lower_entry_match(&mut self, m: &ExprMatch) -> Option<Expr> {
        let mc = match strip(&m.expr) { Expr::MethodCall(mc) if mc.method == "entry" => mc.clone(), _ => return None };
        let map = self.fold_expr((*mc.receiver).clone());
        let key = self.fold_expr(mc.args[0].clone());
        let mut occ = None; let mut vac = None;
        for arm in &m.arms {
            let (kind, name) = match &arm.pat {
                Pat::TupleStruct(t) => {
                    let k = t.path.segments.last().unwrap().ident.to_string();
                    let nm = match t.elems.first() { Some(Pat::Ident(i)) => i.ident.to_string(), Some(Pat::Wild(_)) => "_".into(), _ => return None };
                    (k, nm)
                }
                _ => return None,
            };
            let body = EntrySubst { name, map: map.clone(), kind: kind.clone() }.fold_expr((*arm.body).clone());
            let body = self.fold_expr(body);
            match kind.as_str() { "Occupied" => occ = Some(body), "Vacant" => vac = Some(body), _ => return None }
        }
        let (occ, vac) = (occ?, vac?);
        Some(pe(quote!({ let __key = #key; if #map.contains_key(&__key) { #occ } else { #vac } })))
    }
}

/// R9: in a match on `map.entry(key)`, `entry.get()` reads and `entry.insert(v)` writes the map.
struct EntrySubst { name: String, map: Expr, kind: String }
impl Fold for EntrySubst {
    fn fold_expr(&mut self, e: Expr) -> Expr {
        if let Expr::MethodCall(m) = &e {
            if path_ident(&m.receiver).as_deref() == Some(self.name.as_str()) {
                let map = &self.map;
                match m.method.to_string().as_str() {
                    "get" | "into_mut" | "get_mut" => return pe(quote!(#map.get_ref(&__key))),
                    "key" => return pe(quote!(&__key)),
                    "insert" if self.kind == "Vacant" => { let v = &m.args[0]; return pe(quote!(#map.insert_new(__key, #v))); }
                    _ => {}
                }
            }
        }
        fold::fold_expr(self, e)
    }
}

pub fn subst_ident(e: Expr, from: &str, to: &Ident) -> Expr {
    struct S<'b>(&'b str, &'b Ident);
    impl<'b> Fold for S<'b> {
        fn fold_ident(&mut self, i: Ident) -> Ident { if i == self.0 { self.1.clone() } else { i } }
    }
    S(from, to).fold_expr(e)
}

/// A file, buffered or not: a stream of bytes.
fn is_file(t: &TypePath) -> bool { matches!(quote!(#t).to_string().replace(' ', "").as_str(), "io::BufReader<fs::File>" | "BufReader<File>" | "fs::File" | "File") }

impl<'a> Fold for Lower<'a> {
    fn fold_type(&mut self, t: Type) -> Type {
        match &t {
            Type::Ptr(_) => parse2(quote!(crate::prelude::Ptr)).unwrap(),
            Type::Path(p) => {
                // Box<[T]> -> Vec<T>
                if let Some(last) = p.path.segments.last() {
                    if last.ident == "Box" {
                        if let PathArguments::AngleBracketed(a) = &last.arguments {
                            if let Some(GenericArgument::Type(Type::Slice(s))) = a.args.first() {
                                let el = self.fold_type((*s.elem).clone());
                                return parse2(quote!(Vec<#el>)).unwrap();
                            }
                        }
                    }
                }
                if let Some(id) = p.path.get_ident() {
                    if self.dropped_generics.contains(&id.to_string()) { return parse2(quote!(crate::prelude::Reader)).unwrap(); }
                    if let Some(t) = self.slice_generics.get(&id.to_string()) { let t = t.clone(); return parse2(quote!(&[#t])).unwrap(); }
                }
                let s = quote!(#p).to_string().replace(' ', "");
                // an iterator that is a list
                if s.starts_with("vec::IntoIter<") {
                    if let Some(PathSegment { arguments: PathArguments::AngleBracketed(a), .. }) = p.path.segments.last() {
                        if let Some(GenericArgument::Type(t)) = a.args.first() { let t = self.fold_type(t.clone()); return parse2(quote!(Vec<#t>)).unwrap(); }
                    }
                }
                if s == "io::Read" || is_file(p) { return parse2(quote!(crate::prelude::Reader)).unwrap(); }
                if s == "Self::Item" { if let Some(t) = self.self_item.clone() { return self.fold_type(t); } }
                fold::fold_type(self, t)
            }
            Type::TraitObject(o) => {
                let s = quote!(#o).to_string().replace(' ', "");
                if s == "io::Read" || s == "dynio::Read" { return parse2(quote!(crate::prelude::Reader)).unwrap(); }
                fold::fold_type(self, t)
            }
            Type::Array(a) if self.spec.opts.contains("arrays_as_vec") => {
                let el = self.fold_type((*a.elem).clone());
                parse2(quote!(Vec<#el>)).unwrap()
            }
            _ => fold::fold_type(self, t),
        }
    }

    fn fold_path(&mut self, p: Path) -> Path {
        let mut p = p;
        for s in p.segments.iter_mut() {
            let mut empty = false;
            if self.strip_args.contains(&s.ident.to_string()) { s.arguments = PathArguments::None; }
            if let PathArguments::AngleBracketed(a) = &mut s.arguments {
                let kept: Vec<GenericArgument> = a.args.iter().filter(|g| match g {
                    GenericArgument::Type(Type::Path(tp)) if is_file(tp) => false,
                    GenericArgument::Type(Type::Path(tp)) => tp.path.get_ident().map_or(true, |i| !self.dropped_generics.contains(&i.to_string())),
                    _ => true,
                }).cloned().collect();
                if kept.len() != a.args.len() {
                    a.args = kept.into_iter().collect();
                    empty = a.args.is_empty();
                }
            }
            if empty { s.arguments = PathArguments::None; }
        }
        fold::fold_path(self, p)
    }

    fn fold_block(&mut self, b: Block) -> Block {
        let mut stmts = vec![];
        for s in b.stmts {
            // nested functions are hoisted to module level (R10)
            if let Stmt::Item(syn::Item::Fn(f)) = &s {
                let new = format!("{}_{}", self.prefix, f.sig.ident);
                self.nested_names.insert(f.sig.ident.to_string(), new);
                self.nested.push(f.clone());
                continue;
            }
            if let Stmt::Macro(m) = &s {
                let name = m.mac.path.segments.last().unwrap().ident.to_string();
                if name == "lazy_static" {
                    // static ref NAME: T = E;   =>   let NAME = E;
                    let txt = m.mac.tokens.to_string();
                    let parsed = txt.trim().strip_prefix("static ref ").and_then(|t| t.split_once(':').map(|(n, rest)| (n.trim().to_string(), rest.to_string())))
                        .and_then(|(n, rest)| { let st: Option<ItemStatic> = parse_str(&format!("static {}: {}", n, rest)).ok(); st });
                    match parsed {
                        Some(st) => { let n = st.ident; let e = self.fold_expr(*st.expr); stmts.push(parse2(quote!(let #n = #e;)).unwrap()); }
                        None => self.err("lazy_static"),
                    }
                    continue;
                }
            }
            // proof anchors before a call
            let counts_before = self.call_counts.clone();
            let s2 = self.fold_stmt(s.clone());
            let mut names: Vec<_> = self.call_counts.iter().filter(|(k, v)| counts_before.get(*k) != Some(*v)).map(|(k, v)| (k.clone(), *v)).collect();
            names.sort();
            let names2 = names.clone();
            for (nm, cnt) in names {
                let from = counts_before.get(&nm).cloned().unwrap_or(0);
                for c in from + 1..=cnt {
                    let key = format!("call {} {}", nm, c);
                    if !self.spec.used.borrow().contains(&key) { stmts.extend(self.anchor(&key)); }
                }
            }
            let let_name = if let Stmt::Local(l) = &s { pat_name(&l.pat) } else { None };
            let tail = matches!(&s2, Stmt::Expr(e, None) if !matches!(e, Expr::If(_) | Expr::Match(_) | Expr::While(_) | Expr::Loop(_) | Expr::Block(_)));
            stmts.push(s2);
            for (nm, cnt) in names2 {
                let from = counts_before.get(&nm).cloned().unwrap_or(0);
                for c in from + 1..=cnt {
                    let key = format!("after {} {}", nm, c);
                    if !tail && !self.spec.used.borrow().contains(&key) { stmts.extend(self.anchor(&key)); }
                }
            }
            if let Some(nm) = let_name {
                let c = self.let_counts.entry(nm.clone()).or_insert(0);
                *c += 1;
                let key = format!("let {} {}", nm, *c);
                stmts.extend(self.anchor(&key));
            }
        }
        Block { brace_token: b.brace_token, stmts }
    }

    fn fold_stmt(&mut self, s: Stmt) -> Stmt {
        if let Stmt::Macro(m) = &s {
            let e = self.fold_expr(Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() }));
            let semi = if matches!(e, Expr::If(_) | Expr::Block(_)) { None } else { m.semi_token };
            return Stmt::Expr(e, semi);
        }
        fold::fold_stmt(self, s)
    }

    fn fold_local(&mut self, l: Local) -> Local {
        let mut l = l;
        // let [mut|ref] x [: &T] = unsafe { &[mut] *P };   =>   x is P itself (R8)
        if let Some(init) = &l.init {
            if let Expr::Unsafe(u) = strip(&init.expr) {
                if let [Stmt::Expr(Expr::Reference(r), None)] = &u.block.stmts[..] {
                    if let Expr::Unary(un) = strip(&r.expr) {
                        if matches!(un.op, UnOp::Deref(_)) && self.spec.arena.as_ref().map_or(false, |a| !a.starts_with("heap")) {
                            let name = pat_name(&l.pat);
                            if let Some(name) = name {
                                self.in_unsafe += 1;
                                let p = self.fold_expr((*un.expr).clone());
                                self.in_unsafe -= 1;
                                self.aliases.insert(name.clone());
                                let id = Ident::new(&name, Span::call_site());
                                return match parse2::<Stmt>(quote!(let #id = #p;)).unwrap() { Stmt::Local(l) => l, _ => unreachable!() };
                            }
                        }
                    }
                }
            }
        }
        // the arena is written through pointers
        if let Pat::Ident(pi) = &mut l.pat {
            if self.spec.arena.as_deref() == Some(pi.ident.to_string().as_str()) { pi.mutability = Some(Default::default()); }
        }
        // let x = E as a plain statement; `ref x` binds a reference
        if let Pat::Ident(pi) = &mut l.pat {
            if pi.by_ref.is_some() && pi.mutability.is_none() {
                pi.by_ref = None;
                if let Some(init) = &mut l.init { let e = &init.expr; init.expr = Box::new(pe(quote!(&#e))); }
            }
        } else if let Pat::Type(pt) = &mut l.pat {
            if let Pat::Ident(pi) = &mut *pt.pat {
                if pi.by_ref.is_some() && pi.mutability.is_none() {
                    pi.by_ref = None;
                    let t = &pt.ty;
                    pt.ty = Box::new(parse2(quote!(&#t)).unwrap());
                    if let Some(init) = &mut l.init { let e = &init.expr; init.expr = Box::new(pe(quote!(&#e))); }
                }
            }
        }
        self.hint = None;
        if let (Pat::Type(pt), Some(init)) = (&l.pat, &l.init) {
            if matches!(strip(&init.expr), Expr::MethodCall(m) if m.method == "collect") { let t = (*pt.ty).clone(); let t = self.fold_type(t); self.hint = Some(t); }
        }
        // the initialiser first: the type hint is for its outermost collect()
        if let Some(init) = &mut l.init { let e = (*init.expr).clone(); init.expr = Box::new(self.fold_expr(e)); }
        self.hint = None;
        if let Some(init) = &mut l.init { if let Some((_, d)) = init.diverge.take() { let _ = d; self.err("let else"); } }
        l.pat = self.fold_pat(l.pat);
        l
    }

    fn fold_pat(&mut self, p: Pat) -> Pat {
        match p {
            Pat::Reference(_) => { self.err("reference pattern"); p }
            p => fold::fold_pat(self, p),
        }
    }

    fn fold_expr(&mut self, e: Expr) -> Expr {
        match e {
            Expr::Unsafe(u) => {
                self.in_unsafe += 1;
                let b = self.fold_block(u.block);
                self.in_unsafe -= 1;
                if let [Stmt::Expr(x, None)] = &b.stmts[..] { let x = x.clone(); return pe(quote!((#x))); }
                Expr::Block(ExprBlock { attrs: vec![], label: None, block: b })
            }
            Expr::ForLoop(f) => {
                if f.label.is_some() { self.err("labelled loop"); }
                let pipe = match self.parse_pipe(&f.expr) {
                    Some(p) => p,
                    None => match strip(&f.expr) {
                        Expr::Reference(r) if r.mutability.is_none() => Pipe { src: self.slice_src(&r.expr), ads: vec![] },
                        Expr::Reference(r) => Pipe { src: Src::SliceMut((*r.expr).clone()), ads: vec![] },
                        x => {
                            let by_ref = path_ident(x).map_or(false, |n| self.ref_params.contains(&n));
                            let x = x.clone();
                            if by_ref { Pipe { src: self.slice_src(&x), ads: vec![] } } else { Pipe { src: Src::Into(x), ads: vec![] } }
                        }
                    },
                };
                self.lower_pipe(pipe, Consumer::For { pat: *f.pat, body: f.body })
            }
            Expr::While(w) => {
                if w.label.is_some() { self.err("labelled loop"); }
                self.n_loops += 1;
                let n = self.n_loops;
                let cond = self.fold_expr(*w.cond);
                let start = self.anchor(&format!("loop{}.start", n));
                let b = self.fold_block(w.body).stmts;
                let end = self.anchor(&format!("loop{}.end", n));
                let inv_id = self.loop_inv(n);
                let before = self.anchor(&format!("loop{}.before", n));
                let after = self.anchor(&format!("loop{}.after", n));
                if before.is_empty() && after.is_empty() { pe(quote!(while #cond { #inv_id(); #(#start)* #(#b)* #(#end)* })) }
                else { pe(quote!({ #(#before)* while #cond { #inv_id(); #(#start)* #(#b)* #(#end)* } #(#after)* })) }
            }
            Expr::Loop(w) => {
                if w.label.is_some() { self.err("labelled loop"); }
                self.n_loops += 1;
                let n = self.n_loops;
                let start = self.anchor(&format!("loop{}.start", n));
                let b = self.fold_block(w.body).stmts;
                let end = self.anchor(&format!("loop{}.end", n));
                let inv_id = self.loop_inv(n);
                let before = self.anchor(&format!("loop{}.before", n));
                let after = self.anchor(&format!("loop{}.after", n));
                pe(quote!({ #(#before)* loop { #inv_id(); #(#start)* #(#b)* #(#end)* } #(#after)* }))
            }
            Expr::Return(r) if r.expr.is_some() && self.spec.at.contains_key("return") => {
                let x = self.fold_expr(*r.expr.unwrap());
                let a = self.anchor("return");
                pe(quote!({ let __ret = #x; #(#a)* return __ret; }))
            }
            Expr::MethodCall(m) => self.fold_method(m),
            Expr::Call(c) => {
                let mut c = c;
                if let Some(n) = path_ident(&c.func) {
                    *self.call_counts.entry(n.clone()).or_insert(0) += 1;
                    self.fn_calls.push(n.clone());
                    if let Some(new) = self.nested_names.get(&n) {
                        let id = Ident::new(new, Span::call_site());
                        c.func = Box::new(pe(quote!(#id)));
                    }
                } else if let Expr::Path(p) = strip(&c.func) {
                    let last = p.path.segments.last().unwrap().ident.to_string();
                    *self.call_counts.entry(last.clone()).or_insert(0) += 1;
                    let s = { let p = &p.path; quote!(#p).to_string().replace(' ', "") };
                    self.fn_calls.push(s.clone());
                    match s.as_str() {
                        "ptr::null" | "ptr::null_mut" => return pe(quote!(crate::prelude::Ptr::null())),
                        "String::from" => return self.opaque(),
                        "String::from_utf8_unchecked" => { let a = self.fold_expr(c.args[0].clone()); return pe(quote!(crate::prelude::string_from_ascii(#a))); }
                        "Box::new" => {
                            if let Some(Expr::Array(a)) = c.args.first().map(strip) {
                                let el: Vec<Expr> = a.elems.iter().cloned().map(|x| self.fold_expr(x)).collect();
                                return pe(quote!(vec![#(#el),*]));
                            }
                        }
                        "u32::max_value" => return pe(quote!(u32::MAX)),
                        "u64::max_value" => return pe(quote!(u64::MAX)),
                        "usize::max_value" => return pe(quote!(usize::MAX)),
                        "ptr::eq" => { let a = self.fold_expr(c.args[0].clone()); let b = self.fold_expr(c.args[1].clone()); return pe(quote!((#a == #b))); }
                        _ if s.starts_with("mem::size_of") => {
                            let arg = s.split("::<").nth(1).unwrap_or("").split(|c| c == '<' || c == '>').next().unwrap_or("").to_string();
                            if !self.ptr_targets.contains(&arg) { self.err("size_of a type no pointer parameter points to"); }
                            return pe(quote!(crate::prelude::elem_size()));
                        }
                        _ => {}
                    }
                }
                // iterators passed as arguments become slices (R2)
                let args: Vec<Expr> = c.args.iter().cloned().collect();
                let mut new_args: Vec<Expr> = vec![];
                for a in args {
                    let is_iter = matches!(strip(&a), Expr::MethodCall(m) if m.method == "iter" || m.method == "rev" || m.method == "into_iter");
                    if is_iter {
                        if let Some(p) = self.parse_pipe(&a) {
                            if let Src::Slice { base, lo, hi } = p.src {
                                let base = self.fold_expr(base);
                                let lo = lo.map(|e| self.fold_expr(e));
                                let hi = hi.map(|e| self.fold_expr(e));
                                match &p.ads[..] {
                                    [] if lo.is_none() && hi.is_none() => { new_args.push(pe(quote!(#base.as_sl()))); continue; }
                                    [] => { new_args.push(pe(quote!(&#base[#lo .. #hi]))); continue; }
                                    [Ad::Rev] if lo.is_none() && hi.is_none() => { new_args.push(pe(quote!(crate::prelude::rev_copy(#base.as_sl()).as_slice()))); continue; }
                                    [Ad::Rev] => { new_args.push(pe(quote!(&crate::prelude::rev_copy(&#base[#lo .. #hi])[..]))); continue; }
                                    _ => { self.err("iterator argument"); }
                                }
                            }
                        }
                    }
                    new_args.push(self.fold_expr(a));
                }
                let func = if path_ident(&c.func).is_some() { *c.func } else { self.fold_expr(*c.func) };
                pe(quote!(#func(#(#new_args),*)))
            }
            Expr::Closure(c) => { self.err("closure outside a known combinator"); Expr::Closure(c) }
            Expr::Macro(m) => self.fold_macro(m),
            Expr::Match(m) => {
                if let Some(e) = self.lower_entry_match(&m) { return e; }
                let mut m = m;
                let mut any_ref = false; let mut binds_ref = false;
                for a in &m.arms {
                    let cases: Vec<&Pat> = match &a.pat { Pat::Or(o) => o.cases.iter().collect(), p => vec![p] };
                    for c in cases { if matches!(c, Pat::Reference(_)) { any_ref = true; if pat_has_ref(c) { binds_ref = true; } } }
                }
                if any_ref {
                    for a in m.arms.iter_mut() {
                        let strip1 = |p: Pat| match p { Pat::Reference(r) => if binds_ref { strip_ref_in_pat(*r.pat) } else { *r.pat }, p => p };
                        a.pat = match a.pat.clone() {
                            Pat::Or(mut o) => { o.cases = o.cases.into_iter().map(strip1).collect(); Pat::Or(o) }
                            p => strip1(p),
                        };
                    }
                    if !binds_ref {
                        m.expr = Box::new(match strip(&m.expr).clone() {
                            Expr::Reference(r) => *r.expr,
                            x => pe(quote!(*#x)),
                        });
                    }
                } else if m.arms.iter().any(|a| pat_has_ref(&a.pat)) {
                    // `match *e { P(ref x) }` is `match &*e { P(x) }`; `match call() { P(ref mut x) }` binds x directly
                    let s = strip(&m.expr).clone();
                    if let Expr::Unary(u) = &s { if matches!(u.op, UnOp::Deref(_)) && self.in_unsafe == 0 { m.expr = u.expr.clone(); } }
                    for a in m.arms.iter_mut() { a.pat = strip_ref_in_pat(a.pat.clone()); }
                }
                // P if g => a, _ => b   =>   P => if g { a } else { b }, _ => b, where b is trivial (Verus loses track of `&mut` in guarded arms)
                let n = m.arms.len();
                if n >= 2 && m.arms[n - 2].guard.is_some() && m.arms[n - 1].guard.is_none() && matches!(m.arms[n - 1].pat, Pat::Wild(_))
                    && m.arms[..n - 2].iter().all(|a| a.guard.is_none()) {
                    let b = m.arms[n - 1].body.clone();
                    let trivial = match &*b { Expr::Block(x) => match &x.block.stmts[..] { [] => true, [Stmt::Expr(e, None)] => matches!(e, Expr::Path(_) | Expr::Lit(_)), _ => false }, Expr::Tuple(t) => t.elems.is_empty(), Expr::Path(_) | Expr::Lit(_) => true, _ => false };
                    if trivial {
                        let (_, g) = m.arms[n - 2].guard.take().unwrap();
                        let a = m.arms[n - 2].body.clone();
                        m.arms[n - 2].body = Box::new(pe(quote!({ if #g { #a } else { #b } })));
                        m.arms[n - 2].comma = Some(Default::default());
                    }
                }
                // pointers matched through as_ref(): the names bound are aliases
                let es = { let x = &m.expr; quote!(#x).to_string() };
                if es.contains("as_ref ()") && es.contains("unsafe") && self.spec.arena.is_some() {
                    for a in &m.arms { collect_some_names(&a.pat, &mut self.aliases); }
                }
                // match a() { .. }   =>   { let t0 = a(); match t0 { .. } }, and the same for a tuple of calls, where a hint wants the name
                let is_call = |e: &Expr| matches!(strip(e), Expr::Call(_) | Expr::MethodCall(_));
                let elems: Vec<Expr> = match strip(&m.expr) { Expr::Tuple(t) => t.elems.iter().cloned().collect(), e => vec![e.clone()] };
                if elems.iter().all(is_call) && self.in_unsafe == 0 {
                    self.n_tuple_matches += 1;
                    let k = self.n_tuple_matches;
                    if self.spec.at.contains_key(&format!("match {}", k)) {
                        let names: Vec<Ident> = (0..elems.len()).map(|j| format_ident!("__t{}_{}", k, j)).collect();
                        let mut st: Vec<Stmt> = vec![];
                        for (n, e) in names.iter().zip(elems.iter()) { let e = self.fold_expr(e.clone()); st.push(parse2(quote!(let #n = #e;)).unwrap()); }
                        st.extend(self.anchor(&format!("match {}", k)));
                        m.expr = Box::new(if names.len() == 1 { let n = &names[0]; pe(quote!(#n)) } else { pe(quote!((#(#names),*))) });
                        let m = fold::fold_expr(self, Expr::Match(m));
                        return pe(quote!({ #(#st)* #m }));
                    }
                }
                fold::fold_expr(self, Expr::Match(m))
            }
            Expr::Cast(c) if self.spec.opts.contains("floats") => {
                let t = { let t = &c.ty; quote!(#t).to_string() };
                let x = self.fold_expr(*c.expr);
                match t.as_str() {
                    "f64" => pe(quote!(crate::prelude::f64_of(#x))),
                    "u32" => pe(quote!(crate::prelude::f64_to_u32(#x))),
                    _ => { self.err("cast in a function of floats"); x }
                }
            }
            Expr::Binary(b) if self.spec.opts.contains("floats") && matches!(b.op, BinOp::Add(_) | BinOp::Sub(_) | BinOp::Mul(_) | BinOp::Div(_)) => {
                let l = self.fold_expr(*b.left); let r = self.fold_expr(*b.right);
                let f = format_ident!("{}", match b.op { BinOp::Add(_) => "f64_add", BinOp::Sub(_) => "f64_sub", BinOp::Mul(_) => "f64_mul", _ => "f64_div" });
                pe(quote!(crate::prelude::#f(#l, #r)))
            }
            Expr::Cast(c) => {
                if Self::is_raw_ty(&c.ty) {
                    if let Some(p) = self.ptr_of(&c.expr) { return p; }
                    return self.fold_expr(*c.expr);
                }
                if quote!(#c).to_string().ends_with("as usize") && self.is_ptr_expr(&c.expr) {
                    let x = self.fold_expr(*c.expr);
                    return pe(quote!((#x).addr()));
                }
                fold::fold_expr(self, Expr::Cast(c))
            }
            Expr::Assign(a) => {
                let mut a = a;
                let is_ptr = Self::field_name(&a.left).map_or(false, |n| self.ptr_fields.contains(&n));
                if is_ptr {
                    if let Some(p) = self.ptr_of(&a.right) {
                        let l = self.fold_expr(*a.left);
                        return pe(quote!(#l = #p));
                    }
                }
                a.left = Box::new(self.fold_expr(*a.left));
                a.right = Box::new(self.fold_expr(*a.right));
                // x[i].f = v, where i or v reads x: the value and then the index are computed first, as Rust does
                if let Some(ar) = self.spec.arena.clone() {
                    let key = parse_str::<Expr>(&ar).map(|e| quote!(#e).to_string()).unwrap_or_default();
                    if let Expr::Field(f) = &*a.left { if let Expr::Index(ix) = strip(&f.base) {
                        let (b, i, m, r) = (&ix.expr, &ix.index, &f.member, &a.right);
                        if quote!(#b).to_string() == key && quote!(#i #r).to_string().contains(&key) {
                            return pe(quote!({ let __v = #r; let __i = #i; #b[__i].#m = __v; }));
                        }
                    } }
                }
                Expr::Assign(a)
            }
            Expr::Reference(r) if r.mutability.is_none() && is_full_index(&r.expr) => {
                if let Expr::Index(i) = strip(&r.expr) {
                    // &(*x)[..] is &x[..] for a box or vector x
                    let b = match strip(&i.expr) { Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) && self.in_unsafe == 0 => (*u.expr).clone(), _ => (*i.expr).clone() };
                    let b = self.fold_expr(b); return pe(quote!(#b.as_sl())); }
                unreachable!()
            }
            Expr::Binary(b) => {
                // text + text
                if matches!(b.op, BinOp::Add(_)) {
                    let l = strip(&b.left);
                    let text = match l { Expr::Call(c) => { let f = &c.func; quote!(#f).to_string() == "String :: from" } Expr::Macro(m) => m.mac.path.is_ident("format"), Expr::MethodCall(m) => m.method == "to_string", _ => false };
                    if text { return self.opaque(); }
                }
                // Verus wants `x = x + y` only for some lvalues: keep compound assignment as is
                fold::fold_expr(self, Expr::Binary(b))
            }
            Expr::Struct(s) => {
                let mut s = s;
                let mut fields = vec![];
                for f in s.fields.iter().cloned() {
                    let mut f = f;
                    let nm = match &f.member { Member::Named(i) => i.to_string(), Member::Unnamed(i) => i.index.to_string() };
                    if self.ptr_fields.contains(&nm) {
                        if let Some(p) = self.ptr_of(&f.expr) { f.expr = p; f.colon_token = Some(Default::default()); fields.push(f); continue; }
                    }
                    f.expr = self.fold_expr(f.expr);
                    fields.push(f);
                }
                s.path = self.fold_path(s.path);
                s.fields = fields.into_iter().collect();
                Expr::Struct(s)
            }
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) && self.in_unsafe > 0 => {
                let p = match strip(&u.expr) {
                    Expr::Cast(c) if Self::is_raw_ty(&c.ty) => self.strip_cast(&c.expr),
                    x => x.clone(),
                };
                let p = self.fold_expr(p);
                self.deref_ptr(p)
            }
            Expr::Field(f) => {
                if let Some(n) = path_ident(&f.base) {
                    if self.aliases.contains(&n) {
                        let b = (*f.base).clone();
                        let b = self.deref_ptr(b);
                        let m = f.member;
                        return pe(quote!(#b.#m));
                    }
                }
                fold::fold_expr(self, Expr::Field(f))
            }
            Expr::Repeat(r) => {
                let s = { let x = &r.expr; quote!(#x).to_string() };
                if s.starts_with("ptr :: null") {
                    let l = { let x = &r.len; quote!(#x).to_string() };
                    let n: usize = l.parse().unwrap_or(0);
                    if n == 0 { self.err("pointer array"); }
                    let els: Vec<Expr> = (0..n).map(|_| pe(quote!(crate::prelude::Ptr::null()))).collect();
                    return pe(quote!([#(#els),*]));
                }
                if self.spec.opts.contains("arrays_as_vec") {
                    let x = self.fold_expr(*r.expr); let n = self.fold_expr(*r.len);
                    return pe(quote!(vec![#x; #n]));
                }
                fold::fold_expr(self, Expr::Repeat(r))
            }
            e => fold::fold_expr(self, e),
        }
    }
}

/// Loop clauses: lines starting with `!:` need not hold at a break, lines starting with `>:` hold after the loop.
fn compose_inv(except: &str, head: &str, text: &str, measure: &str) -> String {
    let (mut ex, mut inv, mut ens) = (except.to_string(), head.to_string(), String::new());
    let mut dec = String::new();
    let mut in_dec = false;
    for l in text.lines() {
        let t = l.trim_start();
        if let Some(x) = t.strip_prefix("decreases") { in_dec = true; dec.push_str(x); dec.push('\n'); }
        else if in_dec { dec.push_str(t); dec.push('\n'); }
        else if let Some(x) = t.strip_prefix("!:") { ex.push_str(&format!("            {}\n", x.trim_start())); }
        else if let Some(x) = t.strip_prefix(">:") { ens.push_str(&format!("            {}\n", x.trim_start())); }
        else { inv.push_str(l); inv.push('\n'); }
    }
    let mut r = String::new();
    if !ex.trim().is_empty() { r.push_str("invariant_except_break\n"); r.push_str(&ex); }
    if !inv.trim().is_empty() { r.push_str("        invariant\n"); r.push_str(&inv); }
    if !ens.trim().is_empty() { r.push_str("        ensures\n"); r.push_str(&ens); }
    if dec.is_empty() { if !measure.is_empty() { r.push_str(&format!("        decreases {},\n", measure)); } }
    else { r.push_str("        decreases "); r.push_str(&dec); }
    r
}

pub fn pat_name(p: &Pat) -> Option<String> {
    match p {
        Pat::Ident(i) => Some(i.ident.to_string()),
        Pat::Type(t) => pat_name(&t.pat),
        _ => None,
    }
}
fn collect_some_names(p: &Pat, out: &mut HashSet<String>) {
    match p {
        Pat::Tuple(t) => for e in &t.elems { collect_some_names(e, out) },
        Pat::TupleStruct(t) => for e in &t.elems { if let Pat::Ident(i) = e { out.insert(i.ident.to_string()); } },
        _ => {}
    }
}

impl<'a> Lower<'a> {
    fn strip_cast(&self, e: &Expr) -> Expr {
        match strip(e) {
            Expr::Cast(c) if Self::is_raw_ty(&c.ty) => self.strip_cast(&c.expr),
            x => x.clone(),
        }
    }
    fn loop_inv(&mut self, n: usize) -> Ident {
        let inv_id = format_ident!("__vinv_{}", self.raws.len());
        let t = self.spec.loops.get(&n).cloned().unwrap_or_default();
        self.spec.used.borrow_mut().insert(format!("loop {}", n));
        self.raws.push(compose_inv("", "", &t, ""));
        inv_id
    }

    fn fold_method(&mut self, m: ExprMethodCall) -> Expr {
        let name = m.method.to_string();
        *self.call_counts.entry(name.clone()).or_insert(0) += 1;
        self.fn_calls.push(format!(".{}", name));
        let closure = match m.args.first().map(strip) { Some(Expr::Closure(c)) => Some(c.clone()), _ => None };
        match name.as_str() {
            "collect" | "sum" => if let Some(p) = self.parse_pipe(&m.receiver) {
                return self.lower_pipe(p, if name == "sum" { Consumer::Sum } else { Consumer::Collect });
            },
            "partition" | "position" | "min_by_key" | "any" | "all" => if let (Some(c), Some(p)) = (closure.clone(), self.parse_pipe(&m.receiver)) {
                return self.lower_pipe(p, match name.as_str() {
                    "partition" => Consumer::Partition(c), "position" => Consumer::Position(c),
                    "any" => Consumer::AnyAll(c, true), "all" => Consumer::AnyAll(c, false),
                    _ => Consumer::MinByKey(c) });
            },
            "extend" => {
                let recv = self.fold_expr((*m.receiver).clone());
                return match self.parse_pipe(&m.args[0]) {
                    Some(p) => self.lower_pipe(p, Consumer::Extend(recv)),
                    None => { let a = self.fold_expr(m.args[0].clone()); pe(quote!({ let mut __t = #a; #recv.append(&mut __t); })) }
                };
            }
            "sort" if m.args.is_empty() => { let r = self.fold_expr((*m.receiver).clone()); return pe(quote!(crate::prelude::sort(&mut #r))); }
            "next" if m.args.is_empty() => if let Expr::MethodCall(k) = strip(&m.receiver) { if k.method == "keys" && k.args.is_empty() {
                let r = self.fold_expr((*k.receiver).clone()); return pe(quote!(#r.first_key()));
            } },
            "into_boxed_slice" => return self.fold_expr((*m.receiver).clone()),
            "to_string" => {
                if matches!(strip(&m.receiver), Expr::Lit(_)) || matches!(strip(&m.receiver), Expr::Reference(r) if matches!(strip(&r.expr), Expr::Lit(_))) { return self.opaque(); }
                let r = self.fold_expr((*m.receiver).clone());
                return pe(quote!((#r).to_str()));
            }
            "into_iter" => {
                // NewEdgeSet::into_iter and friends: an inherent method on self
                if self.spec.opts.contains("into_iter_value") {
                    return self.fold_expr((*m.receiver).clone());
                }
            }
            "map" | "and_then" | "map_err" | "unwrap_or_else" => if self.parse_pipe(&Expr::MethodCall(m.clone())).is_none() {
                if let Some(e) = self.lower_result_closure(&m) { return e; }
            },
            "as_ref" if self.in_unsafe > 0 => { let r = self.fold_expr((*m.receiver).clone()); return pe(quote!(#r.as_opt())); }
            "as_ptr" => { return pe(quote!(crate::prelude::Ptr::at(0))); }
            "expect" => { let r = self.fold_expr((*m.receiver).clone()); return pe(quote!(#r.unwrap())); }
            "insert" | "remove" | "get" | "contains_key" => {}
            _ => {}
        }
        fold::fold_expr_method_call(self, m).into()
    }

    fn fold_macro(&mut self, m: ExprMacro) -> Expr {
        let name = m.mac.path.segments.last().unwrap().ident.to_string();
        let panic_expr: Expr = if let Some(t) = self.spec.panic.clone() { let r = self.raw(t); pe(quote!({ #r crate::prelude::allowed_panic() })) } else if self.spec.opts.contains("allow_panic") { pe(quote!(crate::prelude::allowed_panic())) } else { pe(quote!(crate::prelude::forbidden_panic())) };
        match name.as_str() {
            "vec" => {
                let toks = m.mac.tokens.clone();
                if toks.is_empty() { return pe(quote!(Vec::new())); }
                if let Ok(Expr::Array(a)) = parse2::<Expr>(quote!([#toks])) {
                    let el: Vec<Expr> = a.elems.into_iter().map(|x| self.fold_expr(x)).collect();
                    return pe(quote!(vec![#(#el),*]));
                }
                if let Ok(Expr::Repeat(r)) = parse2::<Expr>(quote!([#toks])) {
                    let x = self.fold_expr(*r.expr); let n = self.fold_expr(*r.len);
                    return pe(quote!(vec![#x; #n]));
                }
                self.err("vec! form");
                Expr::Macro(m)
            }
            "format" => self.opaque(),
            "write" => {
                let args = parse::Parser::parse2(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated, m.mac.tokens.clone());
                match args {
                    Ok(a) if a.len() >= 2 && a.iter().all(|x| !matches!(x, Expr::Assign(_))) => {
                        // `{}` shows the argument through its Display; anything else is evaluated and left
                        let lit = match &a[1] { Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s.value().replace("{{", "").replace("}}", ""), _ => { self.err("write!"); return Expr::Macro(m); } };
                        let holes: Vec<String> = lit.split('{').skip(1).map(|x| x.split('}').next().unwrap_or("").to_string()).collect();
                        if holes.len() != a.len() - 2 || holes.iter().any(|h| h != "" && !h.starts_with(':')) { self.err("write! with named arguments"); return Expr::Macro(m); }
                        let f = self.fold_expr(a[0].clone());
                        let mut s = vec![];
                        for (h, x) in holes.iter().zip(a.iter().skip(2)) {
                            let x = self.fold_expr(x.clone());
                            s.push(if h == "" { quote!(crate::prelude::show(&(#x));) } else { quote!(let __w = &(#x);) });
                        }
                        pe(quote!({ #(#s)* crate::prelude::fmt::put(#f) }))
                    }
                    _ => { self.err("write!"); Expr::Macro(m) }
                }
            }
            "panic" | "unreachable" | "unimplemented" => panic_expr,
            "assert" | "debug_assert" => {
                let toks = m.mac.tokens.clone();
                let args = parse::Parser::parse2(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated, toks);
                match args {
                    Ok(a) if !a.is_empty() => { let c = self.fold_expr(a[0].clone()); pe(quote!(if !(#c) { #panic_expr })) }
                    _ => { self.err("assert!"); Expr::Macro(m) }
                }
            }
            "assert_eq" | "debug_assert_eq" => {
                let toks = m.mac.tokens.clone();
                let args = parse::Parser::parse2(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated, toks);
                match args {
                    Ok(a) if a.len() >= 2 => { let x = self.fold_expr(a[0].clone()); let y = self.fold_expr(a[1].clone()); pe(quote!(if !(#x == #y) { #panic_expr })) }
                    _ => { self.err("assert_eq!"); Expr::Macro(m) }
                }
            }
            _ => { self.err(format!("macro {}!", name)); Expr::Macro(m) }
        }
    }
}
