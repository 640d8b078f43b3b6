mod lower;
mod spec;

use lower::Lower;
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::quote;
use spec::{FnSpec, Item as SItem};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fs;
use syn::fold::Fold;
use syn::*;

// ---- printing ---------------------------------------------------------------
fn print_tokens(ts: TokenStream, ind: usize, out: &mut String) {
    let mut joint = false;
    let toks: Vec<TokenTree> = ts.into_iter().collect();
    for (n, t) in toks.iter().enumerate() {
        match t {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() {
                    Delimiter::Brace => ("{", "}"), Delimiter::Bracket => ("[", "]"),
                    Delimiter::Parenthesis => ("(", ")"), Delimiter::None => ("", ""),
                };
                out.push_str(o);
                if g.delimiter() == Delimiter::Brace && !g.stream().is_empty() {
                    out.push('\n'); out.push_str(&"  ".repeat(ind + 1));
                    print_tokens(g.stream(), ind + 1, out);
                    out.push('\n'); out.push_str(&"  ".repeat(ind));
                    out.push_str(c);
                    let next_else = matches!(toks.get(n + 1), Some(TokenTree::Ident(i)) if *i == "else")
                        || matches!(toks.get(n + 1), Some(TokenTree::Punct(_)));
                    if !next_else && n + 1 < toks.len() { out.push('\n'); out.push_str(&"  ".repeat(ind)); }
                } else {
                    print_tokens(g.stream(), ind, out);
                    out.push_str(c);
                }
                joint = false;
                out.push(' ');
            }
            TokenTree::Ident(i) => { out.push_str(&i.to_string()); out.push(' '); joint = false; }
            TokenTree::Literal(l) => { out.push_str(&l.to_string()); out.push(' '); joint = false; }
            TokenTree::Punct(p) => {
                let ch = p.as_char();
                out.push(ch);
                joint = p.spacing() == Spacing::Joint;
                if ch == ';' && n + 1 < toks.len() { out.push('\n'); out.push_str(&"  ".repeat(ind)); }
                else if !joint && ch != '\'' { out.push(' '); }
            }
        }
    }
    let _ = joint;
}
fn pretty(ts: TokenStream) -> String { let mut s = String::new(); print_tokens(ts, 1, &mut s); s }

fn fill_raws(mut s: String, raws: &[String]) -> String {
    for (i, t) in raws.iter().enumerate() {
        // find `__vraw_i () ;` / `{ <ws> __vinv_i () ;`
        let key = format!("__vraw_{} (", i);
        if let Some(p) = s.find(&key) {
            let e = s[p..].find(';').unwrap() + p + 1;
            s.replace_range(p..e, t.trim_end());
        }
        let key = format!("__vinv_{} (", i);
        if let Some(p) = s.find(&key) {
            let e = s[p..].find(';').unwrap() + p + 1;
            let b = s[..p].rfind('{').unwrap();
            let text = format!("\n        {}\n {{", t.trim_end());
            s.replace_range(b..e, &text);
        }
    }
    s
}

fn skeleton(ts: TokenStream, out: &mut Vec<String>) {
    const KW: &[&str] = &["if", "else", "match", "for", "while", "loop", "return", "break", "continue", "let", "mut", "ref", "fn", "unsafe", "in", "as", "move"];
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() { Delimiter::Brace => ("{", "}"), Delimiter::Bracket => ("[", "]"), _ => ("(", ")") };
                out.push(o.into()); skeleton(g.stream(), out); out.push(c.into());
            }
            TokenTree::Ident(i) => { let s = i.to_string(); out.push(if KW.contains(&s.as_str()) { s } else { "I".into() }); }
            TokenTree::Literal(l) => { let t = l.to_string(); out.push(if t.starts_with('"') { t.replace(' ', "_") } else { "I".into() }) }
            TokenTree::Punct(p) => {
                let ch = p.as_char();
                // operators are interchangeable; structure is not
                if ";,.?|'#:".contains(ch) { out.push(ch.to_string()) }
                else if out.last().map_or(false, |l| l == "O") {} else { out.push("O".into()) }
            }
        }
    }
}

// ---- source index -----------------------------------------------------------
#[derive(Clone)]
struct Found { sig: Signature, block: Block, generics: Generics, self_ty: Option<Type>, trait_: Option<Path>, item_ty: Option<Type> }

struct Source { fns: HashMap<String, Found>, order: Vec<String>, types: HashMap<String, syn::Item>, consts: HashMap<String, syn::ItemConst> }

fn ty_name(t: &Type) -> String {
    match t { Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(), Type::Reference(r) => ty_name(&r.elem), _ => "?".into() }
}
fn is_test(attrs: &[Attribute]) -> bool { attrs.iter().any(|a| { let s = quote!(#a).to_string(); s.contains("cfg") && s.contains("test") }) }

fn index(file: &syn::File) -> Source {
    let mut s = Source { fns: HashMap::new(), order: vec![], types: HashMap::new(), consts: HashMap::new() };
    for it in &file.items {
        match it {
            syn::Item::Fn(f) if !is_test(&f.attrs) => {
                let id = f.sig.ident.to_string();
                s.order.push(id.clone());
                s.fns.insert(id, Found { sig: f.sig.clone(), block: (*f.block).clone(), generics: Default::default(), self_ty: None, trait_: None, item_ty: None });
            }
            syn::Item::Impl(im) => {
                let tn = ty_name(&im.self_ty);
                let item_ty = im.items.iter().find_map(|i| match i { ImplItem::Type(t) if t.ident == "Item" => Some(t.ty.clone()), _ => None });
                for ii in &im.items {
                    if let ImplItem::Fn(f) = ii {
                        let tr = im.trait_.as_ref().map(|t| t.1.clone());
                        let id = match &tr {
                            Some(p) if !matches!(p.segments.last().unwrap().ident.to_string().as_str(), "Iterator" | "From") =>
                                format!("{}::{}::{}", tn, p.segments.last().unwrap().ident, f.sig.ident),
                            _ => format!("{}::{}", tn, f.sig.ident),
                        };
                        s.order.push(id.clone());
                        s.fns.insert(id, Found { sig: f.sig.clone(), block: f.block.clone(), generics: im.generics.clone(), self_ty: Some((*im.self_ty).clone()), trait_: tr, item_ty: item_ty.clone() });
                    }
                }
            }
            syn::Item::Struct(x) => { s.types.insert(x.ident.to_string(), it.clone()); }
            syn::Item::Enum(x) => { s.types.insert(x.ident.to_string(), it.clone()); }
            syn::Item::Type(x) => { s.types.insert(x.ident.to_string(), it.clone()); }
            syn::Item::Const(x) => { s.consts.insert(x.ident.to_string(), x.clone()); }
            _ => {}
        }
    }
    s
}

fn has_ptr(t: &Type) -> bool { quote!(#t).to_string().contains("* const") || quote!(#t).to_string().contains("* mut") }

/// Generics -> (kept generics, dropped io::Read parameters, slice parameters)
fn split_generics(g: &Generics) -> (Generics, HashSet<String>, HashMap<String, Type>) {
    let mut kept = Generics::default();
    let mut dropped = HashSet::new();
    let mut slices = HashMap::new();
    let mut slice_lts: HashSet<String> = HashSet::new();
    for p in &g.params {
        if let GenericParam::Type(t) = p {
            let b = { let b = &t.bounds; quote!(#b).to_string() };
            if b.replace(' ', "").contains("io::Read") { dropped.insert(t.ident.to_string()); continue; }
            let mut slice = None;
            for bd in &t.bounds {
                if let TypeParamBound::Trait(tb) = bd {
                    let seg = tb.path.segments.last().unwrap();
                    if seg.ident == "IntoIterator" || seg.ident == "Iterator" {
                        if let PathArguments::AngleBracketed(a) = &seg.arguments {
                            for ga in &a.args {
                                if let GenericArgument::AssocType(at) = ga {
                                    if let Type::Reference(r) = &at.ty {
                                        slice = Some((*r.elem).clone());
                                        if let Some(l) = &r.lifetime { slice_lts.insert(l.ident.to_string()); }
                                    }
                                }
                            }
                        }
                    }
                }
            }
            if let Some(s) = slice { slices.insert(t.ident.to_string(), s); continue; }
        }
        let mut p = p.clone();
        if let GenericParam::Type(t) = &mut p {
            // keep only Clone / Copy bounds
            t.bounds = t.bounds.iter().filter(|b| { let s = quote!(#b).to_string(); s == "Clone" || s == "Copy" }).cloned().collect();
        }
        kept.params.push(p);
    }
    kept.params = kept.params.into_iter().filter(|p| match p { GenericParam::Lifetime(l) => !slice_lts.contains(&l.lifetime.ident.to_string()), _ => true }).collect();
    (kept, dropped, slices)
}

struct Emitted { text: String, status: String, skeleton: String, loops: usize, calls: Vec<String> }

fn emit_fn(id: &str, f: &Found, spec: &FnSpec, ptr_fields: &HashSet<String>, strip_args: &HashSet<String>, specs: &HashMap<String, FnSpec>, force_external: bool, parent_names: &HashMap<String, String>, name_override: Option<String>, nested_out: &mut Vec<(String, Emitted)>, externals: &HashSet<String>, modpath: &str) -> Emitted {
    let mut sk = vec![];
    { let b = &f.block; skeleton(quote!(#b), &mut sk); }

    let (ig, d1, s1) = split_generics(&f.generics);
    let (fg, d2, s2) = split_generics(&f.sig.generics);
    let mut dropped = d1; dropped.extend(d2);
    let mut slices = s1; slices.extend(s2);

    let mut ptr_params = HashSet::new();
    let mut ref_params = HashSet::new();
    let mut ptr_targets = HashSet::new();
    for i in &f.sig.inputs {
        if let FnArg::Typed(t) = i {
            if let Some(n) = lower::pat_name(&t.pat) {
                if has_ptr(&t.ty) { ptr_params.insert(n.clone()); if let Type::Ptr(p) = &*t.ty { ptr_targets.insert(ty_name(&p.elem)); } }
                if matches!(*t.ty, Type::Reference(_)) { ref_params.insert(n.clone()); }
                if let Type::Path(p) = &*t.ty { if let Some(i) = p.path.get_ident() { if slices.contains_key(&i.to_string()) { ref_params.insert(n); } } }
            }
        }
    }
    let prefix = match &name_override { Some(n) => n.clone(), None => id.replace("::", "_") };
    let mut lw = Lower {
        spec, prefix: prefix.clone(), n_loops: 0, n_tuple_matches: 0, raws: vec![], errors: vec![], ptr_fields, strip_args, ptr_params, ptr_targets, ref_params,
        dropped_generics: dropped.clone(), slice_generics: slices.clone(), aliases: HashSet::new(), places: HashMap::new(),
        in_unsafe: 0, nested: vec![], nested_names: parent_names.clone(), self_item: f.item_ty.clone(), fn_calls: vec![],
        free_fn_prefix: String::new(), call_counts: HashMap::new(), let_counts: HashMap::new(), hint: None,
    };
    // pointer-typed locals: `let x: *mut T`
    struct PtrLocals<'b>(&'b mut HashSet<String>);
    impl<'b, 'ast> syn::visit::Visit<'ast> for PtrLocals<'b> {
        fn visit_local(&mut self, l: &'ast Local) {
            if let Pat::Type(t) = &l.pat { if matches!(*t.ty, Type::Ptr(_)) { if let Some(n) = lower::pat_name(&t.pat) { self.0.insert(n); } } }
            syn::visit::visit_local(self, l);
        }
    }
    syn::visit::Visit::visit_block(&mut PtrLocals(&mut lw.ptr_params), &f.block);

    // body
    let start = spec.at.get("fn_start").cloned();
    let end = spec.at.get("fn_end").cloned();
    let mut block = lw.fold_block(f.block.clone());
    if let Some(t) = end {
        spec.used.borrow_mut().insert("fn_end".into());
        let id = quote::format_ident!("__vraw_{}", lw.raws.len());
        lw.raws.push(t);
        let st: Stmt = parse2(quote!(#id();)).unwrap();
        let rn = quote::format_ident!("__ret");
        match block.stmts.pop() {
            Some(Stmt::Expr(e, None)) => {
                let rt = match &f.sig.output { ReturnType::Default => None, ReturnType::Type(_, t) => Some(lw.fold_type((**t).clone())) };
                if let Some(rt) = rt {
                    block.stmts.push(parse2(quote!(let #rn: #rt = #e;)).unwrap());
                    block.stmts.push(st);
                    block.stmts.push(Stmt::Expr(parse2(quote!(#rn)).unwrap(), None));
                } else {
                    block.stmts.push(Stmt::Expr(e, None));
                    block.stmts.push(st);
                }
            }
            Some(s) => { block.stmts.push(s); block.stmts.push(st); }
            None => block.stmts.push(st),
        }
    }
    if let Some(t) = start {
        spec.used.borrow_mut().insert("fn_start".into());
        let id = quote::format_ident!("__vraw_{}", lw.raws.len());
        lw.raws.push(t);
        block.stmts.insert(0, parse2(quote!(#id();)).unwrap());
    }

    // signature
    let mut inputs: Vec<TokenStream> = vec![];
    for i in &f.sig.inputs {
        match i {
            FnArg::Receiver(r) => { let r2 = &r.reference; let m = &r.mutability; let lt = r2.as_ref().map(|x| &x.0); let l2 = r2.as_ref().and_then(|x| x.1.clone());
                inputs.push(quote!(#lt #l2 #m self)); }
            FnArg::Typed(t) => {
                let p = &t.pat;
                let n = lower::pat_name(p).unwrap_or_default();
                if let Some((_, ty)) = spec.subst.iter().find(|(a, _)| *a == n) {
                    let ty: Type = parse_str(ty).unwrap();
                    inputs.push(quote!(#p: #ty));
                } else {
                    let ty = lw.fold_type((*t.ty).clone());
                    inputs.push(quote!(#p: #ty));
                }
            }
        }
    }
    if !spec.extra_params.is_empty() { inputs.push(spec.extra_params.parse().unwrap()); }
    let ret = match &f.sig.output {
        ReturnType::Default => String::new(),
        ReturnType::Type(_, t) => {
            let t = lw.fold_type((**t).clone());
            format!("-> ({}: {})", spec.ret, pretty(quote!(#t)))
        }
    };
    // type parameters that no longer occur
    let occurs = |txt: &str, p: &str| txt.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == p);
    let drop_unused = |g: &Generics, txt: &str| -> Generics {
        let mut g = g.clone();
        g.params = g.params.into_iter().filter(|p| match p { GenericParam::Type(t) => occurs(txt, &t.ident.to_string()), _ => true }).collect();
        g
    };
    let fg = { let txt = format!("{} {}", pretty(quote!(#(#inputs),*)), ret); drop_unused(&fg, &txt) };
    let ig = match &f.self_ty { Some(st) => { let st = lw.fold_type(st.clone()); drop_unused(&ig, &quote!(#st).to_string()) } None => ig.clone() };
    let fname = match &name_override { Some(n) => n.clone(), None => f.sig.ident.to_string() };

    let mut status = String::from("ok");
    if !lw.errors.is_empty() { status = format!("untranslatable: {}", lw.errors.join("; ")); }
    let unused: Vec<String> = spec.loops.keys().map(|k| format!("loop {}", k)).chain(spec.at.keys().cloned())
        .filter(|k| !spec.used.borrow().contains(k)).collect();
    if status == "ok" && !unused.is_empty() { status = format!("lost anchor: {}", unused.join("; ")); }
    if spec.opts.contains("external") { status = "trusted".into(); }
    if force_external { status = format!("external (forced){}", if status == "ok" { String::new() } else { format!(", {}", status) }); }

    // nested functions
    let nested = std::mem::take(&mut lw.nested);
    let names = lw.nested_names.clone();
    for nf in nested {
        let nid = format!("{}::{}", id, nf.sig.ident);
        let empty = FnSpec { id: nid.clone(), ret: "r".into(), ..Default::default() };
        let nspec = specs.get(&nid).unwrap_or(&empty);
        let found = Found { sig: nf.sig.clone(), block: (*nf.block).clone(), generics: Default::default(), self_ty: None, trait_: None, item_ty: None };
        let nn = names[&nf.sig.ident.to_string()].clone();
        let fe = externals.contains(&format!("{}::{}", modpath, nid));
        let e = emit_fn(&nid, &found, nspec, ptr_fields, strip_args, specs, fe, &names, Some(nn), nested_out, externals, modpath);
        nested_out.push((nid, e));
    }

    let external = status != "ok";
    let body = if external { "{ unimplemented!() }".to_string() } else { fill_raws(pretty(quote!(#block)), &lw.raws) };
    let mut t = String::new();
    let keep_trait = f.trait_.as_ref().map(|p| p.segments.last().unwrap().ident.to_string()).filter(|n| n != "Iterator" && n != "From" && !spec.opts.contains("plain"));
    let is_impl = f.self_ty.is_some();
    if let Some(st) = &f.self_ty {
        let st = lw.fold_type(st.clone());
        let (ig2, _, _) = (ig.clone(), 0, 0);
        match &keep_trait {
            Some(_) => { let p = lw.fold_path(f.trait_.clone().unwrap()); t.push_str(&format!("impl {} {} for {} {{\n", pretty(quote!(#ig2)), pretty(quote!(#p)), pretty(quote!(#st)))) }
            None => t.push_str(&format!("impl {} {} {{\n", pretty(quote!(#ig2)), pretty(quote!(#st)))),
        }
    }
    if external { t.push_str("#[verifier::external_body]\n"); } else {
        if !spec.opts.contains("isolate") { t.push_str("#[verifier::loop_isolation(false)]\n"); }
        if body.contains("invariant_except_break") && !spec.opts.contains("isolate") { t.push_str("#[verifier::allow_complex_invariants]\n"); }
        for a in &spec.attrs { t.push_str(a); t.push('\n'); }
    }
    let vis = if keep_trait.is_some() { "" } else { "pub " };
    t.push_str(&format!("{}fn {}{}({}) {}\n", vis, fname, pretty(quote!(#fg)), pretty(quote!(#(#inputs),*)), ret));
    for s in &spec.sig { t.push_str(s); }
    t.push_str(&body);
    t.push('\n');
    if is_impl { t.push_str("}\n"); }
    Emitted { text: t, status, skeleton: sk.join(" "), loops: lw.n_loops, calls: lw.fn_calls.clone() }
}

fn emit_type(it: &syn::Item, attrs: &str, strip_args: &HashSet<String>) -> String {
    let dummy = FnSpec::default();
    let pf = HashSet::new();
    let g = match it { syn::Item::Struct(s) => s.generics.clone(), syn::Item::Enum(e) => e.generics.clone(), _ => Default::default() };
    let (kept, dropped, _) = split_generics(&g);
    let mut lw = Lower {
        spec: &dummy, prefix: String::new(), n_loops: 0, n_tuple_matches: 0, raws: vec![], errors: vec![], ptr_fields: &pf, strip_args, ptr_params: HashSet::new(), ptr_targets: HashSet::new(), ref_params: HashSet::new(),
        dropped_generics: dropped, slice_generics: HashMap::new(), aliases: HashSet::new(), places: HashMap::new(), in_unsafe: 0, nested: vec![],
        nested_names: HashMap::new(), self_item: None, fn_calls: vec![], free_fn_prefix: String::new(), call_counts: HashMap::new(), let_counts: HashMap::new(), hint: None,
    };
    let text = match it.clone() {
        syn::Item::Struct(mut s) => {
            s.attrs.clear(); s.generics = if strip_args.contains(&s.ident.to_string()) { Default::default() } else { kept }; s.vis = parse_str("pub").unwrap();
            for f in s.fields.iter_mut() { f.attrs.clear(); f.vis = parse_str("pub").unwrap(); f.ty = lw.fold_type(f.ty.clone()); }
            pretty(quote!(#s))
        }
        syn::Item::Enum(mut s) => {
            s.attrs.clear(); s.generics = kept; s.vis = parse_str("pub").unwrap();
            for v in s.variants.iter_mut() { v.attrs.clear(); for f in v.fields.iter_mut() { f.attrs.clear(); f.ty = lw.fold_type(f.ty.clone()); } }
            pretty(quote!(#s))
        }
        syn::Item::Type(mut s) => { s.attrs.clear(); s.vis = parse_str("pub").unwrap(); s.ty = Box::new(lw.fold_type((*s.ty).clone())); pretty(quote!(#s)) }
        _ => String::new(),
    };
    format!("{}\n{}\n", attrs, text)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).map(|i| args[i + 1].clone());
    let repo = get("--repo").unwrap();
    let contracts = get("--contracts").unwrap();
    let out = get("--out").unwrap();
    let report = get("--report").unwrap();
    let externals: HashSet<String> = get("--external").unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();

    let mut files: Vec<_> = fs::read_dir(&contracts).unwrap().map(|e| e.unwrap().path()).filter(|p| p.extension().map_or(false, |e| e == "vspec")).collect();
    files.sort();
    let mut mods = vec![];
    for f in &files {
        match spec::parse(&fs::read_to_string(f).unwrap()) { Ok(m) => mods.extend(m), Err(e) => { eprintln!("{}: {}", f.display(), e); std::process::exit(2) } }
    }

    if args.iter().any(|a| a == "--probe") {
        // vacuity probes: an assertion of false that must FAIL at the start and end of every function and loop body
        let mut k = 0;
        for m in mods.iter_mut() {
            for it in m.items.iter_mut() {
                if let SItem::Fn(f) = it {
                    if f.opts.contains("external") { continue; }
                    let mut add = |at: &mut BTreeMap<String, String>, key: String| {
                        let e = at.entry(key).or_default();
                        e.push_str(&format!("\n proof {{ if crate::prelude::__probe({}) {{ assert(false); }} }}\n", k));
                        k += 1;
                    };
                    add(&mut f.at, "fn_start".into());
                    add(&mut f.at, "fn_end".into());
                    for n in f.loops.keys().cloned().collect::<Vec<_>>() { add(&mut f.at, format!("loop{}.start", n)); }
                }
            }
        }
        for m in mods.iter_mut() { if m.path == "prelude" { m.items.push(SItem::Raw("pub uninterp spec fn __probe(k: int) -> bool;\n".into())); break; } }
    }

    // pointer fields, over all files
    let mut sources: HashMap<String, std::result::Result<Source, String>> = HashMap::new();
    let mut ptr_fields = HashSet::new();
    for m in &mods {
        if m.file.is_empty() || sources.contains_key(&m.file) { continue; }
        let p = format!("{}/{}", repo, m.file);
        let src = match fs::read_to_string(&p) { Ok(t) => match parse_file(&t) { Ok(f) => Ok(index(&f)), Err(e) => Err(e.to_string()) }, Err(e) => Err(e.to_string()) };
        if let Ok(s) = &src {
            for t in s.types.values() {
                if let syn::Item::Struct(s) = t { for f in s.fields.iter() { if has_ptr(&f.ty) { if let Some(i) = &f.ident { ptr_fields.insert(i.to_string()); } } } }
            }
        }
        sources.insert(m.file.clone(), src);
    }

    // structs whose type parameters only occur behind raw pointers: they lose them (a pointer is an index)
    let mut strip_args: HashSet<String> = HashSet::new();
    loop {
        let before = strip_args.len();
        for s in sources.values().filter_map(|s| s.as_ref().ok()) {
            for t in s.types.values() {
                if let syn::Item::Struct(st) = t {
                    let (_, dropped, _) = split_generics(&st.generics);
                    if !dropped.is_empty() || st.generics.lifetimes().next().is_some() { continue; }
                    let ps: Vec<String> = st.generics.type_params().map(|p| p.ident.to_string()).collect();
                    if ps.is_empty() || strip_args.contains(&st.ident.to_string()) { continue; }
                    let txt = emit_type(t, "", &strip_args);
                    let body = &txt[txt.find(|c| c == '{' || c == '(').unwrap_or(0)..];
                    let used = |p: &String| body.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == p);
                    if !ps.iter().any(|p| used(p)) && st.fields.iter().any(|f| ps.iter().any(|p| { let ty = &f.ty; quote!(#ty).to_string().split_whitespace().any(|w| w == p) })) { strip_args.insert(st.ident.to_string()); }
                }
            }
        }
        if strip_args.len() == before { break; }
    }

    // merge modules by path, keep order
    let mut order: Vec<String> = vec![];
    let mut by_path: HashMap<String, Vec<(String, bool, String)>> = HashMap::new(); // path -> (fn id or "", , text)
    let mut rep: Vec<serde_json::Value> = vec![];
    let mut not_under: BTreeMap<String, Vec<String>> = BTreeMap::new();
    let mut missing_types: Vec<String> = vec![];

    for m in &mods {
        if !by_path.contains_key(&m.path) { order.push(m.path.clone()); by_path.insert(m.path.clone(), vec![]); }
        let specs: HashMap<String, FnSpec> = m.items.iter().filter_map(|i| match i { SItem::Fn(f) => Some((f.id.clone(), f.clone())), _ => None }).collect();
        let src = sources.get(&m.file);
        if let Some(Ok(s)) = src {
            for id in &s.order { if !specs.contains_key(id) { not_under.entry(m.file.clone()).or_default().push(id.clone()); } }
        }
        let mut nested_done: HashSet<String> = HashSet::new();
        for it in &m.items {
            let chunk = by_path.get_mut(&m.path).unwrap();
            match it {
                SItem::Raw(t) => chunk.push((String::new(), false, t.clone())),
                SItem::Type { name, attrs } => match src.and_then(|s| s.as_ref().ok()).and_then(|s| s.types.get(name)) {
                    Some(t) => chunk.push((String::new(), false, emit_type(t, attrs, &strip_args))),
                    None => missing_types.push(format!("{}::{}", m.path, name)),
                },
                SItem::Const { name } => match src.and_then(|s| s.as_ref().ok()).and_then(|s| s.consts.get(name)) {
                    Some(c) => { let n = &c.ident; let t = &c.ty; let e = &c.expr; chunk.push((String::new(), false, format!("{}\n", pretty(quote!(pub const #n: #t = #e;))))) }
                    None => missing_types.push(format!("{}::{}", m.path, name)),
                },
                SItem::Fn(sp) => {
                    if sp.id.matches("::").count() >= 1 && nested_done.contains(&sp.id) { continue; }
                    let full = format!("{}::{}", m.path, sp.id);
                    let found = src.and_then(|s| s.as_ref().ok()).and_then(|s| s.fns.get(&sp.id));
                    match found {
                        None => {
                            // maybe nested in another function: emitted with its parent
                            let parent = sp.id.rsplit_once("::").map(|x| x.0.to_string());
                            let is_nested = parent.map_or(false, |p| specs.contains_key(&p));
                            if !is_nested {
                                rep.push(serde_json::json!({"id": full, "status": "missing", "file": m.file, "skeleton": "", "loops": 0, "calls": []}));
                            }
                        }
                        Some(f) => {
                            let mut nested = vec![];
                            let e = emit_fn(&sp.id, f, sp, &ptr_fields, &strip_args, &specs, externals.contains(&full), &HashMap::new(), None, &mut nested, &externals, &m.path);
                            for (nid, ne) in nested {
                                nested_done.insert(nid.clone());
                                let nfull = format!("{}::{}", m.path, nid);
                                rep.push(serde_json::json!({"id": nfull, "status": ne.status, "file": m.file, "skeleton": ne.skeleton, "loops": ne.loops, "calls": ne.calls}));
                                chunk.push((nfull, true, ne.text));
                            }
                            rep.push(serde_json::json!({"id": full, "status": e.status, "file": m.file, "skeleton": e.skeleton, "loops": e.loops, "calls": e.calls}));
                            chunk.push((full, true, e.text));
                        }
                    }
                }
            }
        }
    }

    // what the contracts assume to be derived: equality, order, hashing, copying
    let mut derives: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for (file, s) in sources.iter().filter_map(|(k, s)| s.as_ref().ok().map(|s| (k, s))) {
        for (name, t) in &s.types {
            let attrs = match t { syn::Item::Struct(s) => &s.attrs, syn::Item::Enum(e) => &e.attrs, _ => continue };
            let mut d = vec![];
            for a in attrs.iter().filter(|a| a.path().is_ident("derive")) {
                let _ = a.parse_nested_meta(|m| { if let Some(i) = m.path.segments.last() { d.push(i.ident.to_string()); } Ok(()) });
            }
            d.retain(|n| ["Clone", "Copy", "PartialEq", "Eq", "Hash", "PartialOrd", "Ord"].contains(&n.as_str()));
            d.sort();
            derives.insert(format!("{}: {}", file, name), d);
        }
    }

    // emit the module tree
    let mut text = String::from("#![feature(allocator_api)]\n#![allow(unused, non_snake_case, non_camel_case_types, unused_parens, unused_braces, unused_mut, unused_variables, dead_code)]\n// GENERATED from /repo by /verif/translator on every run. Do not edit.\nuse vstd::prelude::*;\nverus! {\nglobal size_of usize == 8;\n");
    let mut lines: HashMap<String, (usize, usize)> = HashMap::new();
    fn emit_tree(prefix: &str, order: &[String], by_path: &HashMap<String, Vec<(String, bool, String)>>, text: &mut String, lines: &mut HashMap<String, (usize, usize)>) {
        let mut done: HashSet<String> = HashSet::new();
        for p in order {
            let rest = if prefix.is_empty() { p.as_str() } else { match p.strip_prefix(&format!("{}::", prefix)) { Some(r) => r, None => continue } };
            let head = rest.split("::").next().unwrap().to_string();
            if !done.insert(head.clone()) { continue; }
            let full = if prefix.is_empty() { head.clone() } else { format!("{}::{}", prefix, head) };
            text.push_str(&format!("pub mod {} {{\n#[allow(unused_imports)] use vstd::prelude::*;\n", head));
            if full != "prelude" { text.push_str("#[allow(unused_imports)] use crate::prelude::*;\n"); }
            if let Some(items) = by_path.get(&full) {
                for (id, _, t) in items {
                    let a = text.matches('\n').count() + 1;
                    text.push_str(t);
                    if !t.ends_with('\n') { text.push('\n'); }
                    if !id.is_empty() { let b = text.matches('\n').count(); lines.insert(id.clone(), (a, b)); }
                }
            }
            emit_tree(&full, order, by_path, text, lines);
            text.push_str(&format!("}} // mod {}\n", head));
        }
    }
    emit_tree("", &order, &by_path, &mut text, &mut lines);
    text.push_str("} // verus!\nfn main() {}\n");
    for r in rep.iter_mut() {
        let id = r["id"].as_str().unwrap().to_string();
        if let Some((a, b)) = lines.get(&id) { r["lines"] = serde_json::json!([a, b]); }
    }
    fs::write(&out, text).unwrap();
    let bad: BTreeMap<String, String> = sources.iter().filter_map(|(k, v)| v.as_ref().err().map(|e| (k.clone(), e.clone()))).collect();
    fs::write(&report, serde_json::to_string_pretty(&serde_json::json!({"functions": rep, "derives": derives, "not_under_contract": not_under, "missing_types": missing_types, "unparsable_files": bad})).unwrap()).unwrap();
}
