//! vx: extracts functions of /repo and turns them into a Verus source with contracts.
//!
//! usage: vx REPO CONTRACTS OUT.rs META.json [--drop 1,2,3] [--no-contract key,key]
mod print;
mod repo;
mod ret;
mod tx;

use proc_macro2::{Ident, Span, TokenStream};
use quote::{format_ident, quote, ToTokens};
use repo::*;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;
use tx::*;

#[derive(Default, Clone, Debug)]
struct Entry {
    kind: String,
    key: String,
    sections: BTreeMap<String, Vec<String>>,
}

fn parse_contracts(text: &str) -> Vec<Entry> {
    let mut out: Vec<Entry> = vec![];
    let mut sec = String::new();
    for line in text.lines() {
        if line.starts_with("//") || (line.trim().is_empty() && sec.is_empty()) {
            continue;
        }
        if line.starts_with('[') && line.trim_end().ends_with(']') {
            let inner = &line.trim_end()[1..line.trim_end().len() - 1];
            let (k, v) = inner.split_once(' ').unwrap_or((inner, ""));
            out.push(Entry { kind: k.to_string(), key: v.trim().to_string(), sections: BTreeMap::new() });
            sec.clear();
            continue;
        }
        let is_head = !line.starts_with([' ', '\t']) && line.contains(':');
        if is_head {
            let (k, v) = line.split_once(':').unwrap();
            sec = k.trim().to_string();
            let e = out.last_mut().expect("section before entry");
            let s = e.sections.entry(sec.clone()).or_default();
            if !v.trim().is_empty() {
                s.push(v.trim().to_string());
            }
            continue;
        }
        if let Some(e) = out.last_mut() {
            if !line.trim().is_empty() && !line.trim().starts_with("//") {
                e.sections.entry(sec.clone()).or_default().push(line.trim_end().to_string());
            }
        }
    }
    out
}

impl Entry {
    fn text(&self, s: &str) -> String {
        self.sections.get(s).map(|v| v.join("\n")).unwrap_or_default()
    }
    fn lines(&self, s: &str) -> Vec<String> {
        // a line indented deeper than the first continues the previous one
        let mut out: Vec<String> = vec![];
        let v = match self.sections.get(s) {
            Some(v) => v,
            None => return out,
        };
        let ind = |l: &str| l.len() - l.trim_start().len();
        let base = v.iter().map(|l| ind(l)).min().unwrap_or(0);
        for l in v {
            if ind(l) > base && !out.is_empty() {
                let x = out.last_mut().unwrap();
                x.push(' ');
                x.push_str(l.trim());
            } else {
                out.push(l.trim().to_string());
            }
        }
        out
    }
}

/// Shortens paths and normalises result types.
struct Paths;
impl Paths {
    fn fix(p: &mut Path) {
        let prim = ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "isize", "char", "str", "bool"];
        let segs: Vec<PathSegment> = p.segments.iter().cloned().collect();
        if segs.len() > 1 {
            let mut k = 0;
            while k + 1 < segs.len() {
                let s = segs[k].ident.to_string();
                if s.chars().next().unwrap().is_lowercase() && !prim.contains(&s.as_str()) {
                    k += 1;
                } else {
                    break;
                }
            }
            if k > 0 {
                let fmt_result = segs[k].ident == "Result" && segs[k - 1].ident == "fmt";
                p.leading_colon = None;
                p.segments = segs[k..].iter().cloned().collect();
                if fmt_result {
                    p.segments[0] = parse_quote!(FmtResult);
                }
            }
        }
    }
}
impl VisitMut for Paths {
    fn visit_path_mut(&mut self, p: &mut Path) {
        Paths::fix(p);
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        if let Type::Path(p) = t {
            if let Some(s) = p.path.segments.last_mut() {
                if s.ident == "Result" {
                    if let PathArguments::AngleBracketed(a) = &mut s.arguments {
                        if a.args.len() == 1 {
                            a.args.push(parse_quote!(Error));
                        }
                    }
                }
            }
        }
    }
}

fn strip_attrs_item(it: &Item) -> TokenStream {
    struct S;
    impl VisitMut for S {
        fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
            a.clear();
        }
    }
    let mut it = it.clone();
    S.visit_item_mut(&mut it);
    Paths.visit_item_mut(&mut it);
    match &mut it {
        Item::Enum(e) => e.vis = parse_quote!(pub),
        Item::Struct(s) => {
            s.vis = parse_quote!(pub);
            for f in s.fields.iter_mut() {
                f.vis = parse_quote!(pub);
            }
        }
        Item::Const(c) => c.vis = parse_quote!(pub),
        _ => {}
    }
    quote!(#it)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let (root, cfile, out, meta) = (&args[1], &args[2], &args[3], &args[4]);
    let mut drop = BTreeSet::new();
    let mut nocontract: BTreeSet<String> = BTreeSet::new();
    let mut reserved: BTreeSet<String> = RESERVED.iter().map(|s| s.to_string()).collect();
    let mut probe = false;
    let mut types: BTreeMap<String, String> = BTreeMap::new();
    let mut i = 5;
    while i < args.len() {
        match args[i].as_str() {
            "--drop" => {
                drop = args[i + 1].split(',').filter_map(|x| x.parse().ok()).collect();
                i += 1;
            }
            "--no-contract" => {
                nocontract = args[i + 1].split(',').map(|s| s.to_string()).collect();
                i += 1;
            }
            "--probe" => probe = true,
            "--reserved" => {
                reserved.extend(std::fs::read_to_string(&args[i + 1]).expect("reserved").split_whitespace().map(|s| s.to_string()));
                i += 1;
            }
            "--types" => {
                types = serde_json::from_str(&std::fs::read_to_string(&args[i + 1]).expect("types")).expect("types");
                i += 1;
            }
            _ => {}
        }
        i += 1;
    }
    let entries = parse_contracts(&std::fs::read_to_string(cfile).expect("contracts"));
    let mut files = vec![];
    fn walk(root: &str, dir: &str, files: &mut Vec<String>) {
        if let Ok(rd) = std::fs::read_dir(format!("{}/{}", root, dir)) {
            let mut v: Vec<_> = rd.flatten().collect();
            v.sort_by_key(|e| e.file_name());
            for e in v {
                let n = e.file_name().to_string_lossy().to_string();
                let p = format!("{}/{}", dir, n);
                if e.path().is_dir() {
                    walk(root, &p, files);
                } else if n.ends_with(".rs") && n != "tests.rs" {
                    files.push(p);
                }
            }
        }
    }
    let dirs: Vec<String> = entries
        .iter()
        .filter(|e| e.kind == "dir")
        .map(|e| e.key.clone())
        .collect();
    for d in if dirs.is_empty() { vec!["ethabi/src".to_string()] } else { dirs } {
        walk(root, &d, &mut files);
    }
    let repo = Repo::load(root, &files);
    let mut contracted = BTreeSet::new();
    for e in &entries {
        if (e.kind == "fn" || e.kind == "extern" || e.kind == "stub") && !nocontract.contains(&e.key) {
            let key = match e.sections.get("as") {
                Some(a) => format!("{}::{}", a[0], e.key.split("::").last().unwrap()),
                None => e.key.clone(),
            };
            contracted.insert(key);
        }
    }
    let mut g = Global {
        repo: &repo,
        contracted,
        cand: 0,
        drop,
        cand_text: BTreeMap::new(),
        used_consts: BTreeSet::new(),
        probe,
        reserved,
        probes: BTreeMap::new(),
        types,
    };
    let mut text = String::new();
    let mut fns = vec![];
    let mut errors: Vec<String> = repo.errors.clone();
    let mut missing: Vec<String> = vec![];
    for e in &entries {
        match e.kind.as_str() {
            "type" => match repo.types.get(&e.key) {
                Some(it) => {
                    text.push_str(&print::print(strip_attrs_item(it)));
                    text.push('\n');
                }
                None => errors.push(format!("type {} not found", e.key)),
            },
            "tagged" => {
                let (t, errs) = tagged(&repo, &e.key);
                text.push_str(&t);
                errors.extend(errs);
            }
            "fn" | "stub" if !nocontract.contains(&e.key) => {
                let mut found = repo.find(&e.key);
                // implementation of a trait overriding the default method
                if let Some(a) = e.sections.get("as") {
                    let (tr, name) = e.key.split_once("::").unwrap();
                    let k = format!("<{} as {}>::{}", a[0], tr, name);
                    let f2 = repo.find(&k);
                    if !f2.is_empty() {
                        found = f2;
                    }
                }
                if let Some(want) = e.sections.get("file") {
                    found.retain(|f| f.file == want[0]);
                }
                if found.len() != 1 {
                    missing.push(e.key.clone());
                    if e.sections.contains_key("required") || found.len() > 1 {
                        errors.push(format!("function {}: {} definitions", e.key, found.len()));
                    }
                    continue;
                }
                let mut f = found[0].clone();
                if e.kind == "stub" {
                    f.block = parse_quote!({ unimplemented!() });
                }
                let start = text.matches('\n').count() + 1;
                let (t, info, errs) = emit_fn(&mut g, &f, e);
                text.push_str(&t);
                text.push('\n');
                let end = text.matches('\n').count() + 1;
                if e.kind == "stub" {
                    continue;
                }
                for x in errs {
                    errors.push(format!("{}: {}", e.key, x));
                }
                let mut info = info;
                info["lines"] = json!([start, end]);
                fns.push(info);
            }
            "verbatim" => {
                text.push_str(&e.text("text"));
                text.push('\n');
            }
            _ => {}
        }
    }
    let mut consts = String::new();
    for c in &g.used_consts {
        let (_, c) = &repo.consts[c];
        consts.push_str(&print::print(strip_attrs_item(&Item::Const(c.clone()))));
    }
    let text = format!("{}\n//CONSTS\n{}", text, consts);
    std::fs::write(out, text).unwrap();
    let cands: BTreeMap<String, String> = g.cand_text.iter().map(|(k, v)| (k.to_string(), v.clone())).collect();
    std::fs::write(
        meta,
        serde_json::to_string_pretty(&json!({
            "functions": fns, "errors": errors, "missing": missing, "candidates": cands, "probes": g.probes.iter().map(|(k, v)| (k.to_string(), v.clone())).collect::<BTreeMap<String, String>>(),
        }))
        .unwrap(),
    )
    .unwrap();
}

pub struct Bound(pub BTreeSet<String>);
impl<'a> syn::visit::Visit<'a> for Bound {
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
        self.0.insert(p.ident.to_string());
        syn::visit::visit_pat_ident(self, p);
    }
}

pub fn is_text_ty(t: &Type) -> bool {
    matches!(t.to_token_stream().to_string().replace(' ', "").as_str(), "&str" | "String" | "&String" | "&'astr" | "&mutString")
}

/// name of a variant for serde
fn serde_name(attrs: &[Attribute], all: Option<&str>, ident: &str) -> String {
    let t: String = attrs.iter().map(|a| a.to_token_stream().to_string()).collect();
    match attr_value(&t, "rename") {
        Some(v) => v,
        None => match all {
            Some("lowercase") => ident.to_lowercase(),
            Some("camelCase") => ident[..1].to_lowercase() + &ident[1..],
            Some(_) => String::new(),
            None => ident.to_string(),
        },
    }
}
fn attr_value(t: &str, key: &str) -> Option<String> {
    let t = t.replace(' ', "");
    let p = t.find(&format!("{}=\"", key))?;
    let r = &t[p + key.len() + 2..];
    Some(r[..r.find('"')?].to_string())
}

/// the enums written with `#[serde(tag = "type")]`, related to the variants of `key` by the names that serde gives them
fn tagged(repo: &Repo, key: &str) -> (String, Vec<String>) {
    let attrs = |e: &ItemEnum| -> String { e.attrs.iter().map(|a| a.to_token_stream().to_string()).collect() };
    let base = match repo.types.get(key) {
        Some(Item::Enum(e)) => e.clone(),
        _ => return (String::new(), vec![format!("enum {} not found", key)]),
    };
    let names = |e: &ItemEnum| -> BTreeMap<String, Variant> {
        let a = attrs(e);
        let all = attr_value(&a, "rename_all");
        e.variants.iter().map(|v| (serde_name(&v.attrs, all.as_deref(), &v.ident.to_string()), v.clone())).collect()
    };
    let want = names(&base);
    let bid = &base.ident;
    let mut out = String::new();
    for it in repo.types.values() {
        let e = match it {
            Item::Enum(e) => e,
            _ => continue,
        };
        if attr_value(&attrs(e), "tag") != attr_value(&attrs(&base), "tag") || attr_value(&attrs(e), "tag").is_none() {
            continue;
        }
        let id = &e.ident;
        let mut arms = TokenStream::new();
        for (n, v) in names(e) {
            let vi = &v.ident;
            let (pat, arg) = match &v.fields {
                Fields::Unit => (quote!(#id::#vi), quote!()),
                Fields::Unnamed(f) if f.unnamed.len() == 1 => match &f.unnamed[0].ty {
                    Type::Reference(_) => (quote!(#id::#vi(x)), quote!((*x))),
                    _ => (quote!(#id::#vi(x)), quote!((x))),
                },
                _ => (quote!(#id::#vi(..)), quote!((arbitrary()))),
            };
            let body = match want.get(&n) {
                Some(w) if matches!(w.fields, Fields::Unit) == matches!(v.fields, Fields::Unit) => {
                    let wi = &w.ident;
                    quote!(#bid::#wi #arg)
                }
                _ => quote!(arbitrary()),
            };
            arms.extend(quote!(#pat => #body,));
        }
        let (a, b, c) = e.generics.split_for_impl();
        if id != bid {
            out.push_str(&print::print(strip_attrs_item(it)));
            out.push('\n');
        }
        let q = quote!(impl #a VxOp for #id #b #c { open spec fn opv(&self) -> #bid { match *self { #arms } } });
        out.push_str(&q.to_string());
        out.push('\n');
    }
    (out, vec![])
}

/// `A(x) | B(x) => e` is written as two arms where x may be bound by mutable reference
struct SplitOr;
impl VisitMut for SplitOr {
    fn visit_expr_match_mut(&mut self, m: &mut ExprMatch) {
        visit_mut::visit_expr_match_mut(self, m);
        let mut arms = vec![];
        for a in m.arms.drain(..) {
            match &a.pat {
                Pat::Or(o) if o.cases.iter().any(|c| !matches!(c, Pat::Lit(_) | Pat::Path(_) | Pat::Wild(_) | Pat::Range(_))) => {
                    for c in &o.cases {
                        let mut b = a.clone();
                        b.pat = c.clone();
                        if b.comma.is_none() {
                            b.comma = Some(Default::default());
                        }
                        arms.push(b);
                    }
                }
                _ => arms.push(a),
            }
        }
        m.arms = arms;
    }
}

fn emit_fn(g: &mut Global, f: &FnDef, e: &Entry) -> (String, serde_json::Value, Vec<String>) {
    let mut f = f.clone();
    {
        // words that are reserved in Verus
        let b = &f.block;
        f.block = syn::parse2(unreserve(quote!(#b), &g.reserved)).unwrap_or(f.block.clone());
        let s = &f.sig;
        f.sig = syn::parse2(unreserve(quote!(#s), &g.reserved)).unwrap_or(f.sig.clone());
    }
    let source = {
        let (s, b) = (&f.sig, &f.block);
        quote!(#s #b).to_string()
    };
    let owner = match e.sections.get("as") {
        Some(a) => Some(a[0].clone()),
        None => f.owner.clone(),
    };
    // parameters: names and mutable bindings
    let mut params = vec![];
    let mut pre = TokenStream::new();
    let mut rebound: BTreeSet<String> = BTreeSet::new();
    let free = e.sections.contains_key("name");
    if free && f.sig.receiver().is_some() {
        let r = f.sig.receiver().unwrap().clone();
        let st = f.self_ty.clone().unwrap();
        let lt = r.reference.as_ref().and_then(|(_, l)| l.clone());
        let arg: FnArg = match (&r.reference, &r.mutability) {
            (Some(_), None) => parse_quote!(slf: &#lt #st),
            (Some(_), Some(_)) => parse_quote!(slf: &#lt mut #st),
            (None, None) => parse_quote!(slf: #st),
            (None, Some(_)) => parse_quote!(mut slf: #st),
        };
        f.sig.inputs[0] = arg;
        struct RS;
        impl VisitMut for RS {
            fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
                if p.path.is_ident("self") {
                    p.path = parse_quote!(slf);
                }
            }
            fn visit_macro_mut(&mut self, m: &mut Macro) {
                fn go(ts: TokenStream) -> TokenStream {
                    ts.into_iter()
                        .map(|t| match t {
                            proc_macro2::TokenTree::Ident(i) if i == "self" => {
                                proc_macro2::TokenTree::Ident(Ident::new("slf", Span::call_site()))
                            }
                            proc_macro2::TokenTree::Group(g) => proc_macro2::TokenTree::Group(proc_macro2::Group::new(
                                g.delimiter(),
                                go(g.stream()),
                            )),
                            t => t,
                        })
                        .collect()
                }
                m.tokens = go(m.tokens.clone());
            }
        }
        RS.visit_block_mut(&mut f.block);
    }
    for inp in f.sig.inputs.iter_mut() {
        if let FnArg::Typed(t) = inp {
            match &mut *t.pat {
                Pat::Ident(i) => {
                    let n = i.ident.clone();
                    if i.mutability.is_some() {
                        i.mutability = None;
                        rebound.insert(n.to_string());
                        pre.extend(quote!(let mut #n = #n;));
                    }
                    params.push(n.to_string());
                }
                p => {
                    let n = format_ident!("__p{}", params.len() + 1);
                    let q = p.clone();
                    pre.extend(quote!(let #q = #n;));
                    **(&mut t.pat) = parse_quote!(#n);
                    params.push(n.to_string());
                }
            }
        } else if let FnArg::Receiver(r) = inp {
            if r.reference.is_none() && r.mutability.is_some() {
                r.mutability = None;
            }
        }
    }
    let pool = Pool {
        inv: e.lines("inv"),
        step: e.lines("step"),
        post: e.lines("post"),
        pre: e.lines("pre"),
        end: e.lines("end"),
        dec: e.lines("dec"),
        ens: e.lines("ens"),
    };
    let ret_result = match &f.sig.output {
        ReturnType::Type(_, t) => ty_name(t) == "Result",
        _ => false,
    };
    // a parameter whose name is bound again in the body is kept under another name
    let mut bound = Bound(BTreeSet::new());
    bound.visit_block(&f.block);
    let frozen: Vec<String> =
        params.iter().enumerate().map(|(k, p)| if bound.0.contains(p) || rebound.contains(p) { format!("__g{}", k + 1) } else { p.clone() }).collect();
    let mut tx = Tx {
        g,
        file: f.file.clone(),
        owner: owner.clone(),
        pool,
        params: frozen.clone(),
        n: 0,
        errs: vec![],
        inlined: vec![],
        loops: 0,
        strlits: BTreeSet::new(),
        kinds: BTreeMap::new(),
        stack: vec![f.key.clone()],
        ret_result,
        nomeasure: 0,
        texts: f
            .sig
            .inputs
            .iter()
            .filter_map(|i| match i {
                FnArg::Typed(t) if is_text_ty(&t.ty) => match &*t.pat {
                    Pat::Ident(i) => Some(i.ident.to_string()),
                    _ => None,
                },
                _ => None,
            })
            .collect(),
        names: bound.0.iter().cloned().chain(params.iter().cloned()).chain(frozen.iter().cloned()).collect(),
    };
    let mut block = f.block.clone();
    if f.sig.inputs.iter().any(|i| matches!(i, FnArg::Typed(t) if matches!(&*t.ty, Type::Reference(r) if r.mutability.is_some()))) {
        SplitOr.visit_block_mut(&mut block);
    }
    tx.visit_block_mut(&mut block);
    // shorten paths in what is left as syntax
    let text_block = {
        let st = &block.stmts;
        quote!(#(#st)*)
    };
    let text_block = fix_paths(text_block);
    let mut sig = f.sig.clone();
    Paths.visit_signature_mut(&mut sig);
    if let Some(n) = e.sections.get("name") {
        sig.ident = Ident::new(&n[0], Span::call_site());
    }
    let subst = |s: &str| {
        let mut s = s.to_string();
        for (k, p) in params.iter().enumerate() {
            s = s.replace(&format!("#{}", k + 1), p);
        }
        s
    };
    let mut hints = String::new();
    let mut lits: Vec<String> = tx.strlits.iter().cloned().collect();
    lits.retain(|l| l.len() < 60);
    for l in &lits {
        hints.push_str(&format!("proof {{ reveal_strlit({:?}); }}\n", l));
    }
    for (p, g) in params.iter().zip(&frozen) {
        if p != g {
            hints.push_str(&format!("let ghost {} = {};\n", g, p));
        }
    }
    for h in e.lines("ghost") {
        hints.push_str(&format!("let ghost {};\n", subst(&h)));
    }
    let entry = e.lines("entry");
    for h in &entry {
        let h = subst(h);
        if let Some(cid) = {
            tx.g.cand += 1;
            let n = tx.g.cand;
            tx.g.cand_text.insert(n, h.clone());
            if tx.g.probe || tx.g.drop.contains(&n) {
                None
            } else {
                Some(n)
            }
        } {
            hints.push_str(&format!("/*D{}*/ proof {{ {} }}\n", cid, h));
        }
    }
    let name = &sig.ident;
    let gen = if free {
        // move the impl generics to the function
        let mut gp = sig.generics.clone();
        if let Some(ig) = &f.impl_generics {
            for p in &ig.params {
                gp.params.push(p.clone());
            }
        }
        gp
    } else {
        sig.generics.clone()
    };
    let (ig, _, wh) = gen.split_for_impl();
    let wh = e.sections.get("where").map(|w| w.join(" ")).unwrap_or(quote!(#wh).to_string());
    let ins = &sig.inputs;
    let ret = match e.sections.get("ret") {
        Some(r) => format!("-> (__r: {})", r[0]),
        None => match &sig.output {
            ReturnType::Default => String::new(),
            ReturnType::Type(_, t) => format!("-> (__r: {})", print::print(quote!(#t))),
        },
    };
    let generics = match e.sections.get("generics") {
        Some(x) => x.join(" "),
        None => print::print(quote!(#ig)),
    };
    let inputs = match e.sections.get("inputs") {
        Some(x) => x.join(" "),
        None => print::print(quote!(#ins)),
    };
    let mut t = String::new();
    let wrap = owner.is_some() && !free;
    if wrap {
        let st = match (e.sections.get("as"), &f.self_ty) {
            (Some(a), _) => a[0].clone(),
            (None, Some(t)) => print::print(quote!(#t)),
            _ => owner.clone().unwrap(),
        };
        let g = f.impl_generics.as_ref().map(|g| print::print(quote!(#g))).unwrap_or_default();
        t.push_str(&format!("impl{} {} {{\n", g, st));
    }
    t.push_str("#[verifier::loop_isolation(false)]\n");
    let strict = std::env::var("VX_STRICT").is_ok();
    if !strict && (!e.text("spec").contains("decreases") || tx.nomeasure > 0) {
        t.push_str("#[verifier::exec_allows_no_decreases_clause]\n");
    }
    if !e.lines("ens").is_empty() {
        t.push_str("#[verifier::allow_complex_invariants]\n");
    }
    for a in e.lines("attrs") {
        t.push_str(&a);
        t.push('\n');
    }
    t.push_str(&format!("pub fn {}{}({}) {} {}\n", name, generics, inputs, ret, wh));
    t.push_str(&subst(&e.text("spec")));
    t.push_str("\n{\n");
    t.push_str(&hints);
    t.push_str(&print::print(pre));
    t.push_str(&print::print(text_block));
    t.push_str("\n}\n");
    if wrap {
        t.push_str("}\n");
    }
    let t = match (&f.self_ty, free) {
        (Some(st), true) => replace_word(&t, "Self", &print::print(quote!(#st))),
        _ => t,
    };
    let info = json!({
        "key": match e.sections.get("as") { Some(a) => format!("{} for {}", e.key, a[0]), None => e.key.clone() },
        "file": f.file, "line": f.line, "loops": tx.loops, "inlined": tx.inlined,
        "source_fnv": format!("{:016x}", fnv(&source)),
    });
    let errs = tx.errs.clone();
    (t, info, errs)
}

fn replace_word(t: &str, w: &str, by: &str) -> String {
    let mut out = String::new();
    let cs: Vec<char> = t.chars().collect();
    let wl: Vec<char> = w.chars().collect();
    let mut i = 0;
    let is = |c: char| c.is_alphanumeric() || c == '_';
    while i < cs.len() {
        if cs[i..].starts_with(&wl) && (i == 0 || !is(cs[i - 1])) && !cs.get(i + wl.len()).map(|c| is(*c)).unwrap_or(false) {
            // `Self::X` in paths keeps working for plain types only
            out.push_str(by);
            i += wl.len();
        } else {
            out.push(cs[i]);
            i += 1;
        }
    }
    out
}

fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

const RESERVED: &[&str] = &[
    "int", "nat", "real", "spec", "proof", "ghost", "tracked", "exec", "assume", "assert", "forall", "exists", "choose", "requires",
    "ensures", "invariant", "decreases", "by", "open", "closed", "via", "when", "is", "has", "matches", "broadcast", "final",
    "old", "recommends", "returns", "reveal", "hide", "implies", "verus", "calc", "code", "uninterp", "group", "axiom", "global",
];
/// Renames variables whose names mean something else in Verus.
fn unreserve(ts: TokenStream, words: &BTreeSet<String>) -> TokenStream {
    use proc_macro2::TokenTree as T;
    let v: Vec<T> = ts.into_iter().collect();
    let mut out: Vec<T> = vec![];
    for i in 0..v.len() {
        match &v[i] {
            T::Group(g) => {
                let mut n = proc_macro2::Group::new(g.delimiter(), unreserve(g.stream(), words));
                n.set_span(g.span());
                out.push(T::Group(n));
            }
            T::Ident(x) if words.contains(&x.to_string()) => {
                let p = |k: Option<&T>, c: &str| matches!(k, Some(T::Punct(q)) if c.contains(q.as_char()));
                let prev_dot = i > 0 && (p(v.get(i - 1), ".") && !(i > 1 && p(v.get(i - 2), ".")));
                let prev_path = i > 1 && p(v.get(i - 1), ":") && p(v.get(i - 2), ":");
                let next_path = p(v.get(i + 1), ":") && p(v.get(i + 2), ":");
                let next_bang = p(v.get(i + 1), "!") && matches!(v.get(i + 2), Some(T::Group(_)));
                let call = matches!(v.get(i + 1), Some(T::Group(g)) if g.delimiter() == proc_macro2::Delimiter::Parenthesis);
                if prev_dot || prev_path || next_path || next_bang || call {
                    out.push(v[i].clone());
                } else {
                    out.push(T::Ident(Ident::new(&format!("{}_", x), x.span())));
                }
            }
            t => out.push(t.clone()),
        }
    }
    out.into_iter().collect()
}

/// Token-level path shortening: drops leading lowercase segments of `a::b::C`.
fn fix_paths(ts: TokenStream) -> TokenStream {
    use proc_macro2::TokenTree as T;
    let v: Vec<T> = ts.into_iter().collect();
    let mut out: Vec<T> = vec![];
    let mut i = 0;
    let prim = ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "isize", "char", "str", "bool", "self"];
    while i < v.len() {
        match &v[i] {
            T::Group(g) => {
                let mut n = proc_macro2::Group::new(g.delimiter(), fix_paths(g.stream()));
                n.set_span(g.span());
                out.push(T::Group(n));
            }
            T::Ident(x) => {
                let s = x.to_string();
                let c = s.chars().next().unwrap();
                let colons = matches!((v.get(i + 1), v.get(i + 2)), (Some(T::Punct(a)), Some(T::Punct(b))) if a.as_char() == ':' && b.as_char() == ':' && a.spacing() == proc_macro2::Spacing::Joint);
                let next_ident = matches!(v.get(i + 3), Some(T::Ident(_)));
                if c.is_lowercase() && !prim.contains(&s.as_str()) && colons && next_ident && s != "vstd" {
                    i += 3;
                    continue;
                }
                out.push(v[i].clone());
            }
            t => out.push(t.clone()),
        }
        i += 1;
    }
    let _ = |x: &dyn ToTokens| x.to_token_stream();
    out.into_iter().collect()
}
