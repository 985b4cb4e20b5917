//! The mechanical translation of function bodies into the subset Verus accepts.
//!
//! Iterator chains and `for` loops become `while` loops over an index, closures given to
//! Option/Result combinators become `match`es, calls of functions that have no contract are
//! replaced by their bodies, standard library methods Verus has no specification for are renamed
//! to the `vx_` shims of the prelude, and formatting macros become string concatenation.
use crate::repo::*;
use proc_macro2::{Ident, Span, TokenStream};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use std::str::FromStr;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone, Default, Debug)]
pub struct Pool {
    pub inv: Vec<String>,
    pub step: Vec<String>,
    pub post: Vec<String>,
    pub pre: Vec<String>,
    pub end: Vec<String>,
    pub dec: Vec<String>,
    /// what holds when a loop without an index ends
    pub ens: Vec<String>,
}

pub struct Global<'a> {
    pub repo: &'a Repo,
    /// names of functions with a contract (last path segment and owner-qualified)
    pub contracted: BTreeSet<String>,
    pub cand: usize,
    pub drop: BTreeSet<usize>,
    pub cand_text: BTreeMap<usize, String>,
    pub used_consts: BTreeSet<String>,
    /// emit type probes instead of candidates
    pub probe: bool,
    pub reserved: BTreeSet<String>,
    pub probes: BTreeMap<usize, String>,
    /// types of loop variables: `function#loop#variable` to normalised type
    pub types: BTreeMap<String, String>,
}

pub struct Tx<'a, 'b> {
    pub g: &'b mut Global<'a>,
    pub file: String,
    pub owner: Option<String>,
    pub pool: Pool,
    pub params: Vec<String>,
    pub n: usize,
    pub errs: Vec<String>,
    pub inlined: Vec<String>,
    pub loops: usize,
    pub strlits: BTreeSet<String>,
    pub kinds: BTreeMap<String, &'static str>,
    pub stack: Vec<String>,
    pub ret_result: bool,
    /// loops without a measure
    pub nomeasure: usize,
    pub names: BTreeSet<String>,
    /// variables that hold text
    pub texts: BTreeSet<String>,
}

fn id(s: &str) -> Ident {
    Ident::new(s, Span::call_site())
}

const SOURCES: &[&str] = &["iter", "into_iter", "chars", "char_indices", "bytes", "values", "keys"];
const ADAPTERS: &[&str] = &[
    "map", "filter", "enumerate", "zip", "skip", "take", "rev", "cloned", "copied", "flat_map", "flatten", "chain",
    "filter_map", "peekable", "by_ref", "take_while",
];
const CONSUMERS: &[&str] = &[
    "collect", "sum", "fold", "all", "any", "count", "find", "position", "next", "last", "for_each", "try_fold",
    "try_for_each",
];

pub fn rename(m: &str) -> Option<&'static str> {
    Some(match m {
        "into" => "vx_into",
        "len" => "vx_len",
        "as_ref" => "vx_as_ref",
        "as_mut" => "vx_as_mut",
        "to_vec" => "vx_to_vec",
        "to_owned" => "vx_to_owned",
        "to_string" => "vx_to_string",
        "into_owned" => "vx_into_owned",
        "extend" | "extend_from_slice" => "vx_extend",
        "join" => "vx_join",
        "concat" => "vx_concat",
        "clone" => "vx_clone",
        "cloned" | "copied" => "vx_cloned",
        "to_be_bytes" => "vx_to_be_bytes",
        "cmp" => "vx_cmp",
        "is_empty" => "vx_is_empty",
        "into_bytes" => "vx_into_bytes",
        "push_str" => "vx_push_str",
        "truncate" => "vx_truncate",
        "starts_with" => "vx_starts_with",
        "ends_with" => "vx_ends_with",
        "strip_prefix" => "vx_strip_prefix",
        "strip_suffix" => "vx_strip_suffix",
        "trim_start_matches" => "vx_trim_start_matches",
        "replace" => "vx_replace",
        "index" => "vx_index",
        "find" => "vx_find",
        "rfind" => "vx_rfind",
        "parse" => "vx_parse",
        "get" => "vx_get",
        "first" => "vx_first",
        "iter" => "vx_iter",
        "into_iter" => "vx_into_iter",
        "is_zero" => "vx_is_zero",
        "last" => "vx_last",
        "entry" => "vx_entry",
        "or_default" => "vx_or_default",
        "or_insert" => "vx_or_insert",
        "contains_key" => "vx_contains_key",
        "insert" => "vx_insert",
        "contains" => "vx_contains",
        "resize" => "vx_resize",
        "reserve" | "reserve_exact" => "vx_reserve",
        "clear" => "vx_clear",
        "as_bytes" => "vx_as_bytes",
        "as_slice" => "vx_as_slice",
        "as_str" => "vx_as_str",
        "append" => "vx_append",
        "split_at" => "vx_split_at",
        "min" => "vx_min",
        "max" => "vx_max",
        "overflowing_neg" => "vx_overflowing_neg",
        "eq" => "vx_eq",
        "saturating_add" => "vx_saturating_add",
        "saturating_sub" => "vx_saturating_sub",
        "next_multiple_of" => "vx_next_multiple_of",
        "div_ceil" => "vx_div_ceil",
        "values" => "vx_values",
        _ => return None,
    })
}

enum Ad {
    Map(Expr),
    Filter(Expr),
    FilterMap(Expr),
    Enumerate,
    Zip(TokenStream, Vec<Ad>),
    Skip(TokenStream),
    Take(TokenStream),
    Rev,
    Cloned,
    FlatMap(Expr),
    Flatten,
}

struct Chain {
    src: TokenStream,
    ads: Vec<Ad>,
    then: Option<Box<Chain>>,
    tmp: Option<(TokenStream, TokenStream)>,
}

impl<'a, 'b> Tx<'a, 'b> {
    fn err(&mut self, s: impl Into<String>) {
        self.errs.push(s.into());
    }
    fn fresh(&mut self) -> usize {
        self.n += 1;
        self.n
    }

    // ---- kinds -------------------------------------------------------------------------------

    pub fn ret_kind(&self, e: &Expr) -> Option<&'static str> {
        match e {
            Expr::Paren(p) => self.ret_kind(&p.expr),
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match n.trim_start_matches("vx_") {
                    "get" | "next" | "last" | "find" | "rfind" | "first" | "position" | "strip_prefix"
                    | "strip_suffix" | "get_mut" | "pop" | "checked_add" | "checked_sub" | "checked_mul" | "ok" => Some("Option"),
                    "parse" | "map_err" | "ok_or" | "ok_or_else" | "collect" => Some("Result"),
                    "map" | "and_then" | "cloned" | "copied" | "as_ref" | "filter" | "or_else" => {
                        self.ret_kind(&m.receiver)
                    }
                    n if n.starts_with("next_") => Some("Result"),
                    n => self.fn_kind(n),
                }
            }
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) => {
                    let n = p.path.segments.last().unwrap().ident.to_string();
                    match n.as_str() {
                        "Some" => Some("Option"),
                        "Ok" | "Err" => Some("Result"),
                        "decode" | "from_dec_str" | "from_utf8" => Some("Result"),
                        _ => self.fn_kind(&n),
                    }
                }
                _ => None,
            },
            Expr::Path(p) if p.path.is_ident("None") => Some("Option"),
            Expr::Path(p) => p.path.get_ident().and_then(|i| self.kinds.get(&i.to_string()).copied()),
            Expr::Field(f) => match &f.member {
                Member::Named(i) => self.field_kind(&i.to_string()),
                _ => None,
            },
            Expr::Reference(r) => self.ret_kind(&r.expr),
            _ => None,
        }
    }
    fn field_kind(&self, f: &str) -> Option<&'static str> {
        for it in self.g.repo.types.values() {
            if let Item::Struct(s) = it {
                for x in &s.fields {
                    if x.ident.as_ref().map(|i| i == f).unwrap_or(false) && ty_name(&x.ty) == "Option" {
                        return Some("Option");
                    }
                }
            }
        }
        None
    }
    fn fn_kind(&self, n: &str) -> Option<&'static str> {
        for f in &self.g.repo.fns {
            if f.name == n {
                if let ReturnType::Type(_, t) = &f.sig.output {
                    match ty_name(t).as_str() {
                        "Option" => return Some("Option"),
                        "Result" => return Some("Result"),
                        _ => {}
                    }
                }
            }
        }
        // trait methods without a body
        if n.starts_with("tokenize") {
            return Some("Result");
        }
        None
    }

    // ---- closures ----------------------------------------------------------------------------

    /// Code that applies the function expression `f` to `arg`.
    fn apply(&mut self, f: &Expr, args: &[TokenStream]) -> TokenStream {
        match f {
            Expr::Closure(c) => {
                let mut body = (*c.body).clone();
                let mut early = false;
                if has_return(&c.body) {
                    let b: Block = match &body {
                        Expr::Block(b) => b.block.clone(),
                        e => parse_quote!({ #e }),
                    };
                    match crate::ret::remove(&b, &c.output) {
                        Some(b) => {
                            body = parse_quote!(#b);
                            early = true;
                        }
                        None => self.err("closure with return or ?"),
                    }
                }
                self.visit_expr_mut(&mut body);
                if early {
                    let k = self.fresh();
                    let c = format_ident!("__c{}", k);
                    let t = body.to_token_stream().to_string();
                    if t.contains("Ok (") {
                        body = Expr::Verbatim(quote!({ let #c: Result<_, Error> = #body; #c }));
                    }
                }
                let mut lets = TokenStream::new();
                for (p, a) in c.inputs.iter().zip(args) {
                    lets.extend(let_pat(p, a.clone()));
                }
                quote!({ #lets #body })
            }
            Expr::Path(p) => {
                let s = p.to_token_stream().to_string().replace(' ', "");
                let a = &args[0];
                match s.as_str() {
                    "Into::into" | "From::from" => quote!(vx_into(#a)),
                    "Clone::clone" => quote!((#a).vx_clone()),
                    "ToString::to_string" => quote!((#a).vx_to_string()),
                    "ToOwned::to_owned" => quote!((#a).vx_to_owned()),
                    _ => {
                        let call: Expr = parse_quote!(#p(#(#args),*));
                        let mut call = call;
                        self.visit_expr_mut(&mut call);
                        quote!(#call)
                    }
                }
            }
            _ => {
                self.err("function expression");
                quote!(())
            }
        }
    }

    // ---- iterator chains ---------------------------------------------------------------------

    fn is_iter(&self, e: &Expr) -> bool {
        match e {
            Expr::Paren(p) => self.is_iter(&p.expr),
            Expr::Range(_) => true,
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if SOURCES.contains(&n.as_str()) && m.args.is_empty() || n == "chunks" && m.args.len() == 1 || n == "tuples" && self.is_iter(&m.receiver) {
                    return true;
                }
                ADAPTERS.contains(&n.as_str()) && self.is_iter(&m.receiver)
            }
            _ => false,
        }
    }

    /// Parses an iterator expression (without consumer); visits the parts.
    fn chain(&mut self, e: &Expr) -> Chain {
        match e {
            Expr::Paren(p) => return self.chain(&p.expr),
            Expr::Range(r) => {
                let mut r = r.clone();
                if let (Some(a), Some(b)) = (&mut r.start, &mut r.end) {
                    self.visit_expr_mut(a);
                    self.visit_expr_mut(b);
                    let src = match r.limits {
                        RangeLimits::HalfOpen(_) => quote!(vx_range(#a, #b)),
                        RangeLimits::Closed(_) => quote!(vx_range_incl(#a, #b)),
                    };
                    return Chain { src, ads: vec![], then: None, tmp: None };
                }
                self.err("open range");
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if n == "chunks" && m.args.len() == 1 {
                    let mut r = (*m.receiver).clone();
                    let mut a = m.args[0].clone();
                    self.visit_expr_mut(&mut r);
                    self.visit_expr_mut(&mut a);
                    return Chain { src: quote!(vx_chunks(#r.vx_as_slice(), #a)), ads: vec![], then: None, tmp: None };
                }
                if n == "tuples" {
                    let ok = m.turbofish.as_ref().map(|t| t.to_token_stream().to_string().replace(' ', "")) == Some("::<(_,_)>".to_string());
                    match &*m.receiver {
                        Expr::MethodCall(i) if ok && i.method == "iter" => {
                            let mut r = (*i.receiver).clone();
                            self.visit_expr_mut(&mut r);
                            return Chain { src: quote!(vx_pairs(#r.vx_as_slice())), ads: vec![], then: None, tmp: None };
                        }
                        _ => self.err("tuples"),
                    }
                }
                if SOURCES.contains(&n.as_str()) && m.args.is_empty() {
                    let mut r = (*m.receiver).clone();
                    if n == "into_iter" && self.is_iter(&r) {
                        return self.chain(&r);
                    }
                    self.visit_expr_mut(&mut r);
                    let src = match n.as_str() {
                        "iter" => quote!(#r.vx_refs()),
                        "into_iter" => quote!(vx_src(#r)),
                        "chars" => quote!(#r.vx_chars()),
                        "char_indices" => quote!(#r.vx_char_indices()),
                        "bytes" => quote!(#r.vx_bytes()),
                        "values" => quote!(#r.vx_values()),
                        _ => quote!(#r.vx_keys()),
                    };
                    // a temporary has to outlive the loop
                    let tmp = match &*m.receiver {
                        Expr::Call(_) | Expr::MethodCall(_) | Expr::Macro(_) if n != "into_iter" => {
                            let t = format_ident!("__tmp{}", self.fresh());
                            let meth = match n.as_str() {
                                "iter" => "vx_refs".to_string(),
                                x => format!("vx_{}", x),
                            };
                            let meth = id(&meth);
                            Some((quote!(let #t = #r;), quote!(#t.#meth())))
                        }
                        _ => None,
                    };
                    return Chain { src, ads: vec![], then: None, tmp };
                }
                if self.is_iter(e) {
                    let mut c = self.chain(&m.receiver);
                    let a0 = m.args.first().cloned();
                    let mut push = |c: &mut Chain, a: Ad| {
                        if c.then.is_some() {
                            return false;
                        }
                        c.ads.push(a);
                        true
                    };
                    let ok = match n.as_str() {
                        "map" => push(&mut c, Ad::Map(a0.unwrap())),
                        "filter" => push(&mut c, Ad::Filter(a0.unwrap())),
                        "filter_map" => push(&mut c, Ad::FilterMap(a0.unwrap())),
                        "enumerate" => push(&mut c, Ad::Enumerate),
                        "cloned" | "copied" => push(&mut c, Ad::Cloned),
                        "rev" => push(&mut c, Ad::Rev),
                        "flatten" => push(&mut c, Ad::Flatten),
                        "flat_map" => push(&mut c, Ad::FlatMap(a0.unwrap())),
                        "skip" | "take" => {
                            let mut a = a0.unwrap();
                            self.visit_expr_mut(&mut a);
                            let t = quote!(#a);
                            push(&mut c, if n == "skip" { Ad::Skip(t) } else { Ad::Take(t) })
                        }
                        "zip" => {
                            let a = a0.unwrap();
                            let z = if self.is_iter(&a) {
                                let k = self.chain(&a);
                                if k.ads.iter().any(|a| !matches!(a, Ad::Map(_) | Ad::Cloned)) || k.then.is_some() {
                                    self.err("zip with adapters");
                                }
                                (k.src, k.ads)
                            } else {
                                let mut a = a;
                                self.visit_expr_mut(&mut a);
                                (quote!(vx_src(#a)), vec![])
                            };
                            push(&mut c, Ad::Zip(z.0, z.1))
                        }
                        "chain" => {
                            let a = a0.unwrap();
                            let k = if self.is_iter(&a) {
                                self.chain(&a)
                            } else {
                                let mut a = a;
                                self.visit_expr_mut(&mut a);
                                Chain { src: quote!(vx_src(#a)), ads: vec![], then: None, tmp: None }
                            };
                            let mut t = &mut c;
                            while t.then.is_some() {
                                t = t.then.as_mut().unwrap();
                            }
                            t.then = Some(Box::new(k));
                            true
                        }
                        _ => false,
                    };
                    if !ok {
                        self.err(format!("iterator adapter {}", n));
                    }
                    return c;
                }
                let mut r = e.clone();
                self.visit_expr_mut(&mut r);
                return Chain { src: quote!(vx_src(#r)), ads: vec![], then: None, tmp: None };
            }
            _ => {
                let mut r = e.clone();
                self.visit_expr_mut(&mut r);
                return Chain { src: quote!(vx_src(#r)), ads: vec![], then: None, tmp: None };
            }
        }
        Chain { src: quote!(()), ads: vec![], then: None, tmp: None }
    }

    /// Emits the loop(s) for a chain. `body` receives the item and yields the loop body;
    /// `guard` is an extra loop condition.
    fn emit(
        &mut self,
        c: Chain,
        guard: Option<TokenStream>,
        accs: &[(String, &'static str)],
        body: &mut dyn FnMut(&mut Self, TokenStream) -> TokenStream,
    ) -> TokenStream {
        let k = self.fresh();
        let src = format_ident!("__src{}", k);
        let i = format_ident!("__i{}", k);
        let n = format_ident!("__n{}", k);
        let s = c.src;
        let mut pre = match c.tmp {
            Some((l, t)) => quote!(#l let #src = #t;),
            None => quote!(let #src = #s;),
        };
        let mut start = quote!(0usize);
        let mut len = quote!(#src.vx_len());
        let mut rev = false;
        let mut srcs = vec![src.to_string()];
        let x0 = format_ident!("__x{}", k);
        let mut binds = TokenStream::new();
        let mut cur = x0.clone();
        let mut pure = true;
        let mut m = 0usize;
        let mut closers = 0usize;
        let mut opens = TokenStream::new();
        let mut flat: Option<TokenStream> = None;
        let mut stages: Vec<(TokenStream, bool)> = vec![]; // (code, opens a block)
        for ad in c.ads {
            m += 1;
            let nx = format_ident!("__x{}_{}", k, m);
            if flat.is_some() {
                self.err("adapter after flatten");
                break;
            }
            match ad {
                Ad::Map(f) => {
                    let b = self.apply(&f, &[quote!(#cur)]);
                    stages.push((quote!(let #nx = #b;), false));
                    cur = nx;
                }
                Ad::Cloned => {
                    stages.push((quote!(let #nx = (#cur).vx_clone();), false));
                    cur = nx;
                }
                Ad::Filter(f) => {
                    let b = self.apply(&f, &[quote!(&#cur)]);
                    stages.push((quote!(if #b), true));
                    pure = false;
                }
                Ad::FilterMap(f) => {
                    let b = self.apply(&f, &[quote!(#cur)]);
                    stages.push((quote!(if let Some(#nx) = #b), true));
                    cur = nx;
                    pure = false;
                }
                Ad::Enumerate => {
                    if !pure || rev {
                        self.err("enumerate after filter");
                    }
                    stages.push((quote!(let #nx = (#i - 1, #cur);), false));
                    cur = nx;
                }
                Ad::Zip(z, zads) => {
                    if !pure || rev {
                        self.err("zip after filter");
                    }
                    let s2 = format_ident!("__src{}_{}", k, m);
                    srcs.push(s2.to_string());
                    pre.extend(quote!(let #s2 = #z;));
                    len = quote!(vx_min(#len, #s2.vx_len()));
                    let mut other = quote!(#s2.vx_at(#i - 1));
                    for a in zads {
                        other = match a {
                            Ad::Map(f) => {
                                let z0 = format_ident!("__z{}_{}", k, m);
                                let b = self.apply(&f, &[quote!(#z0)]);
                                quote!({ let #z0 = #other; #b })
                            }
                            _ => quote!((#other).vx_clone()),
                        };
                    }
                    stages.push((quote!(let #nx = (#cur, #other);), false));
                    cur = nx;
                }
                Ad::Skip(e) => {
                    if !pure || rev || !stages.is_empty() {
                        self.err("skip after filter");
                    }
                    start = quote!(vx_min(#e, #len));
                }
                Ad::Take(e) => {
                    if !pure || rev {
                        self.err("take after filter");
                    }
                    len = quote!(vx_min_off(#start, #e, #len));
                }
                Ad::Rev => {
                    if !stages.is_empty() {
                        self.err("rev after adapters");
                    }
                    rev = !rev;
                }
                Ad::Flatten => flat = Some(quote!(#cur)),
                Ad::FlatMap(f) => {
                    let b = self.apply(&f, &[quote!(#cur)]);
                    flat = Some(b);
                }
            }
        }
        let _ = (&mut binds, &mut opens, &mut closers);
        let inner = match flat {
            Some(fsrc) => {
                let ch = Chain { src: quote!(vx_src(#fsrc)), ads: vec![], then: None, tmp: None };
                self.emit(ch, guard.clone(), accs, body)
            }
            None => body(self, quote!(#cur)),
        };
        // assemble stages from the inside out
        let mut code = inner;
        for (t, opens) in stages.into_iter().rev() {
            code = if opens { quote!(#t { #code }) } else { quote!(#t #code) };
        }
        let at = if rev { quote!(#src.vx_at(#n - #i - 1)) } else { quote!(#src.vx_at(#i)) };
        let mut muts: Vec<(String, &'static str)> = accs.to_vec();
        for v in mutated(&code) {
            if !muts.iter().any(|m| m.0 == v.0) {
                muts.push(v);
            }
        }
        let full = quote!(let #x0 = #at; #i = #i + 1; #code);
        let lp = self.loop_tokens(
            quote!(#i < #n),
            guard.clone(),
            full,
            &muts,
            Some((&i.to_string(), &n.to_string(), &srcs)),
        );
        let mut out = quote!(#pre let #n = #len; let mut #i = #start; #lp);
        if let Some(t) = c.then {
            out.extend(self.emit(*t, guard, accs, body));
        }
        out
    }

    /// `while cond` with the invariants of the pool.
    fn loop_tokens(
        &mut self,
        cond: TokenStream,
        guard: Option<TokenStream>,
        body: TokenStream,
        muts: &[(String, &'static str)],
        idx: Option<(&str, &str, &[String])>,
    ) -> TokenStream {
        self.loops += 1;
        let lid = format!("{}#{}", self.stack[0], self.loops);
        let pool = self.pool.clone();
        let mut inv = TokenStream::new();
        let muts0: Vec<(String, &'static str)> = muts.to_vec();
        let muts: Vec<(String, &'static str)> = muts
            .iter()
            .map(|(v, k)| {
                let k = match self.g.types.get(&format!("{}#{}", lid, v)).map(|s| s.as_str()) {
                    None => k,
                    Some("{integer}" | "usize" | "u32" | "u64" | "u8" | "u16" | "i32" | "i64" | "isize" | "u128") => "int",
                    Some("bool") => "bool",
                    Some(t) if t.starts_with("Vec<") || t == "String" => "vec",
                    Some(t) if t.starts_with("Option<") => "opt",
                    Some(t) if t.starts_with("VxIter") => "iter",
                    Some(_) => "other",
                };
                (v.clone(), k)
            })
            .collect();
        let muts = &muts[..];
        let soft: Option<(String, String)> = if idx.is_none() { cond_bounds(&cond, muts) } else { None };
        let alts = indexed(&body);
        let idx0 = idx;
        let nosrc: Vec<String> = vec![];
        let idx = match (&idx, &soft) {
            (Some(x), _) => Some(*x),
            (None, Some((a, b))) => Some((a.as_str(), b.as_str(), &nosrc[..])),
            _ => None,
        };
        let mut probes = TokenStream::new();
        if self.g.probe {
            let mut vars: Vec<String> = muts0.iter().map(|m| m.0.clone()).collect();
            if let Some((_, _, srcs)) = idx {
                vars.extend(srcs.iter().cloned());
            }
            let known: Vec<String> = vars.clone();
            vars.extend(alts.iter().filter(|a| !known.contains(a)).cloned());
            for v in vars {
                let n = self.g.probes.len() + 1;
                self.g.probes.insert(n, format!("{}#{}", lid, v));
                let d = format_ident!("__P{}__", n);
                let v = id(&v);
                probes.extend(quote!(#d vx_probe(&#v); __NL__));
            }
        }
        let lid = lid.as_str();
        let mut cands = vec![];
        if let Some((i, n, _)) = idx0 {
            let (i, n) = (id(i), id(n));
            inv.extend(quote!(#i <= #n,));
        } else if let Some((a, b)) = &soft {
            cands.push(format!("{} <= {}", a, b));
        }
        let mut snaps: BTreeSet<String> = BTreeSet::new();
        for t in &pool.inv {
            for c in self.inst(t, muts, idx, &alts, &body, lid) {
                cands.push(snapshot(&c, lid, &mut snaps));
            }
        }
        for c in cands {
            let cid = self.cand(&c);
            if let Some(cid) = cid {
                match TokenStream::from_str(&c) {
                    Ok(ts) => {
                        let d = format_ident!("__D{}__", cid);
                        inv.extend(quote!(#d (#ts), __NL__));
                    }
                    Err(e) => self.err(format!("pool: {}: {}", c, e)),
                }
            }
        }
        let mut step = TokenStream::new();
        for t in &pool.step {
            for c in self.inst(t, muts, idx, &alts, &body, lid) {
                let c = snapshot(&c, lid, &mut snaps);
                step.extend(self.proof_line(&c));
            }
        }
        let mut endp = TokenStream::new();
        for t in &pool.end {
            for c in self.inst(t, muts, idx, &alts, &body, lid) {
                endp.extend(self.proof_line(&c));
            }
        }
        let mut post = TokenStream::new();
        for t in &pool.post {
            for c in self.inst(t, muts, idx, &alts, &body, lid) {
                let c = snapshot(&c, lid, &mut snaps);
                post.extend(self.proof_line(&c));
            }
        }
        let mut prep = TokenStream::new();
        for t in &pool.pre {
            for c in self.inst(t, muts, idx, &alts, &body, lid) {
                prep.extend(self.proof_line(&c));
            }
        }
        let mut dec = TokenStream::new();
        if let Some((i, n, _)) = idx0 {
            let (i, n) = (id(i), id(n));
            dec = quote!(decreases #n - #i,);
        } else {
            for t in &pool.dec {
                if let Some(c) = self.inst(t, muts, idx, &alts, &body, lid).into_iter().next() {
                    if let Ok(ts) = TokenStream::from_str(&c) {
                        dec = quote!(decreases #ts,);
                        break;
                    }
                }
            }
        }
        let strict = std::env::var("VX_STRICT").is_ok();
        if dec.is_empty() && strict {
            dec = cond_measure(&cond).unwrap_or_default();
        }
        if dec.is_empty() && strict {
            for (v, k) in muts {
                if *k == "iter" {
                    let v = id(v);
                    dec = quote!(decreases #v.all().len() - #v.pos(),);
                    break;
                }
            }
        }
        if dec.is_empty() {
            self.nomeasure += 1;
        }
        let mut ens = TokenStream::new();
        if idx0.is_none() {
            for t in &pool.ens {
                for c in self.inst(t, muts, idx, &alts, &body, lid) {
                    if let Some(cid) = self.cand(&c) {
                        match TokenStream::from_str(&c) {
                            Ok(ts) => {
                                let d = format_ident!("__D{}__", cid);
                                ens.extend(quote!(__NL__ #d (#ts), __NL__));
                            }
                            Err(e) => self.err(format!("pool: {}: {}", c, e)),
                        }
                    }
                }
            }
        }
        let ens = if ens.is_empty() { ens } else { quote!(ensures #ens) };
        let invs = if inv.is_empty() { quote!() } else { quote!(invariant #inv) };
        let g = match guard {
            Some(g) => quote!(&& #g),
            None => quote!(),
        };
        let mut entry = TokenStream::new();
        for v in snaps {
            let (a, b) = (format_ident!("__e_{}_{}", lid.replace(|c: char| !c.is_alphanumeric(), "_"), v), id(&v));
            entry.extend(quote!(let ghost #a = #b;));
        }
        quote!(#entry #prep while #cond #g #invs #ens #dec { #probes #step #body #endp } #post)
    }

    fn cand(&mut self, c: &str) -> Option<usize> {
        self.g.cand += 1;
        let n = self.g.cand;
        self.g.cand_text.insert(n, c.to_string());
        if self.g.probe || self.g.drop.contains(&n) {
            None
        } else {
            Some(n)
        }
    }

    fn proof_line(&mut self, c: &str) -> TokenStream {
        if let Some(cid) = self.cand(c) {
            match TokenStream::from_str(c) {
                Ok(ts) => {
                    let d = format_ident!("__D{}__", cid);
                    return quote!(#d proof { #ts } __NL__);
                }
                Err(e) => self.err(format!("hint: {}: {}", c, e)),
            }
        }
        TokenStream::new()
    }

    /// Instantiates a template for a loop; a sequence indexed in the body may stand for the source.
    fn inst(
        &mut self,
        t: &str,
        muts: &[(String, &'static str)],
        idx: Option<(&str, &str, &[String])>,
        alts: &[String],
        body: &TokenStream,
        lid: &str,
    ) -> Vec<String> {
        let mut out = vec![];
        match idx {
            Some((i, n, srcs)) if t.contains("$src") => {
                if !srcs.is_empty() {
                    out.extend(self.inst1(t, muts, idx, body, lid));
                }
                for a in alts {
                    if !srcs.contains(a) && !muts.iter().any(|m| &m.0 == a) {
                        let one = [a.clone()];
                        out.extend(self.inst1(t, muts, Some((i, n, &one[..])), body, lid));
                    }
                }
            }
            _ => out.extend(self.inst1(t, muts, idx, body, lid)),
        }
        out
    }
    fn inst1(
        &mut self,
        t: &str,
        muts: &[(String, &'static str)],
        idx: Option<(&str, &str, &[String])>,
        body: &TokenStream,
        lid: &str,
    ) -> Vec<String> {
        let mut t = t.to_string();
        let mut cons: Vec<(String, String)> = vec![];
        if t.starts_with('{') {
            let e = t.find('}').unwrap_or(0);
            for c in t[1..e].split(',') {
                if let Some((a, b)) = c.split_once(':') {
                    cons.push((a.trim().to_string(), b.trim().to_string()));
                }
            }
            t = t[e + 1..].trim().to_string();
        }
        let types = self.g.types.clone();
        let fits = |ph: &str, v: &str| -> bool {
            cons.iter().filter(|c| c.0 == ph).all(|c| match types.get(&format!("{}#{}", lid, v)) {
                None => false,
                Some(ty) if c.1.starts_with('=') => ty == c.1[1..].trim(),
                Some(ty) if c.1.starts_with('!') => !ty.contains(c.1[1..].trim()),
                Some(ty) => ty.contains(&c.1),
            })
        };
        if !types.is_empty() {
            if let Some((_, _, srcs)) = idx {
                if !srcs.is_empty() && !fits("$src", &srcs[0]) {
                    return vec![];
                }
                if srcs.len() > 1 && !fits("$src2", &srcs[1]) {
                    return vec![];
                }
            }
        }
        for (k, p) in self.params.iter().enumerate() {
            t = t.replace(&format!("#{}", k + 1), p);
        }
        if t.contains("$i") && !t.contains("$int") && idx.is_none() {
            return vec![];
        }
        if t.contains("$src") && idx.is_none() {
            return vec![];
        }
        if let Some((i, n, srcs)) = idx {
            if t.contains("$src2") && srcs.len() < 2 {
                return vec![];
            }
            if srcs.len() > 1 {
                t = t.replace("$src2", &srcs[1]);
            }
            if !srcs.is_empty() {
                t = t.replace("$src", &srcs[0]);
            }
            t = t.replace("$int", "\u{1}").replace("$iter", "\u{2}");
            t = t.replace("$i", i);
            t = t.replace('\u{1}', "$int").replace('\u{2}', "$iter");
            t = t.replace("$n", n);
        }
        // @f.k : the k-th argument of the first call of f in the body
        while let Some(p) = t.find("@@") {
            let rest = &t[p + 2..];
            let e = rest.find(|c: char| !(c.is_alphanumeric() || c == '_')).unwrap_or(rest.len());
            let f = rest[..e].to_string();
            let num: String = rest[e + 1..].chars().take_while(|c| c.is_ascii_digit()).collect();
            match call_arg(body, &f, num.parse().unwrap_or(0)) {
                Some(a) => {
                    let whole = format!("@@{}.{}", f, num);
                    t = t.replacen(&whole, &format!("({})", a), 1);
                }
                None => return vec![],
            }
        }
        let mut out = vec![t];
        for kind in ["int", "vec", "bool", "iter", "opt", "other"] {
            for suffix in ["", "1", "2"] {
                let ph = format!("${}{}", kind, suffix);
                let mut next = vec![];
                for t in out {
                    if !contains_ph(&t, &ph) {
                        next.push(t);
                        continue;
                    }
                    for (v, k) in muts {
                        if *k == kind && (types.is_empty() || fits(&ph, v)) {
                            next.push(replace_ph(&t, &ph, v));
                        }
                    }
                }
                out = next;
            }
        }
        out.sort();
        out.dedup();
        out
    }

    fn consumer(&mut self, e: &Expr) -> Option<TokenStream> {
        let m = match e {
            Expr::MethodCall(m) => m.clone(),
            _ => return None,
        };
        let name = m.method.to_string();
        if !CONSUMERS.contains(&name.as_str()) || !self.is_iter(&m.receiver) {
            return None;
        }
        // direct forms on a plain source
        if let Expr::MethodCall(r) = &*m.receiver {
            let rn = r.method.to_string();
            if SOURCES.contains(&rn.as_str()) && m.args.is_empty() && (name == "last" || name == "count" || name == "next") {
                let c = self.chain(&m.receiver);
                let s = c.src;
                return Some(match name.as_str() {
                    "last" => quote!(#s.vx_last()),
                    "count" => quote!(#s.vx_len()),
                    _ => quote!(#s.vx_first()),
                });
            }
        }
        let turbo = m.turbofish.as_ref().map(|t| t.to_token_stream().to_string()).unwrap_or_default();
        let c = self.chain(&m.receiver);
        Some(match name.as_str() {
            "collect" => {
                if turbo.contains("Result") {
                    let k = self.fresh();
                    let v = format_ident!("__v{}", k);
                    let er = format_ident!("__e{}", k);
                    let accs = [(v.to_string(), "vec"), (er.to_string(), "opt")];
                    let (v2, er2) = (v.clone(), er.clone());
                    let lp = self.emit(c, Some(quote!(!vx_is_some(&#er))), &accs, &mut |_, x| {
                        quote!(match #x { Ok(__y) => { #v2.push(__y); } Err(__z) => { #er2 = Some(__z); } })
                    });
                    quote!({ let mut #v = Vec::new(); let mut #er = None; #lp match #er { None => Ok(#v), Some(__z) => Err(__z) } })
                } else if turbo.contains("String") && !turbo.contains("Vec") {
                    self.err("collect into String");
                    quote!(())
                } else if turbo.contains("HashMap") {
                    self.err("collect into HashMap");
                    quote!(())
                } else {
                    let k = self.fresh();
                    let v = format_ident!("__v{}", k);
                    // flat_map / flatten as the last adapter: extend by the whole piece
                    let mut c = c;
                    let mut flat: Option<Option<Expr>> = None;
                    if c.then.is_none() {
                        match c.ads.last() {
                            Some(Ad::Flatten) => {
                                c.ads.pop();
                                flat = Some(None);
                            }
                            Some(Ad::FlatMap(_)) => {
                                if let Some(Ad::FlatMap(f)) = c.ads.pop() {
                                    flat = Some(Some(f));
                                }
                            }
                            _ => {}
                        }
                    }
                    let v2 = v.clone();
                    let lp = self.emit(c, None, &[(v.to_string(), "vec")], &mut |s, x| match &flat {
                        None => quote!(#v2.push(#x);),
                        Some(None) => quote!(#v2.vx_extend(#x);),
                        Some(Some(f)) => {
                            let b = s.apply(f, &[x]);
                            quote!(#v2.vx_extend(#b);)
                        }
                    });
                    quote!({ let mut #v = Vec::new(); #lp #v })
                }
            }
            "sum" => {
                let k = self.fresh();
                let v = format_ident!("__s{}", k);
                let v2 = v.clone();
                let ty = match turbo.trim_start_matches("::").trim() {
                    "" => quote!(),
                    t => {
                        let t = TokenStream::from_str(t.trim_start_matches('<').trim_end_matches('>')).unwrap();
                        quote!(: #t)
                    }
                };
                let lp = self.emit(c, None, &[(v.to_string(), "int")], &mut |_, x| quote!(#v2 = #v2 + #x;));
                quote!({ let mut #v #ty = 0; #lp #v })
            }
            "all" | "any" => {
                let k = self.fresh();
                let v = format_ident!("__b{}", k);
                let v2 = v.clone();
                let f = m.args[0].clone();
                let (init, guard) =
                    if name == "all" { (quote!(true), quote!(#v)) } else { (quote!(false), quote!(!#v)) };
                let lp = self.emit(c, Some(guard), &[(v.to_string(), "bool")], &mut |s, x| {
                    let b = s.apply(&f, &[x]);
                    quote!(#v2 = #b;)
                });
                quote!({ let mut #v = #init; #lp #v })
            }
            "count" => {
                let k = self.fresh();
                let v = format_ident!("__c{}", k);
                let v2 = v.clone();
                let lp = self.emit(c, None, &[(v.to_string(), "int")], &mut |_, _x| quote!(#v2 = #v2 + 1;));
                quote!({ let mut #v = 0usize; #lp #v })
            }
            "find" => {
                let k = self.fresh();
                let v = format_ident!("__f{}", k);
                let v2 = v.clone();
                let f = m.args[0].clone();
                let lp = self.emit(c, Some(quote!(!vx_is_some(&#v))), &[(v.to_string(), "opt")], &mut |s, x| {
                    let b = s.apply(&f, &[quote!(&#x)]);
                    quote!(if #b { #v2 = Some(#x); })
                });
                quote!({ let mut #v = None; #lp #v })
            }
            "next" => {
                let k = self.fresh();
                let v = format_ident!("__f{}", k);
                let v2 = v.clone();
                let lp = self.emit(c, Some(quote!(!vx_is_some(&#v))), &[(v.to_string(), "opt")], &mut |_, x| {
                    quote!(#v2 = Some(#x);)
                });
                quote!({ let mut #v = None; #lp #v })
            }
            "position" => {
                let k = self.fresh();
                let v = format_ident!("__f{}", k);
                let pcount = format_ident!("__p{}", k);
                let (v2, p2) = (v.clone(), pcount.clone());
                let f = m.args[0].clone();
                let lp = self.emit(
                    c,
                    Some(quote!(!vx_is_some(&#v))),
                    &[(v.to_string(), "opt"), (pcount.to_string(), "int")],
                    &mut |s, x| {
                        let b = s.apply(&f, &[x]);
                        quote!(if #b { #v2 = Some(#p2); } #p2 = #p2 + 1;)
                    },
                );
                quote!({ let mut #v = None; let mut #pcount = 0usize; #lp #v })
            }
            "for_each" => {
                let f = m.args[0].clone();
                let lp = self.emit(c, None, &[], &mut |s, x| {
                    let b = s.apply(&f, &[x]);
                    quote!(#b;)
                });
                quote!({ #lp })
            }
            "fold" => {
                let mut init = m.args[0].clone();
                self.visit_expr_mut(&mut init);
                match &m.args[1] {
                    Expr::Closure(cl) if cl.inputs.len() == 2 => {
                        if has_return(&cl.body) {
                            self.err("closure with return or ?");
                        }
                        let accp = strip_pat(&cl.inputs[0]);
                        let itp = cl.inputs[1].clone();
                        let body = (*cl.body).clone();
                        match (&accp, &init) {
                            (Pat::Tuple(tp), Expr::Tuple(te)) if tp.elems.len() == te.elems.len() => {
                                let names: Vec<Ident> = tp
                                    .elems
                                    .iter()
                                    .filter_map(|p| match p {
                                        Pat::Ident(i) => Some(i.ident.clone()),
                                        _ => None,
                                    })
                                    .collect();
                                if names.len() != te.elems.len() {
                                    self.err("fold pattern");
                                }
                                let inits: Vec<_> = te.elems.iter().collect();
                                let accs: Vec<(String, &'static str)> = names
                                    .iter()
                                    .zip(&inits)
                                    .map(|(n, i)| (n.to_string(), guess_kind(i, &n.to_string(), &quote!(#body))))
                                    .collect();
                                let tmps: Vec<Ident> = names.iter().map(|n| format_ident!("__t_{}", n)).collect();
                                let names2 = names.clone();
                                let lp = self.emit(c, None, &accs, &mut |s, x| {
                                    let mut b = body.clone();
                                    s.visit_expr_mut(&mut b);
                                    let l = let_pat(&itp, x);
                                    quote!(#l let (#(#tmps),*) = #b; #(#names2 = #tmps;)*)
                                });
                                quote!({ #(let mut #names = #inits;)* #lp (#(#names),*) })
                            }
                            (Pat::Ident(pi), _) => {
                                let n = pi.ident.clone();
                                let kind = guess_kind(&init, &n.to_string(), &quote!(#body));
                                let n2 = n.clone();
                                let lp = self.emit(c, None, &[(n.to_string(), kind)], &mut |s, x| {
                                    let mut b = body.clone();
                                    s.visit_expr_mut(&mut b);
                                    let l = let_pat(&itp, x);
                                    quote!(#l #n2 = #b;)
                                });
                                quote!({ let mut #n = #init; #lp #n })
                            }
                            _ => {
                                self.err("fold accumulator pattern");
                                quote!(())
                            }
                        }
                    }
                    _ => {
                        self.err("fold function");
                        quote!(())
                    }
                }
            }
            _ => {
                self.err(format!("iterator consumer {}", name));
                quote!(())
            }
        })
    }

    fn is_text(&self, e: &Expr) -> bool {
        match e {
            Expr::Path(p) => p.path.get_ident().map_or(false, |i| self.texts.contains(&i.to_string())),
            Expr::Reference(r) => self.is_text(&r.expr),
            Expr::Paren(r) => self.is_text(&r.expr),
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => self.is_text(&u.expr),
            Expr::Index(i) => matches!(&*i.index, Expr::Range(_)) && self.is_text(&i.expr),
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                matches!(n.as_str(), "to_string" | "as_str" | "trim") || matches!(n.as_str(), "clone" | "to_owned" | "as_ref" | "replace") && self.is_text(&m.receiver)
            }
            Expr::Macro(m) => m.mac.path.is_ident("format"),
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) => p.path.segments.len() == 2 && p.path.segments[0].ident == "String" && !matches!(p.path.segments[1].ident.to_string().as_str(), "from_utf8"),
                _ => false,
            },
            _ => false,
        }
    }

    // ---- inlining ----------------------------------------------------------------------------

    fn is_contracted(&self, owner: Option<&str>, name: &str) -> bool {
        match owner {
            Some(o) => {
                self.g.contracted.contains(&format!("{}::{}", o, name))
                    || self.g.contracted.contains(&format!("*::{}", name))
            }
            None => self.g.contracted.contains(name),
        }
    }

    fn lookup_fn(&self, owner: Option<&str>, name: &str) -> Option<FnDef> {
        let owner = match owner {
            Some("Self") => self.owner.as_deref(),
            o => o,
        };
        let mut c: Vec<&FnDef> = self
            .g
            .repo
            .fns
            .iter()
            .filter(|f| f.name == name && f.trait_.is_none() && f.owner.as_deref() == owner)
            .collect();
        if c.is_empty() && owner.is_some() {
            // of a trait
            c = self
                .g
                .repo
                .fns
                .iter()
                .filter(|f| f.name == name && f.trait_.is_some() && f.owner.as_deref() == owner && f.sig.receiver().is_none())
                .collect();
        }
        let same: Vec<&&FnDef> = c.iter().filter(|f| f.file == self.file).collect();
        if same.len() == 1 {
            return Some((*same[0]).clone());
        }
        if c.len() == 1 {
            return Some(c[0].clone());
        }
        None
    }

    /// Body of `f` with the arguments bound, or None.
    fn inline(&mut self, f: &FnDef, recv: Option<Expr>, args: Vec<Expr>, in_try: bool) -> Option<TokenStream> {
        if self.stack.contains(&f.key) || self.stack.len() > 6 {
            self.err(format!("recursive helper {}", f.key));
            return None;
        }
        let mut lets = TokenStream::new();
        let k = self.fresh();
        // names of the helper that the caller also uses are written differently
        let mut f = f.clone();
        let mut own = crate::Bound(BTreeSet::new());
        own.visit_block(&f.block);
        for i in &f.sig.inputs {
            own.visit_fn_arg(i);
        }
        let mut ren = Rename { names: BTreeMap::new(), bad: false };
        for n in &own.0 {
            if n.starts_with(|c: char| c.is_lowercase()) && n != "self" && self.names.contains(n) {
                ren.names.insert(n.clone(), format!("{}_h{}", n, k));
            }
        }
        if !ren.names.is_empty() {
            ren.visit_block_mut(&mut f.block);
            for i in f.sig.inputs.iter_mut() {
                if let FnArg::Typed(t) = i {
                    ren.visit_pat_mut(&mut t.pat);
                }
            }
            if ren.bad {
                self.err("name clash in an inlined helper");
            }
        }
        for n in &own.0 {
            self.names.insert(ren.names.get(n).unwrap_or(n).clone());
        }
        let f = &f;
        let mut it = args.into_iter();
        let mut block = f.block.clone();
        for inp in &f.sig.inputs {
            match inp {
                FnArg::Receiver(r) => {
                    let e = match &recv {
                        Some(e) => e.clone(),
                        None => it.next()?,
                    };
                    let slf = format_ident!("__self{}", k);
                    let v = if r.reference.is_some() {
                        if matches!(&e, Expr::Path(p) if p.path.is_ident("self")) {
                            quote!(#e)
                        } else if r.mutability.is_some() {
                            quote!(&mut #e)
                        } else {
                            quote!((&#e))
                        }
                    } else {
                        quote!(#e)
                    };
                    lets.extend(quote!(let #slf = #v;));
                    ReplaceSelf { to: slf }.visit_block_mut(&mut block);
                }
                FnArg::Typed(t) => {
                    let e = it.next()?;
                    let p = &t.pat;
                    let ty = &t.ty;
                    if let Pat::Ident(i) = &**p {
                        if crate::is_text_ty(ty) {
                            self.texts.insert(i.ident.to_string());
                        } else {
                            self.texts.remove(&i.ident.to_string());
                        }
                    }
                    // a mutable reference to a variable: the variable itself stands for the parameter
                    if let (Expr::Reference(r), Pat::Ident(pi)) = (&e, &**p) {
                        if let (Some(_), Expr::Path(v)) = (&r.mutability, &*r.expr) {
                            if let Some(v) = v.path.get_ident() {
                                let clash = f.sig.inputs.iter().any(|x| matches!(x, FnArg::Typed(y) if matches!(&*y.pat, Pat::Ident(q) if &q.ident == v && q.ident != pi.ident)));
                                if clash {
                                    self.err("name clash in an inlined helper");
                                }
                                Subst { from: pi.ident.clone(), to: v.clone() }.visit_block_mut(&mut block);
                                continue;
                            }
                        }
                    }
                    if ty.to_token_stream().to_string().contains("impl ") || !f.sig.generics.params.is_empty() {
                        lets.extend(quote!(let #p = #e;));
                    } else {
                        lets.extend(quote!(let #p: #ty = #e;));
                    }
                }
            }
        }
        let mut rets = Rets::default();
        rets.visit_block(&block);
        if rets.other > 0 || rets.err > 0 && !in_try {
            match crate::ret::remove(&block, &f.sig.output) {
                Some(b) => block = b,
                None => {
                    self.err(format!("helper {} returns early", f.key));
                    return None;
                }
            }
        }
        self.inlined.push(f.key.clone());
        let (file, owner) = (self.file.clone(), self.owner.clone());
        self.stack.push(f.key.clone());
        self.file = f.file.clone();
        if f.owner.is_some() {
            self.owner = f.owner.clone();
        }
        self.visit_block_mut(&mut block);
        self.stack.pop();
        self.file = file;
        self.owner = owner;
        let st = &block.stmts;
        if in_try && f.sig.generics.params.is_empty() {
            if let ReturnType::Type(_, ty) = &f.sig.output {
                let mut ty = (**ty).clone();
                if !ty.to_token_stream().to_string().contains("impl ") {
                    crate::Paths.visit_type_mut(&mut ty);
                    let ro = format_ident!("__ro{}", k);
                    return Some(quote!({ #lets let #ro: #ty = { #(#st)* }; #ro }));
                }
            }
        }
        if in_try {
            // Result<_, E> with a generic error
            if let ReturnType::Type(_, ty) = &f.sig.output {
                let t = ty.to_token_stream().to_string().replace(' ', "");
                let gen = f.sig.generics.type_params().any(|g| t.ends_with(&format!(",{}>", g.ident)));
                if ty_name(ty) == "Result" && (gen || t.ends_with("::Error>")) {
                    let ro = format_ident!("__ro{}", k);
                    return Some(quote!({ #lets let #ro: Result<_, Error> = { #(#st)* }; #ro }));
                }
            }
        }
        Some(quote!({ #lets #(#st)* }))
    }

    fn try_inline_call(&mut self, e: &Expr, in_try: bool) -> Option<TokenStream> {
        match e {
            Expr::Call(c) => {
                let p = match &*c.func {
                    Expr::Path(p) => p,
                    _ => return None,
                };
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let name = segs.last()?.clone();
                if segs.len() > 1 && matches!(segs[0].as_str(), "hex" | "std" | "core" | "mem" | "serde_json" | "cmp") {
                    return None;
                }
                let owner = if segs.len() > 1 {
                    let o = &segs[segs.len() - 2];
                    if o == "Self" {
                        self.owner.clone()
                    } else if o.chars().next()?.is_uppercase() {
                        Some(o.clone())
                    } else {
                        None
                    }
                } else {
                    None
                };
                if self.is_contracted(owner.as_deref(), &name) {
                    return None;
                }
                let f = self.lookup_fn(owner.as_deref(), &name)?;
                let mut args: Vec<Expr> = c.args.iter().cloned().collect();
                for a in &mut args {
                    self.visit_expr_mut(a);
                }
                self.inline(&f, None, args, in_try)
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                if self.g.contracted.iter().any(|c| c.ends_with(&format!("::{}", name))) || rename(&name).is_some() {
                    return None;
                }
                if matches!(self.ret_kind(&m.receiver), Some("Option") | Some("Result")) || self.is_iter(&m.receiver) {
                    return None;
                }
                let c: Vec<FnDef> = self
                    .g
                    .repo
                    .fns
                    .iter()
                    .filter(|f| {
                        f.name == name
                            && f.trait_.is_none()
                            && f.owner.is_some()
                            && matches!(f.sig.inputs.first(), Some(FnArg::Receiver(_)))
                    })
                    .cloned()
                    .collect();
                let same: Vec<&FnDef> = c.iter().filter(|f| f.file == self.file).collect();
                let f = if same.len() == 1 {
                    same[0].clone()
                } else if c.len() == 1 {
                    c[0].clone()
                } else {
                    return None;
                };
                let mut args: Vec<Expr> = m.args.iter().cloned().collect();
                for a in &mut args {
                    self.visit_expr_mut(a);
                }
                let mut r = (*m.receiver).clone();
                self.visit_expr_mut(&mut r);
                self.inline(&f, Some(r), args, in_try)
            }
            _ => None,
        }
    }

    // ---- macros ------------------------------------------------------------------------------

    fn fmt_pieces(&mut self, args: &[Expr]) -> Option<TokenStream> {
        let lit = match args.first()? {
            Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s.value(),
            _ => return None,
        };
        let mut code = TokenStream::new();
        let mut next = 1usize;
        let mut cs = lit.chars().peekable();
        let mut buf = String::new();
        while let Some(c) = cs.next() {
            match c {
                '{' if cs.peek() == Some(&'{') => {
                    cs.next();
                    buf.push('{');
                }
                '}' if cs.peek() == Some(&'}') => {
                    cs.next();
                    buf.push('}');
                }
                '{' => {
                    if !buf.is_empty() {
                        self.strlits.insert(buf.clone());
                        code.extend(quote!(__s.vx_push_str(#buf);));
                        buf.clear();
                    }
                    let mut spec = String::new();
                    for d in cs.by_ref() {
                        if d == '}' {
                            break;
                        }
                        spec.push(d);
                    }
                    let (name, fmt) = match spec.split_once(':') {
                        Some((a, b)) => (a.to_string(), b.to_string()),
                        None => (spec, String::new()),
                    };
                    let e: Expr = if name.is_empty() {
                        let e = args.get(next)?.clone();
                        next += 1;
                        e
                    } else if let Ok(k) = name.parse::<usize>() {
                        args.get(k + 1)?.clone()
                    } else {
                        // named argument or captured variable
                        let mut found = None;
                        for a in &args[1..] {
                            if let Expr::Assign(x) = a {
                                if x.left.to_token_stream().to_string() == name {
                                    found = Some((*x.right).clone());
                                }
                            }
                        }
                        match found {
                            Some(e) => e,
                            None => parse_str(&name).ok()?,
                        }
                    };
                    let mut e = e;
                    self.visit_expr_mut(&mut e);
                    match fmt.as_str() {
                        "" => code.extend(quote!(__s.vx_push_disp(&#e);)),
                        "?" => code.extend(quote!(__s.vx_push_dbg(&#e);)),
                        "x" => code.extend(quote!(__s.vx_push_hex(&#e);)),
                        _ => return None,
                    }
                }
                c => buf.push(c),
            }
        }
        if !buf.is_empty() {
            self.strlits.insert(buf.clone());
            code.extend(quote!(__s.vx_push_str(#buf);));
        }
        Some(code)
    }

    fn mac(&mut self, m: &Macro) -> Option<TokenStream> {
        let name = m.path.segments.last()?.ident.to_string();
        let parse_args = || {
            m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated)
                .ok()
                .map(|p| p.into_iter().collect::<Vec<Expr>>())
        };
        match name.as_str() {
            "vec" => {
                if let Some(args) = parse_args() {
                    let mut args = args;
                    for a in &mut args {
                        self.visit_expr_mut(a);
                    }
                    if args.is_empty() {
                        return Some(quote!(Vec::new()));
                    }
                    let k = self.fresh();
                    let v = format_ident!("__v{}", k);
                    return Some(quote!({ let mut #v = Vec::new(); #(#v.push(#args);)* #v }));
                }
                // vec![x; n]
                let t: Option<ExprRepeat> = parse2({
                    let b = &m.tokens;
                    quote!([#b])
                })
                .ok();
                if let Some(mut r) = t {
                    self.visit_expr_mut(&mut r.expr);
                    self.visit_expr_mut(&mut r.len);
                    let (e, l) = (&r.expr, &r.len);
                    return Some(quote!(vx_repeat(#e, #l)));
                }
                None
            }
            "format" => {
                let args = parse_args()?;
                let p = self.fmt_pieces(&args)?;
                Some(quote!({ let mut __s = vx_string_new(); #p __s }))
            }
            "write" => {
                let args = parse_args()?;
                let mut f = args[0].clone();
                self.visit_expr_mut(&mut f);
                let p = self.fmt_pieces(&args[1..])?;
                Some(quote!({ let mut __s = vx_string_new(); #p #f.vx_write(__s) }))
            }
            "anyhow" => Some(quote!(vx_anyhow())),
            "matches" => {
                // matches!(e, pat [if guard])
                struct M {
                    e: Expr,
                    p: Pat,
                    g: Option<Expr>,
                }
                impl parse::Parse for M {
                    fn parse(i: parse::ParseStream) -> Result<Self> {
                        let e = i.parse()?;
                        i.parse::<Token![,]>()?;
                        let p = Pat::parse_multi_with_leading_vert(i)?;
                        let g = if i.peek(Token![if]) {
                            i.parse::<Token![if]>()?;
                            Some(i.parse()?)
                        } else {
                            None
                        };
                        let _ = i.parse::<Option<Token![,]>>();
                        Ok(M { e, p, g })
                    }
                }
                let mut x: M = m.parse_body().ok()?;
                self.visit_expr_mut(&mut x.e);
                let (e, p) = (x.e, x.p);
                let g = match x.g {
                    Some(mut g) => {
                        self.visit_expr_mut(&mut g);
                        quote!(if #g)
                    }
                    None => quote!(),
                };
                Some(quote!((match #e { #p #g => true, _ => false })))
            }
            "panic" | "unreachable" | "unimplemented" | "todo" => Some(quote!(vx_panic())),
            "assert" | "debug_assert" => {
                let mut args = parse_args()?;
                self.visit_expr_mut(&mut args[0]);
                let e = &args[0];
                Some(quote!(vx_assert(#e)))
            }
            "assert_eq" | "debug_assert_eq" => {
                let mut args = parse_args()?;
                self.visit_expr_mut(&mut args[0]);
                self.visit_expr_mut(&mut args[1]);
                let (a, b) = (&args[0], &args[1]);
                Some(quote!(vx_assert(#a == #b)))
            }
            _ => None,
        }
    }

    fn rewrite(&mut self, e: &mut Expr, pre: Option<&'static str>) {
        let new: Option<TokenStream> = match e {
            Expr::MethodCall(m) => self.method(m, pre),
            Expr::Try(t) => {
                let x = &t.expr;
                match self.ret_kind(x).or(pre) {
                    Some("Option") if !self.ret_result => {
                        Some(quote!((match #x { Some(__v) => __v, None => return None })))
                    }
                    _ => Some(quote!((match #x { Ok(__v) => __v, Err(__e) => return Err(vx_err(__e)) }))),
                }
            }
            Expr::Cast(c) if c.ty.to_token_stream().to_string().replace(' ', "") == "&str" => {
                let x = &c.expr;
                Some(quote!((#x).vx_as_str()))
            }
            Expr::Binary(b) => {
                let is_unit = |e: &Expr| match e {
                    Expr::Path(p) if p.path.segments.len() == 2 => {
                        p.path.segments.iter().all(|s| s.ident.to_string().chars().next().unwrap().is_uppercase())
                    }
                    _ => false,
                };
                let is_lit = |e: &Expr| matches!(e, Expr::Lit(ExprLit { lit: Lit::Str(_), .. }));
                let eq = matches!(b.op, BinOp::Eq(_));
                let ne = matches!(b.op, BinOp::Ne(_));
                if eq || ne {
                    let (l, r) = (&b.left, &b.right);
                    let core = if is_unit(r) {
                        Some(quote!((match #l { #r => true, _ => false })))
                    } else if is_unit(l) {
                        Some(quote!((match #r { #l => true, _ => false })))
                    } else if is_lit(r) || is_lit(l) {
                        Some(quote!(vx_str_eq(#l, #r)))
                    } else {
                        None
                    };
                    core.map(|c| if ne { quote!(!#c) } else { c })
                } else {
                    let (l, r) = (&b.left, &b.right);
                    match b.op {
                        BinOp::AddAssign(_) if self.is_text(l) => Some(quote!(#l.vx_push_disp(#r))),
                        BinOp::AddAssign(_) => Some(quote!(#l = #l + #r)),
                        BinOp::SubAssign(_) => Some(quote!(#l = #l - #r)),
                        BinOp::MulAssign(_) => Some(quote!(#l = #l * #r)),
                        BinOp::DivAssign(_) => Some(quote!(#l = #l / #r)),
                        BinOp::BitOrAssign(_) => Some(quote!(#l = #l | #r)),
                        BinOp::BitAndAssign(_) => Some(quote!(#l = #l & #r)),
                        BinOp::ShlAssign(_) => Some(quote!(#l = #l << #r)),
                        BinOp::ShrAssign(_) => Some(quote!(#l = #l >> #r)),
                        _ => None,
                    }
                }
            }
            Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => {
                self.strlits.insert(s.value());
                None
            }
            Expr::Reference(r) if r.mutability.is_none() => match &*r.expr {
                Expr::Index(ix) => match &*ix.index {
                    Expr::Range(rg) => Some(slice_call(&ix.expr, rg)),
                    _ => None,
                },
                _ => None,
            },
            Expr::Match(m) if has_str_pat(m) => self.str_match(m),
            Expr::Path(p) => {
                if let Some(i) = p.path.get_ident() {
                    let s = i.to_string();
                    if self.g.repo.consts.contains_key(&s) {
                        self.g.used_consts.insert(s);
                    }
                }
                None
            }
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) => {
                    let s = p.to_token_stream().to_string().replace(' ', "");
                    let a: Vec<&Expr> = c.args.iter().collect();
                    match s.as_str() {
                        "From::from" | "Into::into" => {
                            let a = a[0];
                            Some(quote!(vx_into(#a)))
                        }
                        "String::from" => {
                            let a = a[0];
                            Some(quote!((#a).vx_to_owned()))
                        }
                        s if s.ends_with("::deserialize") && a.len() == 1 && s.matches("::").count() == 1 => {
                            let a = a[0];
                            let ty = &p.path.segments[0].ident;
                            Some(quote!(vx_de::<#ty>(#a)))
                        }
                        "min" | "cmp::min" | "std::cmp::min" | "usize::min" | "u32::min" | "Ord::min" if a.len() == 2 => {
                            let (a, b) = (a[0], a[1]);
                            Some(quote!((#a).vx_min(#b)))
                        }
                        "max" | "cmp::max" | "std::cmp::max" | "usize::max" | "u32::max" | "Ord::max" if a.len() == 2 => {
                            let (a, b) = (a[0], a[1]);
                            Some(quote!((#a).vx_max(#b)))
                        }
                        "u32::from_be_bytes" => {
                            let a = a[0];
                            Some(quote!(vx_from_be4(#a)))
                        }
                        "Default::default" => Some(quote!(vx_default())),
                        s if s.ends_with("::default") && a.is_empty() && s.matches("::").count() == 1 => {
                            let ty = &p.path.segments[0];
                            Some(quote!(vx_default::<#ty>()))
                        }
                        "String::from_utf8_lossy" => {
                            let a = a[0];
                            Some(quote!(vx_from_utf8_lossy(#a)))
                        }
                        "String::from_utf8" => {
                            let a = a[0];
                            Some(quote!(vx_from_utf8(#a)))
                        }
                        "Vec::with_capacity" => {
                            let a = a[0];
                            Some(quote!(vx_with_capacity(#a)))
                        }
                        "String::new" => Some(quote!(vx_string_new())),
                        "String::with_capacity" => Some(quote!(vx_string_new())),
                        "hex::decode" => {
                            let a = a[0];
                            Some(quote!(vx_hex_decode(#a)))
                        }
                        "hex::encode" => {
                            let a = a[0];
                            Some(quote!(vx_hex_encode(#a)))
                        }
                        "Keccak256::digest" => {
                            let a = a[0];
                            Some(quote!(vx_keccak(#a)))
                        }
                        "Error::duplicate_field" | "Error::missing_field" | "Error::custom" | "SerdeError::custom" => Some(quote!(vx_de_error())),
                        s if s.ends_with("::duplicate_field") | s.ends_with("::missing_field") => Some(quote!(vx_de_error())),
                        "serde_json::from_reader" => {
                            let a = a[0];
                            Some(quote!(vx_from_reader(#a)))
                        }
                        _ => None,
                    }
                }
                _ => None,
            },
            _ => None,
        };
        if let Some(t) = new {
            *e = Expr::Verbatim(t);
        }
    }

    fn str_match(&mut self, m: &ExprMatch) -> Option<TokenStream> {
        let x = &m.expr;
        let k = self.fresh();
        let v = format_ident!("__m{}", k);
        let mut out = TokenStream::new();
        let mut open = false;
        for (n, a) in m.arms.iter().enumerate() {
            let body = &a.body;
            let mut pats = vec![];
            match &a.pat {
                Pat::Or(o) => pats.extend(o.cases.iter().cloned()),
                p => pats.push(p.clone()),
            }
            let mut conds = vec![];
            let mut bind = quote!();
            let mut always = false;
            for p in pats {
                match p {
                    Pat::Lit(l) => {
                        if let Lit::Str(s) = &l.lit {
                            self.strlits.insert(s.value());
                        }
                        conds.push(quote!(vx_str_eq(#v, #l)))
                    }
                    Pat::Wild(_) => always = true,
                    Pat::Ident(i) => {
                        let i = &i.ident;
                        bind = quote!(let #i = #v;);
                        always = true;
                    }
                    _ => return None,
                }
            }
            let c = match (&a.guard, always) {
                (Some((_, g)), true) => quote!({ #bind #g }),
                (Some((_, g)), false) => quote!((#(#conds)||*) && #g),
                (None, true) => {
                    if n > 0 {
                        out.extend(quote!(else));
                    }
                    out.extend(quote!({ #bind #body }));
                    open = true;
                    break;
                }
                (None, false) => quote!(#(#conds)||*),
            };
            if n > 0 {
                out.extend(quote!(else));
            }
            out.extend(quote!(if #c { #bind #body }));
        }
        if !open {
            out.extend(quote!(else { vx_panic() }));
        }
        Some(quote!({ let #v = #x; #out }))
    }

    fn method(&mut self, m: &ExprMethodCall, pre: Option<&'static str>) -> Option<TokenStream> {
        let name = m.method.to_string();
        let r = &m.receiver;
        let kind = self.ret_kind(r).or(pre);
        let a0 = m.args.first();
        let two = |o: TokenStream, s: TokenStream| match kind {
            Some("Option") => Some(o),
            Some("Result") => Some(s),
            _ => None,
        };
        match name.as_str() {
            "get" if matches!(a0, Some(Expr::Range(_))) => {
                if let Some(Expr::Range(rg)) = a0 {
                    let lo = rg.start.as_ref().map(|x| quote!(#x)).unwrap_or(quote!(0usize));
                    let hi = rg.end.as_ref().map(|x| quote!(#x)).unwrap_or(quote!(#r.vx_len()));
                    return Some(quote!(#r.vx_get_range(#lo, #hi)));
                }
                None
            }
            "map" => {
                let b = self.apply(a0?, &[quote!(__v)]);
                two(
                    quote!((match #r { Some(__v) => Some(#b), None => None })),
                    quote!((match #r { Ok(__v) => Ok(#b), Err(__e) => Err(__e) })),
                )
                .or_else(|| {
                    self.err("map on unknown type");
                    None
                })
            }
            "and_then" => {
                let b = self.apply(a0?, &[quote!(__v)]);
                two(
                    quote!((match #r { Some(__v) => #b, None => None })),
                    quote!((match #r { Ok(__v) => #b, Err(__e) => Err(__e) })),
                )
            }
            "filter" if kind == Some("Option") => {
                let b = self.apply(a0?, &[quote!(&__v)]);
                Some(quote!((match #r { Some(__v) => if #b { Some(__v) } else { None }, None => None })))
            }
            "map_err" => {
                let f = a0?;
                let b = match f {
                    Expr::Path(p) if ["Into::into", "From::from", "Error::from"].contains(&p.to_token_stream().to_string().replace(' ', "").as_str()) => {
                        quote!(vx_err(__e))
                    }
                    Expr::Path(_) => quote!(vx_err(__e)),
                    f => self.apply(f, &[quote!(__e)]),
                };
                Some(quote!((match #r { Ok(__v) => Ok(__v), Err(__e) => Err(#b) })))
            }
            "ok_or" => {
                let a = a0?;
                Some(quote!((match #r { Some(__v) => Ok(__v), None => Err(#a) })))
            }
            "ok_or_else" => {
                let b = match a0? {
                    Expr::Closure(c) => {
                        let mut b = (*c.body).clone();
                        self.visit_expr_mut(&mut b);
                        quote!(#b)
                    }
                    _ => return None,
                };
                Some(quote!((match #r { Some(__v) => Ok(__v), None => Err(#b) })))
            }
            "unwrap_or" => {
                let a = a0?;
                two(
                    quote!((match #r { Some(__v) => __v, None => #a })),
                    quote!((match #r { Ok(__v) => __v, Err(_) => #a })),
                )
            }
            "unwrap_or_else" => match a0? {
                Expr::Closure(c) => {
                    let mut b = (*c.body).clone();
                    self.visit_expr_mut(&mut b);
                    two(
                        quote!((match #r { Some(__v) => __v, None => #b })),
                        quote!((match #r { Ok(__v) => __v, Err(_) => #b })),
                    )
                }
                _ => None,
            },
            "map_or" => {
                let d = a0?.clone();
                let b = self.apply(&m.args[1], &[quote!(__v)]);
                two(
                    quote!((match #r { Some(__v) => #b, None => #d })),
                    quote!((match #r { Ok(__v) => #b, Err(_) => #d })),
                )
            }
            "map_or_else" => {
                let d = match a0? {
                    Expr::Closure(c) => {
                        let mut b = (*c.body).clone();
                        self.visit_expr_mut(&mut b);
                        quote!(#b)
                    }
                    Expr::Path(p) => quote!(#p()),
                    _ => return None,
                };
                let b = self.apply(&m.args[1], &[quote!(__v)]);
                two(
                    quote!((match #r { Some(__v) => #b, None => #d })),
                    quote!((match #r { Ok(__v) => #b, Err(_) => #d })),
                )
            }
            "or_insert_with" => {
                let b = match a0? {
                    Expr::Closure(c) => {
                        let mut b = (*c.body).clone();
                        self.visit_expr_mut(&mut b);
                        quote!(#b)
                    }
                    Expr::Path(p) => quote!(#p()),
                    _ => return None,
                };
                Some(quote!(#r.vx_or_insert(#b)))
            }
            "is_some_and" => {
                let b = self.apply(a0?, &[quote!(__v)]);
                Some(quote!((match #r { Some(__v) => #b, None => false })))
            }
            "unwrap_or_default" => two(
                quote!((match #r { Some(__v) => __v, None => vx_default() })),
                quote!((match #r { Ok(__v) => __v, Err(_) => vx_default() })),
            ),
            "ok" => Some(quote!((match #r { Ok(__v) => Some(__v), Err(_) => None }))),
            "is_some" => Some(quote!((match &#r { Some(_) => true, None => false }))),
            "is_none" => Some(quote!((match &#r { Some(_) => false, None => true }))),
            "is_ok" => Some(quote!((match &#r { Ok(_) => true, Err(_) => false }))),
            "is_err" => Some(quote!((match &#r { Ok(_) => false, Err(_) => true }))),
            "unwrap" | "expect" => two(
                quote!((match #r { Some(__v) => __v, None => vx_panic() })),
                quote!((match #r { Ok(__v) => __v, Err(_) => vx_panic() })),
            ),
            "copy_from_slice" => {
                // receiver may be an (unsliced) place or a range of one
                let a = a0?;
                match &**r {
                    Expr::Index(ix) => {
                        if let Expr::Range(rg) = &*ix.index {
                            let b = &ix.expr;
                            let lo = rg.start.as_ref().map(|e| quote!(#e)).unwrap_or(quote!(0));
                            let hi = rg.end.as_ref().map(|e| quote!(#e)).unwrap_or(quote!(#b.vx_len()));
                            let hi = match rg.limits {
                                RangeLimits::HalfOpen(_) => hi,
                                RangeLimits::Closed(_) => quote!(#hi + 1),
                            };
                            return Some(quote!(#b.vx_copy_range(#lo, #hi, #a)));
                        }
                        None
                    }
                    _ => Some(quote!(#r.vx_copy_from(#a))),
                }
            }
            _ => {
                // a slice as receiver: x[a..b].m()
                let recv = match &**r {
                    Expr::Index(ix) => match &*ix.index {
                        Expr::Range(rg) => {
                            let s = slice_call(&ix.expr, rg);
                            Some(quote!(#s))
                        }
                        _ => None,
                    },
                    _ => None,
                };
                let args: Vec<&Expr> = m.args.iter().collect();
                let tb = &m.turbofish;
                let rn = rename(&name).map(id);
                match (recv, rn) {
                    (None, None) => None,
                    (recv, rn) => {
                        let recv = recv.unwrap_or(quote!(#r));
                        let n = rn.unwrap_or(m.method.clone());
                        let tb = if n.to_string().starts_with("vx_") && name != "parse" { quote!() } else { quote!(#tb) };
                        Some(quote!(#recv.#n #tb (#(#args),*)))
                    }
                }
            }
        }
    }
}

pub fn slice_call(b: &Expr, rg: &ExprRange) -> TokenStream {
    let b = match b {
        Expr::Verbatim(_) | Expr::Path(_) | Expr::Field(_) | Expr::MethodCall(_) | Expr::Paren(_) => quote!(#b),
        b => quote!((#b)),
    };
    match (&rg.start, &rg.end, &rg.limits) {
        (Some(a), Some(c), RangeLimits::HalfOpen(_)) => quote!(#b.vx_sub(#a, #c)),
        (Some(a), Some(c), RangeLimits::Closed(_)) => quote!(#b.vx_sub(#a, #c + 1)),
        (Some(a), None, _) => quote!(#b.vx_from(#a)),
        (None, Some(c), RangeLimits::HalfOpen(_)) => quote!(#b.vx_to(#c)),
        (None, Some(c), RangeLimits::Closed(_)) => quote!(#b.vx_to(#c + 1)),
        (None, None, _) => quote!(#b.vx_all()),
    }
}

/// #e(v): the value of v when the loop is entered
fn snapshot(c: &str, lid: &str, out: &mut BTreeSet<String>) -> String {
    let mut c = c.to_string();
    while let Some(p) = c.find("#e(") {
        let e = match c[p..].find(')') {
            Some(e) => p + e,
            None => return c,
        };
        let v = c[p + 3..e].trim().to_string();
        c = format!("{}__e_{}_{}{}", &c[..p], lid.replace(|c: char| !c.is_alphanumeric(), "_"), v, &c[e + 1..]);
        out.insert(v);
    }
    c
}

fn has_str_pat(m: &ExprMatch) -> bool {
    fn p(p: &Pat) -> bool {
        match p {
            Pat::Lit(l) => matches!(l.lit, Lit::Str(_)),
            Pat::Or(o) => o.cases.iter().any(p_),
            _ => false,
        }
    }
    fn p_(x: &Pat) -> bool {
        p(x)
    }
    m.arms.iter().any(|a| p(&a.pat))
}

fn strip_pat(p: &Pat) -> Pat {
    match p {
        Pat::Type(t) => strip_pat(&t.pat),
        Pat::Paren(t) => strip_pat(&t.pat),
        p => p.clone(),
    }
}

/// `let p = e;` avoiding reference and `ref` patterns.
fn let_pat(p: &Pat, e: TokenStream) -> TokenStream {
    match p {
        Pat::Ident(i) if i.by_ref.is_some() && i.subpat.is_none() => {
            let n = &i.ident;
            quote!(let #n = &#e;)
        }
        Pat::Ident(i) if i.mutability.is_none() && i.subpat.is_none() => {
            let n = &i.ident;
            let es = e.to_string();
            if es == n.to_string() {
                return quote!();
            }
            quote!(let #n = #e;)
        }
        Pat::Reference(r) => match &*r.pat {
            Pat::Ident(i) => {
                let n = &i.ident;
                quote!(let #n = *#e;)
            }
            Pat::Tuple(t) => {
                let mut out = quote!(let __tp = #e;);
                for (k, q) in t.elems.iter().enumerate() {
                    let ix = Index::from(k);
                    out.extend(match q {
                        Pat::Ident(i) if i.by_ref.is_some() => {
                            let n = &i.ident;
                            quote!(let #n = &__tp.#ix;)
                        }
                        q => quote!(let #q = __tp.#ix;),
                    });
                }
                out
            }
            q => quote!(let #q = *#e;),
        },
        Pat::Paren(x) => let_pat(&x.pat, e),
        Pat::Wild(_) => quote!(),
        p => quote!(let #p = #e;),
    }
}

#[derive(Default)]
struct Rets {
    err: usize,
    other: usize,
}
impl<'ast> Visit<'ast> for Rets {
    fn visit_expr_return(&mut self, r: &'ast ExprReturn) {
        match r.expr.as_deref() {
            Some(Expr::Call(c)) if c.func.to_token_stream().to_string() == "Err" => self.err += 1,
            _ => self.other += 1,
        }
        visit::visit_expr_return(self, r);
    }
    fn visit_expr_try(&mut self, t: &'ast ExprTry) {
        self.err += 1;
        visit::visit_expr_try(self, t);
    }
    fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
}
/// breaks of the loop itself
#[derive(Default)]
struct Breaks {
    n: usize,
    value: bool,
}
impl<'ast> Visit<'ast> for Breaks {
    fn visit_expr_break(&mut self, b: &'ast ExprBreak) {
        self.n += 1;
        self.value |= b.expr.is_some() || b.label.is_some();
    }
    fn visit_expr_loop(&mut self, _: &'ast ExprLoop) {}
    fn visit_expr_while(&mut self, _: &'ast ExprWhile) {}
    fn visit_expr_for_loop(&mut self, _: &'ast ExprForLoop) {}
    fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
}
fn has_return(e: &Expr) -> bool {
    let mut r = Rets::default();
    r.visit_expr(e);
    r.err + r.other > 0
}

/// replaces a parameter that is a mutable reference by the variable it refers to
struct Subst {
    from: Ident,
    to: Ident,
}
impl VisitMut for Subst {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Unary(u) = e {
            if let (UnOp::Deref(_), Expr::Path(p)) = (&u.op, &*u.expr) {
                if p.path.is_ident(&self.from) {
                    let to = &self.to;
                    *e = parse_quote!(#to);
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.path.is_ident(&self.from) {
            let to = &self.to;
            p.path = parse_quote!(#to);
        }
    }
}
/// consistent renaming of local names
struct Rename {
    names: BTreeMap<String, String>,
    bad: bool,
}
impl Rename {
    fn to(&self, i: &Ident) -> Option<Ident> {
        self.names.get(&i.to_string()).map(|n| format_ident!("{}", n))
    }
    fn tokens(&mut self, ts: TokenStream) -> TokenStream {
        let mut prev = ' ';
        ts.into_iter()
            .map(|t| {
                let p = prev;
                prev = ' ';
                match t {
                    proc_macro2::TokenTree::Ident(i) if p != '.' && self.names.contains_key(&i.to_string()) => {
                        proc_macro2::TokenTree::Ident(self.to(&i).unwrap())
                    }
                    proc_macro2::TokenTree::Group(g) => proc_macro2::TokenTree::Group(proc_macro2::Group::new(g.delimiter(), self.tokens(g.stream()))),
                    proc_macro2::TokenTree::Punct(q) => {
                        prev = q.as_char();
                        proc_macro2::TokenTree::Punct(q)
                    }
                    proc_macro2::TokenTree::Literal(l) => {
                        let s = l.to_string();
                        if s.starts_with('"') {
                            let mut new = s.clone();
                            for (a, b) in &self.names {
                                new = new.replace(&format!("{{{}}}", a), &format!("{{{}}}", b));
                                if new.contains(&format!("{{{}:", a)) {
                                    self.bad = true;
                                }
                            }
                            if new != s {
                                if let Ok(l) = new.parse::<proc_macro2::Literal>() {
                                    return proc_macro2::TokenTree::Literal(l);
                                }
                                self.bad = true;
                            }
                        }
                        proc_macro2::TokenTree::Literal(l)
                    }
                    t => t,
                }
            })
            .collect()
    }
}
impl VisitMut for Rename {
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if let Some(n) = p.path.get_ident().and_then(|i| self.to(i)) {
            p.path = parse_quote!(#n);
        }
    }
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        if let Some(n) = self.to(&p.ident) {
            p.ident = n;
        }
        visit_mut::visit_pat_ident_mut(self, p);
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_pat_mut(self, f);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        m.tokens = self.tokens(m.tokens.clone());
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}
struct ReplaceSelf {
    to: Ident,
}
impl VisitMut for ReplaceSelf {
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.path.is_ident("self") {
            let to = &self.to;
            p.path = parse_quote!(#to);
        }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        fn go(ts: TokenStream, to: &Ident) -> TokenStream {
            ts.into_iter()
                .map(|t| match t {
                    proc_macro2::TokenTree::Ident(i) if i == "self" => proc_macro2::TokenTree::Ident(to.clone()),
                    proc_macro2::TokenTree::Group(g) => {
                        proc_macro2::TokenTree::Group(proc_macro2::Group::new(g.delimiter(), go(g.stream(), to)))
                    }
                    t => t,
                })
                .collect()
        }
        m.tokens = go(m.tokens.clone(), &self.to);
    }
}

fn guess_kind(init: &Expr, name: &str, body: &TokenStream) -> &'static str {
    let t = init.to_token_stream().to_string();
    if t.contains("Vec ::") || t.contains("vec !") || t.contains("with_capacity") || t.contains("String ::") || t.contains("string_new") {
        return "vec";
    }
    if t == "true" || t == "false" {
        return "bool";
    }
    for (v, k) in mutated(body) {
        if v == name {
            return k;
        }
    }
    "int"
}

/// Variables assigned or mutated in a piece of code, with a guess of their kind.
pub fn mutated(ts: &TokenStream) -> Vec<(String, &'static str)> {
    use proc_macro2::TokenTree as T;
    let mut out: Vec<(String, &'static str)> = vec![];
    let mut lets: BTreeSet<String> = BTreeSet::new();
    fn flat(ts: TokenStream, out: &mut Vec<T>) {
        for t in ts {
            match t {
                T::Group(g) => {
                    let (o, c) = match g.delimiter() {
                        proc_macro2::Delimiter::Parenthesis => ('(', ')'),
                        proc_macro2::Delimiter::Brace => ('{', '}'),
                        proc_macro2::Delimiter::Bracket => ('[', ']'),
                        _ => (' ', ' '),
                    };
                    out.push(T::Punct(proc_macro2::Punct::new(if o == ' ' { ';' } else if o == '(' { '<' } else { ';' }, proc_macro2::Spacing::Alone)));
                    flat(g.stream(), out);
                    out.push(T::Punct(proc_macro2::Punct::new(if c == ')' { '>' } else { ';' }, proc_macro2::Spacing::Alone)));
                }
                t => out.push(t),
            }
        }
    }
    let mut v = vec![];
    flat(ts.clone(), &mut v);
    let s = |t: Option<&T>| t.map(|t| t.to_string()).unwrap_or_default();
    let mut add = |n: String, k: &'static str| {
        if let Some(x) = out.iter_mut().find(|x| x.0 == n) {
            if x.1 == "int" && k != "int" {
                x.1 = k;
            }
        } else {
            out.push((n, k));
        }
    };
    for i in 0..v.len() {
        if let T::Ident(x) = &v[i] {
            let name = x.to_string();
            let prev = if i > 0 { s(v.get(i - 1)) } else { String::new() };
            if prev == "let" || (prev == "mut" && i > 1 && s(v.get(i - 2)) == "let") {
                lets.insert(name.clone());
                continue;
            }
            if prev == "." || prev == "'" {
                continue;
            }
            let n1 = s(v.get(i + 1));
            let n2 = s(v.get(i + 2));
            let joint = matches!(v.get(i + 1), Some(T::Punct(p)) if p.spacing() == proc_macro2::Spacing::Joint);
            let in_let = || v[..i].iter().rev().map(|t| t.to_string()).take_while(|t| t != ";" && t != "=").any(|t| t == "let");
            if n1 == "=" && !joint && n2 != "=" && n2 != ">" && !in_let() {
                let k = if n2 == "true" || n2 == "false" || n2 == "!" {
                    "bool"
                } else if n2 == "Some" || n2 == "None" {
                    "opt"
                } else {
                    "int"
                };
                add(name.clone(), k);
            } else if ["+", "-", "*", "/", "&", "|"].contains(&n1.as_str()) && joint && n2 == "=" {
                add(name.clone(), "int");
            } else if n1 == "." {
                match n2.as_str() {
                    "push" | "vx_resize" | "vx_clear" | "vx_extend" | "extend" | "vx_push_str" | "vx_push_disp" | "vx_truncate" | "vx_append" | "push_str" | "extend_from_slice" | "pop" => add(name.clone(), "vec"),
                    "next" | "next_back" => add(name.clone(), "iter"),
                    "serialize_element" | "serialize_entry" | "serialize_key" | "serialize_value" | "next_element" | "next_key" | "next_value" | "next_entry" | "vx_insert" | "vx_entry" | "get_mut" | "remove" => add(name.clone(), "other"),
                    f if f != "vx_clone" => {
                        // x.f = e, x.f.push(e)
                        let n3 = s(v.get(i + 3));
                        let joint3 = matches!(v.get(i + 3), Some(T::Punct(p)) if p.spacing() == proc_macro2::Spacing::Joint);
                        let n4 = s(v.get(i + 4));
                        if (n3 == "=" && !joint3 && n4 != "=" && n4 != ">" && !in_let())
                            || (n3 == "." && ["push", "vx_extend", "vx_insert", "vx_entry", "get_mut", "vx_push_str", "vx_push_disp", "vx_append"].contains(&n4.as_str()))
                        {
                            add(name.clone(), "other");
                        }
                    }
                    _ => {}
                }
            }
            if prev == "mut" && i > 1 && s(v.get(i - 2)) == "&" {
                add(name.clone(), "vec");
            }
        }
    }
    out.retain(|x| !lets.contains(&x.0) && !(x.0.starts_with("__i") && x.0[3..].chars().all(|c| c.is_ascii_digit())));
    out
}

/// Sequences indexed by a variable in a piece of code.
fn indexed(ts: &TokenStream) -> Vec<String> {
    use proc_macro2::TokenTree as T;
    let mut out: Vec<String> = vec![];
    let v: Vec<T> = ts.clone().into_iter().collect();
    for i in 0..v.len() {
        if let (T::Ident(x), Some(T::Group(g))) = (&v[i], v.get(i + 1)) {
            let dot = i > 0 && v[i - 1].to_string() == ".";
            let inner: Vec<T> = g.stream().into_iter().collect();
            if !dot && g.delimiter() == proc_macro2::Delimiter::Bracket && inner.len() == 1 && matches!(inner[0], T::Ident(_)) {
                out.push(x.to_string());
            }
        }
        if let (T::Ident(x), Some(T::Punct(p)), Some(T::Ident(m))) = (&v[i], v.get(i + 1), v.get(i + 2)) {
            if p.as_char() == '.' && m == "vx_get" {
                out.push(x.to_string());
            }
        }
        if let T::Group(g) = &v[i] {
            out.extend(indexed(&g.stream()));
        }
    }
    out.sort();
    out.dedup();
    out
}
/// `while a < b` where the loop changes a: (a, b), as specification terms
fn cond_bounds(cond: &TokenStream, muts: &[(String, &'static str)]) -> Option<(String, String)> {
    let e: Expr = syn::parse2(cond.clone()).ok()?;
    let e = match e {
        Expr::Binary(b) if matches!(b.op, BinOp::And(_)) => (*b.left).clone(),
        e => e,
    };
    if let Expr::Binary(b) = &e {
        let (l, r) = match b.op {
            BinOp::Lt(_) | BinOp::Ne(_) => (&b.left, &b.right),
            BinOp::Gt(_) => (&b.right, &b.left),
            _ => return None,
        };
        let var = match &**l {
            Expr::Path(p) => p.path.get_ident()?.to_string(),
            Expr::MethodCall(m) if m.method == "vx_len" => match &*m.receiver {
                Expr::Path(p) => p.path.get_ident()?.to_string(),
                _ => return None,
            },
            _ => return None,
        };
        if !muts.iter().any(|m| m.0 == var) {
            return None;
        }
        return Some((format!("({})", cond_term(l)?), format!("({})", cond_term(r)?)));
    }
    None
}
fn cond_term(e: &Expr) -> Option<TokenStream> {
    cond_measure_term(e)
}
/// `while a < b`: b - a
fn cond_measure_term(e: &Expr) -> Option<TokenStream> {
    fn term(e: &Expr) -> Option<TokenStream> {
        match e {
            Expr::Paren(p) => term(&p.expr),
            Expr::Path(p) if p.path.get_ident().is_some() => Some(quote!(#e)),
            Expr::Lit(_) => Some(quote!(#e)),
            Expr::Binary(b) if matches!(b.op, BinOp::Add(_) | BinOp::Sub(_)) => {
                let (l, r, o) = (term(&b.left)?, term(&b.right)?, &b.op);
                Some(quote!((#l #o #r)))
            }
            Expr::MethodCall(m) if m.method == "vx_len" => {
                let r = &m.receiver;
                match &**r {
                    Expr::Path(_) => Some(quote!(#r.sq().len())),
                    _ => None,
                }
            }
            _ => None,
        }
    }
    term(e)
}
fn cond_measure(cond: &TokenStream) -> Option<TokenStream> {
    let term = cond_measure_term;
    let e: Expr = syn::parse2(cond.clone()).ok()?;
    let e = match e {
        Expr::Binary(b) if matches!(b.op, BinOp::And(_)) => match &*b.left {
            Expr::Binary(l) if matches!(l.op, BinOp::Lt(_) | BinOp::Gt(_)) => (*b.left).clone(),
            _ => (*b.right).clone(),
        },
        e => e,
    };
    if let Expr::Binary(b) = &e {
        let (l, r) = (term(&b.left)?, term(&b.right)?);
        return match b.op {
            BinOp::Lt(_) | BinOp::Le(_) => Some(quote!(decreases #r - #l,)),
            BinOp::Gt(_) | BinOp::Ge(_) => Some(quote!(decreases #l - #r,)),
            _ => None,
        };
    }
    None
}
fn contains_ph(t: &str, ph: &str) -> bool {
    let mut from = 0;
    while let Some(p) = t[from..].find(ph) {
        let e = from + p + ph.len();
        if !t[e..].starts_with(|c: char| c.is_alphanumeric() || c == '_') {
            return true;
        }
        from = e;
    }
    false
}
fn replace_ph(t: &str, ph: &str, v: &str) -> String {
    let mut out = String::new();
    let mut from = 0;
    while let Some(p) = t[from..].find(ph) {
        let b = from + p;
        let e = b + ph.len();
        out.push_str(&t[from..b]);
        if t[e..].starts_with(|c: char| c.is_alphanumeric() || c == '_') {
            out.push_str(ph);
        } else {
            out.push_str(v);
        }
        from = e;
    }
    out.push_str(&t[from..]);
    out
}

fn call_arg(body: &TokenStream, f: &str, k: usize) -> Option<String> {
    use proc_macro2::TokenTree as T;
    let v: Vec<T> = body.clone().into_iter().collect();
    for i in 0..v.len() {
        if let T::Ident(x) = &v[i] {
            if x == f {
                if let Some(T::Group(g)) = v.get(i + 1) {
                    let args: punctuated::Punctuated<Expr, Token![,]> =
                        parse::Parser::parse2(punctuated::Punctuated::parse_terminated, g.stream()).ok()?;
                    let a = args.iter().nth(k)?;
                    return Some(a.to_token_stream().to_string());
                }
            }
        }
        if let T::Group(g) = &v[i] {
            if let Some(a) = call_arg(&g.stream(), f, k) {
                return Some(a);
            }
        }
    }
    None
}

impl<'a, 'b> VisitMut for Tx<'a, 'b> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // whole-expression forms first
        if let Some(t) = self.consumer(e) {
            *e = Expr::Verbatim(t);
            return;
        }
        if let Expr::Binary(b) = e {
            let lit = |e: &Expr| matches!(e, Expr::Lit(ExprLit { lit: Lit::Str(_), .. }));
            let ne = matches!(b.op, BinOp::Ne(_));
            if (ne || matches!(b.op, BinOp::Eq(_))) && !lit(&b.left) && !lit(&b.right) && (self.is_text(&b.left) || self.is_text(&b.right)) {
                self.visit_expr_mut(&mut b.left);
                self.visit_expr_mut(&mut b.right);
                let (l, r) = (&b.left, &b.right);
                *e = Expr::Verbatim(if ne { quote!(!vx_str_eq(&#l, &#r)) } else { quote!(vx_str_eq(&#l, &#r)) });
                return;
            }
        }
        // f::<V::Error>(..): the error type is fixed by the contract
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &mut *c.func {
                if let Some(x) = p.path.segments.last_mut() {
                    let t = x.arguments.to_token_stream().to_string().replace(' ', "");
                    if t.starts_with("::<") && t.ends_with("::Error>") {
                        x.arguments = PathArguments::None;
                    }
                }
            }
        }
        // v.extend(chain): what the chain gives is collected first
        if let Expr::MethodCall(m) = e {
            if m.method == "extend" && m.args.len() == 1 {
                if let Expr::MethodCall(a) = &m.args[0] {
                    if self.is_iter(&m.args[0]) && !SOURCES.contains(&a.method.to_string().as_str()) {
                        let c = m.args[0].clone();
                        m.args[0] = parse_quote!(#c.collect::<Vec<_>>());
                    }
                }
            }
        }
        if let Expr::Try(t) = e {
            // collect::<Result<..>>()?  and helper()? keep early returns
            let inner = (*t.expr).clone();
            if let Expr::MethodCall(m) = &inner {
                let turbo = m.turbofish.as_ref().map(|t| t.to_token_stream().to_string()).unwrap_or_default();
                if m.method == "collect" && self.is_iter(&m.receiver) && turbo.contains("Result") | turbo.is_empty() {
                    let c = self.chain(&m.receiver);
                    let k = self.fresh();
                    let v = format_ident!("__v{}", k);
                    let v2 = v.clone();
                    let lp = self.emit(c, None, &[(v.to_string(), "vec")], &mut |_, x| {
                        quote!(match #x { Ok(__y) => { #v2.push(__y); } Err(__z) => { return Err(vx_err(__z)); } })
                    });
                    *e = Expr::Verbatim(quote!({ let mut #v = Vec::new(); #lp #v }));
                    return;
                }
            }
            if let Some(t) = self.try_inline_call(&inner, true) {
                *e = Expr::Verbatim(quote!((match #t { Ok(__v) => __v, Err(__e) => return Err(vx_err(__e)) })));
                return;
            }
        }
        if let Some(t) = self.try_inline_call(e, false) {
            *e = Expr::Verbatim(t);
            return;
        }
        match e {
            Expr::ForLoop(f) => {
                let c = self.chain(&f.expr);
                let mut b = f.body.clone();
                self.visit_block_mut(&mut b);
                let pat = f.pat.clone();
                let t = self.emit(c, None, &[], &mut |_, x| {
                    let l = match &*pat {
                        Pat::Wild(_) => quote!(),
                        p => let_pat(p, x),
                    };
                    let st = &b.stmts;
                    quote!(#l #(#st)*)
                });
                *e = Expr::Verbatim(quote!({ #t }));
                return;
            }
            Expr::While(w) => {
                if let Expr::Let(l) = &*w.cond {
                    // while let P = E { B }  ->  loop { match E { P => B, _ => break } }
                    let (p, x, b) = (&l.pat, &l.expr, &w.body);
                    let mut lp: Expr = parse_quote!(loop { match #x { #p => #b, _ => break, } });
                    self.visit_expr_mut(&mut lp);
                    *e = lp;
                    return;
                }
                let mut c = (*w.cond).clone();
                self.visit_expr_mut(&mut c);
                let mut b = w.body.clone();
                self.visit_block_mut(&mut b);
                let st = &b.stmts;
                let body = quote!(#(#st)*);
                let muts = mutated(&body);
                let t = self.loop_tokens(quote!(#c), None, body, &muts, None);
                *e = Expr::Verbatim(quote!({ #t }));
                return;
            }
            Expr::Loop(w) => {
                let mut b = w.body.clone();
                self.visit_block_mut(&mut b);
                let st = &b.stmts;
                let body = quote!(#(#st)*);
                let muts = mutated(&body);
                let t = self.loop_tokens(quote!(true), None, body, &muts, None);
                let mut br = Breaks::default();
                br.visit_block(&w.body);
                if br.value {
                    self.err("break with a value");
                }
                *e = Expr::Verbatim(if br.n > 0 { quote!({ #t }) } else { quote!({ #t vx_panic() }) });
                return;
            }
            Expr::Macro(m) => {
                let mm = m.mac.clone();
                match self.mac(&mm) {
                    Some(t) => *e = Expr::Verbatim(t),
                    None => self.err(format!("macro {}!", mm.path.to_token_stream())),
                }
                return;
            }
            Expr::Closure(_) => {
                // visited where it is applied
                return;
            }
            _ => {}
        }
        // the kind of the receiver, before it is rewritten
        let pre = match e {
            Expr::MethodCall(m) => self.ret_kind(&m.receiver),
            Expr::Try(t) => self.ret_kind(&t.expr),
            _ => None,
        };
        visit_mut::visit_expr_mut(self, e);
        self.rewrite(e, pre);
    }

    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            let mm = m.mac.clone();
            let semi = m.semi_token.is_some();
            match self.mac(&mm) {
                Some(t) => {
                    *s = if semi {
                        let t = if t.to_string() == "vx_panic ()" { quote!(vx_panic::<()>()) } else { t };
                        Stmt::Expr(Expr::Verbatim(t), Some(Default::default()))
                    } else {
                        Stmt::Expr(Expr::Verbatim(t), None)
                    }
                }
                None => self.err(format!("macro {}!", mm.path.to_token_stream())),
            }
            return;
        }
        if let Stmt::Local(l) = s {
            if let (Pat::Ident(i), Some(init)) = (strip_pat(&l.pat), &l.init) {
                let typed = matches!(&l.pat, Pat::Type(t) if crate::is_text_ty(&t.ty));
                if typed || self.is_text(&init.expr) {
                    self.texts.insert(i.ident.to_string());
                } else {
                    self.texts.remove(&i.ident.to_string());
                }
                if let Some(k) = self.ret_kind(&init.expr) {
                    self.kinds.insert(i.ident.to_string(), k);
                }
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }

    fn visit_pat_mut(&mut self, _p: &mut Pat) {}

    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.retain(|s| !matches!(s, Stmt::Item(Item::Use(_)) | Stmt::Item(Item::Fn(_))));
        // a block that ends in a panic has whatever type is wanted
        if let Some(Stmt::Macro(m)) = b.stmts.last_mut() {
            if ["panic", "unreachable", "unimplemented", "todo"].iter().any(|x| m.mac.path.is_ident(x)) {
                m.semi_token = None;
            }
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_attribute_mut(&mut self, _: &mut Attribute) {}
}
