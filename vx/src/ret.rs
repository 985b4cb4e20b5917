//! Removes early returns from the body of a helper function that is inlined: what follows a conditional return moves into
//! the branch that does not return. Gives None where that is not possible without changing the meaning.
use proc_macro2::TokenStream;
use quote::quote;
use std::collections::BTreeSet;
use syn::visit::{self, Visit};
use syn::*;

#[derive(Default)]
struct Has {
    n: usize,
}
impl<'ast> Visit<'ast> for Has {
    fn visit_expr_return(&mut self, _: &'ast ExprReturn) {
        self.n += 1;
    }
    fn visit_expr_try(&mut self, _: &'ast ExprTry) {
        self.n += 1;
    }
    fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
    fn visit_item(&mut self, _: &'ast Item) {}
}
fn has_e(e: &Expr) -> bool {
    let mut h = Has::default();
    h.visit_expr(e);
    h.n > 0
}
fn has_s(s: &Stmt) -> bool {
    let mut h = Has::default();
    h.visit_stmt(s);
    h.n > 0
}

#[derive(Default)]
struct Bound {
    names: BTreeSet<String>,
}
impl<'ast> Visit<'ast> for Bound {
    fn visit_pat_ident(&mut self, p: &'ast PatIdent) {
        self.names.insert(p.ident.to_string());
        visit::visit_pat_ident(self, p);
    }
}
fn words(ts: TokenStream, out: &mut BTreeSet<String>) {
    for t in ts {
        match t {
            proc_macro2::TokenTree::Ident(i) => {
                out.insert(i.to_string());
            }
            proc_macro2::TokenTree::Group(g) => words(g.stream(), out),
            _ => {}
        }
    }
}
/// names bound at the level of these statements
fn lets(st: &[Stmt]) -> BTreeSet<String> {
    let mut b = Bound::default();
    for s in st {
        if let Stmt::Local(l) = s {
            b.visit_pat(&l.pat);
        }
    }
    b.names
}
fn clash(names: &BTreeSet<String>, rest: &[Stmt]) -> bool {
    let mut w = BTreeSet::new();
    words(quote!(#(#rest)*), &mut w);
    names.iter().any(|n| w.contains(n))
}

pub struct Ret {
    /// the function returns an Option
    pub option: bool,
    budget: usize,
    n: usize,
}

pub fn remove(block: &Block, output: &ReturnType) -> Option<Block> {
    let option = match output {
        ReturnType::Type(_, t) => crate::repo::ty_name(t) == "Option",
        _ => false,
    };
    let mut r = Ret { option, budget: 60, n: 0 };
    let e = r.seq(&block.stmts, &[])?;
    Some(parse_quote!({ #e }))
}

/// does control never reach the end of these statements
fn diverges(st: &[Stmt]) -> bool {
    match st.last() {
        Some(Stmt::Expr(e, _)) => div_e(e),
        _ => false,
    }
}
fn div_e(e: &Expr) -> bool {
    match e {
        Expr::Return(_) => true,
        Expr::Block(b) => diverges(&b.block.stmts),
        Expr::If(i) => diverges(&i.then_branch.stmts) && matches!(&i.else_branch, Some((_, e)) if div_e(e)),
        Expr::Match(m) => !m.arms.is_empty() && m.arms.iter().all(|a| div_e(&a.body)),
        _ => false,
    }
}

impl Ret {
    /// statements followed by `rest`, as an expression that gives the result of the function
    fn seq(&mut self, st: &[Stmt], rest: &[Stmt]) -> Option<Expr> {
        let mut all: Vec<Stmt> = st.to_vec();
        if !rest.is_empty() {
            if diverges(st) {
                // nothing follows
            } else {
                if clash(&lets(st), rest) {
                    return None;
                }
                if let Some(Stmt::Expr(e, semi @ None)) = all.last_mut() {
                    // a unit expression
                    let _ = e;
                    *semi = Some(Default::default());
                }
                all.extend(rest.iter().cloned());
            }
        }
        self.go(&all)
    }

    fn go(&mut self, st: &[Stmt]) -> Option<Expr> {
        self.budget = self.budget.checked_sub(1)?;
        let k = match st.iter().position(has_s) {
            None => return Some(parse_quote!({ #(#st)* })),
            Some(k) => k,
        };
        let (before, s, after) = (&st[..k], &st[k], &st[k + 1..]);
        let e = match s {
            Stmt::Local(l) => self.local(l, after)?,
            Stmt::Expr(e, semi) => {
                if after.is_empty() && semi.is_none() {
                    self.tail(e)?
                } else {
                    self.stmt(e, after)?
                }
            }
            _ => return None,
        };
        Some(parse_quote!({ #(#before)* #e }))
    }

    fn fresh(&mut self) -> Ident {
        self.n += 1;
        quote::format_ident!("__rv{}", self.n)
    }

    fn try_then(&mut self, v: &Ident, inner: &Expr, cont: Expr) -> Option<Expr> {
        let (ok, err) = if self.option {
            (quote!(Some(#v)), quote!(None => None))
        } else {
            (quote!(Ok(#v)), quote!(Err(__re) => Err(vx_err(__re))))
        };
        Some(parse_quote!(match #inner { #ok => #cont, #err }))
    }

    fn local(&mut self, l: &Local, rest: &[Stmt]) -> Option<Expr> {
        let pat = &l.pat;
        let init = l.init.as_ref()?;
        if let Some((_, els)) = &init.diverge {
            if has_e(&init.expr) {
                return None;
            }
            let p = match pat {
                Pat::Type(t) => (*t.pat).clone(),
                p => p.clone(),
            };
            let b = match &**els {
                Expr::Block(b) => self.seq(&b.block.stmts, &[])?,
                _ => return None,
            };
            let e = &init.expr;
            let cont = self.go(rest)?;
            return Some(parse_quote!(match #e { #p => #cont, _ => #b }));
        }
        match &*init.expr {
            Expr::Try(t) if !has_e(&t.expr) => {
                let cont = self.go(rest)?;
                let v = self.fresh();
                let cont: Expr = parse_quote!({ let #pat = #v; #cont });
                self.try_then(&v, &t.expr, cont)
            }
            Expr::Match(m) if !has_e(&m.expr) => {
                let live = m.arms.iter().filter(|a| !div_e(&a.body)).count();
                if live > 1 {
                    return None;
                }
                let mut arms = vec![];
                for a in &m.arms {
                    if a.guard.as_ref().map_or(false, |g| has_e(&g.1)) {
                        return None;
                    }
                    let (p, g) = (&a.pat, a.guard.as_ref().map(|(i, e)| quote!(#i #e)));
                    let body = if div_e(&a.body) {
                        self.tail(&a.body)?
                    } else {
                        let mut b = Bound::default();
                        b.visit_pat(&a.pat);
                        let mut own = Bound::default();
                        own.visit_pat(pat);
                        let names: BTreeSet<String> = b.names.difference(&own.names).cloned().collect();
                        if clash(&names, rest) {
                            return None;
                        }
                        let v = &a.body;
                        let s: Stmt = parse_quote!(let #pat = #v;);
                        let mut all = vec![s];
                        all.extend(rest.iter().cloned());
                        self.go(&all)?
                    };
                    arms.push(quote!(#p #g => #body));
                }
                let e = &m.expr;
                Some(parse_quote!(match #e { #(#arms),* }))
            }
            Expr::If(i) if !has_e(&i.cond) => {
                let c = &i.cond;
                let els = &i.else_branch.as_ref()?.1;
                let part = |me: &mut Self, e: &Expr| -> Option<Expr> {
                    if div_e(e) {
                        return me.tail(e);
                    }
                    let s: Stmt = parse_quote!(let #pat = #e;);
                    let mut all = vec![s];
                    all.extend(rest.iter().cloned());
                    me.go(&all)
                };
                let tb = &i.then_branch;
                let te: Expr = parse_quote!(#tb);
                let mut b = Bound::default();
                if let Expr::Let(l) = &*i.cond {
                    b.visit_pat(&l.pat);
                }
                if !div_e(&te) && clash(&b.names, rest) {
                    return None;
                }
                let t = part(self, &te)?;
                let f = part(self, els)?;
                Some(parse_quote!(if #c { #t } else { #f }))
            }
            e => {
                // the part evaluated first
                let v = self.fresh();
                let (inner, outer) = first_try(e, &v)?;
                let s: Stmt = parse_quote!(let #pat = #outer;);
                let mut all = vec![s];
                all.extend(rest.iter().cloned());
                let cont = self.go(&all)?;
                self.try_then(&v, &inner, cont)
            }
        }
    }

    fn stmt(&mut self, e: &Expr, rest: &[Stmt]) -> Option<Expr> {
        match e {
            Expr::Return(r) => match &r.expr {
                Some(x) => self.tail(x),
                None => Some(parse_quote!(())),
            },
            Expr::If(i) if !has_e(&i.cond) => {
                let mut b = Bound::default();
                if let Expr::Let(l) = &*i.cond {
                    b.visit_pat(&l.pat);
                }
                if !diverges(&i.then_branch.stmts) && clash(&b.names, rest) {
                    return None;
                }
                let c = &i.cond;
                let t = self.seq(&i.then_branch.stmts, rest)?;
                let f = match &i.else_branch {
                    None => self.go(rest)?,
                    Some((_, e)) => match &**e {
                        Expr::Block(b) => self.seq(&b.block.stmts, rest)?,
                        e => self.stmt(e, rest)?,
                    },
                };
                Some(parse_quote!(if #c { #t } else { #f }))
            }
            Expr::Match(m) if !has_e(&m.expr) => {
                let mut arms = vec![];
                for a in &m.arms {
                    if a.guard.as_ref().map_or(false, |g| has_e(&g.1)) {
                        return None;
                    }
                    let (p, g) = (&a.pat, a.guard.as_ref().map(|(i, e)| quote!(#i #e)));
                    let mut b = Bound::default();
                    b.visit_pat(&a.pat);
                    let body: Expr = if div_e(&a.body) {
                        self.tail(&a.body)?
                    } else {
                        if clash(&b.names, rest) {
                            return None;
                        }
                        match &*a.body {
                            Expr::Block(b) => self.seq(&b.block.stmts, rest)?,
                            e => self.seq(&[Stmt::Expr(e.clone(), Some(Default::default()))], rest)?,
                        }
                    };
                    arms.push(quote!(#p #g => #body));
                }
                let x = &m.expr;
                Some(parse_quote!(match #x { #(#arms),* }))
            }
            Expr::Block(b) => self.seq(&b.block.stmts, rest),
            Expr::Try(t) if !has_e(&t.expr) => {
                let cont = self.go(rest)?;
                let v = self.fresh();
                self.try_then(&v, &t.expr, cont)
            }
            e => {
                let v = self.fresh();
                let (inner, outer) = first_try(e, &v)?;
                let s = Stmt::Expr(outer, Some(Default::default()));
                let mut all = vec![s];
                all.extend(rest.iter().cloned());
                let cont = self.go(&all)?;
                self.try_then(&v, &inner, cont)
            }
        }
    }

    /// the value of the function
    fn tail(&mut self, e: &Expr) -> Option<Expr> {
        if !has_e(e) {
            return Some(e.clone());
        }
        match e {
            Expr::Return(r) => self.tail(r.expr.as_ref()?),
            Expr::Block(b) => self.seq(&b.block.stmts, &[]),
            Expr::Paren(p) => self.tail(&p.expr),
            Expr::If(i) if !has_e(&i.cond) => {
                let c = &i.cond;
                let t = self.seq(&i.then_branch.stmts, &[])?;
                let f = self.tail(&i.else_branch.as_ref()?.1)?;
                Some(parse_quote!(if #c { #t } else { #f }))
            }
            Expr::Match(m) if !has_e(&m.expr) => {
                let mut arms = vec![];
                for a in &m.arms {
                    if a.guard.as_ref().map_or(false, |g| has_e(&g.1)) {
                        return None;
                    }
                    let (p, g) = (&a.pat, a.guard.as_ref().map(|(i, e)| quote!(#i #e)));
                    let body = self.tail(&a.body)?;
                    arms.push(quote!(#p #g => #body));
                }
                let x = &m.expr;
                Some(parse_quote!(match #x { #(#arms),* }))
            }
            e => {
                let v = self.fresh();
                let (inner, outer) = first_try(e, &v)?;
                let cont = self.tail(&outer)?;
                self.try_then(&v, &inner, cont)
            }
        }
    }
}

/// `e` with its first `?` taken out, when nothing with an effect is evaluated before it
fn first_try(e: &Expr, v: &Ident) -> Option<(Expr, Expr)> {
    fn pure(e: &Expr) -> bool {
        match e {
            Expr::Path(_) | Expr::Lit(_) => true,
            Expr::Reference(r) => pure(&r.expr),
            Expr::Field(f) => pure(&f.base),
            Expr::Paren(p) => pure(&p.expr),
            Expr::Unary(u) => pure(&u.expr),
            Expr::MethodCall(m) => {
                let k = ["clone", "to_vec", "to_owned", "to_string", "len", "is_empty", "as_ref", "as_str", "as_bytes"];
                m.args.is_empty() && pure(&m.receiver) && k.contains(&m.method.to_string().as_str())
            }
            _ => false,
        }
    }
    fn list(v: &Ident, xs: &mut syn::punctuated::Punctuated<Expr, Token![,]>) -> Option<Expr> {
        for x in xs.iter_mut() {
            if has_e(x) {
                return go(v, x);
            }
            if !pure(x) {
                return None;
            }
        }
        None
    }
    fn go(v: &Ident, e: &mut Expr) -> Option<Expr> {
        match e {
            Expr::Try(t) if !has_e(&t.expr) => {
                let inner = (*t.expr).clone();
                *e = parse_quote!(#v);
                Some(inner)
            }
            Expr::Try(t) => go(v, &mut t.expr),
            Expr::MethodCall(m) => {
                if has_e(&m.receiver) {
                    go(v, &mut m.receiver)
                } else if pure(&m.receiver) {
                    list(v, &mut m.args)
                } else {
                    None
                }
            }
            Expr::Call(c) if pure(&c.func) => list(v, &mut c.args),
            Expr::Reference(r) => go(v, &mut r.expr),
            Expr::Paren(r) => go(v, &mut r.expr),
            Expr::Unary(r) => go(v, &mut r.expr),
            Expr::Cast(r) => go(v, &mut r.expr),
            Expr::Field(r) => go(v, &mut r.base),
            Expr::Tuple(t) => list(v, &mut t.elems),
            Expr::Assign(a) if pure(&a.left) => go(v, &mut a.right),
            Expr::Binary(b) => {
                if has_e(&b.left) {
                    go(v, &mut b.left)
                } else if pure(&b.left) && !matches!(b.op, BinOp::And(_) | BinOp::Or(_)) {
                    go(v, &mut b.right)
                } else {
                    None
                }
            }
            Expr::Struct(s) => {
                for f in s.fields.iter_mut() {
                    if has_e(&f.expr) {
                        return go(v, &mut f.expr);
                    }
                    if !pure(&f.expr) {
                        return None;
                    }
                }
                None
            }
            Expr::If(i) if has_e(&i.cond) => go(v, &mut i.cond),
            Expr::Match(m) if has_e(&m.expr) => go(v, &mut m.expr),
            _ => None,
        }
    }
    let mut o = e.clone();
    let inner = go(v, &mut o)?;
    Some((inner, o))
}
