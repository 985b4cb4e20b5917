//! Reads the repository's sources and indexes functions, types and constants.
use std::collections::BTreeMap;
use std::path::Path;
use syn::*;

#[derive(Clone)]
pub struct FnDef {
    pub key: String,
    pub name: String,
    pub file: String,
    pub line: usize,
    pub sig: Signature,
    pub block: Block,
    pub self_ty: Option<Type>,
    pub impl_generics: Option<Generics>,
    pub owner: Option<String>,
    pub trait_: Option<String>,
    pub is_default: bool,
}

#[derive(Default)]
pub struct Repo {
    pub fns: Vec<FnDef>,
    pub types: BTreeMap<String, Item>,
    pub consts: BTreeMap<String, (String, ItemConst)>,
    pub aliases: BTreeMap<String, ItemType>,
    pub errors: Vec<String>,
    /// (trait, type) of every impl of a trait without generic parameters
    pub impls: Vec<(String, Type)>,
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        let t = quote::quote!(#a).to_string();
        t.contains("cfg (test)") || t.starts_with("# [test") || t.contains("cfg(test)")
    })
}

pub fn ty_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        Type::Reference(r) => ty_name(&r.elem),
        Type::Paren(p) => ty_name(&p.elem),
        _ => String::new(),
    }
}

/// Full text of a type without spaces, used to tell `Topic<T>` impls apart.
pub fn ty_text(t: &Type) -> String {
    quote::quote!(#t).to_string().replace(' ', "")
}

impl Repo {
    pub fn load(root: &str, files: &[String]) -> Repo {
        let mut r = Repo::default();
        for f in files {
            let p = Path::new(root).join(f);
            match std::fs::read_to_string(&p) {
                Ok(s) => match syn::parse_file(&s) {
                    Ok(ast) => r.items(f, &ast.items),
                    Err(e) => r.errors.push(format!("{}: {}", f, e)),
                },
                Err(e) => r.errors.push(format!("{}: {}", f, e)),
            }
        }
        r.defaults();
        r
    }

    /// the default methods of the repository's traits, for every type that does not override them
    fn defaults(&mut self) {
        for (tr, ty) in self.impls.clone() {
            let owner = ty_name(&ty);
            let defs: Vec<FnDef> = self.fns.iter().filter(|f| f.is_default && f.owner.as_deref() == Some(&tr)).cloned().collect();
            for mut f in defs {
                let key = format!("<{} as {}>::{}", owner, tr, f.name);
                if self.fns.iter().any(|g| g.key == key) {
                    continue;
                }
                f.key = key;
                f.owner = Some(owner.clone());
                f.trait_ = Some(tr.clone());
                f.self_ty = Some(ty.clone());
                f.is_default = false;
                self.fns.push(f);
            }
        }
    }

    fn items(&mut self, file: &str, items: &[Item]) {
        for it in items {
            match it {
                Item::Fn(f) if !is_test(&f.attrs) => {
                    self.add_fn(file, None, None, None, None, &f.sig, &f.block);
                }
                Item::Mod(m) if !is_test(&m.attrs) => {
                    if let Some((_, items)) = &m.content {
                        self.items(file, items);
                    }
                }
                Item::Enum(e) if !is_test(&e.attrs) => {
                    self.types.entry(e.ident.to_string()).or_insert_with(|| it.clone());
                }
                Item::Struct(e) if !is_test(&e.attrs) => {
                    self.types.entry(e.ident.to_string()).or_insert_with(|| it.clone());
                }
                Item::Const(c) if !is_test(&c.attrs) => {
                    self.consts.insert(c.ident.to_string(), (file.to_string(), c.clone()));
                }
                Item::Type(t) if !is_test(&t.attrs) => {
                    self.aliases.insert(t.ident.to_string(), t.clone());
                }
                Item::Impl(i) if !is_test(&i.attrs) => {
                    let owner = ty_name(&i.self_ty);
                    let tr = i.trait_.as_ref().map(|(_, p, _)| {
                        let p = p.segments.last().unwrap();
                        quote::quote!(#p).to_string().replace(' ', "")
                    });
                    if let (Some(t), true) = (&tr, i.generics.params.is_empty()) {
                        self.impls.push((t.clone(), (*i.self_ty).clone()));
                    }
                    for x in &i.items {
                        match x {
                            ImplItem::Fn(f) if !is_test(&f.attrs) => {
                                self.add_fn(
                                    file,
                                    Some(owner.clone()),
                                    tr.clone(),
                                    Some((*i.self_ty).clone()),
                                    Some(i.generics.clone()),
                                    &f.sig,
                                    &f.block,
                                );
                            }
                            ImplItem::Const(c) => {
                                let ic = ItemConst {
                                    attrs: vec![],
                                    vis: Visibility::Inherited,
                                    const_token: c.const_token,
                                    ident: c.ident.clone(),
                                    generics: Default::default(),
                                    colon_token: c.colon_token,
                                    ty: Box::new(c.ty.clone()),
                                    eq_token: c.eq_token,
                                    expr: Box::new(c.expr.clone()),
                                    semi_token: c.semi_token,
                                };
                                self.consts.insert(format!("{}::{}", owner, c.ident), (file.to_string(), ic));
                            }
                            _ => {}
                        }
                    }
                }
                Item::Trait(t) if !is_test(&t.attrs) => {
                    for x in &t.items {
                        if let TraitItem::Fn(f) = x {
                            if let Some(b) = &f.default {
                                self.add_fn(file, Some(t.ident.to_string()), None, None, None, &f.sig, b);
                                self.fns.last_mut().unwrap().is_default = true;
                            }
                        }
                    }
                }
                _ => {}
            }
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn add_fn(
        &mut self,
        file: &str,
        owner: Option<String>,
        tr: Option<String>,
        self_ty: Option<Type>,
        impl_generics: Option<Generics>,
        sig: &Signature,
        block: &Block,
    ) {
        let name = sig.ident.to_string();
        let key = match (&owner, &tr) {
            (Some(o), Some(t)) => {
                let o = match &self_ty {
                    Some(ty) => match ty_text(ty) {
                        s if s.contains('<') && !s.contains("'_") => s,
                        _ => o.clone(),
                    },
                    None => o.clone(),
                };
                format!("<{} as {}>::{}", o, t, name)
            }
            (Some(o), None) => format!("{}::{}", o, name),
            _ => name.clone(),
        };
        // lift functions nested in the body
        let mut block = block.clone();
        let mut nested = vec![];
        let mut types = vec![];
        lift(&mut block, &mut nested, &mut types);
        self.items(file, &types);
        for f in nested {
            self.add_fn(file, owner.clone().filter(|_| false), None, None, None, &f.sig, &f.block);
        }
        self.fns.push(FnDef {
            key,
            name,
            file: file.to_string(),
            line: sig.ident.span().start().line,
            sig: sig.clone(),
            block,
            self_ty,
            impl_generics,
            owner,
            trait_: tr,
            is_default: false,
        });
    }

    pub fn find(&self, key: &str) -> Vec<&FnDef> {
        let r: Vec<&FnDef> = self.fns.iter().filter(|f| f.key == key).collect();
        match key.split_once("::") {
            Some((o, n)) if r.is_empty() => {
                self.fns.iter().filter(|f| f.trait_.is_some() && f.owner.as_deref() == Some(o) && f.name == n).collect()
            }
            _ => r,
        }
    }
}

fn lift(b: &mut Block, out: &mut Vec<ItemFn>, types: &mut Vec<Item>) {
    b.stmts.retain(|s| match s {
        Stmt::Item(Item::Fn(f)) => {
            out.push(f.clone());
            false
        }
        Stmt::Item(Item::Use(_)) => false,
        Stmt::Item(t @ Item::Struct(_)) | Stmt::Item(t @ Item::Enum(_)) => {
            types.push(t.clone());
            false
        }
        _ => true,
    });
}
