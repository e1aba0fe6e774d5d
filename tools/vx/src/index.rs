use std::collections::BTreeMap;
use syn::*;

#[derive(Clone)]
pub struct Func {
    pub sig: Signature,
    pub block: Block,
    pub self_ty: Option<Type>,
    pub impl_generics: Generics,
    pub line: usize,
}
#[derive(Default)]
pub struct Index {
    items: BTreeMap<String, Item>,
    funcs: BTreeMap<String, Func>,
}
fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        let p = a.path();
        p.is_ident("test") || (p.is_ident("cfg") && { let m = &a.meta; quote::quote!(#m).to_string().contains("test") })
    })
}
fn ty_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        t => quote::quote!(#t).to_string(),
    }
}
impl Index {
    pub fn new(src: &str) -> std::result::Result<Self, String> {
        let f = parse_file(src).map_err(|e| e.to_string())?;
        let mut s = Self::default();
        s.add(f.items);
        Ok(s)
    }
    fn add(&mut self, items: Vec<Item>) {
        for i in items {
            match i {
                Item::Fn(f) => {
                    if is_test(&f.attrs) {
                        continue;
                    }
                    let line = f.sig.ident.span().start().line;
                    self.funcs.insert(
                        f.sig.ident.to_string(),
                        Func { sig: f.sig, block: *f.block, self_ty: None, impl_generics: Default::default(), line },
                    );
                }
                Item::Impl(im) => {
                    if is_test(&im.attrs) {
                        continue;
                    }
                    let tn = ty_name(&im.self_ty);
                    let tr = im.trait_.as_ref().map(|t| {
                        let p = &t.0;
                        let l = p.segments.last().unwrap();
                        quote::quote!(#l).to_string().replace(' ', "")
                    });
                    for it in im.items {
                        match it {
                        ImplItem::Fn(f) => {
                            let name = match &tr {
                                None => format!("{tn}::{}", f.sig.ident),
                                Some(t) => format!("{t}.{tn}::{}", f.sig.ident),
                            };
                            let line = f.sig.ident.span().start().line;
                            self.funcs.insert(
                                name,
                                Func {
                                    sig: f.sig,
                                    block: f.block,
                                    self_ty: Some((*im.self_ty).clone()),
                                    impl_generics: im.generics.clone(),
                                    line,
                                },
                            );
                        }
                        ImplItem::Const(c) => {
                            let (id, ty, ex) = (&c.ident, &c.ty, &c.expr);
                            self.items.insert(format!("{tn}::{id}"), parse_quote!(const #id: #ty = #ex;));
                        }
                        _ => {}
                        }
                    }
                }
                Item::Struct(x) => {
                    self.items.insert(x.ident.to_string(), Item::Struct(x));
                }
                Item::Enum(x) => {
                    self.items.insert(x.ident.to_string(), Item::Enum(x));
                }
                Item::Const(x) => {
                    self.items.insert(x.ident.to_string(), Item::Const(x));
                }
                Item::Mod(m) => {
                    if is_test(&m.attrs) {
                        continue;
                    }
                    let _ = m;
                }
                _ => {}
            }
        }
    }
    pub fn item(&self, n: &str) -> Option<&Item> {
        self.items.get(n)
    }
    pub fn func(&self, n: &str) -> Option<&Func> {
        self.funcs.get(n)
    }
    pub fn all_fns(&self) -> Vec<String> {
        self.funcs.keys().cloned().collect()
    }
}
