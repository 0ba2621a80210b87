//! The crate's modules are verified as one flat list of items. Before they are flattened, names that
//! mean different things in different modules are told apart, functions declared inside a function are
//! moved out of it, and constants that are string literals are replaced by the literal.

use crate::xform::ConstUse;
use proc_macro2::{Ident, Span};
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

fn names(items: &[Item], path: &str, out: &mut BTreeMap<String, BTreeSet<String>>) {
    for it in items {
        match it {
            Item::Fn(f) => {
                out.entry(f.sig.ident.to_string()).or_default().insert(path.to_string());
            }
            Item::Const(c) if c.ident != "_" => {
                out.entry(c.ident.to_string()).or_default().insert(path.to_string());
            }
            Item::Mod(m) => {
                if let Some((_, its)) = &m.content {
                    names(its, &format!("{}__{}", path, m.ident), out)
                }
            }
            _ => {}
        }
    }
}

fn strings(items: &[Item], out: &mut BTreeMap<String, Expr>) {
    for it in items {
        match it {
            Item::Const(c) => {
                if let (Expr::Lit(ExprLit { lit: Lit::Str(_), .. }), Type::Reference(_)) = (&*c.expr, &*c.ty) {
                    out.insert(c.ident.to_string(), (*c.expr).clone());
                }
            }
            Item::Mod(m) => {
                if let Some((_, its)) = &m.content {
                    strings(its, out)
                }
            }
            _ => {}
        }
    }
}

/// Moves functions out of the bodies they are declared in.
struct Hoist<'a> {
    taken: &'a mut BTreeMap<String, BTreeSet<String>>,
    out: Vec<Item>,
}
impl VisitMut for Hoist<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let mut i = 0;
        while i < b.stmts.len() {
            let Stmt::Item(Item::Fn(f)) = &b.stmts[i] else {
                i += 1;
                continue;
            };
            let mut f = f.clone();
            b.stmts.remove(i);
            let old = f.sig.ident.to_string();
            let mut new = old.clone();
            while self.taken.contains_key(&new) {
                new.push_str("__inner");
            }
            self.taken.entry(new.clone()).or_default().insert("inner".into());
            let map = BTreeMap::from([(old, new.clone())]);
            let mut r = Uses { own: &map, dup: &BTreeSet::new(), mods: &BTreeMap::new() };
            r.visit_block_mut(b);
            r.visit_block_mut(&mut f.block);
            f.sig.ident = Ident::new(&new, Span::call_site());
            self.out.push(Item::Fn(f));
        }
    }
}

/// Renames the uses of functions and constants.
struct Uses<'a> {
    /// what a name without a path stands for here
    own: &'a BTreeMap<String, String>,
    /// names that several modules declare
    dup: &'a BTreeSet<String>,
    /// (module, name) -> new name
    mods: &'a BTreeMap<(String, String), String>,
}
impl Uses<'_> {
    fn path(&self, p: &mut Path) {
        let n = p.segments.len();
        let last = p.segments[n - 1].ident.to_string();
        if n == 1 {
            if let Some(r) = self.own.get(&last) {
                p.segments[0].ident = Ident::new(r, Span::call_site());
            }
            return;
        }
        let m = p.segments[n - 2].ident.to_string();
        if self.dup.contains(&last) && (m == "self" || m == "super" || m == "crate" || m.starts_with(char::is_lowercase)) {
            let r = match m.as_str() {
                "self" => self.own.get(&last).cloned(),
                "super" => None,
                _ => self.mods.get(&(m, last.clone())).cloned(),
            }
            .unwrap_or(format!("{}__unclear", last));
            p.segments[n - 1].ident = Ident::new(&r, Span::call_site());
        }
    }
}
impl VisitMut for Uses<'_> {
    fn visit_expr_path_mut(&mut self, e: &mut ExprPath) {
        if e.qself.is_none() {
            self.path(&mut e.path);
        }
        visit_mut::visit_expr_path_mut(self, e)
    }
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        // a constant in a pattern
        let n = p.ident.to_string();
        if n.chars().all(|c| !c.is_lowercase()) {
            if let Some(r) = self.own.get(&n) {
                p.ident = Ident::new(r, Span::call_site());
            }
        }
        visit_mut::visit_pat_ident_mut(self, p)
    }
}

fn imports(t: &UseTree, prev: &str, f: &mut dyn FnMut(&str, &str, &str)) {
    match t {
        UseTree::Path(p) => imports(&p.tree, &p.ident.to_string(), f),
        UseTree::Name(n) => f(prev, &n.ident.to_string(), &n.ident.to_string()),
        UseTree::Rename(n) => f(prev, &n.ident.to_string(), &n.rename.to_string()),
        UseTree::Group(g) => g.items.iter().for_each(|t| imports(t, prev, f)),
        UseTree::Glob(_) => {}
    }
}

fn rename(items: &mut [Item], path: &str, dup: &BTreeSet<String>, mods: &BTreeMap<(String, String), String>) {
    let mut own = BTreeMap::new();
    let modname = path.rsplit("__").next().unwrap_or("").to_string();
    for it in items.iter_mut() {
        let id = match it {
            Item::Fn(f) => &mut f.sig.ident,
            Item::Const(c) => &mut c.ident,
            _ => continue,
        };
        if dup.contains(&id.to_string()) {
            let new = mods[&(modname.clone(), id.to_string())].clone();
            own.insert(id.to_string(), new.clone());
            *id = Ident::new(&new, Span::call_site());
        }
    }
    for it in items.iter() {
        if let Item::Use(u) = it {
            imports(&u.tree, "", &mut |m, n, r| {
                if dup.contains(n) && !own.contains_key(r) {
                    own.insert(r.to_string(), mods.get(&(m.to_string(), n.to_string())).cloned().unwrap_or(format!("{}__unclear", n)));
                }
            });
        }
    }
    for it in items.iter_mut() {
        match it {
            Item::Mod(m) => {
                let p = format!("{}__{}", path, m.ident);
                if let Some((_, its)) = &mut m.content {
                    rename(its, &p, dup, mods)
                }
            }
            Item::Use(_) => {}
            other => Uses { own: &own, dup, mods }.visit_item_mut(other),
        }
    }
}

fn hoist(items: &mut Vec<Item>, taken: &mut BTreeMap<String, BTreeSet<String>>) {
    let mut new = vec![];
    for it in items.iter_mut() {
        if let Item::Mod(m) = it {
            if let Some((_, its)) = &mut m.content {
                hoist(its, taken)
            }
            continue;
        }
        let mut h = Hoist { taken, out: vec![] };
        h.visit_item_mut(it);
        new.extend(h.out);
    }
    items.extend(new);
}

struct Strings<'a>(&'a BTreeMap<String, Expr>);
impl Strings<'_> {
    fn items(&self, items: &mut [Item]) {
        for it in items {
            match it {
                Item::Mod(m) => {
                    if let Some((_, its)) = &mut m.content {
                        self.items(its)
                    }
                }
                Item::Const(_) | Item::Use(_) => {}
                other => {
                    let t = other.to_token_stream().to_string();
                    for (n, e) in self.0 {
                        if t.contains(n.as_str()) {
                            ConstUse(n, e, true).visit_item_mut(other);
                        }
                    }
                }
            }
        }
    }
}

fn drop_strings(items: &mut Vec<Item>) {
    items.retain(|it| !matches!(it, Item::Const(c) if matches!((&*c.expr, &*c.ty), (Expr::Lit(ExprLit { lit: Lit::Str(_), .. }), Type::Reference(_)))));
    for it in items {
        if let Item::Mod(ItemMod { content: Some((_, its)), .. }) = it {
            drop_strings(its)
        }
    }
}

pub fn run(items: &mut Vec<Item>) {
    let mut all = BTreeMap::new();
    names(items, "crate", &mut all);
    hoist(items, &mut all);
    let mut all = BTreeMap::new();
    names(items, "crate", &mut all);
    let dup: BTreeSet<String> = all.iter().filter(|(_, m)| m.len() > 1).map(|(n, _)| n.clone()).collect();
    if !dup.is_empty() {
        let mut mods: BTreeMap<(String, String), String> = BTreeMap::new();
        for n in &dup {
            for m in &all[n] {
                let last = m.rsplit("__").next().unwrap_or("").to_string();
                let new = match mods.contains_key(&(last.clone(), n.clone())) {
                    // two modules of the same name: not told apart
                    true => format!("{}__unclear", n),
                    false => format!("{}__in_{}", n, last),
                };
                mods.insert((last, n.clone()), new);
            }
        }
        rename(items, "crate", &dup, &mods);
    }
    let mut strs = BTreeMap::new();
    strings(items, &mut strs);
    Strings(&strs).items(items);
    drop_strings(items);
}
