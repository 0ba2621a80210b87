//! Reads rustc's macro-expanded source of the crate and prints, as JSON, every
//! type and function in a form the verifier accepts.  See DESIGN.md for the
//! complete list of what is dropped and what is rewritten.
mod printer;
mod scope;
mod xform;

use quote::{quote, ToTokens};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub fn ts<T: ToTokens>(t: &T) -> String {
    printer::print(t.to_token_stream())
}

#[derive(Default)]
pub struct Ctx {
    /// functions that have a contract
    pub contracted: BTreeSet<String>,
    /// every function of the crate: key -> (impl self type, item)
    pub fns: HashMap<String, (Option<String>, ImplItemFn)>,
    /// method name -> keys
    pub by_name: HashMap<String, Vec<String>>,
    pub types: BTreeSet<String>,
    pub scoped_new: Option<(Ident, Ident, Vec<Stmt>)>,
    pub scoped_drop: Option<(Ident, Vec<Stmt>)>,
    pub scoped_problem: Option<String>,
}

fn attr_is(a: &Attribute, n: &str) -> bool {
    a.path().is_ident(n)
}

fn flatten(items: Vec<Item>, out: &mut Vec<Item>) {
    for it in items {
        match it {
            Item::Mod(m) => {
                if let Some((_, its)) = m.content {
                    flatten(its, out)
                }
            }
            other => out.push(other),
        }
    }
}

pub fn type_key(t: &Type) -> String {
    ts(t).split_whitespace().collect::<Vec<_>>().join("").replace("'_", "").replace("<>", "")
}

fn eval(e: &Expr, env: &BTreeMap<String, i128>) -> Option<i128> {
    match e {
        Expr::Lit(l) => match &l.lit {
            Lit::Int(i) => i.base10_parse().ok(),
            _ => None,
        },
        Expr::Unary(u) => match u.op {
            UnOp::Neg(_) => Some(-eval(&u.expr, env)?),
            _ => None,
        },
        Expr::Paren(p) => eval(&p.expr, env),
        Expr::Group(p) => eval(&p.expr, env),
        Expr::Cast(c) => eval(&c.expr, env),
        Expr::Binary(b) => {
            let (l, r) = (eval(&b.left, env)?, eval(&b.right, env)?);
            match b.op {
                BinOp::Add(_) => Some(l + r),
                BinOp::Sub(_) => Some(l - r),
                _ => None,
            }
        }
        Expr::Path(p) => env.get(&p.path.segments.last()?.ident.to_string()).copied(),
        _ => None,
    }
}

fn fn_json(ctx: &Ctx, key: &str, impl_header: &str, self_ty: Option<&str>, f: &ImplItemFn, from_target: Option<&str>) -> Value {
    let mut x = xform::Xform::new(ctx, self_ty.map(|s| s.to_string()));
    let mut f = f.clone();
    x.run(&mut f);
    let mut sig = f.sig.clone();
    sig.constness = None;
    xform::fix_sig(&mut sig, &mut x);
    let generics = &sig.generics;
    let wh = &sig.generics.where_clause;
    let inputs = ts(&sig.inputs);
    let ret = match &sig.output {
        ReturnType::Default => "()".to_string(),
        ReturnType::Type(_, t) => ts(t),
    };
    let mut gen_only = generics.clone();
    gen_only.where_clause = None;
    let args: Vec<String> = sig
        .inputs
        .iter()
        .map(|a| match a {
            FnArg::Receiver(_) => "self".to_string(),
            FnArg::Typed(t) => ts(&t.pat),
        })
        .collect();
    json!({
        "kind": "fn", "key": key, "impl": impl_header, "from_target": from_target, "self_ty": self_ty,
        "name": sig.ident.to_string(), "generics": ts(&gen_only), "inputs": inputs, "args": args,
        "ret": ret, "where": wh.as_ref().map(|w| ts(w)).unwrap_or_default(),
        "body": printer::print_body(&f.block), "problems": x.problems, "loops": x.loop_k,
        "calls": x.calls.iter().collect::<Vec<_>>(), "inlined": x.inlined, "loop_helper": x.loop_helper, "features": x.features.iter().collect::<Vec<_>>(),
    })
}

/// Replaces `Self::Name` by the type the implementation gives for it.
struct Assoc<'a>(&'a BTreeMap<String, Type>);
impl VisitMut for Assoc<'_> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        if let Type::Path(p) = t {
            if p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" {
                if let Some(r) = self.0.get(&p.path.segments[1].ident.to_string()) {
                    *t = r.clone();
                }
            }
        }
    }
}

/// The contract key and the target of an implementation of TryInto, if it has a contract.
fn contracted_try_into(ctx: &Ctx, i: &ItemImpl) -> Option<(String, Type)> {
    let (_, p, _) = i.trait_.as_ref()?;
    let PathArguments::AngleBracketed(ab) = &p.segments.last()?.arguments else { return None };
    let Some(GenericArgument::Type(t)) = ab.args.first() else { return None };
    let key = format!("TryInto<{}> for {}::try_into", type_key(t), type_key(&i.self_ty));
    let mut t = t.clone();
    xform::fix_type(&mut t);
    ctx.contracted.contains(&key).then_some((key, t))
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let src = std::fs::read_to_string(&args[1]).expect("expanded source");
    let contracted: BTreeSet<String> = std::fs::read_to_string(&args[2])
        .expect("contract list")
        .lines()
        .map(|s| s.to_string())
        .collect();
    let mut file = parse_file(&src).expect("parse expanded source");
    scope::run(&mut file.items);
    let mut items = vec![];
    flatten(file.items, &mut items);
    let mut ctx = Ctx { contracted, ..Default::default() };
    let mut out: Vec<Value> = vec![];
    let mut copy: BTreeSet<String> = BTreeSet::new();
    let mut targets: BTreeMap<String, Type> = BTreeMap::new();
    let mut tryfrom: BTreeMap<String, Vec<(i128, String)>> = BTreeMap::new();
    let mut dropped: Vec<String> = vec![];
    for it in &items {
        match it {
            Item::Struct(s) => {
                ctx.types.insert(s.ident.to_string());
            }
            Item::Enum(s) => {
                ctx.types.insert(s.ident.to_string());
            }
            Item::Impl(i) => {
                if let Some((_, p, _)) = &i.trait_ {
                    let tn = p.segments.last().unwrap().ident.to_string();
                    if tn == "Copy" {
                        copy.insert(type_key(&i.self_ty));
                    }
                    if tn == "Deref" {
                        for ii in &i.items {
                            if let ImplItem::Type(t) = ii {
                                targets.insert(type_key(&i.self_ty), t.ty.clone());
                            }
                        }
                    }
                    if tn == "TryFromPrimitive" {
                        let mut vals = BTreeMap::new();
                        let mut arms = vec![];
                        for ii in &i.items {
                            if let ImplItem::Fn(f) = ii {
                                for st in &f.block.stmts {
                                    match st {
                                        Stmt::Item(Item::Const(c)) => {
                                            if let Some(v) = eval(&c.expr, &vals) {
                                                vals.insert(c.ident.to_string(), v);
                                            }
                                        }
                                        Stmt::Expr(Expr::Match(m), _) => {
                                            for a in &m.arms {
                                                if let (Pat::Ident(pi), Expr::Call(c)) = (&a.pat, &*a.body) {
                                                    if let (Some(v), Some(Expr::Path(vp))) = (vals.get(&pi.ident.to_string()), c.args.first()) {
                                                        if ts(&c.func).contains("Ok") {
                                                            arms.push((*v, vp.path.segments.last().unwrap().ident.to_string()));
                                                        }
                                                    }
                                                }
                                            }
                                        }
                                        _ => {}
                                    }
                                }
                            }
                        }
                        tryfrom.insert(type_key(&i.self_ty), arms);
                    }
                }
            }
            _ => {}
        }
    }
    // collect functions
    for it in &items {
        match it {
            Item::Impl(i) => {
                let st = type_key(&i.self_ty);
                if st.starts_with("ScopedStackEntry") {
                    xform::scoped(&mut ctx, i);
                    continue;
                }
                if i.trait_.is_some() {
                    continue;
                }
                for ii in &i.items {
                    if let ImplItem::Fn(f) = ii {
                        let key = format!("{}::{}", st, f.sig.ident);
                        ctx.by_name.entry(f.sig.ident.to_string()).or_default().push(key.clone());
                        ctx.fns.insert(key, (Some(st.clone()), f.clone()));
                    }
                }
            }
            Item::Fn(f) => {
                let key = f.sig.ident.to_string();
                ctx.by_name.entry(key.clone()).or_default().push(key.clone());
                ctx.fns.insert(
                    key,
                    (None, ImplItemFn { attrs: vec![], vis: Visibility::Inherited, defaultness: None, sig: f.sig.clone(), block: (*f.block).clone() }),
                );
            }
            _ => {}
        }
    }
    for it in items {
        match it {
            Item::Struct(mut s) => {
                let name = s.ident.to_string();
                if name == "ScopedStackEntry" {
                    continue;
                }
                s.attrs.clear();
                s.vis = parse_quote!(pub);
                for f in s.fields.iter_mut() {
                    f.attrs.clear();
                    f.vis = parse_quote!(pub);
                    xform::fix_type(&mut f.ty);
                }
                xform::fix_generics(&mut s.generics);
                let is_copy = copy.contains(&name);
                out.push(json!({"kind":"type","name":name,"copy":is_copy,"text":ts(&s)}));
            }
            Item::Enum(mut s) => {
                let name = s.ident.to_string();
                s.attrs.clear();
                s.vis = parse_quote!(pub);
                let mut env = BTreeMap::new();
                let mut cur: i128 = -1;
                let fieldless = s.variants.iter().all(|v| matches!(v.fields, Fields::Unit));
                let mut discs = vec![];
                for v in s.variants.iter_mut() {
                    v.attrs.clear();
                    for f in v.fields.iter_mut() {
                        f.attrs.clear();
                        xform::fix_type(&mut f.ty);
                    }
                    if fieldless {
                        cur = match &v.discriminant {
                            Some((_, e)) => eval(e, &env).unwrap_or(cur + 1),
                            None => cur + 1,
                        };
                        env.insert(v.ident.to_string(), cur);
                        discs.push(json!([v.ident.to_string(), cur as i64]));
                        let lit: Expr = if cur < 0 {
                            let l = proc_macro2::Literal::i128_unsuffixed(-cur);
                            parse_quote!(-#l)
                        } else {
                            let l = proc_macro2::Literal::i128_unsuffixed(cur);
                            parse_quote!(#l)
                        };
                        v.discriminant = Some((Default::default(), lit));
                    }
                }
                let is_copy = copy.contains(&name);
                out.push(json!({"kind":"type","name":name,"copy":is_copy,"text":ts(&s),"discs":discs,"fieldless":fieldless}));
            }
            Item::Const(c) => {
                let mut x = xform::Xform::new(&ctx, None);
                let mut e = (*c.expr).clone();
                x.expr(&mut e);
                let mut ty = (*c.ty).clone();
                xform::fix_type(&mut ty);
                out.push(json!({"kind":"const","name":c.ident.to_string(),"ty":ts(&ty),"expr":ts(&e)}));
            }
            Item::Trait(t) => {
                let mut x = xform::Xform::new(&ctx, None);
                let mut fns = vec![];
                for ti in &t.items {
                    match ti {
                        TraitItem::Fn(f) => {
                            let mut sig = f.sig.clone();
                            xform::fix_sig(&mut sig, &mut x);
                            let ret = match &sig.output {
                                ReturnType::Default => "()".to_string(),
                                ReturnType::Type(_, t) => ts(t),
                            };
                            let mut g = sig.generics.clone();
                            g.where_clause = None;
                            fns.push(json!({"name":sig.ident.to_string(),"generics":ts(&g),"inputs":ts(&sig.inputs),"ret":ret,
                                "where": sig.generics.where_clause.as_ref().map(|w| ts(w)).unwrap_or_default()}));
                        }
                        TraitItem::Const(c) => {
                            let mut ty = c.ty.clone();
                            xform::fix_type(&mut ty);
                            fns.push(json!({"const":c.ident.to_string(),"ty":ts(&ty)}));
                        }
                        _ => {}
                    }
                }
                let mut g = t.generics.clone();
                xform::fix_generics(&mut g);
                out.push(json!({"kind":"trait","name":t.ident.to_string(),"generics":ts(&g),"fns":fns}));
            }
            Item::Fn(f) => {
                let key = f.sig.ident.to_string();
                let item = ctx.fns[&key].1.clone();
                out.push(fn_json(&ctx, &key, "", None, &item, None));
            }
            Item::Impl(i) => {
                let st = type_key(&i.self_ty);
                if st.starts_with("ScopedStackEntry") {
                    continue;
                }
                let mut generics = i.generics.clone();
                xform::fix_generics(&mut generics);
                let wh = generics.where_clause.take();
                let wh = wh.map(|w| ts(&w)).unwrap_or_default();
                let mut sty = (*i.self_ty).clone();
                xform::fix_type(&mut sty);
                let sty_s = ts(&sty);
                let tname = i.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
                match tname.as_deref() {
                    None => {
                        let hdr = format!("impl{} {} {}", ts(&generics), sty_s, wh);
                        for ii in &i.items {
                            if let ImplItem::Fn(f) = ii {
                                let key = format!("{}::{}", st, f.sig.ident);
                                out.push(fn_json(&ctx, &key, &hdr, Some(&sty_s), f, None));
                            }
                        }
                    }
                    Some("From") if !i.attrs.iter().any(|a| attr_is(a, "automatically_derived")) => {
                        let (_, p, _) = i.trait_.as_ref().unwrap();
                        let PathArguments::AngleBracketed(ab) = &p.segments.last().unwrap().arguments else { continue };
                        let Some(GenericArgument::Type(src)) = ab.args.first() else { continue };
                        let key = format!("From<{}> for {}::from", type_key(src), st);
                        let mut src = src.clone();
                        xform::fix_type(&mut src);
                        for ii in &i.items {
                            if let ImplItem::Fn(f) = ii {
                                let hdr = format!("impl{} VInto<{}> for {} {}", ts(&generics), sty_s, ts(&src), wh);
                                out.push(fn_json(&ctx, &key, &hdr, Some(&sty_s), f, Some(&sty_s)));
                            }
                        }
                    }
                    Some(n @ ("ReadExt" | "WriteExt" | "PropertyTrait" | "CustomVersionTrait" | "OrdExt")) => {
                        let (_, p, _) = i.trait_.as_ref().unwrap();
                        let hdr = format!("impl{} {} for {} {}", ts(&generics), ts(&p), sty_s, wh);
                        for ii in &i.items {
                            match ii {
                                ImplItem::Fn(f) => {
                                    let key = format!("{} for {}::{}", n, st, f.sig.ident);
                                    out.push(fn_json(&ctx, &key, &hdr, Some(&sty_s), f, None));
                                }
                                ImplItem::Const(c) => {
                                    let mut x = xform::Xform::new(&ctx, Some(sty_s.clone()));
                                    let mut e = c.expr.clone();
                                    x.expr(&mut e);
                                    let mut ty = c.ty.clone();
                                    xform::fix_type(&mut ty);
                                    out.push(json!({"kind":"implconst","impl":hdr,"trait":n,"self_ty":sty_s,"name":c.ident.to_string(),"ty":ts(&ty),"expr":ts(&e),
                                        "key": format!("{} for {}::{}", n, st, c.ident)}));
                                }
                                _ => {}
                            }
                        }
                    }
                    // text forms that have a contract
                    Some(n @ ("Display" | "FromStr")) if ctx.contracted.iter().any(|k| k.starts_with(&format!("{} for {}::", n, st))) => {
                        let hdr = format!("impl{} {} {}", ts(&generics), sty_s, wh);
                        let err = i.items.iter().find_map(|ii| match ii {
                            ImplItem::Type(t) if t.ident == "Err" => Some(t.ty.clone()),
                            _ => None,
                        });
                        for ii in &i.items {
                            if let ImplItem::Fn(f) = ii {
                                let key = format!("{} for {}::{}", n, st, f.sig.ident);
                                let mut f = f.clone();
                                f.sig.output = match &err {
                                    Some(t) => parse_quote!(-> Result<Self, #t>),
                                    None => parse_quote!(-> Result<(), FmtError>),
                                };
                                f.sig.ident = quote::format_ident!("v_{}", f.sig.ident);
                                out.push(fn_json(&ctx, &key, &hdr, Some(&sty_s), &f, None));
                            }
                        }
                    }
                    // the generated conversions of an enum back into its variants
                    Some("TryInto") if contracted_try_into(&ctx, &i).is_some() => {
                        let (key, target) = contracted_try_into(&ctx, &i).unwrap();
                        let hdr = format!("impl{} {} {}", ts(&generics), sty_s, wh);
                        for ii in &i.items {
                            if let ImplItem::Fn(f) = ii {
                                let mut f = f.clone();
                                f.sig.output = parse_quote!(-> Result<#target, &'static str>);
                                f.sig.ident = quote::format_ident!("v_try_into_{}", ts(&target));
                                out.push(fn_json(&ctx, &key, &hdr, Some(&sty_s), &f, None));
                            }
                        }
                    }
                    // other traits whose functions have a contract: made functions of the type itself
                    Some(n @ ("Default" | "Deref" | "DerefMut" | "IntoIterator" | "Hash")) if ctx.contracted.iter().any(|k| k.starts_with(&format!("{} for {}::", n, st))) => {
                        let (base, by_ref) = match &*i.self_ty {
                            Type::Reference(r) => ((*r.elem).clone(), Some((r.lifetime.clone(), r.mutability))),
                            t => (t.clone(), None),
                        };
                        let mut base = base;
                        xform::fix_type(&mut base);
                        let hdr = format!("impl{} {} {}", ts(&generics), ts(&base), wh);
                        let mut assoc = targets.get(&st).map(|t| BTreeMap::from([("Target".to_string(), t.clone())])).unwrap_or_default();
                        for ii in &i.items {
                            if let ImplItem::Type(t) = ii {
                                assoc.insert(t.ident.to_string(), t.ty.clone());
                            }
                        }
                        for ii in &i.items {
                            if let ImplItem::Fn(f) = ii {
                                let key = format!("{} for {}::{}", n, st, f.sig.ident);
                                let mut f = f.clone();
                                if let ReturnType::Type(_, t) = &mut f.sig.output {
                                    Assoc(&assoc).visit_type_mut(t);
                                }
                                if let (Some((l, m)), Some(FnArg::Receiver(_))) = (&by_ref, f.sig.inputs.first()) {
                                    f.sig.inputs[0] = parse_quote!(&#l #m self);
                                }
                                f.sig.ident = quote::format_ident!("v_t_{}", f.sig.ident);
                                out.push(fn_json(&ctx, &key, &hdr, Some(&ts(&base)), &f, None));
                            }
                        }
                    }
                    Some(other) => {
                        if !i.attrs.iter().any(|a| attr_is(a, "automatically_derived")) {
                            dropped.push(format!("impl {} for {}", other, st));
                        }
                    }
                }
            }
            Item::Use(_) | Item::ExternCrate(_) | Item::Macro(_) => {}
            other => dropped.push(ts(&quote!(#other)).chars().take(60).collect()),
        }
    }
    for (t, arms) in tryfrom {
        out.push(json!({"kind":"tryfrom","name":t,"arms":arms.iter().map(|(v,n)| json!([*v as i64,n])).collect::<Vec<_>>()}));
    }
    println!("{}", serde_json::to_string(&json!({"items":out,"dropped":dropped,"scoped_problem":ctx.scoped_problem})).unwrap());
}
