//! Source-to-source rewriting of function bodies.  Every rewriting keeps the
//! meaning of the statement it replaces; the list is in DESIGN.md.
use crate::{ts, Ctx};
use proc_macro2::{Ident, Span, TokenStream};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

const PRIMS: &[&str] = &[
    "u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "f32", "f64", "bool", "char", "str",
];
const DROP_BOUNDS: &[&str] = &["Debug", "Hash", "Eq", "PartialEq", "Clone", "Ord", "PartialOrd", "Display", "Sized"];

pub fn is_prim(s: &str) -> bool {
    PRIMS.contains(&s)
}

/// `T::from(x)` between primitive types keeps the value.
fn widened(t: &str, x: &Expr) -> Expr {
    if t.starts_with(['u', 'i']) {
        let t = format_ident!("{}", t);
        parse_quote!((#x as #t))
    } else {
        x.clone()
    }
}

fn is_upper(s: &str) -> bool {
    s.chars().next().map(|c| c.is_ascii_uppercase()).unwrap_or(false)
}

pub fn flatten_path(p: &mut Path) {
    p.leading_colon = None;
    let n = p.segments.len();
    let names: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
    let mut i = 0;
    while i + 1 < n {
        let s = &names[i];
        if is_upper(s) || is_prim(s) {
            break;
        }
        i += 1;
    }
    if i > 0 {
        let io = i > 0 && names[i - 1] == "io" && names[i] == "Error";
        let segs: Vec<PathSegment> = p.segments.iter().skip(i).cloned().collect();
        p.segments = segs.into_iter().collect();
        if io {
            p.segments[0].ident = format_ident!("IoError");
        }
    }
    let l = p.segments.last_mut().unwrap();
    if l.ident == "from_elem" {
        l.ident = format_ident!("v_from_elem");
    }
}

struct TypeFix;
impl VisitMut for TypeFix {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        let map_iter = p.segments.iter().any(|s| s.ident == "map");
        flatten_path(p);
        let l = p.segments.last_mut().unwrap();
        if map_iter && l.ident == "Iter" {
            l.ident = format_ident!("MapRefIter");
        }
        match l.ident.to_string().as_str() {
            "AsRef" => {
                l.ident = format_ident!("VAsStr");
                l.arguments = PathArguments::None
            }
            "Into" => l.ident = format_ident!("VInto"),
            "TryFrom" => {
                l.ident = format_ident!("VEnum");
                l.arguments = PathArguments::None
            }
            "Box" => {
                if let PathArguments::AngleBracketed(a) = &l.arguments {
                    if a.args.len() == 1 && ts(&a.args[0]) == "str" {
                        l.ident = format_ident!("BoxStr");
                        l.arguments = PathArguments::None
                    }
                }
            }
            _ => {}
        }
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        if let Type::Reference(r) = t {
            if let Some(l) = &r.lifetime {
                if l.ident == "_" {
                    r.lifetime = None;
                }
            }
        }
    }
}
pub fn fix_type(t: &mut Type) {
    TypeFix.visit_type_mut(t)
}
fn fix_bounds(b: &mut punctuated::Punctuated<TypeParamBound, Token![+]>) {
    let keep: Vec<TypeParamBound> = b
        .iter()
        .filter(|x| match x {
            TypeParamBound::Trait(t) => !DROP_BOUNDS.contains(&t.path.segments.last().unwrap().ident.to_string().as_str()),
            _ => true,
        })
        .cloned()
        .collect();
    *b = keep.into_iter().collect();
}
pub fn fix_generics(g: &mut Generics) {
    TypeFix.visit_generics_mut(g);
    for p in g.params.iter_mut() {
        if let GenericParam::Type(t) = p {
            fix_bounds(&mut t.bounds);
            if t.bounds.is_empty() {
                t.colon_token = None;
            }
        }
    }
    if let Some(w) = &mut g.where_clause {
        let mut keep = vec![];
        for p in w.predicates.iter() {
            let mut p = p.clone();
            if let WherePredicate::Type(t) = &mut p {
                fix_bounds(&mut t.bounds);
                if t.bounds.is_empty() {
                    continue;
                }
            }
            keep.push(p);
        }
        if keep.is_empty() {
            g.where_clause = None;
        } else {
            w.predicates = keep.into_iter().collect();
        }
    }
}
pub fn fix_sig(s: &mut Signature, x: &mut Xform) {
    fix_generics(&mut s.generics);
    let mut k = 0usize;
    for a in s.inputs.iter_mut() {
        match a {
            FnArg::Receiver(r) => r.attrs.clear(),
            FnArg::Typed(t) => {
                t.attrs.clear();
                fix_type(&mut t.ty);
                if matches!(&*t.pat, Pat::Wild(_)) {
                    let id = format_ident!("__unused{}", k);
                    t.pat = Box::new(parse_quote!(#id));
                    k += 1;
                } else if !matches!(&*t.pat, Pat::Ident(_)) {
                    x.problems.push("pattern argument".into());
                }
            }
        }
    }
    if let ReturnType::Type(_, t) = &mut s.output {
        fix_type(t);
    }
}

/// Read the statements of ScopedStackEntry::new and of its Drop implementation.
pub fn scoped(ctx: &mut Ctx, i: &ItemImpl) {
    for ii in &i.items {
        let ImplItem::Fn(f) = ii else { continue };
        if i.trait_.is_none() && f.sig.ident == "new" {
            let names: Vec<Ident> = f
                .sig
                .inputs
                .iter()
                .filter_map(|a| match a {
                    FnArg::Typed(t) => match &*t.pat {
                        Pat::Ident(p) => Some(p.ident.clone()),
                        _ => None,
                    },
                    _ => None,
                })
                .collect();
            let mut stmts = f.block.stmts.clone();
            match (names.as_slice(), stmts.pop()) {
                ([s, v], Some(Stmt::Expr(Expr::Struct(_), None))) => ctx.scoped_new = Some((s.clone(), v.clone(), stmts)),
                _ => ctx.scoped_problem = Some("ScopedStackEntry::new has an unexpected shape".into()),
            }
        } else if i.trait_.is_some() && f.sig.ident == "drop" {
            let ok = match f.block.stmts.as_slice() {
                [] => {
                    ctx.scoped_drop = Some((format_ident!("stack"), vec![]));
                    true
                }
                [Stmt::Expr(Expr::If(e), _)] => match &*e.cond {
                    Expr::Let(l) if ts(&l.expr).contains("as_mut") => match &*l.pat {
                        Pat::TupleStruct(p) if p.elems.len() == 1 => match &p.elems[0] {
                            Pat::Ident(pi) => {
                                ctx.scoped_drop = Some((pi.ident.clone(), e.then_branch.stmts.clone()));
                                true
                            }
                            _ => false,
                        },
                        _ => false,
                    },
                    _ => false,
                },
                _ => false,
            };
            if !ok {
                ctx.scoped_problem = Some("ScopedStackEntry::drop has an unexpected shape".into());
            }
        }
    }
    if i.trait_.is_none() && ctx.scoped_new.is_none() {
        ctx.scoped_problem = Some("ScopedStackEntry::new not found".into());
    }
}

/// Replace identifiers in expressions and patterns.
pub struct Rename<'a> {
    pub map: &'a BTreeMap<String, Expr>,
    pub pats: &'a BTreeMap<String, Ident>,
}
impl VisitMut for Rename<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if p.qself.is_none() && p.path.segments.len() == 1 {
                if let Some(r) = self.map.get(&p.path.segments[0].ident.to_string()) {
                    *e = r.clone();
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e)
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_value_mut(self, f)
    }
    fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_pat_mut(self, f)
    }
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        if let Some(n) = self.pats.get(&p.ident.to_string()) {
            p.ident = n.clone();
        }
        visit_mut::visit_pat_ident_mut(self, p)
    }
}

struct Binders(BTreeSet<String>);
impl VisitMut for Binders {
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        let s = p.ident.to_string();
        if !is_upper(&s) {
            self.0.insert(s);
        }
    }
}

/// Uses of a `&mut` parameter become uses of what it was borrowed from.
struct ByRef<'n> {
    name: &'n str,
    id: &'n Ident,
}
impl VisitMut for ByRef<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let is = |x: &Expr| opath(x).map(|p| p.is_ident(self.name)) == Some(true);
        let id = self.id;
        match e {
            Expr::MethodCall(m) if is(&m.receiver) => *m.receiver = parse_quote!(#id),
            Expr::Field(f) if is(&f.base) => *f.base = parse_quote!(#id),
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) && is(&u.expr) => {
                *e = parse_quote!(#id);
                return;
            }
            Expr::Path(p) if p.path.is_ident(self.name) => {
                *e = parse_quote!(&mut #id);
                return;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e)
    }
}

fn opath(e: &Expr) -> Option<&Path> {
    match e {
        Expr::Path(p) => Some(&p.path),
        Expr::Paren(p) => opath(&p.expr),
        Expr::Group(p) => opath(&p.expr),
        _ => None,
    }
}

pub fn path_str(p: &Path) -> String {
    p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::")
}

fn call_path(e: &Expr) -> Option<String> {
    if let Expr::Call(c) = e {
        return opath(&c.func).map(path_str);
    }
    None
}

fn strip(e: Expr) -> Expr {
    match e {
        Expr::Group(g) => strip(*g.expr),
        Expr::Paren(p) => strip(*p.expr),
        o => o,
    }
}

fn is_str_lit(e: &Expr) -> bool {
    match e {
        Expr::Lit(l) => matches!(l.lit, Lit::Str(_)),
        Expr::Paren(p) => is_str_lit(&p.expr),
        Expr::Group(p) => is_str_lit(&p.expr),
        _ => false,
    }
}

pub struct Xform<'a> {
    pub ctx: &'a Ctx,
    pub self_ty: Option<String>,
    pub problems: Vec<String>,
    pub loop_k: usize,
    pub fresh: usize,
    pub calls: BTreeSet<String>,
    pub inlined: Vec<String>,
    pub loop_helper: bool,
    pub features: BTreeSet<String>,
    inline_stack: Vec<String>,
    // scoped stack entries
    guards: Vec<(String, Expr)>,
    loop_marks: Vec<usize>,
    alias: BTreeMap<String, Expr>,
    /// the function an error goes through on its way out of `?`
    convert: Ident,
}

struct Guards<'x, 'a>(&'x mut Xform<'a>);
struct Main<'x, 'a>(&'x mut Xform<'a>);
struct Inline<'x, 'a>(&'x mut Xform<'a>);

impl<'a> Xform<'a> {
    pub fn new(ctx: &'a Ctx, self_ty: Option<String>) -> Self {
        Xform {
            ctx,
            self_ty,
            problems: vec![],
            loop_k: 0,
            fresh: 0,
            calls: Default::default(),
            inlined: vec![],
            loop_helper: false,
            features: Default::default(),
            inline_stack: vec![],
            guards: vec![],
            loop_marks: vec![],
            alias: Default::default(),
            convert: format_ident!("v_into_error"),
        }
    }

    fn fid(&mut self, base: &str) -> Ident {
        self.fresh += 1;
        format_ident!("__{}{}", base, self.fresh)
    }

    pub fn expr(&mut self, e: &mut Expr) {
        Main(self).visit_expr_mut(e);
    }

    pub fn run(&mut self, f: &mut ImplItemFn) {
        if f.sig.unsafety.is_some() || f.sig.asyncness.is_some() {
            self.problems.push("unsafe or async fn".into());
        }
        let ret = ts(&f.sig.output);
        if ret.contains("ParseGuidError") || ret.contains("FmtError") {
            self.convert = format_ident!("v_same_error");
        }
        LocalConst.visit_block_mut(&mut f.block);
        adapters(&mut f.block);
        Counting.visit_block_mut(&mut f.block);
        // tail inlining then general inlining
        self.inline_tail(&mut f.block);
        Inline(self).visit_block_mut(&mut f.block);
        Guards(self).visit_block_mut(&mut f.block);
        Main(self).visit_block_mut(&mut f.block);
    }

    /// Is this a call whose value is known to be a Result?
    fn gives_result(&mut self, e: &Expr) -> bool {
        let e = strip(e.clone());
        if let Expr::MethodCall(m) = &e {
            let n = m.method.to_string();
            if n.starts_with("read") || n.starts_with("write") || ["map_err", "ok_or", "ok_or_else", "stream_position", "seek", "flush", "try_into"].contains(&n.as_str()) {
                return true;
            }
        }
        match self.resolve(&e) {
            Some((k, _)) => ts(&self.ctx.fns[&k].1.sig.output).contains("Result"),
            None => false,
        }
    }

    // ---------------------------------------------------------------- inlining
    fn resolve(&mut self, e: &Expr) -> Option<(String, Vec<Expr>)> {
        match e {
            Expr::Call(c) => {
                let p = opath(&c.func)?.clone();
                let mut p = p;
                flatten_path(&mut p);
                let mut s = path_str(&p);
                if let Some(rest) = s.strip_prefix("Self::") {
                    let st = self.self_ty.clone()?;
                    let st = st.split('<').next().unwrap().trim().to_string();
                    s = format!("{}::{}", st, rest);
                }
                let key = if self.ctx.fns.contains_key(&s) { s } else {
                    // generic impls are keyed with their arguments
                    let (t, m) = s.rsplit_once("::")?;
                    self.ctx.fns.keys().find(|k| k.split('<').next() == Some(t) && k.ends_with(&format!("::{}", m)))?.clone()
                };
                Some((key, c.args.iter().cloned().collect()))
            }
            Expr::MethodCall(m) => {
                let cands = self.ctx.by_name.get(&m.method.to_string())?;
                if cands.len() != 1 {
                    return None;
                }
                let key = cands[0].clone();
                let mut a = vec![(*m.receiver).clone()];
                a.extend(m.args.iter().cloned());
                let f = &self.ctx.fns[&key].1;
                if !matches!(f.sig.inputs.first(), Some(FnArg::Receiver(_))) {
                    return None;
                }
                Some((key, a))
            }
            _ => None,
        }
    }

    fn should_inline(&mut self, e: &Expr) -> Option<(String, Vec<Expr>)> {
        let (key, args) = self.resolve(e)?;
        if self.ctx.contracted.contains(&key) || key.contains("ScopedStackEntry") {
            return None;
        }
        Some((key, args))
    }

    /// The helper's body with arguments bound and locals renamed apart.
    fn paste(&mut self, key: &str, args: &[Expr]) -> Option<(Vec<Stmt>, Block)> {
        if self.inline_stack.iter().any(|k| k == key) || self.inline_stack.len() > 8 {
            self.problems.push(format!("recursive helper {}", key));
            return None;
        }
        let (st, f) = self.ctx.fns[key].clone();
        let mut b = f.block.clone();
        LocalConst.visit_block_mut(&mut b);
        adapters(&mut b);
        loop_exit(&mut b);
        Counting.visit_block_mut(&mut b);
        self.fresh += 1;
        let n = self.fresh;
        let mut binders = Binders(Default::default());
        binders.visit_block_mut(&mut b);
        // the locals of a helper with a loop keep their names, for the invariants speak of them,
        // unless a name passed as an argument would be captured
        let passed: BTreeSet<String> = args.iter().filter_map(|a| opath(&strip(a.clone())).map(path_str)).collect();
        let mut keep: BTreeSet<String> = Default::default();
        if has_loop(&b) {
            self.loop_helper = true;
            keep = binders.0.iter().filter(|x| !x.starts_with('_') && !x.contains("stack") && !passed.contains(*x)).cloned().collect();
        }
        binders.0.retain(|x| !keep.contains(x));
        let mut map: BTreeMap<String, Expr> = Default::default();
        let mut pats: BTreeMap<String, Ident> = Default::default();
        for x in &binders.0 {
            let id = format_ident!("{}__h{}", x, n);
            map.insert(x.clone(), parse_quote!(#id));
            pats.insert(x.clone(), id);
        }
        let gens: Vec<String> = f
            .sig
            .generics
            .params
            .iter()
            .filter_map(|p| if let GenericParam::Type(t) = p { Some(t.ident.to_string()) } else { None })
            .collect();
        let mut lets: Vec<Stmt> = vec![];
        if f.sig.inputs.len() != args.len() {
            return None;
        }
        for (p, a) in f.sig.inputs.iter().zip(args) {
            let mut a2 = strip(a.clone());
            let (name, by_ref_mut, mutbl, ty): (String, Option<bool>, bool, Option<Type>) = match p {
                FnArg::Receiver(r) => ("self".into(), if r.reference.is_some() { Some(r.mutability.is_some()) } else { None }, false, None),
                FnArg::Typed(t) => match &*t.pat {
                    Pat::Ident(pi) => (pi.ident.to_string(), None, pi.mutability.is_some(), Some((*t.ty).clone())),
                    Pat::Wild(_) => ("_".into(), None, false, Some((*t.ty).clone())),
                    _ => return None,
                },
            };
            let is_plain = matches!(&a2, Expr::Path(p) if p.path.segments.len() == 1);
            // a name that the helper also binds itself must not be captured
            if is_plain && !mutbl && !binders.0.contains(&name) && !keep.contains(&name) {
                map.insert(name, a2);
                continue;
            }
            // `&mut x` passed to a helper with a loop: the invariants speak of `x`
            if let (Expr::Reference(r), true) = (&a2, self.loop_helper && !mutbl && name != "_" && has_loop(&b)) {
                if let (true, Some(x)) = (r.mutability.is_some() && !binders.0.contains(&name) && !keep.contains(&name), name_of(&r.expr)) {
                    let id = format_ident!("__by{}_{}", n, x);
                    ByRef { name: &name, id: &id }.visit_block_mut(&mut b);
                    map.insert(id.to_string(), (*r.expr).clone());
                    continue;
                }
            }
            if let Some(m) = by_ref_mut {
                a2 = if m { parse_quote!(&mut #a2) } else { parse_quote!(&#a2) };
            }
            // &String passed as &str
            let text = ty.as_ref().is_some_and(|t| matches!(t, Type::Reference(r) if r.mutability.is_none() && ts(&r.elem) == "str"));
            if let (true, Expr::Reference(r)) = (text, &a2) {
                let x = &r.expr;
                a2 = parse_quote!((#x).v_as_ref());
            }
            let id = format_ident!("{}__h{}", name.trim_start_matches('_'), n);
            let refarg = matches!(&a2, Expr::Reference(_));
            let ty_ok = ty.as_ref().map(|t| {
                let s = ts(t);
                !refarg && !s.contains("impl ") && !s.contains('&') && !gens.iter().any(|g| s.split(|c: char| !c.is_alphanumeric()).any(|w| w == g))
            }) == Some(true);
            let st: Stmt = match (mutbl, ty_ok) {
                (true, true) => parse_quote!(let mut #id: #ty = #a2;),
                (true, false) => parse_quote!(let mut #id = #a2;),
                (false, true) => parse_quote!(let #id: #ty = #a2;),
                (false, false) => parse_quote!(let #id = #a2;),
            };
            lets.push(st);
            if name != "_" {
                map.insert(name, parse_quote!(#id));
            }
        }
        Rename { map: &map, pats: &pats }.visit_block_mut(&mut b);
        if let Some(st) = st {
            if self.self_ty.as_deref() != Some(&st) {
                if let Ok(t) = parse_str::<Type>(&st) {
                    ReplaceSelf(t).visit_block_mut(&mut b);
                }
            }
        }
        if !self.inlined.contains(&key.to_string()) {
            self.inlined.push(key.to_string());
        }
        Some((lets, b))
    }

    fn inline_tail(&mut self, b: &mut Block) {
        let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() else { return };
        self.inline_tail_expr(e);
    }
    fn inline_tail_expr(&mut self, e: &mut Expr) {
        match e {
            Expr::If(i) => {
                self.inline_tail(&mut i.then_branch);
                if let Some((_, el)) = &mut i.else_branch {
                    self.inline_tail_expr(el);
                }
            }
            Expr::Match(m) => {
                for a in m.arms.iter_mut() {
                    self.inline_tail_expr(&mut a.body);
                }
            }
            Expr::Block(bl) => self.inline_tail(&mut bl.block),
            _ => {
                // H(..).map(F) -> Ok(F(H(..)?))
                if let Expr::MethodCall(m) = &*e {
                    if m.method == "map" && m.args.len() == 1 {
                        let (h, f) = ((*m.receiver).clone(), m.args[0].clone());
                        if self.should_inline(&h).is_some_and(|(key, _)| returns_result(&self.ctx.fns[&key].1.sig)) {
                            if let Some((p, b)) = closure1(&f) {
                                *e = parse_quote!({ let #p = #h?; Ok(#b) });
                            } else if let Some(p) = opath(&f) {
                                *e = parse_quote!(Ok(#p(#h?)));
                            }
                            return;
                        }
                    }
                }
                if let Some((key, args)) = self.should_inline(e) {
                    if args.iter().any(has_exit) {
                        return;
                    }
                    let same = returns_result(&self.ctx.fns[&key].1.sig);
                    if same {
                        if let Some((lets, b)) = self.paste(&key, &args) {
                            let stmts = b.stmts;
                            let mut blk: Block = parse_quote!({ #(#lets)* #(#stmts)* });
                            self.inline_stack.push(key.clone());
                            self.inline_tail(&mut blk);
                            Inline(self).visit_block_mut(&mut blk);
                            self.inline_stack.pop();
                            *e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: blk });
                        }
                    }
                }
            }
        }
    }
}

fn returns_result(s: &Signature) -> bool {
    match &s.output {
        ReturnType::Type(_, t) => ts(t).trim_start().starts_with("Result"),
        _ => false,
    }
}

struct ReplaceSelf(Type);
impl VisitMut for ReplaceSelf {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            if p.path.is_ident("Self") {
                *t = self.0.clone();
                return;
            }
        }
        visit_mut::visit_type_mut(self, t)
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        if p.segments.first().map(|s| s.ident == "Self") == Some(true) {
            if let Type::Path(tp) = &self.0 {
                let mut segs: Vec<PathSegment> = tp.path.segments.iter().cloned().collect();
                if let Some(l) = segs.last_mut() {
                    // Vec<T>::f needs the turbofish form in expressions
                    if let PathArguments::AngleBracketed(a) = &mut l.arguments {
                        a.colon2_token = Some(Default::default());
                    }
                }
                segs.extend(p.segments.iter().skip(1).cloned());
                p.segments = segs.into_iter().collect();
            }
        }
    }
}

/// `Vec::new()`, `Vec::new`, `Default::default`, `vec![]` or a closure giving one of them
fn empty_vec(e: &Expr) -> bool {
    let t = ts(e).replace([' ', '|'], "");
    let t = t.rsplit("std::").next().unwrap_or(&t).trim_end_matches("()");
    ["Vec::new", "Vec::default", "vec::Vec::new", "Default::default", "default::Default::default", "vec![]"].contains(&t)
}
struct HasExit(bool);
impl VisitMut for HasExit {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Try(_) | Expr::Return(_) => self.0 = true,
            Expr::Closure(_) => return,
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e)
    }
}
fn has_exit(e: &Expr) -> bool {
    let mut h = HasExit(false);
    h.visit_expr_mut(&mut e.clone());
    h.0
}
struct HasLoop(bool);
impl VisitMut for HasLoop {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if matches!(e, Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_)) {
            self.0 = true;
        }
        visit_mut::visit_expr_mut(self, e)
    }
}
fn has_loop(b: &Block) -> bool {
    let mut h = HasLoop(false);
    h.visit_block_mut(&mut b.clone());
    h.0
}
fn block_has_exit(b: &Block) -> bool {
    let mut h = HasExit(false);
    h.visit_block_mut(&mut b.clone());
    h.0
}

struct HasReturn {
    ok_return: bool,
}
impl VisitMut for HasReturn {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Return(r) = e {
            let err = r.expr.as_ref().map(|x| call_path(x).as_deref() == Some("Err")).unwrap_or(false);
            if !err {
                self.ok_return = true;
            }
        }
        if matches!(e, Expr::Closure(_)) {
            return;
        }
        visit_mut::visit_expr_mut(self, e)
    }
}

/// `if c { ..; return x; } rest` -> `if c { ..; x } else { rest }` when in tail position
fn lift_returns(stmts: Vec<Stmt>) -> Vec<Stmt> {
    let mut out: Vec<Stmt> = vec![];
    let mut it = stmts.into_iter();
    while let Some(s) = it.next() {
        match s {
            Stmt::Expr(Expr::If(mut i), semi) if i.else_branch.is_none() => {
                let last_ret = match i.then_branch.stmts.last() {
                    Some(Stmt::Expr(Expr::Return(r), _)) => r.expr.clone(),
                    _ => None,
                };
                match last_ret {
                    Some(x) => {
                        i.then_branch.stmts.pop();
                        i.then_branch.stmts.push(Stmt::Expr(*x, None));
                        let rest = lift_returns(it.collect());
                        i.else_branch = Some((Default::default(), Box::new(parse_quote!({ #(#rest)* }))));
                        out.push(Stmt::Expr(Expr::If(i), None));
                        return out;
                    }
                    None => out.push(Stmt::Expr(Expr::If(i), semi)),
                }
            }
            Stmt::Expr(Expr::Return(r), _) if r.expr.is_some() => {
                out.push(Stmt::Expr(*r.expr.unwrap(), None));
                return out;
            }
            s => out.push(s),
        }
    }
    out
}

/// Turn a block whose value is a Result into one whose value is the Ok payload.
fn unwrap_tail(b: &mut Block) -> bool {
    let st = std::mem::take(&mut b.stmts);
    b.stmts = lift_returns(st);
    match b.stmts.last_mut() {
        Some(Stmt::Expr(e, None)) => unwrap_tail_expr(e),
        _ => false,
    }
}
fn unwrap_tail_expr(e: &mut Expr) -> bool {
    match e {
        Expr::If(i) => unwrap_tail(&mut i.then_branch) && i.else_branch.as_mut().map(|(_, x)| unwrap_tail_expr(x)).unwrap_or(false),
        Expr::Match(m) => m.arms.iter_mut().all(|a| unwrap_tail_expr(&mut a.body)),
        Expr::Block(b) => unwrap_tail(&mut b.block),
        Expr::Paren(p) => unwrap_tail_expr(&mut p.expr),
        Expr::Return(_) => true,
        Expr::Try(t) if call_path(&t.expr).as_deref() == Some("Err") => true,
        _ => {
            if call_path(e).as_deref() == Some("Ok") {
                if let Expr::Call(c) = e {
                    *e = c.args[0].clone();
                }
                true
            } else {
                let x = e.clone();
                *e = parse_quote!(#x?);
                true
            }
        }
    }
}

impl VisitMut for Inline<'_, '_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            // the call and its `?` are taken together
            Expr::Try(t) if self.0.should_inline(&t.expr).is_some() => visit_mut::visit_expr_mut(self, &mut t.expr),
            _ => visit_mut::visit_expr_mut(self, e),
        }
        let (tried, inner) = match e {
            Expr::Try(t) => (true, (*t.expr).clone()),
            Expr::Call(_) | Expr::MethodCall(_) => (false, e.clone()),
            _ => return,
        };
        let Some((key, args)) = self.0.should_inline(&inner) else { return };
        let Some((lets, mut b)) = self.0.paste(&key, &args) else {
            self.0.problems.push(format!("cannot inline {}", key));
            return;
        };
        if tried {
            if !unwrap_tail(&mut b) {
                self.0.problems.push(format!("cannot inline {}", key));
                return;
            }
            let mut h = HasReturn { ok_return: false };
            h.visit_block_mut(&mut b);
            if h.ok_return {
                self.0.problems.push(format!("early return in helper {}", key));
                return;
            }
        } else {
            let st = std::mem::take(&mut b.stmts);
            b.stmts = lift_returns(st);
            if block_has_exit(&b) {
                self.0.problems.push(format!("early exit in helper {}", key));
                return;
            }
        }
        let stmts = b.stmts;
        let mut blk: Block = parse_quote!({ #(#lets)* #(#stmts)* });
        self.0.inline_stack.push(key);
        self.visit_block_mut(&mut blk);
        self.0.inline_stack.pop();
        *e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: blk });
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        visit_mut::visit_stmt_mut(self, s)
    }
}

// ------------------------------------------------------------ loops written in other ways

/// A constant declared inside a block is replaced by its value where it is used. Only integer
/// constants: any other stays where it is, and is reported.
struct LocalConst;
pub struct ConstUse<'a>(pub &'a str, pub &'a Expr, pub bool);
impl VisitMut for ConstUse<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if p.qself.is_none() && p.path.segments.last().is_some_and(|s| s.ident == self.0) && p.path.segments.iter().rev().skip(1).all(|s| s.ident.to_string().starts_with(char::is_lowercase)) {
                *e = self.1.clone();
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e)
    }
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        if let Pat::Ident(i) = p {
            if i.ident == self.0 {
                match self.1 {
                    Expr::Lit(l) => *p = Pat::Lit(l.clone()),
                    _ => self.2 = false,
                }
                return;
            }
        }
        visit_mut::visit_pat_mut(self, p)
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        if m.tokens.to_string().contains(self.0) {
            self.2 = false;
        }
    }
}
impl VisitMut for LocalConst {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let mut i = 0;
        while i < b.stmts.len() {
            let Stmt::Item(Item::Const(c)) = &b.stmts[i] else {
                i += 1;
                continue;
            };
            let ty = c.ty.to_token_stream().to_string();
            let text = matches!(&*c.expr, Expr::Lit(ExprLit { lit: Lit::Str(_), .. }));
            if !text && !["u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64"].contains(&ty.as_str()) {
                i += 1;
                continue;
            }
            let name = c.ident.to_string();
            let value: Expr = match &*c.expr {
                Expr::Lit(ExprLit { lit: Lit::Int(n), .. }) => {
                    let n = LitInt::new(&format!("{}{}", n.base10_digits(), ty), n.span());
                    parse_quote!(#n)
                }
                e if text => e.clone(),
                e => {
                    let t = &c.ty;
                    parse_quote!((#e as #t))
                }
            };
            let mut nb = b.clone();
            nb.stmts.remove(i);
            let mut u = ConstUse(&name, &value, true);
            u.visit_block_mut(&mut nb);
            if u.2 {
                *b = nb;
            } else {
                i += 1;
            }
        }
    }
}

/// Counting loops and `while let Some(x) = it.next()` become the `for` loops they stand for.
struct Counting;

/// How often a name is mentioned, and whether it may be changed.
struct Uses<'n> {
    name: &'n str,
    all: usize,
    changed: usize,
    skips: bool,
}
impl VisitMut for Uses<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let is = |x: &Expr, n: &str| opath(x).map(|p| p.is_ident(n)) == Some(true);
        match e {
            Expr::Assign(a) if is(&a.left, self.name) => self.changed += 1,
            Expr::Binary(b) if ts(&b.op).ends_with('=') && !["==", "!=", "<=", ">="].contains(&ts(&b.op).as_str()) && is(&b.left, self.name) => self.changed += 1,
            Expr::Reference(r) if r.mutability.is_some() && is(&r.expr, self.name) => self.changed += 1,
            Expr::Continue(_) => self.skips = true,
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e)
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        if p.is_ident(self.name) {
            self.all += 1;
        }
        visit_mut::visit_path_mut(self, p)
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        // what a macro does with a name is not looked at
        if ts(&m.tokens).split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == self.name) {
            self.all += 1;
            self.changed += 1;
        }
    }
}
fn uses<'n>(name: &'n str, stmts: &[Stmt]) -> Uses<'n> {
    let mut u = Uses { name, all: 0, changed: 0, skips: false };
    for s in stmts {
        u.visit_stmt_mut(&mut s.clone());
    }
    u
}
fn name_of(e: &Expr) -> Option<String> {
    opath(e).and_then(|p| p.get_ident()).map(|i| i.to_string())
}
fn is_int(e: &Expr, v: u64) -> bool {
    matches!(e, Expr::Lit(l) if matches!(&l.lit, Lit::Int(i) if i.base10_parse::<u64>().ok() == Some(v)))
}
/// `let mut name = start;`
fn counter(s: &Stmt) -> Option<(String, Expr)> {
    let Stmt::Local(l) = s else { return None };
    let pat = match &l.pat {
        Pat::Type(t) => &*t.pat,
        p => p,
    };
    let Pat::Ident(pi) = pat else { return None };
    pi.mutability?;
    Some((pi.ident.to_string(), strip((*l.init.as_ref()?.expr).clone())))
}
/// `name += 1` / `name -= 1`
fn step(s: &Stmt, op: &str) -> Option<String> {
    let Stmt::Expr(Expr::Binary(b), _) = s else { return None };
    if ts(&b.op) != op || !is_int(&b.right, 1) {
        return None;
    }
    name_of(&b.left)
}
impl Counting {
    /// The `for` loop that the counter in `lets[j]` and this `while` stand for.
    fn rewrite(lets: &[Stmt], w: &ExprWhile, after: &[Stmt]) -> Option<(usize, Expr)> {
        let Expr::Binary(c) = strip((*w.cond).clone()) else { return None };
        if w.label.is_some() {
            return None;
        }
        let op = ts(&c.op);
        let (name, bound, up) = match op.as_str() {
            "<" => (name_of(&c.left)?, strip((*c.right).clone()), true),
            ">" if is_int(&c.right, 0) => (name_of(&c.left)?, strip((*c.right).clone()), false),
            ">" => (name_of(&c.right)?, strip((*c.left).clone()), true),
            _ => return None,
        };
        let j = lets.iter().rposition(|s| counter(s).map(|(n, _)| n == name) == Some(true))?;
        let start = counter(&lets[j])?.1;
        let n = w.body.stmts.len();
        if step(w.body.stmts.last()?, if up { "+=" } else { "-=" })? != name {
            return None;
        }
        let body = &w.body.stmts[..n - 1];
        let u = uses(&name, body);
        if u.changed > 0 || u.skips || uses(&name, &lets[j + 1..]).all > 0 || uses(&name, after).all > 0 {
            return None;
        }
        let stays = |x: &Expr| match name_of(x) {
            Some(b) => uses(&b, body).changed == 0,
            None => matches!(x, Expr::Lit(_)),
        };
        // up to the length of what is indexed
        if up && is_int(&start, 0) && matches!(&bound, Expr::MethodCall(_)) {
            let id = format_ident!("{}", name);
            return Some((j, indexed(&parse_quote!(for #id in 0..#bound { #(#body)* }))?));
        }
        if up {
            if !is_int(&start, 0) || !stays(&bound) {
                return None;
            }
            let id = format_ident!("{}", if u.all > 0 { name } else { "_".into() });
            let pat: Pat = if id == "_" { parse_quote!(_) } else { parse_quote!(#id) };
            Some((j, parse_quote!(for #pat in 0..#bound { #(#body)* })))
        } else {
            // down to zero: how often is all that may matter
            if u.all > 0 || name_of(&start).is_none() || uses(&name_of(&start)?, &lets[j + 1..]).changed > 0 {
                return None;
            }
            Some((j, parse_quote!(for _ in 0..#start { #(#body)* })))
        }
    }
}
impl VisitMut for Counting {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        read_ahead(b);
        let mut i = 0;
        while i < b.stmts.len() {
            let Stmt::Expr(Expr::While(w), _) = &b.stmts[i] else {
                i += 1;
                continue;
            };
            if let Some((j, f)) = Counting::rewrite(&b.stmts[..i], w, &b.stmts[i + 1..]) {
                b.stmts[i] = Stmt::Expr(f, None);
                b.stmts.remove(j);
                continue;
            }
            i += 1;
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::ForLoop(f) = e {
            if let Some(n) = indexed(f) {
                *e = n;
            }
            return;
        }
        let Expr::While(w) = e else { return };
        let Expr::Let(l) = &*w.cond else { return };
        let Pat::TupleStruct(p) = &*l.pat else { return };
        let Expr::MethodCall(m) = strip((*l.expr).clone()) else { return };
        if w.label.is_none() && p.path.is_ident("Some") && p.elems.len() == 1 && m.method == "next" && m.args.is_empty() && name_of(&m.receiver).is_some() {
            let it = &m.receiver;
            let pat = &p.elems[0];
            let body = &w.body;
            // an iterator mentioned in the body or afterwards does not compile as a `for` and is then out of reach
            *e = parse_quote!(for #pat in #it #body);
        }
    }
}

/// Iterator chains that end in a loop's worth of `?` become the `for` loops they stand for:
/// `let v = it.map(f).collect::<Result<Vec<_>, _>>()?`, `it.try_fold(start, f)`,
/// `it.try_for_each(f)` and `it.map(f).sum::<Result<_, _>>()?`.
struct Adapters;
impl Adapters {
    fn chain<'e>(e: &'e Expr, last: &str, args: usize) -> Option<&'e ExprMethodCall> {
        match e {
            Expr::MethodCall(m) if m.method == last && m.args.len() == args => Some(m),
            _ => None,
        }
    }
    /// What is iterated over.
    fn source(e: &Expr) -> Option<Expr> {
        match strip(e.clone()) {
            Expr::Range(r) => Some(Expr::Range(r)),
            Expr::MethodCall(m) if m.args.is_empty() && ["iter", "into_iter", "values", "keys"].contains(&m.method.to_string().as_str()) => Some(Expr::MethodCall(m)),
            _ => None,
        }
    }
    /// The body of the closure, with the value in its `Ok` as its value.
    fn body(e: &Expr) -> Option<Block> {
        let mut b: Block = match e {
            Expr::Block(b) if b.label.is_none() => b.block.clone(),
            e => parse_quote!({ #e }),
        };
        if unwrap_tail(&mut b) { Some(b) } else { None }
    }
    fn fold(m: &ExprMethodCall) -> Option<(Ident, Vec<Stmt>)> {
        let src = Self::source(&m.receiver)?;
        let init = &m.args[0];
        let Expr::Closure(c) = &m.args[1] else { return None };
        let plain = |p: &Pat| match p {
            Pat::Type(t) => (*t.pat).clone(),
            p => p.clone(),
        };
        if c.inputs.len() != 2 {
            return None;
        }
        let Pat::Ident(a) = plain(&c.inputs[0]) else { return None };
        let (a, pat) = (a.ident, plain(&c.inputs[1]));
        let mut body = Self::body(&c.body)?;
        // a = a + x  is  a += x
        let tail = body.stmts.pop();
        let Some(Stmt::Expr(t, None)) = tail else { return None };
        let st: Stmt = match strip(t) {
            Expr::Binary(b) if ts(&b.op) == "+" && name_of(&b.left).as_deref() == Some(&a.to_string()) => {
                let r = &b.right;
                parse_quote!(#a += #r;)
            }
            Expr::Path(p) if p.path.is_ident(&a) => parse_quote!({}),
            t => parse_quote!(#a = #t;),
        };
        body.stmts.push(st);
        Some((a.clone(), vec![parse_quote!(let mut #a = #init;), parse_quote!(for #pat in #src #body)]))
    }
    fn each(m: &ExprMethodCall) -> Option<Stmt> {
        let src = Self::source(&m.receiver)?;
        let (pat, b) = closure1(&m.args[0])?;
        let mut body = Self::body(&b)?;
        if let Some(Stmt::Expr(e, semi)) = body.stmts.last_mut() {
            if ts(e) == "()" {
                body.stmts.pop();
            } else {
                *semi = Some(Default::default());
            }
        }
        Some(parse_quote!(for #pat in #src #body))
    }
    /// `it.map(f)`: what is iterated over, the pattern, the statements of the closure and its value
    fn mapped(e: &Expr) -> Option<(Expr, Pat, Vec<Stmt>, Expr)> {
        let m = Self::chain(e, "map", 1)?;
        let src = Self::source(&m.receiver)?;
        let (pat, b) = closure1(&m.args[0])?;
        let mut body = Self::body(&b)?;
        let Some(Stmt::Expr(v, None)) = body.stmts.pop() else { return None };
        Some((src, pat, body.stmts, v))
    }
    fn turbofish(m: &ExprMethodCall) -> String {
        m.turbofish.as_ref().map(|t| ts(t)).unwrap_or_default().replace(' ', "")
    }
    fn stmt(s: &Stmt) -> Option<Vec<Stmt>> {
        match s {
            Stmt::Local(l) => {
                let (pat, ty) = match &l.pat {
                    Pat::Type(t) => ((*t.pat).clone(), Some((*t.ty).clone())),
                    p => (p.clone(), None),
                };
                let Pat::Ident(n) = &pat else { return None };
                let n = &n.ident;
                let init = l.init.as_ref()?;
                let Expr::Try(t) = &*init.expr else { return None };
                if init.diverge.is_some() {
                    return None;
                }
                if let Some(m) = Self::chain(&t.expr, "try_fold", 2) {
                    let (a, mut st) = Self::fold(m)?;
                    if a != *n {
                        st.push(parse_quote!(let #pat = #a;));
                    }
                    return Some(st);
                }
                if let Some(m) = Self::chain(&t.expr, "collect", 0) {
                    let tf = Self::turbofish(m);
                    let vec = tf.contains("Result<Vec<") || (tf.contains("Result<_") && ty.as_ref().is_some_and(|t| ts(t).starts_with("Vec")));
                    if !vec {
                        return None;
                    }
                    let (src, p, st, v) = Self::mapped(&m.receiver)?;
                    let first: Stmt = match ty {
                        Some(t) => parse_quote!(let mut #n: #t = Vec::new();),
                        None => parse_quote!(let mut #n = Vec::new();),
                    };
                    return Some(vec![first, parse_quote!(for #p in #src { #(#st)* #n.push(#v); })]);
                }
                if let Some(m) = Self::chain(&t.expr, "sum", 0) {
                    if !Self::turbofish(m).contains("Result<usize") {
                        return None;
                    }
                    let (src, p, st, v) = Self::mapped(&m.receiver)?;
                    return Some(vec![parse_quote!(let mut #n: usize = 0;), parse_quote!(for #p in #src { #(#st)* #n += #v; })]);
                }
                None
            }
            Stmt::Expr(Expr::Try(t), Some(_)) => Some(vec![Self::each(Self::chain(&t.expr, "try_for_each", 1)?)?]),
            Stmt::Expr(Expr::Binary(b), _) if ts(&b.op) == "+=" => {
                let Expr::Try(t) = &*b.right else { return None };
                let m = Self::chain(&t.expr, "sum", 0)?;
                if !Self::turbofish(m).contains("Result<usize") {
                    return None;
                }
                let n = &b.left;
                let (src, p, st, v) = Self::mapped(&m.receiver)?;
                Some(vec![parse_quote!(for #p in #src { #(#st)* #n += #v; })])
            }
            _ => None,
        }
    }
    /// In the last position of a function, `?` inside the loop leaves the same way.
    fn tail(e: &mut Expr) {
        match e {
            Expr::Match(m) => m.arms.iter_mut().for_each(|a| Self::tail(&mut a.body)),
            Expr::If(i) => {
                Self::tail_block(&mut i.then_branch);
                if let Some((_, x)) = &mut i.else_branch {
                    Self::tail(x);
                }
            }
            Expr::Block(b) if b.label.is_none() => Self::tail_block(&mut b.block),
            _ => {
                if let Some((a, st)) = Self::chain(e, "try_fold", 2).and_then(Self::fold) {
                    *e = parse_quote!({ #(#st)* Ok(#a) });
                } else if let Some(st) = Self::chain(e, "try_for_each", 1).and_then(Self::each) {
                    *e = parse_quote!({ #st Ok(()) });
                }
            }
        }
    }
    fn tail_block(b: &mut Block) {
        let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() else { return };
        let call = matches!(e, Expr::MethodCall(_));
        Self::tail(e);
        // the statements of a block that took the place of the call belong to the function
        if let Expr::Block(x) = e {
            if call {
                let st = std::mem::take(&mut x.block.stmts);
                b.stmts.pop();
                b.stmts.extend(st);
            }
        }
    }
}
impl VisitMut for Adapters {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        // vec![a, b]
        if call_path(e).is_some_and(|p| p.ends_with("box_assume_init_into_vec_unsafe")) {
            let Expr::Call(c) = &*e else { return };
            let Some(Expr::Call(w)) = c.args.first() else { return };
            let Some(Expr::Array(a)) = w.args.last() else { return };
            let xs = a.elems.iter();
            *e = parse_quote!({ let mut __vec = Vec::new(); #(__vec.push(#xs);)* __vec });
        }
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let old = std::mem::take(&mut b.stmts);
        for s in old {
            match Self::stmt(&s) {
                Some(st) => b.stmts.extend(st),
                None => b.stmts.push(s),
            }
        }
    }
}
fn adapters(b: &mut Block) {
    Adapters::tail_block(b);
    Adapters.visit_block_mut(b);
}

/// `for i in 0..x.len()` where `i` is only used in `x[i]`: a loop over the elements.
struct Elements {
    of: String,
    with: Expr,
    hits: usize,
}
impl VisitMut for Elements {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if ts(e) == self.of {
            self.hits += 1;
            *e = self.with.clone();
            return;
        }
        // &x[i] is the element itself
        if let Expr::Reference(r) = e {
            if r.mutability.is_none() && ts(&r.expr) == self.of {
                if let Expr::Paren(p) = &self.with {
                    if let Expr::Unary(u) = &*p.expr {
                        let x = (*u.expr).clone();
                        self.hits += 1;
                        *e = x;
                        return;
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e)
    }
}
fn indexed(f: &ExprForLoop) -> Option<Expr> {
    let Pat::Ident(i) = &*f.pat else { return None };
    let Expr::Range(r) = strip((*f.expr).clone()) else { return None };
    if f.label.is_some() || !is_int(r.start.as_deref()?, 0) || !matches!(r.limits, RangeLimits::HalfOpen(_)) {
        return None;
    }
    let Expr::MethodCall(m) = strip((*r.end?).clone()) else { return None };
    if m.method != "len" || !m.args.is_empty() {
        return None;
    }
    let x = (*m.receiver).clone();
    let mut root = &x;
    while let Expr::Field(fl) = root {
        root = &fl.base;
    }
    let root = name_of(root)?;
    let i = i.ident.to_string();
    let u = uses(&i, &f.body.stmts);
    if u.all == 0 || u.changed > 0 || uses(&root, &f.body.stmts).changed > 0 {
        return None;
    }
    let el = format_ident!("__el_{}", i);
    let id = format_ident!("{}", i);
    let at: Expr = parse_quote!(#x[#id]);
    let mut body = f.body.clone();
    let mut v = Elements { of: ts(&at), with: parse_quote!((*#el)), hits: 0 };
    v.visit_block_mut(&mut body);
    if v.hits != u.all {
        return None;
    }
    Some(parse_quote!(for #el in #x.iter() #body))
}

fn negate(e: &Expr) -> Expr {
    match strip(e.clone()) {
        Expr::Unary(u) if matches!(u.op, UnOp::Not(_)) => strip((*u.expr).clone()),
        Expr::Binary(b) if matches!(b.op, BinOp::Ne(_)) => {
            let (l, r) = (b.left, b.right);
            parse_quote!(#l == #r)
        }
        Expr::Binary(b) if matches!(b.op, BinOp::Eq(_)) => {
            let (l, r) = (b.left, b.right);
            parse_quote!(#l != #r)
        }
        e => parse_quote!(!(#e)),
    }
}
/// `let mut x = E; while C { B; x = E; }` reads ahead of what `loop { let x = E; if !C { break; } B }` reads.
fn read_ahead(b: &mut Block) {
    let mut i = 1;
    while i < b.stmts.len() {
        let new = (|| {
            let (n, e) = counter(&b.stmts[i - 1])?;
            let Stmt::Expr(Expr::While(w), _) = &b.stmts[i] else { return None };
            let (last, body) = w.body.stmts.split_last()?;
            let Stmt::Expr(Expr::Assign(a), Some(_)) = last else { return None };
            let u = uses(&n, body);
            if w.label.is_some() || name_of(&a.left)? != n || ts(&strip((*a.right).clone())) != ts(&e) || u.changed > 0 || u.skips {
                return None;
            }
            if uses(&n, &b.stmts[i + 1..]).all > 0 || matches!(&*w.cond, Expr::Let(_)) {
                return None;
            }
            let (n, c) = (format_ident!("{}", n), negate(&w.cond));
            Some(parse_quote!(loop { let #n = #e; if #c { break; } #(#body)* }))
        })();
        if let Some(l) = new {
            b.stmts[i] = Stmt::Expr(l, Some(Default::default()));
            b.stmts.remove(i - 1);
        } else {
            i += 1;
        }
    }
}
/// A `return` out of the `loop` that ends a helper leaves the loop, and the helper ends there.
struct LoopExit {
    value: Option<Expr>,
    returns: usize,
    breaks: usize,
}
impl VisitMut for LoopExit {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Return(r) if r.expr.as_ref().and_then(|x| call_path(x)).as_deref() != Some("Err") => {
                self.returns += 1;
                self.value = r.expr.as_deref().cloned();
                *e = parse_quote!(break);
            }
            Expr::Break(_) => self.breaks += 1,
            Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Closure(_) => self.breaks += 1,
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}
fn loop_exit(b: &mut Block) {
    let Some(Stmt::Expr(Expr::Loop(l), _)) = b.stmts.last() else { return };
    let mut nl = l.clone();
    let mut v = LoopExit { value: None, returns: 0, breaks: 0 };
    v.visit_block_mut(&mut nl.body);
    let Some(value) = v.value else { return };
    let mut inner = Binders(Default::default());
    inner.visit_block_mut(&mut nl.body);
    let st: Stmt = parse_quote!(#value;);
    if l.label.is_some() || v.returns != 1 || v.breaks > 0 || inner.0.iter().any(|n| uses(n, &[st.clone()]).all > 0) {
        return;
    }
    b.stmts.pop();
    b.stmts.push(Stmt::Expr(Expr::Loop(nl), Some(Default::default())));
    b.stmts.push(Stmt::Expr(value, None));
}

// ------------------------------------------------------------ scoped entries and `?`
impl Guards<'_, '_> {
    fn push_stmts(&mut self, stack: &Expr, val: &Expr) -> Vec<Stmt> {
        let Some((s, v, st)) = self.0.ctx.scoped_new.clone() else {
            self.0.problems.push("ScopedStackEntry::new".into());
            return vec![];
        };
        let mut map = BTreeMap::new();
        map.insert(s.to_string(), stack.clone());
        map.insert(v.to_string(), val.clone());
        let pats = BTreeMap::new();
        let mut st = st;
        for x in st.iter_mut() {
            Rename { map: &map, pats: &pats }.visit_stmt_mut(x);
        }
        st
    }
    fn pop_stmts(&mut self, stack: &Expr) -> Vec<Stmt> {
        let Some((s, st)) = self.0.ctx.scoped_drop.clone() else {
            self.0.problems.push("ScopedStackEntry::drop".into());
            return vec![];
        };
        let mut map = BTreeMap::new();
        map.insert(s.to_string(), stack.clone());
        let pats = BTreeMap::new();
        let mut st = st;
        for x in st.iter_mut() {
            Rename { map: &map, pats: &pats }.visit_stmt_mut(x);
        }
        st
    }
    fn pops_from(&mut self, base: usize) -> Vec<Stmt> {
        let gs: Vec<Expr> = self.0.guards[base..].iter().rev().map(|(_, s)| s.clone()).collect();
        let mut out = vec![];
        for g in gs {
            out.extend(self.pop_stmts(&g));
        }
        out
    }
    fn guard_init(&mut self, e: &Expr) -> Option<(Expr, Expr)> {
        let Expr::Call(c) = e else { return None };
        let p = opath(&c.func)?;
        if !path_str(p).ends_with("ScopedStackEntry::new") || c.args.len() != 2 {
            return None;
        }
        if let Some(p) = self.0.ctx.scoped_problem.clone() {
            self.0.problems.push(p);
        }
        let mut s = strip(c.args[0].clone());
        while let Expr::Reference(r) = s {
            s = strip(*r.expr);
        }
        if let Some(p) = opath(&s) {
            if let Some(a) = self.0.alias.get(&path_str(p)) {
                s = a.clone();
            }
        }
        Some((s, c.args[1].clone()))
    }
}
impl VisitMut for Guards<'_, '_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let base = self.0.guards.len();
        let stmts = std::mem::take(&mut b.stmts);
        let n = stmts.len();
        let mut out: Vec<Stmt> = vec![];
        let mut tail_done = false;
        for (i, mut s) in stmts.into_iter().enumerate() {
            match &mut s {
                Stmt::Local(l) => {
                    if let Some(init) = &mut l.init {
                        if let Some((stack, mut val)) = self.guard_init(&init.expr) {
                            self.visit_expr_mut(&mut val);
                            let name = ts(&l.pat);
                            out.extend(self.push_stmts(&stack, &val));
                            if name == "_" {
                                // dropped at once
                                out.extend(self.pop_stmts(&stack));
                            } else {
                                self.0.guards.push((name, stack));
                            }
                            continue;
                        }
                        if let (Pat::Ident(pi), Expr::Reference(r)) = (&l.pat, &*init.expr) {
                            if r.mutability.is_some() {
                                if let Expr::Field(f) = &*r.expr {
                                    if ts(&f.member) == "properties_stack" {
                                        self.0.alias.insert(pi.ident.to_string(), (*r.expr).clone());
                                        continue;
                                    }
                                }
                            }
                        }
                        if let (Pat::Ident(pi), Expr::Field(f)) = (&l.pat, &*init.expr) {
                            if ts(&f.member) == "properties_stack" {
                                self.0.alias.insert(pi.ident.to_string(), (*init.expr).clone());
                                continue;
                            }
                        }
                    }
                    self.visit_stmt_mut(&mut s);
                    out.push(s);
                }
                Stmt::Expr(e, semi) => {
                    if call_path(e).map(|p| p == "drop" || p.ends_with("mem::drop")) == Some(true) {
                        if let Expr::Call(c) = e {
                            let nm = ts(&c.args[0]);
                            if let Some(ix) = self.0.guards.iter().position(|(g, _)| *g == nm) {
                                let (_, st) = self.0.guards.remove(ix);
                                out.extend(self.pop_stmts(&st));
                                if ix < base {
                                    self.0.problems.push("scoped entry dropped in an inner block".into());
                                }
                                continue;
                            }
                        }
                    }
                    let is_tail = i + 1 == n && semi.is_none();
                    self.visit_expr_mut(e);
                    if is_tail && self.0.guards.len() > base {
                        let id = self.0.fid("t");
                        let e2 = e.clone();
                        out.push(parse_quote!(let #id = #e2;));
                        out.extend(self.pops_from(base));
                        out.push(Stmt::Expr(parse_quote!(#id), None));
                        tail_done = true;
                    } else {
                        if is_tail {
                            tail_done = true;
                        }
                        out.push(s);
                    }
                }
                _ => {
                    self.visit_stmt_mut(&mut s);
                    out.push(s);
                }
            }
        }
        if !tail_done && self.0.guards.len() > base {
            out.extend(self.pops_from(base));
        }
        self.0.guards.truncate(base);
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Closure(c) => {
                let save = std::mem::take(&mut self.0.guards);
                self.visit_expr_mut(&mut c.body);
                self.0.guards = save;
                return;
            }
            Expr::Loop(l) => {
                self.0.loop_marks.push(self.0.guards.len());
                self.visit_block_mut(&mut l.body);
                self.0.loop_marks.pop();
                return;
            }
            Expr::While(l) => {
                self.visit_expr_mut(&mut l.cond);
                self.0.loop_marks.push(self.0.guards.len());
                self.visit_block_mut(&mut l.body);
                self.0.loop_marks.pop();
                return;
            }
            Expr::ForLoop(l) => {
                self.visit_expr_mut(&mut l.expr);
                self.0.loop_marks.push(self.0.guards.len());
                self.visit_block_mut(&mut l.body);
                self.0.loop_marks.pop();
                return;
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
        match e {
            Expr::Try(t) => {
                let pops = self.pops_from(0);
                let inner = (*t.expr).clone();
                let conv = self.0.convert.clone();
                if call_path(&inner).as_deref() == Some("Err") {
                    let Expr::Call(c) = &inner else { unreachable!() };
                    let a = &c.args[0];
                    let id = self.0.fid("e");
                    *e = parse_quote!({ let #id = #a; #(#pops)* return Err(#conv(#id)); });
                } else {
                    let v = self.0.fid("v");
                    let id = self.0.fid("e");
                    *e = parse_quote!(match #inner { Ok(#v) => #v, Err(#id) => { #(#pops)* return Err(#conv(#id)); } });
                }
            }
            Expr::Return(r) => {
                if !self.0.guards.is_empty() {
                    let pops = self.pops_from(0);
                    if let Some(x) = &r.expr {
                        let id = self.0.fid("t");
                        *e = parse_quote!({ let #id = #x; #(#pops)* return #id; });
                    } else {
                        *e = parse_quote!({ #(#pops)* return; });
                    }
                }
            }
            Expr::Break(_) | Expr::Continue(_) => {
                let base = self.0.loop_marks.last().copied().unwrap_or(0);
                if self.0.guards.len() > base {
                    let pops = self.pops_from(base);
                    let x = e.clone();
                    *e = parse_quote!({ #(#pops)* #x });
                }
            }
            _ => {}
        }
    }
}

// ------------------------------------------------------------------- everything else
struct StrLits<'x, 'a> {
    x: &'x mut Xform<'a>,
    guards: Vec<Expr>,
}
impl VisitMut for StrLits<'_, '_> {
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        visit_mut::visit_pat_mut(self, p);
        if let Pat::Lit(l) = p {
            if let Lit::Str(s) = &l.lit {
                let id = self.x.fid("s");
                self.guards.push(parse_quote!(v_str_eq(#id, #s)));
                *p = parse_quote!(#id);
            }
        }
    }
}
struct RefPats<'x, 'a> {
    x: &'x mut Xform<'a>,
    lets: Vec<Stmt>,
}
impl VisitMut for RefPats<'_, '_> {
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        if let Pat::Reference(r) = p {
            if let Pat::Ident(pi) = &*r.pat {
                let id = self.x.fid("r");
                let n = &pi.ident;
                self.lets.push(parse_quote!(let #n = *#id;));
                *p = parse_quote!(#id);
                return;
            }
            if let Pat::Wild(_) = &*r.pat {
                *p = parse_quote!(_);
                return;
            }
        }
        visit_mut::visit_pat_mut(self, p);
    }
}
fn has_or_str(p: &Pat) -> bool {
    struct V(bool);
    impl VisitMut for V {
        fn visit_pat_or_mut(&mut self, p: &mut PatOr) {
            let mut q = p.clone();
            struct S(bool);
            impl VisitMut for S {
                fn visit_expr_lit_mut(&mut self, l: &mut ExprLit) {
                    if let Lit::Str(_) = l.lit {
                        self.0 = true
                    }
                }
            }
            let mut s = S(false);
            for c in q.cases.iter_mut() {
                s.visit_pat_mut(c);
            }
            if s.0 {
                self.0 = true
            }
        }
    }
    let mut v = V(false);
    v.visit_pat_mut(&mut p.clone());
    v.0
}

fn has_let(e: &Expr) -> bool {
    match e {
        Expr::Let(_) => true,
        Expr::Binary(b) => matches!(b.op, BinOp::And(_)) && (has_let(&b.left) || has_let(&b.right)),
        Expr::Paren(p) => has_let(&p.expr),
        _ => false,
    }
}
fn conj(e: &Expr, out: &mut Vec<Expr>) {
    match e {
        Expr::Binary(b) if matches!(b.op, BinOp::And(_)) => {
            conj(&b.left, out);
            conj(&b.right, out);
        }
        _ => out.push(e.clone()),
    }
}

fn closure1(e: &Expr) -> Option<(Pat, Expr)> {
    if let Expr::Closure(c) = e {
        if c.inputs.len() == 1 {
            let p = match &c.inputs[0] {
                Pat::Type(t) => (*t.pat).clone(),
                p => p.clone(),
            };
            return Some((p, (*c.body).clone()));
        }
    }
    None
}
fn closure0(e: &Expr) -> Option<Expr> {
    if let Expr::Closure(c) = e {
        if c.inputs.is_empty() {
            return Some((*c.body).clone());
        }
    }
    None
}

fn vmark(kind: &str, k: usize) -> TokenStream {
    let kind = Ident::new(kind, Span::call_site());
    let k = proc_macro2::Literal::usize_unsuffixed(k);
    quote!(__vmark!(#kind, #k);)
}

impl Main<'_, '_> {
    fn for_parts(&mut self, e: &Expr) -> Expr {
        let e = strip(e.clone());
        match &e {
            Expr::Range(r) if r.start.is_some() && r.end.is_some() => {
                let (a, b) = (r.start.as_ref().unwrap(), r.end.as_ref().unwrap());
                if matches!(r.limits, RangeLimits::Closed(_)) {
                    self.0.problems.push("inclusive range loop".into());
                }
                parse_quote!(v_range(#a, #b))
            }
            Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() => {
                let r = &m.receiver;
                parse_quote!(#r.v_iter())
            }
            Expr::MethodCall(m) if m.method == "into_iter" && m.args.is_empty() => {
                let r = &m.receiver;
                parse_quote!(VIntoIter::v_into_iter(#r))
            }
            _ => parse_quote!(VIntoIter::v_into_iter(#e)),
        }
    }
    /// F.write_fmt(format_args!("..{0:02X}..", ..)), one call per piece
    fn write_fmt(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let Expr::Macro(mac) = strip(m.args[0].clone()) else { return None };
        if !mac.mac.path.segments.last()?.ident.to_string().ends_with("format_args") {
            return None;
        }
        let args = mac.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
        let Expr::Lit(ExprLit { lit: Lit::Str(text), .. }) = &args[0] else { return None };
        let f = &m.receiver;
        let mut calls: Vec<Expr> = vec![];
        let mut lit = String::new();
        let text = text.value();
        let mut it = text.chars().peekable();
        while let Some(c) = it.next() {
            match c {
                '{' if it.peek() == Some(&'{') => lit.push(it.next()?),
                '}' if it.peek() == Some(&'}') => lit.push(it.next()?),
                '{' => {
                    if !lit.is_empty() {
                        calls.push(parse_quote!(#f.write_str(#lit)));
                        lit.clear();
                    }
                    let mut spec = String::new();
                    loop {
                        match it.next()? {
                            '}' => break,
                            c => spec.push(c),
                        }
                    }
                    let (n, how) = spec.split_once(':').unwrap_or((&spec, ""));
                    let a = &args[n.parse::<usize>().ok()? + 1];
                    calls.push(match how {
                        "02X" | "0>2X" => parse_quote!(v_write_hex(#f, &#a, 2, true)),
                        "02x" | "0>2x" => parse_quote!(v_write_hex(#f, &#a, 2, false)),
                        "X" => parse_quote!(v_write_hex(#f, &#a, 0, true)),
                        "x" => parse_quote!(v_write_hex(#f, &#a, 0, false)),
                        "" | "#x" | "#X" => parse_quote!(v_show(#f, &#a)),
                        _ => return None,
                    });
                }
                c => lit.push(c),
            }
        }
        if !lit.is_empty() {
            calls.push(parse_quote!(#f.write_str(#lit)));
        }
        let mut x: Expr = match calls.pop() {
            Some(x) => x,
            None => return Some(parse_quote!(Ok(()))),
        };
        while let Some(c) = calls.pop() {
            let id = self.0.fid("e");
            x = parse_quote!(match #c { Ok(_) => #x, Err(#id) => Err(#id) });
        }
        Some(x)
    }
    fn collect_chain(&mut self, m: &ExprMethodCall) -> Option<(Expr, Pat, Expr, bool)> {
        // X.iter().map(closure).collect::<Result<_,_>>()
        if m.method != "collect" {
            return None;
        }
        let tf = m.turbofish.as_ref().map(|t| ts(t)).unwrap_or_default();
        let Expr::MethodCall(mm) = &*m.receiver else { return None };
        if mm.method != "map" || mm.args.len() != 1 {
            return None;
        }
        let (p, b) = closure1(&mm.args[0])?;
        Some(((*mm.receiver).clone(), p, b, tf.contains("Result")))
    }
}

impl VisitMut for Main<'_, '_> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        TypeFix.visit_type_mut(t);
    }
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        visit_mut::visit_pat_mut(self, p);
        match p {
            Pat::TupleStruct(t) => flatten_path(&mut t.path),
            Pat::Struct(t) => flatten_path(&mut t.path),
            Pat::Path(t) => flatten_path(&mut t.path),
            _ => {}
        }
    }
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        if has_or_str(&a.pat) {
            self.0.problems.push("string literal inside an or-pattern".into());
        }
        let (gs, lets) = {
            let mut sl = StrLits { x: self.0, guards: vec![] };
            sl.visit_pat_mut(&mut a.pat);
            let gs = sl.guards;
            let mut rp = RefPats { x: self.0, lets: vec![] };
            rp.visit_pat_mut(&mut a.pat);
            (gs, rp.lets)
        };
        if !lets.is_empty() {
            if a.guard.is_some() {
                self.0.problems.push("reference pattern with guard".into());
            }
            let b = &a.body;
            a.body = Box::new(parse_quote!({ #(#lets)* #b }));
        }
        if !gs.is_empty() {
            let mut g: Expr = gs[0].clone();
            for x in &gs[1..] {
                g = parse_quote!(#g && #x);
            }
            if let Some((_, old)) = &a.guard {
                g = parse_quote!(#g && (#old));
            }
            a.guard = Some((Default::default(), Box::new(g)));
        }
        visit_mut::visit_arm_mut(self, a);
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Local(l) = s {
            l.attrs.clear();
        }
        if let Stmt::Macro(m) = s {
            let n = m.mac.path.segments.last().unwrap().ident.to_string();
            if n != "__vmark" {
                self.0.problems.push(format!("macro {}", n));
            }
        }
        if let Stmt::Item(i) = s {
            match i {
                Item::Use(_) => {
                    *s = parse_quote!({});
                }
                _ => self.0.problems.push("nested item".into()),
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // string formatting has no effect on any property: its text is opaque
        if let Expr::Call(c) = e {
            if let Some(p) = opath(&c.func) {
                let s = path_str(p);
                if s.ends_with("must_use") && ts(&c.args[0]).contains("format") {
                    self.0.features.insert("format".into());
                    *e = parse_quote!(v_format());
                    return;
                }
                if s.ends_with("fmt::format") {
                    *e = parse_quote!(v_format());
                    return;
                }
                if s.contains("panicking::") || s.ends_with("begin_panic") {
                    *e = parse_quote!(v_panic());
                    return;
                }
                if s == "u32::from_le_bytes" {
                    let mut a = strip(c.args[0].clone());
                    if let Expr::Unary(u) = &a {
                        a = strip((*u.expr).clone());
                    }
                    if let Expr::Lit(l) = &a {
                        if let Lit::ByteStr(b) = &l.lit {
                            let v = b.value();
                            if v.len() == 4 {
                                let n = u32::from_le_bytes([v[0], v[1], v[2], v[3]]);
                                let lit = proc_macro2::Literal::u32_suffixed(n);
                                *e = parse_quote!(#lit);
                                return;
                            }
                        }
                    }
                }
            }
        }
        if let Expr::MethodCall(m) = e {
            if m.method == "write_fmt" && m.args.len() == 1 {
                if let Some(x) = self.write_fmt(m) {
                    *e = x;
                    visit_mut::visit_expr_mut(self, e);
                    return;
                }
            }
        }
        if let Expr::Unsafe(u) = e {
            if let [Stmt::Expr(Expr::Call(c), None)] = &u.block.stmts[..] {
                if call_path(&Expr::Call(c.clone())).is_some_and(|p| p.ends_with("mem::transmute") || p == "transmute") {
                    let a = &c.args[0];
                    *e = parse_quote!(v_transmute(#a));
                    visit_mut::visit_expr_mut(self, e);
                    return;
                }
            }
        }
        if let Expr::Macro(m) = e {
            let n = m.mac.path.segments.last().unwrap().ident.to_string();
            self.0.problems.push(format!("macro {}", n));
            return;
        }
        // loops take their number in source order
        let mut k = usize::MAX;
        let chain = if let Expr::MethodCall(m) = &*e { self.collect_chain(m) } else { None };
        if matches!(e, Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_)) || chain.is_some() {
            k = self.0.loop_k;
            self.0.loop_k += 1;
        }
        if let Some((src, pat, body, is_res)) = chain {
            if !is_res {
                self.0.problems.push("collect of a non-Result".into());
            }
            let it = format_ident!("__it{}", k);
            let acc = format_ident!("__acc{}", k);
            let src2 = self.for_parts(&src);
            let (b0, inv, bm, em, am) = (vmark("BEFORE", k), vmark("INV", k), vmark("BODY", k), vmark("END", k), vmark("AFTER", k));
            let err = format_ident!("__err{}", k);
            let mut n: Expr = parse_quote!({
                let mut #it = #src2;
                let mut #acc = VCollect::v_new();
                let mut #err = None;
                #b0
                while #it.v_has_next() && v_is_none(&#err) {
                    #inv
                    let #pat = #it.v_next();
                    #bm
                    match #body {
                        Ok(__item) => { VCollect::v_add(&mut #acc, __item); }
                        Err(__x) => { #err = Some(__x); }
                    }
                    #em
                }
                #am
                match #err { Some(__x) => Err(__x), None => Ok(#acc) }
            });
            // visit the pieces (the numbering above already happened)
            visit_mut::visit_expr_mut(self, &mut n);
            // the wrapper contains a `while` that must not be numbered again: handled in While below
            *e = n;
            return;
        }
        if let Expr::While(w) = e {
            // loops made by this pass carry their mark already
            if let Some(Stmt::Macro(m)) = w.body.stmts.first() {
                if m.mac.path.is_ident("__vmark") {
                    if k != usize::MAX {
                        self.0.loop_k -= 1;
                    }
                    visit_mut::visit_expr_mut(self, e);
                    return;
                }
            }
        }
        // let chains
        if let Expr::If(i) = e {
            if !matches!(&*i.cond, Expr::Let(_)) && has_let(&i.cond) {
                if i.else_branch.is_some() {
                    self.0.problems.push("let chain with else".into());
                }
                let mut cs = vec![];
                conj(&i.cond, &mut cs);
                let mut b = i.then_branch.clone();
                for c in cs.iter().rev() {
                    let x: Expr = parse_quote!(if #c #b);
                    b = parse_quote!({ #x });
                }
                *e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: b });
            }
        }
        // `if let "lit" = x` and friends
        if let Expr::If(i) = e {
            if let Expr::Let(l) = &mut *i.cond {
                let mut sl = StrLits { x: self.0, guards: vec![] };
                sl.visit_pat_mut(&mut l.pat);
                if !sl.guards.is_empty() {
                    self.0.problems.push("if let with a string literal".into());
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::ForLoop(f) => {
                let it = format_ident!("__it{}", k);
                let src = self.for_parts(&f.expr);
                let mut pat = (*f.pat).clone();
                let lets = {
                    let mut rp = RefPats { x: self.0, lets: vec![] };
                    rp.visit_pat_mut(&mut pat);
                    rp.lets
                };
                let stmts = &f.body.stmts;
                let (b0, inv, bm, em, am) = (vmark("BEFORE", k), vmark("INV", k), vmark("BODY", k), vmark("END", k), vmark("AFTER", k));
                if f.label.is_some() {
                    self.0.problems.push("labelled loop".into());
                }
                // a trailing expression statement of unit type
                let mut st2: Vec<Stmt> = stmts.clone();
                if let Some(Stmt::Expr(_, semi)) = st2.last_mut() {
                    if semi.is_none() {
                        *semi = Some(Default::default());
                    }
                }
                *e = parse_quote!({
                    let mut #it = #src;
                    #b0
                    while #it.v_has_next() { #inv let #pat = #it.v_next(); #(#lets)* #bm #(#st2)* #em }
                    #am
                });
            }
            Expr::Loop(l) => {
                let (inv, bm, em) = (vmark("INV", k), vmark("BODY", k), vmark("END", k));
                let mut st2 = l.body.stmts.clone();
                if let Some(Stmt::Expr(_, semi)) = st2.last_mut() {
                    if semi.is_none() {
                        *semi = Some(Default::default());
                    }
                }
                if l.label.is_some() {
                    self.0.problems.push("labelled loop".into());
                }
                let am = vmark("AFTER", k);
                let b0 = vmark("BEFORE", k);
                *e = parse_quote!({ #b0 loop { #inv #bm #(#st2)* #em } #am });
            }
            Expr::While(w) => {
                let (inv, bm, em, am, b0) = (vmark("INV", k), vmark("BODY", k), vmark("END", k), vmark("AFTER", k), vmark("BEFORE", k));
                let st = w.body.stmts.clone();
                let c = &w.cond;
                if w.label.is_some() || has_let(c) {
                    self.0.problems.push("labelled loop or while let".into());
                }
                *e = parse_quote!({ #b0 while #c { #inv #bm #(#st)* #em } #am });
            }
            Expr::Cast(c) => {
                let t = ts(&c.ty);
                if t == "Self" {
                    if let Some(s) = &self.0.self_ty {
                        c.ty = Box::new(parse_str(s).unwrap());
                    }
                }
                if is_prim(&ts(&c.ty)) {
                    let variant = opath(&c.expr).map(|p| {
                        let n = p.segments.len();
                        n >= 2 && is_upper(&p.segments[n - 1].ident.to_string()) && is_upper(&p.segments[n - 2].ident.to_string())
                    }) == Some(true);
                    if !variant {
                        let x = e.clone();
                        *e = parse_quote!((#[verifier::truncate] (#x)));
                    }
                } else {
                    self.0.problems.push(format!("cast to {}", t));
                }
            }
            Expr::Path(p) => {
                if p.qself.is_none() {
                    flatten_path(&mut p.path);
                    let n = p.path.segments.len();
                    if n == 2 && p.path.segments[1].ident == "GUID" {
                        let t = p.path.segments[0].clone();
                        *e = parse_quote!(#t::v_guid());
                    }
                }
            }
            Expr::Struct(s) => flatten_path(&mut s.path),
            Expr::Lit(l) => {
                if let Lit::ByteStr(b) = &l.lit {
                    let bs = b.value();
                    let lits = bs.iter().map(|x| proc_macro2::Literal::u8_suffixed(*x));
                    *e = parse_quote!(&[#(#lits),*]);
                }
            }
            Expr::Call(c) => {
                // <prim>::from(x)
                if let Expr::Path(p) = &*c.func {
                    if let Some(q) = &p.qself {
                        if is_prim(&ts(&q.ty)) && p.path.segments.last().unwrap().ident == "from" {
                            *e = widened(&ts(&q.ty), &c.args[0]);
                            return;
                        }
                        self.0.problems.push("qualified path".into());
                        return;
                    }
                    let s = path_str(&p.path);
                    if let Some(t) = s.strip_suffix("::from") {
                        if is_prim(t) {
                            *e = widened(t, &c.args[0]);
                            return;
                        }
                        if t == "Self" || self.0.ctx.types.contains(t) {
                            let ty = if t == "Self" { self.0.self_ty.clone().unwrap_or("Self".into()) } else { t.to_string() };
                            if ty != "OrderedFloat" {
                                if let Ok(ty) = parse_str::<Type>(&ty) {
                                    let a = &c.args[0];
                                    *e = parse_quote!(VInto::<#ty>::v_into(#a));
                                    return;
                                }
                            }
                        }
                    }
                    if (s == "Display::fmt" || s.ends_with("fmt::Display::fmt")) && c.args.len() == 2 {
                        let (a, b) = (&c.args[0], &c.args[1]);
                        *e = parse_quote!(#a.v_fmt(#b));
                        return;
                    }
                    if s == "Default::default" {
                        *e = parse_quote!(VDefault::v_default());
                        return;
                    }
                    if s == "u32::from_le" || s == "u32::to_le" {
                        let a = &c.args[0];
                        *e = parse_quote!(v_le(#a));
                        return;
                    }
                    if s == "u8::from_str_radix" {
                        let (a, b) = (&c.args[0], &c.args[1]);
                        *e = parse_quote!(v_u8_from_str_radix(#a, #b));
                        return;
                    }
                    if let Some((t, f)) = s.rsplit_once("::") {
                        if is_prim(t) && t != "u128" && ["from_le_bytes", "from_be_bytes", "to_le_bytes", "to_be_bytes"].contains(&f) {
                            let (t, f, a) = (format_ident!("{}", t), format_ident!("v_{}", f), &c.args[0]);
                            *e = parse_quote!(#t::#f(#a));
                            return;
                        }
                    }
                    if let Some(t) = s.strip_suffix("::try_from") {
                        let id = format_ident!("{}", t);
                        let a = &c.args[0];
                        *e = parse_quote!(#id::v_try_from(#a));
                        return;
                    }
                    self.0.calls.insert(s);
                }
            }
            Expr::Binary(b) => {
                let neq = matches!(b.op, BinOp::Ne(_));
                if matches!(b.op, BinOp::Eq(_)) || neq {
                    let (l, r) = (strip((*b.left).clone()), strip((*b.right).clone()));
                    let refeq = matches!(&l, Expr::Reference(_)) || matches!(&r, Expr::Reference(_));
                    if is_str_lit(&l) || is_str_lit(&r) || refeq {
                        let lref: Expr = parse_quote!(&#l);
                        let x: Expr = parse_quote!(v_eq(#lref, &#r));
                        *e = if neq { parse_quote!(!#x) } else { x };
                    }
                }
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let recv = (*m.receiver).clone();
                self.0.calls.insert(format!(".{}", name));
                match (name.as_str(), m.args.len()) {
                    ("clone", 0) | ("to_owned", 0) => m.method = format_ident!("v_clone"),
                    ("to_string", 0) => m.method = format_ident!("v_to_string"),
                    ("hash", 1) => m.method = format_ident!("v_hash"),
                    ("iter", 0) => m.method = format_ident!("v_iter"),
                    ("as_deref", 0) => m.method = format_ident!("v_as_deref"),
                    ("as_str", 0) => m.method = format_ident!("v_as_str"),
                    ("copied", 0) => m.method = format_ident!("v_copied"),
                    ("as_ref", 0) => m.method = format_ident!("v_as_ref"),
                    ("into", 0) => m.method = format_ident!("v_into"),
                    ("into_boxed_str", 0) => m.method = format_ident!("v_into_boxed_str"),
                    ("len", 0) => m.method = format_ident!("v_len"),
                    ("is_empty", 0) => {
                        *e = parse_quote!((#recv.v_len() == 0));
                    }
                    // thiserror: the value itself, as Display shows it
                    ("as_display", 0) => *e = recv.clone(),
                    ("to_le", 0) => *e = parse_quote!(v_le(#recv)),
                    ("replace", 2) => m.method = format_ident!("v_replace"),
                    ("trim", 0) => m.method = format_ident!("v_trim"),
                    ("starts_with" | "ends_with" | "eq_ignore_ascii_case", 1) => {
                        let a = &m.args[0];
                        let f = format_ident!("v_{}", name);
                        *e = parse_quote!(#recv.#f(&#a));
                    }
                    ("trim_start" | "trim_end" | "to_lowercase" | "to_uppercase" | "to_ascii_lowercase" | "to_ascii_uppercase" | "to_le_bytes" | "to_be_bytes" | "reverse" | "sort"
                    | "dedup", 0) => {
                        m.method = format_ident!("v_{}", name)
                    }
                    ("sort_unstable" | "sort_keys", 0) => m.method = format_ident!("v_sort"),
                    ("strip_prefix", 1) => m.method = format_ident!("v_strip_prefix"),
                    ("strip_suffix", 1) => m.method = format_ident!("v_strip_suffix"),
                    ("all", 1) => {
                        // S.bytes().all(|b| b.is_ascii_hexdigit())
                        if let (Expr::MethodCall(by), Some((Pat::Ident(p), b))) = (&recv, closure1(&m.args[0])) {
                            if (by.method == "bytes" || by.method == "chars") && ts(&b) == ts(&{
                                let id = &p.ident;
                                let x: Expr = parse_quote!(#id.is_ascii_hexdigit());
                                x
                            }) {
                                let r = &by.receiver;
                                *e = parse_quote!(v_all_hex(#r));
                                return;
                            }
                        }
                        self.0.problems.push("all".into());
                    }
                    ("join", 1) => m.method = format_ident!("v_join"),
                    ("by_ref", 0) => m.method = format_ident!("v_by_ref"),
                    ("as_bytes", 0) => m.method = format_ident!("v_as_bytes"),
                    ("contains", 1) if is_str_lit(&strip(m.args[0].clone())) => {
                        let a = &m.args[0];
                        *e = parse_quote!(#recv.v_contains_text(&#a));
                    }
                    ("contains", 1) => {
                        let r = strip(recv);
                        if let Expr::Range(r) = &r {
                            let mut a = strip(m.args[0].clone());
                            if let Expr::Reference(x) = a {
                                a = strip(*x.expr);
                            }
                            if let (Some(lo), Some(hi)) = (&r.start, &r.end) {
                                *e = if matches!(r.limits, RangeLimits::Closed(_)) {
                                    parse_quote!((#a >= #lo && #a <= #hi))
                                } else {
                                    parse_quote!((#a >= #lo && #a < #hi))
                                };
                            }
                        }
                    }
                    ("collect", 0) => {
                        if let Expr::MethodCall(mm) = &recv {
                            if mm.method == "encode_utf16" {
                                let r = &mm.receiver;
                                *e = parse_quote!(v_encode_utf16(#r));
                                return;
                            }
                        }
                        self.0.problems.push("collect".into());
                    }
                    ("push", 1) => {
                        // M.entry(K).or_default().push(P)
                        if let Expr::MethodCall(od) = &recv {
                            if od.method == "v_entry_default" {
                                let (mm, kk, pp) = (&od.receiver, &od.args[0], &m.args[0]);
                                *e = parse_quote!(#mm.v_entry_push(#kk, #pp));
                                return;
                            }
                        }
                    }
                    // M.entry(K).or_default() and the like, for an empty vector
                    ("or_default", 0) | ("or_insert_with", 1) | ("or_insert", 1) if m.args.first().is_none_or(empty_vec) => {
                        if let Expr::MethodCall(en) = &recv {
                            if en.method == "entry" {
                                let (mm, kk) = (&en.receiver, &en.args[0]);
                                *e = parse_quote!(#mm.v_entry_default(#kk));
                                return;
                            }
                        }
                    }
                    ("or_insert", 1) => {
                        if let Expr::MethodCall(en) = &recv {
                            if en.method == "entry" {
                                let (mm, kk, vv) = (&en.receiver, &en.args[0], &m.args[0]);
                                *e = parse_quote!(#mm.v_or_insert(#kk, #vv));
                                return;
                            }
                        }
                    }
                    ("map_err", 1) => {
                        if let Some((p, b)) = closure1(&m.args[0]) {
                            let v = self.0.fid("v");
                            *e = parse_quote!(match #recv { Ok(#v) => Ok(#v), Err(#p) => Err(#b) });
                        } else if let Some(p) = opath(&m.args[0]) {
                            let (v, x) = (self.0.fid("v"), self.0.fid("e"));
                            *e = parse_quote!(match #recv { Ok(#v) => Ok(#v), Err(#x) => Err(#p(#x)) });
                        }
                    }
                    ("is_some_and", 1) => {
                        if let Some((p, b)) = closure1(&m.args[0]) {
                            *e = parse_quote!(match #recv { Some(#p) => #b, None => false });
                        }
                    }
                    ("is_none_or", 1) => {
                        if let Some((p, b)) = closure1(&m.args[0]) {
                            *e = parse_quote!(match #recv { Some(#p) => #b, None => true });
                        }
                    }
                    ("filter", 1) => {
                        if let Some((p, b)) = closure1(&m.args[0]) {
                            let v = self.0.fid("v");
                            *e = parse_quote!(match #recv { Some(#v) => { if { let #p = &#v; #b } { Some(#v) } else { None } } None => None });
                        }
                    }
                    ("or", 1) => {
                        let (v, o, d) = (self.0.fid("v"), self.0.fid("o"), self.0.fid("d"));
                        let b = &m.args[0];
                        *e = parse_quote!({ let #o = #recv; let #d = #b; match #o { Some(#v) => Some(#v), None => #d } });
                    }
                    ("map", 1) if self.0.gives_result(&recv) => {
                        let x = self.0.fid("e");
                        if let Some((p, b)) = closure1(&m.args[0]) {
                            *e = parse_quote!(match #recv { Ok(#p) => Ok(#b), Err(#x) => Err(#x) });
                        } else if let Some(p) = opath(&m.args[0]) {
                            let v = self.0.fid("v");
                            *e = parse_quote!(match #recv { Ok(#v) => Ok(#p(#v)), Err(#x) => Err(#x) });
                        }
                    }
                    ("and_then", 1) if self.0.gives_result(&recv) => {
                        let x = self.0.fid("e");
                        if let Some((p, b)) = closure1(&m.args[0]) {
                            *e = parse_quote!(match #recv { Ok(#p) => #b, Err(#x) => Err(#x) });
                        }
                    }
                    ("map", 1) => {
                        if let Some((p, b)) = closure1(&m.args[0]) {
                            // only Option and Result receivers reach here; which one is decided by the marker
                            self.0.features.insert("map".into());
                            *e = parse_quote!(match #recv { Some(#p) => Some(#b), None => None });
                        } else if let Some(p) = opath(&m.args[0]) {
                            let x = self.0.fid("x");
                            *e = parse_quote!(match #recv { Some(#x) => Some(#p(#x)), None => None });
                        }
                    }
                    ("and_then", 1) => {
                        if let Some((p, b)) = closure1(&m.args[0]) {
                            *e = parse_quote!(match #recv { Some(#p) => #b, None => None });
                        }
                    }
                    ("map_or", 2) => {
                        if let Some((p, b)) = closure1(&m.args[1]) {
                            let d = &m.args[0];
                            *e = parse_quote!(match #recv { Some(#p) => #b, None => #d });
                        }
                    }
                    ("ok_or_else", 1) => {
                        if let Some(b) = closure0(&m.args[0]) {
                            let v = self.0.fid("v");
                            *e = parse_quote!(match #recv { Some(#v) => Ok(#v), None => Err(#b) });
                        }
                    }
                    ("ok_or", 1) => {
                        let b = &m.args[0];
                        let v = self.0.fid("v");
                        let d = self.0.fid("d");
                        *e = parse_quote!({ let #d = #b; match #recv { Some(#v) => Ok(#v), None => Err(#d) } });
                    }
                    ("unwrap_or_else", 1) => {
                        if let Some(b) = closure0(&m.args[0]) {
                            let v = self.0.fid("v");
                            *e = parse_quote!(match #recv { Some(#v) => #v, None => #b });
                        }
                    }
                    _ => {}
                }
            }
            Expr::Assign(a) => {
                // A[i] = x
                if let Expr::Index(ix) = &*a.left {
                    let (b, i, x) = (&ix.expr, &ix.index, &a.right);
                    let v = self.0.fid("v");
                    *e = parse_quote!({ let #v = #x; v_set(&mut #b, #i, #v) });
                }
            }
            Expr::Reference(r) => {
                // &S[a..b]
                if let Expr::Index(ix) = &*r.expr {
                    if let Expr::Range(g) = &*ix.index {
                        if let (Some(a), Some(b), RangeLimits::HalfOpen(_)) = (&g.start, &g.end, &g.limits) {
                            let s = &ix.expr;
                            *e = parse_quote!(v_part(&#s, #a, #b));
                        }
                    }
                }
            }
            Expr::Closure(_) => self.0.features.insert("closure".into()).then_some(()).unwrap_or(()),
            Expr::Unsafe(_) => self.0.problems.push("unsafe block".into()),
            _ => {}
        }
    }
}

#[allow(dead_code)]
fn _unused(t: &dyn ToTokens) -> TokenStream {
    t.to_token_stream()
}
