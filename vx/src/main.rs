//! vx: mechanical extraction of /repo's current source into one Verus file.
//!
//! vx parses every source file it is asked for, keeps the program text as it
//! is (token for token) except for the rewrites listed in `map.json`
//! ("rewrites"), and inserts contracts, invariants and proof hints from the
//! side files in /verif/specs.  It never adds executable code other than the
//! documented desugarings, and it fails loudly (records an anchor as missing)
//! whenever a spec refers to something the source no longer has.

use proc_macro2::{LineColumn, Span};
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Write as _;
use syn::spanned::Spanned;
use syn::visit::Visit;

mod cont;
mod forms;
mod inline;
mod spec;
use spec::*;

#[derive(Clone, Debug)]
enum Piece {
    T(String),
    S(usize, usize),
}

#[derive(Clone, Debug)]
struct Edit {
    a: usize,
    b: usize,
    seq: usize,
    prio: i32,
    pieces: Vec<Piece>,
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Default, Debug)]
struct FnInfo {
    id: String,
    file: String,
    line: usize,
    contract: bool,
    external: bool,
    loops: usize,
    names: Vec<String>,
    canary: bool,
    in_trait_decl: bool,
    shape: String,
    /// callable from outside its module's impl: `pub`, or a trait's method
    public: bool,
    /// hash of the function's tokens
    toks: String,
}

struct Cx<'a> {
    src: String,
    file: String,
    module: String,
    edits: Vec<Edit>,
    seq: usize,
    specs: &'a Specs,
    out: &'a mut Out,
    stub: &'a BTreeSet<String>,
    canary: bool,
    consts: HashMap<String, String>,
    /// functions of this file, by name: do all of them return a `Result`?
    results: HashMap<String, bool>,
}

struct Rets(HashMap<String, bool>);
impl Rets {
    fn add(&mut self, s: &syn::Signature) {
        let res = match &s.output {
            syn::ReturnType::Type(_, t) => matches!(&**t, syn::Type::Path(p) if p.path.segments.last().map_or(false, |x| x.ident.to_string().ends_with("Result"))),
            _ => false,
        };
        let e = self.0.entry(s.ident.to_string()).or_insert(true);
        *e = *e && res;
    }
}
impl<'ast> Visit<'ast> for Rets {
    fn visit_signature(&mut self, s: &'ast syn::Signature) {
        self.add(s);
    }
}

#[derive(Default)]
struct Out {
    fns: Vec<FnInfo>,
    rewrites: Vec<String>,
    missing: Vec<String>,
    used: BTreeSet<String>,
    items: Vec<String>,
    loops_without_spec: Vec<String>,
}

fn r(s: Span) -> (usize, usize) {
    let x = s.byte_range();
    (x.start, x.end)
}

fn norm(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

fn type_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p
            .path
            .segments
            .last()
            .map(|s| s.ident.to_string())
            .unwrap_or_default(),
        syn::Type::Reference(rf) => format!("&{}", type_name(&rf.elem)),
        t => norm(&t.to_token_stream().to_string()),
    }
}

/// Trait name plus the last-segment names of its generic type arguments.
fn trait_name(p: &syn::Path) -> String {
    let s = p.segments.last().unwrap();
    let mut n = s.ident.to_string();
    if let syn::PathArguments::AngleBracketed(a) = &s.arguments {
        let v: Vec<String> = a
            .args
            .iter()
            .filter_map(|x| match x {
                syn::GenericArgument::Type(t) => Some(type_name(t)),
                _ => None,
            })
            .collect();
        if !v.is_empty() {
            n.push('<');
            n.push_str(&v.join(","));
            n.push('>');
        }
    }
    n
}

fn has_attr(attrs: &[syn::Attribute], f: impl Fn(&syn::Attribute) -> bool) -> bool {
    attrs.iter().any(f)
}

fn is_test(attrs: &[syn::Attribute]) -> bool {
    has_attr(attrs, |a| {
        a.path().is_ident("test")
            || (a.path().is_ident("cfg")
                && norm(&a.meta.to_token_stream().to_string()).contains("cfg(test)"))
    })
}

const EXT_ROOTS: &[&str] = &["digest", "sha2", "hashbrown", "fuel_storage", "hex"];

impl<'a> Cx<'a> {
    fn edit(&mut self, a: usize, b: usize, pieces: Vec<Piece>) {
        self.seq += 1;
        let seq = self.seq;
        self.edits.push(Edit { a, b, seq, prio: 0, pieces });
    }
    fn ins(&mut self, at: usize, t: impl Into<String>) {
        self.edit(at, at, vec![Piece::T(t.into())]);
    }
    fn ins_first(&mut self, at: usize, t: impl Into<String>) {
        self.ins(at, t);
        self.edits.last_mut().unwrap().prio = -1;
    }
    fn del(&mut self, a: usize, b: usize) {
        self.edit(a, b, vec![]);
    }
    fn rep(&mut self, a: usize, b: usize, t: impl Into<String>) {
        self.edit(a, b, vec![Piece::T(t.into())]);
    }
    fn log(&mut self, s: impl Into<String>) {
        let s = format!("{}: {}", self.file, s.into());
        self.out.rewrites.push(s);
    }
    fn miss(&mut self, s: impl Into<String>) {
        self.out.missing.push(s.into());
    }

    fn attrs(&mut self, attrs: &[syn::Attribute], ty: Option<(&str, &syn::Generics, &syn::DeriveInput)>) {
        let mut derived: Option<BTreeSet<String>> = None;
        for a in attrs {
            let (x, y) = r(a.span());
            if a.path().is_ident("doc") {
                self.del(x, y);
            } else if a.path().is_ident("cfg_attr") {
                self.del(x, y);
            } else if a.path().is_ident("derive") {
                let set = derived.get_or_insert_with(BTreeSet::new);
                if let syn::Meta::List(l) = &a.meta {
                    for t in l.tokens.to_string().split(',') {
                        set.insert(norm(t));
                    }
                }
                self.del(x, y);
            } else if a.path().is_ident("allow")
                || a.path().is_ident("inline")
                || a.path().is_ident("must_use")
                || a.path().is_ident("deprecated")
            {
                self.del(x, y);
            }
        }
        if let (Some(set), Some((name, g, di))) = (derived, ty) {
            let start = r(di.span()).0;
            let mut keep = vec![];
            if set.contains("Debug") {
                keep.push("Debug");
            }
            if set.contains("Copy") {
                keep.push("Copy");
                if set.contains("Clone") {
                    keep.push("Clone");
                }
            }
            let over = self.specs.derive.get(name).cloned();
            if over.as_deref() != Some("noeq") && set.contains("PartialEq") && set.contains("Eq") {
                keep.push("PartialEq");
                keep.push("Eq");
                keep.push("Structural");
            }
            if !keep.is_empty() {
                self.ins(start, format!("#[derive({})] ", keep.join(", ")));
            }
            if set.contains("Clone") && !set.contains("Copy") {
                // derived Clone: assumed to return a structurally equal value
                let (ig, tg, _) = g.split_for_impl();
                let params: Vec<String> = g
                    .type_params()
                    .map(|p| format!("{}: Clone", p.ident))
                    .collect();
                let _ = ig;
                let wh = if params.is_empty() {
                    String::new()
                } else {
                    format!(" where {}", params.join(", "))
                };
                let ens = if g.type_params().count() == 0 {
                    "r == *self".to_string()
                } else {
                    let c: Vec<String> = g
                        .type_params()
                        .map(|p| format!("crate::vx_deps::clone_eq::<{}>()", p.ident))
                        .collect();
                    format!("({}) ==> r == *self", c.join(" && "))
                };
                let (gi, _, _) = g.split_for_impl();
                // what the derive expands to; a type that holds itself (through
                // a box) would be a cycle for the verifier and stays assumed
                let fields: Vec<&syn::Fields> = match &di.data {
                    syn::Data::Struct(s) => vec![&s.fields],
                    syn::Data::Enum(e) => e.variants.iter().map(|v| &v.fields).collect(),
                    syn::Data::Union(_) => vec![],
                };
                let selfref = fields.iter().any(|f| {
                    f.iter().any(|f| {
                        let s = format!(" {} ", f.ty.to_token_stream());
                        s.contains(&format!(" {name} ")) || s.contains(" Self ")
                    })
                });
                let shape = |path: &str, f: &syn::Fields| -> (String, String) {
                    match f {
                        syn::Fields::Unit => (path.to_string(), path.to_string()),
                        syn::Fields::Named(n) => {
                            let ns: Vec<String> = n.named.iter().map(|f| f.ident.as_ref().unwrap().to_string()).collect();
                            (
                                format!("{path} {{ {} }}", ns.iter().map(|n| format!("{n}: vx_c_{n}")).collect::<Vec<_>>().join(", ")),
                                format!("{path} {{ {} }}", ns.iter().map(|n| format!("{n}: vx_c_{n}.clone()")).collect::<Vec<_>>().join(", ")),
                            )
                        }
                        syn::Fields::Unnamed(u) => {
                            let ns: Vec<String> = (0..u.unnamed.len()).map(|i| format!("vx_c_{i}")).collect();
                            (
                                format!("{path}({})", ns.join(", ")),
                                format!("{path}({})", ns.iter().map(|n| format!("{n}.clone()")).collect::<Vec<_>>().join(", ")),
                            )
                        }
                    }
                };
                let arms: Vec<String> = match &di.data {
                    syn::Data::Struct(s) => vec![shape(name, &s.fields)],
                    syn::Data::Enum(e) => e.variants.iter().map(|v| shape(&format!("{name}::{}", v.ident), &v.fields)).collect(),
                    syn::Data::Union(_) => vec![],
                }
                .into_iter()
                .map(|(a, b)| format!("{a} => {b},"))
                .collect();
                let (at, body) = if selfref || arms.is_empty() {
                    ("#[verifier::external_body] ", "unimplemented!()".to_string())
                } else {
                    ("", format!("proof {{ crate::vx_deps::clone_hints(); }} match self {{ {} }}", arms.join(" ")))
                };
                let txt = format!(
                    "\nimpl{} Clone for {}{}{} {{ {at}fn clone(&self) -> (r: Self) ensures {} {{ {body} }} }}\n",
                    gi.to_token_stream(), name, tg.to_token_stream(), wh, ens
                );
                let e = r(di.span()).1;
                self.ins(e, txt);
                self.log(if at.is_empty() {
                    format!("derive(Clone) on {name} expanded (clone of every field), under a contract")
                } else {
                    format!("derive(Clone) on {name} replaced by an assumed contract (result equals the argument)")
                });
            }
            for d in &set {
                if !keep.contains(&d.as_str()) && d != "Clone" {
                    self.log(format!("derive({d}) on {name} dropped"));
                }
            }
        }
    }

    fn make_pub(&mut self, vis: &syn::Visibility, at: usize) {
        match vis {
            syn::Visibility::Inherited => self.ins(at, "pub "),
            syn::Visibility::Restricted(v) => {
                let (a, b) = r(v.span());
                self.rep(a, b, "pub");
            }
            _ => {}
        }
    }

    fn fields(&mut self, f: &syn::Fields) {
        for fd in f.iter() {
            for a in &fd.attrs {
                let (x, y) = r(a.span());
                self.del(x, y);
            }
            let at = match &fd.ident {
                Some(i) => r(i.span()).0,
                None => r(fd.ty.span()).0,
            };
            self.make_pub(&fd.vis, at);
        }
    }

    fn items(&mut self, items: &[syn::Item]) {
        for it in items {
            self.item(it);
        }
    }

    fn item_removed(&mut self, sp: Span, what: &str) {
        let (a, b) = r(sp);
        self.del(a, b);
        self.log(format!("{what} dropped"));
    }

    fn item(&mut self, it: &syn::Item) {
        match it {
            syn::Item::Mod(m) => {
                if is_test(&m.attrs) {
                    return self.item_removed(it.span(), &format!("#[cfg(test)] mod {}", m.ident));
                }
                self.attrs(&m.attrs, None);
                let name = m.ident.to_string();
                if let Some((_, its)) = &m.content {
                    self.make_pub(&m.vis, r(m.mod_token.span()).0);
                    let old = self.module.clone();
                    self.module = if old.is_empty() { name } else { format!("{old}::{name}") };
                    self.ins(r(its.first().map(|i| i.span()).unwrap_or(m.ident.span())).0, "");
                    self.items(its);
                    self.module = old;
                } else {
                    let (a, b) = r(it.span());
                    // replaced by the inlined module; main() substitutes the marker
                    self.rep(a, b, format!("/*VXMOD:{name}*/"));
                }
            }
            syn::Item::Use(u) => {
                if is_test(&u.attrs) {
                    return self.item_removed(it.span(), "test-only use");
                }
                self.attrs(&u.attrs, None);
                self.use_tree(&u.tree, true);
            }
            syn::Item::ExternCrate(_) => {
                let (a, b) = r(it.span());
                self.del(a, b);
            }
            syn::Item::Fn(f) => {
                if is_test(&f.attrs) {
                    return self.item_removed(it.span(), &format!("#[test] fn {}", f.sig.ident));
                }
                self.attrs(&f.attrs, None);
                let id = f.sig.ident.to_string();
                let (at, _) = sig_start(&f.sig);
                self.make_pub(&f.vis, at);
                self.func(&id, &f.sig, Some(&f.block), it.span(), false);
            }
            syn::Item::Struct(s) => {
                let di = syn::DeriveInput::from(s.clone());
                self.attrs(&s.attrs, Some((&s.ident.to_string(), &s.generics, &di)));
                self.make_pub(&s.vis, r(s.struct_token.span()).0);
                self.fields(&s.fields);
                self.item_end(&s.ident.to_string(), it.span());
            }
            syn::Item::Enum(e) => {
                let di = syn::DeriveInput::from(e.clone());
                self.attrs(&e.attrs, Some((&e.ident.to_string(), &e.generics, &di)));
                self.make_pub(&e.vis, r(e.enum_token.span()).0);
                for v in &e.variants {
                    for a in &v.attrs {
                        let (x, y) = r(a.span());
                        self.del(x, y);
                    }
                    if let Some((_, syn::Expr::Path(p))) = &v.discriminant {
                        let n = norm(&p.to_token_stream().to_string());
                        if let Some(c) = self.consts.get(&n).cloned() {
                            let (x, y) = r(p.span());
                            self.rep(x, y, c);
                            self.log(format!("discriminant constant {n} folded"));
                        }
                    }
                }
                self.item_end(&e.ident.to_string(), it.span());
            }
            syn::Item::Const(c) => {
                self.attrs(&c.attrs, None);
                self.make_pub(&c.vis, r(c.const_token.span()).0);
            }
            syn::Item::Type(t) => {
                self.attrs(&t.attrs, None);
                self.make_pub(&t.vis, r(t.type_token.span()).0);
            }
            syn::Item::Trait(t) => {
                self.attrs(&t.attrs, None);
                let name = t.ident.to_string();
                self.make_pub(&t.vis, r(t.trait_token.span()).0);
                let open = r(t.brace_token.span.open()).1;
                let key = format!("trait {}", name);
                if let Some(txt) = self.specs.find_block(&key, &self.module) {
                    self.out.used.insert(key);
                    self.ins(open, format!("\n{}\n", txt));
                }
                for i in &t.items {
                    if let syn::TraitItem::Fn(f) = i {
                        self.attrs(&f.attrs, None);
                        self.func(&format!("{}::{}", name, f.sig.ident), &f.sig, f.default.as_ref(), i.span(), true);
                    }
                }
                self.item_end(&name, it.span());
            }
            syn::Item::Impl(im) => {
                self.attrs(&im.attrs, None);
                let ty = type_name(&im.self_ty);
                let mut over: BTreeSet<String> = BTreeSet::new();
                let prefix = match &im.trait_ {
                    Some((_, p, _)) => {
                        let tn = trait_name(p);
                        if tn == "Debug" || tn == "Display" {
                            self.ins(r(im.impl_token.span()).0, "#[verifier::external] ");
                            for i in &im.items {
                                if let syn::ImplItem::Fn(f) = i {
                                    let (a, b) = r(f.block.span());
                                    self.rep(a + 1, b - 1, " unimplemented!() ");
                                }
                            }
                            self.log(format!("body of impl {tn} for {ty} dropped"));
                            return;
                        }
                        if tn == "Iterator" {
                            let (a, b) = r(p.span());
                            self.rep(a, b, "crate::vx_deps::VxIter");
                            self.log(format!("impl Iterator for {ty} extracted as impl of the stand-in trait VxIter (same next())"));
                            for i in &im.items {
                                let other = match i {
                                    syn::ImplItem::Fn(f) if f.sig.ident != "next" => f.sig.ident.to_string(),
                                    _ => continue,
                                };
                                let (a, b) = r(i.span());
                                self.del(a, b);
                                over.insert(other.clone());
                                self.miss(format!("{}::{ty}@Iterator::{other}: overrides what the iterator does by default", self.module));
                            }
                        }
                        format!("{ty}@{tn}")
                    }
                    None => ty.clone(),
                };
                self.bind_projections(&im.generics, &prefix);
                let key = format!("impl {}", prefix);
                let open = r(im.brace_token.span.open()).1;
                if im.trait_.is_some() {
                    if let Some(txt) = self.specs.find_block(&key, &self.module) {
                        self.out.used.insert(key);
                        self.ins(open, format!("\n{}\n", txt));
                    }
                }
                for i in &im.items {
                    if let syn::ImplItem::Fn(f) = i {
                        if over.contains(&f.sig.ident.to_string()) {
                            continue;
                        }
                        self.attrs(&f.attrs, None);
                        if im.trait_.is_none() {
                            self.make_pub(&f.vis, sig_start(&f.sig).0);
                        }
                        self.func(&format!("{}::{}", prefix, f.sig.ident), &f.sig, Some(&f.block), i.span(), false);
                    }
                }
            }
            _ => {}
        }
    }

    /// `where T: Mappable, T::A: Bounds` -> extra type parameter `VxA: Bounds` with
    /// `T: Mappable<A = VxA>`: the same constraint, stated so that Verus sees the
    /// bound on the normalized type.
    fn bind_projections(&mut self, g: &syn::Generics, id: &str) {
        let Some(w) = &g.where_clause else { return };
        let params: Vec<String> = g.type_params().map(|p| p.ident.to_string()).collect();
        let two = |t: &syn::Type| -> Option<(String, String)> {
            if let syn::Type::Path(p) = t {
                if p.qself.is_none() && p.path.segments.len() == 2 {
                    let a = p.path.segments[0].ident.to_string();
                    if params.contains(&a) {
                        return Some((a, p.path.segments[1].ident.to_string()));
                    }
                }
            }
            None
        };
        let mut proj: Vec<(String, String)> = vec![];
        let mut at: BTreeMap<String, usize> = BTreeMap::new();
        for p in &w.predicates {
            if let syn::WherePredicate::Type(t) = p {
                if let Some(x) = two(&t.bounded_ty) {
                    if !proj.contains(&x) {
                        proj.push(x);
                    }
                } else if let syn::Type::Path(q) = &t.bounded_ty {
                    if let (Some(i), 1) = (q.path.get_ident(), t.bounds.len()) {
                        if let syn::TypeParamBound::Trait(tb) = &t.bounds[0] {
                            let l = tb.path.segments.last().unwrap();
                            if l.ident == "Mappable" && l.arguments.is_none() {
                                at.insert(i.to_string(), r(l.ident.span()).1);
                            }
                        }
                    }
                }
            }
        }
        proj.retain(|(t, a)| at.contains_key(t) && a != "Key");
        if proj.is_empty() {
            return;
        }
        struct V<'a> {
            f: &'a dyn Fn(&syn::Type) -> Option<(String, String)>,
            v: Vec<(usize, usize, (String, String))>,
        }
        impl<'a, 'ast> Visit<'ast> for V<'a> {
            fn visit_type(&mut self, t: &'ast syn::Type) {
                if let Some(x) = (self.f)(t) {
                    let (a, b) = r(t.span());
                    self.v.push((a, b, x));
                }
                syn::visit::visit_type(self, t);
            }
        }
        let mut v = V { f: &two, v: vec![] };
        v.visit_where_clause(w);
        let hits = v.v;
        for (a, b, x) in hits {
            if proj.contains(&x) {
                self.rep(a, b, format!("Vx{}", x.1));
            }
        }
        for (t, p) in &at {
            let l: Vec<String> = proj.iter().filter(|x| &x.0 == t).map(|x| format!("{} = Vx{}", x.1, x.1)).collect();
            if !l.is_empty() {
                self.ins(*p, format!("<{}>", l.join(", ")));
            }
        }
        if let Some(gt) = &g.gt_token {
            let l: Vec<String> = proj.iter().map(|x| format!(", Vx{}", x.1)).collect();
            self.ins(r(gt.span()).0, l.join(""));
        }
        self.log(format!("{id}: bounds on associated types restated on extra type parameters"));
    }

    fn item_end(&mut self, name: &str, sp: Span) {
        let key = format!("item {name}");
        if let Some(txt) = self.specs.find_block(&key, &self.module) {
            self.out.used.insert(key);
            self.ins(r(sp).1, format!("\n{}\n", txt));
        }
        let key = format!("attr {name}");
        if let Some(txt) = self.specs.find_block(&key, &self.module) {
            self.out.used.insert(key);
            self.ins(r(sp).0, format!("\n{}\n", txt));
        }
        self.out.items.push(format!("{}::{}", self.module, name));
    }

    fn use_tree(&mut self, t: &syn::UseTree, root: bool) {
        if root {
            let id = match t {
                syn::UseTree::Path(p) => Some(&p.ident),
                syn::UseTree::Name(n) => Some(&n.ident),
                _ => None,
            };
            if let syn::UseTree::Path(p) = t {
                if let (true, syn::UseTree::Path(q)) = (p.ident == "alloc" || p.ident == "std", &*p.tree) {
                    if q.ident == "borrow" {
                        let (a, b) = (r(p.ident.span()).0, r(q.ident.span()).1);
                        self.rep(a, b, "crate::vx_deps::borrow");
                        self.log("use alloc::borrow:: redirected to the stand-in Cow");
                    }
                }
            }
            if let Some(i) = id {
                if EXT_ROOTS.contains(&i.to_string().as_str()) {
                    let (a, _) = r(i.span());
                    self.ins(a, "crate::vx_deps::");
                    self.log(format!("use {i}:: redirected to the stand-in with assumed contracts"));
                }
            }
        }
    }

    fn func(&mut self, id: &str, sig: &syn::Signature, body: Option<&syn::Block>, item: Span, in_trait: bool) {
        let full = if self.module.is_empty() { id.to_string() } else { format!("{}::{}", self.module, id) };
        let mut info = FnInfo {
            id: full.clone(),
            file: self.file.clone(),
            line: sig.ident.span().start().line,
            in_trait_decl: in_trait,
            ..Default::default()
        };
        let head = &self.src[r(item).0..r(sig.fn_token.span()).0];
        info.public = id.contains('@') || in_trait || head.contains("pub ");
        info.toks = {
            use std::hash::{Hash, Hasher};
            let mut h = std::collections::hash_map::DefaultHasher::new();
            sig.to_token_stream().to_string().hash(&mut h);
            body.map(|b| b.to_token_stream().to_string()).hash(&mut h);
            format!("{:016x}", h.finish())
        };
        // names: parameters and let-bound identifiers, in source order
        let mut nm = Names::default();
        for i in &sig.inputs {
            if let syn::FnArg::Typed(p) = i {
                nm.visit_pat(&p.pat);
            }
        }
        if let Some(b) = body {
            nm.visit_block(b);
        }
        info.names = nm.v.clone();
        let (st, _) = sig_start(sig);
        self.ins(st, format!("/*VX>{}*/ ", full));
        let end = match body {
            Some(b) => r(b.span()).1,
            None => r(sig.span()).1,
        };
        let spec = self.specs.find_fn(&full).cloned();
        let mut lv = Loops::default();
        if let Some(b) = body {
            lv.visit_block(b);
        }
        info.loops = lv.v.len();
        info.shape = lv.shape.clone();
        let stubbed = self.stub.contains(&full);
        if stubbed {
            self.ins_first(r(item).0, "#[verifier::external_body] ");
            info.external = true;
        }
        if let Some(sp) = &spec {
            self.out.used.insert(sp.key.clone());
            info.contract = sp.spec.is_some();
            let ren = rename_map(&sp.names, &info.names);
            let sub = |t: &str| substitute(t, &ren);
            if sp.external && !stubbed {
                self.ins_first(r(item).0, "#[verifier::external_body] ");
                info.external = true;
            }
            for a in &sp.attrs {
                self.ins_first(r(item).0, format!("{a} "));
            }
            if let (Some(ret), syn::ReturnType::Type(_, t)) = (&sp.ret, &sig.output) {
                let (a, b) = r(t.span());
                self.edit(a, b, vec![Piece::T(format!("({}: ", ret)), Piece::S(a, b), Piece::T(")".into())]);
            } else if sp.ret.is_some() && sp.spec.as_deref().unwrap_or("").contains(sp.ret.as_ref().unwrap().as_str()) {
                // unit-returning function: nothing to name
            }
            if let Some(s) = &sp.spec {
                let at = match body {
                    Some(b) => r(b.span()).0,
                    None => r(sig.span()).1,
                };
                self.ins(at, format!("\n{}\n", sub(s)));
            }
            if let (Some(b), false) = (body, info.external) {
                // loops
                for (k, txt) in &sp.loops {
                    match lv.v.get(k - 1) {
                        Some(l) => {
                            let mut txt = sub(txt);
                            if txt.contains("$ITER") {
                                txt = txt.replace("$ITER", "vx_iter");
                            }
                            if l.enumerated {
                                txt = txt.replacen("invariant", &format!("invariant {COUNTED}"), 1);
                            }
                            if let (Some(end), true) = (&l.from_zero, txt.contains("vx_iter")) {
                                txt = over_range(&txt, end);
                                self.miss(format!("{full}: loop {k} runs over a range, its invariant was written for elements"));
                            }
                            if let (Some((i, end)), true) = (&l.counter, ["vx_i", "vx_end"].iter().any(|w| word(&txt, w))) {
                                let m: HashMap<String, String> = [("vx_i".to_string(), i.clone()), ("vx_end".to_string(), format!("({end})"))].into();
                                txt = substitute(&txt, &m);
                                self.miss(format!("{full}: loop {k} counts by itself, its invariant was written for a range"));
                            }
                            self.ins(l.block.0, format!("\n{}\n", txt));
                        }
                        None => self.miss(format!("{full}: loop {k}")),
                    }
                }
                for (k, (n, kind)) in sp.loop_kinds.iter() {
                    let _ = n;
                    if let Some(l) = lv.v.get(k - 1) {
                        if &l.kind != kind {
                            self.miss(format!("{full}: loop {k} is a `{}` loop, expected `{}`", l.kind, kind));
                        }
                    }
                }
                for (i, l) in lv.v.iter().enumerate() {
                    if !sp.loops.contains_key(&(i + 1)) {
                        self.out.loops_without_spec.push(format!("{full}: loop {}", i + 1));
                    }
                    if l.enumerated && !sp.loops.contains_key(&(i + 1)) {
                        self.ins(l.block.0, format!("\ninvariant {COUNTED}\n"));
                    }
                    if l.kind == "for" && !l.desugared {
                        // name the ghost iterator so invariants can refer to it
                        self.ins(l.expr.0, "vx_iter: ");
                    }
                }
                let mut sv = Stmts { v: vec![], src: &self.src };
                sv.visit_block(b);
                let stmts: Vec<(usize, usize, String)> = sv.v;
                for at in &sp.ats {
                    let t = sub(&at.text);
                    let p = at.place.as_str();
                    if p == "start" {
                        self.ins(r(b.brace_token.span.open()).1, format!("\n{}\n", t));
                    } else if p == "end" {
                        match b.stmts.last() {
                            Some(syn::Stmt::Expr(e, None)) if sp.tail.is_some() => {
                                let (x, y) = r(e.span());
                                let n = sp.tail.clone().unwrap();
                                let n = n.trim();
                                self.edit(x, y, vec![Piece::T(format!("let {n} = ")), Piece::S(x, y), Piece::T(format!(";\n{}\n{}", t, n.split(':').next().unwrap()))]);
                            }
                            Some(syn::Stmt::Expr(e, None)) if !matches!(e, syn::Expr::Loop(_) | syn::Expr::While(_) | syn::Expr::ForLoop(_)) => {
                                let x = r(e.span()).0;
                                self.ins(x, format!("\n{}\n", t));
                            }
                            _ => {
                                let x = r(b.brace_token.span.close()).0;
                                self.ins(x, format!("\n{}\n", t));
                            }
                        }
                    } else if let Some(rest) = p.strip_prefix("loop ") {
                        let mut w = rest.split_whitespace();
                        let k: usize = w.next().unwrap().parse().unwrap();
                        let wh = w.next().unwrap();
                        match lv.v.get(k - 1) {
                            Some(l) => {
                                let pos = match wh {
                                    "start" => l.block.0 + 1,
                                    "end" => l.tail,
                                    "before" => l.whole.0,
                                    "after" => l.whole.1,
                                    _ => panic!("bad place {p}"),
                                };
                                // a loop body is of type (): its last expression can be a statement
                                let sep = if wh == "end" { l.sep } else { "" };
                                self.ins(pos, format!("{sep}\n{}\n", t));
                            }
                            None => self.miss(format!("{full}: {p}")),
                        }
                    } else if p.contains(' ') {
                        // alternatives are tried in order
                        let mut done = false;
                        for alt in p.split(" || ") {
                            let (dir, needle) = alt.trim().split_once(' ').unwrap();
                            let mut needle = sub(needle.trim());
                            let mut nth = 1;
                            if let Some((a, b)) = needle.clone().rsplit_once(" #") {
                                if let Ok(k) = b.trim().parse::<usize>() {
                                    nth = k;
                                    needle = a.to_string();
                                }
                            }
                            let nn = norm(&needle);
                            // innermost statements containing the needle
                            let hits: Vec<&(usize, usize, String)> = stmts
                                .iter()
                                .filter(|s| s.2.contains(&nn))
                                .filter(|s| !stmts.iter().any(|q| q.0 >= s.0 && q.1 <= s.1 && (q.0, q.1) != (s.0, s.1) && q.2.contains(&nn)))
                                .collect();
                            if let Some(h) = hits.get(nth - 1) {
                                let (x, y) = (h.0, h.1);
                                if dir == "before" {
                                    self.ins(x, format!("\n{}\n", t));
                                } else {
                                    self.ins(y, format!("\n{}\n", t));
                                }
                                done = true;
                                break;
                            }
                        }
                        if !done {
                            self.miss(format!("{full}: statement `{p}`"));
                        }
                    } else {
                        panic!("bad place {p}");
                    }
                }
            }
        } else if !in_trait || body.is_some() {
            // no contract: Verus still checks panics/overflow in it, callers know nothing
        }
        if let (Some(b), true) = (body, self.canary && info.contract && !info.external) {
            // reachability canary: must fail, or the precondition (or an axiom) is contradictory
            self.ins(r(b.brace_token.span.open()).1, " proof { assert(false); } ");
            info.canary = true;
        }
        if let (Some(b), false) = (body, info.external) {
            let mut d = Desugar { cx: self, fnid: full.clone(), closure: 0, spec: spec.clone() };
            d.visit_block(b);
            let n = d.closure;
            if let Some(sp) = &spec {
                for k in sp.closures.keys() {
                    if *k > n {
                        self.miss(format!("{full}: closure {k}"));
                    }
                }
            }
        }
        if info.external {
            // the body of a function outside the verifier's reach is not extracted
            if let Some(b) = body {
                let (x, y) = r(b.span());
                self.edits.retain(|e| !(e.a > x && e.b < y));
                self.rep(x + 1, y - 1, " unimplemented!() ");
            }
        }
        self.ins(end, format!(" /*VX<{}*/", full));
        self.out.fns.push(info);
    }

    fn render(&self, a: usize, b: usize) -> String {
        self.render_in(a, b, &[], false, false)
    }

    /// Render the source range [a,b] with every edit inside it applied, except
    /// the edits being rendered already (`anc`).  Insertions at the very ends
    /// are skipped when an enclosing level has emitted them.
    fn render_in(&self, a: usize, b: usize, anc: &[usize], skip_l: bool, skip_r: bool) -> String {
        let mut es: Vec<&Edit> = self
            .edits
            .iter()
            .filter(|e| e.a >= a && e.b <= b && !anc.contains(&e.seq))
            .filter(|e| !(e.a == e.b && ((skip_l && e.a == a) || (skip_r && e.a == b))))
            .collect();
        es.sort_by_key(|e| (e.a, if e.a == e.b { 0 } else { 1 }, std::cmp::Reverse(e.b), e.prio, e.seq));
        let mut o = String::new();
        let mut pos = a;
        for e in es {
            if e.a < pos {
                continue; // inside an already applied edit
            }
            o.push_str(&self.src[pos..e.a]);
            let mut anc2 = anc.to_vec();
            anc2.push(e.seq);
            for p in &e.pieces {
                match p {
                    Piece::T(t) => o.push_str(t),
                    Piece::S(x, y) => o.push_str(&self.render_in(*x, *y, &anc2, *x == e.a, *y == e.b)),
                }
            }
            pos = e.b;
        }
        o.push_str(&self.src[pos..b]);
        o
    }
}

fn sig_start(sig: &syn::Signature) -> (usize, usize) {
    let s = sig
        .constness
        .map(|x| x.span())
        .or(sig.asyncness.map(|x| x.span()))
        .or(sig.unsafety.map(|x| x.span()))
        .unwrap_or(sig.fn_token.span());
    r(s)
}

#[derive(Default)]
struct Names {
    v: Vec<String>,
}
impl<'ast> Visit<'ast> for Names {
    fn visit_pat_ident(&mut self, i: &'ast syn::PatIdent) {
        let s = i.ident.to_string();
        if !s.starts_with("vx_") && s.chars().next().map_or(false, |c| c.is_lowercase() || c == '_') {
            self.v.push(s);
        }
        syn::visit::visit_pat_ident(self, i);
    }
}

/// Map from the names the spec was written against to the current names: only
/// when the number of bound names is unchanged, for names that are gone and new ones.
fn rename_map(base: &[String], cur: &[String]) -> HashMap<String, String> {
    let mut m = HashMap::new();
    if base.len() == cur.len() {
        for (a, b) in base.iter().zip(cur) {
            if a != b && !cur.contains(a) && !base.contains(b) {
                m.insert(a.clone(), b.clone());
            }
        }
    }
    m
}

fn substitute(t: &str, m: &HashMap<String, String>) -> String {
    if m.is_empty() {
        return t.to_string();
    }
    let mut o = String::new();
    let cs: Vec<char> = t.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        let c = cs[i];
        if c.is_alphabetic() || c == '_' {
            let s = i;
            while i < cs.len() && (cs[i].is_alphanumeric() || cs[i] == '_') {
                i += 1;
            }
            let w: String = cs[s..i].iter().collect();
            // not a field or method name
            let prev = cs[..s].iter().rev().find(|c| !c.is_whitespace());
            let dotted = prev == Some(&'.') && !(s >= 2 && cs[s - 1] == '.' && cs[s - 2] == '.');
            match m.get(&w) {
                Some(x) if !dotted => o.push_str(x),
                _ => o.push_str(&w),
            }
        } else {
            o.push(c);
            i += 1;
        }
    }
    o
}

#[derive(Debug)]
struct LoopInfo {
    kind: String,
    whole: (usize, usize),
    block: (usize, usize),
    expr: (usize, usize),
    tail: usize,
    sep: &'static str,
    desugared: bool,
    enumerated: bool,
    /// the bound of a `for _ in 0..bound`
    from_zero: Option<String>,
    /// `while counter < bound`
    counter: Option<(String, String)>,
}
/// the counter of an `enumerate`d loop
const COUNTED: &str = "vx_iter.index@ <= usize::MAX ==> vx_n as int == vx_iter.index@,";

fn word(t: &str, w: &str) -> bool {
    t.split(|c: char| !(c.is_alphanumeric() || c == '_')).any(|x| x == w)
}

/// An invariant written for a loop over elements, for a loop over `0..n`: what is
/// said of the elements is left out, the number of steps done is the counter.
fn over_range(t: &str, end: &str) -> String {
    let simple = end.chars().all(|c| c.is_alphanumeric() || c == '_');
    let known = if simple { format!("vx_end == {end},") } else { String::new() };
    let t = t.replace("vx_iter.seq().len()", "(vx_end as int)").replace("vx_iter.index@", "(vx_i as int)");
    let t = t.lines()
        .map(|l| if l.contains("vx_iter.seq()") { if l.trim_start().starts_with("invariant") { "invariant" } else { "" } } else { l })
        .collect::<Vec<_>>()
        .join("\n");
    t.replacen("invariant", &format!("invariant vx_i <= vx_end, {known}"), 1)
}

#[derive(Default)]
struct Loops {
    v: Vec<LoopInfo>,
    shape: String,
}
fn blk(b: &syn::Block) -> ((usize, usize), usize, &'static str) {
    let x = r(b.span());
    let tail = match b.stmts.last() {
        Some(syn::Stmt::Expr(e @ (syn::Expr::Break(_) | syn::Expr::Continue(_) | syn::Expr::Return(_)), None)) => r(e.span()).0,
        _ => r(b.brace_token.span.close()).0,
    };
    let sep = match b.stmts.last() {
        Some(syn::Stmt::Expr(syn::Expr::Break(_) | syn::Expr::Continue(_) | syn::Expr::Return(_), None)) => "",
        Some(syn::Stmt::Expr(_, None)) => ";",
        _ => "",
    };
    (x, tail, sep)
}
impl<'ast> Visit<'ast> for Loops {
    fn visit_expr_loop(&mut self, l: &'ast syn::ExprLoop) {
        let (b, t, sep) = blk(&l.body);
        self.v.push(LoopInfo { kind: "loop".into(), whole: r(l.span()), block: b, expr: b, tail: t, sep, desugared: false, enumerated: false, from_zero: None, counter: None });
        self.shape.push_str("L(");
        syn::visit::visit_expr_loop(self, l);
        self.shape.push(')');
    }
    fn visit_expr_while(&mut self, l: &'ast syn::ExprWhile) {
        let (b, t, sep) = blk(&l.body);
        let counter = match &*l.cond {
            syn::Expr::Binary(x) => match x.op {
                syn::BinOp::Lt(_) => Some((&x.left, &x.right)),
                syn::BinOp::Gt(_) => Some((&x.right, &x.left)),
                _ => None,
            }
            .filter(|(a, _)| matches!(&***a, syn::Expr::Path(_)))
            .map(|(a, b)| (a.to_token_stream().to_string(), b.to_token_stream().to_string())),
            _ => None,
        };
        self.v.push(LoopInfo { kind: "while".into(), whole: r(l.span()), block: b, expr: r(l.cond.span()), tail: t, sep, desugared: false, enumerated: false, from_zero: None, counter });
        self.shape.push_str("W(");
        syn::visit::visit_expr_while(self, l);
        self.shape.push(')');
    }
    fn visit_expr_for_loop(&mut self, l: &'ast syn::ExprForLoop) {
        let (b, t, sep) = blk(&l.body);
        let d = by_ref_map(&l.expr).is_some() || half_open(&l.expr).is_some();
        self.v.push(LoopInfo { kind: "for".into(), whole: r(l.span()), block: b, expr: r(l.expr.span()), tail: t, sep, desugared: d || enumerated(l).is_some(), enumerated: enumerated(l).is_some(), from_zero: half_open(&l.expr).filter(|(a, _)| a.to_token_stream().to_string() == "0").map(|(_, e)| e.to_token_stream().to_string()), counter: None });
        self.shape.push_str("F(");
        syn::visit::visit_expr_for_loop(self, l);
        self.shape.push(')');
    }
}

struct Stmts<'s> {
    v: Vec<(usize, usize, String)>,
    src: &'s str,
}
impl<'ast, 's> Visit<'ast> for Stmts<'s> {
    fn visit_stmt(&mut self, s: &'ast syn::Stmt) {
        let (a, b) = r(s.span());
        // strip comments for matching
        self.v.push((a, b, norm(&strip_comments(&self.src[a..b]))));
        syn::visit::visit_stmt(self, s);
    }
}
fn strip_comments(s: &str) -> String {
    s.lines()
        .map(|l| match l.find("//") {
            Some(i) => &l[..i],
            None => l,
        })
        .collect::<Vec<_>>()
        .join("\n")
}

/// `A.by_ref().map(|P| E)` -> (A, P, E)
fn by_ref_map(e: &syn::Expr) -> Option<(&syn::Expr, &syn::Pat, &syn::Expr)> {
    if let syn::Expr::MethodCall(m) = e {
        if m.method == "map" && m.args.len() == 1 {
            if let (syn::Expr::MethodCall(b), syn::Expr::Closure(c)) = (&*m.receiver, &m.args[0]) {
                if b.method == "by_ref" && c.inputs.len() == 1 {
                    return Some((&b.receiver, &c.inputs[0], &c.body));
                }
            }
        }
    }
    None
}

/// `for (I, P) in E.enumerate()`
fn enumerated(l: &syn::ExprForLoop) -> Option<(&syn::Expr, &syn::Pat, &syn::Pat)> {
    match (&*l.expr, &*l.pat) {
        (syn::Expr::MethodCall(m), syn::Pat::Tuple(t)) if m.method == "enumerate" && m.args.is_empty() && t.elems.len() == 2 && l.label.is_none() => Some((&m.receiver, &t.elems[0], &t.elems[1])),
        _ => None,
    }
}

/// `A..B`
fn half_open(e: &syn::Expr) -> Option<(&syn::Expr, &syn::Expr)> {
    match e {
        syn::Expr::Range(x) => match (&x.start, &x.limits, &x.end) {
            (Some(a), syn::RangeLimits::HalfOpen(_), Some(b)) => Some((a, b)),
            _ => None,
        },
        syn::Expr::Paren(p) => half_open(&p.expr),
        _ => None,
    }
}

struct HasFlow(bool);
impl<'ast> Visit<'ast> for HasFlow {
    fn visit_expr_return(&mut self, _: &'ast syn::ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'ast syn::ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
}
fn has_flow(e: &syn::Expr) -> bool {
    let mut h = HasFlow(false);
    h.visit_expr(e);
    h.0
}

struct Desugar<'x, 'a> {
    cx: &'x mut Cx<'a>,
    fnid: String,
    closure: usize,
    spec: Option<FnSpec>,
}

fn is_ctor_path(e: &syn::Expr) -> bool {
    if let syn::Expr::Path(p) = e {
        if let Some(l) = p.path.segments.last() {
            return l.ident.to_string().chars().next().map_or(false, |c| c.is_uppercase());
        }
    }
    false
}

fn chain_has(e: &syn::Expr, names: &[&str]) -> bool {
    if let syn::Expr::MethodCall(m) = e {
        return names.contains(&m.method.to_string().as_str()) || chain_has(&m.receiver, names);
    }
    false
}

impl<'x, 'a> Desugar<'x, 'a> {
    /// Is this expression a `Result` (otherwise an `Option`)? A wrong guess does not
    /// type check, and the function is then left unverified.
    fn is_result(&self, e: &syn::Expr) -> bool {
        match e {
            syn::Expr::Paren(p) => self.is_result(&p.expr),
            syn::Expr::MethodCall(q) => {
                let n = q.method.to_string();
                let on = q.receiver.to_token_stream().to_string();
                match n.as_str() {
                    "try_into" | "map_err" | "ok_or" | "ok_or_else" => true,
                    "ok" | "err" => false,
                    "map" | "and_then" | "or_else" => self.is_result(&q.receiver),
                    "get" | "insert" | "remove" | "contains_key" if on.ends_with("storage") || on.ends_with("storage_mut ()") => true,
                    "get" | "insert" | "remove" | "first" | "last" | "pop" | "next" | "take" | "as_ref" | "as_mut" | "cloned" => false,
                    _ => self.cx.results.get(&n).copied().unwrap_or(false),
                }
            }
            syn::Expr::Call(c) => match &*c.func {
                syn::Expr::Path(p) => p.path.segments.last().map_or(false, |s| s.ident.to_string().ends_with("try_from") || self.cx.results.get(&s.ident.to_string()).copied().unwrap_or(false)),
                _ => false,
            },
            _ => false,
        }
    }
    /// pieces applying the function-valued expression `f` to the variable `v`
    fn apply(&self, f: &syn::Expr, v: &str) -> Option<Vec<Piece>> {
        match f {
            syn::Expr::Closure(c) if c.inputs.len() == 1 && !has_flow(&c.body) => {
                let (pa, pb) = match &c.inputs[0] {
                    syn::Pat::Type(t) => r(t.pat.span()),
                    p => r(p.span()),
                };
                let (ba, bb) = r(c.body.span());
                Some(vec![
                    Piece::T("{ let ".into()),
                    Piece::S(pa, pb),
                    Piece::T(format!(" = {v}; ")),
                    Piece::S(ba, bb),
                    Piece::T(" }".into()),
                ])
            }
            syn::Expr::Path(_) => {
                let (a, b) = r(f.span());
                Some(vec![Piece::S(a, b), Piece::T(format!("({v})"))])
            }
            _ => None,
        }
    }
    fn apply0(&self, f: &syn::Expr) -> Option<Vec<Piece>> {
        match f {
            syn::Expr::Closure(c) if c.inputs.is_empty() && !has_flow(&c.body) => {
                let (ba, bb) = r(c.body.span());
                Some(vec![Piece::S(ba, bb)])
            }
            _ => None,
        }
    }
}

impl<'x, 'a, 'ast> Visit<'ast> for Desugar<'x, 'a> {
    fn visit_expr_path(&mut self, p: &'ast syn::ExprPath) {
        if let Some(s) = p.path.segments.first() {
            let n = s.ident.to_string();
            if p.path.segments.len() > 1 && EXT_ROOTS.contains(&n.as_str()) {
                self.cx.ins(r(s.ident.span()).0, "crate::vx_deps::");
            }
        }
        syn::visit::visit_expr_path(self, p);
    }
    fn visit_expr_for_loop(&mut self, l: &'ast syn::ExprForLoop) {
        if let Some((a, q, e)) = by_ref_map(&l.expr) {
            // for P in A.by_ref().map(|Q| E) { B }
            //   ==> while let Some(vx_e) = A.next() { let P = { let Q = vx_e; E }; B }
            let (fa, _) = r(l.for_token.span());
            let ba = r(l.body.span()).0;
            self.cx.edit(
                fa,
                ba,
                vec![
                    Piece::T("while let Some(vx_e) = ".into()),
                    Piece::S(r(a.span()).0, r(a.span()).1),
                    Piece::T(".next() ".into()),
                ],
            );
            let (pa, pb) = r(l.pat.span());
            let (qa, qb) = r(q.span());
            let (ea, eb) = r(e.span());
            let open = ba + 1;
            self.cx.edit(
                open,
                open,
                vec![
                    Piece::T("let ".into()),
                    Piece::S(pa, pb),
                    Piece::T(" = { let ".into()),
                    Piece::S(qa, qb),
                    Piece::T(" = vx_e; ".into()),
                    Piece::S(ea, eb),
                    Piece::T(" };".into()),
                ],
            );
            self.cx.edits.last_mut().unwrap().prio = -1;
            self.cx.log(format!("{}: `for P in A.by_ref().map(|Q| E)` desugared to `while let Some(x) = A.next()`", self.fnid));
        }
        if let Some((e, i, p)) = enumerated(l) {
            // for (I, P) in E.enumerate() { S }
            //   ==> { let mut vx_n: usize = 0; for P in E { let I = vx_n; vx_n = vx_inc(vx_n); S } }
            let (fa, fb) = r(l.span());
            let ba = r(l.body.span()).0;
            let (ea, eb) = r(e.span());
            let (ia, ib) = r(i.span());
            let (pa, pb) = r(p.span());
            self.cx.edit(
                fa,
                ba,
                vec![
                    Piece::T("{ let mut vx_n: usize = 0; for ".into()),
                    Piece::S(pa, pb),
                    Piece::T(" in vx_iter: ".into()),
                    Piece::S(ea, eb),
                    Piece::T(" ".into()),
                ],
            );
            self.cx.edit(ba + 1, ba + 1, vec![Piece::T(" let ".into()), Piece::S(ia, ib), Piece::T(" = vx_n; vx_n = crate::vx_deps::vx_inc(vx_n); ".into())]);
            self.cx.edits.last_mut().unwrap().prio = -1;
            self.cx.ins(fb, " }");
            self.cx.log(format!("{}: `enumerate` written with a counter", self.fnid));
        }
        if let (Some((a, e)), None) = (half_open(&l.expr), &l.label) {
            // for P in A..B { S }  ==>  { let mut vx_i = A; let vx_end = B; while vx_i < vx_end { let P = vx_i; vx_i += 1; S } }
            let (fa, fb) = r(l.span());
            let ba = r(l.body.span()).0;
            self.cx.edit(
                fa,
                ba,
                vec![
                    Piece::T("{ let mut vx_i = ".into()),
                    Piece::S(r(a.span()).0, r(a.span()).1),
                    Piece::T("; let vx_end = ".into()),
                    Piece::S(r(e.span()).0, r(e.span()).1),
                    Piece::T("; while vx_i < vx_end ".into()),
                ],
            );
            let (pa, pb) = r(l.pat.span());
            let open = ba + 1;
            self.cx.edit(open, open, vec![Piece::T(" let ".into()), Piece::S(pa, pb), Piece::T(" = vx_i; vx_i += 1; ".into())]);
            self.cx.edits.last_mut().unwrap().prio = -1;
            self.cx.ins(fb, " }");
            self.cx.log(format!("{}: `for P in A..B` desugared to `while`", self.fnid));
        }
        syn::visit::visit_expr_for_loop(self, l);
    }
    fn visit_expr_closure(&mut self, c: &'ast syn::ExprClosure) {
        self.closure += 1;
        let k = self.closure;
        if let Some(sp) = &self.spec {
            if let Some(h) = sp.closures.get(&k) {
                let a = r(c.or1_token.span()).0;
                let b = r(c.body.span()).0;
                let body = r(c.body.span());
                let h = h.clone();
                self.cx.edit(a, body.1, vec![Piece::T(format!("{} {{ ", h)), Piece::S(b, body.1), Piece::T(" }".into())]);
            }
        }
        syn::visit::visit_expr_closure(self, c);
    }
    fn visit_expr_try(&mut self, t: &'ast syn::ExprTry) {
        // X.map(|Q| E).collect::<Result<Vec<_>, Err>>()?
        if let syn::Expr::MethodCall(col) = &*t.expr {
            if col.method == "collect" {
                if let (Some(tf), syn::Expr::MethodCall(mp)) = (&col.turbofish, &*col.receiver) {
                    let tfs = norm(&tf.to_token_stream().to_string());
                    if tfs.starts_with("::<Result<Vec<") && mp.method == "map" && mp.args.len() == 1 {
                        if let syn::Expr::Closure(c) = &mp.args[0] {
                            if c.inputs.len() == 1 {
                                let (xa, xb) = r(mp.receiver.span());
                                let (qa, qb) = r(c.inputs[0].span());
                                let (ea, eb) = r(c.body.span());
                                let (ta, tb) = r(t.span());
                                let inv = self
                                    .spec
                                    .as_ref()
                                    .and_then(|s| s.blocks.get("collect").cloned())
                                    .unwrap_or_default();
                                let pre = self.spec.as_ref().and_then(|s| s.blocks.get("collect-before").cloned()).unwrap_or_default();
                                let end = self.spec.as_ref().and_then(|s| s.blocks.get("collect-end").cloned()).unwrap_or_default();
                                let body = self.spec.as_ref().and_then(|s| s.blocks.get("collect-start").cloned()).unwrap_or_default();
                                let after = self.spec.as_ref().and_then(|s| s.blocks.get("collect-after").cloned()).unwrap_or_default();
                                let ety = match &tf.args[0] {
                                    syn::GenericArgument::Type(syn::Type::Path(p)) => match &p.path.segments.last().unwrap().arguments {
                                        syn::PathArguments::AngleBracketed(a) => a.args.iter().nth(1).map(|x| x.to_token_stream().to_string()),
                                        _ => None,
                                    },
                                    _ => None,
                                }
                                .unwrap_or("_".into());
                                self.cx.edit(
                                    ta,
                                    tb,
                                    vec![
                                        Piece::T("{ let mut vx_out = Vec::new(); let mut vx_it = ".into()),
                                        Piece::S(xa, xb),
                                        Piece::T(format!(";\n{pre}\nwhile let Some(vx_e) = vx_it.next() \n{inv}\n {{\n{body}\n let vx_y: Result<_, {ety}> = {{ let ")),
                                        Piece::S(qa, qb),
                                        Piece::T(" = vx_e; ".into()),
                                        Piece::S(ea, eb),
                                        Piece::T(format!(" }}; vx_out.push(vx_y?);\n{end}\n }}\n{after}\n vx_out }}")),
                                    ],
                                );
                                self.cx.log(format!("{}: `X.map(|Q| E).collect::<Result<Vec<_>, _>>()?` desugared to a loop with early return", self.fnid));
                            }
                        }
                    }
                }
            }
        }
        syn::visit::visit_expr_try(self, t);
    }
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        let name = m.method.to_string();
        let (ra, rb) = r(m.receiver.span());
        let (wa, wb) = r(m.span());
        match (name.as_str(), m.args.len()) {
            ("map_err", 1) => {
                if let Some(mut ap) = self.apply(&m.args[0], "vx_x") {
                    let mut p = vec![
                        Piece::T("(match ".into()),
                        Piece::S(ra, rb),
                        Piece::T(" { Ok(vx_v) => Ok(vx_v), Err(vx_x) => Err(".into()),
                    ];
                    p.append(&mut ap);
                    p.push(Piece::T(") })".into()));
                    self.cx.edit(wa, wb, p);
                    self.cx.log(format!("{}: `.map_err(f)` desugared to match", self.fnid));
                }
            }
            ("ok_or_else", 1) => {
                if let Some(mut ap) = self.apply0(&m.args[0]) {
                    let mut p = vec![
                        Piece::T("(match ".into()),
                        Piece::S(ra, rb),
                        Piece::T(" { Some(vx_v) => Ok(vx_v), None => Err(".into()),
                    ];
                    p.append(&mut ap);
                    p.push(Piece::T(") })".into()));
                    self.cx.edit(wa, wb, p);
                    self.cx.log(format!("{}: `.ok_or_else(f)` desugared to match", self.fnid));
                }
            }
            ("map", 1) | ("and_then", 1) => {
                let iter = chain_has(&m.receiver, &["by_ref", "as_path_iter", "iter", "into_iter", "chars", "bytes"]);
                let result = self.is_result(&m.receiver);
                if !iter {
                    if let Some(mut ap) = self.apply(&m.args[0], "vx_x") {
                        let (o, c) = if name == "and_then" { ("", "") } else if result { ("Ok(", ")") } else { ("Some(", ")") };
                        let mut p = vec![Piece::T("(match ".into()), Piece::S(ra, rb)];
                        if result {
                            p.push(Piece::T(format!(" {{ Err(vx_r) => Err(vx_r), Ok(vx_x) => {o}")));
                        } else {
                            p.push(Piece::T(format!(" {{ None => None, Some(vx_x) => {o}")));
                        }
                        p.append(&mut ap);
                        p.push(Piece::T(format!("{c} }})")));
                        self.cx.edit(wa, wb, p);
                        self.cx.log(format!("{}: `.{}(f)` on {} desugared to match", self.fnid, name, if result { "Result" } else { "Option" }));
                    }
                }
            }
            ("unwrap_or_else", 1) | ("or_else", 1) => {
                // no argument: Option; one argument: Result
                let (got, none) = if name == "or_else" { ("Some(vx_v)", "Ok(vx_v)") } else { ("vx_v", "vx_v") };
                let arm = match self.apply0(&m.args[0]) {
                    Some(ap) => Some((format!(" {{ Some(vx_v) => {got}, None => "), ap)),
                    None => match &m.args[0] {
                        syn::Expr::Closure(_) => self.apply(&m.args[0], "vx_x").map(|ap| (format!(" {{ Ok(vx_v) => {none}, Err(vx_x) => "), ap)),
                        _ => None,
                    },
                };
                if let Some((head, mut ap)) = arm {
                    let mut p = vec![Piece::T("(match ".into()), Piece::S(ra, rb), Piece::T(head)];
                    p.append(&mut ap);
                    p.push(Piece::T(" })".into()));
                    self.cx.edit(wa, wb, p);
                    self.cx.log(format!("{}: `.{name}(f)` desugared to match", self.fnid));
                }
            }
            ("is_some_and", 1) | ("is_none_or", 1) | ("is_ok_and", 1) => {
                if let Some(mut ap) = self.apply(&m.args[0], "vx_x") {
                    let head = match name.as_str() {
                        "is_some_and" => " { None => false, Some(vx_x) => ",
                        "is_none_or" => " { None => true, Some(vx_x) => ",
                        _ => " { Err(_) => false, Ok(vx_x) => ",
                    };
                    let mut p = vec![Piece::T("(match ".into()), Piece::S(ra, rb), Piece::T(head.into())];
                    p.append(&mut ap);
                    p.push(Piece::T(" })".into()));
                    self.cx.edit(wa, wb, p);
                    self.cx.log(format!("{}: `.{name}(f)` desugared to match", self.fnid));
                }
            }
            ("map_or", 2) => {
                let result = self.is_result(&m.receiver);
                if let Some(mut ap) = self.apply(&m.args[1], "vx_x") {
                    let (da, db) = r(m.args[0].span());
                    let head = if result { "; match vx_m { Err(_) => vx_d, Ok(vx_x) => " } else { "; match vx_m { None => vx_d, Some(vx_x) => " };
                    let mut p = vec![
                        Piece::T("({ let vx_m = ".into()),
                        Piece::S(ra, rb),
                        Piece::T("; let vx_d = ".into()),
                        Piece::S(da, db),
                        Piece::T(head.into()),
                    ];
                    p.append(&mut ap);
                    p.push(Piece::T(" } })".into()));
                    self.cx.edit(wa, wb, p);
                    self.cx.log(format!("{}: `.map_or(d, f)` desugared to match", self.fnid));
                }
            }
            ("map_or_else", 2) => {
                if let (Some(mut d), Some(mut ap)) = (self.apply0(&m.args[0]), self.apply(&m.args[1], "vx_x")) {
                    let mut p = vec![Piece::T("(match ".into()), Piece::S(ra, rb), Piece::T(" { None => ".into())];
                    p.append(&mut d);
                    p.push(Piece::T(", Some(vx_x) => ".into()));
                    p.append(&mut ap);
                    p.push(Piece::T(" })".into()));
                    self.cx.edit(wa, wb, p);
                    self.cx.log(format!("{}: `.map_or_else(d, f)` desugared to match", self.fnid));
                }
            }
            ("filter", 1) => {
                let iter = chain_has(&m.receiver, &["by_ref", "as_path_iter", "iter", "into_iter", "chars", "bytes"]);
                if !iter {
                    if let Some(mut ap) = self.apply(&m.args[0], "&vx_x") {
                        let mut p = vec![Piece::T("(match ".into()), Piece::S(ra, rb), Piece::T(" { None => None, Some(vx_x) => { let vx_b = ".into())];
                        p.append(&mut ap);
                        p.push(Piece::T("; if vx_b { Some(vx_x) } else { None } } })".into()));
                        self.cx.edit(wa, wb, p);
                        self.cx.log(format!("{}: `.filter(p)` on Option desugared to match", self.fnid));
                    }
                }
            }
            ("then", 1) => {
                if let Some(mut ap) = self.apply0(&m.args[0]) {
                    let mut p = vec![Piece::T("(if ".into()), Piece::S(ra, rb), Piece::T(" { Some(".into())];
                    p.append(&mut ap);
                    p.push(Piece::T(") } else { None })".into()));
                    self.cx.edit(wa, wb, p);
                    self.cx.log(format!("{}: `.then(f)` desugared to if", self.fnid));
                }
            }
            ("find", 1) => {
                if let syn::Expr::Closure(c) = &m.args[0] {
                    if c.inputs.len() == 1 && !has_flow(&c.body) {
                        let (qa, qb) = r(c.inputs[0].span());
                        let (ea, eb) = r(c.body.span());
                        let g = |k: &str| self.spec.as_ref().and_then(|s| s.blocks.get(k).cloned()).unwrap_or_default();
                        let (pre, inv, body, end, after) = (g("find-before"), g("find"), g("find-start"), g("find-end"), g("find-after"));
                        self.cx.edit(
                            wa,
                            wb,
                            vec![
                                Piece::T(format!("{{ let mut vx_found = None;\n{pre}\nwhile let Some(vx_c) = ")),
                                Piece::S(ra, rb),
                                Piece::T(format!(".next() \n{inv}\n {{\n{body}\n let vx_b = {{ let ")),
                                Piece::S(qa, qb),
                                Piece::T(" = &vx_c; ".into()),
                                Piece::S(ea, eb),
                                Piece::T(format!(" }}; if vx_b {{ vx_found = Some(vx_c); break; }}\n{end}\n }}\n{after}\n vx_found }}")),
                            ],
                        );
                        self.cx.log(format!("{}: `.find(p)` desugared to a loop over next()", self.fnid));
                    }
                }
            }
            ("to_be_bytes", 0) => {
                self.cx.edit(wa, wb, vec![Piece::T("crate::vx_deps::vx_to_be_bytes(".into()), Piece::S(ra, rb), Piece::T(")".into())]);
                self.cx.log(format!("{}: `.to_be_bytes()` redirected to the stand-in with an assumed contract", self.fnid));
            }
            ("unzip", 0) => {
                // X.into_iter().unzip() / X.unzip()
                let mut rr = (ra, rb);
                if let syn::Expr::MethodCall(q) = &*m.receiver {
                    if q.method == "into_iter" {
                        rr = r(q.receiver.span());
                    }
                }
                self.cx.edit(wa, wb, vec![Piece::T("crate::vx_deps::vx_unzip(".into()), Piece::S(rr.0, rr.1), Piece::T(")".into())]);
                self.cx.log(format!("{}: `.unzip()` replaced by the verified helper vx_unzip", self.fnid));
            }
            ("take", 1) => {
                if let syn::Expr::Call(c) = &*m.receiver {
                    let f = norm(&c.func.to_token_stream().to_string());
                    if (f == "iter::repeat" || f == "core::iter::repeat") && c.args.len() == 1 {
                        let (xa, xb) = r(c.args[0].span());
                        let (na, nb) = r(m.args[0].span());
                        self.cx.edit(
                            wa,
                            wb,
                            vec![Piece::T("crate::vx_deps::vx_repeat_take(".into()), Piece::S(xa, xb), Piece::T(", ".into()), Piece::S(na, nb), Piece::T(")".into())],
                        );
                        self.cx.log(format!("{}: `iter::repeat(x).take(n)` replaced by the verified helper vx_repeat_take (eager)", self.fnid));
                    }
                }
            }
            _ => {}
        }
        syn::visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_binary(&mut self, e: &'ast syn::ExprBinary) {
        let prim = ["u8", "u16", "u32", "u64", "usize", "i64"].iter().any(|t| self.fnid.contains(&format!("::{t}@")));
        if prim {
            for x in [&e.left, &e.right] {
                if norm(&x.to_token_stream().to_string()) == "self" {
                    self.cx.ins(r(x.span()).0, "*");
                    self.cx.log(format!("{}: `self` auto-dereferenced in a binary operation on a primitive", self.fnid));
                }
            }
        }
        syn::visit::visit_expr_binary(self, e);
    }
    fn visit_item_const(&mut self, c: &'ast syn::ItemConst) {
        // const X: T = [lit; N];  ==>  const X: T = [lit, lit, ..];
        if let syn::Expr::Repeat(x) = &*c.expr {
            if let (syn::Expr::Lit(v), syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Int(n), .. })) = (&*x.expr, &*x.len) {
                if let Ok(n) = n.base10_parse::<usize>() {
                    if n <= 64 {
                        let l = vec![v.to_token_stream().to_string(); n].join(", ");
                        let (a, b) = r(x.span());
                        self.cx.rep(a, b, format!("[{l}]"));
                        self.cx.log(format!("{}: constant `[x; {n}]` written out", self.fnid));
                    }
                }
            }
        }
        syn::visit::visit_item_const(self, c);
    }
    fn visit_expr_macro(&mut self, m: &'ast syn::ExprMacro) {
        self.mac(&m.mac);
    }
    fn visit_stmt_macro(&mut self, m: &'ast syn::StmtMacro) {
        self.mac(&m.mac);
    }
}

impl<'x, 'a> Desugar<'x, 'a> {
    /// assert!/debug_assert! -> a call of vx_assert, whose precondition is the
    /// asserted condition (so every assertion is an obligation).
    fn mac(&mut self, m: &syn::Macro) {
        let n = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        let n = n.strip_prefix("debug_").unwrap_or(&n).to_string();
        let op = match n.as_str() {
            "assert" => "",
            "assert_eq" => ") == (",
            "assert_ne" => ") != (",
            _ => return,
        };
        use syn::parse::Parser;
        let args = syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated;
        let Ok(args) = args.parse2(m.tokens.clone()) else { return };
        let need = if op.is_empty() { 1 } else { 2 };
        if args.len() < need {
            return;
        }
        let (pa, _) = r(m.path.span());
        let (x, y) = r(m.tokens.span());
        let (a0, a1) = r(args[0].span());
        if op.is_empty() {
            self.cx.rep(pa, a0, "crate::vx_deps::vx_assert(");
            // a message is dropped
            self.cx.rep(a1, y.max(a1), "");
        } else {
            let (b0, b1) = r(args[1].span());
            self.cx.rep(pa, a0, "crate::vx_deps::vx_assert((");
            self.cx.rep(a1, b0, op);
            self.cx.rep(b1, y.max(b1), ")");
        }
        let _ = x;
        self.cx.log(format!("{}: `{}!` becomes an obligation", self.fnid, n));
    }
}

fn mod_path(file_mod: &str, repo: &str) -> Option<String> {
    let p = format!("{repo}/src/{}.rs", file_mod.replace("::", "/"));
    if std::path::Path::new(&p).exists() {
        return Some(p);
    }
    let p = format!("{repo}/src/{}/mod.rs", file_mod.replace("::", "/"));
    if std::path::Path::new(&p).exists() {
        return Some(p);
    }
    None
}

fn emit(module: &str, repo: &str, specs: &Specs, keep: &[String], out: &mut Out, stub: &BTreeSet<String>, canary: bool) -> Result<String, String> {
    let path = if module.is_empty() { Some(format!("{repo}/src/lib.rs")) } else { mod_path(module, repo) };
    let path = path.ok_or(format!("module {module} has no file"))?;
    let src = std::fs::read_to_string(&path).map_err(|e| format!("{path}: {e}"))?;
    let (src, inlined) = if specs.base.is_empty() { (src, vec![]) } else { inline::inline(src, module, &|f: &str| specs.base.contains(f) || specs.fns.contains_key(f)) };
    let (src, conts) = cont::eliminate(src);
    let (src, forms) = forms::normalize(src);
    for l in inlined.into_iter().chain(conts).chain(forms) {
        out.rewrites.push(l);
    }
    let file = syn::parse_file(&src).map_err(|e| format!("{path}: {e}"))?;
    let rel = path.strip_prefix(&format!("{repo}/")).unwrap_or(&path).to_string();
    let n = src.len();
    let mut rets = Rets(HashMap::new());
    rets.visit_file(&file);
    let results = rets.0;
    let mut cx = Cx { src, file: rel, module: module.to_string(), edits: vec![], seq: 0, specs, out, stub, canary, consts: HashMap::new(), results };
    for it in &file.items {
        if let syn::Item::Const(c) = it {
            if let syn::Expr::Lit(l) = &*c.expr {
                cx.consts.insert(c.ident.to_string(), l.to_token_stream().to_string());
            }
        }
    }
    for a in &file.attrs {
        let (x, y) = r(a.span());
        cx.del(x, y);
    }
    cx.items(&file.items);
    let text = cx.render(0, n);
    // child modules follow the text of their parent
    let mut o = String::from("verus! {\n");
    let mut children = String::new();
    let mut rest = text.as_str();
    while let Some(i) = rest.find("/*VXMOD:") {
        o.push_str(&rest[..i]);
        let j = rest[i..].find("*/").unwrap() + i;
        let name = &rest[i + 8..j];
        let child = if module.is_empty() { name.to_string() } else { format!("{module}::{name}") };
        let wanted = keep.iter().any(|k| k == &child || k.starts_with(&format!("{child}::")) || child.starts_with(&format!("{k}::")));
        if wanted {
            let body = emit(&child, repo, specs, keep, cx.out, stub, canary)?;
            let extra = specs.module_items.get(&child).cloned().unwrap_or_default();
            let _ = write!(children, "\npub mod {name} {{\n#[allow(unused_imports)] use vstd::prelude::*;\n#[allow(unused_imports)] use crate::vx_deps::{{VxIter as _, VxSeq as _, VxPairs as _}};\n{}\nverus! {{\n{}\n}}\n}} // mod {child}\n", body, extra);
        }
        rest = &rest[j + 2..];
    }
    o.push_str(rest);
    o.push_str("\n} // verus!\n");
    o.push_str(&children);
    Ok(o)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).map(|i| args[i + 1].clone());
    let repo = get("--repo").unwrap_or("/repo".into());
    let specdir = get("--specs").unwrap_or("/verif/specs".into());
    let outp = get("--out").expect("--out");
    let keep: Vec<String> = get("--modules").expect("--modules").split(',').map(|s| s.to_string()).collect();
    let stub: BTreeSet<String> = get("--stub").unwrap_or_default().split('\t').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    let specfiles: Vec<String> = get("--spec-files").unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(|s| format!("{specdir}/{s}")).collect();
    let libs: Vec<String> = get("--libs").unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    let mut specs = Specs::default();
    for f in &specfiles {
        specs.load(f);
    }
    if let Some(b) = get("--baseline") {
        specs.load_names(&b);
    }
    let mut out = Out::default();
    let body = match emit("", &repo, &specs, &keep, &mut out, &stub, std::env::args().any(|a| a == "--canary")) {
        Ok(b) => b,
        Err(e) => {
            eprintln!("vx: {e}");
            std::process::exit(3);
        }
    };
    let mut o = String::new();
    o.push_str("#![allow(warnings)]\n#![feature(sized_hierarchy)]\n#![verifier::exec_allows_no_decreases_clause]\n#![verifier::loop_isolation(false)]\n#![verifier::allow_complex_invariants]\nextern crate alloc;\nuse vstd::prelude::*;\n");
    for l in &libs {
        let t = std::fs::read_to_string(format!("{specdir}/{l}.rs")).unwrap();
        let _ = write!(o, "pub mod {l} {{\n#[allow(unused_imports)] use vstd::prelude::*;\nverus! {{\n{t}\n}}\n}} // mod {l}\n");
    }
    o.push_str(&body);
    o.push_str("\nfn main() {}\n");
    // function line ranges
    let mut ranges: BTreeMap<String, (usize, usize)> = BTreeMap::new();
    for (i, l) in o.lines().enumerate() {
        let mut rest = l;
        while let Some(k) = rest.find("/*VX") {
            let e = rest[k..].find("*/").map(|x| x + k).unwrap_or(rest.len());
            let m = &rest[k + 4..e];
            if let Some(id) = m.strip_prefix('>') {
                ranges.entry(id.to_string()).or_insert((i + 1, i + 1)).0 = i + 1;
            } else if let Some(id) = m.strip_prefix('<') {
                if let Some(x) = ranges.get_mut(id) {
                    x.1 = i + 1;
                }
            }
            rest = &rest[e.min(rest.len())..];
            if rest.is_empty() {
                break;
            }
        }
    }
    for k in specs.keys_for(&keep) {
        if !out.used.contains(&k) {
            out.missing.push(format!("spec target `{k}` not found in the source"));
        }
    }
    std::fs::write(&outp, &o).unwrap();
    let mut j = String::from("{\n \"fns\": [\n");
    for (i, f) in out.fns.iter().enumerate() {
        let rg = ranges.get(&f.id).cloned().unwrap_or((0, 0));
        let names: Vec<String> = f.names.iter().map(|n| json_str(n)).collect();
        let _ = write!(
            j,
            "  {{\"id\": {}, \"file\": {}, \"line\": {}, \"contract\": {}, \"external\": {}, \"loops\": {}, \"shape\": {}, \"trait_decl\": {}, \"canary\": {}, \"public\": {}, \"toks\": {}, \"out\": [{}, {}], \"names\": [{}]}}{}\n",
            json_str(&f.id), json_str(&f.file), f.line, f.contract, f.external, f.loops, json_str(&f.shape), f.in_trait_decl, f.canary, f.public, json_str(&f.toks), rg.0, rg.1, names.join(", "),
            if i + 1 < out.fns.len() { "," } else { "" }
        );
    }
    let arr = |v: &Vec<String>| v.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", ");
    let _ = write!(j, " ],\n \"missing\": [{}],\n \"loops_without_spec\": [{}],\n \"rewrites\": [{}]\n}}\n", arr(&out.missing), arr(&out.loops_without_spec), arr(&out.rewrites));
    std::fs::write(format!("{outp}.map.json"), j).unwrap();
    let _ = LineColumn { line: 0, column: 0 };
}
