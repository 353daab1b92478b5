//! Inlining of helpers the contracts do not know.
//!
//! A private function that is neither under contract nor part of the baseline
//! (somebody extracted it) hides its behaviour from its callers.  Its calls in
//! the same file are replaced by its body: `f(A, B)` becomes
//! `({ let p = A; let q = B; BODY })`, when BODY cannot leave the block in
//! another way, or the call stands where leaving it means the same (a returned
//! expression, or `f(..)?` for a function of the same error type).
use crate::{is_test, norm, r, type_name, trait_name};
use quote::ToTokens;
use std::collections::BTreeSet;
use syn::spanned::Spanned;
use syn::visit::Visit;

#[derive(Clone)]
struct Cand {
    name: String,
    full: String,
    module: String,
    /// self type of the impl (None: free function)
    ty: Option<String>,
    ty_generic: bool,
    recv: Option<&'static str>, // "", "&", "&mut "
    params: Vec<(String, Option<String>, Option<String>)>, // pattern, plain identifier, type annotation
    ret: String,
    body: syn::Block,
    item: (usize, usize),
    private: bool,
}

#[derive(Clone)]
struct Host {
    module: String,
    ty: Option<String>,
    ret: String,
    recv: Option<&'static str>,
    name: String,
    block: syn::Block,
}

fn recv_kind(sig: &syn::Signature) -> Option<&'static str> {
    match sig.receiver() {
        Some(rc) if rc.reference.is_some() && rc.mutability.is_some() => Some("&mut "),
        Some(rc) if rc.reference.is_some() => Some("&"),
        Some(_) => Some(""),
        None => None,
    }
}

pub fn tokens_mention(t: proc_macro2::TokenStream, names: &[String]) -> bool {
    t.into_iter().any(|x| match x {
        proc_macro2::TokenTree::Ident(i) => names.contains(&i.to_string()),
        proc_macro2::TokenTree::Group(g) => tokens_mention(g.stream(), names),
        _ => false,
    })
}

pub fn ident_spans(t: proc_macro2::TokenStream, name: &str, out: &mut Vec<(usize, usize)>) {
    for x in t {
        match x {
            proc_macro2::TokenTree::Ident(i) if i == name => out.push(r(i.span())),
            proc_macro2::TokenTree::Group(g) => ident_spans(g.stream(), name, out),
            _ => {}
        }
    }
}

/// `return`s and `?`s outside closures
#[derive(Default)]
struct Flow {
    rets: Vec<Option<String>>,
    tries: usize,
    other: bool,
}
impl<'ast> Visit<'ast> for Flow {
    fn visit_expr_return(&mut self, e: &'ast syn::ExprReturn) {
        self.rets.push(e.expr.as_ref().map(|x| norm(&x.to_token_stream().to_string())));
        syn::visit::visit_expr_return(self, e);
    }
    fn visit_expr_try(&mut self, e: &'ast syn::ExprTry) {
        self.tries += 1;
        syn::visit::visit_expr_try(self, e);
    }
    fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
    fn visit_item(&mut self, _: &'ast syn::Item) {
        self.other = true;
    }
}
fn flow_block(b: &syn::Block) -> Flow {
    let mut f = Flow::default();
    f.visit_block(b);
    f
}
fn flow_stmts(b: &[syn::Stmt]) -> Flow {
    let mut f = Flow::default();
    for s in b {
        f.visit_stmt(s);
    }
    f
}
fn no_flow(f: &Flow) -> bool {
    f.rets.is_empty() && f.tries == 0 && !f.other
}

/// `X?` (whole, X) and `return Err(X)` (whole, X), outermost first
#[derive(Default)]
struct Tries {
    v: Vec<((usize, usize), (usize, usize), bool)>,
}
impl<'ast> Visit<'ast> for Tries {
    fn visit_expr_try(&mut self, e: &'ast syn::ExprTry) {
        self.v.push((r(e.span()), r(e.expr.span()), true));
        syn::visit::visit_expr_try(self, e);
    }
    fn visit_expr_return(&mut self, e: &'ast syn::ExprReturn) {
        if let Some(syn::Expr::Call(c)) = e.expr.as_deref() {
            if c.args.len() == 1 {
                self.v.push((r(e.span()), r(c.args[0].span()), false));
            }
        }
        syn::visit::visit_expr_return(self, e);
    }
    fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
}
impl Tries {
    fn render(&self, src: &str, a: usize, b: usize, e: &str) -> String {
        let mut o = String::new();
        let mut pos = a;
        for (w, x, q) in &self.v {
            if w.0 < pos || w.1 > b {
                continue;
            }
            o.push_str(&src[pos..w.0]);
            let t = self.render(src, x.0, x.1, e);
            if *q {
                o.push_str(&format!("(match {t} {{ Ok(vx_v) => vx_v, Err(vx_e) => {{ let vx_e: {e} = From::from(vx_e); return Err(From::from(vx_e)); }} }})"));
            } else {
                o.push_str(&format!("return Err(From::from({t}))"));
            }
            pos = w.1;
        }
        o.push_str(&src[pos..b]);
        o
    }
}

fn text(src: &str, s: proc_macro2::Span) -> String {
    let (a, b) = r(s);
    src[a..b].to_string()
}

/// The statements as an expression that is their value, with guard clauses
/// `if c { ..; return a; } rest` written `if c { ..; a } else { rest }`.
fn flat(src: &str, st: &[syn::Stmt]) -> Option<String> {
    let mut o = String::new();
    for (i, s) in st.iter().enumerate() {
        let one = flow_stmts(std::slice::from_ref(s));
        if no_flow(&one) {
            o.push_str(&text(src, s.span()));
            o.push('\n');
            continue;
        }
        match s {
            syn::Stmt::Expr(syn::Expr::Return(x), _) => {
                if i + 1 != st.len() {
                    return None;
                }
                if let Some(e) = &x.expr {
                    let mut f = Flow::default();
                    f.visit_expr(e);
                    if !no_flow(&f) {
                        return None;
                    }
                    o.push_str(&text(src, e.span()));
                }
                return Some(o);
            }
            syn::Stmt::Expr(syn::Expr::If(x), _) => {
                let mut f = Flow::default();
                f.visit_expr(&x.cond);
                if !no_flow(&f) {
                    return None;
                }
                let last = i + 1 == st.len();
                let returns = |b: &syn::Block| matches!(b.stmts.last(), Some(syn::Stmt::Expr(syn::Expr::Return(_), _)));
                let then = flat(src, &x.then_branch.stmts)?;
                match &x.else_branch {
                    None if returns(&x.then_branch) => {
                        let rest = flat(src, &st[i + 1..])?;
                        o.push_str(&format!("if {} {{ {} }} else {{ {} }}", text(src, x.cond.span()), then, rest));
                        return Some(o);
                    }
                    Some((_, e)) if last => {
                        let els = match &**e {
                            syn::Expr::Block(b) => flat(src, &b.block.stmts)?,
                            _ => return None,
                        };
                        o.push_str(&format!("if {} {{ {} }} else {{ {} }}", text(src, x.cond.span()), then, els));
                        return Some(o);
                    }
                    _ => return None,
                }
            }
            _ => return None,
        }
    }
    Some(o)
}

/// the error side of a `Result`/`Option` type
fn err_of(t: &str) -> Option<String> {
    if t.starts_with("Option<") {
        return Some("Option".into());
    }
    let inner = t.strip_prefix("Result<")?.strip_suffix('>')?;
    let (mut d, mut cut) = (0i32, None);
    for (i, c) in inner.char_indices() {
        match c {
            '<' | '(' | '[' => d += 1,
            '>' | ')' | ']' => d -= 1,
            ',' if d == 0 => cut = Some(i),
            _ => {}
        }
    }
    cut.map(|i| format!("Result {}", &inner[i + 1..]))
}

struct Collect<'a> {
    known: &'a dyn Fn(&str) -> bool,
    module: String,
    cands: Vec<Cand>,
    hosts: Vec<Host>,
}
impl<'a> Collect<'a> {
    fn items(&mut self, items: &[syn::Item]) {
        for it in items {
            match it {
                syn::Item::Mod(m) if !is_test(&m.attrs) => {
                    if let Some((_, its)) = &m.content {
                        let old = self.module.clone();
                        self.module = if old.is_empty() { m.ident.to_string() } else { format!("{old}::{}", m.ident) };
                        self.items(its);
                        self.module = old;
                    }
                }
                syn::Item::Fn(f) if !is_test(&f.attrs) => {
                    self.func(&f.sig, &f.block, &f.vis, r(it.span()), None, None, f.sig.ident.to_string())
                }
                syn::Item::Impl(im) => {
                    let ty = type_name(&im.self_ty);
                    let prefix = match &im.trait_ {
                        Some((_, p, _)) => format!("{ty}@{}", trait_name(p)),
                        None => ty.clone(),
                    };
                    for i in &im.items {
                        if let syn::ImplItem::Fn(f) = i {
                            self.func(&f.sig, &f.block, &f.vis, r(i.span()), Some(im), Some(ty.clone()), format!("{prefix}::{}", f.sig.ident));
                        }
                    }
                }
                syn::Item::Trait(t) => {
                    for i in &t.items {
                        if let syn::TraitItem::Fn(f) = i {
                            if let Some(b) = &f.default {
                                self.hosts.push(Host { module: self.module.clone(), ty: None, ret: ret_text(&f.sig), recv: recv_kind(&f.sig), name: f.sig.ident.to_string(), block: b.clone() });
                            }
                        }
                    }
                }
                _ => {}
            }
        }
    }
    fn func(&mut self, sig: &syn::Signature, block: &syn::Block, vis: &syn::Visibility, item: (usize, usize), im: Option<&syn::ItemImpl>, ty: Option<String>, id: String) {
        let full = if self.module.is_empty() { id.clone() } else { format!("{}::{}", self.module, id) };
        self.hosts.push(Host { module: self.module.clone(), ty: ty.clone(), ret: ret_text(sig), recv: recv_kind(sig), name: full.clone(), block: block.clone() });
        if (self.known)(&full) || im.map_or(false, |i| i.trait_.is_some()) {
            return;
        }
        let name = sig.ident.to_string();
        let mut own: Vec<String> = sig.generics.type_params().map(|p| p.ident.to_string()).collect();
        own.extend(sig.generics.const_params().map(|p| p.ident.to_string()));
        let bt = block.to_token_stream();
        // recursive, generic in the body, or made of things a block cannot hold
        if tokens_mention(bt.clone(), &[name.clone()]) || (!own.is_empty() && tokens_mention(bt, &own)) || flow_block(block).other {
            return;
        }
        if sig.asyncness.is_some() || sig.unsafety.is_some() {
            return;
        }
        let mut params = vec![];
        for a in &sig.inputs {
            if let syn::FnArg::Typed(p) = a {
                let plain = match &*p.pat {
                    syn::Pat::Ident(i) if i.mutability.is_none() && i.by_ref.is_none() && i.subpat.is_none() => Some(i.ident.to_string()),
                    _ => None,
                };
                let t = p.ty.to_token_stream();
                let s = t.to_string();
                let ann = if s.contains('\'') || s.contains("impl ") || tokens_mention(t, &own) { None } else { Some(s) };
                params.push((p.pat.to_token_stream().to_string(), plain, ann));
            }
        }
        self.cands.push(Cand {
            name,
            full,
            module: self.module.clone(),
            ty,
            ty_generic: im.map_or(false, |i| !i.generics.params.is_empty()),
            recv: recv_kind(sig),
            params,
            ret: ret_text(sig),
            body: block.clone(),
            item,
            private: matches!(vis, syn::Visibility::Inherited),
        });
    }
}
fn ret_text(sig: &syn::Signature) -> String {
    match &sig.output {
        syn::ReturnType::Default => "()".into(),
        syn::ReturnType::Type(_, t) => norm(&t.to_token_stream().to_string()),
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Ctx {
    Plain,
    Try,
    Ret,
}

struct Find<'a> {
    cands: &'a [Cand],
    host: &'a Host,
    src: &'a str,
    hit: Option<(usize, usize, String)>,
    n: usize,
    /// calls that are whole statements `f(..);` or `f(..)?;`
    stmts: Vec<(usize, usize)>,
    /// expressions in returning position of the function (their spans)
    tails: Vec<(usize, usize)>,
    in_closure: bool,
}
impl<'a> Find<'a> {
    fn candidate<'e>(&self, e: &'e syn::Expr) -> Option<(Cand, Vec<&'e syn::Expr>, Option<syn::Expr>)> {
        match e {
            syn::Expr::Call(c) => {
                let syn::Expr::Path(p) = &*c.func else { return None };
                if p.qself.is_some() || p.path.segments.iter().any(|s| !s.arguments.is_none()) {
                    return None;
                }
                let seg: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let k = self.cands.iter().find(|k| {
                    k.module == self.host.module
                        && match (&k.ty, seg.len()) {
                            (None, 1) => seg[0] == k.name,
                            (None, 2) => seg[0] == "self" && seg[1] == k.name,
                            (Some(t), 2) => seg[1] == k.name && (&seg[0] == t || (seg[0] == "Self" && self.host.ty.as_ref() == Some(t))),
                            _ => false,
                        }
                })?;
                let mut args: Vec<syn::Expr> = c.args.iter().cloned().collect();
                let mut recv = None;
                if k.recv.is_some() {
                    // T::f(x, ..): x is already of the receiver's kind
                    if k.recv != Some("") {
                        return None;
                    }
                    if args.is_empty() {
                        return None;
                    }
                    recv = Some(args.remove(0));
                }
                if args.len() != k.params.len() {
                    return None;
                }
                Some((k.clone(), c.args.iter().skip(k.recv.is_some() as usize).collect(), recv))
            }
            syn::Expr::MethodCall(m) if m.turbofish.is_none() => {
                let k = self.cands.iter().find(|k| {
                    k.name == m.method.to_string() && k.recv.is_some() && k.params.len() == m.args.len() && k.module == self.host.module
                })?;
                Some((k.clone(), m.args.iter().collect(), Some((*m.receiver).clone())))
            }
            _ => None,
        }
    }

    fn try_at(&mut self, e: &syn::Expr, ctx: Ctx, whole: (usize, usize)) {
        if self.hit.is_some() {
            return;
        }
        let Some((k, args, recv)) = self.candidate(e) else { return };
        if k.full == self.host.name {
            return;
        }
        let f = flow_block(&k.body);
        // the body, as text, in a form that can stand here
        let body = if no_flow(&f) {
            text_block(self.src, &k.body)
        } else if let Some(t) = flat(self.src, &k.body.stmts) {
            t
        } else if self.in_closure {
            return;
        } else if ctx == Ctx::Ret && k.ret == self.host.ret {
            text_block(self.src, &k.body)
        } else if ctx == Ctx::Try {
            // other error type: `X?` in the body becomes an explicit conversion to the
            // helper's error and then to the caller's
            let mut conv: Option<String> = None;
            match (err_of(&k.ret), err_of(&self.host.ret)) {
                (Some(a), Some(b)) if a == b => {}
                (Some(a), Some(b)) if a.starts_with("Result ") && b.starts_with("Result ") && (!k.ty_generic || self.host.ty == k.ty) => {
                    conv = Some(a["Result ".len()..].to_string());
                }
                _ => return,
            }
            let bad = |x: &Option<String>| !matches!(x, Some(t) if t.starts_with("Err(") || t == "None");
            if f.rets.iter().any(bad) {
                return;
            }
            let n = k.body.stmts.len();
            if n == 0 {
                return;
            }
            let (Some(syn::Stmt::Expr(tail, None)), head) = (k.body.stmts.last(), &k.body.stmts[..n - 1]) else { return };
            let mut tr = Tries::default();
            if conv.is_some() {
                tr.visit_block(&k.body);
            }
            let q = |a: usize, b: usize| match &conv {
                None => self.src[a..b].to_string(),
                Some(e) => tr.render(self.src, a, b, e),
            };
            let mut t: String = head.iter().map(|s| q(r(s.span()).0, r(s.span()).1) + "\n").collect();
            match tail {
                syn::Expr::Call(c) if matches!(norm(&c.func.to_token_stream().to_string()).as_str(), "Ok" | "Some") && c.args.len() == 1 => {
                    let (a, b) = r(c.args[0].span());
                    t.push_str(&q(a, b))
                }
                _ => {
                    let (a, b) = r(tail.span());
                    t.push_str(&format!("({})?", q(a, b)))
                }
            }
            self.emit(&k, args, recv, t, (whole, true));
            return;
        } else {
            return;
        };
        self.emit(&k, args, recv, body, (r(e.span()), false));
    }

    fn emit(&mut self, k: &Cand, args: Vec<&syn::Expr>, recv: Option<syn::Expr>, body: String, at: ((usize, usize), bool)) {
        let same = self.host.ty.is_some() && self.host.ty == k.ty;
        // parse the body text once more to find `self` and `Self` in it
        let Ok(ts) = body.parse::<proc_macro2::TokenStream>() else { return };
        let mut edits: Vec<(usize, usize, String)> = vec![];
        let n = self.n;
        let (mut pre1, mut pre2) = (String::new(), String::new());
        if let Some(t) = &k.ty {
            if !same {
                let mut v = vec![];
                ident_spans(ts.clone(), "Self", &mut v);
                if !v.is_empty() {
                    if k.ty_generic {
                        return;
                    }
                    edits.extend(v.into_iter().map(|(a, b)| (a, b, t.clone())));
                }
            }
        }
        if let (Some(kind), Some(rc)) = (k.recv, &recv) {
            let is_self = norm(&rc.to_token_stream().to_string()) == "self";
            if !(is_self && same && self.host.recv == Some(kind)) {
                let ann = if same {
                    format!(": {kind}Self")
                } else if !k.ty_generic {
                    format!(": {kind}{}", k.ty.clone().unwrap_or_default())
                } else {
                    String::new()
                };
                pre1.push_str(&format!("let vx_s{n}{ann} = {kind}({}); ", text(self.src, rc.span())));
                let mut v = vec![];
                ident_spans(ts, "self", &mut v);
                edits.extend(v.into_iter().map(|(a, b)| (a, b, format!("vx_s{n}"))));
            }
        }
        for (i, (a, (pat, plain, ann))) in args.iter().zip(&k.params).enumerate() {
            let at = text(self.src, a.span());
            if plain.as_deref() == Some(at.as_str()) {
                continue;
            }
            let t = ann.as_ref().map(|t| format!(": {t}")).unwrap_or_default();
            pre1.push_str(&format!("let vx_a{n}_{i}{t} = {at}; "));
            pre2.push_str(&format!("let {pat}{t} = vx_a{n}_{i}; "));
        }
        edits.sort();
        let mut b = String::new();
        let mut pos = 0;
        for (x, y, t) in edits {
            if x < pos || y > body.len() {
                return;
            }
            b.push_str(&body[pos..x]);
            b.push_str(&t);
            pos = y;
        }
        b.push_str(&body[pos..]);
        let ((a, z), _) = at;
        // `f(..);` without parameters to bind and without a name of its own that the
        // caller uses: its statements stand where the call stood
        if self.stmts.contains(&(a, z)) && pre1.is_empty() {
            let mut nm = crate::Names::default();
            nm.visit_block(&k.body);
            if !tokens_mention(self.host.block.to_token_stream(), &nm.v) {
                let t = b.trim_end();
                let t = t.strip_suffix("()").unwrap_or(t);
                self.hit = Some((a, z, t.to_string()));
                return;
            }
        }
        self.hit = Some((a, z, format!("({{ {pre1}{pre2}{{ {b} }} }})")));
    }
}
fn text_block(src: &str, b: &syn::Block) -> String {
    let (x, y) = r(b.span());
    src[x + 1..y - 1].to_string()
}

impl<'a, 'ast> Visit<'ast> for Find<'a> {
    fn visit_expr(&mut self, e: &'ast syn::Expr) {
        if self.hit.is_some() {
            return;
        }
        let sp = r(e.span());
        match e {
            syn::Expr::Try(t) => self.try_at(&t.expr, Ctx::Try, sp),
            syn::Expr::Return(x) => {
                if let Some(x) = &x.expr {
                    self.try_at(x, Ctx::Ret, r(x.span()))
                }
            }
            _ => {
                let c = if self.tails.contains(&sp) && !self.in_closure { Ctx::Ret } else { Ctx::Plain };
                self.try_at(e, c, sp)
            }
        }
        syn::visit::visit_expr(self, e);
    }
    fn visit_expr_closure(&mut self, c: &'ast syn::ExprClosure) {
        let old = self.in_closure;
        self.in_closure = true;
        syn::visit::visit_expr_closure(self, c);
        self.in_closure = old;
    }
}

#[derive(Default)]
struct WholeStmts {
    v: Vec<(usize, usize)>,
}
impl<'ast> Visit<'ast> for WholeStmts {
    fn visit_stmt(&mut self, s: &'ast syn::Stmt) {
        if let syn::Stmt::Expr(e, Some(_)) = s {
            self.v.push(r(e.span()));
        }
        syn::visit::visit_stmt(self, s);
    }
}

fn tails(b: &syn::Block, out: &mut Vec<(usize, usize)>) {
    if let Some(syn::Stmt::Expr(e, None)) = b.stmts.last() {
        tail_expr(e, out);
    }
}
fn tail_expr(e: &syn::Expr, out: &mut Vec<(usize, usize)>) {
    match e {
        syn::Expr::If(x) => {
            tails(&x.then_branch, out);
            if let Some((_, e)) = &x.else_branch {
                tail_expr(e, out);
            }
        }
        syn::Expr::Block(b) => tails(&b.block, out),
        syn::Expr::Match(m) => m.arms.iter().for_each(|a| tail_expr(&a.body, out)),
        syn::Expr::Paren(p) => tail_expr(&p.expr, out),
        e => out.push(r(e.span())),
    }
}

pub fn inline(src: String, module: &str, known: &dyn Fn(&str) -> bool) -> (String, Vec<String>) {
    let mut src = src;
    let mut logs: BTreeSet<String> = BTreeSet::new();
    for n in 0..60 {
        let Ok(file) = syn::parse_file(&src) else { break };
        let mut c = Collect { known, module: module.to_string(), cands: vec![], hosts: vec![] };
        c.items(&file.items);
        if c.cands.is_empty() {
            break;
        }
        let mut hit = None;
        // calls made from functions that stay come first
        for h in &c.hosts {
            let mut t = vec![];
            tails(&h.block, &mut t);
            let mut ws = WholeStmts::default();
            ws.visit_block(&h.block);
            let mut f = Find { cands: &c.cands, host: h, src: &src, hit: None, n, stmts: ws.v, tails: t, in_closure: false };
            f.visit_block(&h.block);
            if let Some(x) = f.hit {
                hit = Some((x, h.name.clone()));
                break;
            }
        }
        match hit {
            Some(((a, b, t), host)) => {
                let called = src[a..b].chars().take(60).collect::<String>();
                logs.insert(format!("{host}: the call `{}` of a helper without a contract is inlined", norm(&called)));
                src.replace_range(a..b, &t);
            }
            None => {
                // drop private helpers nobody calls any more
                let mut gone: Vec<&Cand> = c
                    .cands
                    .iter()
                    .filter(|k| {
                        if !k.private || !logs.iter().any(|l| l.contains(&k.name)) {
                            return false;
                        }
                        let mut v = vec![];
                        ident_spans(file.to_token_stream(), &k.name, &mut v);
                        v.len() == 1
                    })
                    .collect();
                gone.sort_by_key(|k| std::cmp::Reverse(k.item.0));
                for k in gone {
                    let lines: String = src[k.item.0..k.item.1].chars().filter(|c| *c == '\n').collect();
                    src.replace_range(k.item.0..k.item.1, &lines);
                    logs.insert(format!("{}: inlined everywhere and dropped", k.full));
                }
                break;
            }
        }
    }
    (src, logs.into_iter().collect())
}
