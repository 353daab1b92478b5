//! Normal forms of loops.
//!
//! The same walk over a slice can be written in many ways; the invariants are
//! written for one.  Each rule here rewrites the text of a loop into an
//! equivalent one, on conditions checked on the syntax alone:
//!
//! * `let mut i = A; .. while i < E { B; i += 1; }`  ->  `for i in A..E { B }`
//! * `for i in 0..V.len() { .. V[i] .. }`            ->  `for x in V.iter() { .. *x .. }`
//! * `let mut it = E; .. while let Some(P) = it.next() { B }`  ->  `for P in E { B }`
//! * `while let Some((a, b)) = X.next() { B }`       ->  `while let Some(vx_e) = X.next() { let (a, b) = vx_e; B }`
//! * `E.for_each(|P| B);`                            ->  `for P in E { B }`
//! * `E.try_for_each(|P| R)?;` (no `?` in R)         ->  `for P in E { R?; }`
//! * `for P in data { B }`, data of a generic type that is IntoIterator  ->  `for P in data.into_iter() { B }`
use crate::inline::{ident_spans, tokens_mention};
use crate::{is_test, norm, r};
use quote::ToTokens;
use syn::spanned::Spanned;
use syn::visit::Visit;

type Edits = Vec<(usize, usize, String)>;

/// ways to leave a block, mutation of a variable
struct Look<'a> {
    name: &'a str,
    changed: bool,
    cont: bool,
    tried: bool,
    returns: bool,
    depth: u32,
}
impl<'a> Look<'a> {
    fn at(name: &'a str) -> Self {
        Look { name, changed: false, cont: false, tried: false, returns: false, depth: 0 }
    }
    fn is(&self, e: &syn::Expr) -> bool {
        matches!(e, syn::Expr::Path(p) if p.path.is_ident(self.name))
    }
}
impl<'a, 'ast> Visit<'ast> for Look<'a> {
    fn visit_expr_assign(&mut self, a: &'ast syn::ExprAssign) {
        self.changed |= self.is(&a.left);
        syn::visit::visit_expr_assign(self, a);
    }
    fn visit_expr_binary(&mut self, b: &'ast syn::ExprBinary) {
        use syn::BinOp::*;
        if matches!(b.op, AddAssign(_) | SubAssign(_) | MulAssign(_) | DivAssign(_) | RemAssign(_) | BitXorAssign(_) | BitAndAssign(_) | BitOrAssign(_) | ShlAssign(_) | ShrAssign(_)) {
            self.changed |= self.is(&b.left);
        }
        syn::visit::visit_expr_binary(self, b);
    }
    fn visit_expr_reference(&mut self, x: &'ast syn::ExprReference) {
        self.changed |= x.mutability.is_some() && self.is(&x.expr);
        syn::visit::visit_expr_reference(self, x);
    }
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        // may take `&mut self`
        self.changed |= self.is(&m.receiver) && m.method != "len" && m.method != "get" && m.method != "iter";
        syn::visit::visit_expr_method_call(self, m);
    }
    fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
        // shadowed: give up
        self.changed |= p.ident == self.name;
    }
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        self.changed |= tokens_mention(m.tokens.clone(), &[self.name.to_string()]);
        self.tried = true;
    }
    fn visit_expr_continue(&mut self, c: &'ast syn::ExprContinue) {
        self.cont |= self.depth == 0 || c.label.is_some();
    }
    fn visit_expr_try(&mut self, t: &'ast syn::ExprTry) {
        self.tried = true;
        syn::visit::visit_expr_try(self, t);
    }
    fn visit_expr_return(&mut self, x: &'ast syn::ExprReturn) {
        self.returns = true;
        syn::visit::visit_expr_return(self, x);
    }
    fn visit_expr_for_loop(&mut self, l: &'ast syn::ExprForLoop) {
        self.depth += 1;
        syn::visit::visit_expr_for_loop(self, l);
        self.depth -= 1;
    }
    fn visit_expr_while(&mut self, l: &'ast syn::ExprWhile) {
        self.depth += 1;
        syn::visit::visit_expr_while(self, l);
        self.depth -= 1;
    }
    fn visit_expr_loop(&mut self, l: &'ast syn::ExprLoop) {
        self.depth += 1;
        syn::visit::visit_expr_loop(self, l);
        self.depth -= 1;
    }
}

fn ident_of(e: &syn::Expr) -> Option<String> {
    match e {
        syn::Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
        _ => None,
    }
}
/// a variable or a field of one
fn place(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Path(p) => p.path.get_ident().is_some(),
        syn::Expr::Field(f) => place(&f.base),
        _ => false,
    }
}
fn mentions(s: &impl ToTokens, n: &str) -> bool {
    tokens_mention(s.to_token_stream(), &[n.to_string()])
}
fn irrefutable(p: &syn::Pat) -> bool {
    match p {
        syn::Pat::Ident(i) => i.by_ref.is_none() && i.subpat.is_none() && i.ident.to_string().chars().next().map_or(false, |c| c.is_lowercase() || c == '_'),
        syn::Pat::Wild(_) => true,
        syn::Pat::Tuple(t) => t.elems.iter().all(irrefutable),
        _ => false,
    }
}
fn is_next(e: &syn::Expr) -> Option<&syn::Expr> {
    match e {
        syn::Expr::MethodCall(m) if m.method == "next" && m.args.is_empty() => Some(&m.receiver),
        _ => None,
    }
}
fn some_pat(p: &syn::Pat) -> Option<&syn::Pat> {
    match p {
        syn::Pat::TupleStruct(t) if t.path.is_ident("Some") && t.elems.len() == 1 => Some(&t.elems[0]),
        _ => None,
    }
}

/// how often `V[i]` and `V` occur
struct Uses<'a> {
    v: &'a str,
    i: &'a str,
    index: Vec<(usize, usize, Option<(usize, usize)>)>, // V[i], and `&V[i]` around it
}
impl<'a, 'ast> Visit<'ast> for Uses<'a> {
    fn visit_expr_reference(&mut self, x: &'ast syn::ExprReference) {
        if x.mutability.is_none() {
            if let Some((a, b)) = self.hit(&x.expr) {
                self.index.push((a, b, Some(r(x.span()))));
                return;
            }
        }
        syn::visit::visit_expr_reference(self, x);
    }
    fn visit_expr_index(&mut self, x: &'ast syn::ExprIndex) {
        let e = syn::Expr::Index(x.clone());
        if let Some((a, b)) = self.hit(&e) {
            let _ = (a, b);
            let (a, b) = r(x.span());
            self.index.push((a, b, None));
            return;
        }
        syn::visit::visit_expr_index(self, x);
    }
}
impl<'a> Uses<'a> {
    fn hit(&self, e: &syn::Expr) -> Option<(usize, usize)> {
        match e {
            syn::Expr::Index(x) if norm(&x.expr.to_token_stream().to_string()) == self.v && ident_of(&x.index).as_deref() == Some(self.i) => Some(r(x.span())),
            _ => None,
        }
    }
}

struct Forms<'s> {
    src: &'s str,
    hit: Option<(Edits, &'static str)>,
    generic: Vec<String>,
}

impl<'s> Forms<'s> {
    fn text(&self, s: proc_macro2::Span) -> String {
        let (a, b) = r(s);
        self.src[a..b].to_string()
    }

    fn block(&mut self, b: &syn::Block) {
        for (k, s) in b.stmts.iter().enumerate() {
            let syn::Stmt::Expr(e, semi) = s else { continue };
            match e {
                syn::Expr::While(w) if w.label.is_none() => self.while_loop(b, k, w),
                syn::Expr::MethodCall(m) if semi.is_some() && m.method == "for_each" => self.for_each(e, m, false),
                syn::Expr::Try(t) if semi.is_some() => {
                    if let syn::Expr::MethodCall(m) = &*t.expr {
                        if m.method == "try_for_each" {
                            self.for_each(e, m, true)
                        }
                    }
                }
                _ => {}
            }
            if self.hit.is_some() {
                return;
            }
        }
    }

    fn for_each(&mut self, e: &syn::Expr, m: &syn::ExprMethodCall, tried: bool) {
        let (1, Some(syn::Expr::Closure(c))) = (m.args.len(), m.args.first()) else { return };
        if c.inputs.len() != 1 || c.capture.is_some() {
            return;
        }
        let mut l = Look::at("");
        l.visit_expr(&c.body);
        if l.tried || l.returns {
            return;
        }
        let p = match &c.inputs[0] {
            syn::Pat::Type(t) => &*t.pat,
            p => p,
        };
        let body = if tried { format!("{{ {}?; }}", self.text(c.body.span())) } else { format!("{{ {}; }}", self.text(c.body.span())) };
        let (a, z) = r(e.span());
        let t = format!("for {} in {} {body}", self.text(p.span()), self.text(m.receiver.span()));
        self.hit = Some((vec![(a, z, t)], "a `for_each` is written as a `for` loop"));
    }

    fn while_loop(&mut self, b: &syn::Block, k: usize, w: &syn::ExprWhile) {
        match &*w.cond {
            // while i < E
            syn::Expr::Binary(c) if matches!(c.op, syn::BinOp::Lt(_)) => {
                let Some(i) = ident_of(&c.left) else { return };
                let Some((last, body)) = w.body.stmts.split_last() else { return };
                let one = match last {
                    syn::Stmt::Expr(syn::Expr::Binary(x), _) => {
                        matches!(x.op, syn::BinOp::AddAssign(_)) && ident_of(&x.left).as_ref() == Some(&i) && x.right.to_token_stream().to_string() == "1"
                    }
                    _ => false,
                };
                if !one {
                    return;
                }
                // the declaration, with nothing about i in between and after
                let Some(d) = b.stmts[..k].iter().rposition(|s| mentions(s, &i)) else { return };
                let syn::Stmt::Local(l) = &b.stmts[d] else { return };
                let name = match &l.pat {
                    syn::Pat::Ident(p) => Some(p.ident.to_string()),
                    syn::Pat::Type(t) => match &*t.pat {
                        syn::Pat::Ident(p) => Some(p.ident.to_string()),
                        _ => None,
                    },
                    _ => None,
                };
                let Some(init) = &l.init else { return };
                if name.as_ref() != Some(&i) || !matches!(&*init.expr, syn::Expr::Lit(_)) || b.stmts[k + 1..].iter().any(|s| mentions(s, &i)) {
                    return;
                }
                let mut lk = Look::at(&i);
                body.iter().for_each(|s| lk.visit_stmt(s));
                if lk.changed || lk.cont {
                    return;
                }
                // the bound does not change
                let base = match &*c.right {
                    syn::Expr::MethodCall(m) if m.method == "len" && m.args.is_empty() && place(&m.receiver) => Some(&*m.receiver),
                    e @ syn::Expr::Path(_) if ident_of(e).is_some() => Some(e),
                    syn::Expr::Lit(_) => None,
                    _ => return,
                };
                if let Some(e) = base {
                    match ident_of(e) {
                        Some(n) => {
                            let mut lk = Look::at(&n);
                            body.iter().for_each(|s| lk.visit_stmt(s));
                            if lk.changed {
                                return;
                            }
                        }
                        // a field: only ever indexed by i
                        None => {
                            let t = norm(&e.to_token_stream().to_string());
                            let mut u = Uses { v: &t, i: &i, index: vec![] };
                            w.body.stmts.iter().for_each(|s| u.visit_stmt(s));
                            let n = norm(&w.body.to_token_stream().to_string()).matches(&t).count();
                            if n != u.index.len() {
                                return;
                            }
                        }
                    }
                }
                let suffix = match &l.pat {
                    syn::Pat::Type(t) if matches!(&*init.expr, syn::Expr::Lit(x) if matches!(&x.lit, syn::Lit::Int(n) if n.suffix().is_empty())) => self.text(t.ty.span()),
                    _ => String::new(),
                };
                let (la, lb) = r(l.span());
                let (wa, _) = r(w.span());
                let (ba, _) = r(w.body.span());
                let (xa, xb) = r(last.span());
                let head = format!("for {i} in {}{suffix}..{} ", self.text(init.expr.span()), self.text(c.right.span()));
                self.hit = Some((vec![(la, lb, String::new()), (wa, ba, head), (xa, xb, String::new())], "a `while` that counts is written as a `for` over the range"));
            }
            // while let Some(P) = X.next()
            syn::Expr::Let(c) => {
                let (Some(p), Some(x)) = (some_pat(&c.pat), is_next(&c.expr)) else { return };
                let (wa, _) = r(w.span());
                let (ba, _) = r(w.body.span());
                if let Some(it) = ident_of(x) {
                    if mentions(&w.body, &it) || b.stmts[k + 1..].iter().any(|s| mentions(s, &it)) {
                        return;
                    }
                    let Some(d) = b.stmts[..k].iter().rposition(|s| mentions(s, &it)) else { return };
                    let syn::Stmt::Local(l) = &b.stmts[d] else { return };
                    let (syn::Pat::Ident(n), Some(init)) = (&l.pat, &l.init) else { return };
                    const STD: [&str; 6] = ["iter", "into_iter", "rev", "skip", "zip", "enumerate"];
                    let known = match &*init.expr {
                        syn::Expr::MethodCall(m) => STD.contains(&m.method.to_string().as_str()),
                        _ => false,
                    };
                    if n.ident == it && known && irrefutable(p) {
                        let (la, lb) = r(l.span());
                        // the statements in between see the state the iterator was made from
                        if d + 1 != k {
                            return;
                        }
                        let head = format!("for {} in {} ", self.text(p.span()), self.text(init.expr.span()));
                        self.hit = Some((vec![(la, lb, String::new()), (wa, ba, head)], "`while let Some(x) = it.next()` is written as a `for` over `it`"));
                    }
                    return;
                }
                if place(x) && irrefutable(p) && !matches!(p, syn::Pat::Ident(i) if i.ident == "vx_e") {
                    let head = format!("while let Some(vx_e) = {} ", self.text(c.expr.span()));
                    self.hit = Some((vec![(wa, ba, head), (ba + 1, ba + 1, format!(" let {} = vx_e; ", self.text(p.span())))], "the element of a `while let` is bound inside"));
                }
            }
            _ => {}
        }
    }

    fn for_loop(&mut self, l: &syn::ExprForLoop) {
        if let (Some(n), syn::Pat::Ident(_)) = (ident_of(&l.expr), &*l.pat) {
            if self.generic.contains(&n) {
                let (_, b) = r(l.expr.span());
                self.hit = Some((vec![(b, b, ".into_iter()".into())], "`for x in data` over a generic `data` is written with its `into_iter()`"));
                return;
            }
        }
        // for i in 0..V.len()
        let (Some((a, e)), syn::Pat::Ident(i)) = (crate::half_open(&l.expr), &*l.pat) else { return };
        let i = i.ident.to_string();
        let syn::Expr::MethodCall(m) = e else { return };
        if a.to_token_stream().to_string().trim_end_matches("usize").trim_end_matches('_') != "0" || m.method != "len" || !m.args.is_empty() || !place(&m.receiver) {
            return;
        }
        let v = norm(&m.receiver.to_token_stream().to_string());
        let mut u = Uses { v: &v, i: &i, index: vec![] };
        u.visit_block(&l.body);
        let total = norm(&l.body.to_token_stream().to_string());
        let word = |t: &str, w: &str| {
            let id = |c: char| c.is_alphanumeric() || c == '_';
            t.match_indices(w).filter(|(k, _)| !t[..*k].ends_with(id) && !t[*k + w.len()..].starts_with(id)).count()
        };
        if u.index.is_empty() || word(&total, &v) != u.index.len() {
            return;
        }
        let mut spans = vec![];
        ident_spans(l.body.to_token_stream(), &i, &mut spans);
        let counted = spans.len() > u.index.len();
        let mut lk = Look::at(&i);
        lk.visit_block(&l.body);
        if lk.changed {
            return;
        }
        let vt = self.text(m.receiver.span());
        let (pa, _) = r(l.pat.span());
        let (_, eb) = r(l.expr.span());
        let mut ed: Edits = vec![];
        // `let P = &V[i];` first: P is the element
        let mut pat = "vx_x".to_string();
        if let (Some(syn::Stmt::Local(s)), 1) = (l.body.stmts.first(), u.index.len()) {
            if let (syn::Pat::Ident(p), Some(init)) = (&s.pat, &s.init) {
                if p.mutability.is_none() && u.index[0].2 == Some(r(init.expr.span())) {
                    pat = p.ident.to_string();
                    let (x, y) = r(s.span());
                    ed.push((x, y, String::new()));
                }
            }
        }
        if ed.is_empty() {
            for (x, y, rf) in &u.index {
                match rf {
                    Some((x, y)) => ed.push((*x, *y, "vx_x".into())),
                    None => ed.push((*x, *y, "(*vx_x)".into())),
                }
            }
        }
        let head = if counted { format!("({i}, {pat}) in {vt}.iter().enumerate()") } else { format!("{pat} in {vt}.iter()") };
        ed.push((pa, eb, head));
        self.hit = Some((ed, "a `for` over the indices of a slice is written over its elements"));
    }
}

impl<'s, 'ast> Visit<'ast> for Forms<'s> {
    fn visit_item_mod(&mut self, m: &'ast syn::ItemMod) {
        if !is_test(&m.attrs) {
            syn::visit::visit_item_mod(self, m);
        }
    }
    fn visit_item_fn(&mut self, f: &'ast syn::ItemFn) {
        if is_test(&f.attrs) {
            return;
        }
        self.generic = generic_params(&f.sig);
        syn::visit::visit_item_fn(self, f);
        self.generic.clear();
    }
    fn visit_block(&mut self, b: &'ast syn::Block) {
        if self.hit.is_none() {
            syn::visit::visit_block(self, b);
        }
        if self.hit.is_none() {
            self.block(b);
        }
    }
    fn visit_expr_for_loop(&mut self, l: &'ast syn::ExprForLoop) {
        syn::visit::visit_expr_for_loop(self, l);
        if self.hit.is_none() {
            self.for_loop(l);
        }
    }
}

/// parameters whose type is a generic parameter bounded by IntoIterator
fn generic_params(s: &syn::Signature) -> Vec<String> {
    let mut tys = vec![];
    let into = |b: &syn::punctuated::Punctuated<syn::TypeParamBound, syn::Token![+]>| {
        b.iter().any(|b| matches!(b, syn::TypeParamBound::Trait(t) if t.path.segments.last().map_or(false, |s| s.ident == "IntoIterator")))
    };
    for p in s.generics.type_params() {
        if into(&p.bounds) {
            tys.push(p.ident.to_string());
        }
    }
    for p in s.generics.where_clause.iter().flat_map(|w| &w.predicates) {
        if let syn::WherePredicate::Type(t) = p {
            if into(&t.bounds) {
                tys.push(norm(&t.bounded_ty.to_token_stream().to_string()));
            }
        }
    }
    s.inputs
        .iter()
        .filter_map(|a| match a {
            syn::FnArg::Typed(t) if tys.contains(&norm(&t.ty.to_token_stream().to_string())) => match &*t.pat {
                syn::Pat::Ident(i) => Some(i.ident.to_string()),
                _ => None,
            },
            _ => None,
        })
        .collect()
}

pub fn normalize(src: String) -> (String, Vec<String>) {
    let mut src = src;
    let mut logs = vec![];
    for _ in 0..40 {
        let Ok(file) = syn::parse_file(&src) else { break };
        let mut f = Forms { src: &src, hit: None, generic: vec![] };
        f.visit_file(&file);
        let Some((mut ed, why)) = f.hit else { break };
        ed.sort();
        let mut next = src.clone();
        for (a, b, t) in ed.iter().rev() {
            // keep the number of lines
            let was = src[*a..*b].matches('\n').count();
            let now = t.matches('\n').count();
            let pad = "\n".repeat(was.saturating_sub(now));
            next.replace_range(*a..*b, &format!("{t}{pad}"));
        }
        let at = ed[0].0;
        logs.push(format!("{why}: `{}`", norm(&src[at..]).chars().take(50).collect::<String>()));
        src = next;
    }
    (src, logs)
}
