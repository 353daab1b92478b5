//! `continue` in `for` loops.
//!
//! The verifier takes no `continue` in a `for` loop.  Where the statements behind
//! it can be moved, as they stand, into the branch that does not continue, they
//! are: `if c { A; continue; } REST` becomes `if c { A; } else { REST }`,
//! `let P = e else { A; continue };  REST` becomes `if let P = e { REST } else { A; }`,
//! and `match` likewise when one arm alone goes on.
use crate::{is_test, norm, r};
use quote::ToTokens;
use syn::spanned::Spanned;
use syn::visit::Visit;

#[derive(Default)]
struct Has {
    label: Option<String>,
    found: bool,
    depth: u32,
}
impl<'ast> Visit<'ast> for Has {
    fn visit_expr_continue(&mut self, c: &'ast syn::ExprContinue) {
        match &c.label {
            None => self.found |= self.depth == 0,
            Some(l) => self.found |= self.label.as_deref() == Some(l.ident.to_string().as_str()),
        }
    }
    fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
    fn visit_expr_for_loop(&mut self, l: &'ast syn::ExprForLoop) {
        self.depth += 1;
        syn::visit::visit_expr_for_loop(self, l);
        self.depth -= 1;
    }
    fn visit_expr_while(&mut self, l: &'ast syn::ExprWhile) {
        self.depth += 1;
        syn::visit::visit_expr_while(self, l);
        self.depth -= 1;
    }
    fn visit_expr_loop(&mut self, l: &'ast syn::ExprLoop) {
        self.depth += 1;
        syn::visit::visit_expr_loop(self, l);
        self.depth -= 1;
    }
}

struct Cont<'s> {
    src: &'s str,
    label: Option<String>,
}

/// every path through the statements leaves them early
fn leaves(st: &[syn::Stmt]) -> bool {
    st.iter().any(|s| match s {
        syn::Stmt::Expr(e, _) => leaves_expr(e),
        _ => false,
    })
}
fn leaves_expr(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Continue(_) | syn::Expr::Break(_) | syn::Expr::Return(_) => true,
        syn::Expr::Block(b) => leaves(&b.block.stmts),
        syn::Expr::Paren(p) => leaves_expr(&p.expr),
        syn::Expr::If(i) => leaves(&i.then_branch.stmts) && i.else_branch.as_ref().map_or(false, |(_, e)| leaves_expr(e)),
        syn::Expr::Match(m) => m.arms.iter().all(|a| leaves_expr(&a.body)),
        _ => false,
    }
}

fn names_in(p: &syn::Pat) -> Vec<String> {
    let mut n = crate::Names::default();
    n.visit_pat(p);
    n.v
}
struct LetPats(Vec<String>);
impl<'ast> Visit<'ast> for LetPats {
    fn visit_expr_let(&mut self, l: &'ast syn::ExprLet) {
        self.0.extend(names_in(&l.pat));
        syn::visit::visit_expr_let(self, l);
    }
}

impl<'s> Cont<'s> {
    fn has_stmt(&self, s: &syn::Stmt) -> bool {
        let mut h = Has { label: self.label.clone(), ..Default::default() };
        h.visit_stmt(s);
        h.found
    }
    fn has(&self, e: &syn::Expr) -> bool {
        let mut h = Has { label: self.label.clone(), ..Default::default() };
        h.visit_expr(e);
        h.found
    }
    fn text(&self, s: proc_macro2::Span) -> &'s str {
        let (a, b) = r(s);
        &self.src[a..b]
    }
    fn between(&self, a: usize, b: usize) -> &'s str {
        if a < b { &self.src[a..b] } else { "" }
    }
    /// text from the start of the first statement to the end of the last
    fn plain(&self, st: &[syn::Stmt]) -> String {
        match (st.first(), st.last()) {
            (Some(a), Some(b)) => self.between(r(a.span()).0, r(b.span()).1).to_string(),
            _ => String::new(),
        }
    }
    fn mentions(&self, st: &[syn::Stmt], names: &[String]) -> bool {
        st.iter().any(|s| crate::inline::tokens_mention(s.to_token_stream(), names))
    }
    /// a branch body as statements
    fn body<'a>(&self, e: &'a syn::Expr) -> Vec<syn::Stmt> {
        match e {
            syn::Expr::Block(b) if b.label.is_none() => b.block.stmts.clone(),
            e => vec![syn::Stmt::Expr(e.clone(), None)],
        }
    }
    /// the branch, then `rest`, with nothing bound by the branch visible to `rest`
    fn go_on(&self, b: &[syn::Stmt], rest: &[syn::Stmt]) -> Option<String> {
        let r = self.cps(rest)?;
        if b.is_empty() {
            return Some(r);
        }
        if b.iter().any(|s| self.has_stmt(s)) {
            return None;
        }
        let mut t = self.plain(b);
        if matches!(b.last(), Some(syn::Stmt::Expr(_, None))) {
            t.push(';');
        }
        Some(format!("{{ {t} }} {r}"))
    }

    fn cps(&self, st: &[syn::Stmt]) -> Option<String> {
        let Some(i) = st.iter().position(|s| self.has_stmt(s)) else { return Some(self.plain(st)) };
        let rest = &st[i + 1..];
        let mut o = String::new();
        let at = r(st[i].span()).0;
        if i > 0 {
            o.push_str(self.between(r(st[0].span()).0, at));
        }
        let t = match &st[i] {
            syn::Stmt::Expr(e, _) => self.stmt(e, rest)?,
            syn::Stmt::Local(l) => {
                let init = l.init.as_ref()?;
                match (&init.diverge, &*init.expr) {
                    (Some((_, d)), e) if !self.has(e) => {
                        let d = self.cps(&self.body(d))?;
                        format!("if let {} = {} {{ {} }} else {{ {d} }}", self.text(l.pat.span()), self.text(e.span()), self.cps(rest)?)
                    }
                    (None, syn::Expr::Match(m)) if !self.has(&m.expr) && m.arms.iter().filter(|a| !leaves_expr(&a.body)).count() == 1 => {
                        let mut a = String::new();
                        for arm in &m.arms {
                            if arm.guard.is_some() {
                                return None;
                            }
                            let p = self.text(arm.pat.span());
                            if leaves_expr(&arm.body) {
                                a.push_str(&format!("{p} => {{ {} }} ", self.cps(&self.body(&arm.body))?));
                            } else {
                                let own = names_in(&l_pat(&l.pat));
                                let n: Vec<String> = names_in(&arm.pat).into_iter().filter(|x| !own.contains(x)).collect();
                                if self.mentions(rest, &n) || self.has(&arm.body) {
                                    return None;
                                }
                                a.push_str(&format!("{p} => {{ let {} = {}; {} }} ", self.text(l.pat.span()), self.text(arm.body.span()), self.cps(rest)?));
                            }
                        }
                        format!("match {} {{ {a}}}", self.text(m.expr.span()))
                    }
                    (None, syn::Expr::If(x)) if !self.has(&x.cond) => {
                        // `let p = if c { v } else { ..; continue };` and the other way round
                        let (_, e) = x.else_branch.as_ref()?;
                        let th = leaves(&x.then_branch.stmts);
                        if th == leaves_expr(e) {
                            return None;
                        }
                        let v = if th { self.text(e.span()) } else { self.text(x.then_branch.span()) };
                        let mut lp = LetPats(vec![]);
                        lp.visit_expr(&x.cond);
                        let own = names_in(&l_pat(&l.pat));
                        lp.0.retain(|x| !own.contains(x));
                        if self.mentions(rest, &lp.0) || (if th { self.has(e) } else { x.then_branch.stmts.iter().any(|s| self.has_stmt(s)) }) {
                            return None;
                        }
                        let g = format!("let {} = {v}; {}", self.text(l.pat.span()), self.cps(rest)?);
                        let c = self.text(x.cond.span());
                        if th {
                            format!("if {c} {{ {} }} else {{ {g} }}", self.cps(&x.then_branch.stmts)?)
                        } else {
                            format!("if {c} {{ {g} }} else {{ {} }}", self.cps(&self.body(e))?)
                        }
                    }
                    _ => return None,
                }
            }
            _ => return None,
        };
        o.push_str(&t);
        Some(o)
    }

    fn stmt(&self, e: &syn::Expr, rest: &[syn::Stmt]) -> Option<String> {
        match e {
            syn::Expr::Continue(_) => Some(String::new()),
            syn::Expr::If(x) if !self.has(&x.cond) => {
                let c = self.text(x.cond.span());
                let none = vec![];
                let eb = x.else_branch.as_ref().map(|(_, e)| self.body(e)).unwrap_or(none);
                let mut lp = LetPats(vec![]);
                lp.visit_expr(&x.cond);
                let (a, b);
                if rest.is_empty() {
                    (a, b) = (self.cps(&x.then_branch.stmts)?, self.cps(&eb)?);
                } else if leaves(&x.then_branch.stmts) {
                    a = self.cps(&x.then_branch.stmts)?;
                    // `else if .. { continue }` before the rest: one branch after the other
                    b = match (&eb[..], eb.len()) {
                        ([syn::Stmt::Expr(e @ syn::Expr::If(_), _)], 1) if self.has(e) => self.stmt(e, rest)?,
                        _ => self.go_on(&eb, rest)?,
                    };
                } else if leaves(&eb) {
                    if self.mentions(rest, &lp.0) {
                        return None;
                    }
                    a = self.go_on(&x.then_branch.stmts, rest)?;
                    b = self.cps(&eb)?;
                } else {
                    return None;
                }
                Some(format!("if {c} {{ {a} }} else {{ {b} }}"))
            }
            syn::Expr::Match(m) if !self.has(&m.expr) => {
                if !rest.is_empty() && m.arms.iter().filter(|a| !leaves_expr(&a.body)).count() > 1 {
                    return None;
                }
                let mut a = String::new();
                for arm in &m.arms {
                    let p = self.text(arm.pat.span());
                    let g = arm.guard.as_ref().map(|(_, g)| format!(" if {}", self.text(g.span()))).unwrap_or_default();
                    let b = self.body(&arm.body);
                    let t = if rest.is_empty() || leaves_expr(&arm.body) {
                        self.cps(&b)?
                    } else {
                        if self.mentions(rest, &names_in(&arm.pat)) {
                            return None;
                        }
                        self.go_on(&b, rest)?
                    };
                    a.push_str(&format!("{p}{g} => {{ {t} }} "));
                }
                Some(format!("match {} {{ {a}}}", self.text(m.expr.span())))
            }
            syn::Expr::Block(b) if rest.is_empty() && b.label.is_none() => Some(format!("{{ {} }}", self.cps(&b.block.stmts)?)),
            _ => None,
        }
    }
}
fn l_pat(p: &syn::Pat) -> syn::Pat {
    p.clone()
}

struct FindLoop<'s> {
    src: &'s str,
    hit: Option<((usize, usize), String)>,
}
impl<'s, 'ast> Visit<'ast> for FindLoop<'s> {
    fn visit_item_mod(&mut self, m: &'ast syn::ItemMod) {
        if !is_test(&m.attrs) {
            syn::visit::visit_item_mod(self, m);
        }
    }
    fn visit_expr_for_loop(&mut self, l: &'ast syn::ExprForLoop) {
        // inner loops first
        syn::visit::visit_expr_for_loop(self, l);
        if self.hit.is_some() {
            return;
        }
        let c = Cont { src: self.src, label: l.label.as_ref().map(|l| l.name.ident.to_string()) };
        if l.body.stmts.iter().any(|s| c.has_stmt(s)) {
            if let Some(mut t) = c.cps(&l.body.stmts) {
                let (a, b) = r(l.body.span());
                // keep the number of lines
                let was = self.src[a..b].matches('\n').count();
                let now = t.matches('\n').count();
                if now <= was {
                    t.push_str(&"\n".repeat(was - now));
                    self.hit = Some(((a, b), format!("{{ {t} }}")));
                }
            }
        }
    }
}

pub fn eliminate(src: String) -> (String, Vec<String>) {
    let mut src = src;
    let mut logs = vec![];
    for _ in 0..20 {
        let Ok(file) = syn::parse_file(&src) else { break };
        let mut f = FindLoop { src: &src, hit: None };
        f.visit_file(&file);
        let Some(((a, b), t)) = f.hit else { break };
        logs.push(format!("`continue` in the loop `{}` is written as if/else", norm(&src[a..b]).chars().take(60).collect::<String>()));
        src.replace_range(a..b, &t);
    }
    (src, logs)
}
