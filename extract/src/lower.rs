//! Desugars one function body from the Rust the crate is written in to the
//! subset the verifier accepts. Every rule is a local, semantics-preserving
//! rewrite; the list is documented in DESIGN.md ("extraction rules").
use crate::types::*;
use quote::{format_ident, quote, ToTokens};
use std::collections::HashMap;
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(PartialEq, Clone, Copy, Debug)]
pub enum RetKind {
    Option,
    Result,
    Other,
}

pub struct Low<'a> {
    pub env: Env<'a>,
    pub fname: String,
    pub loops: usize,
    pub tmp: usize,
    pub ret: RetKind,
    pub problems: Vec<String>,
    pub closures: HashMap<String, ExprClosure>,
    pub colviews: HashMap<String, (Expr, Expr)>,
    /// iterators held in a local that the next statement consumes
    pub iters: HashMap<String, Expr>,
    pub helpers: HashMap<String, Helper>,
    pub module: String,
    pub depth: usize,
    /// the loops around the current statement, innermost last
    pub inside: Vec<usize>,
    /// parameters of type `&mut T`
    pub mutrefs: std::collections::HashSet<String>,
}

/// A private function without a contract of its own whose body can stand for
/// its call (no `return`, no `?`, identifier parameters, no generics).
#[derive(Clone)]
pub struct Helper {
    pub params: Vec<(Ident, Type)>,
    pub recv: Option<bool>,
    pub body: Block,
    pub ret: Option<Type>,
}
struct HasExit(bool);
impl<'a> syn::visit::Visit<'a> for HasExit {
    fn visit_expr(&mut self, e: &'a Expr) {
        if matches!(e, Expr::Return(_) | Expr::Try(_)) {
            self.0 = true;
        }
        if !matches!(e, Expr::Closure(_)) {
            syn::visit::visit_expr(self, e);
        }
    }
}
impl Helper {
    pub fn of(sig: &Signature, b: &Block) -> Option<Helper> {
        if !sig.generics.params.is_empty() || sig.asyncness.is_some() {
            return None;
        }
        let mut x = HasExit(false);
        syn::visit::Visit::visit_block(&mut x, b);
        if x.0 {
            return None;
        }
        let mut params = vec![];
        let mut recv = None;
        for a in &sig.inputs {
            match a {
                FnArg::Receiver(r) => recv = Some(r.mutability.is_some()),
                FnArg::Typed(t) => match &*t.pat {
                    Pat::Ident(i) if i.mutability.is_none() && i.by_ref.is_none() => params.push((i.ident.clone(), (*t.ty).clone())),
                    _ => return None,
                },
            }
        }
        let ret = match &sig.output {
            ReturnType::Type(_, t) => Some((**t).clone()),
            _ => None,
        };
        Some(Helper { params, recv, body: b.clone(), ret })
    }
}

enum Chain {
    Range(Expr, Expr),
    Seq { e: Expr, m: bool, copied: bool },
    Enumerate(Box<Chain>),
    Zip(Box<Chain>, Box<Chain>),
    StepBy(Box<Chain>, Expr),
    Windows(Expr, Expr),
    Chunks(Expr, Expr),
    Skip(Box<Chain>, Expr),
    Take(Box<Chain>, Expr),
    Rev(Box<Chain>),
    Map(Box<Chain>, ExprClosure),
    Filter(Box<Chain>, ExprClosure),
}

struct Lowered {
    pre: Vec<Stmt>,
    cond: Expr,
    item: Expr,
    step: Vec<Stmt>,
    simple_idx: Option<Ident>,
    ty: Ty,
    dec: String,
    inv: String,
    /// a `filter` the item has to pass
    guard: Vec<(ExprClosure, Expr, Ty)>,
}

pub fn peel(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => peel(&p.expr),
        Expr::Group(p) => peel(&p.expr),
        _ => e,
    }
}
fn is_simple_place(e: &Expr) -> bool {
    match e {
        Expr::Path(p) => p.path.get_ident().is_some(),
        Expr::Field(f) => is_simple_place(&f.base),
        Expr::Paren(p) => is_simple_place(&p.expr),
        _ => false,
    }
}
fn lit_int(e: &Expr) -> Option<i128> {
    match peel(e) {
        Expr::Lit(l) => match &l.lit {
            Lit::Int(i) if i.suffix().is_empty() => i.base10_parse::<i128>().ok(),
            _ => None,
        },
        Expr::Unary(u) => match u.op {
            UnOp::Neg(_) => lit_int(&u.expr).map(|x| -x),
            _ => None,
        },
        Expr::Binary(b) => {
            let l = lit_int(&b.left)?;
            let r = lit_int(&b.right)?;
            match b.op {
                BinOp::Add(_) => Some(l + r),
                BinOp::Sub(_) => Some(l - r),
                BinOp::Mul(_) => Some(l * r),
                BinOp::Shl(_) if (0..100).contains(&r) => Some(l << r),
                _ => None,
            }
        }
        _ => None,
    }
}
fn peel_map(c: &Chain) -> &Chain {
    match c {
        Chain::Map(i, _) => peel_map(i),
        c => c,
    }
}
fn chain_base(c: &Chain) -> &Chain {
    match c {
        Chain::Filter(i, _) | Chain::Skip(i, _) | Chain::Take(i, _) | Chain::Rev(i) => chain_base(i),
        c => c,
    }
}
/// occurrences of an identifier in a token text
fn uses_of(t: &str, n: &str) -> usize {
    t.split(|c: char| !c.is_alphanumeric() && c != '_').filter(|w| *w == n).count()
}
fn is_float_lit(e: &Expr) -> bool {
    matches!(peel(e), Expr::Lit(ExprLit { lit: Lit::Float(_), .. }))
}

fn q(e: &Expr) -> String {
    e.to_token_stream().to_string()
}

fn whole_range(e: &Expr) -> Option<Expr> {
    // X[..]  ->  X
    if let Expr::Index(ix) = peel(e) {
        if let Expr::Range(r) = peel(&ix.index) {
            if r.start.is_none() && r.end.is_none() {
                return Some((*ix.expr).clone());
            }
        }
    }
    None
}

impl<'a> Low<'a> {
    fn problem(&mut self, s: impl Into<String>) {
        self.problems.push(s.into());
    }

    fn parse_chain(&mut self, e: &Expr) -> Option<Chain> {
        let e = peel(e);
        match e {
            Expr::Range(r) => {
                let s = r.start.as_ref()?;
                let t = r.end.as_ref()?;
                let end: Expr = match r.limits {
                    RangeLimits::HalfOpen(_) => (**t).clone(),
                    RangeLimits::Closed(_) => parse_quote!((#t) + 1),
                };
                Some(Chain::Range((**s).clone(), end))
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                match name.as_str() {
                    "iter" | "into_iter" => {
                        if let Some(w @ Chain::Windows(..)) = self.try_special(&m.receiver) {
                            return Some(w);
                        }
                        if name == "into_iter" {
                            if let Some(c) = self.parse_adapter(&m.receiver) {
                                return Some(c);
                            }
                        }
                        let rcv = whole_range(&m.receiver).unwrap_or((*m.receiver).clone());
                        Some(Chain::Seq { e: rcv, m: false, copied: false })
                    }
                    "iter_mut" => {
                        let rcv = whole_range(&m.receiver).unwrap_or((*m.receiver).clone());
                        Some(Chain::Seq { e: rcv, m: true, copied: false })
                    }
                    _ => {
                        if let Some(c) = self.parse_adapter(e) {
                            return Some(c);
                        }
                        Some(Chain::Seq { e: e.clone(), m: false, copied: false })
                    }
                }
            }
            Expr::Reference(r) => {
                if let Some(c) = self.parse_adapter(&r.expr) {
                    return Some(c);
                }
                Some(Chain::Seq { e: (*r.expr).clone(), m: r.mutability.is_some(), copied: false })
            }
            _ => {
                if let Some(it) = ident_of(e).and_then(|i| self.iters.get(&i).cloned()) {
                    return self.parse_iter(&it);
                }
                Some(Chain::Seq { e: e.clone(), m: false, copied: false })
            }
        }
    }
    fn try_special(&mut self, e: &Expr) -> Option<Chain> {
        if let Expr::MethodCall(m) = peel(e) {
            if m.method == "windows" && m.args.len() == 1 {
                return Some(Chain::Windows((*m.receiver).clone(), m.args[0].clone()));
            }
        }
        None
    }
    fn parse_adapter(&mut self, e: &Expr) -> Option<Chain> {
        if let Expr::MethodCall(m) = peel(e) {
            let name = m.method.to_string();
            match name.as_str() {
                "enumerate" => Some(Chain::Enumerate(Box::new(self.parse_chain(&m.receiver)?))),
                "zip" => Some(Chain::Zip(
                    Box::new(self.parse_chain(&m.receiver)?),
                    Box::new(self.parse_chain(&m.args[0])?),
                )),
                "step_by" => Some(Chain::StepBy(
                    Box::new(self.parse_chain(&m.receiver)?),
                    m.args[0].clone(),
                )),
                "copied" | "cloned" => match self.parse_chain(&m.receiver)? {
                    Chain::Seq { e, m, .. } => Some(Chain::Seq { e, m, copied: true }),
                    _ => None,
                },
                "windows" => Some(Chain::Windows((*m.receiver).clone(), m.args[0].clone())),
                "chunks" => {
                    let rcv = match peel(&m.receiver) {
                        Expr::MethodCall(mm) if mm.method == "iter" => (*mm.receiver).clone(),
                        x => x.clone(),
                    };
                    let rcv = whole_range(&rcv).unwrap_or(rcv);
                    Some(Chain::Chunks(rcv, m.args[0].clone()))
                }
                "skip" if m.args.len() == 1 => Some(Chain::Skip(Box::new(self.parse_chain(&m.receiver)?), m.args[0].clone())),
                "take" if m.args.len() == 1 => Some(Chain::Take(Box::new(self.parse_chain(&m.receiver)?), m.args[0].clone())),
                "rev" if m.args.is_empty() => Some(Chain::Rev(Box::new(self.parse_chain(&m.receiver)?))),
                "map" => Some(Chain::Map(Box::new(self.parse_iter(&m.receiver)?), self.closure_of(m.args.first()?)?)),
                "filter" => Some(Chain::Filter(Box::new(self.parse_iter(&m.receiver)?), self.closure_of(m.args.first()?)?)),
                "iter" | "iter_mut" | "into_iter" => self.parse_chain(e),
                _ => None,
            }
        } else if let Expr::Range(_) = peel(e) {
            self.parse_chain(e)
        } else {
            None
        }
    }
    /// a receiver that is itself an iterator (`map` of an Option is not)
    fn parse_iter(&mut self, e: &Expr) -> Option<Chain> {
        match peel(e) {
            Expr::Range(_) => self.parse_chain(e),
            Expr::Path(_) if ident_of(e).is_some_and(|i| self.iters.contains_key(&i)) => self.parse_chain(e),
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                const IT: [&str; 12] = [
                    "iter", "iter_mut", "into_iter", "enumerate", "zip", "step_by", "copied", "cloned", "skip", "take", "rev", "windows",
                ];
                if IT.contains(&n.as_str()) || n == "map" || n == "filter" || n == "chunks" {
                    self.parse_chain(e)
                } else {
                    None
                }
            }
            _ => None,
        }
    }
    fn hoist(&mut self, e: &Expr, m: bool, pre: &mut Vec<Stmt>) -> Expr {
        if is_simple_place(e) {
            return peel(e).clone();
        }
        let mut ev = e.clone();
        let ty = self.env.infer(e);
        self.visit_expr_mut(&mut ev);
        let id = format_ident!("vx_s{}", self.tmp);
        self.tmp += 1;
        // `X.iter()` borrows X; a temporary holding a reference has the same meaning
        let is_ref = matches!(peel(e), Expr::Reference(_) | Expr::Call(_) | Expr::MethodCall(_));
        if m {
            pre.push(parse_quote!(let #id = &mut #ev;));
        } else if is_ref {
            pre.push(parse_quote!(let #id = #ev;));
        } else {
            pre.push(parse_quote!(let #id = &#ev;));
        }
        self.env.vars.insert(id.to_string(), ty);
        parse_quote!(#id)
    }
    fn lower_chain(&mut self, c: &Chain, k: usize, sub: &str, share: Option<Ident>) -> Option<Lowered> {
        let idx = share.clone().unwrap_or(format_ident!("vx_i{}{}", k, sub));
        Some(match c {
            Chain::Range(a, b) => {
                let mut pre = vec![];
                let (mut a, mut b) = (a.clone(), b.clone());
                self.visit_expr_mut(&mut a);
                self.visit_expr_mut(&mut b);
                let end = format_ident!("vx_end{}{}", k, sub);
                if lit_int(&a).is_some() {
                    // give the counter the type of the end bound
                    pre.push(parse_quote!(let #end = #b;));
                    pre.push(parse_quote!(let mut #idx = #a;));
                } else {
                    pre.push(parse_quote!(let mut #idx = #a;));
                    pre.push(parse_quote!(let #end = #b;));
                }
                Lowered {
                    pre,
                    cond: parse_quote!(#idx < #end),
                    item: parse_quote!(#idx),
                    step: vec![parse_quote!(#idx = #idx + 1;)],
                    simple_idx: None,
                    ty: Ty::Int,
                    dec: format!("{} - {}", end, idx),
                    inv: String::new(),
                    guard: vec![],
                }
            }
            Chain::Seq { e, m, copied } => {
                let mut pre = vec![];
                let p = self.hoist(e, *m, &mut pre);
                let ty = self.env.infer(&p);
                let el = self.env.elem(&ty);
                if share.is_none() {
                    pre.push(parse_quote!(let mut #idx: usize = 0;));
                }
                let item: Expr = if *m {
                    parse_quote!(&mut #p[#idx])
                } else if *copied {
                    parse_quote!(#p[#idx])
                } else {
                    parse_quote!(&#p[#idx])
                };
                Lowered {
                    pre,
                    cond: parse_quote!(#idx < #p.len()),
                    item,
                    step: vec![parse_quote!(#idx = #idx + 1;)],
                    simple_idx: Some(idx.clone()),
                    ty: el,
                    dec: format!("{}.len() - {}", q(&p), idx),
                    inv: format!("0 <= {} <= {}.len()", idx, q(&p)),
                    guard: vec![],
                }
            }
            Chain::Enumerate(inner) => {
                let mut l = self.lower_chain(inner, k, sub, share)?;
                let it = l.item.clone();
                let n: Ident = if !l.guard.is_empty() {
                    // only the items that pass are numbered
                    let (n, vg) = (format_ident!("vx_n{}{}", k, sub), format_ident!("vx_g{}", k));
                    l.pre.push(parse_quote!(let mut #n: usize = 0;));
                    l.step.push(parse_quote!(if #vg { #n = #n + 1; }));
                    n
                } else if let Some(i) = &l.simple_idx {
                    i.clone()
                } else {
                    let n = format_ident!("vx_n{}{}", k, sub);
                    l.pre.push(parse_quote!(let mut #n: usize = 0;));
                    l.step.push(parse_quote!(#n = #n + 1;));
                    n
                };
                l.item = parse_quote!((#n, #it));
                l.ty = Ty::Tuple(vec![Ty::Int, l.ty]);
                l.simple_idx = None;
                l
            }
            Chain::Zip(a, b) => {
                let la = self.lower_chain(a, k, sub, share)?;
                let (shared, lb) = if let Some(i) = &la.simple_idx {
                    if matches!(**b, Chain::Seq { .. }) {
                        (true, self.lower_chain(b, k, sub, Some(i.clone()))?)
                    } else {
                        (false, self.lower_chain(b, k, &format!("{}b", sub), None)?)
                    }
                } else {
                    (false, self.lower_chain(b, k, &format!("{}b", sub), None)?)
                };
                if !la.guard.is_empty() || !lb.guard.is_empty() {
                    self.problem("zip of an unsupported iterator");
                    return None;
                }
                let (mut pre, ca, cb, ia, ib) = (la.pre, la.cond, lb.cond, la.item, lb.item);
                pre.extend(lb.pre);
                let mut step = la.step;
                if !shared {
                    step.extend(lb.step);
                }
                Lowered {
                    pre,
                    cond: parse_quote!(#ca && #cb),
                    item: parse_quote!((#ia, #ib)),
                    step,
                    simple_idx: if shared { la.simple_idx } else { None },
                    ty: Ty::Tuple(vec![la.ty, lb.ty]),
                    dec: la.dec,
                    guard: vec![],
                    inv: if lb.inv.is_empty() { la.inv } else if la.inv.is_empty() { lb.inv } else { format!("{}, {}", la.inv, lb.inv) },
                }
            }
            Chain::StepBy(inner, n) => {
                let mut n = n.clone();
                self.visit_expr_mut(&mut n);
                let mut l = self.lower_chain(inner, k, sub, share)?;
                if !matches!(**inner, Chain::Range(..) | Chain::Seq { .. } | Chain::Windows(..)) {
                    self.problem("step_by of an unsupported iterator");
                    return None;
                }
                let st = format_ident!("vx_st{}{}", k, sub);
                l.pre.push(parse_quote!(let #st = #n;));
                // step_by panics on a zero step
                l.pre.push(parse_quote!(crate::vx::vx_assert(#st > 0);));
                l.step = vec![parse_quote!(#idx = crate::vx::vx_step(#idx, #st);)];
                l.simple_idx = None;
                l
            }
            Chain::Skip(inner, n) => {
                let mut n = n.clone();
                self.visit_expr_mut(&mut n);
                let mut l = self.lower_chain(inner, k, sub, share.clone())?;
                if share.is_some() || !l.guard.is_empty() || !matches!(peel_map(inner), Chain::Seq { .. } | Chain::Enumerate(_) | Chain::Range(..)) {
                    self.problem("skip of an unsupported iterator");
                    return None;
                }
                let sk = format_ident!("vx_sk{}{}", k, sub);
                l.pre.push(parse_quote!(let #sk = #n;));
                let c = l.cond.clone();
                if let Expr::Binary(b) = &c {
                    // idx < end: the start is moved, but not beyond the end
                    let end = &b.right;
                    l.pre.push(parse_quote!(#idx = crate::vx::vx_skip(#idx, #sk, #end);));
                } else {
                    self.problem("skip of an unsupported iterator");
                    return None;
                }
                l.simple_idx = None;
                l
            }
            Chain::Take(inner, n) => {
                let mut n = n.clone();
                self.visit_expr_mut(&mut n);
                let mut l = self.lower_chain(inner, k, sub, share)?;
                if !l.guard.is_empty() {
                    self.problem("take of an unsupported iterator");
                    return None;
                }
                let tk = format_ident!("vx_tk{}{}", k, sub);
                l.pre.push(parse_quote!(let #tk: usize = #n;));
                let t: Ident = if let Some(i) = &l.simple_idx {
                    i.clone()
                } else {
                    let t = format_ident!("vx_t{}{}", k, sub);
                    l.pre.push(parse_quote!(let mut #t: usize = 0;));
                    l.step.push(parse_quote!(#t = #t + 1;));
                    t
                };
                let c = l.cond.clone();
                l.cond = parse_quote!(#t < #tk && #c);
                l
            }
            Chain::Rev(inner) => {
                let mut l = self.lower_chain(inner, k, sub, share)?;
                let c = l.cond.clone();
                match (&**inner, peel(&c)) {
                    (Chain::Seq { m, copied, .. }, Expr::Binary(b)) => {
                        let len = &b.right;
                        let p = match peel(len) {
                            Expr::MethodCall(mm) => (*mm.receiver).clone(),
                            _ => return None,
                        };
                        l.item = if *m {
                            parse_quote!(&mut #p[#len - 1 - #idx])
                        } else if *copied {
                            parse_quote!(#p[#len - 1 - #idx])
                        } else {
                            parse_quote!(&#p[#len - 1 - #idx])
                        };
                    }
                    (Chain::Range(..), Expr::Binary(b)) => {
                        let (end, st) = (&b.right, format_ident!("vx_rs{}{}", k, sub));
                        l.pre.push(parse_quote!(let #st = #idx;));
                        l.item = parse_quote!(#end - 1 - (#idx - #st));
                    }
                    _ => {
                        self.problem("rev of an unsupported iterator");
                        return None;
                    }
                }
                // the index no longer numbers the items of a zip partner in place
                l
            }
            Chain::Map(inner, clo) => {
                let mut l = self.lower_chain(inner, k, sub, share)?;
                if !l.guard.is_empty() || clo.inputs.len() != 1 {
                    self.problem("map of an unsupported iterator");
                    return None;
                }
                let mut b = vec![];
                let (item, ty) = (l.item.clone(), l.ty.clone());
                self.bind(&clo.inputs[0], &item, &ty, &mut b);
                let rt = self.env.infer(&clo.body);
                let mut body = (*clo.body).clone();
                self.visit_expr_mut(&mut body);
                l.item = parse_quote!({ #(#b)* #body });
                l.ty = rt;
                l
            }
            Chain::Filter(inner, clo) => {
                let mut l = self.lower_chain(inner, k, sub, share)?;
                if clo.inputs.len() != 1 || matches!(**inner, Chain::Map(..)) || !l.guard.is_empty() && !matches!(**inner, Chain::Filter(..)) {
                    self.problem("filter of an unsupported iterator");
                    return None;
                }
                l.guard.push((clo.clone(), l.item.clone(), l.ty.clone()));
                l.simple_idx = None;
                l
            }
            Chain::Windows(e, w) => {
                let mut pre = vec![];
                let p = self.hoist(e, false, &mut pre);
                let ty = self.env.infer(&p);
                let mut w = w.clone();
                self.visit_expr_mut(&mut w);
                let wi = format_ident!("vx_w{}{}", k, sub);
                pre.push(parse_quote!(let #wi = #w;));
                pre.push(parse_quote!(crate::vx::vx_assert(#wi > 0);));
                pre.push(parse_quote!(let mut #idx: usize = 0;));
                Lowered {
                    pre,
                    cond: parse_quote!(#wi <= #p.len() && #idx <= #p.len() - #wi),
                    item: parse_quote!((&#p).vx_window(#idx, #wi)),
                    step: vec![parse_quote!(#idx = crate::vx::vx_step(#idx, 1);)],
                    simple_idx: None,
                    ty,
                    dec: format!("{}.len() - {}", q(&p), idx),
                    inv: String::new(),
                    guard: vec![],
                }
            }
            Chain::Chunks(e, n) => {
                let mut pre = vec![];
                let p = self.hoist(e, false, &mut pre);
                let ty = self.env.infer(&p);
                let mut n = n.clone();
                self.visit_expr_mut(&mut n);
                let st = format_ident!("vx_st{}{}", k, sub);
                pre.push(parse_quote!(let #st = #n;));
                pre.push(parse_quote!(crate::vx::vx_assert(#st > 0);));
                pre.push(parse_quote!(let mut #idx: usize = 0;));
                Lowered {
                    pre,
                    cond: parse_quote!(#idx < #p.len()),
                    item: parse_quote!((&#p).vx_chunk(#idx, #st)),
                    step: vec![parse_quote!(#idx = crate::vx::vx_step(#idx, #st);)],
                    simple_idx: None,
                    ty,
                    dec: format!("{}.len() - {}", q(&p), idx),
                    inv: String::new(),
                    guard: vec![],
                }
            }
        })
    }
    /// `let pat = item;` with tuple patterns split syntactically.
    fn bind(&mut self, pat: &Pat, item: &Expr, ty: &Ty, out: &mut Vec<Stmt>) {
        self.env.bind_pat(pat, ty);
        match (pat, peel(item)) {
            (Pat::Tuple(tp), Expr::Tuple(te)) if tp.elems.len() == te.elems.len() => {
                for (i, (p, e)) in tp.elems.iter().zip(te.elems.iter()).enumerate() {
                    let t = match ty {
                        Ty::Tuple(v) => v[i].clone(),
                        _ => Ty::Unknown,
                    };
                    self.bind(p, e, &t, out);
                }
            }
            (Pat::Paren(p), e) => {
                let e = e.clone();
                self.bind(&p.pat, &e, ty, out)
            }
            (Pat::Type(p), e) => {
                let e = e.clone();
                self.bind(&p.pat, &e, ty, out)
            }
            (Pat::Reference(r), Expr::Reference(er)) => {
                let inner = (*er.expr).clone();
                self.bind(&r.pat, &inner, ty, out);
            }
            (Pat::Reference(r), e) => {
                let e2: Expr = parse_quote!(*(#e));
                self.bind(&r.pat, &e2, ty, out);
            }
            (Pat::Wild(_), _) => {}
            (p, e) => {
                out.push(parse_quote!(let #p = #e;));
            }
        }
    }
    /// Builds the canonical while loop for a `for`-like construct.
    fn make_loop(&mut self, pat: &Pat, chain: &Chain, body: Vec<Stmt>) -> Option<Vec<Stmt>> {
        let k = self.loops;
        self.loops += 1;
        let l = self.lower_chain(chain, k, "", None)?;
        let mut binds = vec![];
        let (item, ty) = (l.item.clone(), l.ty.clone());
        let mut guard: Option<Expr> = None;
        for (g, item, ty) in &l.guard {
            let mut gb = vec![];
            self.bind(&g.inputs[0], &parse_quote!(&#item), ty, &mut gb);
            let mut body = (*g.body).clone();
            self.visit_expr_mut(&mut body);
            let c: Expr = if gb.is_empty() { parse_quote!((#body)) } else { parse_quote!({ #(#gb)* #body }) };
            guard = Some(match guard {
                None => c,
                Some(o) => parse_quote!(#o && #c),
            });
        }
        self.bind(pat, &item, &ty, &mut binds);
        let mut blk = Block { brace_token: Default::default(), stmts: body };
        self.inside.push(k);
        self.visit_block_mut(&mut blk);
        self.inside.pop();
        // a body that is an expression of unit type becomes a statement
        if let Some(Stmt::Expr(_, semi @ None)) = blk.stmts.last_mut() {
            *semi = Some(Default::default());
        }
        let name = self.fname.clone();
        let (pre, cond, step, stmts) = (l.pre, l.cond, l.step, blk.stmts);
        let (dec, inv) = (l.dec, l.inv);
        let mut out: Vec<Stmt> = pre;
        if let Some(g) = guard {
            let vg = format_ident!("vx_g{}", k);
            let w: Stmt = parse_quote! {
                while #cond {
                    vx_loop!(#name, #k, #dec, #inv);
                    let #vg = #g;
                    #(#binds)*
                    #(#step)*
                    vx_loop_start!(#name, #k);
                    if #vg {
                        #(#stmts)*
                    }
                    vx_loop_end!(#name, #k);
                }
            };
            out.push(w);
            out.push(parse_quote!(vx_loop_after!(#name, #k);));
            return Some(out);
        }
        let w: Stmt = parse_quote! {
            while #cond {
                vx_loop!(#name, #k, #dec, #inv);
                #(#binds)*
                #(#step)*
                vx_loop_start!(#name, #k);
                #(#stmts)*
                vx_loop_end!(#name, #k);
            }
        };
        out.push(w);
        out.push(parse_quote!(vx_loop_after!(#name, #k);));
        Some(out)
    }

    fn closure_of(&self, e: &Expr) -> Option<ExprClosure> {
        match peel(e) {
            Expr::Closure(c) => Some(c.clone()),
            Expr::Path(p) => self.closures.get(&p.path.get_ident()?.to_string()).cloned(),
            _ => None,
        }
    }
    fn body_stmts(e: &Expr) -> Vec<Stmt> {
        match peel(e) {
            Expr::Block(b) if b.label.is_none() => b.block.stmts.clone(),
            x => vec![Stmt::Expr(x.clone(), None)],
        }
    }

    /// `E.map_inplace(|e| ..)` / `E.mapv_inplace(|e| ..)`
    fn map_inplace(&mut self, recv: &Expr, clo: &ExprClosure, by_val: bool) -> Option<Expr> {
        let pat = clo.inputs.first()?.clone();
        let pat = match pat {
            Pat::Type(pt) => (*pt.pat).clone(),
            p => p,
        };
        let mk_body = |low: &mut Self, place: Expr, k: usize| -> Vec<Stmt> {
            low.env.bind_pat(&pat, &Ty::F);
            let name = low.fname.clone();
            if by_val {
                let mut be = (*clo.body).clone();
                low.visit_expr_mut(&mut be);
                vec![
                    parse_quote!(let #pat = #place;),
                    parse_quote!(let vx_v = #be;),
                    parse_quote!(#place = vx_v;),
                    parse_quote!(vx_loop_end!(#name, #k);),
                ]
            } else {
                let mut stmts = vec![parse_quote!(let #pat = &mut #place;)];
                let mut blk = Block { brace_token: Default::default(), stmts: Self::body_stmts(&clo.body) };
                low.visit_block_mut(&mut blk);
                if let Some(Stmt::Expr(_, semi @ None)) = blk.stmts.last_mut() {
                    *semi = Some(Default::default());
                }
                stmts.extend(blk.stmts);
                stmts.push(parse_quote!(vx_loop_end!(#name, #k);));
                stmts
            }
        };
        // column view?
        if let Some(id) = ident_of(recv) {
            if let Some((m, c)) = self.colviews.get(&id).cloned() {
                let k = self.loops;
                self.loops += 1;
                let i = format_ident!("vx_i{}", k);
                let name = self.fname.clone();
                let body = mk_body(self, parse_quote!(#m[(#i, #c)]), k);
                let dec = format!("{}.nrows() - {}", q(&m), i);
                return Some(parse_quote!({
                    let mut #i: usize = 0;
                    while #i < #m.nrows() {
                        vx_loop!(#name, #k, #dec, "");
                        vx_loop_start!(#name, #k);
                        #(#body)*
                        #i = #i + 1;
                    }
                    vx_loop_after!(#name, #k);
                }));
            }
        }
        let ty = self.env.infer(recv);
        let mut pre = vec![];
        let p = self.hoist(recv, true, &mut pre);
        let name = self.fname.clone();
        match ty {
            Ty::Arr2 => {
                let k = self.loops;
                let k2 = k + 1;
                self.loops += 2;
                let (r, c) = (format_ident!("vx_i{}", k), format_ident!("vx_i{}", k2));
                let body = mk_body(self, parse_quote!(#p[(#r, #c)]), k2);
                let dec = format!("{}.nrows() - {}", q(&p), r);
                let dec2 = format!("{}.ncols() - {}", q(&p), c);
                Some(parse_quote!({
                    #(#pre)*
                    let mut #r: usize = 0;
                    while #r < #p.nrows() {
                        vx_loop!(#name, #k, #dec, "");
                        vx_loop_start!(#name, #k);
                        let mut #c: usize = 0;
                        while #c < #p.ncols() {
                            vx_loop!(#name, #k2, #dec2, "");
                            vx_loop_start!(#name, #k2);
                            #(#body)*
                            #c = #c + 1;
                        }
                        vx_loop_after!(#name, #k2);
                        #r = #r + 1;
                        vx_loop_end!(#name, #k);
                    }
                    vx_loop_after!(#name, #k);
                }))
            }
            Ty::Arr1(_) | Ty::Vec(_) => {
                let k = self.loops;
                self.loops += 1;
                let i = format_ident!("vx_i{}", k);
                let body = mk_body(self, parse_quote!(#p[#i]), k);
                let dec = format!("{}.len() - {}", q(&p), i);
                let inv = format!("0 <= {} <= {}.len()", i, q(&p));
                Some(parse_quote!({
                    #(#pre)*
                    let mut #i: usize = 0;
                    while #i < #p.len() {
                        vx_loop!(#name, #k, #dec, #inv);
                        vx_loop_start!(#name, #k);
                        #(#body)*
                        #i = #i + 1;
                    }
                    vx_loop_after!(#name, #k);
                }))
            }
            t => {
                self.problem(format!("map_inplace on {:?}", t));
                None
            }
        }
    }

    fn method(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        match name.as_str() {
            "for_each" => {
                let clo = self.closure_of(m.args.first()?)?;
                let chain = self.parse_adapter_or_seq(&m.receiver)?;
                let pat = clo.inputs.first()?.clone();
                let body = Self::body_stmts(&clo.body);
                let body = body
                    .into_iter()
                    .map(|s| match s {
                        Stmt::Expr(e, None) => Stmt::Expr(e, Some(Default::default())),
                        s => s,
                    })
                    .collect();
                let st = self.make_loop(&pat, &chain, body)?;
                Some(parse_quote!({ #(#st)* }))
            }
            "fold" if m.args.len() == 2 => {
                let clo = self.closure_of(&m.args[1])?;
                // an array folds over its elements in order
                let recv: Expr = match self.env.infer(&m.receiver) {
                    Ty::Arr1(_) if self.parse_iter(&m.receiver).is_none() => {
                        let r = &m.receiver;
                        parse_quote!(#r.iter())
                    }
                    _ => (*m.receiver).clone(),
                };
                let chain = self.parse_iter(&recv)?;
                if clo.inputs.len() != 2 {
                    return None;
                }
                let acc = format_ident!("vx_acc{}", self.loops);
                let mut init = m.args[0].clone();
                let ty = self.env.infer(&init);
                self.visit_expr_mut(&mut init);
                self.env.vars.insert(acc.to_string(), ty.clone());
                self.env.bind_pat(&clo.inputs[0], &ty);
                let (pa, body) = (&clo.inputs[0], &clo.body);
                let st = self.make_loop(&clo.inputs[1], &chain, vec![parse_quote!(let #pa = #acc;), parse_quote!(#acc = #body;)])?;
                Some(parse_quote!({ let mut #acc = #init; #(#st)* #acc }))
            }
            "any" | "all" if m.args.len() == 1 => {
                let clo = self.closure_of(&m.args[0])?;
                let chain = self.parse_iter(&m.receiver)?;
                if clo.inputs.len() != 1 {
                    return None;
                }
                let acc = format_ident!("vx_acc{}", self.loops);
                let body = &clo.body;
                // the closure has no effects, so looking at the rest changes nothing
                let (init, st): (Expr, Stmt) = if name == "any" {
                    (parse_quote!(false), parse_quote!(if #body { #acc = true; }))
                } else {
                    (parse_quote!(true), parse_quote!(if !(#body) { #acc = false; }))
                };
                let st = self.make_loop(&clo.inputs[0], &chain, vec![st])?;
                Some(parse_quote!({ let mut #acc = #init; #(#st)* #acc }))
            }
            "count" if m.args.is_empty() => {
                let chain = self.parse_iter(&m.receiver)?;
                let acc = format_ident!("vx_acc{}", self.loops);
                let st = self.make_loop(&parse_quote!(_), &chain, vec![parse_quote!(#acc = #acc + 1;)])?;
                Some(parse_quote!({ let mut #acc: usize = 0; #(#st)* #acc }))
            }
            "map_inplace" | "mapv_inplace" => {
                let clo = self.closure_of(m.args.first()?)?;
                let r = (*m.receiver).clone();
                self.map_inplace(&r, &clo, name == "mapv_inplace")
            }
            "collect" => {
                // CHAIN.map(|p| e).collect()
                if let Expr::MethodCall(mm) = peel(&m.receiver) {
                    if mm.method == "map" {
                        return self.map_collect(mm);
                    }
                    if ["filter", "skip", "take", "rev"].contains(&mm.method.to_string().as_str()) {
                        return self.chain_collect(&m.receiver);
                    }
                }
                None
            }
            "sum" => {
                if let Expr::MethodCall(mm) = peel(&m.receiver) {
                    if mm.method == "map" {
                        let c = self.map_collect(mm)?;
                        return Some(parse_quote!(crate::vx::vx_sum(&#c)));
                    }
                    if ["filter", "skip", "take", "rev"].contains(&mm.method.to_string().as_str()) {
                        let c = self.chain_collect(&m.receiver)?;
                        return Some(parse_quote!((#c).vx_fsum()));
                    }
                    if mm.method == "iter" {
                        let mut r = (*mm.receiver).clone();
                        self.visit_expr_mut(&mut r);
                        return Some(parse_quote!((#r).vx_fsum()));
                    }
                }
                if m.turbofish.is_some() {
                    // an iterator variable (a chunk)
                    let mut r = (*m.receiver).clone();
                    self.visit_expr_mut(&mut r);
                    return Some(parse_quote!((#r).vx_fsum()));
                }
                None
            }
            "max_by" => {
                let clo = self.closure_of(m.args.first()?)?;
                let chain = self.parse_adapter_or_seq(&m.receiver)?;
                let e = match chain {
                    Chain::Seq { e, m: false, copied: false } => e,
                    _ => return None,
                };
                let mut pre = vec![];
                let p = self.hoist(&e, false, &mut pre);
                let el = self.env.infer(&p);
                let el = self.env.elem(&el);
                let k = self.loops;
                self.loops += 1;
                let i = format_ident!("vx_i{}", k);
                let best = format_ident!("vx_b{}", k);
                let (pa, pb) = (clo.inputs[0].clone(), clo.inputs[1].clone());
                self.env.bind_pat(&pa, &el);
                self.env.bind_pat(&pb, &el);
                let mut body = (*clo.body).clone();
                self.visit_expr_mut(&mut body);
                let fname = self.fname.clone();
                let dec = format!("{}.len() - {}", q(&p), i);
                let inv = format!("0 <= {} <= {}.len()", i, q(&p));
                let mut binds = vec![];
                self.bind(&pa, &parse_quote!(#best), &el, &mut binds);
                self.bind(&pb, &parse_quote!(&#p[#i]), &el, &mut binds);
                Some(parse_quote!({
                    #(#pre)*
                    if #p.len() == 0 { None } else {
                        let mut #best = &#p[0];
                        let mut #i: usize = 1;
                        while #i < #p.len() {
                            vx_loop!(#fname, #k, #dec, #inv);
                            vx_loop_start!(#fname, #k);
                            let vx_ord = { #(#binds)* #body };
                            match vx_ord {
                                core::cmp::Ordering::Greater => (),
                                _ => { #best = &#p[#i]; }
                            }
                            #i = #i + 1;
                            vx_loop_end!(#fname, #k);
                        }
                        vx_loop_after!(#fname, #k);
                        Some(#best)
                    }
                }))
            }
            "position" => {
                let clo = self.closure_of(m.args.first()?)?;
                let chain = self.parse_adapter_or_seq(&m.receiver)?;
                let e = match chain {
                    Chain::Seq { e, m: false, copied: false } => e,
                    _ => return None,
                };
                let mut pre = vec![];
                let p = self.hoist(&e, false, &mut pre);
                let el = self.env.infer(&p);
                let el = self.env.elem(&el);
                let k = self.loops;
                self.loops += 1;
                let i = format_ident!("vx_i{}", k);
                let pa = clo.inputs[0].clone();
                self.env.bind_pat(&pa, &el);
                let mut body = (*clo.body).clone();
                self.visit_expr_mut(&mut body);
                let fname = self.fname.clone();
                let dec = format!("{}.len() - {}", q(&p), i);
                let inv = format!("0 <= {} <= {}.len()", i, q(&p));
                let mut binds = vec![];
                self.bind(&pa, &parse_quote!(&#p[#i]), &el, &mut binds);
                Some(parse_quote!({
                    #(#pre)*
                    let mut vx_pos: Option<usize> = None;
                    let mut #i: usize = 0;
                    while #i < #p.len() && vx_pos.is_none() {
                        vx_loop!(#fname, #k, #dec, #inv);
                        vx_loop_start!(#fname, #k);
                        #(#binds)*
                        if #body { vx_pos = Some(#i); }
                        #i = #i + 1;
                        vx_loop_end!(#fname, #k);
                    }
                    vx_loop_after!(#fname, #k);
                    vx_pos
                }))
            }
            "fill" => {
                if let Expr::Index(ix) = peel(&m.receiver) {
                    if let Expr::Range(r) = peel(&ix.index) {
                        let (s, t) = self.range_bounds(&ix.expr, r);
                        let mut b = (*ix.expr).clone();
                        self.visit_expr_mut(&mut b);
                        let mut v = m.args[0].clone();
                        self.visit_expr_mut(&mut v);
                        return Some(parse_quote!(crate::vx::vx_fill_range(&mut #b, #s, #t, #v)));
                    }
                }
                None
            }
            "slice" => {
                if let Some(Expr::Macro(mac)) = m.args.first().map(peel) {
                    if mac.mac.path.is_ident("s") {
                        return self.slice_s(&m.receiver, &mac.mac);
                    }
                }
                None
            }
            "sort_by" => {
                let mut r = (*m.receiver).clone();
                // only the ascending partial_cmp comparison is recognised
                let c = m.args.first()?.to_token_stream().to_string().replace(' ', "");
                if let Expr::MethodCall(mm) = peel(&r) {
                    if mm.method == "as_mut_slice" {
                        r = (*mm.receiver).clone();
                    }
                }
                self.visit_expr_mut(&mut r);
                if let Some(Expr::Closure(cl)) = m.args.first().map(peel) {
                    let a = cl.inputs[0].to_token_stream().to_string();
                    let b = cl.inputs[1].to_token_stream().to_string();
                    if c.contains(&format!("{}.partial_cmp({})", a, b)) || c.contains(&format!("{}.partial_cmp(&{})", a, b)) {
                        return Some(parse_quote!(crate::vx::vx_sort_f64(&mut #r)));
                    }
                }
                self.problem("sort_by with an unrecognised comparison");
                None
            }
            "row" | "column" | "row_mut" | "column_mut" => None,
            _ => None,
        }
    }
    fn parse_adapter_or_seq(&mut self, e: &Expr) -> Option<Chain> {
        self.parse_chain(e)
    }
    fn map_collect(&mut self, mm: &ExprMethodCall) -> Option<Expr> {
        let clo = self.closure_of(mm.args.first()?)?;
        let chain = self.parse_adapter_or_seq(&mm.receiver)?;
        let pat = clo.inputs.first()?.clone();
        let v = format_ident!("vx_c{}", self.loops);
        let body = (*clo.body).clone();
        let st = self.make_loop(&pat, &chain, vec![parse_quote!(#v.push(#body);)])?;
        Some(parse_quote!({ let mut #v = Vec::new(); #(#st)* #v }))
    }
    fn chain_collect(&mut self, e: &Expr) -> Option<Expr> {
        let chain = self.parse_iter(e)?;
        let v = format_ident!("vx_c{}", self.loops);
        let by_value = matches!(chain_base(&chain), Chain::Range(..) | Chain::Seq { copied: true, .. } | Chain::Map(..));
        let push: Stmt = if by_value { parse_quote!(#v.push(vx_e);) } else { parse_quote!(#v.push(*vx_e);) };
        let st = self.make_loop(&parse_quote!(vx_e), &chain, vec![push])?;
        Some(parse_quote!({ let mut #v = Vec::new(); #(#st)* #v }))
    }
    fn range_bounds(&mut self, base: &Expr, r: &ExprRange) -> (Expr, Expr) {
        let s: Expr = match &r.start {
            Some(s) => {
                let mut s = (**s).clone();
                self.visit_expr_mut(&mut s);
                s
            }
            None => parse_quote!(0),
        };
        let t: Expr = match &r.end {
            Some(t) => {
                let mut t = (**t).clone();
                self.visit_expr_mut(&mut t);
                if matches!(r.limits, RangeLimits::Closed(_)) {
                    t = parse_quote!((#t) + 1);
                }
                t
            }
            None => {
                let mut b = base.clone();
                self.visit_expr_mut(&mut b);
                parse_quote!(#b.len())
            }
        };
        (s, t)
    }
    fn slice_s(&mut self, recv: &Expr, mac: &Macro) -> Option<Expr> {
        let parts = syn::parse2::<VecList>(mac.tokens.clone()).ok()?.0;
        let mut rs = vec![];
        for p in &parts {
            if let Expr::Range(r) = peel(p) {
                rs.push(r.clone());
            } else {
                self.problem("s![] with a non-range index");
                return None;
            }
        }
        let mut b = recv.clone();
        self.visit_expr_mut(&mut b);
        if rs.len() == 1 {
            let (s, t) = self.range_bounds(recv, &rs[0]);
            return Some(parse_quote!(#b.vx_slice(#s, #t)));
        }
        if rs.len() == 2 && rs[0].start.is_none() && rs[0].end.is_none() {
            let s: Expr = match &rs[1].start {
                Some(_) => self.range_bounds(recv, &rs[1]).0,
                None => parse_quote!(0),
            };
            let t: Expr = match &rs[1].end {
                Some(_) => self.range_bounds(recv, &rs[1]).1,
                None => parse_quote!(#b.ncols()),
            };
            return Some(parse_quote!(#b.vx_slice_cols(#s, #t)));
        }
        self.problem("unsupported s![] shape");
        None
    }

    /// Inlines a call of an un-contracted helper of the same module.
    fn inline(&mut self, key: &str, recv: Option<()>, args: Vec<Expr>) -> Option<Expr> {
        let h = self.helpers.get(key)?.clone();
        if h.recv.is_some() != recv.is_some() || h.params.len() != args.len() || self.depth > 3 {
            return None;
        }
        let mut st: Vec<Stmt> = vec![];
        let base = self.tmp;
        self.tmp += args.len();
        let world = |i: usize| h.params[i].0 == "vx_w" && ident_of(&args[i]).as_deref() == Some("vx_w");
        for (i, a) in args.iter().enumerate() {
            if world(i) {
                continue;
            }
            let id = format_ident!("vx_h{}", base + i);
            // the type lets a `&mut T` argument be reborrowed
            let t = &h.params[i].1;
            st.push(parse_quote!(let #id: #t = #a;));
        }
        for (i, (p, t)) in h.params.iter().enumerate() {
            if world(i) {
                continue;
            }
            let id = format_ident!("vx_h{}", base + i);
            st.push(parse_quote!(let #p: #t = #id;));
        }
        st.extend(h.body.stmts.clone());
        let mut e: Expr = parse_quote!({ #(#st)* });
        self.depth += 1;
        self.visit_expr_mut(&mut e);
        self.depth -= 1;
        Some(e)
    }

    /// `f(a, b)` where `let f = |x, y| body` : `{ let x = a; let y = b; body }`
    fn call_closure(&mut self, c: &ExprCall) -> Option<Expr> {
        let clo = self.closure_of(&c.func)?;
        if matches!(peel(&c.func), Expr::Closure(_)) || clo.inputs.len() != c.args.len() || clo.capture.is_some() || self.depth > 3 {
            return None;
        }
        let text = format!(" {} ", clo.body.to_token_stream());
        if text.contains(" return ") || text.contains(" ? ") || text.contains(" ?;") {
            return None;
        }
        let base = self.tmp;
        self.tmp += c.args.len();
        let mut st: Vec<Stmt> = vec![];
        for (i, a) in c.args.iter().enumerate() {
            let id = format_ident!("vx_h{}", base + i);
            match &clo.inputs[i] {
                Pat::Type(pt) => {
                    let t = &pt.ty;
                    st.push(parse_quote!(let #id: #t = #a;));
                }
                _ => st.push(parse_quote!(let #id = #a;)),
            }
        }
        for (i, p) in clo.inputs.iter().enumerate() {
            let id = format_ident!("vx_h{}", base + i);
            match p {
                Pat::Type(pt) => {
                    let (p, t) = (&pt.pat, &pt.ty);
                    st.push(parse_quote!(let #p: #t = #id;));
                }
                p => st.push(parse_quote!(let #p = #id;)),
            }
        }
        st.extend(Self::body_stmts(&clo.body));
        let mut e: Expr = parse_quote!({ #(#st)* });
        self.depth += 1;
        self.visit_expr_mut(&mut e);
        self.depth -= 1;
        Some(e)
    }

    fn transform(&mut self, e: &Expr) -> Option<Expr> {
        match e {
            Expr::ForLoop(f) => {
                let chain = match self.parse_chain(&f.expr) {
                    Some(c) => c,
                    None => {
                        self.problem("unsupported for loop");
                        return None;
                    }
                };
                let pat = (*f.pat).clone();
                let st = self.make_loop(&pat, &chain, f.body.stmts.clone())?;
                Some(parse_quote!({ #(#st)* }))
            }
            Expr::While(w) => {
                let k = self.loops;
                self.loops += 1;
                let name = self.fname.clone();
                if let Expr::Let(l) = &*w.cond {
                    // while let P = E { B }  ->  loop { match E { P => B, _ => break } }
                    let (pat, mut x, mut blk) = (l.pat.clone(), (*l.expr).clone(), w.body.clone());
                    self.visit_expr_mut(&mut x);
                    self.inside.push(k);
                    self.visit_block_mut(&mut blk);
                    self.inside.pop();
                    let st = blk.stmts;
                    return Some(parse_quote!({
                        loop {
                            vx_loop!(#name, #k, "", "");
                            vx_loop_start!(#name, #k);
                            match #x {
                                #pat => { #(#st)* }
                                _ => { break; }
                            }
                            vx_loop_end!(#name, #k);
                        }
                        vx_loop_after!(#name, #k);
                    }));
                }
                let mut c = (*w.cond).clone();
                self.visit_expr_mut(&mut c);
                let mut blk = w.body.clone();
                self.inside.push(k);
                self.visit_block_mut(&mut blk);
                self.inside.pop();
                let st = blk.stmts;
                Some(parse_quote!({
                    while #c {
                        vx_loop!(#name, #k, "", "");
                        vx_loop_start!(#name, #k);
                        #(#st)*
                        vx_loop_end!(#name, #k);
                    }
                    vx_loop_after!(#name, #k);
                }))
            }
            Expr::Continue(c) => {
                // what the contracts say at the end of the body holds here as well
                let (name, k) = (self.fname.clone(), *self.inside.last()?);
                if c.label.is_some() {
                    return None;
                }
                Some(parse_quote!({ vx_loop_end!(#name, #k); continue; }))
            }
            Expr::Loop(_) => {
                self.problem("loop");
                None
            }
            Expr::MethodCall(m) => {
                if ident_of(&m.receiver).as_deref() == Some("self") {
                    let key = format!("{}::{}::{}", self.module, self.env.self_ty.clone().unwrap_or_default(), m.method);
                    if let Some(x) = self.inline(&key, Some(()), m.args.iter().cloned().collect()) {
                        return Some(x);
                    }
                }
                if let Some(r) = self.method(m) {
                    return Some(r);
                }
                let name = m.method.to_string();
                // colview.max() etc
                if let Some(id) = ident_of(&m.receiver) {
                    if let Some((mm, c)) = self.colviews.get(&id).cloned() {
                        let meth = &m.method;
                        let args = &m.args;
                        return Some(parse_quote!(#mm.vx_column(#c).#meth(#args)));
                    }
                }
                if name == "as_mut" && m.args.is_empty() {
                    // Box<dyn Trait>::as_mut, passed where a shared reference is expected
                    let mut rcv = (*m.receiver).clone();
                    self.visit_expr_mut(&mut rcv);
                    return Some(parse_quote!(&*#rcv));
                }
                let ren = match name.as_str() {
                    "expect" | "unwrap" => Some("vx_unwrap"),
                    "to_vec" => Some("vx_to_vec"),
                    "view" => Some("vx_view"),
                    "resize" => Some("vx_resize"),
                    "extend" => Some("vx_extend"),
                    "to_owned" if matches!(self.env.infer(&m.receiver), Ty::Arr1(_) | Ty::Arr2) => Some("vx_to_owned"),
                    "clone" => Some("vx_clone"),
                    "partial_cmp" => Some("vx_partial_cmp"),
                    "with_capacity" => None,
                    _ => None,
                };
                if let Some(r) = ren {
                    let mut rcv = (*m.receiver).clone();
                    self.visit_expr_mut(&mut rcv);
                    // a panic of these unwraps is caused by NaN (or an empty
                    // collection, which stays an obligation)
                    let nan = r == "vx_unwrap"
                        && match &*m.receiver {
                            Expr::MethodCall(i) => {
                                let n = i.method.to_string();
                                n == "partial_cmp" || (matches!(n.as_str(), "max" | "min") && i.args.is_empty())
                            }
                            _ => false,
                        };
                    let id = if nan { format_ident!("vx_unwrap_nan") } else { format_ident!("{}", r) };
                    let args: Vec<Expr> = if r == "vx_unwrap" {
                        vec![]
                    } else {
                        m.args
                            .iter()
                            .map(|a| {
                                let mut a = a.clone();
                                self.visit_expr_mut(&mut a);
                                a
                            })
                            .collect()
                    };
                    return Some(parse_quote!(#rcv.#id(#(#args),*)));
                }
                if matches!(name.as_str(), "abs" | "signum" | "max" | "min") {
                    // `f64` methods have no literal receivers issue; ints are native
                }
                None
            }
            Expr::Try(t) => {
                let mut x = (*t.expr).clone();
                self.visit_expr_mut(&mut x);
                match self.ret {
                    RetKind::Option => Some(parse_quote!(match #x { Some(vx_v) => vx_v, None => { return None; } })),
                    RetKind::Result => Some(
                        parse_quote!(match #x { Ok(vx_v) => vx_v, Err(vx_e) => { return Err(crate::vx::vx_from(vx_e)); } }),
                    ),
                    RetKind::Other => {
                        self.problem("? in a function without Option/Result");
                        None
                    }
                }
            }
            Expr::Call(c) => {
                if let Some(x) = self.call_closure(c) {
                    return Some(x);
                }
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let key = match segs.len() {
                        1 => Some(format!("{}::{}", self.module, segs[0])),
                        2 if segs[0] == "Self" || Some(&segs[0]) == self.env.self_ty.as_ref() => Some(format!(
                            "{}::{}::{}",
                            self.module,
                            self.env.self_ty.clone().unwrap_or_default(),
                            segs[1]
                        )),
                        _ => None,
                    };
                    if let Some(x) = key.and_then(|k| self.inline(&k, None, c.args.iter().cloned().collect())) {
                        return Some(x);
                    }
                }
                let fun = c.func.to_token_stream().to_string().replace(' ', "");
                if c.args.len() == 2 && ["std::cmp::min", "std::cmp::max", "core::cmp::min", "core::cmp::max", "cmp::min", "cmp::max"].contains(&fun.as_str()) {
                    let id = format_ident!("{}", fun.rsplit("::").next().unwrap());
                    let (mut x, mut y) = (c.args[0].clone(), c.args[1].clone());
                    self.visit_expr_mut(&mut x);
                    self.visit_expr_mut(&mut y);
                    return Some(parse_quote!((#x).#id(#y)));
                }
                if fun == "f64::from" && c.args.len() == 1 {
                    let mut x = c.args[0].clone();
                    if self.env.infer(&x) != Ty::F && !is_float_lit(&x) {
                        self.visit_expr_mut(&mut x);
                        return Some(parse_quote!((#x).vx_as_f64()));
                    }
                }
                // Err(Box::new(E)) -> Err(from(E))
                if let (Expr::Path(p), Some(Expr::Call(inner))) = (&*c.func, c.args.first().map(peel)) {
                    if p.path.is_ident("Err") {
                        if inner.func.to_token_stream().to_string().replace(' ', "") == "Box::new" {
                            let mut a = inner.args[0].clone();
                            self.visit_expr_mut(&mut a);
                            return Some(parse_quote!(Err(crate::vx::vx_from(#a))));
                        }
                    }
                }
                None
            }
            Expr::Cast(c) => {
                let ty = c.ty.to_token_stream().to_string();
                let known = ["f64", "f32", "usize", "u64", "u32", "i64", "i32", "i16", "u16"];
                if !known.contains(&ty.as_str()) {
                    self.problem(format!("cast to {}", ty));
                    return None;
                }
                if let Some(v) = lit_int(&c.expr) {
                    if ty == "f64" {
                        let l: Expr = syn::parse_str(&format!("{}.0f64", v)).ok()?;
                        return Some(l);
                    }
                    let l: Expr = syn::parse_str(&format!("{}{}", v, ty)).ok()?;
                    return Some(l);
                }
                let mut x = (*c.expr).clone();
                self.visit_expr_mut(&mut x);
                let id = format_ident!("vx_as_{}", ty);
                Some(parse_quote!((#x).#id()))
            }
            Expr::Unary(u) => {
                if let UnOp::Neg(_) = u.op {
                    if matches!(peel(&u.expr), Expr::Lit(_)) {
                        return None;
                    }
                    let mut x = (*u.expr).clone();
                    self.visit_expr_mut(&mut x);
                    return Some(parse_quote!((#x).vx_neg()));
                }
                None
            }
            Expr::Index(ix) => {
                // X.row(r)[c], X.column(c)[r]
                if let Expr::MethodCall(m) = peel(&ix.expr) {
                    let n = m.method.to_string();
                    if ["row", "row_mut", "column", "column_mut"].contains(&n.as_str()) {
                        let mut b = (*m.receiver).clone();
                        let mut a = m.args[0].clone();
                        let mut i = (*ix.index).clone();
                        self.visit_expr_mut(&mut b);
                        self.visit_expr_mut(&mut a);
                        self.visit_expr_mut(&mut i);
                        return Some(if n.starts_with("row") {
                            parse_quote!(#b[(#a, #i)])
                        } else {
                            parse_quote!(#b[(#i, #a)])
                        });
                    }
                }
                if let Expr::Range(r) = peel(&ix.index) {
                    if r.start.is_none() && r.end.is_none() {
                        let mut b = (*ix.expr).clone();
                        self.visit_expr_mut(&mut b);
                        if let Expr::Path(p) = &b {
                            if p.path.get_ident().is_some_and(|i| self.mutrefs.contains(&i.to_string())) {
                                return Some(parse_quote!((*#b)));
                            }
                        }
                        return Some(b);
                    }
                    let (s, t) = self.range_bounds(&ix.expr, r);
                    let mut b = (*ix.expr).clone();
                    self.visit_expr_mut(&mut b);
                    // a subslice is an unsized place; every use takes a reference or
                    // copies it, so the reference itself stands for it
                    return Some(parse_quote!((*crate::vx::vx_sub(&#b, #s, #t))));
                }
                // [[a, b]] style index
                if let Expr::Array(a) = peel(&ix.index) {
                    if a.elems.len() == 2 {
                        let mut b = (*ix.expr).clone();
                        let (mut i, mut j) = (a.elems[0].clone(), a.elems[1].clone());
                        self.visit_expr_mut(&mut b);
                        self.visit_expr_mut(&mut i);
                        self.visit_expr_mut(&mut j);
                        return Some(parse_quote!(#b[(#i, #j)]));
                    }
                }
                None
            }
            Expr::Binary(b) => {
                use BinOp::*;
                // compound assignment
                let op: Option<BinOp> = match b.op {
                    AddAssign(_) => Some(Add(Default::default())),
                    SubAssign(_) => Some(Sub(Default::default())),
                    MulAssign(_) => Some(Mul(Default::default())),
                    DivAssign(_) => Some(Div(Default::default())),
                    RemAssign(_) => Some(Rem(Default::default())),
                    BitOrAssign(_) => Some(BitOr(Default::default())),
                    BitAndAssign(_) => Some(BitAnd(Default::default())),
                    BitXorAssign(_) => Some(BitXor(Default::default())),
                    ShlAssign(_) => Some(Shl(Default::default())),
                    ShrAssign(_) => Some(Shr(Default::default())),
                    _ => None,
                };
                if let Some(op) = op {
                    let (l, r) = (&b.left, &b.right);
                    let rhs: Expr = match peel(r) {
                        Expr::Binary(_) | Expr::Cast(_) | Expr::If(_) | Expr::Unary(_) => parse_quote!((#r)),
                        _ => (**r).clone(),
                    };
                    let mut e: Expr = parse_quote!(#l = #l #op #rhs);
                    self.visit_expr_mut(&mut e);
                    return Some(e);
                }
                let lt = self.env.infer(&b.left);
                let rt = self.env.infer(&b.right);
                let is_arr = |t: &Ty| matches!(t, Ty::Arr1(_) | Ty::Arr2);
                let opn = match b.op {
                    Add(_) => "add",
                    Sub(_) => "sub",
                    Mul(_) => "mul",
                    Div(_) => "div",
                    _ => return None,
                };
                if is_arr(&lt) || lt == Ty::C || rt == Ty::C {
                    let (mut l, mut r) = ((*b.left).clone(), (*b.right).clone());
                    self.visit_expr_mut(&mut l);
                    self.visit_expr_mut(&mut r);
                    if is_arr(&lt) && is_arr(&rt) {
                        let id = format_ident!("vx_{}", opn);
                        return Some(parse_quote!((#l).#id(&(#r))));
                    } else if is_arr(&lt) {
                        let id = format_ident!("vx_{}_s", opn);
                        return Some(parse_quote!((#l).#id(#r)));
                    } else if lt == Ty::C && rt == Ty::C {
                        let id = format_ident!("vx_c{}", opn);
                        return Some(parse_quote!((#l).#id(&(#r))));
                    } else if lt == Ty::C {
                        let id = format_ident!("vx_c{}_s", opn);
                        return Some(parse_quote!((#l).#id(#r)));
                    }
                    if rt == Ty::C && !is_arr(&lt) {
                        let id = format_ident!("vx_sc_{}", opn);
                        return Some(parse_quote!(crate::ext::#id(#l, &(#r))));
                    }
                    self.problem("array/complex operator with a scalar on the left");
                }
                None
            }
            Expr::Path(p) => {
                let s = p.path.to_token_stream().to_string().replace(' ', "");
                match s.as_str() {
                    "f64::MIN" | "std::f64::MIN" => Some(parse_quote!(crate::vx::F64_MIN)),
                    "f64::MAX" => Some(parse_quote!(crate::vx::F64_MAX)),
                    "f64::EPSILON" => Some(parse_quote!(crate::vx::F64_EPSILON)),
                    "std::f64::consts::PI" | "core::f64::consts::PI" | "f64::consts::PI" | "consts::PI" | "PI" if s != "PI" || !self.env.vars.contains_key("PI") => Some(parse_quote!(crate::vx::F64_PI)),
                    "f64::INFINITY" => Some(parse_quote!(crate::vx::f64_infinity())),
                    "f64::NEG_INFINITY" => Some(parse_quote!(crate::vx::f64_neg_infinity())),
                    "f64::NAN" => Some(parse_quote!(crate::vx::f64_nan())),
                    _ => None,
                }
            }
            Expr::Macro(m) => {
                let n = m.mac.path.segments.last().unwrap().ident.to_string();
                match n.as_str() {
                    "vec" => {
                        if let Ok(r) = syn::parse2::<VecRepeat>(m.mac.tokens.clone()) {
                            let (mut a, mut b) = (r.elem, r.len);
                            self.visit_expr_mut(&mut a);
                            self.visit_expr_mut(&mut b);
                            return Some(parse_quote!(crate::vx::vx_vec(#a, #b)));
                        }
                        None
                    }
                    "panic" | "unreachable" | "todo" => Some(parse_quote!(crate::vx::vx_panic())),
                    _ => {
                        self.problem(format!("macro {}!", n));
                        None
                    }
                }
            }
            _ => None,
        }
    }
}

pub fn ident_of(e: &Expr) -> Option<String> {
    match peel(e) {
        Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
        _ => None,
    }
}

impl<'a> VisitMut for Low<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Some(n) = self.transform(e) {
            *e = n;
            return;
        }
        match e {
            Expr::If(i) => {
                visit_mut::visit_expr_mut(self, &mut i.cond);
                // the condition itself may be a transformable node
                let mut c = (*i.cond).clone();
                if let Some(n) = self.transform(&c) {
                    c = n;
                }
                *i.cond = c;
                self.visit_block_mut(&mut i.then_branch);
                if let Some((_, x)) = &mut i.else_branch {
                    self.visit_expr_mut(x);
                }
            }
            Expr::Closure(c) => {
                let _ = c;
                self.problem("closure outside a recognised iterator chain");
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
    fn visit_pat_mut(&mut self, _p: &mut Pat) {}
    fn visit_type_mut(&mut self, t: &mut Type) {
        map_type(t);
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        map_path(p);
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let old = std::mem::take(&mut b.stmts);
        let texts: Vec<String> = old.iter().map(|s| s.to_token_stream().to_string()).collect();
        let rest = old.clone();
        for (at, s) in old.into_iter().enumerate() {
            match s {
                Stmt::Macro(m) => {
                    let path = m.mac.path.to_token_stream().to_string().replace(' ', "");
                    let last = m.mac.path.segments.last().unwrap().ident.to_string();
                    if path.starts_with("vx_") {
                        b.stmts.push(Stmt::Macro(m));
                    } else if path.starts_with("log::")
                        || ["warn", "info", "debug", "trace", "error", "eprintln", "debug_assert"].contains(&last.as_str())
                    {
                        // dropped: logging
                    } else if last == "assert" {
                        if let Ok(l) = syn::parse2::<VecList>(m.mac.tokens.clone()) {
                            let mut c = l.0[0].clone();
                            self.visit_expr_mut(&mut c);
                            b.stmts.push(parse_quote!(crate::vx::vx_assert(#c);));
                        }
                    } else if last == "assert_eq" {
                        if let Ok(l) = syn::parse2::<VecList>(m.mac.tokens.clone()) {
                            let (x, y) = (&l.0[0], &l.0[1]);
                            let mut c: Expr = parse_quote!(#x == #y);
                            self.visit_expr_mut(&mut c);
                            b.stmts.push(parse_quote!(crate::vx::vx_assert(#c);));
                        }
                    } else if m.semi_token.is_none() || last == "vec" || last == "panic" || last == "unreachable" {
                        let mut e = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() });
                        self.visit_expr_mut(&mut e);
                        b.stmts.push(Stmt::Expr(e, m.semi_token));
                    } else {
                        self.problem(format!("macro {}!", path));
                    }
                }
                Stmt::Local(mut l) => {
                    let mut name = None;
                    let mut p = &l.pat;
                    if let Pat::Type(t) = p {
                        p = &t.pat;
                    }
                    if let Pat::Ident(i) = p {
                        name = Some(i.ident.to_string());
                    }
                    if let (Some(n), Some(init)) = (&name, &l.init) {
                        if let Expr::Closure(c) = peel(&init.expr) {
                            // its body is put where it is used: what it captures must be the same there
                            if recaptured(c, &rest[at + 1..]) {
                                self.problem("closure whose captures are bound again");
                            }
                            self.closures.insert(n.clone(), c.clone());
                            continue;
                        }
                        if let (Expr::MethodCall(mc), Pat::Ident(pi)) = (peel(&init.expr), p) {
                            const AD: [&str; 8] = ["iter", "enumerate", "zip", "skip", "take", "rev", "filter", "step_by"];
                            let next = texts.get(at + 1).map(|t| uses_of(t, n)).unwrap_or(0);
                            let later: usize = texts.iter().skip(at + 2).map(|t| uses_of(t, n)).sum();
                            if AD.contains(&mc.method.to_string().as_str()) && pi.mutability.is_none() && next == 1 && later == 0 {
                                self.iters.insert(n.clone(), init.expr.as_ref().clone());
                                continue;
                            }
                        }
                        let mut ie = peel(&init.expr);
                        if let Expr::Reference(r) = ie {
                            ie = peel(&r.expr);
                        }
                        if let Expr::MethodCall(mc) = ie {
                            if mc.method == "index_axis_mut" || mc.method == "column_mut" || mc.method == "index_axis" {
                                let axis = if mc.method == "column_mut" {
                                    "Axis(1)".into()
                                } else {
                                    mc.args[0].to_token_stream().to_string().replace(' ', "")
                                };
                                let ixp = if mc.method == "column_mut" { 0 } else { 1 };
                                if axis == "Axis(1)" && is_simple_place(&mc.receiver) {
                                    self.colviews.insert(
                                        n.clone(),
                                        ((*mc.receiver).clone(), mc.args[ixp].clone()),
                                    );
                                    continue;
                                }
                            }
                        }
                    }
                    let ty = match &l.init {
                        Some(i) => self.env.infer(&i.expr),
                        None => Ty::Unknown,
                    };
                    if let Some(i) = &mut l.init {
                        self.visit_expr_mut(&mut i.expr);
                        if let Some((_, d)) = &mut i.diverge {
                            self.visit_expr_mut(d);
                        }
                    }
                    if let Pat::Type(t) = &mut l.pat {
                        self.visit_type_mut(&mut t.ty);
                    }
                    self.env.bind_pat(&l.pat, &ty);
                    b.stmts.push(Stmt::Local(l));
                }
                Stmt::Expr(mut e, semi) => {
                    // assignment to an uninitialised local gives it a type
                    if let Expr::Assign(a) = &e {
                        if let Some(id) = ident_of(&a.left) {
                            if self.env.vars.get(&id).map(|t| *t == Ty::Unknown).unwrap_or(true) {
                                let t = self.env.infer(&a.right);
                                self.env.vars.insert(id, t);
                            }
                        }
                    }
                    let was_for = matches!(e, Expr::ForLoop(_) | Expr::While(_));
                    self.visit_expr_mut(&mut e);
                    // m[(m.nrows() - 1, i)] = v: evaluate the value and the index first
                    if let Expr::Assign(a) = &e {
                        if let Expr::Index(ix) = &*a.left {
                            let has_call = ix.index.to_token_stream().to_string().contains("()");
                            if matches!(&*ix.index, Expr::Tuple(_)) && has_call {
                                let (b2, i2, r2) = (&ix.expr, &ix.index, &a.right);
                                e = parse_quote!({ let vx_rhs = #r2; let vx_ix = #i2; #b2[vx_ix] = vx_rhs; });
                            }
                        }
                    }
                    // an empty statement `;`
                    if let Expr::Verbatim(v) = &e {
                        if v.is_empty() {
                            continue;
                        }
                    }
                    if was_for {
                        if let Expr::Block(blk) = &e {
                            // keep names of loop temporaries local, but flatten a
                            // loop whose block only wraps it
                            b.stmts.push(Stmt::Expr(Expr::Block(blk.clone()), semi));
                            continue;
                        }
                    }
                    b.stmts.push(Stmt::Expr(e, semi));
                }
                Stmt::Item(mut it) => {
                    if let Item::Const(c) = &mut it {
                        c.vis = Visibility::Inherited;
                        self.env.vars.insert(c.ident.to_string(), parse_ty(&c.ty, None));
                        b.stmts.push(Stmt::Item(it));
                    } else {
                        self.problem("nested item");
                    }
                }
            }
        }
        let _ = is_float_lit;
        let _ = quote!();
    }
}

/// does a later statement bind a name again that the closure uses and does not bind itself?
fn recaptured(c: &ExprClosure, rest: &[Stmt]) -> bool {
    #[derive(Default)]
    struct Names {
        bound: std::collections::HashSet<String>,
        used: std::collections::HashSet<String>,
    }
    impl<'a> syn::visit::Visit<'a> for Names {
        fn visit_pat_ident(&mut self, i: &'a PatIdent) {
            self.bound.insert(i.ident.to_string());
            syn::visit::visit_pat_ident(self, i);
        }
        fn visit_expr_path(&mut self, p: &'a ExprPath) {
            if let Some(i) = p.path.get_ident() {
                self.used.insert(i.to_string());
            }
        }
    }
    use syn::visit::Visit;
    let (mut own, mut later) = (Names::default(), Names::default());
    own.visit_expr_closure(c);
    for s in rest {
        later.visit_stmt(s);
    }
    own.used.iter().any(|n| !own.bound.contains(n) && later.bound.contains(n))
}

/// Box<dyn Error> -> crate::vx::VxError
pub fn map_type(t: &mut Type) {
    if let Type::Path(p) = t {
        if let Some(seg) = p.path.segments.last() {
            if seg.ident == "Box" {
                let s = seg.arguments.to_token_stream().to_string().replace(' ', "");
                if s.contains("dynError") || s.contains("dynstd::error::Error") {
                    *t = parse_quote!(crate::vx::VxError);
                }
            }
        }
    }
}
/// external crate paths -> shim modules
pub fn map_path(p: &mut Path) {
    const EXT: [&str; 9] = [
        "ndarray", "num", "num_traits", "rustfft", "hound", "ffsvm", "itertools", "ndarray_stats", "csv",
    ];
    if p.segments.len() > 1 {
        let first = p.segments[0].ident.to_string();
        if EXT.contains(&first.as_str()) {
            let last = p.segments.last().unwrap().clone();
            // ndarray::Array2::<f64>::zeros -> keep from the first upper-case segment on
            let mut segs: Vec<PathSegment> = vec![parse_quote!(crate), parse_quote!(ext)];
            let mut on = false;
            for s in p.segments.iter() {
                let up = s.ident.to_string().chars().next().unwrap().is_uppercase();
                if up {
                    on = true;
                }
                if on {
                    segs.push(s.clone());
                }
            }
            if !on {
                segs.push(last);
            }
            p.segments = segs.into_iter().collect();
            p.leading_colon = None;
        }
    }
}
