//! Pass over the modules of the command line program, before `lower`:
//! effects become explicit. Functions that print or write files, directly or through a
//! function they call, take the world (console and files) as an extra `&mut`
//! parameter, and formatting macros become calls that build the text.
use quote::ToTokens;
use std::collections::HashSet;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub fn is_cli(source: &str) -> bool {
    source.starts_with("visqol/src/")
}

const PRINT: [&str; 2] = ["println", "print"];
/// methods of external types that act on the world
const WORLD_METHODS: [&str; 7] = ["printstd", "serialize", "write_record", "flush", "write_all", "open", "print_tty"];

fn last(p: &Path) -> String {
    p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
}
/// the type a chain of builder calls starts from: `T::new().a(..).b(..)` -> T
fn root(e: &Expr) -> String {
    match e {
        Expr::MethodCall(m) => root(&m.receiver),
        Expr::Paren(p) => root(&p.expr),
        Expr::Call(c) => match &*c.func {
            Expr::Path(p) if p.path.segments.len() >= 2 => p.path.segments[p.path.segments.len() - 2].ident.to_string(),
            _ => String::new(),
        },
        _ => String::new(),
    }
}

struct Uses<'a> {
    known: &'a HashSet<String>,
    yes: bool,
}
impl<'a, 'b> syn::visit::Visit<'a> for Uses<'b> {
    fn visit_macro(&mut self, m: &'a Macro) {
        if PRINT.contains(&last(&m.path).as_str()) {
            self.yes = true;
        }
    }
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
        let n = m.method.to_string();
        if WORLD_METHODS.contains(&n.as_str()) || (n == "from_path" && root(&m.receiver) == "WriterBuilder") {
            self.yes = true;
        }
        syn::visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_call(&mut self, c: &'a ExprCall) {
        if let Expr::Path(p) = &*c.func {
            let l = last(&p.path);
            if (p.path.segments.len() == 1 || p.path.segments[0].ident != "Self") && self.known.contains(&l) {
                self.yes = true;
            }
            if is_fs_write(&p.path) {
                self.yes = true;
            }
        }
        syn::visit::visit_expr_call(self, c);
    }
}
fn is_fs_write(p: &Path) -> bool {
    let s = p.to_token_stream().to_string().replace(' ', "");
    s.ends_with("fs::write") || s.ends_with("File::create")
}
fn fns(f: &File) -> Vec<&ItemFn> {
    f.items.iter().filter_map(|i| if let Item::Fn(f) = i { Some(f) } else { None }).collect()
}
/// names of the free functions of these files that act on the world
pub fn effects(files: &[&File]) -> HashSet<String> {
    let mut known = HashSet::new();
    loop {
        let mut n = known.clone();
        for f in files {
            for x in fns(f) {
                let mut u = Uses { known: &known, yes: false };
                syn::visit::Visit::visit_block(&mut u, &x.block);
                if u.yes {
                    n.insert(x.sig.ident.to_string());
                }
            }
        }
        if n == known {
            return n;
        }
        known = n;
    }
}

pub fn prepass(f: &mut File, eff: &HashSet<String>) {
    for i in f.items.iter_mut() {
        match i {
            Item::Fn(x) => {
                if eff.contains(&x.sig.ident.to_string()) {
                    x.sig.inputs.push(parse_quote!(vx_w: &mut crate::cli::VxWorld));
                }
                Pre { eff }.visit_item_fn_mut(x);
            }
            Item::Use(u) => {
                // visqol_rs::x -> crate::x
                if let UseTree::Path(p) = &mut u.tree {
                    if p.ident == "visqol_rs" {
                        p.ident = syn::Ident::new("crate", proc_macro2::Span::call_site());
                    }
                }
            }
            x => Pre { eff }.visit_item_mut(x),
        }
    }
    // use visqol_rs::{a::B, c::D} -> one use each is handled by the leaves
    let mut items = vec![];
    for i in std::mem::take(&mut f.items) {
        match i {
            Item::Mod(m) if m.content.is_none() => {
                let n = &m.ident;
                items.push(parse_quote!(use crate::#n;));
            }
            x => items.push(x),
        }
    }
    f.items = items;
}

struct Args(Vec<Expr>, Vec<(String, Expr)>, LitStr);
impl syn::parse::Parse for Args {
    fn parse(input: syn::parse::ParseStream) -> Result<Self> {
        let f: LitStr = input.parse()?;
        let (mut pos, mut named) = (vec![], vec![]);
        while !input.is_empty() {
            input.parse::<Token![,]>()?;
            if input.is_empty() {
                break;
            }
            if input.peek(Ident) && input.peek2(Token![=]) && !input.peek2(Token![==]) {
                let n: Ident = input.parse()?;
                input.parse::<Token![=]>()?;
                named.push((n.to_string(), input.parse()?));
            } else {
                pos.push(input.parse()?);
            }
        }
        Ok(Args(pos, named, f))
    }
}
/// the text a format string and its arguments stand for
fn text_of(toks: proc_macro2::TokenStream, pre: &mut Pre) -> Option<Expr> {
    if toks.is_empty() {
        return Some(parse_quote!(crate::cli::VxText::new()));
    }
    let Args(pos, named, f) = syn::parse2::<Args>(toks).ok()?;
    let mut e: Expr = parse_quote!(crate::cli::VxText::new());
    let mut lit = String::new();
    let mut next = 0;
    let v = f.value();
    let mut it = v.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            '{' if it.peek() == Some(&'{') => {
                it.next();
                lit.push('{');
            }
            '}' => {
                it.next();
                lit.push('}');
            }
            '{' => {
                let mut s = String::new();
                for c in it.by_ref() {
                    if c == '}' {
                        break;
                    }
                    s.push(c);
                }
                let (name, opt) = match s.split_once(':') {
                    Some((a, b)) => (a.to_string(), b.to_string()),
                    None => (s.clone(), String::new()),
                };
                let mut a: Expr = if name.is_empty() {
                    next += 1;
                    pos.get(next - 1)?.clone()
                } else if let Ok(i) = name.parse::<usize>() {
                    pos.get(i)?.clone()
                } else if let Some((_, x)) = named.iter().find(|x| x.0 == name) {
                    x.clone()
                } else {
                    syn::parse_str(&name).ok()?
                };
                pre.visit_expr_mut(&mut a);
                if !lit.is_empty() {
                    e = parse_quote!(#e.vx_lit(#lit));
                    lit.clear();
                }
                e = if opt.is_empty() { parse_quote!(#e.vx_show(&(#a))) } else { parse_quote!(#e.vx_showf(&(#a), #opt)) };
            }
            c => lit.push(c),
        }
    }
    if !lit.is_empty() {
        e = parse_quote!(#e.vx_lit(#lit));
    }
    Some(e)
}

struct Pre<'a> {
    eff: &'a HashSet<String>,
}
impl<'a> Pre<'a> {
    fn mac(&mut self, m: &Macro) -> Option<Expr> {
        match last(&m.path).as_str() {
            "println" => {
                let t = text_of(m.tokens.clone(), self)?;
                Some(parse_quote!(vx_w.vx_println(#t)))
            }
            "print" => {
                let t = text_of(m.tokens.clone(), self)?;
                Some(parse_quote!(vx_w.vx_print(#t)))
            }
            "format" => {
                let t = text_of(m.tokens.clone(), self)?;
                Some(parse_quote!(#t.vx_string()))
            }
            "env" => {
                let l: LitStr = syn::parse2(m.tokens.clone()).ok()?;
                Some(parse_quote!(crate::cli::vx_env(#l)))
            }
            _ => None,
        }
    }
    fn row(e: &Expr) -> Option<Expr> {
        let v: Vec<Expr> = match e {
            Expr::Tuple(t) => t.elems.iter().cloned().collect(),
            Expr::Array(t) => t.elems.iter().cloned().collect(),
            Expr::Reference(r) => return Self::row(&r.expr),
            _ => return None,
        };
        let mut r: Expr = parse_quote!(crate::cli::VxRow::new());
        for x in v {
            r = parse_quote!(#r.vx_cell(&(#x)));
        }
        Some(r)
    }
    fn stringy(e: &Expr) -> bool {
        match e {
            Expr::Reference(_) => true,
            Expr::Lit(l) => matches!(l.lit, Lit::Str(_)),
            _ => false,
        }
    }
    fn node(&mut self, e: &Expr) -> Option<Expr> {
        match e {
            Expr::Macro(m) if last(&m.mac.path) == "vec" => {
                let mut m = m.clone();
                let ps = m.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
                let mut v: Vec<Expr> = ps.into_iter().collect();
                for x in v.iter_mut() {
                    self.visit_expr_mut(x);
                }
                m.mac.tokens = quote::quote!(#(#v),*);
                Some(Expr::Macro(m))
            }
            Expr::Macro(m) => self.mac(&m.mac),
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let s = p.path.to_token_stream().to_string().replace(' ', "");
                    if ["TermLogger::init", "SimpleLogger::init", "CombinedLogger::init", "WriteLogger::init"].iter().any(|x| s.ends_with(x)) {
                        return Some(parse_quote!(crate::cli::vx_logger()));
                    }
                    if s == "String::from" {
                        let a = &c.args[0];
                        return Some(parse_quote!(crate::cli::vx_string(#a)));
                    }
                    if s == "String::new" {
                        return Some(parse_quote!(crate::cli::vx_empty()));
                    }
                    if s.starts_with("serde_json::") {
                        let l = p.path.segments.last().unwrap();
                        let a = &c.args;
                        return Some(parse_quote!(crate::cli::#l(#a)));
                    }
                    if self.eff.contains(&last(&p.path)) && p.path.segments.first().map(|s| s.ident != "Self").unwrap_or(true) {
                        let mut c = c.clone();
                        c.args.push(parse_quote!(vx_w));
                        return Some(Expr::Call(c));
                    }
                }
                None
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let r = &m.receiver;
                match n.as_str() {
                    "serialize" | "write_record" => {
                        let row = Self::row(m.args.first()?)?;
                        Some(parse_quote!(#r.vx_row(#row, vx_w)))
                    }
                    "printstd" | "print_tty" | "flush" | "write_all" | "open" => {
                        let mut m = m.clone();
                        m.args.push(parse_quote!(vx_w));
                        Some(Expr::MethodCall(m))
                    }
                    "from_path" if root(r) == "WriterBuilder" => {
                        let mut m = m.clone();
                        m.args.push(parse_quote!(vx_w));
                        Some(Expr::MethodCall(m))
                    }
                    "to_string" => Some(parse_quote!(crate::cli::vx_to_string(&(#r)))),
                    "as_bytes" => Some(parse_quote!(crate::cli::vx_bytes(&(#r)))),
                    "push" if matches!(m.args.first(), Some(Expr::Lit(ExprLit { lit: Lit::Char(_), .. }))) => {
                        let a = &m.args[0];
                        Some(parse_quote!(crate::cli::vx_append_char(&mut #r, #a)))
                    }
                    "push_str" => {
                        let a = &m.args[0];
                        Some(parse_quote!(crate::cli::vx_append(&mut #r, #a)))
                    }
                    "expect" => Some(parse_quote!(crate::cli::vx_must(#r))),
                    "unwrap_or_else" => {
                        if let Some(Expr::Closure(c)) = m.args.first() {
                            if let Expr::Macro(x) = &*c.body {
                                if last(&x.mac.path) == "panic" {
                                    return Some(parse_quote!(crate::cli::vx_must(#r)));
                                }
                            }
                        }
                        None
                    }
                    "and_then" => {
                        if let Some(Expr::Closure(c)) = m.args.first() {
                            let (p, b) = (c.inputs.first()?, &c.body);
                            return Some(parse_quote!(match #r { Ok(#p) => #b, Err(vx_e) => Err(vx_e) }));
                        }
                        None
                    }
                    "next" => {
                        if let Expr::MethodCall(x) = &**r {
                            if x.method == "records" {
                                let r = &x.receiver;
                                return Some(parse_quote!(#r.vx_next_record()));
                            }
                        }
                        None
                    }
                    _ => None,
                }
            }
            Expr::ForLoop(f) => {
                if let Expr::MethodCall(x) = &*f.expr {
                    if x.method == "records" || x.method == "into_records" {
                        let (r, p, b) = (&x.receiver, &f.pat, &f.body);
                        return Some(parse_quote!(while let Some(#p) = #r.vx_next_record() #b));
                    }
                }
                None
            }
            // the whole of a text
            Expr::Index(i) if matches!(&*i.index, Expr::Range(r) if r.start.is_none() && r.end.is_none()) => Some((*i.expr).clone()),
            Expr::Binary(b) => match b.op {
                BinOp::Add(_) if Self::stringy(&b.right) => {
                    let (l, r) = (&b.left, &b.right);
                    Some(parse_quote!(crate::cli::vx_concat(#l, #r)))
                }
                BinOp::AddAssign(_) if Self::stringy(&b.right) => {
                    let (l, r) = (&b.left, &b.right);
                    Some(parse_quote!(crate::cli::vx_append(&mut #l, #r)))
                }
                _ => None,
            },
            _ => None,
        }
    }
}
impl<'a> VisitMut for Pre<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Some(n) = self.node(e) {
            *e = n;
        }
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            if let Some(e) = self.mac(&m.mac) {
                *s = Stmt::Expr(e, Some(Default::default()));
                return;
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        if p.segments.len() > 1 && p.segments[0].ident == "visqol_rs" {
            p.segments[0].ident = syn::Ident::new("crate", proc_macro2::Span::call_site());
        }
        visit_mut::visit_path_mut(self, p);
    }
}

/// one option of the program: its identifier, field, type and what the attributes say
struct Opt {
    id: String,
    field: String,
    ty: String,
    rules: Vec<(String, Option<Expr>)>,
    strange: bool,
}
/// attributes of an option that are understood or make no difference to its value;
/// nothing is promised of an option with others
const PLAIN: [&str; 14] = [
    "long", "short", "requires", "conflicts_with", "required_unless_present", "required", "default_value", "default_value_t",
    "subcommand", "help", "long_help", "value_name", "help_heading", "display_order",
];
impl Opt {
    fn text(e: &Option<Expr>) -> Option<String> {
        match e {
            Some(Expr::Lit(ExprLit { lit: Lit::Str(s), .. })) => Some(s.value()),
            Some(Expr::Lit(ExprLit { lit: Lit::Bool(b), .. })) => Some(b.value.to_string()),
            _ => None,
        }
    }
    fn get(&self, k: &str) -> Option<&Option<Expr>> {
        self.rules.iter().find(|r| r.0 == k).map(|r| &r.1)
    }
    fn opt(&self) -> bool {
        self.ty.starts_with("Option")
    }
    /// the value the field has, given what was typed
    fn typed(&self, me: &str) -> Option<String> {
        if self.strange {
            return None;
        }
        let long = Self::text(self.get("long")?).unwrap_or_else(|| kebab(&self.field));
        let t = format!("crate::cli::typed_text({long:?}@)");
        match self.ty.as_str() {
            "Option < String >" => Some(format!("match {me} {{ Some(s) => {t} == Some(s@), None => {t} is None }}")),
            "bool" => Some(format!("{me} == crate::cli::typed_flag({long:?}@)")),
            "String" => {
                let d = Self::text(self.get("default_value")?)?;
                Some(format!("{me}@ == match {t} {{ Some(t) => t, None => {d:?}@ }}"))
            }
            "usize" | "u32" | "u64" => {
                let d = match self.get("default_value_t")? {
                    Some(Expr::Lit(ExprLit { lit: Lit::Int(i), .. })) => i.base10_digits().to_string(),
                    _ => return None,
                };
                Some(format!("{me} == match {t} {{ Some(t) => crate::cli::number(t), None => {d} }}"))
            }
            _ => None,
        }
    }
}
fn kebab(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        if c.is_uppercase() && !o.is_empty() {
            o.push('-');
        }
        o.extend(if c == '_' { '-' } else { c }.to_lowercase());
    }
    o
}
fn options<'a>(fields: impl Iterator<Item = &'a Field>) -> Vec<Opt> {
    let mut out = vec![];
    for f in fields {
        let Some(field) = f.ident.as_ref().map(|i| i.to_string()) else { continue };
        let mut o = Opt { id: field.clone(), field, ty: f.ty.to_token_stream().to_string(), rules: vec![], strange: false };
        for a in f.attrs.iter().filter(|a| ["clap", "arg", "command"].iter().any(|n| a.path().is_ident(n))) {
            if let Meta::List(l) = &a.meta {
                let ps = l.parse_args_with(punctuated::Punctuated::<Meta, Token![,]>::parse_terminated);
                for m in ps.ok().into_iter().flatten() {
                    let (k, v) = match m {
                        Meta::NameValue(nv) => (last(&nv.path), Some(nv.value)),
                        Meta::Path(p) => (last(&p), None),
                        Meta::List(l) => (last(&l.path) + "()", None),
                    };
                    if k == "name" || k == "id" {
                        o.id = Opt::text(&v).unwrap_or(o.id);
                    } else if let (Some(k), Some(Expr::Array(a))) = (k.strip_suffix("_all").filter(|k| *k == "conflicts_with"), &v) {
                        o.rules.extend(a.elems.iter().map(|x| (k.to_string(), Some(x.clone()))));
                    } else {
                        o.strange |= !PLAIN.contains(&k.as_str());
                        o.rules.push((k, v));
                    }
                }
            }
        }
        out.push(o);
    }
    out
}
fn derives(attrs: &[Attribute], n: &str) -> bool {
    attrs.iter().any(|a| a.path().is_ident("derive") && a.to_token_stream().to_string().contains(n))
}
/// settings of the whole program under which less is promised
fn unusual(attrs: &[Attribute]) -> bool {
    let t: String = attrs.iter().filter(|a| !a.path().is_ident("doc")).map(|a| a.to_token_stream().to_string()).collect();
    ["rename_all", "negates_reqs", "override", "conflicts_with_subcommands", "ignore_errors", "multicall", "infer", "flatten"].iter().any(|x| t.contains(x))
}
/// what clap's derive promises about the options of `st`, from its attributes
pub fn rules(st: &ItemStruct) -> Option<String> {
    if !derives(&st.attrs, "Parser") {
        return None;
    }
    let mut opts = options(st.fields.iter());
    opts.iter_mut().for_each(|o| o.strange |= unusual(&st.attrs));
    let there = |id: &str| opts.iter().find(|x| x.id == id && x.opt()).map(|x| format!("self.{}.is_some()", x.field));
    let mut out = vec!["true".to_string()];
    let mut typed = vec!["true".to_string()];
    for o in &opts {
        if let Some(t) = o.typed(&format!("self.{}", o.field)) {
            typed.push(format!("({t})"));
        }
        if o.get("subcommand").is_some() {
            typed.push(format!("self.{}.vx_typed()", o.field));
        }
        let Some(me) = there(&o.id).filter(|_| !o.strange) else { continue };
        for (k, v) in &o.rules {
            let v = Opt::text(v).unwrap_or_default();
            match (k.as_str(), there(&v)) {
                ("requires", Some(o)) => out.push(format!("({me} ==> {o})")),
                ("conflicts_with", Some(o)) => out.push(format!("!({me} && {o})")),
                // any one of several excuses
                ("required_unless_present", Some(_)) => {
                    let any: Vec<String> = o.rules.iter().filter(|r| r.0 == *k).filter_map(|r| there(&Opt::text(&r.1)?)).collect();
                    out.push(format!("({me} || {} || {})", any.join(" || "), excused(&opts, &o.id)))
                }
                ("required", _) if v == "true" => out.push(format!("({me} || {})", excused(&opts, &o.id))),
                _ => {}
            }
        }
    }
    Some(format!(
        "impl {0} {{ pub open spec fn vx_rules(self) -> bool {{ {1} }} pub open spec fn vx_typed(self) -> bool {{ {2} }} }}",
        st.ident, out.join(" && "), typed.join(" && ")
    ))
}
/// the same for a subcommand
pub fn subcommands(en: &ItemEnum) -> Option<String> {
    if !derives(&en.attrs, "Subcommand") {
        return None;
    }
    let mut arms = String::new();
    for v in &en.variants {
        let mut typed = vec!["true".to_string()];
        if !unusual(&en.attrs) && v.attrs.iter().all(|a| a.path().is_ident("doc")) {
            typed.push(format!("crate::cli::typed_command() == {:?}@", kebab(&v.ident.to_string())));
        }
        let mut names = vec![];
        for mut o in options(v.fields.iter()) {
            o.strange |= unusual(&v.attrs) || unusual(&en.attrs);
            typed.extend(o.typed(&o.field).map(|t| format!("({t})")));
            names.push(o.field);
        }
        arms += &format!("{}::{} {{ {} }} => {},", en.ident, v.ident, names.join(", "), typed.join(" && "));
    }
    Some(format!("impl {} {{ pub open spec fn vx_typed(self) -> bool {{ match self {{ {arms} }} }} }}", en.ident))
}
/// a required option may be left out when one it conflicts with is given
fn excused(opts: &[Opt], me: &str) -> String {
    let mut out = vec!["false".to_string()];
    let conflicts = |a: &Opt, b: &str| a.rules.iter().any(|r| r.0 == "conflicts_with" && Opt::text(&r.1).as_deref() == Some(b));
    for o in opts {
        if o.opt() && (conflicts(o, me) || opts.iter().any(|x| x.id == me && conflicts(x, &o.id))) {
            out.push(format!("self.{}.is_some()", o.field));
        }
    }
    format!("({})", out.join(" || "))
}

/// functions of the library that by design end the program when they cannot succeed
const ENDS: [&str; 1] = ["SupportVectorRegressionModel::new"];
struct Must;
impl VisitMut for Must {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::MethodCall(m) = e {
            let r = &m.receiver;
            let panics = matches!(m.args.first(), Some(Expr::Closure(c)) if matches!(&*c.body, Expr::Macro(x) if last(&x.mac.path) == "panic"));
            if m.method == "expect" || m.method == "unwrap" || (m.method == "unwrap_or_else" && panics) {
                *e = parse_quote!(crate::cli::vx_must(#r));
            }
        }
    }
}
pub fn ends(f: &mut File) {
    for i in f.items.iter_mut() {
        if let Item::Impl(i) = i {
            let t = match &*i.self_ty {
                Type::Path(p) => last(&p.path),
                _ => continue,
            };
            for x in i.items.iter_mut() {
                if let ImplItem::Fn(x) = x {
                    if ENDS.contains(&format!("{}::{}", t, x.sig.ident).as_str()) {
                        Must.visit_block_mut(&mut x.block);
                    }
                }
            }
        }
    }
}
