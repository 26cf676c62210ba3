//! vextract: turns the crate's current sources plus the contract files in
//! /verif/specs into one Verus file.  Nothing about the code is written by
//! hand: every function body below comes from /repo through `lower`.
mod cli;
mod lower;
mod spec;
mod types;
use lower::*;
use quote::{format_ident, quote, ToTokens};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::process::{Command, Stdio};
use syn::visit_mut::VisitMut;
use syn::*;
use types::*;

const EXT_CRATES: [&str; 10] = [
    "ndarray", "num", "num_traits", "rustfft", "hound", "ffsvm", "itertools", "ndarray_stats", "csv", "clap",
];

struct SrcMod {
    name: String,
    path: String,
    file: File,
    module_of: String,
}

pub struct FnOut {
    key: String,
    status: String,
    problems: Vec<String>,
    loops: usize,
    src_line: usize,
    skeleton: Vec<String>,
    lits: Vec<String>,
    locals: Vec<String>,
    calls: Vec<String>,
}

fn rustfmt(src: &str) -> std::result::Result<String, String> {
    let mut ch = Command::new("rustfmt")
        .args(["--edition", "2021", "--config", "max_width=160,use_small_heuristics=Max"])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .map_err(|e| e.to_string())?;
    ch.stdin.take().unwrap().write_all(src.as_bytes()).map_err(|e| e.to_string())?;
    let o = ch.wait_with_output().map_err(|e| e.to_string())?;
    if !o.status.success() {
        return Err(String::from_utf8_lossy(&o.stderr).to_string());
    }
    Ok(String::from_utf8_lossy(&o.stdout).to_string())
}

fn is_test_cfg(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = a.to_token_stream().to_string().replace(' ', "");
        s.contains("cfg(test)") || s.contains("cfg(visqol_verif)") || s == "#[test]"
    })
}

fn collect_tables(mods: &[SrcMod]) -> Tables {
    let mut t = Tables::default();
    for m in mods {
        for it in &m.file.items {
            match it {
                Item::Struct(s) => {
                    for f in &s.fields {
                        if let Some(id) = &f.ident {
                            let ty = parse_ty(&f.ty, Some(&s.ident.to_string()));
                            t.fields.insert((s.ident.to_string(), id.to_string()), ty.clone());
                            t.field_any.insert(id.to_string(), ty);
                        }
                    }
                }
                Item::Fn(f) => {
                    if let ReturnType::Type(_, ty) = &f.sig.output {
                        t.fns.insert(f.sig.ident.to_string(), parse_ty(ty, None));
                    }
                }
                Item::Impl(i) => {
                    let self_ty = self_name(&i.self_ty);
                    for x in &i.items {
                        if let ImplItem::Fn(f) = x {
                            if let ReturnType::Type(_, ty) = &f.sig.output {
                                let r = parse_ty(ty, Some(&self_ty));
                                t.methods.insert(format!("{}::{}", self_ty, f.sig.ident), r.clone());
                                if f.sig.ident != "new" && f.sig.ident != "default" {
                                    t.methods.insert(f.sig.ident.to_string(), r);
                                }
                            }
                        }
                    }
                }
                _ => {}
            }
        }
    }
    t
}

fn self_name(t: &Type) -> String {
    if let Type::Path(p) = t {
        return p.path.segments.last().unwrap().ident.to_string();
    }
    t.to_token_stream().to_string()
}

fn ret_kind(o: &ReturnType) -> RetKind {
    if let ReturnType::Type(_, t) = o {
        if let Type::Path(p) = &**t {
            let s = p.path.segments.last().unwrap().ident.to_string();
            if s == "Option" {
                return RetKind::Option;
            }
            if s == "Result" {
                return RetKind::Result;
            }
        }
    }
    RetKind::Other
}

struct TyMap;
impl VisitMut for TyMap {
    fn visit_type_mut(&mut self, t: &mut Type) {
        map_type(t);
        syn::visit_mut::visit_type_mut(self, t);
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        map_path(p);
        syn::visit_mut::visit_path_mut(self, p);
    }
}

/// Control-flow / call skeleton of the *source* body: used only to judge
/// whether a failed proof is about code of the shape the proof was written for.
struct Skel {
    out: Vec<String>,
    locals: Vec<String>,
    calls: Vec<String>,
    /// float literals, and whether anything is compared
    lits: std::collections::BTreeSet<String>,
    compares: bool,
}
impl<'a> syn::visit::Visit<'a> for Skel {
    fn visit_lit_float(&mut self, l: &'a LitFloat) {
        self.lits.insert(l.base10_digits().to_string());
    }
    fn visit_expr_binary(&mut self, b: &'a ExprBinary) {
        if matches!(b.op, BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_) | BinOp::Eq(_) | BinOp::Ne(_)) {
            self.compares = true;
        }
        syn::visit::visit_expr_binary(self, b);
    }
    fn visit_expr(&mut self, e: &'a Expr) {
        match e {
            Expr::ForLoop(_) => self.out.push("for".into()),
            Expr::While(_) => self.out.push("while".into()),
            Expr::Loop(_) => self.out.push("loop".into()),
            Expr::If(_) => self.out.push("if".into()),
            Expr::Match(_) => self.out.push("match".into()),
            Expr::Return(_) => self.out.push("return".into()),
            Expr::Break(_) => self.out.push("break".into()),
            Expr::Continue(_) => self.out.push("continue".into()),
            Expr::Closure(_) => self.out.push("closure".into()),
            Expr::Try(_) => self.out.push("?".into()),
            Expr::Assign(_) => self.out.push("=".into()),
            Expr::Call(c) => {
                let s = c.func.to_token_stream().to_string().replace(' ', "");
                self.calls.push(s.clone());
                self.out.push(format!("call:{}", s));
            }
            Expr::MethodCall(c) => {
                self.calls.push(c.method.to_string());
                self.out.push(format!("m:{}", c.method));
            }
            _ => {}
        }
        syn::visit::visit_expr(self, e);
    }
    fn visit_local(&mut self, l: &'a Local) {
        self.out.push("let".into());
        syn::visit::visit_local(self, l);
    }
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        self.locals.push(p.ident.to_string());
    }
    fn visit_macro(&mut self, m: &'a Macro) {
        let n = m.path.segments.last().unwrap().ident.to_string();
        if !["warn", "info", "debug", "trace", "error", "eprintln", "debug_assert"].contains(&n.as_str()) {
            self.out.push(format!("macro:{}", n));
        }
    }
}

struct Gen<'a> {
    tables: &'a Tables,
    specs: &'a HashMap<String, spec::ModSpec>,
    undecided: &'a HashSet<String>,
    fns: Vec<FnOut>,
    spec_names: HashSet<String>,
    helpers: HashMap<String, lower::Helper>,
}

impl<'a> Gen<'a> {
    /// Emits one function; returns its tokens (with markers).
    fn func(
        &mut self,
        module: &str,
        self_ty: Option<&str>,
        attrs_src: &[Attribute],
        sig: &Signature,
        block: Option<&Block>,
        vis_pub: bool,
        trait_decl: Option<&str>,
    ) -> proc_macro2::TokenStream {
        let _ = attrs_src;
        let short = match (trait_decl, self_ty) {
            (Some(t), _) => format!("{}::{}", t, sig.ident),
            (None, Some(s)) => format!("{}::{}", s, sig.ident),
            _ => sig.ident.to_string(),
        };
        let key = format!("{}::{}", module, short);
        let spec = self.specs.get(module).and_then(|m| m.fns.get(&short));
        let mut sk = Skel { out: vec![], locals: vec![], calls: vec![], lits: Default::default(), compares: false };
        if let Some(b) = block {
            syn::visit::Visit::visit_block(&mut sk, b);
        }
        let mut low = Low {
            env: Env { t: self.tables, vars: HashMap::new(), self_ty: self_ty.map(|s| s.to_string()) },
            fname: key.clone(),
            loops: 0,
            tmp: 0,
            ret: ret_kind(&sig.output),
            problems: vec![],
            closures: HashMap::new(), iters: HashMap::new(),
            colviews: HashMap::new(),
            helpers: self.helpers.clone(),
            module: module.to_string(),
            depth: 0,
            inside: vec![],
            mutrefs: sig
                .inputs
                .iter()
                .filter_map(|a| match a {
                    FnArg::Typed(pt) => match (&*pt.pat, &*pt.ty) {
                        (Pat::Ident(i), Type::Reference(r)) if r.mutability.is_some() => Some(i.ident.to_string()),
                        _ => None,
                    },
                    _ => None,
                })
                .collect(),
        };
        let mut sig2 = sig.clone();
        for a in sig2.inputs.iter_mut() {
            if let FnArg::Typed(pt) = a {
                let ty = parse_ty(&pt.ty, self_ty);
                low.env.bind_pat(&pt.pat, &ty);
            }
        }
        TyMap.visit_signature_mut(&mut sig2);
        for g in sig.generics.params.iter() {
            if let GenericParam::Const(c) = g {
                low.env.vars.insert(c.ident.to_string(), Ty::Int);
            }
        }
        let mut status = String::from("verified");
        if trait_decl.is_some() && block.is_none() {
            status = "declaration".into();
        }
        let mut body: Option<Block> = None;
        if let Some(b) = block {
            let mut b2 = b.clone();
            low.visit_block_mut(&mut b2);
            body = Some(b2);
        }
        if block.is_some() {
            match spec {
                None => status = "uncontracted".into(),
                Some(s) if s.assumed => status = "assumed".into(),
                Some(_) => {
                    if !low.problems.is_empty() {
                        status = "unsupported".into();
                    }
                }
            }
            if self.undecided.contains(&key) {
                status = "undecided".into();
            }
        }
        if let Some(s) = spec {
            let mut names = vec![];
            for l in s.loops.keys() {
                if *l >= low.loops {
                    names.push(format!("annotated loop {} no longer exists", l));
                }
            }
            if !names.is_empty() && status == "verified" {
                status = "unsupported".into();
                low.problems.extend(names);
            }
        }
        if let ReturnType::Type(_, t) = &sig2.output {
            let t = t.clone();
            sig2.output = parse_quote!(-> VxRet![#t]);
        }
        let vis: Visibility = if vis_pub { parse_quote!(pub) } else { Visibility::Inherited };
        self.fns.push(FnOut {
            key: key.clone(),
            status: status.clone(),
            problems: low.problems.clone(),
            loops: low.loops,
            src_line: sig.ident.span().start().line,
            skeleton: sk.out,
            locals: sk.locals,
            calls: sk.calls,
            lits: if sk.compares { sk.lits.into_iter().collect() } else { vec![] },
        });
        match (status.as_str(), body) {
            ("declaration", _) => {
                quote!(#vis #sig2 { vx_mark_fn!(#key, #status); })
            }
            ("verified", Some(b)) => {
                let st = &b.stmts;
                let n = st.len();
                if let Some(Stmt::Expr(e, None)) = st.last() {
                    if spec.map(|s| s.end.is_some()).unwrap_or(false) {
                        let init = &st[..n - 1];
                        return quote!(#vis #sig2 { vx_mark_fn!(#key, #status); #(#init)* let vx_res = #e; vx_end!(#key); vx_res });
                    }
                }
                quote!(#vis #sig2 { vx_mark_fn!(#key, #status); #(#st)* vx_end_unit!(#key); })
                    .to_string()
                    .parse::<proc_macro2::TokenStream>()
                    .map(|ts| {
                        // a tail expression must stay last
                        if matches!(st.last(), Some(Stmt::Expr(_, None))) {
                            quote!(#vis #sig2 { vx_mark_fn!(#key, #status); #(#st)* })
                        } else {
                            ts
                        }
                    })
                    .unwrap()
            }
            _ => quote!(#vis #sig2 { vx_mark_fn!(#key, #status); unimplemented!() }),
        }
    }
}

fn use_leaves(t: &UseTree, prefix: Vec<String>, out: &mut Vec<(Vec<String>, Option<String>)>) {
    match t {
        UseTree::Path(p) => {
            let mut pr = prefix;
            pr.push(p.ident.to_string());
            use_leaves(&p.tree, pr, out);
        }
        UseTree::Name(n) => {
            let mut pr = prefix;
            if n.ident != "self" {
                pr.push(n.ident.to_string());
            }
            out.push((pr, None));
        }
        UseTree::Rename(r) => {
            let mut pr = prefix;
            if r.ident != "self" {
                pr.push(r.ident.to_string());
            }
            out.push((pr, Some(r.rename.to_string())));
        }
        UseTree::Group(g) => {
            for x in &g.items {
                use_leaves(x, prefix.clone(), out);
            }
        }
        UseTree::Glob(_) => {
            let mut pr = prefix;
            pr.push("*".into());
            out.push((pr, None));
        }
    }
}

/// Replaces `name!(..);` style markers in rustfmt'd text.
fn find_marker(text: &str, name: &str, from: usize) -> Option<(usize, usize, Vec<String>)> {
    let pat = format!("{}!(", name);
    let i = text[from..].find(&pat)? + from;
    let b = text.as_bytes();
    let mut j = i + pat.len();
    let mut args = vec![];
    let mut cur = String::new();
    let mut in_str = false;
    loop {
        let c = b[j] as char;
        if in_str {
            if c == '\\' {
                j += 1;
                cur.push(b[j] as char);
            } else if c == '"' {
                in_str = false;
            } else {
                cur.push(c);
            }
        } else if c == '"' {
            in_str = true;
        } else if c == ',' {
            args.push(cur.trim().to_string());
            cur.clear();
        } else if c == ')' {
            args.push(cur.trim().to_string());
            break;
        } else {
            cur.push(c);
        }
        j += 1;
    }
    j += 1;
    if b.get(j) == Some(&b';') {
        j += 1;
    }
    Some((i, j, args))
}

fn indent(s: &str, n: usize) -> String {
    let pad = " ".repeat(n);
    s.lines().map(|l| format!("{}{}\n", pad, l)).collect()
}

fn fix_ret(text: &str, ret: &HashMap<String, String>, cur: &str) -> String {
    // VxRet![T] -> (r: T)
    let mut t = text.to_string().replace("VxRet ! [", "VxRet![");
    while let Some(i) = t.find("VxRet![") {
        let mut d = 1;
        let mut j = i + 7;
        let b = t.as_bytes();
        while d > 0 {
            match b[j] {
                b'[' => d += 1,
                b']' => d -= 1,
                _ => {}
            }
            j += 1;
        }
        let inner = t[i + 7..j - 1].to_string();
        let r = ret.get(cur).cloned().unwrap_or("r".into());
        t = format!("{}({}: {}){}", &t[..i], r, inner, &t[j..]);
    }
    t
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 5 {
        eprintln!("usage: vextract REPO SPECDIR OUT.rs MAP.json [undecided-fn ...]");
        std::process::exit(2);
    }
    let (repo, specdir, out, mapf) = (&a[1], &a[2], &a[3], &a[4]);
    // "key" keeps the contract of an unverified function, "key!" drops it too
    let undecided: HashSet<String> = a[5..].iter().map(|x| x.trim_end_matches('!').to_string()).collect();
    let dropped: HashSet<String> = a[5..].iter().filter(|x| x.ends_with('!')).map(|x| x.trim_end_matches('!').to_string()).collect();
    let mut specs: HashMap<String, spec::ModSpec> = HashMap::new();
    let mut order: Vec<String> = vec![];
    let mut files: Vec<_> = std::fs::read_dir(specdir).unwrap().map(|e| e.unwrap().path()).collect();
    files.sort();
    for f in files {
        if f.extension().map(|e| e == "vs").unwrap_or(false) {
            let s = spec::parse(&std::fs::read_to_string(&f).unwrap(), f.to_str().unwrap());
            let mut s = s;
            for (k, f) in s.fns.iter_mut() {
                if dropped.contains(&format!("{}::{}", s.module, k)) {
                    *f = spec::FnSpec::default();
                }
            }
            order.push(s.module.clone());
            specs.insert(s.module.clone(), s);
        }
    }
    let mut mods = vec![];
    let mut fatal: Vec<String> = vec![];
    for m in &order {
        let s = &specs[m];
        if s.source.is_empty() {
            continue;
        }
        let p = format!("{}/{}", repo, s.source);
        match std::fs::read_to_string(&p).map_err(|e| e.to_string()).and_then(|t| parse_file(&t).map_err(|e| e.to_string())) {
            Ok(f) => mods.push(SrcMod { name: m.clone(), path: s.source.clone(), file: f, module_of: m.clone() }),
            Err(e) => fatal.push(format!("{}: {}", p, e)),
        }
    }
    let eff = cli::effects(&mods.iter().filter(|m| cli::is_cli(&m.path)).map(|m| &m.file).collect::<Vec<_>>());
    for m in mods.iter_mut() {
        cli::ends(&mut m.file);
        if cli::is_cli(&m.path) {
            cli::prepass(&mut m.file, &eff);
        }
    }
    let tables = collect_tables(&mods);
    let mod_names: HashSet<String> = mods.iter().map(|m| m.name.clone()).collect();
    // un-contracted helper functions that can be inlined at their call sites
    let mut helpers = HashMap::new();
    for m in &mods {
        for it in &m.file.items {
            match it {
                Item::Fn(f) if !is_test_cfg(&f.attrs) => {
                    let key = f.sig.ident.to_string();
                    if !specs[&m.name].fns.contains_key(&key) {
                        if let Some(h) = lower::Helper::of(&f.sig, &f.block) {
                            helpers.insert(format!("{}::{}", m.name, key), h);
                        }
                    }
                }
                Item::Impl(i) if i.trait_.is_none() => {
                    let st = self_name(&i.self_ty);
                    for x in &i.items {
                        if let ImplItem::Fn(f) = x {
                            let key = format!("{}::{}", st, f.sig.ident);
                            if !specs[&m.name].fns.contains_key(&key) {
                                if let Some(h) = lower::Helper::of(&f.sig, &f.block) {
                                    helpers.insert(format!("{}::{}", m.name, key), h);
                                }
                            }
                        }
                    }
                }
                _ => {}
            }
        }
    }
    let mut gen = Gen { tables: &tables, specs: &specs, undecided: &undecided, fns: vec![], spec_names: HashSet::new(), helpers };
    let mut text = String::new();
    text.push_str("// generated by vextract from /repo: do not edit\n#![allow(unused_imports, unused_variables, unused_mut, dead_code, non_snake_case, unused_assignments, unused_parens, unreachable_code, unused_braces)]\n");
    text.push_str(&std::fs::read_to_string(format!("{}/prelude.rs", specdir)).unwrap());
    let mut fnlines: BTreeMap<String, Value> = BTreeMap::new();
    let mut consts: Vec<Value> = vec![];
    text.push_str("\nverus! {\n");
    for m in &mods {
        let s = &specs[&m.name];
        let mut src = String::new();
        let mut items: Vec<proc_macro2::TokenStream> = vec![];
        for it in &m.file.items {
            match it {
                Item::Use(u) => {
                    let mut lv = vec![];
                    use_leaves(&u.tree, vec![], &mut lv);
                    for (p, r) in lv {
                        let first = p[0].clone();
                        let last = p.last().unwrap().clone();
                        let as_ = r.as_ref().map(|x| format!(" as {}", x)).unwrap_or_default();
                        if first == "crate" {
                            let modn = p.get(1).cloned().unwrap_or_default();
                            if mod_names.contains(&modn) {
                                let _ = writeln!(src, "use {}{};", p.join("::"), as_);
                            }
                        } else if EXT_CRATES.contains(&first.as_str()) && last != "*" && last.chars().next().unwrap().is_uppercase() {
                            if let Some(r) = r {
                                if r != last {
                                    let _ = writeln!(src, "use crate::ext::{} as {};", last, r);
                                }
                            }
                        }
                    }
                }
                Item::Const(c) => {
                    let mut low = Low {
                        env: Env { t: &tables, vars: HashMap::new(), self_ty: None },
                        fname: format!("{}::{}", m.name, c.ident),
                        loops: 0, tmp: 0, ret: RetKind::Other, problems: vec![],
                        closures: HashMap::new(), iters: HashMap::new(), colviews: HashMap::new(),
                        helpers: HashMap::new(), module: m.name.clone(), depth: 0, inside: vec![], mutrefs: Default::default(),
                    };
                    let mut e = (*c.expr).clone();
                    low.visit_expr_mut(&mut e);
                    let (id, ty) = (&c.ident, &c.ty);
                    consts.push(json!({"module": m.name, "name": id.to_string(), "value": c.expr.to_token_stream().to_string()}));
                    items.push(quote!(pub const #id: #ty = #e;));
                }
                Item::Struct(st) => {
                    if let Some(r) = cli::rules(st) {
                        let _ = writeln!(src, "{}", r);
                    }
                    let mut st = st.clone();
                    st.attrs.clear();
                    st.vis = parse_quote!(pub);
                    for f in st.fields.iter_mut() {
                        f.attrs.clear();
                        f.vis = parse_quote!(pub);
                        TyMap.visit_type_mut(&mut f.ty);
                    }
                    items.push(st.to_token_stream());
                }
                Item::Enum(en) => {
                    if let Some(r) = cli::subcommands(en) {
                        let _ = writeln!(src, "{}", r);
                    }
                    let mut en = en.clone();
                    en.attrs.clear();
                    en.vis = parse_quote!(pub);
                    for v in en.variants.iter_mut() {
                        v.attrs.clear();
                        for f in v.fields.iter_mut() {
                            f.attrs.clear();
                        }
                    }
                    items.push(en.to_token_stream());
                }
                Item::Fn(f) => {
                    if is_test_cfg(&f.attrs) {
                        continue;
                    }
                    items.push(gen.func(&m.name, None, &f.attrs, &f.sig, Some(&f.block), true, None));
                }
                Item::Trait(t) => {
                    let tn = t.ident.to_string();
                    let mut ts = vec![];
                    for x in &t.items {
                        if let TraitItem::Fn(f) = x {
                            ts.push(gen.func(&m.name, None, &f.attrs, &f.sig, f.default.as_ref(), false, Some(&tn)));
                        }
                    }
                    let (id, g) = (&t.ident, &t.generics);
                    let raw = format_ident!("vx_trait_raw");
                    items.push(quote!(pub trait #id #g { #raw!(#tn); #(#ts)* }));
                }
                Item::Impl(i) => {
                    let st = self_name(&i.self_ty);
                    let (tr, inherent) = match &i.trait_ {
                        None => (None, true),
                        Some((_, p, _)) => {
                            let n = p.segments.last().unwrap().ident.to_string();
                            if n == "Default" {
                                (None, true)
                            } else if mods.iter().any(|m| m.file.items.iter().any(|x| matches!(x, Item::Trait(t) if t.ident == n))) {
                                (Some(p.clone()), false)
                            } else {
                                continue;
                            }
                        }
                    };
                    let mut fs = vec![];
                    for x in &i.items {
                        match x {
                            ImplItem::Fn(f) => {
                                if is_test_cfg(&f.attrs) {
                                    continue;
                                }
                                fs.push(gen.func(&m.name, Some(&st), &f.attrs, &f.sig, Some(&f.block), inherent, None));
                            }
                            ImplItem::Const(c) => {
                                let (id, ty, e) = (&c.ident, &c.ty, &c.expr);
                                consts.push(json!({"module": m.name, "name": format!("{}::{}", st, id), "value": e.to_token_stream().to_string()}));
                                fs.push(quote!(pub const #id: #ty = #e;));
                            }
                            _ => {}
                        }
                    }
                    let (g, wc, sty) = (&i.generics, &i.generics.where_clause, &i.self_ty);
                    if let Some(tr) = tr {
                        let raw = format_ident!("vx_impl_raw");
                        let nm = format!("{} for {}", tr.segments.last().unwrap().ident, st);
                        items.push(quote!(impl #g #tr for #sty #wc { #raw!(#nm); #(#fs)* }));
                    } else {
                        items.push(quote!(impl #g #sty #wc { #(#fs)* }));
                    }
                }
                Item::Type(t) => items.push(t.to_token_stream()),
                Item::Mod(_) => {}
                _ => {}
            }
        }
        let toks = quote!(#(#items)*).to_string();
        let body = match rustfmt(&toks) {
            Ok(b) => b,
            Err(e) => {
                fatal.push(format!("{}: rustfmt: {}", m.name, e));
                continue;
            }
        };
        let body = splice(&body, s, &mut gen, &m.name);
        let _ = writeln!(text, "pub mod {} {{ //@mod {}\nuse vstd::prelude::*;\nuse vstd::float::*;\nuse crate::vx::*;\nuse crate::ext::*;\n#[allow(unused_imports)]\nuse super::vx as vx_self;\n{}\nbroadcast use crate::vx::vx_group;\n{}\n{}\n}} //@endmod {}", m.name, m.name, src, s.prelude, body, m.name);
        let _ = &m.module_of;
    }
    for x in &order {
        if specs[x].source.is_empty() {
            let _ = writeln!(text, "pub mod {} {{ //@mod {}\nuse vstd::prelude::*;\nuse vstd::float::*;\nuse crate::vx::*;\nuse crate::ext::*;\nbroadcast use crate::vx::vx_group;\n{}\n}} //@endmod {}", x, x, specs[x].prelude, x);
        }
    }
    text.push_str("} // verus!\nfn main() {}\n");
    std::fs::write(out, &text).unwrap();
    // line map
    let mut cur: Option<String> = None;
    let mut starts: Vec<(String, usize)> = vec![];
    for (i, l) in text.lines().enumerate() {
        if let Some(k) = l.trim().strip_prefix("//@fn ") {
            starts.push((k.trim().to_string(), i + 1));
            cur = Some(k.to_string());
        } else if l.contains("//@endmod") || l.contains("//@mod") || l.trim() == "//@endfn" {
            starts.push((String::new(), i + 1));
        }
    }
    let _ = cur;
    for (n, (k, l)) in starts.iter().enumerate() {
        if k.is_empty() {
            continue;
        }
        let e = starts.get(n + 1).map(|x| x.1 - 1).unwrap_or(usize::MAX);
        fnlines.insert(k.clone(), json!([l, e]));
    }
    let mut fns = serde_json::Map::new();
    for f in &gen.fns {
        fns.insert(
            f.key.clone(),
            json!({"status": f.status, "problems": f.problems, "loops": f.loops, "src_line": f.src_line,
                   "hints": specs.iter().find_map(|(m, s)| f.key.strip_prefix(&format!("{}::", m)).and_then(|k| s.fns.get(k))).map(|x| x.hints()).unwrap_or_default(),
                   "lines": fnlines.get(&f.key).cloned().unwrap_or(Value::Null),
                   "skeleton": f.skeleton, "locals": f.locals, "calls": f.calls}),
        );
    }
    let _ = &gen.spec_names;
    let mut missing = vec![];
    for (mn, s) in &specs {
        for k in s.fns.keys() {
            if !fns.contains_key(&format!("{}::{}", mn, k)) {
                missing.push(format!("{}::{}", mn, k));
            }
        }
    }
    let srcs: BTreeMap<String, String> = mods.iter().map(|m| (m.name.clone(), m.path.clone())).collect();
    let map = json!({"fns": fns, "missing": missing, "fatal": fatal, "sources": srcs, "consts": consts});
    std::fs::write(mapf, serde_json::to_string_pretty(&map).unwrap()).unwrap();
    if !fatal.is_empty() {
        eprintln!("{}", fatal.join("\n"));
        std::process::exit(3);
    }
}

fn splice(body: &str, s: &spec::ModSpec, gen: &mut Gen, module: &str) -> String {
    let mut t = body.to_string();
    let prefix = format!("{}::", module);
    let empty = spec::FnSpec::default();
    let get = |k: &str| -> spec::FnSpec {
        s.fns.get(k.strip_prefix(&prefix).unwrap_or(k)).cloned().unwrap_or(empty.clone())
    };
    // raw trait / impl members
    for name in ["vx_trait_raw", "vx_impl_raw"] {
        while let Some((i, j, args)) = find_marker(&t, name, 0) {
            let raw = s.raws.get(&args[0]).cloned().unwrap_or_default();
            t = format!("{}{}{}", &t[..i], raw, &t[j..]);
        }
    }
    // loops
    while let Some((i, j, args)) = find_marker(&t, "vx_loop", 0) {
        let f = get(&args[0]);
        let k: usize = args[1].trim_end_matches("usize").parse().unwrap();
        let dec = args.get(2).cloned().unwrap_or_default();
        let inv = args.get(3).cloned().unwrap_or_default();
        let brace = t[..i].rfind('{').unwrap();
        let mut ann = String::new();
        let l = f.loops.get(&k).cloned().unwrap_or_default();
        let (mut has_inv, mut has_dec) = (false, false);
        for line in l.lines() {
            if line.trim_start().starts_with("invariant") {
                has_inv = true;
            }
            if line.trim_start().starts_with("decreases") {
                has_dec = true;
            }
        }
        if !inv.is_empty() {
            if has_inv {
                // put the automatic invariant first
                let l2 = l.replacen("invariant", &format!("invariant\n    {},", inv), 1);
                ann.push_str(&l2);
            } else {
                ann.push_str(&format!("invariant\n    {},\n{}", inv, l));
            }
        } else {
            ann.push_str(&l);
        }
        if !has_dec && !dec.is_empty() {
            if !ann.ends_with('\n') {
                ann.push('\n');
            }
            ann.push_str(&format!("decreases crate::vx::dec(({}) as int),\n", dec));
        }
        t = format!("{}\n{}{{{}{}", t[..brace].trim_end(), indent(&ann, 8), &t[brace + 1..i], &t[j..]);
    }
    for (name, what) in [("vx_loop_start", 0), ("vx_loop_end", 1), ("vx_loop_after", 2)] {
        while let Some((i, j, args)) = find_marker(&t, name, 0) {
            let f = get(&args[0]);
            let k: usize = args[1].trim_end_matches("usize").parse().unwrap();
            let m = match what {
                0 => &f.loop_start,
                1 => &f.loop_end,
                _ => &f.loop_after,
            };
            let x = m.get(&k).cloned().unwrap_or_default();
            t = format!("{}{}{}", &t[..i], x, &t[j..]);
        }
    }
    for name in ["vx_end", "vx_end_unit"] {
        while let Some((i, j, args)) = find_marker(&t, name, 0) {
            let f = get(&args[0]);
            let mut x = f.end.clone().unwrap_or_default();
            if name == "vx_end" {
                x = x.replace("$res", "vx_res");
            }
            t = format!("{}{}{}", &t[..i], x, &t[j..]);
        }
    }
    // function heads
    while let Some((i, j, args)) = find_marker(&t, "vx_mark_fn", 0) {
        let key = args[0].clone();
        let status = args[1].clone();
        let f = get(&key);
        let brace = t[..i].rfind('{').unwrap();
        let ident = key.rsplit("::").next().unwrap().to_string();
        // beginning of the header line
        let pat = format!("fn {}", ident);
        let mut h = t[..brace].rfind(&pat).unwrap();
        while h > 0 && t.as_bytes()[h - 1] != b'\n' {
            h -= 1;
        }
        let mut head = t[h..brace].trim_end().to_string();
        let mut ret = HashMap::new();
        ret.insert(key.clone(), f.ret.clone().unwrap_or("r".into()));
        head = fix_ret(&head, &ret, &key);
        let mut attrs = String::new();
        if status != "verified" && status != "declaration" {
            attrs.push_str("#[verifier::external_body]\n");
        } else {
            if status == "verified" {
                attrs.push_str("#[verifier::loop_isolation(false)]\n");
            }
            attrs.push_str(&f.attr.clone().unwrap_or_default());
        }
        let spec = f.spec.clone().unwrap_or_default();
        if status == "declaration" {
            let close = t[j..].find('}').unwrap() + j;
            t = format!(
                "{}//@fn {}\n{}{}\n{};\n//@endfn\n{}",
                &t[..h], key, attrs, head, indent(&spec, 4), &t[close + 1..]
            );
            continue;
        }
        let start = if status == "verified" { f.start.clone().unwrap_or_default() } else { String::new() };
        // the numbers the code compares with are numbers
        let mut start = start;
        if status == "verified" {
            if let Some(x) = gen.fns.iter().find(|x| x.key == key) {
                for l in &x.lits {
                    let l = if l.contains('.') || l.contains('e') { l.clone() } else { format!("{}.0", l) };
                    start.push_str(&format!("proof {{ assert(!{}f64.ieee_is_nan()) by (bit_vector); }}\n", l));
                }
            }
        }
        // end of the function: matching brace
        let mut d = 0i32;
        let mut e = brace;
        for (o, c) in t[brace..].char_indices() {
            if c == '{' {
                d += 1
            } else if c == '}' {
                d -= 1;
                if d == 0 {
                    e = brace + o;
                    break;
                }
            }
        }
        let mut fbody = t[j..e].to_string();
        if status == "verified" {
            for (pat, before, ins) in &f.anchors {
                // first line containing the pattern (whitespace-insensitive)
                let np: String = pat.chars().filter(|c| !c.is_whitespace()).collect();
                let mut outl = String::new();
                let mut done = false;
                for line in fbody.lines() {
                    let nl: String = line.chars().filter(|c| !c.is_whitespace()).collect();
                    if !done && nl.contains(&np) {
                        done = true;
                        if *before {
                            outl.push_str(ins);
                            outl.push('\n');
                            outl.push_str(line);
                        } else {
                            outl.push_str(line);
                            outl.push('\n');
                            outl.push_str(ins);
                        }
                    } else {
                        outl.push_str(line);
                    }
                    outl.push('\n');
                }
                if !done {
                    if let Some(x) = gen.fns.iter_mut().find(|x| x.key == key) {
                        x.problems.push(format!("lost anchor: {}", pat));
                    }
                }
                fbody = outl;
            }
        }
        t = format!(
            "{}//@fn {}\n{}{}\n{}{{\n//@body {}\n{}{}}}\n//@endfn\n{}",
            &t[..h], key, attrs, head, indent(&spec, 4), key, start, fbody, &t[e + 1..]
        );
    }
    t
}
