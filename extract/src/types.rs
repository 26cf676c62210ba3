//! A small, purely syntactic type inference: just enough to know which
//! expressions are ndarray arrays / complex numbers so that overloaded
//! operators on them can be turned into shim calls.
use std::collections::HashMap;
use syn::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    F,
    Int,
    C,
    Bool,
    Arr1(Box<Ty>),
    Arr2,
    Vec(Box<Ty>),
    Tuple(Vec<Ty>),
    Struct(String),
    Unknown,
}

#[derive(Default)]
pub struct Tables {
    pub fields: HashMap<(String, String), Ty>,
    pub field_any: HashMap<String, Ty>,
    pub fns: HashMap<String, Ty>,
    pub methods: HashMap<String, Ty>,
}

pub fn parse_ty(t: &Type, self_ty: Option<&str>) -> Ty {
    match t {
        Type::Reference(r) => parse_ty(&r.elem, self_ty),
        Type::Paren(p) => parse_ty(&p.elem, self_ty),
        Type::Group(p) => parse_ty(&p.elem, self_ty),
        Type::Slice(s) => Ty::Vec(Box::new(parse_ty(&s.elem, self_ty))),
        Type::Array(s) => Ty::Vec(Box::new(parse_ty(&s.elem, self_ty))),
        Type::Tuple(t) => Ty::Tuple(t.elems.iter().map(|e| parse_ty(e, self_ty)).collect()),
        Type::Path(p) => {
            let seg = match p.path.segments.last() {
                Some(s) => s,
                None => return Ty::Unknown,
            };
            let args: Vec<Ty> = match &seg.arguments {
                PathArguments::AngleBracketed(a) => a
                    .args
                    .iter()
                    .filter_map(|x| match x {
                        GenericArgument::Type(t) => Some(parse_ty(t, self_ty)),
                        _ => None,
                    })
                    .collect(),
                _ => vec![],
            };
            let a0 = args.first().cloned().unwrap_or(Ty::Unknown);
            match seg.ident.to_string().as_str() {
                "f64" | "f32" => Ty::F,
                "usize" | "u8" | "u16" | "u32" | "u64" | "i8" | "i16" | "i32" | "i64" | "isize" => Ty::Int,
                "bool" => Ty::Bool,
                "Complex64" => Ty::C,
                "Array1" | "ArrayView1" => Ty::Arr1(Box::new(a0)),
                "Array2" | "ArrayView2" | "ImagePatch" => Ty::Arr2,
                "Vec" => Ty::Vec(Box::new(a0)),
                "Option" | "Result" | "Box" | "VxRet" => a0,
                "Self" => self_ty.map(|s| Ty::Struct(s.into())).unwrap_or(Ty::Unknown),
                s => Ty::Struct(s.to_string()),
            }
        }
        _ => Ty::Unknown,
    }
}

pub struct Env<'a> {
    pub t: &'a Tables,
    pub vars: HashMap<String, Ty>,
    pub self_ty: Option<String>,
}

impl<'a> Env<'a> {
    pub fn infer(&self, e: &Expr) -> Ty {
        match e {
            Expr::Path(p) => {
                if let Some(id) = p.path.get_ident() {
                    let s = id.to_string();
                    if s == "self" {
                        return self.self_ty.clone().map(Ty::Struct).unwrap_or(Ty::Unknown);
                    }
                    return self.vars.get(&s).cloned().unwrap_or(Ty::Unknown);
                }
                Ty::Unknown
            }
            Expr::Reference(r) => self.infer(&r.expr),
            Expr::Paren(r) => self.infer(&r.expr),
            Expr::Group(r) => self.infer(&r.expr),
            Expr::Unary(u) => self.infer(&u.expr),
            Expr::Try(r) => self.infer(&r.expr),
            Expr::Cast(c) => parse_ty(&c.ty, None),
            Expr::Lit(l) => match &l.lit {
                Lit::Float(_) => Ty::F,
                Lit::Int(_) => Ty::Int,
                Lit::Bool(_) => Ty::Bool,
                _ => Ty::Unknown,
            },
            Expr::Field(f) => {
                let base = self.infer(&f.base);
                match &f.member {
                    Member::Named(n) => {
                        let n = n.to_string();
                        if base == Ty::C && (n == "re" || n == "im") {
                            return Ty::F;
                        }
                        if let Ty::Struct(s) = &base {
                            if let Some(t) = self.t.fields.get(&(s.clone(), n.clone())) {
                                return t.clone();
                            }
                        }
                        self.t.field_any.get(&n).cloned().unwrap_or(Ty::Unknown)
                    }
                    Member::Unnamed(i) => match base {
                        Ty::Tuple(v) => v.get(i.index as usize).cloned().unwrap_or(Ty::Unknown),
                        _ => Ty::Unknown,
                    },
                }
            }
            Expr::Index(ix) => {
                let b = self.infer(&ix.expr);
                let is_range = matches!(&*ix.index, Expr::Range(_));
                match b {
                    Ty::Vec(x) | Ty::Arr1(x) => {
                        if is_range {
                            Ty::Vec(x)
                        } else {
                            *x
                        }
                    }
                    Ty::Arr2 => Ty::F,
                    Ty::Struct(s) if s == "AudioSignal" || s == "Spectrogram" => Ty::F,
                    _ => Ty::Unknown,
                }
            }
            Expr::Binary(b) => {
                use BinOp::*;
                match b.op {
                    Add(_) | Sub(_) | Mul(_) | Div(_) | Rem(_) => {
                        let l = self.infer(&b.left);
                        let r = self.infer(&b.right);
                        let is_arr = |t: &Ty| matches!(t, Ty::Arr1(_) | Ty::Arr2);
                        if is_arr(&l) {
                            l
                        } else if is_arr(&r) {
                            r
                        } else if l == Ty::C || r == Ty::C {
                            Ty::C
                        } else if l != Ty::Unknown {
                            l
                        } else {
                            r
                        }
                    }
                    BitXor(_) | BitAnd(_) | BitOr(_) | Shl(_) | Shr(_) => self.infer(&b.left),
                    _ => Ty::Bool,
                }
            }
            Expr::Block(b) => self.infer_block(&b.block),
            Expr::If(i) => self.infer_block(&i.then_branch),
            Expr::Macro(m) => {
                let name = m.mac.path.segments.last().unwrap().ident.to_string();
                if name == "vec" {
                    if let Ok(r) = syn::parse2::<VecRepeat>(m.mac.tokens.clone()) {
                        return Ty::Vec(Box::new(self.infer(&r.elem)));
                    }
                    if let Ok(l) = syn::parse2::<VecList>(m.mac.tokens.clone()) {
                        if let Some(x) = l.0.first() {
                            return Ty::Vec(Box::new(self.infer(x)));
                        }
                    }
                }
                Ty::Unknown
            }
            Expr::Repeat(r) => Ty::Vec(Box::new(self.infer(&r.expr))),
            Expr::Array(a) => Ty::Vec(Box::new(
                a.elems.first().map(|x| self.infer(x)).unwrap_or(Ty::Unknown),
            )),
            Expr::Tuple(t) => Ty::Tuple(t.elems.iter().map(|x| self.infer(x)).collect()),
            Expr::Struct(s) => {
                let n = s.path.segments.last().unwrap().ident.to_string();
                if n == "Self" {
                    self.self_ty.clone().map(Ty::Struct).unwrap_or(Ty::Unknown)
                } else {
                    Ty::Struct(n)
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let last = segs.last().unwrap().clone();
                    if segs.len() >= 2 {
                        let tyseg = &p.path.segments[segs.len() - 2];
                        let mut path = p.path.clone();
                        path.segments.pop();
                        // drop trailing ::
                        let segs2: Vec<PathSegment> = path.segments.into_iter().collect();
                        let mut np = Path { leading_colon: None, segments: Default::default() };
                        for s in segs2 {
                            np.segments.push(s);
                        }
                        let t = parse_ty(
                            &Type::Path(TypePath { qself: None, path: np }),
                            self.self_ty.as_deref(),
                        );
                        match (&t, last.as_str()) {
                            (Ty::Vec(_), _) | (Ty::Arr1(_), _) | (Ty::Arr2, _) | (Ty::C, _) => {
                                if let (Ty::Arr1(x), "from_vec") = (&t, last.as_str()) {
                                    if **x == Ty::Unknown {
                                        if let Some(a) = c.args.first() {
                                            if let Ty::Vec(e) = self.infer(a) {
                                                return Ty::Arr1(e);
                                            }
                                        }
                                    }
                                }
                                return t;
                            }
                            (Ty::Struct(s), "new") | (Ty::Struct(s), "default") => {
                                return Ty::Struct(s.clone())
                            }
                            _ => {}
                        }
                        if let Ty::Struct(s) = &t {
                            if let Some(r) = self.t.methods.get(&format!("{}::{}", s, last)) {
                                return r.clone();
                            }
                        }
                        let _ = tyseg;
                    }
                    if last == "concatenate" {
                        if let Some(a) = c.args.iter().nth(1) {
                            if let Ty::Vec(x) = self.infer(a) {
                                return *x;
                            }
                        }
                    }
                    if last == "arr2" {
                        return Ty::Arr2;
                    }
                    if last == "Some" || last == "Ok" {
                        if let Some(a) = c.args.first() {
                            return self.infer(a);
                        }
                    }
                    if let Some(t) = self.t.fns.get(&last) {
                        return t.clone();
                    }
                }
                Ty::Unknown
            }
            Expr::MethodCall(m) => {
                let r = self.infer(&m.receiver);
                let name = m.method.to_string();
                match name.as_str() {
                    "clone" | "to_owned" | "view" | "slice" | "unwrap" | "expect" | "ok_or" | "iter"
                    | "iter_mut" | "conj" | "abs" | "min" | "max" | "round" | "floor" | "ceil" | "unwrap_or"
                    | "into_iter" | "saturating_sub" | "pow" | "as_slice_mut" | "as_mut" | "vx_expect" => match (&r, name.as_str()) {
                        (Ty::Arr1(_), "min") | (Ty::Arr1(_), "max") | (Ty::Arr2, "min") | (Ty::Arr2, "max") => Ty::F,
                        (Ty::Arr1(x), "as_slice_mut") => Ty::Vec(x.clone()),
                        _ => r,
                    },
                    "to_vec" | "as_slice" => match r {
                        Ty::Arr1(x) | Ty::Vec(x) => Ty::Vec(x),
                        x => x,
                    },
                    "mean_axis" | "sum_axis" | "std_axis" | "row" | "vx_column" | "column" | "row_mut" | "column_mut" => {
                        Ty::Arr1(Box::new(Ty::F))
                    }
                    "len" | "nrows" | "ncols" | "unsigned_abs" | "div_ceil" => Ty::Int,
                    "sqrt" | "powf" | "powi" | "exp" | "exp2" | "ln" | "log10" | "log2" | "sin" | "cos" | "tan" | "signum" | "norm" | "mean"
                    | "sum" | "clamp" | "get_duration" => {
                        if r == Ty::C && name != "norm" {
                            Ty::C
                        } else {
                            Ty::F
                        }
                    }
                    "is_empty" => Ty::Bool,
                    _ => {
                        if let Ty::Struct(s) = &r {
                            if let Some(t) = self.t.methods.get(&format!("{}::{}", s, name)) {
                                return t.clone();
                            }
                        }
                        self.t.methods.get(&name).cloned().unwrap_or(Ty::Unknown)
                    }
                }
            }
            _ => Ty::Unknown,
        }
    }
    pub fn infer_block(&self, b: &Block) -> Ty {
        match b.stmts.last() {
            Some(Stmt::Expr(e, None)) => self.infer(e),
            _ => Ty::Unknown,
        }
    }
    pub fn elem(&self, t: &Ty) -> Ty {
        match t {
            Ty::Vec(x) | Ty::Arr1(x) => (**x).clone(),
            Ty::Arr2 => Ty::F,
            _ => Ty::Unknown,
        }
    }
    pub fn bind_pat(&mut self, p: &Pat, t: &Ty) {
        match p {
            Pat::Ident(i) => {
                self.vars.insert(i.ident.to_string(), t.clone());
            }
            Pat::Type(pt) => {
                let t2 = parse_ty(&pt.ty, self.self_ty.as_deref());
                self.bind_pat(&pt.pat, &t2);
            }
            Pat::Reference(r) => self.bind_pat(&r.pat, t),
            Pat::Paren(r) => self.bind_pat(&r.pat, t),
            Pat::Tuple(tp) => {
                for (i, e) in tp.elems.iter().enumerate() {
                    let ti = match t {
                        Ty::Tuple(v) => v.get(i).cloned().unwrap_or(Ty::Unknown),
                        _ => Ty::Unknown,
                    };
                    self.bind_pat(e, &ti);
                }
            }
            _ => {}
        }
    }
}

pub struct VecRepeat {
    pub elem: Expr,
    pub len: Expr,
}
impl syn::parse::Parse for VecRepeat {
    fn parse(input: syn::parse::ParseStream) -> Result<Self> {
        let elem: Expr = input.parse()?;
        input.parse::<Token![;]>()?;
        let len: Expr = input.parse()?;
        Ok(VecRepeat { elem, len })
    }
}
pub struct VecList(pub Vec<Expr>);
impl syn::parse::Parse for VecList {
    fn parse(input: syn::parse::ParseStream) -> Result<Self> {
        let p = syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated(input)?;
        Ok(VecList(p.into_iter().collect()))
    }
}
