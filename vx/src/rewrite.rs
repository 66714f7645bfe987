//! The rewrite rules R1..R19 of DESIGN.md, applied to the syntax tree of /repo's current source.
use crate::die;
use crate::lits::Lits;
use crate::unit::*;
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::visit_mut::{self, VisitMut};
use syn::*;

const LOG_MACROS: &[&str] = &[
    "trace", "debug", "info", "warn", "error", "println", "eprintln", "print", "eprint", "log", "event", "debug_assert",
    "debug_assert_eq", "debug_assert_ne",
];

#[derive(Clone)]
struct FnDef {
    attrs_ok: bool,
    sig: Signature,
    block: Block,
}
struct SrcFile {
    file: File,
    consts: HashMap<String, Expr>,
    str_consts: HashMap<String, String>,
    /// (type name or "", fn name) -> definition
    fns: BTreeMap<(String, String), FnDef>,
}

pub struct Rewriter {
    repo: String,
    u: Unit,
    probe: bool,
    pub lits: Lits,
    files: HashMap<String, SrcFile>,
    pub used_specs: BTreeSet<String>,
    pub extracted: Vec<(String, String)>,
    pub uncontracted: Vec<String>,
    pub inlined: Vec<String>,
    pub probes: Vec<String>,
    pub notes: Vec<String>,
    pub locals_out: Vec<String>,
    pub loops_out: Vec<String>,
    loop_sig: Vec<String>,
    // per function
    cur_file: String,
    cur_type: String,
    cur_spec: Option<FnSpec>,
    loop_n: usize,
    clo_n: usize,
    tmp_n: usize,
    anchors: HashMap<String, usize>,
    splices: Vec<(Kind, String)>,
    locals: Vec<String>,
    listed: BTreeSet<(String, String)>,
    pending_auto: Vec<(String, String)>,
    inline_stack: Vec<String>,
    used_parts: BTreeSet<String>,
    into_params: BTreeSet<String>,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Spec,
    Loop,
    Clo,
    Ghost,
}

fn norm(t: &impl ToTokens) -> String {
    t.to_token_stream().to_string().replace(' ', "")
}
fn cfg_true(m: &Meta) -> bool {
    match m {
        Meta::List(l) => {
            let name = l.path.segments.last().unwrap().ident.to_string();
            let inner = l
                .parse_args_with(punctuated::Punctuated::<Meta, Token![,]>::parse_terminated)
                .map(|p| p.into_iter().collect::<Vec<_>>())
                .unwrap_or_default();
            match name.as_str() {
                "not" => !inner.iter().all(cfg_true),
                "all" | "cfg" => inner.iter().all(cfg_true),
                "any" => inner.iter().any(cfg_true),
                _ => true,
            }
        },
        Meta::NameValue(nv) => {
            let k = norm(&nv.path);
            let v = norm(&nv.value);
            match k.as_str() {
                "target_arch" => v == "\"x86_64\"",
                "feature" => true,
                "target_feature" => true,
                _ => true,
            }
        },
        Meta::Path(p) => {
            let k = norm(p);
            k != "test" && k != "kani" && k != "doc" && k != "doctest"
        },
    }
}
fn attrs_on(attrs: &[Attribute]) -> bool {
    attrs.iter().all(|a| !a.path().is_ident("cfg") || cfg_true(&a.meta))
}

impl Rewriter {
    pub fn new(repo: &str, u: Unit, probe: bool) -> Self {
        let mut listed = BTreeSet::new();
        for s in &u.segments {
            if let Segment::Extract { what, .. } = s {
                for w in what {
                    if let Some(r) = w.strip_prefix("fn:") {
                        listed.insert((String::new(), r.to_string()));
                    } else if let Some(r) = w.strip_prefix("impl:") {
                        let (t, ns) = split_impl(r);
                        for n in ns {
                            listed.insert((t.1.clone(), n));
                        }
                    }
                }
            }
        }
        Rewriter {
            repo: repo.into(),
            u,
            probe,
            lits: Lits::default(),
            files: HashMap::new(),
            used_specs: BTreeSet::new(),
            extracted: vec![],
            uncontracted: vec![],
            inlined: vec![],
            probes: vec![],
            notes: vec![],
            locals_out: vec![],
            loops_out: vec![],
            loop_sig: vec![],
            cur_file: String::new(),
            cur_type: String::new(),
            cur_spec: None,
            loop_n: 0,
            clo_n: 0,
            tmp_n: 0,
            anchors: HashMap::new(),
            splices: vec![],
            locals: vec![],
            listed,
            pending_auto: vec![],
            inline_stack: vec![],
            into_params: BTreeSet::new(),
            used_parts: BTreeSet::new(),
        }
    }
    fn load(&mut self, path: &str) {
        if self.files.contains_key(path) {
            return;
        }
        let full = format!("{}/{}", self.repo, path);
        let text = std::fs::read_to_string(&full).unwrap_or_else(|e| die("ANCHOR", &format!("{}: {}", full, e)));
        let file = parse_file(&text).unwrap_or_else(|e| die("PARSE", &format!("{}: {}", full, e)));
        let mut sf = SrcFile { consts: HashMap::new(), str_consts: HashMap::new(), fns: BTreeMap::new(), file };
        let items = sf.file.items.clone();
        index_items(&items, &mut sf);
        for (ty, f, name, caps) in self.u.lifts.clone() {
            if let Some(d) = sf.fns.get(&(ty.clone(), f.clone())).cloned() {
                let (from, to) = lift_closure(d, &name, &caps);
                sf.fns.insert((ty.clone(), f), from);
                sf.fns.insert((ty, name), to);
            }
        }
        self.files.insert(path.to_string(), sf);
    }

    pub fn extract(&mut self, path: &str, what: &[String], opts: &[String]) -> String {
        self.load(path);
        for (f, name, want) in self.u.statics.clone() {
            self.load(&f);
            let mut look = FindStatic(&name, vec![]);
            syn::visit::Visit::visit_file(&mut look, &self.files[&f].file);
            let got = if look.1.len() == 1 { look.1.pop() } else { None };
            let want: String = want.chars().filter(|c| !c.is_whitespace()).collect();
            if got.as_deref() != Some(&want) {
                die("ANCHOR", &format!("static {} of {} is {:?}, the contract is for {}", name, f, got, want));
            }
        }
        for f in self.u.const_files.clone() {
            self.load(&f);
        }
        self.cur_file = path.to_string();
        let mut out = String::new();
        for w in what {
            if let Some(name) = w.strip_prefix("struct:").or_else(|| w.strip_prefix("enum:")) {
                out.push_str(&self.extract_type(path, name, opts));
            } else if let Some(name) = w.strip_prefix("const:") {
                let e = self.files[path]
                    .consts
                    .get(name)
                    .cloned()
                    .unwrap_or_else(|| die("ANCHOR", &format!("const {} not found in {}", name, path)));
                let ty = self.files[path].file.items.iter().find_map(|i| match i {
                    Item::Const(c) if c.ident == name => Some((*c.ty).clone()),
                    _ => None,
                });
                let ty = ty.map(|t| norm(&t)).unwrap_or("u64".into());
                out.push_str(&format!("pub const {}: {} = {};\n", name, ty, e.to_token_stream()));
            } else if let Some(name) = w.strip_prefix("fn:") {
                out.push_str(&self.extract_fn(path, "", name));
            } else if let Some(r) = w.strip_prefix("impl:") {
                let ((alias, ty), names) = split_impl(r);
                let generics = self.impl_generics(path, &ty);
                out.push_str(&format!("impl{} {} {{\n", generics.0, format!("{}{}", alias, generics.1)));
                for n in names {
                    if n == "consts" {
                        out.push_str(&self.extract_consts(path, &ty));
                    } else {
                        out.push_str(&self.extract_fn(path, &ty, &n));
                    }
                }
                while let Some(i) = self.pending_auto.iter().position(|p| p.0 == ty) {
                    let (t, n) = self.pending_auto.remove(i);
                    out.push_str(&self.extract_fn(path, &t, &n));
                }
                out.push_str("}\n");
            } else {
                die("UNIT", &format!("extract {}", w));
            }
        }
        while let Some(i) = self.pending_auto.iter().position(|p| p.0.is_empty()) {
            let (t, n) = self.pending_auto.remove(i);
            out.push_str(&self.extract_fn(path, &t, &n));
        }
        out
    }
    fn impl_generics(&self, path: &str, ty: &str) -> (String, String) {
        for it in &self.files[path].file.items {
            if let Item::Impl(i) = it {
                if type_name(&i.self_ty) == ty && attrs_on(&i.attrs) {
                    let (ig, _, wc) = i.generics.split_for_impl();
                    let _ = wc;
                    let args = match &*i.self_ty {
                        Type::Path(p) => match &p.path.segments.last().unwrap().arguments {
                            PathArguments::None => String::new(),
                            a => a.to_token_stream().to_string(),
                        },
                        _ => String::new(),
                    };
                    return (ig.to_token_stream().to_string(), args);
                }
            }
        }
        (String::new(), String::new())
    }

    fn extract_consts(&mut self, path: &str, ty: &str) -> String {
        let mut out = String::new();
        for it in self.files[path].file.items.clone() {
            if let Item::Impl(i) = it {
                if type_name(&i.self_ty) == ty && i.trait_.is_none() {
                    for x in &i.items {
                        if let ImplItem::Const(c) = x {
                            if !matches!(&c.expr, Expr::Lit(ExprLit { lit: Lit::Str(_), .. })) {
                                let (n, t, e) = (&c.ident, &c.ty, &c.expr);
                                out.push_str(&quote!(pub const #n: #t = #e;).to_string());
                                out.push('\n');
                            }
                        }
                    }
                }
            }
        }
        out
    }
    fn extract_type(&mut self, path: &str, name: &str, opts: &[String]) -> String {
        let (src, out_name) = name.split_once('=').map(|(a, b)| (a, b)).unwrap_or((name, name));
        let item = find_type(&self.files[path].file.items, src)
            .unwrap_or_else(|| die("ANCHOR", &format!("type {} not found in {}", src, path)));
        let derive = opts
            .iter()
            .find_map(|o| o.strip_prefix("derive="))
            .map(|d| format!("#[derive({})]\n", d))
            .unwrap_or_default();
        let tags = match &item {
            Item::Enum(e) if opts.iter().any(|o| o == "tags") => self.tag_specs(e, out_name),
            _ => String::new(),
        };
        let (toks, d) = match item {
            Item::Struct(mut s) => {
                s.attrs.clear();
                s.vis = parse_quote!(pub);
                s.ident = format_ident!("{}", out_name);
                let drop = self.u.drop_fields.clone();
                if let Fields::Named(n) = &mut s.fields {
                    let kept: Vec<Field> = n
                        .named
                        .iter()
                        .filter(|f| {
                            attrs_on(&f.attrs) && !drop.contains(&format!("{}.{}", src, f.ident.as_ref().unwrap()))
                        })
                        .cloned()
                        .collect();
                    n.named = kept.into_iter().collect();
                }
                for f in s.fields.iter_mut() {
                    f.attrs.clear();
                    f.vis = parse_quote!(pub);
                    self.fix_type(&mut f.ty);
                }
                self.visit_generics_mut(&mut s.generics);
                (s.to_token_stream(), derive)
            },
            Item::Enum(mut s) => {
                s.attrs.clear();
                s.vis = parse_quote!(pub);
                s.ident = format_ident!("{}", out_name);
                let drop = self.u.drop_fields.clone();
                s.variants = s
                    .variants
                    .iter()
                    .filter(|v| attrs_on(&v.attrs) && !drop.contains(&format!("{}.{}", src, v.ident)))
                    .cloned()
                    .collect();
                for v in s.variants.iter_mut() {
                    v.attrs.clear();
                    for f in v.fields.iter_mut() {
                        f.attrs.clear();
                        self.fix_type(&mut f.ty);
                    }
                }
                (s.to_token_stream(), derive)
            },
            Item::Type(mut s) => {
                s.attrs.clear();
                s.vis = parse_quote!(pub);
                self.fix_type(&mut s.ty);
                (s.to_token_stream(), String::new())
            },
            _ => unreachable!(),
        };
        self.notes.push(format!("type {} from {}", src, path));
        let eq = if opts.iter().any(|o| o == "eq") {
            // TRUSTED: the derived PartialEq is field-wise equality
            format!("impl vstd::std_specs::cmp::PartialEqSpecImpl for {n} {{ open spec fn obeys_eq_spec() -> bool {{ true }} open spec fn eq_spec(&self, o: &Self) -> bool {{ *self == *o }} }}\nimpl PartialEq for {n} {{ #[verifier::external_body] fn eq(&self, o: &Self) -> bool {{ unimplemented!() }} }}\n", n = out_name)
        } else {
            String::new()
        };
        let d = format!("{}{}", eq, d);
        format!("// extracted from {}: {}\n{}{}\n{}", path, src, d, rustfmt(&toks.to_string()), tags)
    }
    /// What serde's derive makes of an adjacently tagged enum: the tag of each variant, and decoding from (tag, content).
    fn tag_specs(&mut self, e: &ItemEnum, n: &str) -> String {
        let serde_of = |attrs: &[Attribute]| -> Vec<(String, String)> {
            let mut out = vec![];
            for a in attrs {
                if a.path().is_ident("serde") {
                    let r = a.parse_nested_meta(|m| {
                        let k = norm(&m.path);
                        let v: LitStr = m.value()?.parse()?;
                        out.push((k, v.value()));
                        Ok(())
                    });
                    if let Err(x) = r {
                        die("UNSUPPORTED", &format!("serde attribute on {}: {}", n, x));
                    }
                }
            }
            out
        };
        let (mut tag, mut content) = (None, None);
        for (k, v) in serde_of(&e.attrs) {
            match k.as_str() {
                "tag" => tag = Some(v),
                "content" => content = Some(v),
                "rename_all" if v == "camelCase" => {},
                _ => die("UNSUPPORTED", &format!("serde attribute {} on {}", k, n)),
            }
        }
        let (Some(tag), Some(content)) = (tag, content) else { die("UNSUPPORTED", &format!("{} is not adjacently tagged", n)) };
        let mut t1 = format!("pub open spec fn {n}_tag(x: {n}) -> Seq<u8> {{ match x {{\n");
        let mut t2 = format!("pub open spec fn {n}_of(m: Seq<u8>, p: Value) -> Option<{n}> {{\n");
        let mut t4 = format!("pub open spec fn {n}_content(x: {n}, p: Option<Value>) -> bool {{ match x {{\n");
        let mut t5 = format!("pub open spec fn {n}_faithful(x: {n}) -> bool {{ match x {{\n");
        for v in &e.variants {
            if !attrs_on(&v.attrs) {
                continue;
            }
            let mut name = v.ident.to_string();
            name = name[..1].to_lowercase() + &name[1..];
            for (k, x) in serde_of(&v.attrs) {
                match k.as_str() {
                    "rename" => name = x,
                    _ => die("UNSUPPORTED", &format!("serde attribute {} on {}::{}", k, n, v.ident)),
                }
            }
            let id = &v.ident;
            let k = format!("lits_{}()", self.lits.id(&name));
            let (pat, dec) = match &v.fields {
                Fields::Unit => (format!("{n}::{id}"), {
                    t4.push_str(&format!("    {n}::{id} => p is None,\n"));
                    t5.push_str(&format!("    {n}::{id} => true,\n"));
                    format!("if p is Null {{ Some({n}::{id}) }} else {{ None }}")
                }),
                Fields::Unnamed(u) if u.unnamed.len() == 1 => {
                    let mut ty = u.unnamed[0].ty.clone();
                    self.fix_type(&mut ty);
                    let ty = norm(&ty);
                    t4.push_str(&format!("    {n}::{id}(a) => p == Some(a.ser()),\n"));
                    t5.push_str(&format!("    {n}::{id}(a) => de::<{ty}>(a.ser()) == Some(a),\n"));
                    (format!("{n}::{id}(_)"), format!("match de::<{ty}>(p) {{ Some(x) => Some({n}::{id}(x)), None => None }}"))
                },
                Fields::Named(u) if u.named.len() == 1 => {
                    let f = &u.named[0];
                    let mut key = f.ident.as_ref().unwrap().to_string();
                    for (k, x) in serde_of(&f.attrs) {
                        match k.as_str() {
                            "rename" => key = x,
                            _ => die("UNSUPPORTED", &format!("serde attribute {} on a field of {}", k, n)),
                        }
                    }
                    if key.contains('_') {
                        die("UNSUPPORTED", &format!("field name {} of {}", key, n));
                    }
                    let mut ty = f.ty.clone();
                    self.fix_type(&mut ty);
                    let (ty, fi) = (norm(&ty), f.ident.as_ref().unwrap());
                    let kk = format!("lits_{}()", self.lits.id(&key));
                    t4.push_str(&format!("    {n}::{id} {{ {fi} }} => match p {{ Some(Value::Object(o)) => o@ == Map::<Seq<u8>, Value>::empty().insert({kk}, {fi}.ser()), _ => false }},\n"));
                    t5.push_str(&format!("    {n}::{id} {{ {fi} }} => de::<{ty}>({fi}.ser()) == Some({fi}),\n"));
                    (format!("{n}::{id} {{ .. }}"), format!("match p {{ Value::Object(o) => if o@.contains_key({kk}) {{ match de::<{ty}>(o@[{kk}]) {{ Some(x) => Some({n}::{id} {{ {fi}: x }}), None => None }} }} else {{ None }}, _ => de_other::<{n}>(p) }}"))
                },
                _ => die("UNSUPPORTED", &format!("shape of {}::{}", n, id)),
            };
            t1.push_str(&format!("    {pat} => {k},\n"));
            t2.push_str(&format!("    if m == {k} {{ {dec} }} else\n"));
        }
        t1.push_str("} }\n");
        t2.push_str("    { None }\n}\n");
        let (kt, kc) = (format!("lits_{}()", self.lits.id(&tag)), format!("lits_{}()", self.lits.id(&content)));
        let t3 = format!("impl Deserialize for {n} {{ open spec fn de(v: Value) -> Option<{n}> {{ match v {{ Value::Object(o) if o@.contains_key({kt}) && o@.contains_key({kc}) => match o@[{kt}] {{ Value::String(m) => {n}_of(m@, o@[{kc}]), _ => None }}, _ => de_other::<{n}>(v) }} }} }}\n");
        t4.push_str("} }\n");
        t5.push_str("} }\n");
        format!("{}{}{}{}{}", t1, t2, t3, t4, t5)
    }
    fn fix_type(&mut self, t: &mut Type) {
        self.visit_type_mut(t);
    }

    fn extract_fn(&mut self, path: &str, ty: &str, name: &str) -> String {
        let (name, alias) = match name.split_once('=') {
            Some((a, b)) => (a, Some(b)),
            None => (name, None),
        };
        let def = self.files[path]
            .fns
            .get(&(ty.to_string(), name.to_string()))
            .cloned()
            .unwrap_or_else(|| die("ANCHOR", &format!("function {}::{} not found in {}", ty, name, path)));
        let _ = def.attrs_ok;
        let shown = alias.unwrap_or(name);
        let key = if ty.is_empty() { shown.to_string() } else { format!("{}::{}", ty, shown) };
        let spec = self.u.fns.get(&key).cloned();
        if spec.is_some() {
            self.used_specs.insert(key.clone());
        } else {
            self.uncontracted.push(key.clone());
        }
        self.cur_file = path.into();
        self.cur_type = ty.into();
        self.cur_spec = spec.clone();
        self.loop_n = 0;
        self.loop_sig.clear();
        self.clo_n = 0;
        self.tmp_n = 0;
        self.anchors.clear();
        self.splices.clear();
        self.locals.clear();
        self.used_parts.clear();
        self.into_params.clear();
        self.inline_stack = vec![name.to_string()];
        let mut sig = def.sig.clone();
        if let Some(a) = alias {
            sig.ident = format_ident!("{}", a);
        }
        let mut block = def.block.clone();
        // signature
        sig.asyncness = None;
        sig.unsafety = None;
        sig.constness = None;
        let mut self_mut = false;
        for a in sig.inputs.iter_mut() {
            match a {
                FnArg::Receiver(r) => {
                    r.attrs.clear();
                    // R1: a shared receiver is the value it holds
                    let rt = norm(&r.ty).replace(' ', "");
                    if r.colon_token.is_some() && (rt == "&Arc<Self>" || rt == "&Rc<Self>") {
                        *r = parse_quote!(&self);
                    } else if r.colon_token.is_some() && (rt == "Arc<Self>" || rt == "Rc<Self>") {
                        *r = parse_quote!(self);
                    }
                    if r.reference.is_none() && r.mutability.is_some() {
                        r.mutability = None;
                        self_mut = true;
                    }
                    if spec.as_ref().map_or(false, |s| s.mutself) && r.reference.is_some() {
                        *a = parse_quote!(&mut self);
                    }
                },
                FnArg::Typed(t) => {
                    t.attrs.clear();
                    // axum's `State(x): State<T>` is x: T
                    if let Pat::TupleStruct(ts) = &*t.pat {
                        if ts.path.is_ident("State") && ts.elems.len() == 1 {
                            *t.pat = ts.elems[0].clone();
                            if let Type::Path(p) = &*t.ty {
                                if let PathArguments::AngleBracketed(a) = &p.path.segments.last().unwrap().arguments {
                                    if let Some(GenericArgument::Type(x)) = a.args.first().cloned() {
                                        *t.ty = x;
                                    }
                                }
                            }
                        }
                    }
                    if let Pat::Ident(p) = &mut *t.pat {
                        self.locals.push(p.ident.to_string());
                        if let Some(over) = spec.as_ref().and_then(|s| s.params.get(&p.ident.to_string())) {
                            *t.ty = parse_str(over).unwrap_or_else(|e| die("UNIT", &e.to_string()));
                            if norm(&t.ty).contains("VIntoString") {
                                self.into_params.insert(p.ident.to_string());
                            }
                            continue;
                        }
                    }
                    self.visit_type_mut(&mut t.ty);
                    if let (Pat::Ident(p), true) = (&*t.pat, norm(&t.ty).contains("VIntoString")) {
                        self.into_params.insert(p.ident.to_string());
                    }
                },
            }
        }
        // ghost parameters (recorders of effects) are added after the function's own
        for (n, t) in spec.as_ref().map(|s| s.addparams.clone()).unwrap_or_default() {
            self.locals.push(n.clone());
            let (n, t): (Ident, Type) = (parse_str(&n).unwrap_or_else(|e| die("UNIT", &e.to_string())), parse_str(&t).unwrap_or_else(|e| die("UNIT", &e.to_string())));
            sig.inputs.push(parse_quote!(#n: #t));
        }
        if spec.as_ref().map_or(false, |s| s.flags.contains(&"dropgenerics".to_string())) {
            sig.generics = Generics::default();
        }
        self.visit_generics_mut(&mut sig.generics);
        if let ReturnType::Type(_, t) = &mut sig.output {
            self.visit_type_mut(t);
        }
        // body
        if !spec.as_ref().map_or(false, |s| s.parts.iter().any(|p| p.0.starts_with("closure "))) {
            LocalClosures.visit_block_mut(&mut block);
        }
        Selects.visit_block_mut(&mut block);
        self.visit_block_mut(&mut block);
        RefPats(0).visit_block_mut(&mut block);
        // a lock is taken through `&mut` here: locals holding a lock become mutable
        {
            struct L(BTreeSet<String>);
            impl<'a> syn::visit::Visit<'a> for L {
                fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
                    if m.args.is_empty() && ["lock", "write"].contains(&m.method.to_string().as_str()) {
                        if let Expr::Path(p) = &*m.receiver {
                            if let Some(i) = p.path.get_ident() {
                                self.0.insert(i.to_string());
                            }
                        }
                    }
                    syn::visit::visit_expr_method_call(self, m);
                }
            }
            let mut l = L(BTreeSet::new());
            syn::visit::Visit::visit_block(&mut l, &block);
            struct M(BTreeSet<String>);
            impl VisitMut for M {
                fn visit_local_mut(&mut self, l: &mut Local) {
                    if let Pat::Ident(p) = &mut l.pat {
                        if self.0.contains(&p.ident.to_string()) && p.by_ref.is_none() {
                            p.mutability = Some(Default::default());
                        }
                    }
                    visit_mut::visit_local_mut(self, l);
                }
            }
            if !l.0.is_empty() {
                M(l.0).visit_block_mut(&mut block);
            }
        }
        if self_mut {
            // `mut self` parameter: R18 copies it into a local
            struct S;
            impl VisitMut for S {
                fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
                    if p.path.is_ident("self") {
                        *p = parse_quote!(__self);
                    }
                }
            }
            S.visit_block_mut(&mut block);
            block.stmts.insert(0, parse_quote!(let mut __self = self;));
        }
        let mut pre: Vec<Stmt> = vec![];
        if let Some(s) = &spec {
            let mut text = self.fix_locals(s, &s.spec.clone());
            if self.probe && !s.flags.contains(&"noprobe".to_string()) {
                let p = format!("vx_probe_{}", self.probes.len());
                self.probes.push(p.clone());
                text = add_ensures(&text, &format!("{}()", p));
            }
            let k = self.splice(Kind::Spec, text);
            pre.push(marker("__vx_spec", k));
            if let Some(g) = self.take_part("start") {
                let k = self.splice(Kind::Ghost, g);
                pre.push(marker("__vx_ghost", k));
            }
            if let Some(g) = self.take_part("tail") {
                let k = self.splice(Kind::Ghost, g);
                let m = marker("__vx_ghost", k);
                match block.stmts.pop() {
                    Some(Stmt::Expr(e, None)) => {
                        let isl = matches!(e, Expr::While(_) | Expr::Loop(_));
                        if isl {
                            block.stmts.push(Stmt::Expr(e, None));
                            block.stmts.push(m);
                        } else {
                            block.stmts.push(parse_quote!(let __tail = #e;));
                            block.stmts.push(m);
                            block.stmts.push(Stmt::Expr(parse_quote!(__tail), None));
                        }
                    },
                    Some(s) => {
                        block.stmts.push(s);
                        block.stmts.push(m);
                    },
                    None => block.stmts.push(m),
                }
            }
            // every proof hint must have found its place
            for k in s.parts.keys() {
                if !self.used_parts.contains(k) {
                    die("ANCHOR", &format!("{}: no place for hint `{}`", key, k));
                }
            }
        }
        if self.cur_spec.is_none() {
            let k = self.splice(Kind::Spec, String::new());
            pre.push(marker("__vx_spec", k));
        }
        let rest = std::mem::take(&mut block.stmts);
        block.stmts = pre;
        block.stmts.extend(rest);
        if let Some(r) = spec.as_ref().and_then(|s| s.ret.clone()) {
            let t: Type = match &sig.output {
                ReturnType::Type(_, t) => (**t).clone(),
                ReturnType::Default => parse_quote!(()),
            };
            let id = format_ident!("__VxRet_{}", r);
            sig.output = parse_quote!(-> #id<#t>);
        }
        // `for<'de> Trait<'de>`: the shim traits have no lifetimes
        for g in sig.generics.params.iter_mut() {
            if let GenericParam::Type(t) = g {
                for b in t.bounds.iter_mut() {
                    if let TypeParamBound::Trait(tb) = b {
                        if tb.lifetimes.take().is_some() {
                            for seg in tb.path.segments.iter_mut() {
                                seg.arguments = PathArguments::None;
                            }
                        }
                    }
                }
            }
        }
        let toks = quote!(pub #sig #block);
        let wrapped = if ty.is_empty() { toks.to_string() } else { format!("impl __X {{ {} }}", toks) };
        let mut text = rustfmt(&wrapped);
        if !ty.is_empty() {
            let a = text.find('{').unwrap() + 1;
            let b = text.rfind('}').unwrap();
            text = text[a..b].to_string();
        }
        let text = self.apply_splices(text);
        self.extracted.push((key.clone(), path.to_string()));
        self.loops_out.push(format!("{} {}", key, self.loop_sig.join(" ")));
        self.locals_out.push(format!("{} {}", key, self.locals.join(" ")));
        let attrs = spec.map(|s| s.attrs).unwrap_or_default();
        format!("// extracted from {}: {}\n//VXFN {}\n{}{}\n//VXEND\n", path, key, key, attrs, text)
    }

    /// Contracts mention locals by the names they had when the contract was written; a pure renaming of
    /// locals is followed by position.
    fn fix_locals(&mut self, s: &FnSpec, text: &str) -> String {
        let mut t = text.to_string();
        if !s.locals.is_empty() && s.locals.len() == self.locals.len() && s.locals != self.locals {
            let mut map: HashMap<String, String> = HashMap::new();
            for (a, b) in s.locals.iter().zip(self.locals.iter()) {
                if a != b {
                    if let Some(prev) = map.get(a) {
                        if prev != b {
                            return self.lits.expand_spec(&t);
                        }
                    }
                    map.insert(a.clone(), b.clone());
                }
            }
            let mut o = String::new();
            let mut cur = String::new();
            for c in t.chars().chain(std::iter::once('\n')) {
                if c.is_alphanumeric() || c == '_' {
                    cur.push(c)
                } else {
                    if !cur.is_empty() {
                        let prev = o.chars().last();
                        if prev != Some('.') && map.contains_key(&cur) {
                            o.push_str(&map[&cur]);
                        } else {
                            o.push_str(&cur);
                        }
                        cur.clear();
                    }
                    o.push(c);
                }
            }
            t = o;
        }
        self.lits.expand_spec(&t)
    }
    fn take_part(&mut self, k: &str) -> Option<String> {
        let s = self.cur_spec.clone()?;
        let p = s.parts.get(k)?.clone();
        self.used_parts.insert(k.to_string());
        Some(self.fix_locals(&s, &p))
    }
    fn splice(&mut self, k: Kind, t: String) -> usize {
        self.splices.push((k, t));
        self.splices.len() - 1
    }
    fn apply_splices(&mut self, mut text: String) -> String {
        for (k, (kind, body)) in self.splices.clone().into_iter().enumerate() {
            let m = match kind {
                Kind::Spec => format!("__vx_spec!({});", k),
                Kind::Loop => format!("__vx_loop!({});", k),
                Kind::Clo => format!("__vx_clo!({});", k),
                Kind::Ghost => format!("__vx_ghost!({});", k),
            };
            let Some(pos) = text.find(&m) else { die("INTERNAL", &format!("marker {} lost", m)) };
            let end = pos + m.len();
            if kind == Kind::Ghost {
                text = format!("{}{}{}", &text[..pos], body, &text[end..]);
                continue;
            }
            let brace = text[..pos].rfind('{').unwrap();
            if !text[brace + 1..pos].trim().is_empty() {
                die("INTERNAL", &format!("marker {} not first in block", m));
            }
            let mut head = text[..brace].to_string();
            if kind == Kind::Spec {
                if let Some(r) = head.rfind("__VxRet_") {
                    let lt = r + head[r..].find('<').unwrap();
                    let name = head[r + 8..lt].to_string();
                    let mut depth = 0;
                    let bytes: Vec<char> = head.chars().collect();
                    // byte index == char index is not guaranteed; work on chars after lt
                    let pre_chars = head[..lt].chars().count();
                    let mut e = 0;
                    for i in pre_chars..bytes.len() {
                        if bytes[i] == '<' {
                            depth += 1
                        }
                        if bytes[i] == '>' && !(i > 0 && bytes[i - 1] == '-') {
                            depth -= 1;
                            if depth == 0 {
                                e = i;
                                break;
                            }
                        }
                    }
                    let inner: String = bytes[pre_chars + 1..e].iter().collect();
                    let after: String = bytes[e + 1..].iter().collect();
                    head = format!("{}({}: {}){}", &head[..r], name, inner.trim().trim_end_matches(','), after);
                }
            }
            let mut body = body.clone();
            if kind == Kind::Clo {
                let b = body.trim().to_string();
                if b.starts_with('|') {
                    // replace the closure's parameter list (adds types only)
                    let h = head.trim_end().to_string();
                    let last = h.rfind('|').unwrap();
                    let first = h[..last].rfind('|').unwrap();
                    head = h[..first].to_string();
                }
                body = b;
            }
            text = format!("{}\n{}\n{{{}", head.trim_end(), body.trim_end(), &text[end..]);
        }
        text
    }

    fn tmp(&mut self, p: &str) -> Ident {
        self.tmp_n += 1;
        format_ident!("__{}{}", p, self.tmp_n - 1)
    }

    // ---- loops -------------------------------------------------------------------------------
    /// Returns (loop ordinal, marker statements to put at the start of the loop's body).
    fn loop_marks(&mut self, kind: &str) -> (usize, Vec<Stmt>, Vec<Stmt>) {
        let k = self.loop_n;
        self.loop_sig.push(kind.to_string());
        self.loop_n += 1;
        let mut start = vec![];
        let mut end = vec![];
        if let Some(t) = self.take_part(&format!("loop {}", k)) {
            let n = self.splice(Kind::Loop, t);
            start.push(marker("__vx_loop", n));
        }
        if let Some(t) = self.take_part(&format!("loopstart {}", k)) {
            let n = self.splice(Kind::Ghost, t);
            start.push(marker("__vx_ghost", n));
        }
        if let Some(t) = self.take_part(&format!("loopend {}", k)) {
            let n = self.splice(Kind::Ghost, t);
            end.push(marker("__vx_ghost", n));
        }
        (k, start, end)
    }
    fn wrap_loop(&mut self, k: usize, l: Expr, label: Option<Label>) -> Vec<Stmt> {
        let mut v = vec![];
        if let Some(t) = self.take_part(&format!("beforeloop {}", k)) {
            let n = self.splice(Kind::Ghost, t);
            v.push(marker("__vx_ghost", n));
        }
        let mut l = l;
        if let Some(lb) = label {
            match &mut l {
                Expr::While(w) => w.label = Some(lb),
                Expr::Loop(w) => w.label = Some(lb),
                _ => {},
            }
        }
        v.push(Stmt::Expr(l, None));
        if let Some(t) = self.take_part(&format!("afterloop {}", k)) {
            let n = self.splice(Kind::Ghost, t);
            v.push(marker("__vx_ghost", n));
        }
        v
    }

    fn for_loop(&mut self, f: ExprForLoop) -> Expr {
        let (k, start, end) = self.loop_marks("for");
        let mut src = *f.expr;
        let mut pat = *f.pat;
        let mut body = f.body;
        self.visit_pat_mut(&mut pat);
        let mut stmts: Vec<Stmt> = vec![];
        let it = format_ident!("__it{}", k);
        // unparenthesise
        while let Expr::Paren(p) = src {
            src = *p.expr;
        }
        if let Expr::Range(r) = &src {
            let mut a = r.start.clone().unwrap_or_else(|| die("UNSUPPORTED", "for over ..x"));
            let mut b = r.end.clone().unwrap_or_else(|| die("UNSUPPORTED", "for over x.."));
            self.visit_expr_mut(&mut a);
            self.visit_expr_mut(&mut b);
            self.visit_block_mut(&mut body);
            let endv = format_ident!("__end{}", k);
            let bs = &body.stmts;
            match r.limits {
                RangeLimits::HalfOpen(_) => {
                    let l: Expr = parse_quote!(while #it < #endv { #(#start)* let #pat = #it; #it = #it + 1; #(#bs)* #(#end)* });
                    stmts.push(parse_quote!(let #endv = #b;));
                    stmts.push(parse_quote!(let mut #it = #a;));
                    stmts.extend(self.wrap_loop(k, l, f.label));
                },
                RangeLimits::Closed(_) => {
                    let done = format_ident!("__done{}", k);
                    let l: Expr = parse_quote!(while !#done { #(#start)* let #pat = #it; if #it == #endv { #done = true; } else { #it = #it + 1; } #(#bs)* #(#end)* });
                    stmts.push(parse_quote!(let #endv = #b;));
                    stmts.push(parse_quote!(let mut #it = #a;));
                    stmts.push(parse_quote!(let mut #done = #it > #endv;));
                    stmts.extend(self.wrap_loop(k, l, f.label));
                },
            }
            return parse_quote!({ #(#stmts)* });
        }
        // iteration by mutable reference (R11): index loop for a Vec, key loop for a map
        let (mut_src, map_like): (Option<Expr>, bool) = match &src {
            Expr::Reference(r) if r.mutability.is_some() => (Some((*r.expr).clone()), matches!(pat, Pat::Tuple(_))),
            Expr::MethodCall(m) if m.method == "iter_mut" => (Some((*m.receiver).clone()), matches!(pat, Pat::Tuple(_))),
            Expr::MethodCall(m) if m.method == "values_mut" => (Some((*m.receiver).clone()), true),
            _ => (None, false),
        };
        if let Some(mut x) = mut_src {
            let vals = matches!(&src, Expr::MethodCall(m) if m.method == "values_mut");
            self.visit_expr_mut(&mut x);
            if !matches!(x, Expr::Path(_) | Expr::Field(_)) {
                let m = format_ident!("__m{}", k);
                stmts.push(parse_quote!(let #m = #x;));
                x = parse_quote!(#m);
            }
            self.visit_block_mut(&mut body);
            let bs = &body.stmts;
            if map_like {
                let kx = format_ident!("__k{}", k);
                let bind: Stmt = if vals {
                    parse_quote!(let #pat = #x.v_get_mut(&#kx);)
                } else {
                    parse_quote!(let #pat = (&#kx, #x.v_get_mut(&#kx));)
                };
                let l: Expr = parse_quote!(while let Some(#kx) = #it.next() { #(#start)* #bind #(#bs)* #(#end)* });
                stmts.push(parse_quote!(let mut #it = #x.v_key_list().v_into_iter();));
                stmts.extend(self.wrap_loop(k, l, f.label));
            } else {
                let l: Expr = parse_quote!(while #it < #x.len() { #(#start)* let #pat = &mut #x[#it]; #it = #it + 1; #(#bs)* #(#end)* });
                stmts.push(parse_quote!(let mut #it: usize = 0;));
                stmts.extend(self.wrap_loop(k, l, f.label));
            }
            return parse_quote!({ #(#stmts)* });
        }
        let itexpr: Expr = match src {
            Expr::Reference(r) if r.mutability.is_none() => {
                let mut e = *r.expr;
                self.visit_expr_mut(&mut e);
                parse_quote!((#e).v_iter())
            },
            Expr::Reference(r) => {
                let mut e = *r.expr;
                self.visit_expr_mut(&mut e);
                parse_quote!((#e).v_iter_mut())
            },
            mut e => {
                // adapters between source and loop are folded into the body
                if let Some((srce, ads)) = self.split_adapters(&e) {
                    if !ads.is_empty() {
                        let item = self.tmp("x");
                        let mut bs: Vec<Stmt> = vec![];
                        let mut pre: Vec<Stmt> = vec![];
                        let mut srcv = srce.clone();
                        self.visit_expr_mut(&mut srcv);
                        let cur = self.fold_adapters(&ads, item.clone(), &mut bs, &mut pre, true);
                        self.visit_block_mut(&mut body);
                        let bd = &body.stmts;
                        let l: Expr = parse_quote!(while let Some(#item) = #it.next() { #(#start)* #(#bs)* let #pat = #cur; #(#bd)* #(#end)* });
                        stmts.push(parse_quote!(let mut #it = (#srcv).v_into_iter();));
                        stmts.extend(pre);
                        stmts.extend(self.wrap_loop(k, l, f.label));
                        return parse_quote!({ #(#stmts)* });
                    }
                }
                self.visit_expr_mut(&mut e);
                parse_quote!((#e).v_into_iter())
            },
        };
        self.visit_block_mut(&mut body);
        let bs = &body.stmts;
        let l: Expr = match &pat {
            Pat::Reference(r) if matches!(&*r.pat, Pat::Ident(_)) => {
                // `for &x in it`
                let inner = &r.pat;
                let item = format_ident!("__ref{}", k);
                parse_quote!(while let Some(#item) = #it.next() { #(#start)* let #inner = *#item; #(#bs)* #(#end)* })
            },
            _ => parse_quote!(while let Some(#pat) = #it.next() { #(#start)* #(#bs)* #(#end)* }),
        };
        stmts.push(parse_quote!(let mut #it = #itexpr;));
        stmts.extend(self.wrap_loop(k, l, f.label));
        parse_quote!({ #(#stmts)* })
    }

    // ---- iterator chains ---------------------------------------------------------------------
    fn split_adapters(&self, e: &Expr) -> Option<(Expr, Vec<(String, Vec<Expr>)>)> {
        let mut ads = vec![];
        let mut cur = e.clone();
        loop {
            match cur {
                Expr::MethodCall(m) => {
                    let n = m.method.to_string();
                    let args: Vec<Expr> = m.args.iter().cloned().collect();
                    if SOURCES.contains(&n.as_str()) {
                        ads.reverse();
                        return Some((Expr::MethodCall(m), ads));
                    }
                    if ADAPTERS.contains(&n.as_str()) {
                        ads.push((n, args));
                        cur = *m.receiver;
                        continue;
                    }
                    return None;
                },
                Expr::Paren(p) => {
                    if let Expr::Range(_) = &*p.expr {
                        ads.reverse();
                        return Some((Expr::Paren(p), ads));
                    }
                    cur = *p.expr;
                },
                _ => return None,
            }
        }
    }
    fn closure_parts(&self, e: &Expr) -> Option<(Vec<Pat>, Expr)> {
        match e {
            Expr::Closure(c) => Some((c.inputs.iter().cloned().collect(), (*c.body).clone())),
            _ => None,
        }
    }
    /// Apply a closure literal (or path) to argument expressions, inline.
    fn apply_closure(&mut self, f: &Expr, args: Vec<Expr>) -> Expr {
        if let Some((pats, mut body)) = self.closure_parts(f) {
            let mut lets: Vec<Stmt> = vec![];
            if has_return_or_try(&body) {
                die("UNSUPPORTED", "return/? inside a closure");
            }
            for (mut p, a) in pats.into_iter().zip(args) {
                self.visit_pat_mut(&mut p);
                match p {
                    Pat::Wild(_) => {},
                    Pat::Reference(r) => {
                        let inner = *r.pat;
                        lets.push(parse_quote!(let #inner = *(#a);))
                    },
                    p => lets.push(parse_quote!(let #p = #a;)),
                }
            }
            self.visit_expr_mut(&mut body);
            if lets.is_empty() {
                return body;
            }
            parse_quote!({ #(#lets)* #body })
        } else {
            let mut g = f.clone();
            if let Expr::Path(p) = &g {
                if norm(&p.path) == "ToString::to_string" || norm(&p.path) == "std::string::ToString::to_string" {
                    let a = &args[0];
                    return parse_quote!((#a).to_string());
                }
            }
            if let Expr::Path(p) = &g {
                if let Some(t) = self.u.calls.get(&norm(&p.path)).and_then(|r| parse_str::<ExprPath>(r).ok()) {
                    return parse_quote!(#t(#(#args),*));
                }
            }
            self.visit_expr_mut(&mut g);
            parse_quote!(#g(#(#args),*))
        }
    }
    /// Fold adapters over `item`; `skip` statements use `continue`. Returns the expression of the final item.
    fn fold_adapters(
        &mut self,
        ads: &[(String, Vec<Expr>)],
        item: Ident,
        bs: &mut Vec<Stmt>,
        pre: &mut Vec<Stmt>,
        _in_loop: bool,
    ) -> Expr {
        let mut cur: Expr = parse_quote!(#item);
        for (n, args) in ads {
            match n.as_str() {
                "cloned" | "copied" => cur = parse_quote!((#cur).v_clone()),
                "into_iter" | "iter" | "by_ref" | "fuse" => {},
                "map" => {
                    let x = self.tmp("m");
                    let e = self.apply_closure(&args[0], vec![cur]);
                    bs.push(parse_quote!(let #x = #e;));
                    cur = parse_quote!(#x);
                },
                "filter" => {
                    let x = self.tmp("f");
                    bs.push(parse_quote!(let #x = #cur;));
                    let e = self.apply_closure(&args[0], vec![parse_quote!(&#x)]);
                    bs.push(parse_quote!(if !(#e) { continue; }));
                    cur = parse_quote!(#x);
                },
                "filter_map" => {
                    let x = self.tmp("fm");
                    let y = self.tmp("fm");
                    let e = self.apply_closure(&args[0], vec![cur]);
                    bs.push(parse_quote!(let #x = #e;));
                    bs.push(parse_quote!(let #y = match #x { Some(v) => v, None => { continue; } };));
                    cur = parse_quote!(#y);
                },
                "enumerate" => {
                    let c = self.tmp("cnt");
                    pre.push(parse_quote!(let mut #c: usize = 0;));
                    let x = self.tmp("en");
                    bs.push(parse_quote!(let #x = (#c, #cur);));
                    bs.push(parse_quote!(#c = #c + 1;));
                    cur = parse_quote!(#x);
                },
                "take" => {
                    let c = self.tmp("take");
                    let mut a = args[0].clone();
                    self.visit_expr_mut(&mut a);
                    pre.push(parse_quote!(let mut #c: usize = #a;));
                    bs.push(parse_quote!(if #c == 0 { break; }));
                    bs.push(parse_quote!(#c = #c - 1;));
                },
                "skip" => {
                    let c = self.tmp("skip");
                    let mut a = args[0].clone();
                    self.visit_expr_mut(&mut a);
                    pre.push(parse_quote!(let mut #c: usize = #a;));
                    bs.push(parse_quote!(if #c > 0 { #c = #c - 1; continue; }));
                },
                "take_while" => {
                    let x = self.tmp("tw");
                    bs.push(parse_quote!(let #x = #cur;));
                    let e = self.apply_closure(&args[0], vec![parse_quote!(&#x)]);
                    bs.push(parse_quote!(if !(#e) { break; }));
                    cur = parse_quote!(#x);
                },
                "skip_while" => {
                    let c = self.tmp("sw");
                    pre.push(parse_quote!(let mut #c: bool = true;));
                    let x = self.tmp("sw");
                    bs.push(parse_quote!(let #x = #cur;));
                    let e = self.apply_closure(&args[0], vec![parse_quote!(&#x)]);
                    bs.push(parse_quote!(if #c { if #e { continue; } #c = false; }));
                    cur = parse_quote!(#x);
                },
                _ => die("UNSUPPORTED", &format!("iterator adapter {}", n)),
            }
        }
        cur
    }
    fn chain(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let n = m.method.to_string();
        if !CONSUMERS.contains(&n.as_str()) {
            return None;
        }
        let (src, mut ads) = self.split_adapters(&m.receiver)?;
        if n == "collect" && (m.turbofish.is_none() || norm(m.turbofish.as_ref().unwrap()).contains("Vec<_")) && ads.iter().all(|a| ["skip", "take", "rev", "cloned", "copied"].contains(&a.0.as_str())) && !matches!(src, Expr::Paren(_)) {
            let mut e = src.clone();
            self.visit_expr_mut(&mut e);
            e = parse_quote!((#e).v_into_iter());
            let mut cloned = false;
            for (nm, a) in ads {
                if nm == "cloned" || nm == "copied" {
                    cloned = true;
                    continue;
                }
                let f = format_ident!("v_{}", nm);
                let mut a: Vec<Expr> = a;
                for x in a.iter_mut() {
                    self.visit_expr_mut(x);
                }
                e = parse_quote!(#e.#f(#(#a),*));
            }
            return Some(if cloned { parse_quote!(#e.v_collect_cloned()) } else { parse_quote!(#e.v_collect()) });
        }
        if ads.is_empty() && (n == "next" || n == "count" && false) {
            return None;
        }
        let kind = format!("{}:{}", ads.iter().map(|a| a.0.clone()).collect::<Vec<_>>().join("."), n);
        let (k, start, end) = self.loop_marks(&kind);
        let it = format_ident!("__it{}", k);
        let out = format_ident!("__out{}", k);
        let item = self.tmp("x");
        let mut srcv = src;
        if let Expr::Paren(p) = &srcv {
            if let Expr::Range(r) = &*p.expr {
                let mut a = r.start.clone()?;
                let mut b = r.end.clone()?;
                self.visit_expr_mut(&mut a);
                self.visit_expr_mut(&mut b);
                srcv = match r.limits {
                    RangeLimits::HalfOpen(_) => parse_quote!(v_range(#a, #b)),
                    RangeLimits::Closed(_) => die("UNSUPPORTED", "(a..=b) iterator chain"),
                };
            }
        } else {
            self.visit_expr_mut(&mut srcv);
        }
        let mut bs = vec![];
        let mut pre = vec![];
        while ads.first().map_or(false, |a| ["skip", "take", "rev"].contains(&a.0.as_str())) {
            let (nm, a) = ads.remove(0);
            let f = format_ident!("v_{}", nm);
            let mut a: Vec<Expr> = a;
            for x in a.iter_mut() {
                self.visit_expr_mut(x);
            }
            srcv = parse_quote!((#srcv).v_into_iter().#f(#(#a),*));
        }
        let cur = self.fold_adapters(&ads, item.clone(), &mut bs, &mut pre, true);
        let args: Vec<Expr> = m.args.iter().cloned().collect();
        let mut stmts: Vec<Stmt> = vec![];
        stmts.push(parse_quote!(let mut #it = (#srcv).v_into_iter();));
        stmts.extend(pre);
        let mut tail: Option<Expr> = None;
        let (init, step): (Expr, Vec<Stmt>) = match n.as_str() {
            "collect" => {
                let tf = m.turbofish.as_ref().map(|t| norm(t)).unwrap_or_default();
                if matches!(tf.trim_start_matches("::").trim_start_matches('<').trim_end_matches('>'), "String" | "std::string::String") {
                    (parse_quote!(String::new()), vec![parse_quote!(#out.v_push_any(&(#cur));)])
                } else if tf.contains("HashMap") {
                    (parse_quote!(HashMap::new()), vec![parse_quote!(let (__k, __v) = #cur;), parse_quote!(let _ = #out.insert(__k, __v);)])
                } else if tf.contains("HashSet") {
                    (parse_quote!(HashSet::new()), vec![parse_quote!(let _ = #out.insert(#cur);)])
                } else if tf.contains("Result") {
                    let er = format_ident!("__err{}", k);
                    let x = self.tmp("cr");
                    stmts.push(parse_quote!(let mut #er = None;));
                    tail = Some(parse_quote!(match #er { Some(__e) => Err(__e), None => Ok(#out) }));
                    (parse_quote!(Vec::new()), vec![parse_quote!(match #cur { Ok(#x) => { #out.push(#x); }, Err(__e) => { #er = Some(__e); break; } })])
                } else {
                    (parse_quote!(Vec::new()), vec![parse_quote!(#out.push(#cur);)])
                }
            },
            "any" => {
                let e = self.apply_closure(&args[0], vec![cur]);
                (parse_quote!(false), vec![parse_quote!(if #e { #out = true; break; })])
            },
            "all" => {
                let e = self.apply_closure(&args[0], vec![cur]);
                (parse_quote!(true), vec![parse_quote!(if !(#e) { #out = false; break; })])
            },
            "find" => {
                let x = self.tmp("fi");
                let e = self.apply_closure(&args[0], vec![parse_quote!(&#x)]);
                (parse_quote!(None), vec![parse_quote!(let #x = #cur;), parse_quote!(if #e { #out = Some(#x); break; })])
            },
            "find_map" => {
                let x = self.tmp("fm");
                let e = self.apply_closure(&args[0], vec![cur]);
                (parse_quote!(None), vec![parse_quote!(let #x = #e;), parse_quote!(if #x.is_some() { #out = #x; break; })])
            },
            "position" => {
                let c = format_ident!("__pos{}", k);
                stmts.push(parse_quote!(let mut #c: usize = 0;));
                let e = self.apply_closure(&args[0], vec![cur]);
                (parse_quote!(None::<usize>), vec![parse_quote!(if #e { #out = Some(#c); break; }), parse_quote!(#c = #c + 1;)])
            },
            // the last of all matches: the closure is pure
            "rposition" => {
                let c = format_ident!("__pos{}", k);
                stmts.push(parse_quote!(let mut #c: usize = 0;));
                let e = self.apply_closure(&args[0], vec![cur]);
                (parse_quote!(None::<usize>), vec![parse_quote!(if #e { #out = Some(#c); }), parse_quote!(#c = #c + 1;)])
            },
            "count" => (parse_quote!(0usize), vec![parse_quote!(#out = #out + 1;)]),
            "next" => (parse_quote!(None), vec![parse_quote!(#out = Some(#cur);), parse_quote!(break;)]),
            "last" => (parse_quote!(None), vec![parse_quote!(#out = Some(#cur);)]),
            "sum" => (parse_quote!(0), vec![parse_quote!(#out = #out + #cur;)]),
            "for_each" => {
                let e = self.apply_closure(&args[0], vec![cur]);
                (parse_quote!(()), vec![parse_quote!(let _ = #e;)])
            },
            "fold" => {
                let mut i = args[0].clone();
                self.visit_expr_mut(&mut i);
                let e = self.apply_closure(&args[1], vec![parse_quote!(#out), cur]);
                (i, vec![parse_quote!(#out = #e;)])
            },
            _ => return None,
        };
        stmts.push(parse_quote!(let mut #out = #init;));
        let l: Expr = parse_quote!(while let Some(#item) = #it.next() { #(#start)* #(#bs)* #(#step)* #(#end)* });
        stmts.extend(self.wrap_loop(k, l, None));
        let tail = tail.unwrap_or_else(|| parse_quote!(#out));
        Some(parse_quote!({ #(#stmts)* #tail }))
    }

    // ---- Option/Result combinators with closure literals ---------------------------------------
    fn combinator(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let n = m.method.to_string();
        let args: Vec<Expr> = m.args.iter().cloned().collect();
        let clo = |i: usize| args.get(i).map_or(false, |a| matches!(a, Expr::Closure(_)) || matches!(a, Expr::Path(_)));
        let is = |names: &[&str]| names.contains(&n.as_str());
        if !is(&[
            "map", "map_err", "ok_or_else", "unwrap_or_else", "and_then", "map_or", "map_or_else", "is_some_and", "or_else",
            "is_ok_and", "is_none_or", "unwrap_or_default", "ok_or", "inspect", "filter", "then", "then_some", "or", "is_err_and",
        ]) || (n == "or" && args.len() != 1) {
            return None;
        }
        let mut r = (*m.receiver).clone();
        // iterator-typed receivers are not handled here
        if matches!(n.as_str(), "map" | "filter") && self.split_adapters(&m.receiver).is_some() {
            return None;
        }
        // a Result for sure: what `str::parse` returns, or a fallback closure that is given the error
        let parsed = matches!(&r, Expr::MethodCall(c) if c.method == "parse" && c.args.is_empty());
        let takes_err = is(&["map_or_else", "or_else"]) && matches!(args.first(), Some(Expr::Closure(c)) if c.inputs.len() == 1);
        let result_hint = parsed || takes_err || self.cur_spec.as_ref().map_or(false, |s| s.flags.contains(&format!("result:{}", n)));
        self.visit_expr_mut(&mut r);
        let x = self.tmp("o");
        let xe: Expr = parse_quote!(#x);
        let e: Expr = match n.as_str() {
            "map" if clo(0) && !result_hint => {
                let b = self.apply_closure(&args[0], vec![xe]);
                parse_quote!(match #r { Some(#x) => Some(#b), None => None })
            },
            "map" if clo(0) => {
                let b = self.apply_closure(&args[0], vec![xe]);
                parse_quote!(match #r { Ok(#x) => Ok(#b), Err(__e) => Err(__e) })
            },
            "filter" if clo(0) => {
                let b = self.apply_closure(&args[0], vec![parse_quote!(&#x)]);
                parse_quote!(match #r { Some(#x) => if #b { Some(#x) } else { None }, None => None })
            },
            "map_err" if clo(0) => {
                let b = self.apply_closure(&args[0], vec![xe]);
                parse_quote!(match #r { Ok(__v) => Ok(__v), Err(#x) => Err(#b) })
            },
            "ok_or_else" if clo(0) => {
                let b = self.apply_closure(&args[0], vec![]);
                parse_quote!(match #r { Some(#x) => Ok(#x), None => Err(#b) })
            },
            "unwrap_or_else" if clo(0) => {
                let isr = self.cur_spec.as_ref().map_or(false, |s| s.flags.contains(&"result:unwrap_or_else".to_string()));
                if isr {
                    let b = self.apply_closure(&args[0], vec![parse_quote!(__e)]);
                    parse_quote!(match #r { Ok(#x) => #x, Err(__e) => #b })
                } else {
                    let b = self.apply_closure(&args[0], vec![]);
                    parse_quote!(match #r { Some(#x) => #x, None => #b })
                }
            },
            "and_then" if clo(0) && !result_hint => {
                let b = self.apply_closure(&args[0], vec![xe]);
                parse_quote!(match #r { Some(#x) => #b, None => None })
            },
            "and_then" if clo(0) => {
                let b = self.apply_closure(&args[0], vec![xe]);
                parse_quote!(match #r { Ok(#x) => #b, Err(__e) => Err(__e) })
            },
            "or_else" if clo(0) && !result_hint => {
                let b = self.apply_closure(&args[0], vec![]);
                parse_quote!(match #r { Some(#x) => Some(#x), None => #b })
            },
            "or_else" if clo(0) => {
                let b = self.apply_closure(&args[0], vec![parse_quote!(__e)]);
                parse_quote!(match #r { Ok(#x) => Ok(#x), Err(__e) => #b })
            },
            "map_or" => {
                let mut d = args[0].clone();
                self.visit_expr_mut(&mut d);
                let b = self.apply_closure(&args[1], vec![xe]);
                if result_hint {
                    parse_quote!(match #r { Ok(#x) => #b, Err(_) => #d })
                } else {
                    parse_quote!(match #r { Some(#x) => #b, None => #d })
                }
            },
            "map_or_else" => {
                if result_hint {
                    let d = self.apply_closure(&args[0], vec![parse_quote!(__e)]);
                    let b = self.apply_closure(&args[1], vec![xe]);
                    parse_quote!(match #r { Ok(#x) => #b, Err(__e) => #d })
                } else {
                    let d = self.apply_closure(&args[0], vec![]);
                    let b = self.apply_closure(&args[1], vec![xe]);
                    parse_quote!(match #r { Some(#x) => #b, None => #d })
                }
            },
            "is_some_and" => {
                let b = self.apply_closure(&args[0], vec![xe]);
                parse_quote!(match #r { Some(#x) => #b, None => false })
            },
            "is_none_or" => {
                let b = self.apply_closure(&args[0], vec![xe]);
                parse_quote!(match #r { Some(#x) => #b, None => true })
            },
            "is_ok_and" => {
                let b = self.apply_closure(&args[0], vec![xe]);
                parse_quote!(match #r { Ok(#x) => #b, Err(_) => false })
            },
            "then" if clo(0) => {
                let b = self.apply_closure(&args[0], vec![]);
                parse_quote!(if #r { Some(#b) } else { None })
            },
            "then_some" => {
                let mut d = args[0].clone();
                self.visit_expr_mut(&mut d);
                parse_quote!({ let #x = #r; let __d = #d; if #x { Some(__d) } else { None } })
            },
            "or" => {
                let mut d = args[0].clone();
                self.visit_expr_mut(&mut d);
                parse_quote!({ let #x = #r; let __d = #d; match #x { Some(__v) => Some(__v), None => __d } })
            },
            "is_err_and" => {
                let b = self.apply_closure(&args[0], vec![xe]);
                parse_quote!(match #r { Ok(_) => false, Err(#x) => #b })
            },
            "unwrap_or_default" => parse_quote!(match VOpt::v_opt(#r) { Some(#x) => #x, None => VDefault::v_default() }),
            "ok_or" => {
                let mut d = args[0].clone();
                self.visit_expr_mut(&mut d);
                parse_quote!(match #r { Some(#x) => Ok(#x), None => Err(#d) })
            },
            _ => return None,
        };
        Some(e)
    }

    // ---- format! -------------------------------------------------------------------------------
    fn fmt_pieces(&mut self, args: &punctuated::Punctuated<Expr, Token![,]>, newline: bool) -> Vec<FmtPiece> {
        let mut it = args.iter();
        let Some(Expr::Lit(ExprLit { lit: Lit::Str(s), .. })) = it.next() else {
            if args.is_empty() && newline {
                return vec![FmtPiece::Lit("\n".into())];
            }
            die("UNSUPPORTED", "format string")
        };
        let mut pos: Vec<Expr> = vec![];
        let mut named: HashMap<String, Expr> = HashMap::new();
        for a in it {
            if let Expr::Assign(asg) = a {
                named.insert(norm(&asg.left), (*asg.right).clone());
            } else {
                pos.push(a.clone())
            }
        }
        let s = s.value();
        let mut out = vec![];
        let mut lit = String::new();
        let cs: Vec<char> = s.chars().collect();
        let mut i = 0;
        let mut next = 0;
        while i < cs.len() {
            if cs[i] == '{' {
                if cs.get(i + 1) == Some(&'{') {
                    lit.push('{');
                    i += 2;
                    continue;
                }
                let mut j = i + 1;
                let mut inner = String::new();
                while cs[j] != '}' {
                    inner.push(cs[j]);
                    j += 1;
                }
                i = j + 1;
                if !lit.is_empty() {
                    out.push(FmtPiece::Lit(std::mem::take(&mut lit)));
                }
                let (name, spec) = match inner.split_once(':') {
                    Some((a, b)) => (a.to_string(), b.to_string()),
                    None => (inner.clone(), String::new()),
                };
                let e: Expr = if name.is_empty() {
                    next += 1;
                    pos.get(next - 1).cloned().unwrap_or_else(|| die("UNSUPPORTED", "format args"))
                } else if let Ok(n) = name.parse::<usize>() {
                    pos.get(n).cloned().unwrap_or_else(|| die("UNSUPPORTED", "format args"))
                } else if let Some(e) = named.get(&name) {
                    e.clone()
                } else {
                    let id = format_ident!("{}", name);
                    parse_quote!(#id)
                };
                out.push(FmtPiece::Arg(e, spec));
            } else if cs[i] == '}' {
                lit.push('}');
                i += 2;
            } else {
                lit.push(cs[i]);
                i += 1;
            }
        }
        if newline {
            lit.push('\n');
        }
        if !lit.is_empty() {
            out.push(FmtPiece::Lit(lit));
        }
        out
    }
    fn fmt_stmts(&mut self, target: &Expr, pieces: Vec<FmtPiece>) -> Vec<Stmt> {
        let mut v: Vec<Stmt> = vec![];
        for p in pieces {
            match p {
                FmtPiece::Lit(l) => {
                    let id = format_ident!("lit_{}", self.lits.id(&l));
                    v.push(parse_quote!(#target.v_push_lit(#id());));
                },
                FmtPiece::Arg(mut e, spec) => {
                    self.visit_expr_mut(&mut e);
                    if spec.is_empty() {
                        v.push(parse_quote!(#target.v_push_disp(&(#e));));
                    } else if spec == "?" || spec == "#?" {
                        v.push(parse_quote!(#target.v_push_dbg(&(#e));));
                    } else {
                        let m = format_ident!("v_push_fmt_{}", spec.replace(|c: char| !c.is_alphanumeric(), "_"));
                        v.push(parse_quote!(#target.#m(&(#e));));
                    }
                },
            }
        }
        v
    }
    fn macro_expr(&mut self, mac: &Macro) -> Option<Expr> {
        let name = mac.path.segments.last().unwrap().ident.to_string();
        if LOG_MACROS.contains(&name.as_str()) {
            return Some(parse_quote!(()));
        }
        let parse_args = || {
            mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated)
                .unwrap_or_else(|e| die("UNSUPPORTED", &format!("macro {}!: {}", name, e)))
        };
        match name.as_str() {
            "format" => {
                let a = parse_args();
                let ps = self.fmt_pieces(&a, false);
                let t = self.tmp("s");
                let te: Expr = parse_quote!(#t);
                let st = self.fmt_stmts(&te, ps);
                Some(parse_quote!({ let mut #t = String::new(); #(#st)* #t }))
            },
            "write" | "writeln" => {
                let mut a = parse_args();
                let mut target = a.first().cloned().unwrap();
                a = a.into_iter().skip(1).collect();
                let ps = self.fmt_pieces(&a, name == "writeln");
                self.visit_expr_mut(&mut target);
                let st = self.fmt_stmts(&target, ps);
                Some(parse_quote!({ #(#st)* v_fmt_ok() }))
            },
            "vec" => {
                if let Ok(a) = mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
                    let mut v: Vec<Expr> = a.into_iter().collect();
                    for e in v.iter_mut() {
                        self.visit_expr_mut(e);
                    }
                    if v.is_empty() {
                        return Some(parse_quote!(Vec::new()));
                    }
                    let t = self.tmp("vec");
                    return Some(parse_quote!({ let mut #t = Vec::new(); #(#t.push(#v);)* #t }));
                }
                let r: Result<ExprRepeat> = parse_str(&format!("[{}]", mac.tokens));
                if let Ok(r) = r {
                    let (mut a, mut b) = (*r.expr, *r.len);
                    self.visit_expr_mut(&mut a);
                    self.visit_expr_mut(&mut b);
                    return Some(parse_quote!(v_vec_repeat(#a, #b)));
                }
                die("UNSUPPORTED", "vec!")
            },
            "matches" => {
                struct M(Expr, Pat, Option<Expr>);
                impl parse::Parse for M {
                    fn parse(i: parse::ParseStream) -> Result<Self> {
                        let e: Expr = i.parse()?;
                        i.parse::<Token![,]>()?;
                        let p = Pat::parse_multi_with_leading_vert(i)?;
                        let g = if i.peek(Token![if]) {
                            i.parse::<Token![if]>()?;
                            Some(i.parse()?)
                        } else {
                            None
                        };
                        let _ = i.parse::<Option<Token![,]>>();
                        Ok(M(e, p, g))
                    }
                }
                let M(e, p, g) = mac.parse_body().unwrap_or_else(|e| die("UNSUPPORTED", &format!("matches!: {}", e)));
                let mut x: Expr = match g {
                    Some(g) => parse_quote!(match #e { #p if #g => true, _ => false }),
                    None => parse_quote!(match #e { #p => true, _ => false }),
                };
                self.visit_expr_mut(&mut x);
                Some(x)
            },
            "unreachable" | "panic" | "todo" | "unimplemented" => Some(parse_quote!(v_unreachable())),
            // whether the CPU has a feature: both answers are considered
            "is_x86_feature_detected" => Some(parse_quote!(v_cpu_feature())),
            "assert" => {
                struct A(Expr);
                impl syn::parse::Parse for A {
                    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
                        let e: Expr = i.parse()?;
                        let _rest: proc_macro2::TokenStream = i.parse()?;
                        Ok(A(e))
                    }
                }
                let A(mut e) = mac.parse_body().unwrap_or_else(|e| die("UNSUPPORTED", &format!("assert!: {}", e)));
                self.visit_expr_mut(&mut e);
                Some(parse_quote!(v_assert(#e)))
            },
            "json" => {
                let x = self.json_value(mac.tokens.clone());
                Some(x.unwrap_or_else(|| parse_quote!(v_json())))
            },
            _ => None,
        }
    }

    /// `json!`: object and array literals are built entry by entry, everything else is serialized.
    fn json_value(&mut self, ts: proc_macro2::TokenStream) -> Option<Expr> {
        use proc_macro2::{Delimiter, TokenTree};
        let v: Vec<TokenTree> = ts.clone().into_iter().collect();
        let split = |g: proc_macro2::TokenStream| -> Vec<Vec<TokenTree>> {
            let mut out = vec![vec![]];
            for t in g {
                match &t {
                    TokenTree::Punct(p) if p.as_char() == ',' => out.push(vec![]),
                    _ => out.last_mut().unwrap().push(t),
                }
            }
            if out.last().unwrap().is_empty() {
                out.pop();
            }
            out
        };
        if let [TokenTree::Group(g)] = &v[..] {
            if g.delimiter() == Delimiter::Brace {
                let t = self.tmp("j");
                let mut st: Vec<Stmt> = vec![];
                for e in split(g.stream()) {
                    let colon = e.iter().position(|t| matches!(t, TokenTree::Punct(p) if p.as_char() == ':' && p.spacing() == proc_macro2::Spacing::Alone))?;
                    let key: Expr = parse2(e[..colon].iter().cloned().collect()).ok()?;
                    let mut key = key;
                    self.visit_expr_mut(&mut key);
                    let val = self.json_value(e[colon + 1..].iter().cloned().collect())?;
                    st.push(parse_quote!(#t.insert(#key.to_string(), #val);));
                }
                return Some(parse_quote!({ let mut #t = JMap::new(); #(#st)* Value::Object(#t) }));
            }
            if g.delimiter() == Delimiter::Bracket {
                let t = self.tmp("j");
                let mut st: Vec<Stmt> = vec![];
                for e in split(g.stream()) {
                    let val = self.json_value(e.into_iter().collect())?;
                    st.push(parse_quote!(#t.push(#val);));
                }
                return Some(parse_quote!({ let mut #t: Vec<Value> = Vec::new(); #(#st)* Value::Array(#t) }));
            }
        }
        if let [TokenTree::Ident(i)] = &v[..] {
            if i == "null" {
                return Some(parse_quote!(Value::Null));
            }
        }
        let mut e: Expr = parse2(ts).ok()?;
        self.visit_expr_mut(&mut e);
        Some(parse_quote!(v_to_json(&#e)))
    }

    // ---- helper inlining -------------------------------------------------------------------------
    fn try_inline(&mut self, ty: &str, name: &str, args: &[Expr], has_self: bool) -> Option<Expr> {
        let key = (ty.to_string(), name.to_string());
        if self.listed.contains(&key) {
            return None;
        }
        let mut def = self.files[&self.cur_file].fns.get(&key)?.clone();
        let full = if ty.is_empty() { name.to_string() } else { format!("{}::{}", ty, name) };
        if self.u.calls.contains_key(&full) {
            return None;
        }
        if !def.attrs_ok || self.inline_stack.contains(&name.to_string()) || self.inline_stack.len() > 4 {
            return None;
        }
        // a closure handed to a parameter that is only called: the call becomes the closure's body
        let mut gone: Vec<usize> = vec![];
        let skip = usize::from(has_self);
        for (i, a) in args.iter().enumerate() {
            let Expr::Closure(c) = a else { continue };
            let Some(FnArg::Typed(t)) = def.sig.inputs.iter().nth(i + skip) else { continue };
            let (Pat::Ident(pi), Type::Path(tp)) = (&*t.pat, &*t.ty) else { continue };
            let gname = norm(&tp.path);
            let nested = matches!(*c.body, Expr::Block(ref b) if block_has_return_or_try(&b.block));
            if nested || !def.sig.generics.type_params().any(|g| g.ident == gname.as_str()) {
                continue;
            }
            let mut sub = BetaReduce { name: pi.ident.to_string(), clo: c.clone(), calls: 0, others: 0, locals: BTreeSet::new() };
            let mut b = def.block.clone();
            sub.visit_block_mut(&mut b);
            let mut free = Idents(BTreeSet::new());
            let mut body = (*c.body).clone();
            free.visit_expr_mut(&mut body);
            let own: BTreeSet<String> = c.inputs.iter().map(|p| norm(p)).collect();
            if sub.calls == 1 && sub.others == 0 && free.0.iter().all(|x| own.contains(x) || !sub.locals.contains(x)) {
                def.block = b;
                gone.push(i);
                def.sig.generics.params = def.sig.generics.params.iter().filter(|g| !matches!(g, GenericParam::Type(g) if g.ident == gname.as_str())).cloned().collect();
            }
        }
        let simple = !block_has_return_or_try(&def.block) && def.sig.generics.type_params().count() == 0;
        if !simple {
            if !self.pending_auto.contains(&key) {
                self.listed.insert(key.clone());
                self.pending_auto.push(key);
            }
            return None;
        }
        let mut lets: Vec<Stmt> = vec![];
        let mut lets2: Vec<Stmt> = vec![];
        let mut params = def.sig.inputs.iter();
        if has_self {
            match params.next() {
                Some(FnArg::Receiver(_)) => {},
                _ => return None,
            }
        } else if matches!(def.sig.inputs.first(), Some(FnArg::Receiver(_))) {
            return None;
        }
        for (i, (p, a)) in params.zip(args).enumerate() {
            if gone.contains(&i) {
                continue;
            }
            let FnArg::Typed(t) = p else { return None };
            let tmp = self.tmp("in");
            let mut ty = (*t.ty).clone();
            self.visit_type_mut(&mut ty);
            let mut a = a.clone();
            self.visit_expr_mut(&mut a);
            let mut pat = (*t.pat).clone();
            self.visit_pat_mut(&mut pat);
            lets.push(parse_quote!(let #tmp: #ty = #a;));
            lets2.push(parse_quote!(let #pat = #tmp;));
        }
        self.inline_stack.push(name.to_string());
        let mut b = def.block.clone();
        self.visit_block_mut(&mut b);
        self.inline_stack.pop();
        self.inlined.push(full);
        let st = &b.stmts;
        Some(parse_quote!({ #(#lets)* #(#lets2)* #(#st)* }))
    }
}

/// replaces calls of a parameter by the body of the closure given for it
struct BetaReduce {
    name: String,
    clo: ExprClosure,
    calls: usize,
    others: usize,
    locals: BTreeSet<String>,
}
impl VisitMut for BetaReduce {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Call(c) = e {
            if norm(&c.func) == self.name && c.args.len() == self.clo.inputs.len() {
                self.calls += 1;
                for a in c.args.iter_mut() {
                    self.visit_expr_mut(a);
                }
                let mut lets: Vec<Stmt> = vec![];
                if c.args.len() == 1 {
                    lets.extend(self.clo.inputs.iter().zip(c.args.iter()).map(|(p, a)| -> Stmt { parse_quote!(let #p = #a;) }));
                } else {
                    // an argument may mention what a parameter is called
                    let ts: Vec<Ident> = (0..c.args.len()).map(|i| format_ident!("__ba{}_{}", self.calls, i)).collect();
                    lets.extend(ts.iter().zip(c.args.iter()).map(|(t, a)| -> Stmt { parse_quote!(let #t = #a;) }));
                    lets.extend(self.clo.inputs.iter().zip(ts.iter()).map(|(p, t)| -> Stmt { parse_quote!(let #p = #t;) }));
                }
                let body = match &*self.clo.body {
                    Expr::Block(b) => b.block.stmts.clone(),
                    x => vec![Stmt::Expr(x.clone(), None)],
                };
                *e = parse_quote!({ #(#lets)* #(#body)* });
                return;
            }
        }
        if let Expr::Path(p) = e {
            if norm(&p.path) == self.name {
                self.others += 1;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        self.locals.insert(p.ident.to_string());
    }
}
/// a local closure that is only called: each call becomes its body
/// the body of a loop is of type (): what follows its last expression needs a `;` before it
fn end_with_semi(b: &mut Block, end: &[Stmt]) {
    if let (false, Some(Stmt::Expr(_, semi))) = (end.is_empty(), b.stmts.last_mut()) {
        *semi = Some(Default::default());
    }
}
/// `select! { p = fut => body, … }`: any of the branches may be the one that completes (R43)
struct Selects;
struct SelectArms(Vec<(Pat, Expr, Expr)>, Option<Expr>);
impl syn::parse::Parse for SelectArms {
    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
        let mut v = vec![];
        let mut other = None;
        while !i.is_empty() {
            if i.peek(Token![else]) {
                i.parse::<Token![else]>()?;
                i.parse::<Token![=>]>()?;
                other = Some(i.parse()?);
                let _ = i.parse::<Option<Token![,]>>()?;
                continue;
            }
            let p = Pat::parse_multi(i)?;
            i.parse::<Token![=]>()?;
            let f: Expr = i.parse()?;
            i.parse::<Token![=>]>()?;
            let b: Expr = if i.peek(syn::token::Brace) { Expr::Block(ExprBlock { attrs: vec![], label: None, block: i.parse()? }) } else { i.parse()? };
            let _ = i.parse::<Option<Token![,]>>()?;
            v.push((p, f, b));
        }
        Ok(SelectArms(v, other))
    }
}
fn always_matches(p: &Pat) -> bool {
    match p {
        Pat::Ident(p) => p.subpat.is_none(),
        Pat::Wild(_) => true,
        Pat::Tuple(t) => t.elems.iter().all(always_matches),
        Pat::Type(t) => always_matches(&t.pat),
        _ => false,
    }
}
impl Selects {
    fn lower(m: &Macro) -> Option<Expr> {
        if m.path.segments.last()?.ident != "select" {
            return None;
        }
        let arms: SelectArms = m.parse_body().ok()?;
        let n = arms.0.len();
        let all: Vec<(usize, (Pat, Expr, Expr))> = arms.0.into_iter().enumerate().collect();
        if n == 0 { None } else { Some(Selects::arms(&all, &arms.1)) }
    }
    /// one of the arms left completes; if its pattern does not match, it is out and the others go on
    fn arms(left: &[(usize, (Pat, Expr, Expr))], other: &Option<Expr>) -> Expr {
        let mut out: Option<Expr> = None;
        for i in (0..left.len()).rev() {
            let (k, (p, f, b)) = &left[i];
            let one: Expr = if always_matches(p) {
                parse_quote!({ let #p = #f; #b })
            } else {
                let mut rest = left.to_vec();
                rest.remove(i);
                let els = Selects::arms(&rest, other);
                parse_quote!({ match #f { #p => #b, _ => #els } })
            };
            out = Some(match out {
                None => one,
                Some(rest) => parse_quote!(if v_ready(#k) #one else { #rest }),
            });
        }
        match (out, other) {
            (Some(e), _) => e,
            (None, Some(e)) => parse_quote!({ #e }),
            (None, None) => parse_quote!(v_no_branch()),
        }
    }
}
impl VisitMut for Selects {
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            if let Some(e) = Selects::lower(&m.mac) {
                *s = Stmt::Expr(e, m.semi_token);
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if let Some(x) = Selects::lower(&m.mac) {
                *e = x;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
struct LocalClosures;
impl VisitMut for LocalClosures {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut i = 0;
        while i < b.stmts.len() {
            let mut found = None;
            if let Stmt::Local(l) = &b.stmts[i] {
                if let (Pat::Ident(p), Some(init)) = (&l.pat, &l.init) {
                    if let (Expr::Closure(c), None) = (&*init.expr, &init.diverge) {
                        if c.capture.is_none() && c.asyncness.is_none() && !has_return_or_try(&c.body) {
                            found = Some((p.ident.to_string(), c.clone()));
                        }
                    }
                }
            }
            if let Some((name, c)) = found {
                let mut sub = BetaReduce { name: name.clone(), clo: c.clone(), calls: 0, others: 0, locals: BTreeSet::new() };
                let mut rest = Block { brace_token: Default::default(), stmts: b.stmts[i + 1..].to_vec() };
                sub.visit_block_mut(&mut rest);
                let mut free = Idents(BTreeSet::new());
                let mut body = (*c.body).clone();
                free.visit_expr_mut(&mut body);
                let own: BTreeSet<String> = c.inputs.iter().map(|p| match p { Pat::Type(t) => norm(&t.pat), p => norm(p) }).collect();
                let left = rest.to_token_stream().to_string().split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == name);
                if sub.calls > 0 && sub.others == 0 && !left && free.0.iter().all(|x| own.contains(x) || !sub.locals.contains(x)) {
                    b.stmts.truncate(i);
                    b.stmts.extend(rest.stmts);
                    continue;
                }
            }
            i += 1;
        }
        visit_mut::visit_block_mut(self, b);
    }
}
/// the initialisers of every static or const of this name
struct FindStatic<'a>(&'a str, Vec<String>);
impl<'a> syn::visit::Visit<'a> for FindStatic<'_> {
    fn visit_item_static(&mut self, i: &'a ItemStatic) {
        if i.ident == self.0 {
            self.1.push(norm(&i.expr));
        }
    }
    fn visit_item_const(&mut self, i: &'a ItemConst) {
        if i.ident == self.0 {
            self.1.push(norm(&i.expr));
        }
    }
}
/// `let (i, &x) = e;` becomes `let (i, __rp0) = e; let x = *__rp0;`
struct RefPats(usize);
impl VisitMut for RefPats {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let stmts = std::mem::take(&mut b.stmts);
        for mut s in stmts {
            let mut more = vec![];
            if let Stmt::Local(l) = &mut s {
                if l.init.as_ref().map_or(false, |i| i.diverge.is_none()) {
                    struct P<'a>(&'a mut usize, &'a mut Vec<Stmt>);
                    impl VisitMut for P<'_> {
                        fn visit_pat_mut(&mut self, p: &mut Pat) {
                            if let Pat::Reference(r) = p {
                                if let Pat::Ident(i) = &*r.pat {
                                    let t = format_ident!("__rp{}", *self.0);
                                    *self.0 += 1;
                                    let i = i.clone();
                                    self.1.push(parse_quote!(let #i = *#t;));
                                    *p = parse_quote!(#t);
                                    return;
                                }
                            }
                            visit_mut::visit_pat_mut(self, p);
                        }
                    }
                    P(&mut self.0, &mut more).visit_pat_mut(&mut l.pat);
                }
            }
            b.stmts.push(s);
            b.stmts.extend(more);
        }
    }
}
struct Idents(BTreeSet<String>);
impl VisitMut for Idents {
    fn visit_path_mut(&mut self, p: &mut Path) {
        if let Some(i) = p.get_ident() {
            self.0.insert(i.to_string());
        }
        visit_mut::visit_path_mut(self, p);
    }
}

enum FmtPiece {
    Lit(String),
    Arg(Expr, String),
}

const SOURCES: &[&str] = &[
    "iter", "iter_mut", "into_iter", "values", "keys", "chars", "bytes", "split", "lines", "drain", "split_whitespace", "into_values",
    "into_keys", "chunks", "chunks_exact", "char_indices", "splitn",
];
const ADAPTERS: &[&str] = &[
    "map", "filter", "filter_map", "cloned", "copied", "enumerate", "take", "skip", "take_while", "skip_while", "by_ref", "fuse",
];
const CONSUMERS: &[&str] = &[
    "collect", "any", "all", "find", "position", "rposition", "count", "next", "last", "sum", "for_each", "fold", "find_map",
];

fn marker(name: &str, k: usize) -> Stmt {
    let id = format_ident!("{}", name);
    let l = proc_macro2::Literal::usize_unsuffixed(k);
    parse_quote!(#id!(#l);)
}
fn add_ensures(spec: &str, e: &str) -> String {
    // insert as first ensures clause, or append an ensures block
    let mut best = None;
    let b = spec.as_bytes();
    let mut i = 0;
    while let Some(p) = spec[i..].find("ensures") {
        let at = i + p;
        let ok_l = at == 0 || !(b[at - 1] as char).is_alphanumeric() && b[at - 1] != b'_' && b[at - 1] != b'.';
        let ok_r = at + 7 >= b.len() || !(b[at + 7] as char).is_alphanumeric() && b[at + 7] != b'_' && b[at + 7] != b'(';
        // not inside a // comment
        let ls = spec[..at].rfind('\n').map(|x| x + 1).unwrap_or(0);
        if ok_l && ok_r && !spec[ls..at].contains("//") {
            best = Some(at);
            break;
        }
        i = at + 7;
    }
    match best {
        Some(at) => format!("{} ensures {}, {}", &spec[..at], e, &spec[at + 7..]),
        None => {
            if let Some(d) = spec.find("decreases") {
                format!("{} ensures {},\n {}", &spec[..d], e, &spec[d..])
            } else {
                format!("{}\n ensures {},\n", spec, e)
            }
        },
    }
}
pub fn split_impl(r: &str) -> ((String, String), Vec<String>) {
    let (t, rest) = r.split_once("::{").unwrap_or_else(|| die("UNIT", &format!("impl:{}", r)));
    let names = rest.trim_end_matches('}').split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    let (alias, ty) = match t.split_once('=') {
        Some((ty, alias)) => (alias.to_string(), ty.to_string()),
        None => (t.to_string(), t.to_string()),
    };
    ((alias, ty), names)
}
fn type_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Reference(r) => type_name(&r.elem),
        _ => norm(t),
    }
}
fn find_type(items: &[Item], name: &str) -> Option<Item> {
    for i in items {
        match i {
            Item::Struct(s) if s.ident == name && attrs_on(&s.attrs) => return Some(i.clone()),
            Item::Enum(s) if s.ident == name && attrs_on(&s.attrs) => return Some(i.clone()),
            Item::Type(s) if s.ident == name && attrs_on(&s.attrs) => return Some(i.clone()),
            Item::Mod(m) if attrs_on(&m.attrs) => {
                if let Some((_, its)) = &m.content {
                    if let Some(x) = find_type(its, name) {
                        return Some(x);
                    }
                }
            },
            _ => {},
        }
    }
    None
}
/// R37: a returned closure `move || body` is a function over its captures; the function that builds it returns the captures.
fn lift_closure(mut d: FnDef, name: &str, caps: &[(String, String)]) -> (FnDef, FnDef) {
    // `arg x: T` is a parameter of the closure, `use x: T` something it only refers to, `has X` picks the closure that mentions X, `-> T` its result
    let entry = |p: &str| -> Vec<(String, String)> { caps.iter().filter_map(|x| x.0.strip_prefix(p).map(|n| (n.trim().to_string(), x.1.clone()))).collect() };
    let (params, uses, has, out) = (entry("arg "), entry("use "), entry("has "), entry("-> "));
    // `async` picks a task: the first `async` block instead of a closure
    let task = caps.iter().any(|x| x.0 == "async ");
    let kept: Vec<(String, String)> = caps.iter().filter(|x| !x.0.contains(' ')).cloned().collect();
    let caps = &kept[..];
    let has: Vec<String> = has.into_iter().map(|x| x.0).collect();
    struct C<'a>(&'a [(String, String)], Option<Expr>, usize, Vec<String>, Vec<Ident>, bool);
    impl<'a> VisitMut for C<'a> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if let (Expr::Async(a), true, true) = (&*e, self.5, self.1.is_none()) {
                self.1 = Some(Expr::Block(ExprBlock { attrs: vec![], label: None, block: a.block.clone() }));
                let ids: Vec<Ident> = self.0.iter().map(|x| format_ident!("{}", x.0)).collect();
                *e = parse_quote!((#(#ids,)*));
                return;
            }
            if let (Expr::Closure(c), false) = (&*e, self.5) {
                let ids: Option<Vec<Ident>> = c.inputs.iter().map(|p| match p { Pat::Ident(i) => Some(i.ident.clone()), Pat::Type(t) => match &*t.pat { Pat::Ident(i) => Some(i.ident.clone()), _ => None }, _ => None }).collect();
                let words: BTreeSet<String> = norm(&c.body).split(|x: char| !x.is_alphanumeric() && x != '_').map(|x| x.to_string()).collect();
                if c.inputs.len() == self.2 && self.1.is_none() && ids.is_some() && self.3.iter().all(|h| words.contains(h)) {
                    self.4 = ids.unwrap();
                    self.1 = Some((*c.body).clone());
                    let ids: Vec<Ident> = self.0.iter().map(|x| format_ident!("{}", x.0)).collect();
                    *e = parse_quote!((#(#ids,)*));
                    return;
                }
            }
            visit_mut::visit_expr_mut(self, e);
        }
    }
    let mut c = C(caps, None, params.len(), has, vec![], task);
    c.visit_block_mut(&mut d.block);
    let given = c.4.clone();
    let body = c.1.unwrap_or_else(|| die("ANCHOR", &format!("no closure to lift for {}", name)));
    let ty = |s: &str| -> Type { parse_str(s).unwrap_or_else(|e| die("UNIT", &e.to_string())) };
    let owned: Vec<Type> = caps.iter().map(|x| ty(x.1.trim_start_matches("&mut "))).collect();
    struct I(Vec<Type>);
    impl VisitMut for I {
        fn visit_type_mut(&mut self, t: &mut Type) {
            if let Type::ImplTrait(_) = t {
                let o = &self.0;
                *t = parse_quote!((#(#o,)*));
                return;
            }
            visit_mut::visit_type_mut(self, t);
        }
    }
    if params.is_empty() && !task {
        if let ReturnType::Type(_, t) = &mut d.sig.output {
            I(owned).visit_type_mut(t);
        }
    }
    let mut args: Vec<FnArg> = params.iter().zip(&given).map(|((_, t), n)| { let t = ty(t); parse_quote!(#n: #t) }).collect();
    args.extend(uses.iter().chain(caps.iter()).map(|(n, t)| -> FnArg {
        // a captured value may have been declared `mut` where it was captured
        let by_mut = !t.starts_with('&');
        let (n, t) = (format_ident!("{}", n), ty(t));
        if by_mut { parse_quote!(mut #n: #t) } else { parse_quote!(#n: #t) }
    }));
    let id = format_ident!("{}", name);
    let block: Block = match body {
        Expr::Block(b) => b.block,
        e => parse_quote!({ #e }),
    };
    let mut f: ItemFn = parse_quote!(fn #id(#(#args),*) #block);
    if let Some((t, _)) = out.first() {
        let t = ty(t);
        f.sig.output = parse_quote!(-> #t);
    }
    (d, FnDef { attrs_ok: true, sig: f.sig, block: *f.block })
}
fn index_items(items: &[Item], sf: &mut SrcFile) {
    for i in items {
        match i {
            Item::Const(c) if attrs_on(&c.attrs) => {
                if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &*c.expr {
                    sf.str_consts.insert(c.ident.to_string(), s.value());
                }
                sf.consts.insert(c.ident.to_string(), (*c.expr).clone());
            },
            Item::Fn(f) if attrs_on(&f.attrs) => {
                sf.fns
                    .entry((String::new(), f.sig.ident.to_string()))
                    .or_insert(FnDef { attrs_ok: true, sig: f.sig.clone(), block: (*f.block).clone() });
            },
            Item::Impl(im) if attrs_on(&im.attrs) => {
                let t = type_name(&im.self_ty);
                for x in &im.items {
                    match x {
                        ImplItem::Fn(f) if attrs_on(&f.attrs) => {
                            let fname = f.sig.ident.to_string();
                            // trait methods are indexed as Type::method too; Debug::fmt never is
                            if let Some((_, p, _)) = &im.trait_ {
                                let tn = p.segments.last().unwrap().ident.to_string();
                                if tn == "Debug" {
                                    continue;
                                }
                                let alt = format!("{}@{}", fname, tn);
                                let d = FnDef { attrs_ok: true, sig: f.sig.clone(), block: f.block.clone() };
                                sf.fns.entry((t.clone(), alt)).or_insert(d.clone());
                                // several impls of one generic trait: `from@From<u64>`
                                let full = format!("{}@{}", fname, norm(&p.segments.last().unwrap()).replace(' ', ""));
                                sf.fns.entry((t.clone(), full)).or_insert(d);
                            }
                            let d = FnDef { attrs_ok: true, sig: f.sig.clone(), block: f.block.clone() };
                            if im.trait_.is_none() {
                                sf.fns.insert((t.clone(), fname), d);
                            } else {
                                sf.fns.entry((t.clone(), fname)).or_insert(d);
                            }
                        },
                        ImplItem::Const(c) => {
                            sf.consts.insert(format!("{}::{}", t, c.ident), c.expr.clone());
                            if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &c.expr {
                                sf.str_consts.insert(format!("{}::{}", t, c.ident), s.value());
                            }
                        },
                        _ => {},
                    }
                }
            },
            Item::Mod(m) if attrs_on(&m.attrs) => {
                if let Some((_, its)) = &m.content {
                    index_items(its, sf);
                }
            },
            _ => {},
        }
    }
}
struct RetFinder(bool);
impl<'a> visit::Visit<'a> for RetFinder {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) {
        self.0 = true
    }
    fn visit_expr_try(&mut self, _: &'a ExprTry) {
        self.0 = true
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    fn visit_expr_async(&mut self, _: &'a ExprAsync) {}
    fn visit_item(&mut self, _: &'a Item) {}
    fn visit_macro(&mut self, m: &'a Macro) {
        // writeln!(..)? handled by visit_expr_try; a `return` hidden in macro tokens:
        if m.tokens.to_string().contains("return") {
            self.0 = true
        }
    }
}
fn has_return_or_try(e: &Expr) -> bool {
    let mut f = RetFinder(false);
    visit::Visit::visit_expr(&mut f, e);
    f.0
}
fn block_has_return_or_try(b: &Block) -> bool {
    let mut f = RetFinder(false);
    visit::Visit::visit_block(&mut f, b);
    f.0
}

pub fn rustfmt(s: &str) -> String {
    use std::io::Write;
    use std::process::*;
    let mut c = Command::new("rustfmt")
        .args(["--edition", "2021", "--config", "max_width=110"])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .unwrap_or_else(|e| die("IO", &format!("rustfmt: {}", e)));
    c.stdin.take().unwrap().write_all(s.as_bytes()).unwrap();
    let o = c.wait_with_output().unwrap();
    if !o.status.success() {
        die("INTERNAL", &format!("rustfmt: {}\n{}", String::from_utf8_lossy(&o.stderr), s));
    }
    String::from_utf8_lossy(&o.stdout).to_string()
}

impl Rewriter {
    fn ghost_args(&self, name: &str, n: usize) -> Vec<Expr> {
        self.u.ghostargs.get(&(name.to_string(), n)).into_iter().flatten().map(|x| parse_str(x).unwrap_or_else(|e| die("UNIT", &e.to_string()))).collect()
    }
}
impl VisitMut for Rewriter {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        let n = norm(t);
        if let Some((_, b)) = self.u.types.iter().find(|(a, _)| *a == n) {
            *t = parse_str(b).unwrap_or_else(|e| die("UNIT", &format!("type {}: {}", b, e)));
            return;
        }
        // impl Into<T> / impl AsRef<T>
        if let Type::ImplTrait(it) = t {
            if let Some(TypeParamBound::Trait(tb)) = it.bounds.first() {
                let s = tb.path.segments.last().unwrap();
                if s.ident == "Into" || s.ident == "AsRef" {
                    if let PathArguments::AngleBracketed(a) = &s.arguments {
                        if let Some(GenericArgument::Type(x)) = a.args.first() {
                            let mut x = x.clone();
                            self.visit_type_mut(&mut x);
                            let is_s = norm(&x) == "String";
                            *t = if s.ident == "AsRef" {
                                parse_quote!(&#x)
                            } else if is_s {
                                parse_quote!(impl VIntoString)
                            } else {
                                x
                            };
                            return;
                        }
                    }
                }
            }
        }
        if let Type::Path(p) = t {
            let s = p.path.segments.last().unwrap();
            if s.ident == "Result" {
                if let PathArguments::AngleBracketed(a) = &s.arguments {
                    if let (1, Some(GenericArgument::Type(x)), Some((_, b))) =
                        (a.args.len(), a.args.first(), self.u.types.iter().find(|(a, _)| a == "Result<_>"))
                    {
                        let r: Path = parse_str(b).unwrap();
                        let mut x = x.clone();
                        self.visit_type_mut(&mut x);
                        *t = parse_quote!(#r<#x>);
                        return;
                    }
                }
            }
            if s.ident == "Arc" || s.ident == "Box" || s.ident == "Rc" {
                if let PathArguments::AngleBracketed(a) = &s.arguments {
                    if let Some(GenericArgument::Type(x)) = a.args.first() {
                        let mut x = x.clone();
                        self.visit_type_mut(&mut x);
                        *t = x;
                        return;
                    }
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        p.leading_colon = None;
        if p.segments.len() > 2 {
            let last = p.segments.last().unwrap().clone();
            let pre: Vec<PathSegment> = p.segments.iter().take(p.segments.len() - 1).cloned().collect();
            let pn = pre.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
            if let Some((_, b)) = self.u.types.iter().find(|(a, _)| *a == pn) {
                if let Ok(mut np) = parse_str::<Path>(b) {
                    np.segments.push(last);
                    *p = np;
                }
            }
        }
        let segs: Vec<PathSegment> = p.segments.iter().cloned().collect();
        if segs.len() > 1 {
            let up = |s: &PathSegment| s.ident.to_string().chars().next().unwrap().is_uppercase();
            let prim = ["usize", "isize", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "f32", "f64", "char", "str"];
            if let Some(i) = segs.iter().position(|s| prim.contains(&s.ident.to_string().as_str())) {
                p.segments = segs[i..].iter().cloned().collect();
            } else if let Some(i) = segs.iter().position(up) {
                // drop module prefix in front of a type
                if i > 0 {
                    p.segments = segs[i..].iter().cloned().collect();
                }
            } else {
                let first = segs[0].ident.to_string();
                if first == "crate" || first == "self" || first == "super" {
                    p.segments = segs[segs.len() - 1..].iter().cloned().collect();
                } else {
                    let joined = segs.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("__");
                    let mut last = segs.last().unwrap().clone();
                    last.ident = format_ident!("{}", joined);
                    p.segments = std::iter::once(last).collect();
                }
            }
        }
        let n = norm(p);
        if let Some(r) = self.u.calls.get(&n) {
            if !r.contains('(') {
                if let Ok(np) = parse_str::<Path>(r) {
                    *p = np;
                }
            }
        }
    }
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        if let Pat::Ident(i) = p {
            self.locals.push(i.ident.to_string());
        }
        visit_mut::visit_pat_mut(self, p);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let stmts = std::mem::take(&mut b.stmts);
        for s in stmts {
            let s = match s {
                Stmt::Macro(m) => {
                    if !attrs_on(&m.attrs) {
                        continue;
                    }
                    let name = m.mac.path.segments.last().unwrap().ident.to_string();
                    if LOG_MACROS.contains(&name.as_str()) {
                        continue;
                    }
                    Stmt::Expr(
                        Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac }),
                        m.semi_token.or(if false { Some(Default::default()) } else { None }),
                    )
                },
                Stmt::Item(_) => continue, // nested items (use statements, consts) are dropped
                s => s,
            };
            if let Stmt::Local(l) = &s {
                if !attrs_on(&l.attrs) {
                    continue;
                }
            }
            if let Stmt::Expr(e, _) = &s {
                let at: &[Attribute] = match e {
                    Expr::Block(x) => &x.attrs,
                    Expr::If(x) => &x.attrs,
                    Expr::MethodCall(x) => &x.attrs,
                    Expr::Call(x) => &x.attrs,
                    Expr::Unsafe(x) => &x.attrs,
                    Expr::Return(x) => &x.attrs,
                    _ => &[],
                };
                if !attrs_on(at) {
                    continue;
                }
                // drop(x);
                if let Expr::Call(c) = e {
                    let f = norm(&c.func);
                    if f == "drop" || f == "std::mem::drop" {
                        continue;
                    }
                }
            }
            // `let x: C = …collect();` collects into C
            let mut s = s;
            if let Stmt::Local(l) = &mut s {
                if let (Pat::Type(t), Some(init)) = (&l.pat, l.init.as_mut()) {
                    if let Expr::MethodCall(m) = &mut *init.expr {
                        if m.method == "collect" && m.turbofish.is_none() && !norm(&t.ty).starts_with("_") && !norm(&t.ty).starts_with("Vec") {
                            let ty = &t.ty;
                            m.turbofish = Some(parse_quote!(::<#ty>));
                        }
                    }
                }
            }
            // anchors inside this statement
            let names = call_names(&s);
            let mut before: Vec<Stmt> = vec![];
            let mut after: Vec<Stmt> = vec![];
            for n in names {
                let c = self.anchors.entry(n.clone()).or_insert(0);
                let k = *c;
                *c += 1;
                if let Some(t) = self.take_part(&format!("before {}#{}", n, k)) {
                    let i = self.splice(Kind::Ghost, t);
                    before.push(marker("__vx_ghost", i));
                }
                if let Some(t) = self.take_part(&format!("after {}#{}", n, k)) {
                    let i = self.splice(Kind::Ghost, t);
                    after.push(marker("__vx_ghost", i));
                }
            }
            let mut s = s;
            self.visit_stmt_mut(&mut s);
            // `let .. else { unreachable!() }`: the branch must diverge
            if let Stmt::Local(l) = &mut s {
                if let Some((_, els)) = l.init.as_mut().and_then(|i| i.diverge.as_mut()) {
                    if let Expr::Block(bl) = &mut **els {
                        if let Some(Stmt::Expr(x, _)) = bl.block.stmts.last_mut() {
                            if norm(x) == "v_unreachable()" {
                                *x = parse_quote!(return v_unreachable());
                            }
                        }
                    }
                }
            }
            b.stmts.extend(before);
            // a dropped expression statement `();` disappears
            if let Stmt::Expr(Expr::Tuple(t), Some(_)) = &s {
                if t.elems.is_empty() {
                    b.stmts.extend(after);
                    continue;
                }
            }
            if !after.is_empty() {
                if let Stmt::Expr(e, None) = s {
                    b.stmts.push(parse_quote!(let __aft = #e;));
                    b.stmts.extend(after);
                    b.stmts.push(Stmt::Expr(parse_quote!(__aft), None));
                    continue;
                }
            }
            b.stmts.push(s);
            b.stmts.extend(after);
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let n = if self.u.exprs.is_empty() { String::new() } else { norm(e) };
        if let Some((_, b)) = self.u.exprs.iter().find(|(a, _)| *a == n) {
            *e = parse_str(b).unwrap_or_else(|er| die("UNIT", &format!("expr {}: {}", b, er)));
            return;
        }
        // CONST_ARRAY.contains(&x): x equals one of the listed constants
        if let Expr::MethodCall(m) = e {
            if let (Expr::Path(p), true, Some(Expr::Reference(x))) = (&*m.receiver, m.method == "contains" && m.args.len() == 1, m.args.first()) {
                let last = p.path.segments.last().unwrap().ident.to_string();
                let c = self.files[&self.cur_file].consts.get(&last).or_else(|| self.u.const_files.iter().find_map(|f| self.files.get(f).and_then(|f| f.consts.get(&last))));
                let arr = match c {
                    Some(Expr::Reference(r)) => match &*r.expr { Expr::Array(a) => Some(a.elems.clone()), _ => None },
                    Some(Expr::Array(a)) => Some(a.elems.clone()),
                    _ => None,
                };
                if let Some(els) = arr {
                    let x = (*x.expr).clone();
                    let mut t: Expr = parse_quote!(false);
                    for el in els {
                        t = parse_quote!(#t || #x == #el);
                    }
                    *e = parse_quote!((#t));
                    self.visit_expr_mut(e);
                    return;
                }
            }
        }
        match e {
            Expr::Await(a) => {
                let mut b = (*a.base).clone();
                self.visit_expr_mut(&mut b);
                *e = b;
                return;
            },
            Expr::Try(t) if self.cur_spec.as_ref().map_or(false, |s| s.flags.contains(&"tryconv".to_string())) => {
                // `?` with the conversion of the error made visible
                let mut b = (*t.expr).clone();
                self.visit_expr_mut(&mut b);
                *e = parse_quote!((match #b { Ok(__v) => __v, Err(__e) => { return Err(__e.v_err()); } }));
                return;
            },
            Expr::Async(a) => {
                // only where the unit says that the future is awaited exactly once
                if !self.cur_spec.as_ref().map_or(false, |s| s.flags.contains(&"asyncinline".to_string())) || block_has_return_or_try(&a.block) {
                    die("UNSUPPORTED", "async block");
                }
                let mut b = a.block.clone();
                self.visit_block_mut(&mut b);
                *e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: b });
                return;
            },
            Expr::Macro(m) => {
                let mac = m.mac.clone();
                match self.macro_expr(&mac) {
                    Some(x) => *e = x,
                    None => die("UNSUPPORTED", &format!("macro {}!", norm(&mac.path))),
                }
                return;
            },
            Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => {
                let id = format_ident!("lit_{}", self.lits.id(&s.value()));
                *e = parse_quote!(#id());
                return;
            },
            Expr::Lit(ExprLit { lit: Lit::ByteStr(s), .. }) => {
                let v: Vec<Expr> = s.value().iter().map(|b| { let l = syn::LitInt::new(&format!("{}u8", b), proc_macro2::Span::call_site()); parse_quote!(#l) }).collect();
                *e = parse_quote!(&[#(#v),*]);
                return;
            },
            Expr::Lit(ExprLit { lit: Lit::Float(x), .. }) if self.u.types.iter().any(|(a, _)| a == "f64") => {
                let bits = x.base10_parse::<f64>().map(|v| v.to_bits()).unwrap_or(0);
                *e = parse_quote!(F64::lit(#bits));
                return;
            },
            Expr::Cast(c) if norm(&c.ty) == "f64" && self.u.types.iter().any(|(a, _)| a == "f64") => {
                let mut x = (*c.expr).clone();
                self.visit_expr_mut(&mut x);
                *e = parse_quote!((#x).v_to_f64());
                return;
            },
            // `map.retain(|k, v| …)` whose closure also acts on something else: a loop over the keys
            Expr::MethodCall(m) if self.u.retain_loop && m.method == "retain" && matches!(m.args.first(), Some(Expr::Closure(c)) if c.inputs.len() == 2) => {
                let Some(Expr::Closure(c)) = m.args.first() else { unreachable!() };
                let (x, k, v, b) = (&m.receiver, &c.inputs[0], &c.inputs[1], &c.body);
                let key = self.tmp("key");
                let keep = self.tmp("keep");
                let bind: Vec<Stmt> = vec![parse_quote!(let #k = #key;), parse_quote!(let #v = &*#v;)];
                let f: Expr = parse_quote!(for (#key, #v) in #x.iter_mut() { #(#bind)* let #keep = #b; if !#keep { #x.remove(#key); } });
                let Expr::ForLoop(f) = f else { unreachable!() };
                *e = self.for_loop(f);
                return;
            },
            Expr::ForLoop(f) => {
                let f = f.clone();
                *e = self.for_loop(f);
                return;
            },
            Expr::While(w) => {
                let mut w = w.clone();
                let (k, start, end) = self.loop_marks("while");
                let lab = w.label.take();
                self.visit_expr_mut(&mut w.cond);
                self.visit_block_mut(&mut w.body);
                end_with_semi(&mut w.body, &end);
                let b = &w.body.stmts;
                let c = &w.cond;
                let l: Expr = parse_quote!(while #c { #(#start)* #(#b)* #(#end)* });
                let st = self.wrap_loop(k, l, lab);
                *e = if st.len() == 1 {
                    match st.into_iter().next().unwrap() {
                        Stmt::Expr(x, _) => x,
                        _ => unreachable!(),
                    }
                } else {
                    parse_quote!({ #(#st)* })
                };
                return;
            },
            Expr::Loop(w) => {
                let mut w = w.clone();
                let (k, start, end) = self.loop_marks("loop");
                let lab = w.label.take();
                self.visit_block_mut(&mut w.body);
                end_with_semi(&mut w.body, &end);
                let b = &w.body.stmts;
                let l: Expr = parse_quote!(loop { #(#start)* #(#b)* #(#end)* });
                let st = self.wrap_loop(k, l, lab);
                *e = if st.len() == 1 {
                    match st.into_iter().next().unwrap() {
                        Stmt::Expr(x, _) => x,
                        _ => unreachable!(),
                    }
                } else {
                    parse_quote!({ #(#st)* })
                };
                return;
            },
            Expr::Reference(r) => {
                if let Expr::Index(ix) = &*r.expr {
                    if let Expr::Range(_) = &*ix.index {
                        let mut x = Expr::Index(ix.clone());
                        self.visit_expr_mut(&mut x);
                        *e = x;
                        return;
                    }
                }
                if let Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) = &*r.expr {
                    // &*guard  (re-borrow of a lock guard)
                    if r.mutability.is_none() {
                        let mut x = (**expr).clone();
                        if let Expr::MethodCall(m) = &x {
                            if m.method == "read" {
                                self.visit_expr_mut(&mut x);
                                *e = x;
                                return;
                            }
                        }
                    }
                }
            },
            Expr::Index(ix) => {
                if let Expr::Range(r) = &*ix.index {
                    let mut b = (*ix.expr).clone();
                    self.visit_expr_mut(&mut b);
                    let mut g = |x: &Option<Box<Expr>>| {
                        x.as_ref().map(|y| {
                            let mut z = (**y).clone();
                            self.visit_expr_mut(&mut z);
                            z
                        })
                    };
                    let (s, t) = (g(&r.start), g(&r.end));
                    let incl = matches!(r.limits, RangeLimits::Closed(_));
                    *e = match (s, t) {
                        (None, None) => b,
                        (Some(s), None) => parse_quote!(#b.v_slice_from(#s)),
                        (None, Some(t)) if incl => parse_quote!(#b.v_slice_to((#t) + 1)),
                        (None, Some(t)) => parse_quote!(#b.v_slice_to(#t)),
                        (Some(s), Some(t)) if incl => parse_quote!(#b.v_slice(#s, (#t) + 1)),
                        (Some(s), Some(t)) => parse_quote!(#b.v_slice(#s, #t)),
                    };
                    return;
                }
            },
            Expr::Match(m) => {
                if m.arms.iter().any(|a| pat_has_str(&a.pat)) {
                    let m = m.clone();
                    *e = self.match_str(m);
                    return;
                }
            },
            Expr::MethodCall(m) => {
                let m0 = m.clone();
                if let Some(x) = self.chain(&m0) {
                    *e = x;
                    return;
                }
                if let Some(x) = self.combinator(&m0) {
                    *e = x;
                    return;
                }
                let name = m0.method.to_string();
                // self.helper(..) without a contract
                if let Expr::Path(p) = &*m0.receiver {
                    if p.path.is_ident("self") && !self.cur_type.is_empty() {
                        let args: Vec<Expr> = m0.args.iter().cloned().collect();
                        let ty = self.cur_type.clone();
                        if let Some(x) = self.try_inline(&ty, &name, &args, true) {
                            *e = x;
                            return;
                        }
                    }
                }
                if name == "copy_from_slice" {
                    if let Expr::Index(ix) = &*m0.receiver {
                        if let Expr::Range(r) = &*ix.index {
                            let mut b = (*ix.expr).clone();
                            let mut st: Expr = r.start.as_ref().map(|x| (**x).clone()).unwrap_or_else(|| parse_quote!(0));
                            let bl = b.clone();
                            let mut en: Expr = r.end.as_ref().map(|x| (**x).clone()).unwrap_or_else(|| parse_quote!(#bl.len()));
                            let mut a = m0.args[0].clone();
                            for x in [&mut b, &mut st, &mut en, &mut a] {
                                self.visit_expr_mut(x);
                            }
                            *e = parse_quote!(#b.v_copy_at(#st, #en, #a));
                            return;
                        }
                    }
                }
                if name == "into" && m0.args.is_empty() && !self.u.methods.contains_key("into") {
                    let mut r = (*m0.receiver).clone();
                    let param = matches!(&r, Expr::Path(p) if p.path.get_ident().map_or(false, |i| self.into_params.contains(&i.to_string())));
                    let lit = matches!(&r, Expr::Lit(_));
                    self.visit_expr_mut(&mut r);
                    let conv = self.cur_spec.as_ref().map_or(false, |s| s.flags.contains(&"tryconv".to_string()));
                    *e = if conv && !param && !lit {
                        parse_quote!((#r).v_err())
                    } else if param {
                        parse_quote!(#r.v_into())
                    } else if lit {
                        parse_quote!(#r.to_string())
                    } else {
                        r
                    };
                    return;
                }
                if name == "get" && m0.args.len() == 1 {
                    if let Expr::Range(r) = &m0.args[0] {
                        if matches!(r.limits, syn::RangeLimits::HalfOpen(_)) {
                            let mut rc = (*m0.receiver).clone();
                            self.visit_expr_mut(&mut rc);
                            let mut one = |e: &Option<Box<Expr>>, me: &mut Self| e.as_ref().map(|e| { let mut e = (**e).clone(); me.visit_expr_mut(&mut e); e });
                            let (a, b) = (one(&r.start, self), one(&r.end, self));
                            *e = match (a, b) {
                                (Some(a), Some(b)) => parse_quote!(#rc.v_get(#a, #b)),
                                (None, Some(b)) => parse_quote!(#rc.v_get_to(#b)),
                                (Some(a), None) => parse_quote!(#rc.v_get_from(#a)),
                                (None, None) => parse_quote!(#rc.v_get_all()),
                            };
                            return;
                        }
                    }
                }
                if name == "drain" && m0.args.len() == 1 {
                    let mut a = m0.args[0].clone();
                    while let Expr::Paren(p) = a {
                        a = *p.expr;
                    }
                    if let Expr::Range(r) = a {
                        let mut rc = (*m0.receiver).clone();
                        self.visit_expr_mut(&mut rc);
                        let mut g = |x: &Option<Box<Expr>>| {
                            x.as_ref().map(|y| {
                                let mut z = (**y).clone();
                                self.visit_expr_mut(&mut z);
                                z
                            })
                        };
                        let (s, t) = (g(&r.start), g(&r.end));
                        let incl = matches!(r.limits, RangeLimits::Closed(_));
                        *e = match (s, t) {
                            (None, None) => parse_quote!(#rc.v_drain_all()),
                            (Some(s), None) => parse_quote!(#rc.v_drain_from(#s)),
                            (None, Some(t)) if incl => parse_quote!(#rc.v_drain_to_incl(#t)),
                            (None, Some(t)) => parse_quote!(#rc.v_drain_to(#t)),
                            (Some(s), Some(t)) if incl => parse_quote!(#rc.v_drain_range(#s, (#t) + 1)),
                            (Some(s), Some(t)) => parse_quote!(#rc.v_drain_range(#s, #t)),
                        };
                        return;
                    }
                }
                if matches!(name.as_str(), "or_insert_with" | "or_insert" | "or_default") {
                    // entry(k).and_modify(f): first the present value is changed, then the rest is as without it
                    let mut chain = (*m0.receiver).clone();
                    let mut mods: Vec<Expr> = vec![];
                    while let Expr::MethodCall(am) = &chain {
                        if am.method != "and_modify" || am.args.len() != 1 {
                            break;
                        }
                        mods.insert(0, am.args[0].clone());
                        chain = (*am.receiver).clone();
                    }
                    if let Expr::MethodCall(en) = &chain {
                        if en.method == "entry" && !mods.is_empty() && matches!(&*en.receiver, Expr::Path(_) | Expr::Field(_)) {
                            let (kv, xv) = (self.tmp("k"), self.tmp("m"));
                            let (rc, k) = ((*en.receiver).clone(), en.args[0].clone());
                            let mut stmts: Vec<Stmt> = vec![parse_quote!(let #kv = #k;)];
                            for f in mods {
                                let b = self.apply_closure(&f, vec![parse_quote!(#xv)]);
                                let mut g: Expr = rc.clone();
                                self.visit_expr_mut(&mut g);
                                stmts.push(parse_quote!(if let Some(#xv) = #g.get_mut(&#kv) { #b; }));
                            }
                            let mut m2 = m0.clone();
                            let mut en2 = en.clone();
                            en2.args = Default::default();
                            en2.args.push(parse_quote!(#kv));
                            m2.receiver = Box::new(Expr::MethodCall(en2));
                            let mut last: Expr = Expr::MethodCall(m2);
                            self.visit_expr_mut(&mut last);
                            // the key and the statements before are already rewritten, except the key itself
                            if let Some(Stmt::Local(l)) = stmts.first_mut() {
                                if let Some(i) = &mut l.init {
                                    let mut z = (*i.expr).clone();
                                    self.visit_expr_mut(&mut z);
                                    *i.expr = z;
                                }
                            }
                            *e = parse_quote!({ #(#stmts)* #last });
                            return;
                        }
                    }
                    if let Expr::MethodCall(en) = &*m0.receiver {
                        if en.method == "entry" {
                            let mut rc = (*en.receiver).clone();
                            self.visit_expr_mut(&mut rc);
                            let mut k = en.args[0].clone();
                            self.visit_expr_mut(&mut k);
                            let d: Expr = match name.as_str() {
                                "or_default" => parse_quote!(VDefault::v_default()),
                                "or_insert" => {
                                    let mut d = m0.args[0].clone();
                                    self.visit_expr_mut(&mut d);
                                    d
                                },
                                _ => self.apply_closure(&m0.args[0], vec![]),
                            };
                            *e = parse_quote!(#rc.v_entry_or_insert(#k, #d));
                            return;
                        }
                    }
                }
                if name == "parse" && m0.args.is_empty() {
                    if let Some(tf) = &m0.turbofish {
                        let t = tf.args.to_token_stream().to_string().replace(|c: char| !c.is_alphanumeric(), "_");
                        let f = format_ident!("v_parse_{}", t);
                        let mut rc = (*m0.receiver).clone();
                        self.visit_expr_mut(&mut rc);
                        *e = parse_quote!(#rc.#f());
                        return;
                    }
                }
                if name == "clone" && self.cur_spec.as_ref().map_or(false, |s| s.flags.contains(&"noclone".to_string())) {
                    let mut r = (*m0.receiver).clone();
                    self.visit_expr_mut(&mut r);
                    *e = r;
                    return;
                }
                if name == "clone_from" {
                    let mut r = (*m0.receiver).clone();
                    self.visit_expr_mut(&mut r);
                    let mut a = m0.args[0].clone();
                    self.visit_expr_mut(&mut a);
                    *e = parse_quote!({ #r = (#a).v_clone(); });
                    return;
                }
                let extra = self.ghost_args(&name, m.args.len());
                visit_mut::visit_expr_method_call_mut(self, m);
                for x in extra {
                    m.args.push(x);
                }
                let nn = match self.u.methods.get(&name) {
                    Some(x) => x.clone(),
                    None => match name.as_str() {
                        "clone" => "v_clone".into(),
                        "iter" | "iter_mut" | "into_iter" | "as_deref" | "values" | "keys" | "drain" | "retain" | "is_some_and"
                        | "unwrap_or_default" | "as_deref_mut" | "to_vec" | "extend_from_slice" | "extend" | "sort_by" | "sort_by_key"
                        | "first" | "last" | "get_or_insert_with" | "copied" | "cloned" | "chunks" | "chunks_exact" | "sort"
                        | "truncate" | "split_off" | "swap_remove" | "to_lowercase" | "to_uppercase" => format!("v_{}", name),
                        _ => name.clone(),
                    },
                };
                m.method = format_ident!("{}", nn);
                m.turbofish = if nn == name { m.turbofish.take() } else { None };
                return;
            },
            Expr::Call(c) => {
                let f = norm(&c.func);
                let args: Vec<Expr> = c.args.iter().cloned().collect();
                if f == "Arc::new" || f == "Box::new" || f == "std::sync::Arc::new" || f == "std::boxed::Box::new" || f == "Box::pin" || f == "Arc::from" || f == "Box::from" {
                    let mut a = args[0].clone();
                    self.visit_expr_mut(&mut a);
                    *e = a;
                    return;
                }
                // unaligned vector loads and stores: the pointer becomes (slice, offset)
                let fl = f.rsplit("::").next().unwrap_or("").to_string();
                if fl == "_mm256_loadu_si256" || fl == "_mm256_storeu_si256" {
                    let mut p = args.first().cloned().unwrap_or_else(|| die("UNSUPPORTED", "vector load"));
                    while let Expr::Cast(c) = p {
                        p = *c.expr;
                    }
                    let mut off: Expr = parse_quote!(0);
                    if let Expr::MethodCall(m) = &p {
                        if m.method == "add" {
                            off = m.args[0].clone();
                            p = (*m.receiver).clone();
                        }
                    }
                    let base = match &p {
                        Expr::MethodCall(m) if m.method == "as_ptr" || m.method == "as_mut_ptr" => (*m.receiver).clone(),
                        _ => die("UNSUPPORTED", "vector load through a pointer that is not slice.as_ptr().add(n)"),
                    };
                    *e = if fl == "_mm256_loadu_si256" {
                        let (mut base, mut off) = (base, off);
                        self.visit_expr_mut(&mut base);
                        self.visit_expr_mut(&mut off);
                        parse_quote!(#base.v_load256(#off))
                    } else {
                        let (mut base, mut off, mut v) = (base, off, args[1].clone());
                        self.visit_expr_mut(&mut base);
                        self.visit_expr_mut(&mut off);
                        self.visit_expr_mut(&mut v);
                        parse_quote!(#base.v_store256(#off, #v))
                    };
                    return;
                }
                if let (true, Some(Expr::Async(a))) = (f == "futures::executor::block_on" || f == "block_on", args.first()) {
                    if block_has_return_or_try(&a.block) {
                        die("UNSUPPORTED", "awaited block with return or ?");
                    }
                    let mut b = a.block.clone();
                    self.visit_block_mut(&mut b);
                    *e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: b });
                    return;
                }
                if let (true, Some(Expr::Async(a))) = (f == "tokio::spawn" || f == "spawn", args.first()) {
                    // sequential view: the task runs at once
                    if block_has_return_or_try(&a.block) {
                        die("UNSUPPORTED", "spawned task with return or ?");
                    }
                    let mut b = a.block.clone();
                    self.visit_block_mut(&mut b);
                    *e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: b });
                    return;
                }
                if f == "Arc::clone" {
                    let mut a = args[0].clone();
                    self.visit_expr_mut(&mut a);
                    *e = parse_quote!((#a).v_clone());
                    return;
                }
                if let Some(nm) = f.strip_prefix("Self::") {
                    if !nm.contains("::") {
                        let ty = self.cur_type.clone();
                        if let Some(x) = self.try_inline(&ty, nm, &args, false) {
                            *e = x;
                            return;
                        }
                    }
                } else {
                    let last = f.rsplit("::").next().unwrap_or("").to_string();
                    let local = !f.contains("::") || f.starts_with("crate::") || f.starts_with("self::") || f.starts_with("super::");
                    if local && last.chars().next().map_or(false, |c| c.is_lowercase()) && !self.u.calls.contains_key(&f) {
                        if let Some(x) = self.try_inline("", &last, &args, false) {
                            *e = x;
                            return;
                        }
                    }
                }
                // `f::<T>(x)`: looked up without its type arguments, which are kept
                let (f, turbo) = match (&*c.func, f.find("::<")) {
                    (Expr::Path(p), Some(k)) if self.u.calls.contains_key(&f[..k]) => (f[..k].to_string(), Some(p.path.segments.last().unwrap().arguments.clone())),
                    _ => (f, None),
                };
                if let Some(r) = self.u.calls.get(&f).cloned() {
                    if let Ok(p) = parse_str::<Expr>(&r) {
                        for a in c.args.iter_mut() {
                            self.visit_expr_mut(a);
                        }
                        if let Expr::Field(fe) = &p {
                            // `//@call f = x.m`: f(a) becomes x.m(a)
                            let nn = fe.member.to_token_stream().to_string();
                            for x in self.ghost_args(&nn, c.args.len()) {
                                c.args.push(x);
                            }
                            let (b, mm, aa) = (&fe.base, &fe.member, &c.args);
                            *e = parse_quote!(#b.#mm(#aa));
                            return;
                        }
                        for x in self.ghost_args(&norm(&p), c.args.len()) {
                            c.args.push(x);
                        }
                        *c.func = p;
                        if let (Some(mut t), Expr::Path(p)) = (turbo, &mut *c.func) {
                            if let PathArguments::AngleBracketed(a) = &mut t {
                                for g in a.args.iter_mut() {
                                    if let GenericArgument::Type(x) = g {
                                        self.visit_type_mut(x);
                                    }
                                }
                            }
                            p.path.segments.last_mut().unwrap().arguments = t;
                        }
                        return;
                    }
                }
                for x in self.ghost_args(f.rsplit("::").next().unwrap_or(""), c.args.len()) {
                    c.args.push(x);
                }
            },
            Expr::Path(p) => {
                let n = norm(&p.path);
                if let Some(r) = self.u.idents.get(&n) {
                    *e = parse_str(r).unwrap_or_else(|er| die("UNIT", &er.to_string()));
                    return;
                }
                let last = p.path.segments.last().unwrap().ident.to_string();
                let sc = &self.files[&self.cur_file].str_consts;
                let key2 = n.replace("Self::", &format!("{}::", self.cur_type));
                let far = self.u.const_files.iter().find_map(|f| self.files.get(f).and_then(|f| f.str_consts.get(&last)));
                if let Some(v) = sc.get(&n).or_else(|| sc.get(&key2)).or_else(|| sc.get(&last)).or(far).cloned() {
                    if last.chars().all(|c| c.is_uppercase() || c == '_' || c.is_numeric()) {
                        let id = format_ident!("lit_{}", self.lits.id(&v));
                        *e = parse_quote!(#id());
                        return;
                    }
                }
            },
            Expr::Struct(s) => {
                let tn = {
                    let l = s.path.segments.last().unwrap().ident.to_string();
                    if l == "Self" {
                        self.cur_type.clone()
                    } else {
                        l
                    }
                };
                let drop = self.u.drop_fields.clone();
                s.fields = s
                    .fields
                    .iter()
                    .filter(|f| !drop.contains(&format!("{}.{}", tn, norm(&f.member))))
                    .cloned()
                    .collect();
                if let Some(r) = &mut s.rest {
                    if !s.fields.empty_or_trailing() {
                        s.fields.push_punct(Default::default());
                    }
                    if norm(&**r) == "Default::default()" {
                        let p = &s.path;
                        **r = parse_quote!(#p::default());
                    }
                }
            },
            Expr::Closure(c) => {
                let k = self.clo_n;
                self.clo_n += 1;
                // pattern parameters become variables bound by a `let` in the body
                let mut lets: Vec<Stmt> = vec![];
                for (j, p) in c.inputs.iter_mut().enumerate() {
                    if matches!(p, Pat::Wild(_)) {
                        let v = format_ident!("__c{}_{}", k, j);
                        *p = parse_quote!(#v);
                    }
                    if matches!(p, Pat::Tuple(_) | Pat::Reference(_) | Pat::TupleStruct(_) | Pat::Struct(_)) {
                        let v = format_ident!("__c{}_{}", k, j);
                        let pp = p.clone();
                        lets.push(parse_quote!(let #pp = #v;));
                        *p = parse_quote!(#v);
                    }
                }
                if !lets.is_empty() {
                    let b = &c.body;
                    *c.body = parse_quote!({ #(#lets)* #b });
                }
                if let Some(t) = self.take_part(&format!("closure {}", k)) {
                    let mut c = c.clone();
                    for p in c.inputs.iter_mut() {
                        self.visit_pat_mut(p);
                    }
                    self.visit_expr_mut(&mut c.body);
                    let i = self.splice(Kind::Clo, t);
                    let m = marker("__vx_clo", i);
                    let b = &c.body;
                    let body: Expr = match &**b {
                        Expr::Block(bb) => {
                            let st = &bb.block.stmts;
                            parse_quote!({ #m #(#st)* })
                        },
                        x => parse_quote!({ #m #x }),
                    };
                    *c.body = body;
                    c.output = ReturnType::Default;
                    *e = Expr::Closure(c);
                    return;
                }
            },
            Expr::Unsafe(u) => {
                let mut b = u.block.clone();
                self.visit_block_mut(&mut b);
                *e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: b });
                return;
            },
            _ => {},
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

impl Rewriter {
    /// R7: match on string literals becomes an if-chain.
    fn match_str(&mut self, m: ExprMatch) -> Expr {
        let mut scrut = *m.expr;
        self.visit_expr_mut(&mut scrut);
        let v = self.tmp("m");
        let opt = m.arms.iter().any(|a| pat_is_some_str(&a.pat));
        let mut acc: Option<Expr> = None;
        for arm in m.arms.into_iter().rev() {
            if !attrs_on(&arm.attrs) {
                continue;
            }
            let mut body = *arm.body;
            self.visit_expr_mut(&mut body);
            let guard = arm.guard.map(|(_, g)| {
                let mut g = *g;
                self.visit_expr_mut(&mut g);
                g
            });
            let (cond, bind) = self.str_cond(&arm.pat, &v, opt);
            let full: Option<Expr> = match (cond, &guard) {
                (Some(c), Some(g)) => Some(parse_quote!((#c) && (#g))),
                (Some(c), None) => Some(c),
                (None, Some(g)) => Some(g.clone()),
                (None, None) => None,
            };
            let b: Expr = match bind {
                Some(id) => parse_quote!({ let #id = #v; #body }),
                None => parse_quote!({ #body }),
            };
            acc = Some(match full {
                None => b,
                Some(c) => {
                    let els = acc.unwrap_or_else(|| parse_quote!({ v_unreachable() }));
                    let els: Expr = match els {
                        Expr::Block(_) | Expr::If(_) => els,
                        x => parse_quote!({ #x }),
                    };
                    parse_quote!(if #c { #b } else #els)
                },
            });
        }
        let acc = acc.unwrap();
        parse_quote!({ let #v = #scrut; #acc })
    }
    fn str_cond(&mut self, p: &Pat, v: &Ident, opt: bool) -> (Option<Expr>, Option<Ident>) {
        match p {
            Pat::Lit(ExprLit { lit: Lit::Str(s), .. }) => {
                let id = format_ident!("lit_{}", self.lits.id(&s.value()));
                (Some(parse_quote!(v_str_eq(#v, #id()))), None)
            },
            Pat::Or(o) => {
                let mut c: Option<Expr> = None;
                for q in &o.cases {
                    let (x, _) = self.str_cond(q, v, opt);
                    let Some(x) = x else { return (None, None) };
                    c = Some(match c {
                        None => x,
                        Some(y) => parse_quote!(#y || #x),
                    });
                }
                (c, None)
            },
            Pat::Wild(_) => (None, None),
            Pat::Ident(i) if i.ident == "None" => (Some(parse_quote!(#v.is_none())), None),
            Pat::Ident(i) => (None, Some(i.ident.clone())),
            Pat::TupleStruct(t) if t.path.is_ident("Some") => match &t.elems[0] {
                Pat::Lit(ExprLit { lit: Lit::Str(s), .. }) => {
                    let id = format_ident!("lit_{}", self.lits.id(&s.value()));
                    (Some(parse_quote!(v_opt_str_eq(#v, #id()))), None)
                },
                Pat::Wild(_) => (Some(parse_quote!(#v.is_some())), None),
                Pat::Or(o) => {
                    let mut c: Option<Expr> = None;
                    for q in &o.cases {
                        let qq: Pat = parse_quote!(Some(#q));
                        let (x, _) = self.str_cond(&qq, v, opt);
                        let Some(x) = x else { return (None, None) };
                        c = Some(match c {
                            None => x,
                            Some(y) => parse_quote!(#y || #x),
                        });
                    }
                    (c, None)
                },
                _ => die("UNSUPPORTED", "string match pattern Some(binding)"),
            },
            Pat::Paren(p) => self.str_cond(&p.pat, v, opt),
            _ => die("UNSUPPORTED", "string match pattern"),
        }
    }
}
fn pat_has_str(p: &Pat) -> bool {
    match p {
        Pat::Lit(ExprLit { lit: Lit::Str(_), .. }) => true,
        Pat::Or(o) => o.cases.iter().any(pat_has_str),
        Pat::TupleStruct(t) => t.elems.iter().any(pat_has_str),
        Pat::Tuple(t) => t.elems.iter().any(pat_has_str),
        Pat::Paren(p) => pat_has_str(&p.pat),
        Pat::Reference(p) => pat_has_str(&p.pat),
        _ => false,
    }
}
fn pat_is_some_str(p: &Pat) -> bool {
    match p {
        Pat::TupleStruct(t) => t.elems.iter().any(pat_has_str),
        Pat::Or(o) => o.cases.iter().any(pat_is_some_str),
        _ => false,
    }
}
fn call_names(s: &Stmt) -> Vec<String> {
    struct V(Vec<String>);
    impl<'a> visit::Visit<'a> for V {
        fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
            visit::visit_expr_method_call(self, m);
            self.0.push(m.method.to_string());
        }
        fn visit_expr_call(&mut self, c: &'a ExprCall) {
            visit::visit_expr_call(self, c);
            if let Expr::Path(p) = &*c.func {
                self.0.push(p.path.segments.last().unwrap().ident.to_string());
            }
        }
        fn visit_block(&mut self, _: &'a Block) {} // inner blocks are visited on their own
    }
    let mut v = V(vec![]);
    visit::Visit::visit_stmt(&mut v, s);
    v.0
}
