use crate::overlay::*;
use quote::ToTokens;
use regex::Regex;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::{Path, PathBuf};
use std::rc::Rc;
use syn::spanned::Spanned;
use syn::visit::Visit;

pub struct Out {
    pub verus: String,
    pub native: String,
    pub report: String,
    pub missing: Vec<String>,
}

/// Replaces comments (line, block, doc) by blanks of the same byte length, keeping newlines.
pub fn blank_comments(s: &str) -> String {
    let b = s.as_bytes();
    let mut o = b.to_vec();
    let n = b.len();
    let mut i = 0;
    while i < n {
        let c = b[i];
        if c == b'/' && i + 1 < n && b[i + 1] == b'/' {
            while i < n && b[i] != b'\n' {
                o[i] = b' ';
                i += 1;
            }
        } else if c == b'/' && i + 1 < n && b[i + 1] == b'*' {
            let mut d = 0;
            while i < n {
                if b[i] == b'/' && i + 1 < n && b[i + 1] == b'*' {
                    d += 1;
                    o[i] = b' ';
                    o[i + 1] = b' ';
                    i += 2;
                } else if b[i] == b'*' && i + 1 < n && b[i + 1] == b'/' {
                    d -= 1;
                    o[i] = b' ';
                    o[i + 1] = b' ';
                    i += 2;
                    if d == 0 {
                        break;
                    }
                } else {
                    if b[i] != b'\n' {
                        o[i] = b' ';
                    }
                    i += 1;
                }
            }
        } else if c == b'"' {
            i = skip_str(b, i);
        } else if (c == b'r' || c == b'b' || c == b'c')
            && (i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_'))
        {
            let mut j = i;
            if b[j] == b'b' || b[j] == b'c' {
                j += 1;
            }
            if j < n && b[j] == b'r' {
                let mut k = j + 1;
                let mut h = 0;
                while k < n && b[k] == b'#' {
                    h += 1;
                    k += 1;
                }
                if k < n && b[k] == b'"' {
                    k += 1;
                    loop {
                        if k >= n {
                            break;
                        }
                        if b[k] == b'"' && b[k + 1..].iter().take(h).filter(|x| **x == b'#').count() == h {
                            k += 1 + h;
                            break;
                        }
                        k += 1;
                    }
                    i = k;
                    continue;
                }
            }
            if j < n && b[j] == b'"' && j > i {
                i = skip_str(b, j);
                continue;
            }
            if b[i] == b'b' && i + 1 < n && b[i + 1] == b'\'' {
                i = skip_char(b, i + 1);
                continue;
            }
            i += 1;
        } else if c == b'\'' {
            i = skip_char(b, i);
        } else {
            i += 1;
        }
    }
    String::from_utf8(o).unwrap_or_else(|_| s.to_string())
}
fn skip_str(b: &[u8], mut i: usize) -> usize {
    i += 1;
    while i < b.len() {
        match b[i] {
            b'\\' => i += 2,
            b'"' => return i + 1,
            _ => i += 1,
        }
    }
    i
}
fn skip_char(b: &[u8], i: usize) -> usize {
    // char literal or lifetime
    if i + 1 < b.len() && b[i + 1] == b'\\' {
        let mut k = i + 2;
        if k < b.len() {
            k += 1;
        }
        while k < b.len() && b[k] != b'\'' {
            k += 1;
        }
        return k + 1;
    }
    let s = match std::str::from_utf8(&b[i + 1..(i + 6).min(b.len())]) {
        Ok(s) => s.chars().next(),
        Err(e) => std::str::from_utf8(&b[i + 1..i + 1 + e.valid_up_to()]).ok().and_then(|s| s.chars().next()),
    };
    if let Some(ch) = s {
        let k = i + 1 + ch.len_utf8();
        if k < b.len() && b[k] == b'\'' {
            return k + 1;
        }
    }
    i + 1
}

/// Expands item-level invocations of single-arm, repetition-free `macro_rules!` of the same file, textually; the expansions
/// are appended to the text, so that the functions a macro generates can be extracted.
fn expand_macros(text: String) -> String {
    let Ok(ast) = syn::parse_file(&text) else { return text };
    let mut defs: HashMap<String, (Vec<String>, String)> = HashMap::new();
    let mut add = String::new();
    for it in &ast.items {
        let syn::Item::Macro(m) = it else { continue };
        let toks: Vec<proc_macro2::TokenTree> = m.mac.tokens.clone().into_iter().collect();
        if let Some(id) = &m.ident {
            // (pattern) => { body } [;]
            let (Some(proc_macro2::TokenTree::Group(pat)), Some(proc_macro2::TokenTree::Group(body))) = (toks.first(), toks.get(3)) else { continue };
            if toks.len() > 5 {
                continue;
            }
            let ps = pat.stream().to_string();
            if ps.contains("$ (") || ps.contains("$(") {
                continue;
            }
            let re = Regex::new(r"\$\s*(\w+)\s*:").unwrap();
            let params: Vec<String> = re.captures_iter(&ps).map(|c| c[1].to_string()).collect();
            let r = body.span().byte_range();
            defs.insert(id.to_string(), (params, text[r.start + 1..r.end - 1].to_string()));
        } else {
            let name = m.mac.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
            let Some((params, body)) = defs.get(&name) else { continue };
            let mut args: Vec<(usize, usize)> = vec![];
            let mut cur: Option<(usize, usize)> = None;
            for t in &toks {
                let r = t.span().byte_range();
                if let proc_macro2::TokenTree::Punct(p) = t {
                    if p.as_char() == ',' {
                        args.extend(cur.take());
                        continue;
                    }
                }
                cur = Some((cur.map_or(r.start, |c| c.0), r.end));
            }
            args.extend(cur);
            if args.len() != params.len() {
                continue;
            }
            let re = Regex::new(r"\$(\w+)").unwrap();
            let b = re.replace_all(body, |c: &regex::Captures| match params.iter().position(|p| *p == c[1]) {
                Some(k) => text[args[k].0..args[k].1].to_string(),
                None => c[0].to_string(),
            });
            add.push_str(&b);
            add.push('\n');
        }
    }
    if add.is_empty() {
        return text;
    }
    let full = format!("{text}\n{add}");
    if syn::parse_file(&full).is_ok() { full } else { text }
}

/// Functions nested in the named functions become module-level functions `outer__inner`.
fn hoist(text: String, names: &[String]) -> String {
    struct F<'n> {
        names: &'n [String],
        cut: Vec<std::ops::Range<usize>>,
        ren: Vec<(std::ops::Range<usize>, String)>,
    }
    struct P<'m> {
        map: &'m BTreeMap<String, String>,
        out: Vec<(std::ops::Range<usize>, String)>,
    }
    impl<'m, 'ast> Visit<'ast> for P<'m> {
        fn visit_expr_path(&mut self, e: &'ast syn::ExprPath) {
            if let Some(i) = e.path.get_ident() {
                if let Some(n) = self.map.get(&i.to_string()) {
                    self.out.push((br(i), n.clone()));
                }
            }
        }
    }
    impl<'n, 'ast> Visit<'ast> for F<'n> {
        fn visit_item_fn(&mut self, f: &'ast syn::ItemFn) {
            self.block(&f.sig, &f.block);
        }
        fn visit_impl_item_fn(&mut self, f: &'ast syn::ImplItemFn) {
            self.block(&f.sig, &f.block);
        }
    }
    impl<'n> F<'n> {
        fn block(&mut self, sig: &syn::Signature, b: &syn::Block) {
            let outer = sig.ident.to_string();
            if !self.names.contains(&outer) {
                return;
            }
            let mut map = BTreeMap::new();
            for s in &b.stmts {
                if let syn::Stmt::Item(syn::Item::Fn(f)) = s {
                    let n = f.sig.ident.to_string();
                    self.ren.push((br(&f.sig.ident), format!("{outer}__{n}")));
                    map.insert(n.clone(), format!("{outer}__{n}"));
                    self.cut.push(br(f));
                }
            }
            let mut p = P { map: &map, out: vec![] };
            p.visit_block(b);
            self.ren.extend(p.out);
        }
    }
    if names.is_empty() {
        return text;
    }
    let Ok(ast) = syn::parse_file(&text) else { return text };
    let mut f = F { names, cut: vec![], ren: vec![] };
    f.visit_file(&ast);
    if f.cut.is_empty() {
        return text;
    }
    let edit = |r: std::ops::Range<usize>, cuts: &[std::ops::Range<usize>]| {
        let mut t = text[r.clone()].to_string();
        let mut eds: Vec<(std::ops::Range<usize>, String)> = f.ren.iter().filter(|e| r.start <= e.0.start && e.0.end <= r.end).cloned().collect();
        eds.retain(|e| !cuts.iter().any(|c| c.start <= e.0.start && e.0.end <= c.end));
        eds.extend(cuts.iter().map(|c| (c.clone(), String::new())));
        eds.sort_by_key(|e| std::cmp::Reverse(e.0.start));
        for (e, n) in eds {
            t.replace_range(e.start - r.start..e.end - r.start, &n);
        }
        t
    };
    let mut full = edit(0..text.len(), &f.cut);
    for c in &f.cut {
        full.push('\n');
        full.push_str(&edit(c.clone(), &[]));
        full.push('\n');
    }
    if syn::parse_file(&full).is_ok() { full } else { text }
}

pub struct SrcFile {
    pub rel: String,
    pub text: String,
    pub ast: syn::File,
}
#[derive(Clone)]
pub struct FnEnt {
    file: &'static SrcFile,
    name: String,
    self_ty: Option<String>,
    self_base: Option<String>,
    trait_: Option<String>,
    impl_gen: String,
    impl_where: String,
    assoc: Vec<(String, String)>,
    attrs: &'static [syn::Attribute],
    sig: &'static syn::Signature,
    block: &'static syn::Block,
    span: std::ops::Range<usize>,
    line: usize,
}
struct Index {
    fns: Vec<FnEnt>,
    types: Vec<(String, &'static syn::Item, &'static SrcFile)>,
    consts: Vec<(String, &'static syn::Item, &'static SrcFile)>,
}

fn br<T: Spanned + ?Sized>(t: &T) -> std::ops::Range<usize> {
    t.span().byte_range()
}
fn is_test(a: &[syn::Attribute]) -> bool {
    a.iter().any(|x| {
        let s = x.to_token_stream().to_string().replace(' ', "");
        s.contains("cfg(test") || s == "#[test]" || s.contains("tokio::test")
    })
}
fn base_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        syn::Type::Reference(r) => base_name(&r.elem),
        _ => t.to_token_stream().to_string(),
    }
}

fn index_items(items: &'static [syn::Item], f: &'static SrcFile, ix: &mut Index) {
    for it in items {
        match it {
            syn::Item::Fn(x) if !is_test(&x.attrs) => ix.fns.push(FnEnt {
                file: f,
                name: x.sig.ident.to_string(),
                self_ty: None,
                self_base: None,
                trait_: None,
                impl_gen: String::new(),
                impl_where: String::new(),
                assoc: vec![],
                attrs: &x.attrs,
                sig: &x.sig,
                block: &x.block,
                span: br(x),
                line: x.sig.span().start().line,
            }),
            syn::Item::Impl(im) if !is_test(&im.attrs) => {
                let mut assoc = vec![];
                for ii in &im.items {
                    if let syn::ImplItem::Type(t) = ii {
                        assoc.push((t.ident.to_string(), f.text[br(&t.ty)].to_string()));
                    }
                }
                for ii in &im.items {
                    match ii {
                        syn::ImplItem::Fn(m) if !is_test(&m.attrs) => ix.fns.push(FnEnt {
                            file: f,
                            name: m.sig.ident.to_string(),
                            self_ty: Some(f.text[br(&*im.self_ty)].to_string()),
                            self_base: Some(base_name(&im.self_ty)),
                            trait_: im.trait_.as_ref().map(|t| {
                                t.1.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
                            }),
                            impl_gen: gen_text(&im.generics, f),
                            impl_where: im.generics.where_clause.as_ref().map(|w| f.text[br(w)].to_string()).unwrap_or_default(),
                            assoc: assoc.clone(),
                            attrs: &m.attrs,
                            sig: &m.sig,
                            block: &m.block,
                            span: br(m),
                            line: m.sig.span().start().line,
                        }),
                        _ => {}
                    }
                }
            }
            syn::Item::Struct(x) => ix.types.push((x.ident.to_string(), it, f)),
            syn::Item::Enum(x) => ix.types.push((x.ident.to_string(), it, f)),
            syn::Item::Type(x) => ix.types.push((x.ident.to_string(), it, f)),
            syn::Item::Const(x) => ix.consts.push((x.ident.to_string(), it, f)),
            syn::Item::Static(x) => ix.consts.push((x.ident.to_string(), it, f)),
            syn::Item::Mod(m) if !is_test(&m.attrs) => {
                if let Some((_, its)) = &m.content {
                    index_items(its, f, ix);
                }
            }
            _ => {}
        }
    }
}
fn gen_text(g: &syn::Generics, f: &SrcFile) -> String {
    match (&g.lt_token, &g.gt_token) {
        (Some(a), Some(b)) => f.text[br(a).start..br(b).end].to_string(),
        _ => String::new(),
    }
}

struct Db {
    hoist: Vec<String>,
    repo: PathBuf,
    files: RefCell<HashMap<String, Option<&'static SrcFile>>>,
    ix: RefCell<HashMap<String, Rc<Index>>>,
    missing: RefCell<Vec<String>>,
    crate_files: RefCell<HashMap<String, Vec<String>>>,
}
impl Db {
    fn file(&self, rel: &str) -> Option<&'static SrcFile> {
        if let Some(x) = self.files.borrow().get(rel) {
            return *x;
        }
        let r = std::fs::read_to_string(self.repo.join(rel)).ok().and_then(|s| {
            let text = hoist(expand_macros(blank_comments(&s)), &self.hoist);
            let ast = syn::parse_file(&text).ok()?;
            Some(&*Box::leak(Box::new(SrcFile { rel: rel.to_string(), text, ast })))
        });
        self.files.borrow_mut().insert(rel.to_string(), r);
        r
    }
    fn index(&self, rel: &str) -> Option<Rc<Index>> {
        if let Some(x) = self.ix.borrow().get(rel) {
            return Some(x.clone());
        }
        let f = self.file(rel)?;
        let mut ix = Index { fns: vec![], types: vec![], consts: vec![] };
        index_items(&f.ast.items, f, &mut ix);
        let r = Rc::new(ix);
        self.ix.borrow_mut().insert(rel.to_string(), r.clone());
        Some(r)
    }
    fn crate_src(&self, rel: &str) -> Vec<String> {
        let mut p: Vec<&str> = rel.split('/').collect();
        while let Some(x) = p.pop() {
            if x == "src" {
                p.push("src");
                break;
            }
        }
        let root = p.join("/");
        if root.is_empty() {
            return vec![];
        }
        if let Some(v) = self.crate_files.borrow().get(&root) {
            return v.clone();
        }
        let mut v = vec![];
        fn walk(d: &Path, repo: &Path, v: &mut Vec<String>) {
            let Ok(rd) = std::fs::read_dir(d) else { return };
            let mut es: Vec<_> = rd.flatten().map(|e| e.path()).collect();
            es.sort();
            for p in es {
                if p.is_dir() {
                    walk(&p, repo, v);
                } else if p.extension().is_some_and(|e| e == "rs") {
                    if let Ok(r) = p.strip_prefix(repo) {
                        v.push(r.to_string_lossy().to_string());
                    }
                }
            }
        }
        walk(&self.repo.join(&root), &self.repo, &mut v);
        self.crate_files.borrow_mut().insert(root, v.clone());
        v
    }
    /// Files of the same crate whose text mentions `needle`.
    fn grep(&self, rel: &str, needle: &str) -> Vec<String> {
        self.crate_src(rel)
            .into_iter()
            .filter(|f| f != rel)
            .filter(|f| std::fs::read_to_string(self.repo.join(f)).is_ok_and(|s| s.contains(needle)))
            .collect()
    }
}

const LOG_MACROS: &[&str] = &["debug", "info", "warn", "trace", "error"];

struct Ctx<'a> {
    ov: &'a Overlay,
    f: &'static SrcFile,
    verus: bool,
    spec: &'a FnSpec,
    loopn: Cell<usize>,
    notes: RefCell<BTreeSet<String>>,
    inline_depth: Cell<usize>,
    cont: Cell<Option<usize>>,
    contn: Cell<usize>,
    /// the names of shared-reference parameters, if another parameter is `&mut`
    shared: BTreeSet<String>,
}
struct Ed {
    s: usize,
    e: usize,
    t: String,
}
struct R<'a, 'b> {
    c: &'b Ctx<'a>,
    eds: Vec<Ed>,
}
impl<'a> Ctx<'a> {
    fn rules(&self, kind: &'a str) -> impl Iterator<Item = &'a Rule> + '_ {
        let v = self.verus;
        self.ov.rules.iter().filter(move |r| {
            r.kind == kind
                && match r.mode {
                    Mode::Both => true,
                    Mode::V => v,
                    Mode::N => !v,
                }
        })
    }
    fn note(&self, s: String) {
        self.notes.borrow_mut().insert(s);
    }
    fn apply(&self, range: std::ops::Range<usize>, mut eds: Vec<Ed>) -> String {
        // stable sort: insertions at the same position keep their order
        eds.sort_by_key(|e| (e.s, e.e));
        let mut out = String::new();
        let mut p = range.start;
        for e in eds {
            if e.s < p {
                continue;
            }
            out.push_str(&self.f.text[p..e.s]);
            out.push_str(&e.t);
            p = e.e;
        }
        out.push_str(&self.f.text[p..range.end]);
        out
    }
    fn expr(&self, e: &'static syn::Expr) -> String {
        let mut r = R { c: self, eds: vec![] };
        r.visit_expr(e);
        self.apply(br(e), r.eds)
    }
    fn stmts(&self, b: &'static syn::Block) -> String {
        let mut r = R { c: self, eds: vec![] };
        r.visit_block(b);
        let rr = br(b);
        let s = self.apply(rr, r.eds);
        s
    }
    /// `|p| body` -> `|p| -> (vx_r: T) ensures vx_r == (body) { body }`; `{pT}` also types the parameter;
    /// a third part is a `requires`, a fourth an `ensures` to use instead (Verus proves it from the body).
    fn closure(&self, e: &'static syn::Expr, spec: &str) -> String {
        let mut parts = spec.split(';');
        let ty = parts.next().unwrap_or("").trim().to_string();
        let pty = parts.next().unwrap_or("").trim().to_string();
        let req = parts.next().unwrap_or("").trim().to_string();
        if let syn::Expr::Closure(c) = e {
            let mut rq = String::new();
            if !req.is_empty() {
                let mut q = req.clone();
                for (i, p) in c.inputs.iter().enumerate() {
                    q = q.replace(&format!("@p{i}"), &self.f.text[br(p)]);
                }
                rq = format!(" requires {q},");
            }
            let mut custom = parts.next().unwrap_or("").trim().to_string();
            for (i, p) in c.inputs.iter().enumerate() {
                let n = match p {
                    syn::Pat::Ident(_) | syn::Pat::Wild(_) => self.f.text[br(p)].to_string(),
                    syn::Pat::Type(t) => self.f.text[br(&*t.pat)].to_string(),
                    _ => format!("vx_p{i}"),
                };
                custom = custom.replace(&format!("@p{i}"), &n);
            }
            let body = self.expr(&c.body);
            let ins: Vec<String> = c
                .inputs
                .iter()
                .map(|p| {
                    let t = self.f.text[br(p)].to_string();
                    if !pty.is_empty() && !matches!(p, syn::Pat::Type(_)) {
                        format!("{t}: {pty}")
                    } else {
                        t
                    }
                })
                .collect();
            if self.verus {
                // a general pattern becomes a named parameter and a `let`
                let mut lets = String::new();
                let mut ps = vec![];
                for (i, p) in c.inputs.iter().enumerate() {
                    match p {
                        syn::Pat::Ident(_) | syn::Pat::Type(_) | syn::Pat::Wild(_) => ps.push(ins[i].clone()),
                        _ if !pty.is_empty() => {
                            ps.push(format!("vx_p{i}: {pty}"));
                            lets.push_str(&format!("let {} = vx_p{i}; ", &self.f.text[br(p)]));
                        }
                        _ => ps.push(ins[i].clone()),
                    }
                }
                if !custom.is_empty() {
                    return format!("|{}| -> (vx_r: {ty}){rq} ensures {custom}, {{ {lets}{body} }}", ps.join(", "));
                }
                if lets.is_empty() {
                    return format!("|{}| -> (vx_r: {ty}){rq} ensures vx_r == ({body}), {{ {body} }}", ps.join(", "));
                }
                return format!("|{}| -> (vx_r: {ty}){rq} ensures vx_r == ({{ {lets}{body} }}), {{ {lets}{body} }}", ps.join(", "));
            }
            return format!("|{}| {body}", ins.join(", "));
        }
        self.expr(e)
    }
    fn subst(&self, tpl: &str, recv: Option<&'static syn::Expr>, args: &[&'static syn::Expr]) -> String {
        let re = Regex::new(r"\$(recv|\d+)(\{[^}]*\})?").unwrap();
        re.replace_all(tpl, |m: &regex::Captures| {
            let k = &m[1];
            let e = if k == "recv" { recv } else { args.get(k.parse::<usize>().unwrap()).copied() };
            match (e, m.get(2)) {
                (Some(e), Some(c)) => {
                    let s = c.as_str();
                    self.closure(e, &s[1..s.len() - 1])
                }
                (Some(e), None) => self.expr(e),
                (None, _) => m[0].to_string(),
            }
        })
        .to_string()
    }
    fn macro_rule(&self, mac: &syn::Macro) -> Option<String> {
        let name = mac.path.segments.last()?.ident.to_string();
        for r in self.rules("macro") {
            if r.pat == name {
                self.note(format!("macro {name}!(..) -> `{}`", r.rep));
                return Some(r.rep.clone());
            }
        }
        None
    }
}
fn norm(s: &str) -> String {
    s.split_whitespace().collect::<String>()
}
fn collect_lets(e: &'static syn::Expr, out: &mut Vec<&'static syn::Expr>) {
    if let syn::Expr::Binary(b) = e {
        if matches!(b.op, syn::BinOp::And(_)) {
            collect_lets(&b.left, out);
            collect_lets(&b.right, out);
            return;
        }
    }
    out.push(e);
}
fn st<T: ?Sized>(t: &T) -> &'static T {
    // all nodes live in leaked files
    unsafe { &*(t as *const T) }
}

impl<'a, 'b> R<'a, 'b> {
    fn loop_common(&mut self, e: &'static syn::Expr, body: &'static syn::Block, for_iter: Option<&'static syn::Expr>) {
        let n = self.c.loopn.get();
        self.c.loopn.set(n + 1);
        if !self.c.verus {
            return;
        }
        let Some(l) = self.c.spec.loops.get(&n) else { return };
        let ob = br(&body.brace_token.span.open());
        let cb = br(&body.brace_token.span.close());
        if !l.before.is_empty() {
            self.ins(br(e).start, &l.before);
        }
        if let (Some(it), Some(fe)) = (&l.iter, for_iter) {
            self.ins(br(fe).start, &format!("{it}: "));
        }
        self.ins(ob.start, &format!("\n{}\n", l.inv));
        if !l.start.is_empty() {
            self.ins(ob.end, &format!("\n{}\n", l.start));
        }
        if !l.inv.contains("@noprobe") {
            self.ins(ob.end, &format!("/*@PROBE-LOOP {n}@*/"));
        }
        if !l.end.is_empty() {
            // must not follow a tail expression without `;`
            if let Some(syn::Stmt::Expr(last, None)) = body.stmts.last() {
                if !matches!(last, syn::Expr::If(_) | syn::Expr::Match(_) | syn::Expr::While(_) | syn::Expr::ForLoop(_) | syn::Expr::Loop(_) | syn::Expr::Block(_)) {
                    self.ins(br(last).end, ";");
                }
            }
            self.ins(cb.start, &format!("\n{}\n", l.end));
        }
        if !l.after.is_empty() {
            self.ins(br(e).end, &l.after);
        }
    }
    fn ins(&mut self, p: usize, t: &str) {
        self.eds.push(Ed { s: p, e: p, t: t.to_string() });
    }
    fn rep(&mut self, r: std::ops::Range<usize>, t: String) {
        self.eds.push(Ed { s: r.start, e: r.end, t });
    }
}
impl<'a, 'b> Visit<'static> for R<'a, 'b> {
    fn visit_attribute(&mut self, a: &'static syn::Attribute) {
        self.rep(br(a), String::new());
    }
    fn visit_stmt(&mut self, s: &'static syn::Stmt) {
        let txt = norm(&self.c.f.text[br(s)]);
        if let syn::Stmt::Macro(m) = s {
            let name = m.mac.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
            if LOG_MACROS.contains(&name.as_str()) {
                self.c.note(format!("logging statement {name}!(..) dropped"));
                self.rep(br(s), String::new());
                return;
            }
            if let Some(t) = self.c.macro_rule(&m.mac) {
                self.rep(br(s), t);
                return;
            }
        }
        for (re, t) in &self.c.spec.before {
            if self.c.verus && Regex::new(re).is_ok_and(|r| r.is_match(&txt)) {
                let t = format!("{t}\n");
                self.ins(br(s).start, &t);
            }
        }
        for (re, t) in &self.c.spec.after {
            if self.c.verus && Regex::new(re).is_ok_and(|r| r.is_match(&txt)) {
                let t = format!("\n{t}\n");
                self.ins(br(s).end, &t);
            }
        }
        syn::visit::visit_stmt(self, s);
    }
    fn visit_expr(&mut self, e: &'static syn::Expr) {
        let c = self.c;
        match e {
            syn::Expr::Await(a) if c.verus || !c.ov.native_async => {
                c.note("`.await` removed (sequential reading of the async body)".into());
                let t = c.expr(&a.base);
                self.rep(br(e), t);
                return;
            }
            syn::Expr::Macro(m) => {
                let name = m.mac.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
                if let Some(t) = c.macro_rule(&m.mac) {
                    self.rep(br(e), t);
                    return;
                }
                if LOG_MACROS.contains(&name.as_str()) {
                    c.note(format!("logging statement {name}!(..) dropped"));
                    self.rep(br(e), "()".into());
                    return;
                }
                // `matches!(e, pat)` -> match
                if name == "matches" && c.verus {
                    if let Ok((ex, pat, guard)) = m.mac.parse_body_with(|input: syn::parse::ParseStream| {
                        let ex: syn::Expr = input.parse()?;
                        input.parse::<syn::Token![,]>()?;
                        let p = syn::Pat::parse_multi_with_leading_vert(input)?;
                        let g = if input.peek(syn::Token![if]) {
                            input.parse::<syn::Token![if]>()?;
                            Some(input.parse::<syn::Expr>()?)
                        } else {
                            None
                        };
                        let _: Option<syn::Token![,]> = input.parse()?;
                        Ok((ex, p, g))
                    }) {
                        let ex: &'static syn::Expr = Box::leak(Box::new(ex));
                        let pt = c.f.text[br(&pat)].to_string();
                        let g = match guard {
                            Some(g) => {
                                let g: &'static syn::Expr = Box::leak(Box::new(g));
                                format!(" if {}", c.expr(g))
                            }
                            None => String::new(),
                        };
                        let t = format!("(match {} {{ {pt}{g} => true, _ => false }})", c.expr(ex));
                        self.rep(br(e), t);
                        return;
                    }
                }
                if name == "vec" {
                    let parser = syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated;
                    if let Ok(es) = m.mac.parse_body_with(parser) {
                        for x in es {
                            let x: &'static syn::Expr = Box::leak(Box::new(x));
                            self.visit_expr(x);
                        }
                    }
                    return;
                }
                return;
            }
            syn::Expr::Call(call) => {
                let fp = norm(&c.f.text[br(&*call.func)]);
                for r in c.rules("call") {
                    if r.pat == fp || (r.pat.ends_with("::*") && fp.starts_with(&r.pat[..r.pat.len() - 1])) {
                        c.note(format!("call {fp}(..) -> `{}`", r.rep));
                        let args: Vec<&'static syn::Expr> = call.args.iter().map(st).collect();
                        let t = c.subst(&r.rep, None, &args);
                        self.rep(br(e), t);
                        return;
                    }
                }
            }
            syn::Expr::MethodCall(_) => {
                for r in c.rules("chain") {
                    let names: Vec<&str> = r.pat.split('.').collect();
                    let mut cur: &'static syn::Expr = st(e);
                    let mut args: Vec<Vec<&'static syn::Expr>> = vec![];
                    let mut ok = true;
                    for nm in names.iter().rev() {
                        let (nm, nargs) = match nm.split_once('/') {
                            Some((a, b)) => (a, b.parse::<usize>().ok()),
                            None => (*nm, None),
                        };
                        match cur {
                            syn::Expr::MethodCall(m) if m.method == nm && nargs.is_none_or(|n| n == m.args.len()) => {
                                args.push(m.args.iter().map(st).collect());
                                cur = st(&*m.receiver);
                            }
                            _ => {
                                ok = false;
                                break;
                            }
                        }
                    }
                    if !ok {
                        continue;
                    }
                    args.reverse();
                    let flat: Vec<&'static syn::Expr> = args.into_iter().flatten().collect();
                    c.note(format!("method chain .{}(..) -> `{}`", r.pat, r.rep));
                    let t = c.subst(&r.rep, Some(cur), &flat);
                    self.rep(br(e), t);
                    return;
                }
            }
            syn::Expr::If(i) if c.verus => {
                let mut parts = vec![];
                collect_lets(&i.cond, &mut parts);
                if parts.len() > 1 && parts.iter().any(|p| matches!(p, syn::Expr::Let(_))) {
                    c.note("let-chain `if let P = e && c {A} else {B}` desugared (verifier text only)".into());
                    let then = c.stmts(&i.then_branch);
                    let els = i.else_branch.as_ref().map(|(_, x)| c.expr(x));
                    let mut t = then;
                    // build inside out; with an else branch a flag-free desugaring needs the branch at each level
                    for p in parts.iter().rev() {
                        let el = match &els {
                            Some(x) => format!(" else {}", if x.trim_start().starts_with("if ") || x.trim_start().starts_with('{') { x.clone() } else { format!("{{ {x} }}") }),
                            None => String::new(),
                        };
                        t = match p {
                            syn::Expr::Let(l) => format!("{{ if let {} = {} {}{} }}", &c.f.text[br(&*l.pat)], c.expr(&l.expr), t, el),
                            o => format!("{{ if {} {}{} }}", c.expr(o), t, el),
                        };
                    }
                    self.rep(br(e), t);
                    return;
                }
            }
            syn::Expr::Match(m)
                if c.verus
                    && m.arms.iter().any(|a| a.guard.is_some())
                    && matches!(&*m.expr, syn::Expr::Path(p) if p.path.get_ident().is_some_and(|i| c.shared.contains(&i.to_string()))) =>
            {
                // the verifier loses the final value of `&mut` parameters after a guarded match
                c.note("match with guards in a function with a `&mut` parameter: the arm is chosen first, then taken (verifier text only)".into());
                let scrut = c.f.text[br(&*m.expr)].to_string();
                let mut sel = String::new();
                let mut taken = String::new();
                for (k, a) in m.arms.iter().enumerate() {
                    let pt = &c.f.text[br(&a.pat)];
                    let g = a.guard.as_ref().map(|g| format!(" if {}", c.expr(st(&*g.1)))).unwrap_or_default();
                    sel.push_str(&format!("{pt}{g} => {k}, "));
                }
                for (k, a) in m.arms.iter().enumerate() {
                    let pt = &c.f.text[br(&a.pat)];
                    let b = c.expr(st(&*a.body));
                    let b = if matches!(a.pat, syn::Pat::Wild(_)) { format!("{{ {b} }}") } else { format!("{{ match {scrut} {{ {pt} => {b}, _ => vstd::pervasive::unreached() }} }}") };
                    if k + 1 == m.arms.len() {
                        taken.push_str(&b);
                    } else {
                        taken.push_str(&format!("if vx_arm == {k} {b} else "));
                    }
                }
                self.rep(br(e), format!("{{ let vx_arm: u8 = match {scrut} {{ {sel} }}; {taken} }}"));
                return;
            }
            syn::Expr::While(w) => {
                let old = c.cont.replace(None);
                self.loop_common(e, st(&w.body), None);
                syn::visit::visit_expr(self, e);
                c.cont.set(old);
                return;
            }
            syn::Expr::ForLoop(w) => {
                let body: &'static syn::Block = st(&w.body);
                if c.verus && for_continues_ok(body) {
                    // `continue` in a `for` body: a flag, and the rest of the body under `if !flag`
                    c.note("`continue` in a `for` body -> flag + `if !flag { rest }` (verifier text only)".into());
                    let mut closers = String::new();
                    let mut plan = vec![];
                    for s in &body.stmts {
                        if n_continues_stmt(s) > 0 {
                            closers.push('}');
                        }
                        plan.push(s);
                    }
                    let cb = br(&body.brace_token.span.close());
                    self.ins(cb.start, &closers);
                    self.loop_common(e, body, Some(st(&*w.expr)));
                    self.visit_expr(&w.expr);
                    for s in plan {
                        if n_continues_stmt(s) == 0 {
                            self.visit_stmt(s);
                            continue;
                        }
                        if let syn::Stmt::Local(l) = s {
                            let i = l.init.as_ref().unwrap();
                            let r = br(s);
                            let t = format!("if let {} = {} {{", &c.f.text[br(&l.pat)], c.expr(&i.expr));
                            self.rep(r, t);
                            continue;
                        }
                        let k = c.contn.get();
                        c.contn.set(k + 1);
                        let old = c.cont.replace(Some(k));
                        self.ins(br(s).start, &format!("let mut vx_c{k} = false; "));
                        self.visit_stmt(s);
                        self.ins(br(s).end, &format!(" if !vx_c{k} {{"));
                        c.cont.set(old);
                    }
                    return;
                }
                let old = c.cont.replace(None);
                self.loop_common(e, body, Some(st(&*w.expr)));
                syn::visit::visit_expr(self, e);
                c.cont.set(old);
                return;
            }
            syn::Expr::Continue(_) => {
                if let Some(k) = c.cont.get() {
                    self.rep(br(e), format!("{{ vx_c{k} = true; }}"));
                    return;
                }
            }
            syn::Expr::Loop(w) => {
                let old = c.cont.replace(None);
                self.loop_common(e, st(&w.body), None);
                syn::visit::visit_expr(self, e);
                c.cont.set(old);
                return;
            }
            _ => {}
        }
        syn::visit::visit_expr(self, e);
    }
}

// `continue`s that belong to the enclosing loop
struct Conts(usize);
impl<'ast> Visit<'ast> for Conts {
    fn visit_expr(&mut self, e: &'ast syn::Expr) {
        match e {
            syn::Expr::Continue(c) => self.0 += if c.label.is_some() { 1000 } else { 1 },
            syn::Expr::ForLoop(_) | syn::Expr::While(_) | syn::Expr::Loop(_) | syn::Expr::Closure(_) => {}
            _ => syn::visit::visit_expr(self, e),
        }
    }
    fn visit_item(&mut self, _: &'ast syn::Item) {}
}
fn n_continues_stmt(s: &syn::Stmt) -> usize {
    let mut c = Conts(0);
    c.visit_stmt(s);
    c.0
}
/// The number of `continue`s of `e` that are the last thing `e` does.
fn tail_continues(e: &syn::Expr) -> usize {
    match e {
        syn::Expr::Continue(_) => 1,
        syn::Expr::Block(b) => tail_block(&b.block),
        syn::Expr::If(i) => tail_block(&i.then_branch) + i.else_branch.as_ref().map_or(0, |x| tail_continues(&x.1)),
        syn::Expr::Match(m) => m.arms.iter().map(|a| tail_continues(&a.body)).sum(),
        _ => 0,
    }
}
fn tail_block(b: &syn::Block) -> usize {
    match b.stmts.last() {
        Some(syn::Stmt::Expr(e, _)) => tail_continues(e),
        _ => 0,
    }
}
fn for_continues_ok(b: &syn::Block) -> bool {
    let mut any = false;
    for s in &b.stmts {
        let n = n_continues_stmt(s);
        if n == 0 {
            continue;
        }
        any = true;
        let ok = match s {
            syn::Stmt::Expr(e, _) => tail_continues(e) == n,
            syn::Stmt::Local(l) => l.init.as_ref().and_then(|i| i.diverge.as_ref()).is_some_and(|d| match &*d.1 {
                syn::Expr::Block(b) => n == 1 && tail_block(&b.block) == 1 && b.block.stmts.iter().all(|s| matches!(s, syn::Stmt::Macro(m) if m.mac.path.segments.last().is_some_and(|x| LOG_MACROS.contains(&x.ident.to_string().as_str()))) || n_continues_stmt(s) == 1),
                _ => false,
            }),
            _ => false,
        };
        if !ok {
            return false;
        }
    }
    any
}

fn strip_vis_item(text: &str) -> String {
    let re = Regex::new(r"\bpub\s*(\([^)]*\))?\s+").unwrap();
    re.replace_all(text, "").to_string()
}
fn subs(c: &Ctx, mut t: String) -> String {
    for r in c.rules("sub") {
        let re = Regex::new(&r.pat).expect("regex");
        if re.is_match(&t) {
            c.note(format!("text `{}` -> `{}`", r.pat, r.rep));
            t = re.replace_all(&t, r.rep.as_str()).to_string();
        }
    }
    if c.verus {
        for (a, b) in &c.spec.gsub {
            let re = Regex::new(a).expect("regex");
            if re.is_match(&t) {
                c.note(format!("text `{a}` -> `{b}` (in {})", c.spec.path));
                t = re.replace_all(&t, b.as_str()).to_string();
            }
        }
    }
    t
}

fn shared_params(sig: &syn::Signature) -> BTreeSet<String> {
    let mut v = BTreeSet::new();
    let mut any = false;
    for a in &sig.inputs {
        if let syn::FnArg::Typed(t) = a {
            if let syn::Type::Reference(r) = &*t.ty {
                if r.mutability.is_some() {
                    any = true;
                } else if let syn::Pat::Ident(i) = &*t.pat {
                    v.insert(i.ident.to_string());
                }
            }
        }
    }
    if any { v } else { BTreeSet::new() }
}

struct Emitted {
    text: String,
    loops: usize,
    notes: BTreeSet<String>,
}

fn emit_fn(ov: &Overlay, en: &FnEnt, sp: &FnSpec, verus: bool) -> Emitted {
    let c = Ctx {
        ov,
        f: en.file,
        verus,
        spec: sp,
        loopn: Cell::new(0),
        notes: RefCell::new(BTreeSet::new()),
        inline_depth: Cell::new(0), cont: Cell::new(None), contn: Cell::new(0),
        shared: shared_params(en.sig),
    };
    let _ = &c.inline_depth;
    if !en.attrs.is_empty() {
        c.note("attributes and doc comments dropped".into());
    }
    let f = en.file;
    let sig = en.sig;
    let mut r = R { c: &c, eds: vec![] };
    for s in &en.block.stmts {
        r.visit_stmt(s);
    }
    let ob = br(&en.block.brace_token.span.open());
    if verus {
        r.eds.insert(0, Ed { s: ob.end, e: ob.end, t: format!("/*@PROBE-FN@*/\n{}\n", sp.body_start) });
        if !sp.tail.is_empty() {
            let p = match en.block.stmts.last() {
                Some(syn::Stmt::Expr(e, None)) => br(e).start,
                Some(syn::Stmt::Macro(m)) if m.semi_token.is_none() => br(m).start,
                _ => br(&en.block.brace_token.span.close()).start,
            };
            r.eds.push(Ed { s: p, e: p, t: format!("\n{}\n", sp.tail) });
        }
    }
    let body = c.apply(br(en.block), r.eds);
    let loops = c.loopn.get();

    let name = sp.rename.clone().unwrap_or_else(|| en.name.clone());
    let gens = gen_text(&sig.generics, f);
    let ps = br(&sig.paren_token.span.open()).end;
    let pe = br(&sig.paren_token.span.close()).start;
    let mut inputs = f.text[ps..pe].to_string();
    for i in &sig.inputs {
        let at = match i {
            syn::FnArg::Receiver(x) => &x.attrs,
            syn::FnArg::Typed(x) => &x.attrs,
        };
        for a in at {
            inputs = inputs.replace(&f.text[br(a)], "");
        }
    }
    if verus {
        // `mut x: T` parameters: rebind (verifier text only)
    }
    let ret = match &sig.output {
        syn::ReturnType::Default => None,
        syn::ReturnType::Type(_, t) => Some(f.text[br(&**t)].to_string()),
    };
    let wh = sig.generics.where_clause.as_ref().map(|w| f.text[br(w)].to_string()).unwrap_or_default();
    let is_async = if !verus && ov.native_async && sig.asyncness.is_some() { "async " } else { "" };
    if sig.asyncness.is_some() && is_async.is_empty() {
        c.note("`async` removed".into());
    }
    if sig.unsafety.is_some() {
        c.note("`unsafe` removed from signature".into());
    }
    let rett = match (&ret, &sp.ret, verus) {
        (Some(t), Some(n), true) => format!(" -> ({n}: {t})"),
        (Some(t), _, _) => format!(" -> {t}"),
        (None, _, _) => String::new(),
    };
    let mut head = format!("{is_async}fn {name}{gens}({inputs}){rett} {wh}");
    if verus {
        if let Some(s) = &sp.sig {
            head = s.clone();
            c.note(format!("signature of {} replaced by `{s}`", sp.path));
        }
    } else if let Some(s) = &sp.native_sig {
        head = s.clone();
        c.note(format!("signature of {} replaced by `{s}`", sp.path));
    }
    let mut t = format!("{head}\n{}{body}\n", if verus { sp.spec.as_str() } else { "" });
    for (k, v) in &en.assoc {
        t = t.replace(&format!("Self::{k}"), v);
    }
    if sp.free {
        if let Some(st) = &en.self_base {
            t = Regex::new(r"\bSelf\b").unwrap().replace_all(&t, st.as_str()).to_string();
        }
    }
    if verus && !sp.attrs.is_empty() {
        t = format!("{}\n{t}", sp.attrs);
    }
    if let (Some(s), false) = (&en.self_ty, sp.free) {
        if en.trait_.is_some() {
            c.note("trait method emitted as an inherent method".into());
        }
        t = format!("impl{} {} {} {{\n{t}}}\n", en.impl_gen, s, en.impl_where);
    }
    let t = subs(&c, t);
    Emitted { text: t, loops, notes: c.notes.into_inner() }
}

fn emit_type(ov: &Overlay, it: &'static syn::Item, f: &'static SrcFile, ts: &TypeSpec, verus: bool, notes: &mut BTreeSet<String>) -> String {
    struct A(Vec<std::ops::Range<usize>>);
    impl Visit<'static> for A {
        fn visit_attribute(&mut self, a: &'static syn::Attribute) {
            self.0.push(br(a));
        }
    }
    let mut a = A(vec![]);
    a.visit_item(it);
    let mut rm = a.0;
    let fields: Option<&'static syn::FieldsNamed> = match it {
        syn::Item::Struct(s) => match &s.fields {
            syn::Fields::Named(n) => Some(n),
            _ => None,
        },
        _ => None,
    };
    if let Some(n) = fields {
        let cnt = n.named.len();
        for (i, fl) in n.named.iter().enumerate() {
            let nm = fl.ident.as_ref().unwrap().to_string();
            if ts.drop.contains(&nm) || (!ts.keep.is_empty() && !ts.keep.contains(&nm)) {
                notes.insert(format!("field {}.{nm} dropped", ts.name));
                let r = br(fl);
                let mut e = r.end;
                let b = f.text.as_bytes();
                let mut k = e;
                while k < b.len() && (b[k] as char).is_whitespace() {
                    k += 1;
                }
                if k < b.len() && b[k] == b',' {
                    e = k + 1;
                }
                let _ = (i, cnt);
                rm.push(r.start..e);
            }
        }
    }
    rm.sort_by_key(|r| (r.start, std::cmp::Reverse(r.end)));
    let rr = br(it);
    let mut out = String::new();
    let mut p = rr.start;
    for r in rm {
        if r.start < p {
            continue;
        }
        out.push_str(&f.text[p..r.start]);
        p = r.end;
    }
    out.push_str(&f.text[p..rr.end]);
    let out = strip_vis_item(&out);
    let d = if verus { &ts.vderive } else { &ts.nderive };
    let d = if matches!(it, syn::Item::Type(_)) { "" } else { d.as_str() };
    let t = if d.is_empty() { format!("{out}\n") } else { format!("#[derive({d})]\n{out}\n") };
    let c = Ctx { ov, f, verus, spec: &FnSpec::default(), loopn: Cell::new(0), notes: RefCell::new(BTreeSet::new()), inline_depth: Cell::new(0), cont: Cell::new(None), contn: Cell::new(0), shared: BTreeSet::new() };
    let t = subs(&c, t);
    notes.extend(c.notes.into_inner());
    t
}

fn find_fn(ix: &Index, path: &str) -> Option<FnEnt> {
    let (ty, name) = match path.rsplit_once("::") {
        Some((a, b)) => (Some(a), b),
        None => (None, path),
    };
    let (ty, tr) = match ty {
        Some(t) => match t.split_once('@') {
            Some((a, b)) => (Some(a), Some(b)),
            None => (Some(t), None),
        },
        None => (None, None),
    };
    let mut v: Vec<&FnEnt> = ix
        .fns
        .iter()
        .filter(|f| f.name == name && f.self_base.as_deref() == ty && (tr.is_none() || f.trait_.as_deref() == tr))
        .collect();
    v.sort_by_key(|f| f.trait_.is_some());
    v.first().map(|f| (*f).clone())
}

struct Refs {
    fns: BTreeSet<String>,
    methods: BTreeSet<String>,
    assoc: BTreeSet<(String, String)>,
    idents: BTreeSet<String>,
}
impl<'ast> Visit<'ast> for Refs {
    fn visit_path(&mut self, p: &'ast syn::Path) {
        let s: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        if s.len() == 1 {
            self.fns.insert(s[0].clone());
        } else if s.len() >= 2 {
            self.assoc.insert((s[s.len() - 2].clone(), s[s.len() - 1].clone()));
        }
        for x in &s {
            self.idents.insert(x.clone());
        }
        syn::visit::visit_path(self, p);
    }
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        self.methods.insert(m.method.to_string());
        syn::visit::visit_expr_method_call(self, m);
    }
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        fn toks(t: proc_macro2::TokenStream, r: &mut Refs) {
            let v: Vec<proc_macro2::TokenTree> = t.into_iter().collect();
            for (i, x) in v.iter().enumerate() {
                match x {
                    proc_macro2::TokenTree::Ident(id) => {
                        r.idents.insert(id.to_string());
                        if matches!(v.get(i + 1), Some(proc_macro2::TokenTree::Group(_))) {
                            r.fns.insert(id.to_string());
                            r.methods.insert(id.to_string());
                        }
                    }
                    proc_macro2::TokenTree::Group(g) => toks(g.stream(), r),
                    _ => {}
                }
            }
        }
        let n = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        if n == "matches" || n == "vec" || n == "assert" || n == "debug_assert" {
            toks(m.tokens.clone(), self);
        }
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn run(repo: PathBuf, ov: &Overlay) -> Out {
    let db = Db {
        hoist: ov.hoist.clone(),
        repo,
        files: Default::default(),
        ix: Default::default(),
        missing: Default::default(),
        crate_files: Default::default(),
    };
    let mut notes: BTreeSet<String> = BTreeSet::new();
    if !ov.hoist.is_empty() {
        notes.insert(format!("functions nested in {} moved to module level as outer__inner", ov.hoist.join(", ")));
    }
    let mut items: BTreeMap<String, (FnEnt, FnSpec, bool)> = BTreeMap::new();
    let mut order: Vec<String> = vec![];
    let mut files: BTreeSet<String> = BTreeSet::new();

    for sp in &ov.fns {
        files.insert(sp.file.clone());
        let mut found = db.index(&sp.file).and_then(|ix| find_fn(&ix, &sp.path));
        if found.is_none() {
            // moved within the crate?
            let name = sp.path.rsplit("::").next().unwrap_or("");
            let mut cands = vec![];
            for g in db.grep(&sp.file, &format!("fn {name}")) {
                if let Some(ix) = db.index(&g) {
                    if let Some(e) = find_fn(&ix, &sp.path) {
                        cands.push(e);
                    }
                }
            }
            if cands.len() == 1 {
                found = cands.pop();
                notes.insert(format!("{} found in {}", sp.path, found.as_ref().unwrap().file.rel));
            }
        }
        match found {
            Some(e) => {
                let k = format!("{}#{}", e.file.rel, sp.path);
                order.push(k.clone());
                items.insert(k, (e, sp.clone(), false));
            }
            None => db.missing.borrow_mut().push(format!("fn {} in {}", sp.path, sp.file)),
        }
    }
    // types and constants named by the overlay
    let mut types: Vec<(&'static syn::Item, &'static SrcFile, TypeSpec)> = vec![];
    let mut have_types: BTreeSet<String> = BTreeSet::new();
    for ts in &ov.types {
        let mut hit = db.index(&ts.file).and_then(|ix| ix.types.iter().find(|t| t.0 == ts.name).map(|t| (t.1, t.2)));
        if hit.is_none() {
            for g in db.grep(&ts.file, &ts.name) {
                if let Some(ix) = db.index(&g) {
                    if let Some(t) = ix.types.iter().find(|t| t.0 == ts.name) {
                        hit = Some((t.1, t.2));
                        break;
                    }
                }
            }
        }
        match hit {
            Some((i, f)) => {
                types.push((i, f, ts.clone()));
                have_types.insert(ts.name.clone());
            }
            None => db.missing.borrow_mut().push(format!("type {} in {}", ts.name, ts.file)),
        }
    }
    let mut consts: Vec<(String, &'static syn::Item, &'static SrcFile)> = vec![];
    let mut have_consts: BTreeSet<String> = BTreeSet::new();
    for (cn, cf) in &ov.consts {
        let mut hit = db.index(cf).and_then(|ix| ix.consts.iter().find(|t| &t.0 == cn).map(|t| (t.1, t.2)));
        if hit.is_none() {
            for g in db.grep(cf, cn) {
                if let Some(ix) = db.index(&g) {
                    if let Some(t) = ix.consts.iter().find(|t| &t.0 == cn) {
                        hit = Some((t.1, t.2));
                        break;
                    }
                }
            }
        }
        match hit {
            Some((i, f)) => {
                consts.push((cn.clone(), i, f));
                have_consts.insert(cn.clone());
            }
            None => db.missing.borrow_mut().push(format!("const {cn} in {cf}")),
        }
    }
    // transitive same-crate helpers
    let stub: BTreeSet<&str> = ov.stubs.iter().map(|s| s.as_str()).collect();
    let mut work: Vec<String> = order.clone();
    let mut auto_order: Vec<String> = vec![];
    let mut auto_consts: Vec<(String, &'static syn::Item, &'static SrcFile)> = vec![];
    let mut scan_expr_consts: Vec<(&'static syn::Item, &'static SrcFile)> = consts.iter().map(|c| (c.1, c.2)).collect();
    let covered_names = |items: &BTreeMap<String, (FnEnt, FnSpec, bool)>, name: &str, base: Option<&str>| {
        items.values().any(|(e, _, _)| e.name == name && e.self_base.as_deref() == base)
    };
    loop {
        let (refs, rel, cur_base) = if let Some(k) = work.pop() {
            let (e, sp, _) = items[&k].clone();
            let mut r = Refs { fns: Default::default(), methods: Default::default(), assoc: Default::default(), idents: Default::default() };
            r.visit_block(e.block);
            r.visit_signature(e.sig);
            let _ = sp;
            (r, e.file.rel.clone(), e.self_base.clone())
        } else if let Some((i, f)) = scan_expr_consts.pop() {
            let mut r = Refs { fns: Default::default(), methods: Default::default(), assoc: Default::default(), idents: Default::default() };
            r.visit_item(i);
            (r, f.rel.clone(), None)
        } else {
            break;
        };
        let Some(ix) = db.index(&rel) else { continue };
        let mut want: Vec<FnEnt> = vec![];
        for n in &refs.fns {
            if stub.contains(n.as_str()) || covered_names(&items, n, None) {
                continue;
            }
            if let Some(e) = ix.fns.iter().find(|f| f.name == *n && f.self_base.is_none()) {
                want.push(e.clone());
            } else if n.chars().next().is_some_and(|c| c.is_lowercase()) && n.len() > 3 && n != "self" {
                // imported from elsewhere in the crate: only when a `use` in this file names it
                let src = &db.file(&rel).unwrap().text;
                let imp = Regex::new(&format!(r"(?s)\buse\b[^;]*\b{}\b[^;]*;", regex::escape(n))).unwrap();
                if imp.is_match(src) {
                    let mut c = vec![];
                    for g in db.grep(&rel, &format!("fn {n}")) {
                        if let Some(ix2) = db.index(&g) {
                            if let Some(e) = ix2.fns.iter().find(|f| f.name == *n && f.self_base.is_none()) {
                                c.push(e.clone());
                            }
                        }
                    }
                    if c.len() == 1 {
                        want.push(c.pop().unwrap());
                    }
                }
            }
        }
        for (t, n) in &refs.assoc {
            let tt = if t == "Self" { cur_base.clone().unwrap_or_default() } else { t.clone() };
            let full = format!("{tt}::{n}");
            if stub.contains(full.as_str()) || stub.contains(format!("{tt}::*").as_str()) || covered_names(&items, n, Some(&tt)) {
                continue;
            }
            if let Some(e) = find_fn(&ix, &full) {
                want.push(e);
            } else if t.chars().next().is_some_and(|c| c.is_lowercase()) && !stub.contains(n.as_str()) && !covered_names(&items, n, None) {
                if let Some(e) = ix.fns.iter().find(|f| f.name == *n && f.self_base.is_none()) {
                    if t == "self" || t == "crate" || t == "super" {
                        want.push(e.clone());
                    }
                }
            }
        }
        for n in &refs.methods {
            for e in ix.fns.iter().filter(|f| f.name == *n && f.self_base.is_some() && f.trait_.is_none()) {
                let b = e.self_base.clone().unwrap();
                let full = format!("{b}::{n}");
                if stub.contains(full.as_str()) || stub.contains(format!("{b}::*").as_str()) || covered_names(&items, n, Some(&b)) {
                    continue;
                }
                if have_types.contains(&b) || cur_base.as_deref() == Some(&b) {
                    want.push(e.clone());
                }
            }
        }
        for n in &refs.idents {
            if stub.contains(n.as_str()) {
                continue;
            }
            if !have_consts.contains(n) && n.chars().all(|c| c.is_uppercase() || c == '_' || c.is_ascii_digit()) && n.len() > 1 {
                let mut hit = ix.consts.iter().find(|c| &c.0 == n).cloned();
                if hit.is_none() {
                    let src = &db.file(&rel).unwrap().text;
                    let imp = Regex::new(&format!(r"(?s)\buse\b[^;]*\b{}\b[^;]*;", regex::escape(n))).unwrap();
                    if imp.is_match(src) {
                        for g in db.grep(&rel, &format!("{n}:")) {
                            if let Some(ix2) = db.index(&g) {
                                if let Some(c) = ix2.consts.iter().find(|c| &c.0 == n) {
                                    hit = Some(c.clone());
                                    break;
                                }
                            }
                        }
                    }
                }
                if let Some(c) = hit {
                    have_consts.insert(n.clone());
                    scan_expr_consts.push((c.1, c.2));
                    auto_consts.push(c);
                }
            }
            if !have_types.contains(n) {
                if let Some(t) = ix.types.iter().find(|t| &t.0 == n) {
                    have_types.insert(n.clone());
                    let ts = TypeSpec { name: n.clone(), file: rel.clone(), vderive: String::new(), nderive: "Clone, Debug".into(), drop: vec![], keep: vec![] };
                    notes.insert(format!("type {n} included automatically"));
                    types.push((t.1, t.2, ts));
                }
            }
        }
        for e in want {
            let p = match &e.self_base {
                Some(b) => format!("{b}::{}", e.name),
                None => e.name.clone(),
            };
            let k = format!("{}#{}", e.file.rel, p);
            if items.contains_key(&k) || items.values().any(|(x, _, _)| x.span == e.span && x.file.rel == e.file.rel) {
                continue;
            }
            let sp = FnSpec { path: p.clone(), file: e.file.rel.clone(), ..Default::default() };
            items.insert(k.clone(), (e, sp, true));
            auto_order.push(k.clone());
            work.push(k);
        }
    }
    let mut verus = String::new();
    let mut native = String::new();
    for (i, f, ts) in &types {
        verus.push_str(&emit_type(ov, i, f, ts, true, &mut notes));
        native.push_str(&emit_type(ov, i, f, ts, false, &mut notes));
        notes.insert("visibility and attributes (derives, docs) of extracted types dropped".into());
    }
    consts.extend(auto_consts);
    for (_, i, f) in &consts {
        let ts = TypeSpec { name: String::new(), file: String::new(), vderive: String::new(), nderive: String::new(), drop: vec![], keep: vec![] };
        verus.push_str(&emit_type(ov, i, f, &ts, true, &mut notes));
        native.push_str(&emit_type(ov, i, f, &ts, false, &mut notes));
    }
    let mut rep = String::from("{\n \"functions\": [\n");
    let all: Vec<String> = order.iter().chain(auto_order.iter()).cloned().collect();
    let mut first = true;
    for k in &all {
        let (e, sp, auto) = &items[k];
        let ev = emit_fn(ov, e, sp, true);
        let en = emit_fn(ov, e, sp, false);
        notes.extend(ev.notes);
        notes.extend(en.notes);
        if !sp.noverus {
            verus.push_str(&format!("//@FN-BEGIN {}\n{}//@FN-END {}\n", sp.path, ev.text, sp.path));
        }
        if !sp.nonative {
            native.push_str(&en.text);
        }
        if !first {
            rep.push_str(",\n");
        }
        first = false;
        rep.push_str(&format!(
            "  {{\"fn\": {}, \"file\": {}, \"line\": {}, \"loops\": {}, \"loops_expected\": {}, \"contract\": {}, \"auto\": {}, \"noverus\": {}, \"source\": {}}}",
            js(&sp.path),
            js(&e.file.rel),
            e.line,
            ev.loops,
            match sp.nloops {
                Some(n) => n.to_string(),
                None => sp.loops.keys().max().map(|m| m + 1).unwrap_or(0).to_string(),
            },
            !sp.spec.trim().is_empty(),
            auto,
            sp.noverus,
            js(&e.file.text[e.span.clone()])
        ));
    }
    rep.push_str("\n ],\n \"transformations\": [\n");
    rep.push_str(&notes.iter().map(|n| format!("  {}", js(n))).collect::<Vec<_>>().join(",\n"));
    rep.push_str("\n ],\n \"missing\": [");
    rep.push_str(&db.missing.borrow().iter().map(|n| js(n)).collect::<Vec<_>>().join(", "));
    rep.push_str("]\n}\n");
    let missing = db.missing.into_inner();
    Out { verus, native, report: rep, missing }
}
