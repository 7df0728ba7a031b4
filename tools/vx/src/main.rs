//! Dumps the syntax tree of Rust source files as JSON with byte spans.
//!
//! The dump carries no code of its own: every node is a kind, a byte range of
//! the file and named children, so that the driver can copy the original text
//! verbatim and replace only the ranges its rewrite rules name.
use proc_macro2::{Span, TokenStream};
use serde_json::{json, Map, Value};
use std::fs;
use syn::parse::Parser;
use syn::punctuated::Punctuated;
use syn::spanned::Spanned;
use syn::*;

fn rng(s: Span) -> Value {
    let r = s.byte_range();
    json!([r.start, r.end])
}

fn node(kind: &str, s: Span, fields: Vec<(&str, Value)>) -> Value {
    let mut m = Map::new();
    m.insert("k".into(), json!(kind));
    m.insert("s".into(), rng(s));
    for (n, v) in fields {
        m.insert(n.into(), v);
    }
    Value::Object(m)
}

fn exprs<'a>(it: impl Iterator<Item = &'a Expr>) -> Value {
    Value::Array(it.map(expr).collect())
}

fn path_str(p: &Path) -> String {
    p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::")
}

fn pat(p: &Pat) -> Value {
    match p {
        Pat::Ident(i) => node("pident", p.span(), vec![
            ("name", json!(i.ident.to_string())),
            ("mut", json!(i.mutability.is_some())),
            ("ref", json!(i.by_ref.is_some())),
            ("sub", i.subpat.as_ref().map(|x| pat(&x.1)).unwrap_or(Value::Null)),
        ]),
        Pat::Tuple(t) => node("ptuple", p.span(), vec![("e", Value::Array(t.elems.iter().map(pat).collect()))]),
        Pat::Reference(r) => node("pref", p.span(), vec![("p", pat(&r.pat))]),
        Pat::Wild(_) => node("pwild", p.span(), vec![]),
        Pat::Type(t) => node("ptype", p.span(), vec![("p", pat(&t.pat)), ("ty", rng(t.ty.span()))]),
        Pat::Paren(t) => pat(&t.pat),
        _ => node("pother", p.span(), vec![]),
    }
}

fn mac(m: &Macro, s: Span, stmt: bool) -> Value {
    let mut fields = vec![
        ("path", json!(path_str(&m.path))),
        ("stmt", json!(stmt)),
        ("tok", rng(m.tokens.span())),
    ];
    let toks: TokenStream = m.tokens.clone();
    if m.tokens.is_empty() {
        fields.push(("args", json!([])));
        fields.push(("sep", json!("none")));
    } else if let Ok(a) = Punctuated::<Expr, Token![,]>::parse_terminated.parse2(toks.clone()) {
        fields.push(("args", exprs(a.iter())));
        fields.push(("sep", json!(",")));
    } else {
        let p = |input: syn::parse::ParseStream| -> Result<(Expr, Expr)> {
            let a: Expr = input.parse()?;
            input.parse::<Token![;]>()?;
            let b: Expr = input.parse()?;
            Ok((a, b))
        };
        if let Ok((a, b)) = p.parse2(toks) {
            fields.push(("args", json!([expr(&a), expr(&b)])));
            fields.push(("sep", json!(";")));
        }
    }
    node("macro", s, fields)
}

fn block(b: &Block) -> Value {
    node("block", b.span(), vec![("stmts", Value::Array(b.stmts.iter().map(stmt).collect()))])
}

fn stmt(s: &Stmt) -> Value {
    match s {
        Stmt::Local(l) => {
            let (pt, ty) = match &l.pat {
                Pat::Type(t) => (pat(&t.pat), rng(t.ty.span())),
                p => (pat(p), Value::Null),
            };
            let init = l.init.as_ref().map(|i| expr(&i.expr)).unwrap_or(Value::Null);
            let els = l.init.as_ref().and_then(|i| i.diverge.as_ref()).map(|d| expr(&d.1)).unwrap_or(Value::Null);
            node("let", s.span(), vec![("pat", pt), ("ty", ty), ("init", init), ("else", els)])
        }
        Stmt::Item(Item::Const(c)) => node("const", c.span(), vec![("name", json!(c.ident.to_string())), ("ty", rng(c.ty.span())), ("e", expr(&c.expr))]),
        Stmt::Item(i) => node("item", i.span(), vec![]),
        Stmt::Expr(e, semi) => {
            if let Expr::Macro(m) = e {
                return mac(&m.mac, s.span(), true);
            }
            node("stmt", s.span(), vec![("e", expr(e)), ("semi", json!(semi.is_some()))])
        }
        Stmt::Macro(m) => {
            let mut v = mac(&m.mac, s.span(), true);
            v["semi"] = json!(m.semi_token.is_some());
            v
        }
    }
}

fn opt(e: &Option<Box<Expr>>) -> Value {
    e.as_ref().map(|e| expr(e)).unwrap_or(Value::Null)
}

fn expr(e: &Expr) -> Value {
    let s = e.span();
    match e {
        Expr::Array(a) => node("array", s, vec![("a", exprs(a.elems.iter()))]),
        Expr::Assign(a) => node("assign", s, vec![("l", expr(&a.left)), ("r", expr(&a.right))]),
        Expr::Binary(b) => {
            let op = b.op.span().source_text().unwrap_or_default();
            node("bin", s, vec![("op", json!(op)), ("ops", rng(b.op.span())), ("l", expr(&b.left)), ("r", expr(&b.right))])
        }
        Expr::Block(b) => node("blockexpr", s, vec![("b", block(&b.block))]),
        Expr::Break(b) => node("break", s, vec![("e", opt(&b.expr))]),
        Expr::Call(c) => node("call", s, vec![("f", expr(&c.func)), ("a", exprs(c.args.iter()))]),
        Expr::Cast(c) => node("cast", s, vec![("e", expr(&c.expr)), ("ty", rng(c.ty.span()))]),
        Expr::Closure(c) => node("closure", s, vec![
            ("ps", Value::Array(c.inputs.iter().map(pat).collect())),
            ("b", expr(&c.body)),
            ("move", json!(c.capture.is_some())),
        ]),
        Expr::Continue(_) => node("continue", s, vec![]),
        Expr::Field(f) => node("field", s, vec![("e", expr(&f.base)), ("n", json!(f.member.span().source_text().unwrap_or_default()))]),
        Expr::ForLoop(f) => node("for", s, vec![("pat", pat(&f.pat)), ("e", expr(&f.expr)), ("b", block(&f.body))]),
        Expr::If(i) => node("if", s, vec![
            ("c", expr(&i.cond)),
            ("t", block(&i.then_branch)),
            ("else", i.else_branch.as_ref().map(|x| expr(&x.1)).unwrap_or(Value::Null)),
        ]),
        Expr::Index(i) => node("index", s, vec![("e", expr(&i.expr)), ("i", expr(&i.index))]),
        Expr::Let(l) => node("letexpr", s, vec![("pat", pat(&l.pat)), ("e", expr(&l.expr))]),
        Expr::Lit(l) => {
            let k = match &l.lit {
                Lit::Float(_) => "float",
                Lit::Int(_) => "int",
                Lit::Str(_) => "str",
                Lit::Bool(_) => "bool",
                _ => "other",
            };
            let mut f = vec![("lit", json!(k))];
            if let Lit::Float(x) = &l.lit {
                f.push(("digits", json!(x.base10_digits())));
            }
            if let Lit::Int(x) = &l.lit {
                f.push(("digits", json!(x.base10_digits())));
                f.push(("suffix", json!(x.suffix())));
            }
            node("lit", s, f)
        }
        Expr::Loop(l) => node("loop", s, vec![("b", block(&l.body))]),
        Expr::Macro(m) => mac(&m.mac, s, false),
        Expr::Match(m) => node("match", s, vec![
            ("e", expr(&m.expr)),
            ("arms", Value::Array(m.arms.iter().map(|a| node("arm", a.span(), vec![
                ("pat", pat(&a.pat)),
                ("guard", a.guard.as_ref().map(|g| expr(&g.1)).unwrap_or(Value::Null)),
                ("b", expr(&a.body)),
            ])).collect())),
        ]),
        Expr::MethodCall(m) => node("method", s, vec![
            ("recv", expr(&m.receiver)),
            ("m", json!(m.method.to_string())),
            ("ms", rng(m.method.span())),
            ("turbofish", m.turbofish.as_ref().map(|t| rng(t.span())).unwrap_or(Value::Null)),
            ("a", exprs(m.args.iter())),
        ]),
        Expr::Paren(p) => node("paren", s, vec![("e", expr(&p.expr))]),
        Expr::Path(p) => node("path", s, vec![("p", json!(path_str(&p.path)))]),
        Expr::Range(r) => node("range", s, vec![
            ("lo", opt(&r.start)),
            ("hi", opt(&r.end)),
            ("incl", json!(matches!(r.limits, RangeLimits::Closed(_)))),
        ]),
        Expr::Reference(r) => node("ref", s, vec![("mut", json!(r.mutability.is_some())), ("e", expr(&r.expr))]),
        Expr::Repeat(r) => node("repeat", s, vec![("e", expr(&r.expr)), ("n", expr(&r.len))]),
        Expr::Return(r) => node("return", s, vec![("e", opt(&r.expr))]),
        Expr::Struct(st) => node("struct", s, vec![
            ("p", json!(path_str(&st.path))),
            ("ps", rng(st.path.span())),
            ("f", Value::Array(st.fields.iter().map(|f| node("finit", f.span(), vec![
                ("n", json!(f.member.span().source_text().unwrap_or_default())),
                ("short", json!(f.colon_token.is_none())),
                ("e", expr(&f.expr)),
            ])).collect())),
        ]),
        Expr::Try(t) => node("try", s, vec![("e", expr(&t.expr))]),
        Expr::Tuple(t) => node("tuple", s, vec![("a", exprs(t.elems.iter()))]),
        Expr::Unary(u) => {
            let op = match u.op { UnOp::Deref(_) => "*", UnOp::Not(_) => "!", UnOp::Neg(_) => "-", _ => "?" };
            node("unary", s, vec![("op", json!(op)), ("e", expr(&u.expr))])
        }
        Expr::Unsafe(u) => node("unsafe", s, vec![("b", block(&u.block))]),
        Expr::While(w) => node("while", s, vec![("c", expr(&w.cond)), ("b", block(&w.body))]),
        _ => node("opaque", s, vec![]),
    }
}

fn func(sig: &Signature, body: Option<&Block>, span: Span, vis: Option<&Visibility>) -> Value {
    let params: Vec<Value> = sig.inputs.iter().map(|a| match a {
        FnArg::Receiver(r) => node("self", r.span(), vec![
            ("ref", json!(r.reference.is_some())),
            ("mut", json!(r.mutability.is_some())),
        ]),
        FnArg::Typed(t) => node("param", t.span(), vec![("pat", pat(&t.pat)), ("ty", rng(t.ty.span()))]),
    }).collect();
    let ret = match &sig.output { ReturnType::Default => Value::Null, ReturnType::Type(_, t) => rng(t.span()) };
    node("fn", span, vec![
        ("name", json!(sig.ident.to_string())),
        ("names", rng(sig.ident.span())),
        ("sig", rng(sig.span())),
        ("generics", if sig.generics.params.is_empty() { Value::Null } else { rng(sig.generics.span()) }),
        ("where", sig.generics.where_clause.as_ref().map(|w| rng(w.span())).unwrap_or(Value::Null)),
        ("params", Value::Array(params)),
        ("ret", ret),
        ("pub", json!(matches!(vis, Some(Visibility::Public(_))))),
        ("body", body.map(block).unwrap_or(Value::Null)),
    ])
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        if a.path().is_ident("test") { return true; }
        if a.path().is_ident("cfg") {
            let t = a.meta.require_list().map(|l| l.tokens.to_string()).unwrap_or_default();
            return t.contains("test") || t.contains("sia_verif");
        }
        false
    })
}

fn items(list: &[Item], modpath: &str, out: &mut Vec<Value>) {
    for it in list {
        match it {
            Item::Fn(f) if !is_test(&f.attrs) => {
                let mut v = func(&f.sig, Some(&f.block), f.span(), Some(&f.vis));
                v["mod"] = json!(modpath);
                out.push(v);
            }
            Item::Impl(i) if !is_test(&i.attrs) => {
                let mut fns = vec![];
                for x in &i.items {
                    if let ImplItem::Fn(f) = x {
                        if !is_test(&f.attrs) {
                            fns.push(func(&f.sig, Some(&f.block), f.span(), Some(&f.vis)));
                        }
                    }
                }
                let selfname = match &*i.self_ty { Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(), _ => String::new() };
                let mut v = node("impl", i.span(), vec![
                    ("self", json!(selfname)),
                    ("selfty", rng(i.self_ty.span())),
                    ("trait", i.trait_.as_ref().map(|t| json!(path_str(&t.1))).unwrap_or(Value::Null)),
                    ("generics", if i.generics.params.is_empty() { Value::Null } else { rng(i.generics.span()) }),
                    ("fns", Value::Array(fns)),
                ]);
                let head_end = i.brace_token.span.open().byte_range().start;
                v["head"] = json!([i.span().byte_range().start, head_end]);
                v["mod"] = json!(modpath);
                out.push(v);
            }
            Item::Struct(s) if !is_test(&s.attrs) => {
                let mut v = node("structdef", s.span(), vec![("name", json!(s.ident.to_string()))]);
                let start = s.attrs.iter().map(|a| a.span().byte_range().end).max();
                v["noattr"] = json!([start.unwrap_or(s.span().byte_range().start), s.span().byte_range().end]);
                v["fields"] = Value::Array(s.fields.iter().map(|f| json!({
                    "n": f.ident.as_ref().map(|i| i.to_string()), "ty": rng(f.ty.span()) })).collect());
                v["mod"] = json!(modpath);
                out.push(v);
            }
            Item::Enum(s) if !is_test(&s.attrs) => {
                let mut v = node("enumdef", s.span(), vec![("name", json!(s.ident.to_string()))]);
                let start = s.attrs.iter().map(|a| a.span().byte_range().end).max();
                v["noattr"] = json!([start.unwrap_or(s.span().byte_range().start), s.span().byte_range().end]);
                v["mod"] = json!(modpath);
                out.push(v);
            }
            Item::Const(c) if !is_test(&c.attrs) => {
                let mut v = node("const", c.span(), vec![
                    ("name", json!(c.ident.to_string())), ("ty", rng(c.ty.span())), ("e", expr(&c.expr))]);
                v["mod"] = json!(modpath);
                out.push(v);
            }
            Item::Mod(m) if !is_test(&m.attrs) => {
                if let Some((_, l)) = &m.content {
                    items(l, &format!("{}::{}", modpath, m.ident), out);
                } else {
                    out.push(node("moddecl", m.span(), vec![("name", json!(m.ident.to_string()))]));
                }
            }
            Item::Trait(t) if !is_test(&t.attrs) => {
                let mut fns = vec![];
                for x in &t.items {
                    if let TraitItem::Fn(f) = x {
                        fns.push(func(&f.sig, f.default.as_ref(), f.span(), None));
                    }
                }
                out.push(node("trait", t.span(), vec![("name", json!(t.ident.to_string())), ("fns", Value::Array(fns))]));
            }
            Item::Type(t) => {
                let mut v = node("typedef", t.span(), vec![("name", json!(t.ident.to_string()))]);
                let start = t.attrs.iter().map(|a| a.span().byte_range().end).max();
                v["noattr"] = json!([start.unwrap_or(t.span().byte_range().start), t.span().byte_range().end]);
                out.push(v);
            }
            Item::Use(u) if !is_test(&u.attrs) => out.push(node("use", u.span(), vec![])),
            _ => {}
        }
    }
}

fn main() {
    let mut out = Map::new();
    for f in std::env::args().skip(1) {
        let src = match fs::read_to_string(&f) { Ok(s) => s, Err(e) => { out.insert(f, json!({"error": e.to_string()})); continue; } };
        match syn::parse_file(&src) {
            Ok(file) => {
                let mut v = vec![];
                items(&file.items, "", &mut v);
                // proc_macro2 offsets are global over all parsed files; normalise to this file.
                let base = file.span().byte_range().start;
                let _ = base;
                out.insert(f, json!({"items": v, "len": src.len()}));
            }
            Err(e) => { out.insert(f, json!({"error": e.to_string()})); }
        }
    }
    println!("{}", Value::Object(out));
}
