#![recursion_limit = "512"]
// astdump: prints, as JSON, the byte spans of the items of a Rust source file and of the
// constructs inside each function. It rewrites nothing; the extraction (Python) edits the
// original text at these spans.
use proc_macro2::Span;
use quote::ToTokens;
use serde_json::{json, Value};
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

fn sp(s: Span) -> Value {
    let r = s.byte_range();
    json!([r.start, r.end])
}

#[derive(Default)]
struct FnScan {
    loops: Vec<Value>,
    closures: Vec<Value>,
    mcalls: Vec<Value>,
    calls: Vec<Value>,
    macros: Vec<Value>,
    awaits: Vec<Value>,
    asyncs: Vec<Value>,
    tries: Vec<Value>,
    paths: Vec<Value>,
    stmts: Vec<Value>,
    fields: Vec<Value>,
    unaries: Vec<Value>,
    types: Vec<Value>,
    locals: Vec<Value>,
    ifs: Vec<Value>,
    matches: Vec<Value>,
    returns: Vec<Value>,
    nested_items: Vec<Value>,
    lits: Vec<Value>,
    binaries: Vec<Value>,
    indexes: Vec<Value>,
    refs: Vec<Value>,
    patstructs: Vec<Value>,
    structs: Vec<Value>,
    blocks: Vec<Value>,
    pat_lits: usize,
    depth: usize,
    unsafe_blocks: usize,
}

fn pat_strs(p: &syn::Pat) -> Value {
    fn go(p: &syn::Pat, out: &mut Vec<String>) -> bool {
        match p {
            syn::Pat::Lit(l) => match &l.lit {
                syn::Lit::Str(s) => {
                    out.push(s.value());
                    true
                }
                _ => false,
            },
            syn::Pat::Or(o) => o.cases.iter().all(|c| go(c, out)),
            syn::Pat::Paren(o) => go(&o.pat, out),
            _ => false,
        }
    }
    let mut v = vec![];
    if go(p, &mut v) {
        json!(v)
    } else {
        Value::Null
    }
}

fn block_json(b: &syn::Block) -> Value {
    json!({"span": sp(b.span()), "stmts": b.stmts.iter().map(|s| sp(s.span())).collect::<Vec<_>>()})
}

impl FnScan {
    fn mac(&mut self, m: &syn::Macro, whole: Span, stmt: bool) {
        let args: Option<Vec<syn::Expr>> = m
            .parse_body_with(
                syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated,
            )
            .ok()
            .map(|p| p.into_iter().collect());
        let a = match &args {
            Some(v) => {
                let l: Vec<Value> = v
                    .iter()
                    .map(|e| {
                        let lit = if let syn::Expr::Lit(syn::ExprLit {
                            lit: syn::Lit::Str(s),
                            ..
                        }) = e
                        {
                            Some(s.value())
                        } else {
                            None
                        };
                        json!({"span": sp(e.span()), "lit": lit})
                    })
                    .collect();
                json!(l)
            }
            None => Value::Null,
        };
        self.macros.push(json!({
            "name": m.path.to_token_stream().to_string().replace(' ', ""),
            "span": sp(whole), "mac_span": sp(m.span()),
            "stmt": stmt, "args": a, "depth": self.depth}));
        if let Some(v) = args {
            for e in v.iter() {
                self.visit_expr(e);
            }
        }
    }
}

impl<'ast> Visit<'ast> for FnScan {
    fn visit_item(&mut self, i: &'ast syn::Item) {
        self.nested_items.push(json!({"span": sp(i.span())}));
    }
    fn visit_block(&mut self, i: &'ast syn::Block) {
        self.blocks.push(block_json(i));
        visit::visit_block(self, i);
    }
    fn visit_expr_unsafe(&mut self, i: &'ast syn::ExprUnsafe) {
        self.unsafe_blocks += 1;
        visit::visit_expr_unsafe(self, i);
    }
    fn visit_stmt(&mut self, i: &'ast syn::Stmt) {
        self.stmts.push(json!({"span": sp(i.span()), "depth": self.depth}));
        if let syn::Stmt::Macro(m) = i {
            self.mac(&m.mac, i.span(), true);
            return;
        }
        visit::visit_stmt(self, i);
    }
    fn visit_expr_macro(&mut self, i: &'ast syn::ExprMacro) {
        self.mac(&i.mac, i.span(), false);
    }
    fn visit_expr_struct(&mut self, i: &'ast syn::ExprStruct) {
        self.structs.push(json!({"span": sp(i.span()), "path": i.path.to_token_stream().to_string().replace(' ', ""),
            "fields": i.fields.iter().map(|f| json!({"member": f.member.to_token_stream().to_string(), "span": sp(f.span()), "colon": f.colon_token.is_some(), "expr": sp(f.expr.span())})).collect::<Vec<_>>(),
            "rest": i.rest.as_ref().map(|r| sp(r.span())),
            "dot2": i.dot2_token.as_ref().map(|r| sp(r.span()))}));
        visit::visit_expr_struct(self, i);
    }
    fn visit_expr_binary(&mut self, i: &'ast syn::ExprBinary) {
        self.binaries.push(json!({"span": sp(i.span()), "op": i.op.to_token_stream().to_string(), "left": sp(i.left.span()), "right": sp(i.right.span()), "op_span": sp(i.op.span())}));
        visit::visit_expr_binary(self, i);
    }
    fn visit_expr_index(&mut self, i: &'ast syn::ExprIndex) {
        self.indexes.push(json!({"span": sp(i.span()), "expr": sp(i.expr.span()), "index": sp(i.index.span())}));
        visit::visit_expr_index(self, i);
    }
    fn visit_expr_reference(&mut self, i: &'ast syn::ExprReference) {
        self.refs.push(json!({"span": sp(i.span()), "mut": i.mutability.is_some(), "expr": sp(i.expr.span())}));
        visit::visit_expr_reference(self, i);
    }
    fn visit_expr_while(&mut self, i: &'ast syn::ExprWhile) {
        self.loops.push(json!({"kind": "while", "span": sp(i.span()), "body": block_json(&i.body), "depth": self.depth}));
        self.depth += 1;
        visit::visit_expr_while(self, i);
        self.depth -= 1;
    }
    fn visit_expr_loop(&mut self, i: &'ast syn::ExprLoop) {
        self.loops.push(json!({"kind": "loop", "span": sp(i.span()), "body": block_json(&i.body), "depth": self.depth}));
        self.depth += 1;
        visit::visit_expr_loop(self, i);
        self.depth -= 1;
    }
    fn visit_expr_for_loop(&mut self, i: &'ast syn::ExprForLoop) {
        self.loops.push(json!({"kind": "for", "span": sp(i.span()), "body": block_json(&i.body), "pat": sp(i.pat.span()), "expr": sp(i.expr.span()), "depth": self.depth}));
        self.depth += 1;
        visit::visit_expr_for_loop(self, i);
        self.depth -= 1;
    }
    fn visit_expr_closure(&mut self, i: &'ast syn::ExprClosure) {
        let out = match &i.output {
            syn::ReturnType::Default => Value::Null,
            syn::ReturnType::Type(_, t) => sp(t.span()),
        };
        self.closures.push(json!({"span": sp(i.span()), "mv": i.capture.is_some(),
            "or1": sp(i.or1_token.span()), "or2": sp(i.or2_token.span()),
            "inputs": i.inputs.iter().map(|p| json!({"span": sp(p.span()), "text": p.to_token_stream().to_string(), "typed": matches!(p, syn::Pat::Type(_))})).collect::<Vec<_>>(),
            "output": out, "body": sp(i.body.span()), "body_is_block": matches!(*i.body, syn::Expr::Block(_))}));
        self.depth += 1;
        visit::visit_expr_closure(self, i);
        self.depth -= 1;
    }
    fn visit_expr_method_call(&mut self, i: &'ast syn::ExprMethodCall) {
        // receiver first, so that the list follows the source order of the method names
        self.visit_expr(&i.receiver);
        self.mcalls.push(json!({"name": i.method.to_string(), "name_span": sp(i.method.span()), "span": sp(i.span()),
            "recv": sp(i.receiver.span()), "args": i.args.iter().map(|a| sp(a.span())).collect::<Vec<_>>(),
            "turbofish": i.turbofish.as_ref().map(|t| sp(t.span())),
            "dot": sp(i.dot_token.span()), "paren": sp(i.paren_token.span.join())}));
        for a in i.args.iter() {
            self.visit_expr(a);
        }
    }
    fn visit_expr_call(&mut self, i: &'ast syn::ExprCall) {
        self.calls.push(json!({"func": i.func.to_token_stream().to_string().replace(' ', ""), "func_span": sp(i.func.span()), "span": sp(i.span()),
            "args": i.args.iter().map(|a| sp(a.span())).collect::<Vec<_>>(), "paren": sp(i.paren_token.span.join())}));
        visit::visit_expr_call(self, i);
    }
    fn visit_expr_await(&mut self, i: &'ast syn::ExprAwait) {
        self.awaits.push(json!({"span": sp(i.span()), "base": sp(i.base.span())}));
        visit::visit_expr_await(self, i);
    }
    fn visit_expr_async(&mut self, i: &'ast syn::ExprAsync) {
        self.asyncs.push(json!({"span": sp(i.span()), "block": block_json(&i.block)}));
        visit::visit_expr_async(self, i);
    }
    fn visit_expr_try(&mut self, i: &'ast syn::ExprTry) {
        self.tries.push(json!({"span": sp(i.span()), "expr": sp(i.expr.span())}));
        visit::visit_expr_try(self, i);
    }
    fn visit_expr_path(&mut self, i: &'ast syn::ExprPath) {
        self.paths.push(json!({"span": sp(i.span()), "text": i.to_token_stream().to_string().replace(' ', "")}));
        visit::visit_expr_path(self, i);
    }
    fn visit_type_path(&mut self, i: &'ast syn::TypePath) {
        self.types.push(json!({"span": sp(i.span()), "text": i.to_token_stream().to_string().replace(' ', "")}));
        visit::visit_type_path(self, i);
    }
    fn visit_expr_field(&mut self, i: &'ast syn::ExprField) {
        self.fields.push(json!({"span": sp(i.span()), "base": sp(i.base.span()), "member": i.member.to_token_stream().to_string()}));
        visit::visit_expr_field(self, i);
    }
    fn visit_expr_unary(&mut self, i: &'ast syn::ExprUnary) {
        self.unaries.push(json!({"span": sp(i.span()), "op": i.op.to_token_stream().to_string(), "expr": sp(i.expr.span())}));
        visit::visit_expr_unary(self, i);
    }
    fn visit_local(&mut self, i: &'ast syn::Local) {
        self.locals.push(json!({"span": sp(i.span()), "pat": sp(i.pat.span()), "pat_text": i.pat.to_token_stream().to_string(),
            "typed": matches!(i.pat, syn::Pat::Type(_)),
            "init": i.init.as_ref().map(|x| sp(x.expr.span()))}));
        visit::visit_local(self, i);
    }
    fn visit_expr_if(&mut self, i: &'ast syn::ExprIf) {
        self.ifs.push(json!({"span": sp(i.span()), "cond": sp(i.cond.span()), "then": block_json(&i.then_branch)}));
        visit::visit_expr_if(self, i);
    }
    fn visit_expr_match(&mut self, i: &'ast syn::ExprMatch) {
        self.matches.push(json!({"span": sp(i.span()), "expr": sp(i.expr.span()),
            "arms": i.arms.iter().map(|a| json!({"pat": sp(a.pat.span()), "strs": pat_strs(&a.pat), "guard": a.guard.as_ref().map(|g| sp(g.1.span())), "body": sp(a.body.span()), "span": sp(a.span())})).collect::<Vec<_>>()}));
        visit::visit_expr_match(self, i);
    }
    fn visit_pat(&mut self, i: &'ast syn::Pat) {
        if let syn::Pat::Lit(l) = i {
            if let syn::Lit::Str(_) = l.lit {
                self.pat_lits += 1;
            }
        }
        visit::visit_pat(self, i);
    }
    fn visit_expr_return(&mut self, i: &'ast syn::ExprReturn) {
        self.returns.push(json!({"span": sp(i.span()), "expr": i.expr.as_ref().map(|e| sp(e.span()))}));
        visit::visit_expr_return(self, i);
    }
    fn visit_lit(&mut self, i: &'ast syn::Lit) {
        let v = match i {
            syn::Lit::Str(s) => json!(s.value()),
            syn::Lit::ByteStr(s) => json!(s.value()),
            _ => Value::Null,
        };
        self.lits.push(json!({"span": sp(i.span()), "str": v}));
    }
}

fn attrs(a: &[syn::Attribute]) -> Value {
    json!(a
        .iter()
        .map(|x| json!({"span": sp(x.span()), "path": x.path().to_token_stream().to_string().replace(' ', ""), "text": x.to_token_stream().to_string()}))
        .collect::<Vec<_>>())
}

fn is_test(a: &[syn::Attribute]) -> bool {
    a.iter().any(|x| {
        x.path().is_ident("test")
            || (x.path().is_ident("cfg") && x.to_token_stream().to_string().contains("test"))
    })
}

fn func(
    kind: &str, owner: &str, tr: &str, at: &[syn::Attribute], vis: Option<&syn::Visibility>,
    sig: &syn::Signature, block: Option<&syn::Block>, whole: Span,
) -> Value {
    let mut s = FnScan::default();
    let mut stmts = vec![];
    if let Some(b) = block {
        for st in &b.stmts {
            stmts.push(sp(st.span()));
            s.visit_stmt(st);
        }
    }
    let out = match &sig.output {
        syn::ReturnType::Default => Value::Null,
        syn::ReturnType::Type(_, t) => sp(t.span()),
    };
    let name = sig.ident.to_string();
    let path = if owner.is_empty() { name.clone() } else { format!("{}::{}", owner, name) };
    json!({"kind": kind, "item": "fn", "path": path, "name": name, "owner": owner, "trait": tr,
        "span": sp(whole), "attrs": attrs(at), "vis": vis.map(|v| v.to_token_stream().to_string()),
        "vis_span": vis.and_then(|v| if matches!(v, syn::Visibility::Inherited) {None} else {Some(sp(v.span()))}),
        "sig": sp(sig.span()), "sig_text": sig.to_token_stream().to_string(), "ident": sp(sig.ident.span()),
        "fn_token": sp(sig.fn_token.span()),
        "async": sig.asyncness.as_ref().map(|a| sp(a.span())),
        "generics": if sig.generics.params.is_empty() {Value::Null} else {sp(sig.generics.span())},
        "generics_text": sig.generics.to_token_stream().to_string(),
        "where": sig.generics.where_clause.as_ref().map(|w| sp(w.span())),
        "paren": sp(sig.paren_token.span.join()),
        "inputs": sig.inputs.iter().map(|i| match i {
            syn::FnArg::Receiver(r) => json!({"span": sp(r.span()), "self": true, "text": r.to_token_stream().to_string()}),
            syn::FnArg::Typed(t) => json!({"span": sp(t.span()), "self": false, "pat": t.pat.to_token_stream().to_string(), "pat_span": sp(t.pat.span()), "ty": sp(t.ty.span()), "ty_text": t.ty.to_token_stream().to_string()}),
        }).collect::<Vec<_>>(),
        "output": out, "body": block.map(|b| sp(b.span())), "stmts": stmts, "test": is_test(at),
        "loops": s.loops, "closures": s.closures, "mcalls": s.mcalls, "calls": s.calls, "macros": s.macros,
        "awaits": s.awaits, "asyncs": s.asyncs, "tries": s.tries, "paths": s.paths, "types": s.types,
        "all_stmts": s.stmts, "fields": s.fields, "unaries": s.unaries, "locals": s.locals, "ifs": s.ifs,
        "matches": s.matches, "pat_lits": s.pat_lits, "returns": s.returns, "nested_items": s.nested_items, "lits": s.lits,
        "binaries": s.binaries, "indexes": s.indexes, "refs": s.refs, "structs": s.structs, "blocks": s.blocks,
        "unsafe_blocks": s.unsafe_blocks})
}

fn item(i: &syn::Item, out: &mut Vec<Value>) {
    use syn::Item::*;
    match i {
        Fn(f) => out.push(func("fn", "", "", &f.attrs, Some(&f.vis), &f.sig, Some(&f.block), f.span())),
        Struct(s) => {
            let (st, fs): (&str, Vec<Value>) = match &s.fields {
                syn::Fields::Named(n) => ("named", n.named.iter().map(|f| json!({"name": f.ident.as_ref().unwrap().to_string(), "ty": f.ty.to_token_stream().to_string(), "ty_span": sp(f.ty.span()), "span": sp(f.span()), "vis": f.vis.to_token_stream().to_string(), "attrs": attrs(&f.attrs)})).collect()),
                syn::Fields::Unnamed(n) => ("tuple", n.unnamed.iter().map(|f| json!({"ty": f.ty.to_token_stream().to_string(), "span": sp(f.span())})).collect()),
                syn::Fields::Unit => ("unit", vec![]),
            };
            out.push(json!({"item": "struct", "name": s.ident.to_string(), "path": s.ident.to_string(), "span": sp(s.span()), "attrs": attrs(&s.attrs), "style": st, "fields": fs,
                "generics": s.generics.to_token_stream().to_string(), "test": is_test(&s.attrs), "vis": s.vis.to_token_stream().to_string()}));
        }
        Enum(s) => out.push(json!({"item": "enum", "name": s.ident.to_string(), "path": s.ident.to_string(), "span": sp(s.span()), "attrs": attrs(&s.attrs), "test": is_test(&s.attrs),
            "vis": s.vis.to_token_stream().to_string(), "generics": s.generics.to_token_stream().to_string(),
            "variants": s.variants.iter().map(|v| json!({"name": v.ident.to_string(), "span": sp(v.span()), "attrs": attrs(&v.attrs), "fields": v.fields.to_token_stream().to_string(), "style": match &v.fields {syn::Fields::Named(_) => "named", syn::Fields::Unnamed(_) => "tuple", syn::Fields::Unit => "unit"}})).collect::<Vec<_>>()})),
        Impl(im) => {
            let ty = im.self_ty.to_token_stream().to_string().replace(' ', "");
            let tr = im.trait_.as_ref().map(|(_, p, _)| p.to_token_stream().to_string().replace(' ', "")).unwrap_or_default();
            let base = ty.split('<').next().unwrap().to_string();
            let owner = if tr.is_empty() { base.clone() } else { format!("{} for {}", tr, base) };
            let mut members = vec![];
            for it in &im.items {
                match it {
                    syn::ImplItem::Fn(f) => members.push(func("method", &owner, &tr, &f.attrs, Some(&f.vis), &f.sig, Some(&f.block), f.span())),
                    syn::ImplItem::Type(t) => members.push(json!({"item": "assoc_type", "name": t.ident.to_string(), "span": sp(t.span()), "ty": t.ty.to_token_stream().to_string()})),
                    o => members.push(json!({"item": "assoc_other", "span": sp(o.span())})),
                }
            }
            out.push(json!({"item": "impl", "path": owner, "self_ty": ty, "trait": tr, "generics": im.generics.to_token_stream().to_string(),
                "where": im.generics.where_clause.as_ref().map(|w| w.to_token_stream().to_string()),
                "span": sp(im.span()), "brace": sp(im.brace_token.span.join()), "attrs": attrs(&im.attrs), "members": members, "test": is_test(&im.attrs)}));
        }
        Const(c) => out.push(json!({"item": "const", "name": c.ident.to_string(), "path": c.ident.to_string(), "span": sp(c.span()), "ty": c.ty.to_token_stream().to_string(), "ty_span": sp(c.ty.span()), "expr": sp(c.expr.span()), "attrs": attrs(&c.attrs), "test": is_test(&c.attrs), "vis": c.vis.to_token_stream().to_string()})),
        Type(t) => out.push(json!({"item": "type", "name": t.ident.to_string(), "path": t.ident.to_string(), "span": sp(t.span()), "attrs": attrs(&t.attrs), "test": is_test(&t.attrs), "vis": t.vis.to_token_stream().to_string()})),
        Trait(t) => out.push(json!({"item": "trait", "name": t.ident.to_string(), "path": t.ident.to_string(), "span": sp(t.span()), "attrs": attrs(&t.attrs), "test": is_test(&t.attrs)})),
        Mod(m) => {
            let mut sub = vec![];
            if let Some((_, items)) = &m.content {
                for x in items {
                    item(x, &mut sub);
                }
            }
            out.push(json!({"item": "mod", "name": m.ident.to_string(), "path": m.ident.to_string(), "span": sp(m.span()), "attrs": attrs(&m.attrs), "test": is_test(&m.attrs), "items": sub}));
        }
        Use(u) => out.push(json!({"item": "use", "path": u.tree.to_token_stream().to_string(), "span": sp(u.span()), "attrs": attrs(&u.attrs), "test": is_test(&u.attrs)})),
        o => out.push(json!({"item": "other", "path": "", "span": sp(o.span()), "test": false})),
    }
}

fn main() {
    let mut res = serde_json::Map::new();
    for f in std::env::args().skip(1) {
        let text = std::fs::read_to_string(&f).unwrap();
        match syn::parse_file(&text) {
            Ok(ast) => {
                let mut out = vec![];
                for i in &ast.items {
                    item(i, &mut out);
                }
                res.insert(f, json!(out));
            }
            Err(e) => {
                res.insert(f, json!({"error": e.to_string()}));
            }
        }
    }
    println!("{}", Value::Object(res));
}
