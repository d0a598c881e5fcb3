//! vx: mechanical extraction of Rust items from the repository into a Verus file.
//!
//! usage: vx TEMPLATE OUT REPORT.json REPO
//!
//! The template is a Verus source file.  Lines beginning with `//@` are directives:
//!   //@fn NAME ... //@end      contract for the function NAME (`Owner::name` or `name`); inside the block
//!       //@ret IDENT           name of the return value            (default r)
//!       //@attr TEXT           attribute put in front of the function
//!       //@loop K              following lines: clauses for the K-th loop of the body
//!       //@body K              following lines: ghost text at the start of the K-th loop's body
//!       //@entry               following lines: ghost text at the start of the function body
//!       //@skip                do not emit this function
//!       (lines before any sub-directive are the requires/ensures clauses)
//!   //@impl OWNER ... //@end   text put at the start of the emitted impl/trait of that owner (spec functions)
//!   //@sub A => B              token-text substitution applied to everything emitted from here on
//!   //@nosub                   forget all substitutions
//!   //@rw NAME                 enable an optional rewrite: result_map | option_map | canon_generics | ...
//!   //@emit FILE SELECTOR [only=a,b] [nopub]  emit the item(s)
//!       FILE beginning with `!` is looked up below $VX_BUILD (text generated from the repository on this run)
//!       SELECTOR: fn:NAME trait:NAME struct:NAME enum:NAME const:NAME type:NAME
//!                 impl:TEXT  (TEXT = substring of the impl header with blanks removed)
//!                 macro:NAME(ARGS)  (expand the first rule of a macro_rules with positional arguments)
//!                 impls[:TRAIT,..,inherent]   every impl of the file (of those traits)
//!                 helpers           (every other free fn of the file)
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::*;

#[derive(Default, Clone)]
struct Contract {
    ret: Option<String>,
    attrs: Vec<String>,
    clauses: String,
    loops: BTreeMap<usize, String>,
    bodies: BTreeMap<usize, String>,
    entry: String,
    skip: bool,
    used: bool,
}

struct Cx {
    extras: BTreeMap<String, String>,
    repo: String,
    contracts: BTreeMap<String, Contract>,
    subs: Vec<(String, String)>,
    rw: BTreeSet<String>,
    emitted: Vec<String>,
    contracted: Vec<String>,
    loops_unannotated: Vec<String>,
    fresh: Vec<String>,
    inner: Vec<(ItemFn, String)>,
    files: BTreeMap<String, File>,
    known: BTreeSet<String>,
    out: String,
    dropped: BTreeSet<String>,
}

fn die(msg: &str) -> ! {
    eprintln!("ANCHOR-LOST: {msg}");
    std::process::exit(3)
}

fn norm(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

/// one-token-per-blank text
fn toks(t: &TokenStream) -> String {
    fn go(t: TokenStream, o: &mut Vec<String>) {
        let mut it = t.into_iter().peekable();
        while let Some(tt) = it.next() {
            match tt {
                TokenTree::Group(g) => {
                    let (a, b) = match g.delimiter() {
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Brace => ("{", "}"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::None => ("", ""),
                    };
                    if !a.is_empty() { o.push(a.into()); }
                    go(g.stream(), o);
                    if !b.is_empty() { o.push(b.into()); }
                }
                TokenTree::Punct(p) => {
                    let mut s = p.as_char().to_string();
                    let mut sp = p.spacing();
                    let mut c = p.as_char();
                    if c == '\'' {
                        // lifetime
                        if let Some(TokenTree::Ident(i)) = it.peek() { s.push_str(&i.to_string()); it.next(); }
                    } else {
                        while sp == proc_macro2::Spacing::Joint {
                            if let Some(TokenTree::Punct(q)) = it.peek() {
                                let d = q.as_char();
                                let two: String = [c, d].iter().collect();
                                if !["::", "->", "=>", "==", "!=", "<=", ">=", "&&", "||", "..", "+=", "-=", "*=", "/=", "%=", "^=", "|=", "&=", "<<", ">>", ".="].contains(&two.as_str()) { break; }
                                // keep generics closing brackets apart
                                if two == ">>" || two == "<<" || two == "||" || two == "&&" { if !(two == "||" || two == "&&") { break; } }
                                s.push(d); sp = q.spacing(); c = d; it.next();
                            } else { break; }
                        }
                    }
                    let joint = c != '\'' && sp == proc_macro2::Spacing::Joint;
                    o.push(s);
                    if joint { o.push("\u{1}".into()); }
                }
                TokenTree::Ident(i) => o.push(i.to_string()),
                TokenTree::Literal(l) => o.push(l.to_string()),
            }
        }
    }
    let mut v = vec![];
    go(t.clone(), &mut v);
    v.join(" ").replace(" \u{1} ", "").replace(" \u{1}", "")
}

fn pretty(s: &str) -> String {
    // newline after ; { } outside string literals
    let mut o = String::new();
    let mut ind = 0usize;
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c == '"' {
            o.push(c);
            i += 1;
            while i < b.len() {
                o.push(b[i]);
                if b[i] == '\\' { i += 1; o.push(b[i]); }
                else if b[i] == '"' { break; }
                i += 1;
            }
        } else if c == '\'' && i + 2 < b.len() && (b[i + 2] == '\'' || b[i + 1] == '\\') {
            o.push(c); i += 1;
            loop { o.push(b[i]); if b[i] == '\\' { i += 1; o.push(b[i]); } else if b[i] == '\'' { break; } i += 1; }
        } else if c == '{' {
            ind += 1;
            o.push(c); o.push('\n'); o.push_str(&"  ".repeat(ind));
        } else if c == '}' {
            ind = ind.saturating_sub(1);
            o.push('\n'); o.push_str(&"  ".repeat(ind)); o.push(c); 
            o.push('\n'); o.push_str(&"  ".repeat(ind));
        } else if c == ';' {
            o.push(c); o.push('\n'); o.push_str(&"  ".repeat(ind));
        } else if c == '\n' { o.push('\n'); o.push_str(&"  ".repeat(ind)); }
        else { o.push(c) }
        i += 1;
    }
    let mut r = String::new();
    for l in o.lines() { if !l.trim().is_empty() { r.push_str(l.trim_end()); r.push('\n'); } }
    r
}

// ------------------------------------------------------------------ rewrites

struct Rw<'a> { cx: &'a BTreeSet<String>, loops: usize, tmp: usize, notes: BTreeSet<String> }

impl<'a> Rw<'a> {
    fn on(&self, n: &str) -> bool { self.cx.contains(n) }
    fn note(&mut self, n: &str) { self.notes.insert(n.to_string()); }
}

/// no `?` and no `return`: the body of a closure that means the same in place
fn closed(e: &Expr) -> bool {
    struct C(bool);
    impl<'a> syn::visit::Visit<'a> for C {
        fn visit_expr_try(&mut self, _: &'a ExprTry) { self.0 = false; }
        fn visit_expr_return(&mut self, _: &'a ExprReturn) { self.0 = false; }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut c = C(true);
    syn::visit::Visit::visit_expr(&mut c, e);
    c.0
}
fn closure1(e: &Expr) -> Option<(Pat, Expr)> {
    if let Expr::Closure(c) = e {
        if c.inputs.len() == 1 && closed(&c.body) {
            let mut p = c.inputs[0].clone();
            if let Pat::Type(t) = &p { p = (*t.pat).clone(); }
            return Some((p, (*c.body).clone()));
        }
    }
    None
}

impl<'a> VisitMut for Rw<'a> {
    fn visit_attribute_mut(&mut self, _a: &mut Attribute) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // loops get a marker as first statement
        if self.on("index_str") {
            if let Expr::Reference(r) = e { if r.mutability.is_none() && lit_index(&r.expr) { *e = (*r.expr).clone(); } }
            if let Expr::Paren(p) = e { if lit_index(&p.expr) { *e = (*p.expr).clone(); } }
            if lit_index(e) {
                let Expr::Index(x) = e else { unreachable!() };
                visit_mut::visit_expr_index_mut(self, x);
                self.note("x[\"literal\"] -> x.at(\"literal\")");
                let (a, b) = (&x.expr, &x.index);
                *e = parse_quote!(#a.at(#b));
                return;
            }
        }
        match e {
            Expr::While(w) if matches!(&*w.cond, Expr::Let(_)) => {
                let k = self.loops; self.loops += 1;
                visit_mut::visit_expr_while_mut(self, w);
                let id = syn::Lit::Int(LitInt::new(&k.to_string(), proc_macro2::Span::call_site()));
                self.note("while let -> loop / match / break");
                let Expr::Let(l) = &*w.cond else { unreachable!() };
                let (pat, x, body, label) = (&l.pat, &l.expr, &w.body.stmts, &w.label);
                *e = parse_quote!(#label loop { __loop_marker!(#id); match #x { #pat => { #(#body)* } _ => { break; } } });
                return;
            }
            Expr::While(w) => {
                let k = self.loops; self.loops += 1; w.attrs.clear();
                visit_mut::visit_expr_while_mut(self, w);
                let id = syn::Lit::Int(LitInt::new(&k.to_string(), proc_macro2::Span::call_site()));
                w.body.stmts.insert(0, parse_quote!(__loop_marker!(#id);));
                return;
            }
            Expr::ForLoop(w) if self.on("iter") && enum_src(&w.expr).is_some() && matches!(&*w.pat, syn::Pat::Tuple(t) if t.elems.len() == 2) => {
                let src = enum_src(&w.expr).unwrap();
                let k = self.loops; self.loops += 1;
                visit_mut::visit_block_mut(self, &mut w.body);
                let id = syn::Lit::Int(LitInt::new(&k.to_string(), proc_macro2::Span::call_site()));
                let (vi, vs) = (format_ident!("vx_i{}", k), format_ident!("vx_s{}", k));
                let syn::Pat::Tuple(t) = &*w.pat else { unreachable!() };
                let (pi, pb, body, label) = (&t.elems[0], &t.elems[1], &w.body.stmts, &w.label);
                let bind: Stmt = match pb { syn::Pat::Reference(r) => { let p = &r.pat; parse_quote!(let #p = #vs[#vi];) } p => parse_quote!(let #p = &#vs[#vi];) };
                self.note("for over .iter().enumerate() -> while loop over an index");
                *e = parse_quote!({ let #vs = &#src; let mut #vi: usize = 0; #label while #vi < #vs.len() { __loop_marker!(#id); let #pi = #vi; #bind #vi = #vi + 1; #(#body)* } });
                return;
            }
            Expr::ForLoop(w) if self.on("iter") && for_src(&w.expr).is_some() => {
                let (src, kind) = for_src(&w.expr).unwrap();
                let k = self.loops; self.loops += 1;
                visit_mut::visit_block_mut(self, &mut w.body);
                let id = syn::Lit::Int(LitInt::new(&k.to_string(), proc_macro2::Span::call_site()));
                let (vi, vs) = (format_ident!("vx_i{}", k), format_ident!("vx_s{}", k));
                let (pat, body, label) = (&w.pat, &w.body.stmts, &w.label);
                self.note("for over .iter()/.iter_mut()/.rev() -> while loop over an index");
                *e = match kind {
                    0 => parse_quote!({ let #vs = &#src; let mut #vi: usize = 0; #label while #vi < #vs.len() { __loop_marker!(#id); let #pat = &#vs[#vi]; #vi = #vi + 1; #(#body)* } }),
                    1 => parse_quote!({ let #vs = &#src; let mut #vi: usize = 0; #label while #vi < #vs.len() { __loop_marker!(#id); let #pat = &#vs[#vs.len() - 1 - #vi]; #vi = #vi + 1; #(#body)* } }),
                    _ => parse_quote!({ let mut #vi: usize = 0; #label while #vi < #src.len() { __loop_marker!(#id); let #pat = &mut #src[#vi]; #vi = #vi + 1; #(#body)* } }),
                };
                return;
            }
            Expr::ForLoop(w) if self.on("for_ref") && matches!(&*w.expr, Expr::Path(p) if p.path.get_ident().is_some()) => {
                let k = self.loops; self.loops += 1;
                visit_mut::visit_block_mut(self, &mut w.body);
                let id = syn::Lit::Int(LitInt::new(&k.to_string(), proc_macro2::Span::call_site()));
                let (vi, vs) = (format_ident!("vx_i{}", k), format_ident!("vx_s{}", k));
                let (pat, body, label, src) = (&w.pat, &w.body.stmts, &w.label, &w.expr);
                self.note("for x in &vec -> while loop over an index");
                *e = parse_quote!({ let #vs = #src; let mut #vi: usize = 0; #label while #vi < #vs.len() { __loop_marker!(#id); let #pat = &#vs[#vi]; #vi = #vi + 1; #(#body)* } });
                return;
            }
            Expr::ForLoop(w) if self.on("for_all") && !matches!(&*w.expr, Expr::Range(_)) && !matches!(&*w.expr, Expr::Paren(p) if matches!(&*p.expr, Expr::Range(_))) => {
                let k = self.loops; self.loops += 1;
                self.visit_expr_mut(&mut w.expr);
                visit_mut::visit_block_mut(self, &mut w.body);
                let id = syn::Lit::Int(LitInt::new(&k.to_string(), proc_macro2::Span::call_site()));
                let (vi, vs) = (format_ident!("vx_i{}", k), format_ident!("vx_s{}", k));
                let mut src = (*w.expr).clone();
                loop { match src { Expr::Paren(p) => src = *p.expr, Expr::MethodCall(m) if m.method == "into_iter" && m.args.is_empty() => src = *m.receiver, o => { src = o; break } } }
                let byref = matches!(&src, Expr::Reference(_));
                let (pat, body, label) = (&w.pat, &w.body.stmts, &w.label);
                self.note("for over a vector -> while loop over an index, vx_nth hands out the elements");
                *e = if byref { parse_quote!({ let #vs = #src; let mut #vi: usize = 0; #label while #vi < #vs.len() { __loop_marker!(#id); let #pat = &#vs[#vi]; #vi = #vi + 1; #(#body)* } }) }
                    else { parse_quote!({ let #vs = #src; let mut #vi: usize = 0; #label while #vi < #vs.len() { __loop_marker!(#id); let #pat = vx_nth(&#vs, #vi); #vi = #vi + 1; #(#body)* } }) };
                return;
            }
            Expr::ForLoop(w) if self.on("for_vec") && matches!(&*w.expr, Expr::Path(p) if p.path.get_ident().is_some()) => {
                let k = self.loops; self.loops += 1;
                visit_mut::visit_block_mut(self, &mut w.body);
                let id = syn::Lit::Int(LitInt::new(&k.to_string(), proc_macro2::Span::call_site()));
                let (vi, vs) = (format_ident!("vx_i{}", k), format_ident!("vx_s{}", k));
                let (pat, body, label, src) = (&w.pat, &w.body.stmts, &w.label, &w.expr);
                self.note("for x in vec -> while loop over an index, vx_nth hands out the elements");
                *e = parse_quote!({ let #vs = #src; let mut #vi: usize = 0; #label while #vi < #vs.len() { __loop_marker!(#id); let #pat = vx_nth(&#vs, #vi); #vi = #vi + 1; #(#body)* } });
                return;
            }
            Expr::ForLoop(w) => {
                let k = self.loops; self.loops += 1; w.attrs.clear();
                visit_mut::visit_expr_for_loop_mut(self, w);
                let (f, x) = (format_ident!("__vx_it{}", k), &w.expr);
                let x = if let Expr::Paren(p) = &**x { &p.expr } else { x };
                *w.expr = parse_quote!(#f(#x));
                let id = syn::Lit::Int(LitInt::new(&k.to_string(), proc_macro2::Span::call_site()));
                w.body.stmts.insert(0, parse_quote!(__loop_marker!(#id);));
                return;
            }
            Expr::Loop(w) => {
                let k = self.loops; self.loops += 1; w.attrs.clear();
                visit_mut::visit_expr_loop_mut(self, w);
                let id = syn::Lit::Int(LitInt::new(&k.to_string(), proc_macro2::Span::call_site()));
                w.body.stmts.insert(0, parse_quote!(__loop_marker!(#id);));
                return;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        if self.on("range") {
            if let Expr::Reference(r) = e { if r.mutability.is_none() { if let Expr::Index(x) = &*r.expr { if let Expr::Range(g) = &*x.index { if matches!(g.limits, syn::RangeLimits::HalfOpen(_)) {
                let v = &x.expr;
                let n: Expr = match (&g.start, &g.end) { (None, None) => parse_quote!(#v.vx_whole()), (Some(a), None) => parse_quote!(#v.vx_from(#a)), (None, Some(b)) => parse_quote!(#v.vx_to(#b)), (Some(a), Some(b)) => parse_quote!(#v.vx_between(#a, #b)) };
                self.note("&x[a..b] -> vx_from/vx_to/vx_between/vx_whole");
                *e = n;
                return;
            } } } } }
        }
        let new: Option<Expr> = match &*e {
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let recv = &m.receiver;
                match (name.as_str(), m.args.len()) {
                    ("collect", 0) if self.on("vec_map_into") => {
                        let mut out = None;
                        if let Expr::MethodCall(mm) = &**recv { if mm.method == "map" && mm.args.len() == 1 && norm(&toks(&mm.args[0].to_token_stream())).ends_with("convert::Into::into") {
                            if let Expr::MethodCall(ii) = &*mm.receiver { if ii.method == "into_iter" { let x = &ii.receiver; self.note(".into_iter().map(Into::into).collect() -> vx_map_into (same chain, proved once)"); out = Some(parse_quote!(vx_map_into(#x))); } }
                        } }
                        out
                    }
                    ("collect", 0) if self.on("extend") && peel_ext(recv).map(|x| x.2).unwrap_or(false) => { let v: Expr = parse_quote!(vx_v); self.extend(&v, recv, true) }
                    ("fold" | "find_map" | "find" | "any" | "all" | "position" | "collect", _) if self.on("iter") && !(self.on("skip_take") && m.method == "collect" && skip_take(recv).is_some()) => self.chain(m),
                    ("extend", 1) if self.on("extend") => self.extend(recv, &m.args[0], false),
                    ("map", 1) if self.on("extend") && peel_ext(&Expr::MethodCall(m.clone())).is_some() => None,
                    ("map", 1) if self.on("iter") && peel(recv, &mut vec![]).is_some() => None,
                    ("map", 1) if self.on("result_map") || self.on("option_map") => {
                        let a = &m.args[0];
                        let r = self.on("result_map");
                        match closure1(a) {
                            Some((p, b)) => { self.note(".map(closure) -> match"); Some(if r { parse_quote!(match #recv { Ok(#p) => Ok(#b), Err(vx_e) => Err(vx_e) }) }
                                              else { parse_quote!(match #recv { Some(#p) => Some(#b), None => None }) })},
                            None => { self.note(".map(path) -> match"); Some(if r { parse_quote!(match #recv { Ok(vx_v) => Ok(#a(vx_v)), Err(vx_e) => Err(vx_e) }) }
                                      else { parse_quote!(match #recv { Some(vx_v) => Some(#a(vx_v)), None => None }) })},
                        }
                    }
                    ("into" | "to_string" | "to_owned", 0) if self.on("str_into") && matches!(&**recv, Expr::Lit(ExprLit { lit: Lit::Str(_), .. })) => { self.note("\"literal\".into() -> vx_s(\"literal\")"); Some(parse_quote!(vx_s(#recv))) }
                    ("read_to_end", 1) => {
                        let a = &m.args[0];
                        if let Expr::MethodCall(t) = &**recv { if t.method == "take" && t.args.len() == 1 {
                            let n = &t.args[0];
                            let mut x: Expr = (*t.receiver).clone();
                            loop { x = match x {
                                Expr::Paren(p) => *p.expr,
                                Expr::Reference(r) if r.mutability.is_some() => *r.expr,
                                Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => *u.expr,
                                Expr::MethodCall(q) if q.method == "by_ref" && q.args.is_empty() => *q.receiver,
                                y => { x = y; break; }
                            }; }
                            self.note("R.take(n).read_to_end(b) -> R.vx_take_read_to_end(n, b)");
                            Some(parse_quote!(#x.vx_take_read_to_end(#n, #a)))
                        } else { None } } else { None }
                    }
                    ("collect", 0) if self.on("skip_take") && skip_take(recv).is_some() => {
                        let (x, a, b) = skip_take(recv).unwrap();
                        self.note("xs.iter().skip(a).take(b).copied().collect() -> vx_skip_take(&xs, a, b)");
                        Some(match b { Some(b) => parse_quote!(vx_skip_take(&#x, #a, #b)), None => parse_quote!(vx_skip(&#x, #a)) })
                    }
                    ("map_err", 1) => {
                        let a = &m.args[0];
                        self.note(".map_err(f) -> match");
                        match closure1(a) {
                            Some((p, b)) => Some(parse_quote!(match #recv { Ok(vx_v) => Ok(vx_v), Err(#p) => Err(#b) })),
                            None => {
                                let s = norm(&toks(&a.to_token_stream()));
                                if s == "Into::into" || s == "From::from" {
                                    Some(parse_quote!(match #recv { Ok(vx_v) => Ok(vx_v), Err(vx_e) => Err(vx_into_error(vx_e)) }))
                                } else {
                                    Some(parse_quote!(match #recv { Ok(vx_v) => Ok(vx_v), Err(vx_e) => Err(#a(vx_e)) }))
                                }
                            }
                        }
                    }
                    ("and_then", 1) if self.on("option_map") => match closure1(&m.args[0]) {
                        Some((p, b)) => { self.note(".and_then(closure) -> match"); Some(parse_quote!(match #recv { Some(#p) => #b, None => None })) }
                        None => None,
                    }
                    ("ok_or", 1) => {
                        let a = &m.args[0];
                        self.note(".ok_or(e) -> match");
                        Some(parse_quote!(match #recv { Some(vx_v) => Ok(vx_v), None => Err(#a) }))
                    }
                    ("ok_or_else", 1) => {
                        if let Expr::Closure(c) = &m.args[0] { let b = &c.body; let ok = closed(b);
                        self.note(".ok_or_else(f) -> match");
                        if ok { Some(parse_quote!(match #recv { Some(vx_v) => Ok(vx_v), None => Err(#b) })) } else { None } } else { None }
                    }
                    ("or_else", 1) => match &m.args[0] {
                        Expr::Closure(c) if c.inputs.is_empty() && closed(&c.body) => { let b = &c.body; self.note(".or_else(closure) -> match"); Some(parse_quote!(match #recv { Some(vx_v) => Some(vx_v), None => #b })) }
                        a => match closure1(a) { Some((p, b)) => { self.note(".or_else(closure) -> match"); Some(parse_quote!(match #recv { Ok(vx_v) => Ok(vx_v), Err(#p) => #b })) } None => None },
                    }
                    ("unwrap_or_else", 1) => {
                        if let Expr::Closure(c) = &m.args[0] { if c.inputs.is_empty() && closed(&c.body) { let b = &c.body;
                        self.note(".unwrap_or_else(f) -> match");
                        Some(parse_quote!(match #recv { Some(vx_v) => vx_v, None => #b })) } else { None } } else { None }
                    }
                    ("unwrap_or", 1) => {
                        let a = &m.args[0];
                        self.note(".unwrap_or(e) -> match");
                        Some(parse_quote!(match #recv { Some(vx_v) => vx_v, None => #a }))
                    }
                    ("to_string", 0) | ("to_owned", 0) => {
                        if let Expr::Lit(l) = &**recv { self.note("\"..\".to_string() -> vx_string"); Some(parse_quote!(vx_string(#l))) } else { None }
                    }
                    _ => None,
                }
            }
            Expr::Macro(m) => self.mac(&m.mac),
            Expr::Match(m) if self.on("str_match") && m.arms.iter().any(|a| strpat(&a.pat).map(|v| !v.is_empty()).unwrap_or(false)) => self.str_match(m),
            // the verifier cannot handle an arm guard when the scrutinee is itself a statement
            Expr::Match(m) if m.arms.iter().any(|a| a.guard.is_some()) && matches!(&*m.expr, Expr::Index(_) | Expr::MethodCall(_) | Expr::Call(_) | Expr::Try(_)) => {
                self.note("match e { .. if .. } -> let s = e; match s");
                let (e, arms) = (&m.expr, &m.arms);
                Some(parse_quote!({ let vx_s = #e; match vx_s { #(#arms)* } }))
            }
            Expr::Paren(_) | _ => None,
        };
        if let Some(n) = new { *e = n; }
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            if let Some(e) = self.mac(&m.mac) {
                let e: Expr = if m.semi_token.is_some() && matches!(m.mac.path.segments.last().unwrap().ident.to_string().as_str(), "panic" | "unimplemented" | "todo" | "unreachable") { parse_quote!(return vx_panic()) } else { e };
                *s = if m.semi_token.is_some() { Stmt::Expr(e, Some(Default::default())) } else { Stmt::Expr(e, None) };
                visit_mut::visit_stmt_mut(self, s);
                return;
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        // let f = |a, b| body;  ... f(x, y) ...   ->   { let (a, b) = (x, y); body }
        let mut i = 0;
        while i < b.stmts.len() {
            let hit = match &b.stmts[i] {
                Stmt::Local(l) => match (&l.pat, l.init.as_ref().map(|x| &*x.expr)) {
                    (Pat::Ident(p), Some(Expr::Closure(c))) if p.by_ref.is_none() && c.asyncness.is_none() => { let mut e = Esc(false); e.visit_expr(&c.body); if e.0 { None } else { Some((p.ident.clone(), c.clone())) } }
                    _ => None,
                },
                _ => None,
            };
            if let Some((name, c)) = hit {
                let mut inl = Inline { name: name.clone(), c, other: false };
                let mut rest: Vec<Stmt> = b.stmts[i + 1..].to_vec();
                for s in rest.iter_mut() { inl.visit_stmt_mut(s); }
                if !inl.other { b.stmts.truncate(i); b.stmts.extend(rest); self.note("local closure inlined at its calls"); continue; }
            }
            i += 1;
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_local_mut(&mut self, l: &mut Local) {
        l.attrs.clear();
        visit_mut::visit_local_mut(self, l);
    }
}

struct Esc(bool);
impl<'ast> Visit<'ast> for Esc {
    fn visit_expr_return(&mut self, _: &'ast ExprReturn) { self.0 = true; }
    fn visit_expr_try(&mut self, _: &'ast ExprTry) { self.0 = true; }
}
struct Inline { name: Ident, c: ExprClosure, other: bool }
impl VisitMut for Inline {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Call(c) = e {
            if matches!(&*c.func, Expr::Path(p) if p.path.is_ident(&self.name)) && c.args.len() == self.c.inputs.len() {
                for a in c.args.iter_mut() { self.visit_expr_mut(a); }
                let mut pats = vec![]; let mut tys = vec![]; let mut typed = true;
                for p in &self.c.inputs { match p { Pat::Type(t) => { pats.push((*t.pat).clone()); tys.push((*t.ty).clone()); } p => { pats.push(p.clone()); typed = false; } } }
                let (args, body) = (&c.args, &self.c.body);
                *e = if pats.len() == 1 { let p = &pats[0]; if typed { let t = &tys[0]; parse_quote!({ let #p: #t = #args; #body }) } else { parse_quote!({ let #p = #args; #body }) } }
                     else if pats.is_empty() { parse_quote!({ #body }) }
                     else if typed { parse_quote!({ let (#(#pats),*): (#(#tys),*) = (#args); #body }) } else { parse_quote!({ let (#(#pats),*) = (#args); #body }) };
                return;
            }
        }
        if let Expr::Path(p) = e { if p.path.is_ident(&self.name) { self.other = true; } }
        visit_mut::visit_expr_mut(self, e);
    }
}
fn lit_index(e: &Expr) -> bool {
    match e { Expr::Index(x) => matches!(&*x.index, Expr::Lit(l) if matches!(l.lit, Lit::Str(_))), Expr::Paren(p) => lit_index(&p.expr), _ => false }
}
/// string literals of a pattern; Some([]) for a wildcard
fn strpat(p: &Pat) -> Option<Vec<LitStr>> {
    match p {
        Pat::Lit(l) => if let Lit::Str(s) = &l.lit { Some(vec![s.clone()]) } else { None },
        Pat::Or(o) => { let mut v = vec![]; for c in &o.cases { let x = strpat(c)?; if x.is_empty() { return None; } v.extend(x); } Some(v) }
        Pat::Wild(_) => Some(vec![]),
        Pat::Paren(q) => strpat(&q.pat),
        _ => None,
    }
}
impl<'a> Rw<'a> {
    /// match on string literals -> if / else if over vx_streq
    fn str_match(&mut self, m: &ExprMatch) -> Option<Expr> {
        let e = &m.expr;
        let mut acc: Option<Expr> = None;
        for a in m.arms.iter().rev() {
            let b = &a.body;
            if a.guard.is_some() { return None; }
            match &a.pat {
                Pat::Ident(i) if i.subpat.is_none() => { if acc.is_some() { return None; } let p = &a.pat; acc = Some(parse_quote!({ let #p = vx_m; #b })); continue; }
                _ => {}
            }
            let v = strpat(&a.pat)?;
            if v.is_empty() { if acc.is_some() { return None; } acc = Some(parse_quote!({ #b })); continue; }
            let f = v.iter().map(|s| { let x: Expr = parse_quote!(vx_streq(vx_m, #s)); x }).reduce(|x, y| parse_quote!(#x || #y))?;
            let t = acc?;
            acc = Some(match &t { Expr::Block(bl) => { let bl = &bl.block; parse_quote!({ if #f { #b } else #bl }) } , t => parse_quote!({ if #f { #b } else { #t } }) });
        }
        self.note("match on string literals -> if/else over string equality");
        let t = acc?;
        Some(parse_quote!({ let vx_m = #e; #t }))
    }
}
fn for_src(e: &Expr) -> Option<(Expr, u8)> {
    if let Expr::MethodCall(m) = e {
        if m.args.is_empty() {
            match m.method.to_string().as_str() {
                "iter" => return Some(((*m.receiver).clone(), 0)),
                "iter_mut" => return Some(((*m.receiver).clone(), 2)),
                "rev" => { if let Some((s, 0)) = for_src(&m.receiver) { return Some((s, 1)); } }
                _ => {}
            }
        }
    }
    None
}
fn enum_src(e: &Expr) -> Option<Expr> {
    if let Expr::MethodCall(m) = e { if m.method == "enumerate" && m.args.is_empty() { if let Some((s, 0)) = for_src(&m.receiver) { return Some(s); } } }
    None
}
fn owned_src(e: &Expr) -> bool {
    if let Expr::MethodCall(m) = e { if m.method == "into_iter" { return true; } if m.method == "iter" { return false; } return owned_src(&m.receiver); }
    false
}
/// `xs.iter()|into_iter() .skip(a) [.take(b)] [.copied()]`
fn skip_take(e: &Expr) -> Option<(Expr, Expr, Option<Expr>)> {
    let mut e = e; let mut take = None;
    loop {
        let Expr::MethodCall(m) = e else { return None };
        match (m.method.to_string().as_str(), m.args.len()) {
            ("copied" | "cloned", 0) => e = &m.receiver,
            ("take", 1) if take.is_none() => { take = Some(m.args[0].clone()); e = &m.receiver; }
            ("skip", 1) => { let Expr::MethodCall(i) = &*m.receiver else { return None }; if (i.method == "iter" || i.method == "into_iter") && i.args.is_empty() { return Some(((*i.receiver).clone(), m.args[0].clone(), take)); } return None; }
            _ => return None,
        }
    }
}
#[derive(Clone)]
enum Ad { Enumerate, Filter(Pat, Expr), Map(Pat, Expr) }
fn peel(e: &Expr, o: &mut Vec<Ad>) -> Option<Expr> {
    if let Expr::Paren(p) = e { return peel(&p.expr, o); }
    if let Expr::MethodCall(m) = e {
        let n = m.method.to_string();
        match (n.as_str(), m.args.len()) {
            ("iter", 0) | ("into_iter", 0) => { return Some((*m.receiver).clone()); }
            ("bytes", 0) => { let r = &m.receiver; o.push(Ad::Map(parse_quote!(vx_c), parse_quote!(*vx_c))); return Some(parse_quote!(#r.vx_bytes())); }
            ("enumerate", 0) => { let s = peel(&m.receiver, o)?; o.push(Ad::Enumerate); return Some(s); }
            ("copied", 0) | ("cloned", 0) => { let s = peel(&m.receiver, o)?; o.push(Ad::Map(parse_quote!(vx_c), parse_quote!(*vx_c))); return Some(s); }
            ("filter", 1) => { let (p, b) = closure1(&m.args[0])?; let s = peel(&m.receiver, o)?; o.push(Ad::Filter(p, b)); return Some(s); }
            ("map", 1) => { let (p, b) = closure1(&m.args[0])?; let s = peel(&m.receiver, o)?; o.push(Ad::Map(p, b)); return Some(s); }
            _ => {}
        }
    }
    None
}
/// `xs.into_iter()` / `xs.drain(0..)` / `xs.drain(..)` with at most one map and any number of rev: (xs, closure, reversed)
fn peel_ext(e: &Expr) -> Option<(Expr, Option<(Pat, Expr)>, bool)> {
    if let Expr::Paren(p) = e { return peel_ext(&p.expr); }
    if let Expr::MethodCall(m) = e {
        match (m.method.to_string().as_str(), m.args.len()) {
            ("into_iter", 0) => return Some(((*m.receiver).clone(), None, false)),
            ("drain", 1) => if let Expr::Range(r) = &m.args[0] {
                let z = match &r.start { None => true, Some(x) => norm(&toks(&x.to_token_stream())) == "0" };
                if z && r.end.is_none() { return Some(((*m.receiver).clone(), None, false)); }
            },
            ("rev", 0) => { let (s, c, r) = peel_ext(&m.receiver)?; return Some((s, c, !r)); }
            ("map", 1) => { let (p, b) = closure1(&m.args[0])?; let (s, c, r) = peel_ext(&m.receiver)?; if c.is_some() { return None; } return Some((s, Some((p, b)), r)); }
            _ => {}
        }
    }
    None
}
impl<'a> Rw<'a> {
    /// `xs.extend(ys.into_iter()|drain(..)[.map(f)][.rev()])` -> a while loop that pushes
    fn extend(&mut self, recv: &Expr, arg: &Expr, fresh: bool) -> Option<Expr> {
        let (src, c, rev) = peel_ext(arg)?;
        let k = self.loops; self.loops += 1;
        let id = syn::Lit::Int(LitInt::new(&k.to_string(), proc_macro2::Span::call_site()));
        let vs = format_ident!("vx_s{}", k); let vi = format_ident!("vx_i{}", k);
        self.note(".extend / .rev().collect() of an owned iterator) -> while loop that pushes");
        let at: Expr = if rev { parse_quote!(vx_nth(&#vs, #vs.len() - 1 - #vi)) } else { parse_quote!(vx_nth(&#vs, #vi)) };
        let body: Expr = match c { Some((p, b)) => parse_quote!({ let #p = #at; #b }), None => at };
        let init: Option<Stmt> = if fresh { Some(parse_quote!(let mut vx_v = Vec::new();)) } else { None };
        let out: Option<Expr> = if fresh { Some(recv.clone()) } else { None };
        Some(parse_quote!({ #init let #vs = #src; let mut #vi: usize = 0;
            while #vi < #vs.len() { __loop_marker!(#id); let vx_t = #body; #recv.push(vx_t); #vi = #vi + 1; } #out }))
    }
    /// `xs.iter().<adapters>.<fold|find_map|find|any|all|position>(..)` -> a while loop over an index
    fn chain(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let mut ads = vec![];
        let src = peel(&m.receiver, &mut ads)?;
        let k = self.loops;
        let id = syn::Lit::Int(LitInt::new(&k.to_string(), proc_macro2::Span::call_site()));
        let vs = format_ident!("vx_s{}", k); let vi = format_ident!("vx_i{}", k); let va = format_ident!("vx_a{}", k); let vt = format_ident!("vx_t{}", k);
        let name = m.method.to_string();
        let (init, step, stop): (Expr, Vec<Stmt>, Option<Expr>) = match name.as_str() {
            "fold" if m.args.len() == 2 => {
                let i = m.args[0].clone();
                if let Expr::Closure(c) = &m.args[1] { if c.inputs.len() != 2 || !closed(&c.body) { return None; }
                    let (pa, pb, b) = (&c.inputs[0], &c.inputs[1], &c.body);
                    (i, vec![parse_quote!(#va = { let #pa = #va; let #pb = #vt; #b };)], None)
                } else { return None; }
            }
            "find_map" => { let (p, b) = closure1(&m.args[0])?; (parse_quote!(None), vec![parse_quote!(#va = { let #p = #vt; #b };)], Some(parse_quote!(match #va { None => true, _ => false }))) }
            "find" => { let (p, b) = closure1(&m.args[0])?; (if ads.is_empty() { parse_quote!(if false { Some(&#vs[0]) } else { None }) } else { parse_quote!(None) }, vec![parse_quote!(if { let #p = #vt; #b } { #va = Some(#vt); })], Some(parse_quote!(#va.is_none()))) }
            "collect" => (parse_quote!(Vec::new()), vec![parse_quote!(#va.push(#vt);)], None),
            "any" => { let (p, b) = closure1(&m.args[0])?; (parse_quote!(false), vec![parse_quote!(#va = { let #p = #vt; #b };)], Some(parse_quote!(!#va))) }
            "all" => { let (p, b) = closure1(&m.args[0])?; (parse_quote!(false), vec![parse_quote!(#va = { let #p = #vt; !(#b) };)], Some(parse_quote!(!#va))) }
            "position" if !ads.iter().any(|a| matches!(a, Ad::Filter(..))) => { let (p, b) = closure1(&m.args[0])?; (parse_quote!(None), vec![parse_quote!(if { let #p = #vt; #b } { #va = Some(vx_j); })], Some(parse_quote!(match #va { None => true, _ => false }))) }
            _ => return None,
        };
        self.loops += 1;
        self.note("iterator chain -> while loop over an index");
        // innermost statement first
        let mut body: Vec<Stmt> = step;
        for a in ads.iter().rev() {
            body = match a {
                Ad::Enumerate => { let mut v: Vec<Stmt> = vec![parse_quote!(let #vt = (vx_j, #vt);)]; v.extend(body); v }
                Ad::Map(p, b) => { let mut v: Vec<Stmt> = vec![parse_quote!(let #vt = { let #p = #vt; #b };)]; v.extend(body); v }
                Ad::Filter(p, b) => { vec![parse_quote!(if { let #p = #vt; #b } { #(#body)* })] }
            };
        }
        let elem: Expr = if owned_src(&m.receiver) && (name == "collect" || (name == "find_map" && self.on("owned_iter"))) { parse_quote!(vx_nth(&#vs, #vi)) } else { parse_quote!(&#vs[#vi]) };
        let cond: Expr = match stop { Some(c) => parse_quote!(#vi < #vs.len() && #c), None => parse_quote!(#vi < #vs.len()) };
        let src: Expr = if (matches!(src, Expr::Field(_)) || self.on("iter_ref") && matches!(src, Expr::Path(_))) && !owned_src(&m.receiver) { parse_quote!(&#src) } else { src };
        let out: Expr = if name == "all" { parse_quote!(!#va) } else { parse_quote!(#va) };
        Some(parse_quote!({ let #vs = #src; let mut #vi: usize = 0; let mut #va = #init;
            while #cond { __loop_marker!(#id); let vx_j = #vi; let #vt = #elem; #(#body)* #vi = #vi + 1; } #out }))
    }
    fn mac(&mut self, m: &Macro) -> Option<Expr> {
        let n = m.path.segments.last().unwrap().ident.to_string();
        let args: Vec<Expr> = m
            .parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated)
            .map(|p| p.into_iter().collect())
            .unwrap_or_default();
        let r = match n.as_str() {
            "panic" | "unimplemented" | "todo" | "unreachable" => { self.note("panic!-family -> vx_panic() [requires false]"); Some(parse_quote!(vx_panic())) }
            "assert" | "debug_assert" if !args.is_empty() => {
                let a = &args[0];
                self.note("assert! -> vx_assert(..) [requires it]");
                Some(parse_quote!(vx_assert(#a)))
            }
            "assert_eq" | "debug_assert_eq" if args.len() >= 2 => {
                let (a, b) = (&args[0], &args[1]);
                self.note("assert_eq! -> vx_assert(..) [requires it]");
                Some(parse_quote!(vx_assert(#a == #b)))
            }
            "ensure" if !args.is_empty() => { let a = &args[0]; self.note("anyhow::ensure! -> if !(..) { return Err(vx_any()) }"); Some(parse_quote!(if !(#a) { return Err(vx_any()); })) }
            "bail" => { self.note("anyhow::bail! -> return Err(vx_any())"); Some(parse_quote!(return Err(vx_any()))) }
            "anyhow" => { self.note("anyhow! -> vx_any()"); Some(parse_quote!(vx_any())) }
            // format!("..{x}..", a) -> vx_fmt!("..{x}..", a, x); write!(f, "..", a) -> vx_wr!(f, "..", a): the unit's macros give the formats it knows a meaning
            "format" | "write" if self.on("fmt") => {
                let k = if n == "write" { 1 } else { 0 };
                if let Some(Expr::Lit(ExprLit { lit: Lit::Str(l), .. })) = args.get(k) {
                    let t = l.value(); let mut caps: Vec<Expr> = vec![]; let c: Vec<char> = t.chars().collect(); let mut i = 0;
                    while i < c.len() { if c[i] == '{' { if c.get(i + 1) == Some(&'{') { i += 2; continue; } let w: String = c[i + 1..].iter().take_while(|x| x.is_alphanumeric() || **x == '_').collect(); if w.chars().next().map_or(false, |x| !x.is_ascii_digit()) { let id = format_ident!("{}", w); caps.push(parse_quote!(#id)); } } i += 1; }
                    let (pre, rest) = (&args[..k], &args[k + 1..]);
                    self.note("format!/write! -> vx_fmt!/vx_wr! (captured names appended)");
                    if n == "write" { Some(parse_quote!(vx_wr!(#(#pre,)* #l #(, #rest)* #(, #caps)*))) } else { Some(parse_quote!(vx_fmt!(#l #(, #rest)* #(, #caps)*))) }
                } else { None }
            }
            "format" => { self.note("format! -> vx_format()"); Some(parse_quote!(vx_format())) }
            "vec" => {
                // vec![x; n] -> vx_vec_fill(x, n)
                let p = m.parse_body_with(|i: parse::ParseStream| { let a: Expr = i.parse()?; i.parse::<Token![;]>()?; let b: Expr = i.parse()?; Ok((a, b)) });
                if let Ok((a, b)) = p { self.note("vec![x; n] -> vx_vec_fill(x, n)"); Some(parse_quote!(vx_vec_fill(#a, #b))) } else { None }
            }
            "println" | "eprintln" | "log" | "debug" | "info" | "warn" | "error" => { self.note("printing dropped"); Some(parse_quote!(())) }
            _ => None,
        };
        r.map(|mut e| { self.visit_expr_mut(&mut e); e })
    }
}

struct Calls(BTreeSet<String>);
impl<'ast> Visit<'ast> for Calls {
    fn visit_expr_call(&mut self, c: &'ast ExprCall) {
        if let Expr::Path(p) = &*c.func { self.0.insert(p.path.segments.last().unwrap().ident.to_string()); }
        visit::visit_expr_call(self, c);
    }
    fn visit_expr_method_call(&mut self, c: &'ast ExprMethodCall) { self.0.insert(c.method.to_string()); visit::visit_expr_method_call(self, c); }
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| { let s = norm(&toks(&a.to_token_stream())); s == "#[test]" || s.contains("cfg(test)") || s.contains("cfg(kani)") || s.contains("wasm32") })
}

impl Cx {
    fn file(&mut self, f: &str) -> File {
        if let Some(x) = self.files.get(f) { return x.clone(); }
        let p = match f.strip_prefix('!') { Some(g) => format!("{}/{}", std::env::var("VX_BUILD").unwrap_or_default(), g), None => format!("{}/{}", self.repo, f) };
        let src = std::fs::read_to_string(&p).unwrap_or_else(|_| die(&format!("cannot read {p}")));
        let x = parse_file(&src).unwrap_or_else(|e| die(&format!("cannot parse {p}: {e}")));
        self.files.insert(f.into(), x.clone());
        x
    }

    fn sub(&self, s: String) -> String {
        // substitution on token text, at token boundaries
        let mut s = format!(" {s} ");
        for (a, b) in &self.subs { let pa = format!(" {a} "); let pb = format!(" {b} ");
            while s.contains(&pa) { let n = s.replace(&pa, &pb); if n == s || pb.contains(&pa) { s = n; break; } s = n; } }
        s.trim().to_string()
    }

    fn emit_fn(&mut self, owner: &str, vis: bool, sig: &Signature, block: Option<&Block>, fname_ctx: &str) {
        let name = sig.ident.to_string();
        let qual = if owner.is_empty() { name.clone() } else { format!("{owner}::{name}") };
        let key = if self.contracts.contains_key(&qual) || self.known.contains(&qual) { qual.clone() } else { name.clone() };
        let mut c = self.contracts.get(&key).cloned().unwrap_or_default();
        if let Some(x) = self.contracts.get_mut(&key) { x.used = true; }
        if c.skip { self.dropped.insert(format!("fn {qual} ({fname_ctx}) is not extracted")); return; }
        let has = self.contracts.contains_key(&key);
        if !has && !self.known.contains(&qual) && !self.known.contains(&name) { self.fresh.push(qual.clone()); }
        self.emitted.push(qual.clone());
        if has && block.is_some() { self.contracted.push(qual.clone()); }
        let mut sig = sig.clone();
        for i in sig.inputs.iter_mut() { match i { FnArg::Receiver(r) => r.attrs.clear(), FnArg::Typed(t) => t.attrs.clear() } }
        for (k, i) in sig.inputs.iter_mut().enumerate() { if let FnArg::Typed(t) = i { if let Pat::Wild(_) = &*t.pat { let n = format_ident!("vx_arg{k}"); t.pat = Box::new(parse_quote!(#n)); } } }
        let mut pre = String::new();
        // `mut` parameters: Verus wants plain names
        let mut shadow = String::new();
        let mut own = false;
        for i in sig.inputs.iter_mut() {
            if let FnArg::Typed(t) = i { if let Pat::Ident(p) = &mut *t.pat { if p.mutability.is_some() && p.by_ref.is_none() { p.mutability = None; let n = p.ident.to_string(); let _ = write!(shadow, "let mut {n} = {n} ; "); } } }
            if let FnArg::Receiver(r) = i { if r.reference.is_none() && r.mutability.is_some() { r.mutability = None; own = true; shadow.push_str("let mut self_ = self ; "); } }
        }
        let mut clash = false;
        let cg = sig.generics.const_params().next().is_some();
        for i in sig.inputs.iter_mut() { if let FnArg::Typed(t) = i { if let Pat::Ident(p) = &mut *t.pat { if cg && p.ident == name { p.ident = format_ident!("{name}_"); clash = true; } } } }
        for a in &c.attrs { pre.push_str(a); pre.push('\n'); }
        let SigParts { head, ret, wh } = split_sig(&sig);
        let head = self.sub(head);
        let wh = self.sub(wh);
        let retn = c.ret.take().unwrap_or_else(|| "r".into());
        let rets = match ret { Some(t) => format!("-> ({retn} : {})", self.sub(t)), None => String::new() };
        let v = if vis { "pub " } else { "" };
        match block {
            None => { let _ = write!(self.out, "{pre}{v}{head} {rets} {wh}\n{}\n;\n", c.clauses); }
            Some(b) => {
                let mut b = b.clone();
                let mut inner: Vec<ItemFn> = vec![];
                for st in b.stmts.iter_mut() {
                    if let Stmt::Item(Item::Fn(f)) = st { inner.push(f.clone()); }
                    if let Stmt::Item(Item::Const(c)) = st { let (i, t, e) = (&c.ident, &c.ty, &c.expr); let n: Stmt = parse_quote!(let #i : #t = #e ;); self.dropped.insert(format!("rewrite const {i} inside fn {name} is a let")); *st = n; }
                }
                b.stmts.retain(|st| !matches!(st, Stmt::Item(Item::Fn(_))));
                for f in inner { self.dropped.insert(format!("rewrite fn {} inside fn {name} is a function of its own", f.sig.ident)); self.inner.push((f, fname_ctx.to_string())); }
                if clash { RenameVar(name.clone()).visit_block_mut(&mut b); self.dropped.insert(format!("parameter {name} of fn {name} renamed to {name}_")); }
                if own { SelfVar.visit_block_mut(&mut b); }
                let mut rw = Rw { cx: &self.rw.clone(), loops: 0, tmp: 0, notes: Default::default() };
                rw.visit_block_mut(&mut b);
                let _ = rw.tmp;
                let nl = rw.loops;
                for n in rw.notes { self.dropped.insert(format!("rewrite {n}")); }
                let mut calls = Calls(Default::default());
                calls.visit_block(&b);
                let mut t = self.sub(toks(&b.to_token_stream()));
                for k in 0..nl {
                    t = t.replace(&format!("in __vx_it{k} ("), &format!("in vx_it{k} : ("));
                    let inv = match c.loops.get(&k) { Some(x) => x.clone(), None => { self.loops_unannotated.push(format!("{qual}#{k}")); String::new() } };
                    let body = c.bodies.get(&k).cloned().unwrap_or_default();
                    let pat = format!("{{ __loop_marker ! ( {k} ) ;");
                    t = t.replace(&pat, &format!("\n{inv}\n{{ {body}"));
                }
                let t = t.strip_prefix('{').unwrap().to_string();
                let code = pretty(&format!("{{ {shadow}{}\n{t}", c.entry));
                let _ = write!(self.out, "// @FN {qual}\n{pre}{v}{head} {rets} {wh}\n{}\n{code}\n// @ENDFN\n", c.clauses);
            }
        }
        self.contracts.entry(key).and_modify(|x| x.used = true);
    }

    fn emit_item(&mut self, it: &Item, only: &Option<BTreeSet<String>>, file: &str, owner_as: &Option<String>) {
        match it {
            Item::Fn(f) => self.emit_fn(owner_as.as_deref().unwrap_or(""), true, &f.sig, Some(&f.block), file),
            Item::Const(c) => { let mut c = c.clone(); c.attrs.clear(); let (i, t, e) = (&c.ident, &c.ty, &c.expr); let s = self.sub(toks(&quote!(pub const #i : #t = #e ;))); self.out.push_str(&s); self.out.push('\n'); }
            Item::Type(c) => { let mut c = c.clone(); c.attrs.clear(); c.vis = parse_quote!(pub); let s = self.sub(toks(&c.to_token_stream())); self.out.push_str(&s); self.out.push('\n'); }
            Item::Struct(s) => {
                let mut s = s.clone(); s.attrs.clear(); s.vis = parse_quote!(pub);
                for f in s.fields.iter_mut() { f.attrs.clear(); f.vis = parse_quote!(pub); }
                let t = self.sub(toks(&s.to_token_stream())); self.out.push_str(&pretty(&t)); self.out.push('\n');
            }
            Item::Enum(s) => {
                let mut s = s.clone(); s.attrs.clear(); s.vis = parse_quote!(pub);
                for v in s.variants.iter_mut() { v.attrs.clear(); for f in v.fields.iter_mut() { f.attrs.clear(); } }
                let t = self.sub(toks(&s.to_token_stream())); self.out.push_str(&pretty(&t)); self.out.push('\n');
            }
            Item::Trait(t) => {
                let mut h = t.clone(); h.attrs.clear(); h.items.clear(); h.vis = parse_quote!(pub);
                let s = self.sub(toks(&h.to_token_stream()));
                let s = s.trim_end().trim_end_matches('}').trim_end().trim_end_matches('{').to_string();
                let _ = write!(self.out, "{s} {{\n");
                let owner = owner_as.clone().unwrap_or(t.ident.to_string());
                if let Some(x) = self.extras.get(&owner) { self.out.push_str(x); }
                for i in &t.items { match i {
                    TraitItem::Fn(f) => {
                        if let Some(o) = only { if !o.contains(&f.sig.ident.to_string()) { self.dropped.insert(format!("fn {}::{} is not extracted", owner, f.sig.ident)); continue; } }
                        self.emit_fn(&owner, false, &f.sig, f.default.as_ref(), file)
                    }
                    TraitItem::Type(t) => { let mut t = t.clone(); t.attrs.clear(); let s = self.sub(toks(&t.to_token_stream())); self.out.push_str(&s); self.out.push('\n'); }
                    _ => {}
                } }
                self.out.push_str("}\n");
            }
            Item::Impl(im) => {
                let canon;
                let im = if self.rw.contains("canon_generics") { canon = canon_generics(im); self.dropped.insert("rewrite canon_generics: the type and const parameters of an impl are renamed G0, G1, ...".into()); &canon } else { im };
                let mut h = im.clone(); h.attrs.clear(); h.items.clear();
                let s = self.sub(toks(&h.to_token_stream()));
                let s = s.trim_end().trim_end_matches('}').trim_end().trim_end_matches('{').to_string();
                let _ = write!(self.out, "{s} {{\n");
                let ty = match &*im.self_ty { Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(), Type::Reference(r) => match &*r.elem { Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(), _ => "ref".into() }, Type::Tuple(_) => "tuple".into(), _ => "ty".into() };
                let owner = owner_as.clone().unwrap_or_else(|| match &im.trait_ { Some((_, p, _)) => p.segments.last().unwrap().ident.to_string(), None => ty });
                let isinh = im.trait_.is_none();
                if let Some(x) = self.extras.get(&owner) { self.out.push_str(x); }
                for i in &im.items { match i {
                    ImplItem::Fn(f) => {
                        if is_test(&f.attrs) { continue; }
                        if let Some(o) = only { if !o.contains(&f.sig.ident.to_string()) { self.dropped.insert(format!("fn {}::{} is not extracted", owner, f.sig.ident)); continue; } }
                        self.emit_fn(&owner, isinh, &f.sig, Some(&f.block), file)
                    }
                    ImplItem::Type(t) => { let mut t = t.clone(); t.attrs.clear(); let s = self.sub(toks(&t.to_token_stream())); self.out.push_str(&s); self.out.push('\n'); }
                    _ => {}
                } }
                self.out.push_str("}\n");
            }
            _ => die("unsupported item kind"),
        }
    }

    fn emit(&mut self, spec: &str) {
        let mut parts = spec.split_whitespace();
        let f = parts.next().unwrap().to_string();
        let sel = parts.next().unwrap_or_else(|| die("emit: selector")).to_string();
        let mut only = None;
        let mut owner = None;
        for p in parts { if let Some(o) = p.strip_prefix("only=") { only = Some(o.split(',').map(|s| s.to_string()).collect::<BTreeSet<_>>()); }
            else if let Some(o) = p.strip_prefix("as=") { owner = Some(o.to_string()); } }
        let file = self.file(&f);
        self.emit_one(&f, &sel, &only, &owner, &file);
        while let Some((g, ctx)) = self.inner.pop() { self.emit_fn("", true, &g.sig, Some(&g.block), &ctx); }
    }
    fn emit_one(&mut self, f: &str, sel: &str, only: &Option<BTreeSet<String>>, owner: &Option<String>, file: &File) {
        let _ = write!(self.out, "// ---- extracted from {f} ({sel})\n");
        let (k, n) = sel.split_once(':').unwrap_or((sel, ""));
        if k == "helpers" {
            for it in &file.items { if let Item::Fn(g) = it { let nm = g.sig.ident.to_string(); if !is_test(&g.attrs) && !self.emitted.contains(&nm) { self.emit_item(it, &None, f, owner); } } }
            return;
        }
        if k == "macro" {
            let (mn, args) = n.split_once('(').unwrap_or_else(|| die("macro selector"));
            let args: Vec<TokenStream> = args.trim_end_matches(')').split(';').map(|s| s.parse().unwrap()).collect();
            for it in &file.items { if let Item::Macro(m) = it { if m.ident.as_ref().map(|i| i == mn).unwrap_or(false) {
                let items = expand_macro(&m.mac.tokens, &args);
                for i in &items { self.emit_item(i, only, f, owner); }
                return;
            } } }
            die(&format!("{f}: macro {mn}"));
        }
        let mut found = false;
        for it in &file.items {
            let hit = match (k, it) {
                ("fn", Item::Fn(g)) => g.sig.ident == n && !is_test(&g.attrs),
                ("trait", Item::Trait(g)) => g.ident == n,
                ("struct", Item::Struct(g)) => g.ident == n,
                ("enum", Item::Enum(g)) => g.ident == n,
                ("const", Item::Const(g)) => g.ident == n,
                ("type", Item::Type(g)) => g.ident == n,
                ("impls", Item::Impl(g)) => !is_test(&g.attrs) && match &g.trait_ { Some((_, p, _)) => n.is_empty() || n.split(',').any(|x| p.segments.last().unwrap().ident == x), None => n.is_empty() || n.split(',').any(|x| x == "inherent") },
                ("impl", Item::Impl(g)) => { let mut h = g.clone(); h.attrs.clear(); h.items.clear(); let s = norm(&toks(&h.to_token_stream())); match n.strip_prefix('=') { Some(x) => s.trim_end_matches("{}") == x, None => s.contains(n) } }
                _ => false,
            };
            if hit { found = true; self.emit_item(it, only, f, owner); if !k.starts_with("impl") { break; } }
        }
        if !found { die(&format!("{f}: {sel}")); }
    }
}

fn canon_generics(im: &ItemImpl) -> ItemImpl {
    let names: Vec<String> = im.generics.params.iter().filter_map(|p| match p { GenericParam::Type(t) => Some(t.ident.to_string()), GenericParam::Const(c) => Some(c.ident.to_string()), _ => None }).collect();
    fn go(t: TokenStream, names: &[String]) -> TokenStream {
        t.into_iter().map(|x| match x {
            TokenTree::Group(g) => { let mut n = Group::new(g.delimiter(), go(g.stream(), names)); n.set_span(g.span()); TokenTree::Group(n) }
            TokenTree::Ident(i) => match names.iter().position(|n| i == n) { Some(k) => TokenTree::Ident(format_ident!("G{k}")), None => TokenTree::Ident(i) },
            x => x,
        }).collect()
    }
    if names.is_empty() { return im.clone(); }
    parse2(go(im.to_token_stream(), &names)).unwrap_or_else(|e| die(&format!("canon_generics: {e}")))
}

fn expand_macro(t: &TokenStream, args: &[TokenStream]) -> Vec<Item> {
    // ( $a : ty , $b : ident ) => { body } ;
    let v: Vec<TokenTree> = t.clone().into_iter().collect();
    let (pat, body) = match (&v[0], &v[3]) { (TokenTree::Group(a), TokenTree::Group(b)) => (a.stream(), b.stream()), _ => die("macro shape") };
    let pv: Vec<TokenTree> = pat.into_iter().collect();
    let mut names = vec![];
    for i in 0..pv.len() { if let TokenTree::Punct(p) = &pv[i] { if p.as_char() == '$' { if let Some(TokenTree::Ident(id)) = pv.get(i + 1) { names.push(id.to_string()); } } } }
    fn subst(t: TokenStream, names: &[String], args: &[TokenStream]) -> TokenStream {
        let v: Vec<TokenTree> = t.into_iter().collect();
        let mut o = TokenStream::new();
        let mut i = 0;
        while i < v.len() {
            match &v[i] {
                TokenTree::Punct(p) if p.as_char() == '$' => {
                    if let Some(TokenTree::Ident(id)) = v.get(i + 1) {
                        if let Some(k) = names.iter().position(|n| id == n) { o.extend(args[k].clone()); i += 2; continue; }
                    }
                    o.extend([v[i].clone()]); i += 1;
                }
                TokenTree::Group(g) => { o.extend([TokenTree::Group(Group::new(g.delimiter(), subst(g.stream(), names, args)))]); i += 1; }
                x => { o.extend([x.clone()]); i += 1; }
            }
        }
        o
    }
    let e = subst(body, &names, args);
    let f: File = parse2(e).unwrap_or_else(|e| die(&format!("macro body: {e}")));
    f.items
}

struct SelfVar;
impl VisitMut for SelfVar {
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) { if p.path.is_ident("self") { p.path.segments[0].ident = format_ident!("self_"); } }
}
struct RenameVar(String);
impl VisitMut for RenameVar {
    fn visit_expr_call_mut(&mut self, c: &mut ExprCall) {
        if !matches!(&*c.func, Expr::Path(_)) { self.visit_expr_mut(&mut c.func); }
        for a in c.args.iter_mut() { self.visit_expr_mut(a); }
    }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.path.segments.len() == 1 && p.path.segments[0].ident == self.0 { p.path.segments[0].ident = format_ident!("{}_", self.0); }
    }
}
struct SigParts { head: String, ret: Option<String>, wh: String }
fn split_sig(sig: &Signature) -> SigParts {
    let mut s = sig.clone();
    let wh = s.generics.where_clause.take();
    let ret = match &s.output { ReturnType::Default => None, ReturnType::Type(_, t) => Some(toks(&t.to_token_stream())) };
    s.output = ReturnType::Default;
    SigParts { head: toks(&s.to_token_stream()), ret, wh: wh.map(|w| { let mut t = toks(&w.to_token_stream()); if !t.trim_end().ends_with(',') { t.push_str(" ,"); } t }).unwrap_or_default() }
}

fn jstr(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c => o.push(c) } } o.push('"'); o }
fn jlist<'a>(v: impl IntoIterator<Item = &'a String>) -> String { format!("[{}]", v.into_iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",")) }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (tpl, out, rep, repo) = (&a[1], &a[2], &a[3], &a[4]);
    let dir = std::path::Path::new(tpl).parent().unwrap().to_path_buf();
    // includes
    fn load(p: &std::path::Path, dir: &std::path::Path, o: &mut Vec<String>) {
        for l in std::fs::read_to_string(p).unwrap_or_else(|_| panic!("{p:?}")).lines() {
            if let Some(i) = l.trim().strip_prefix("//@include ") { load(&dir.join(i.trim()), dir, o); } else { o.push(l.to_string()); }
        }
    }
    let mut lines = vec![];
    load(std::path::Path::new(tpl), &dir, &mut lines);
    let mut cx = Cx { extras: Default::default(), repo: repo.clone(), contracts: Default::default(), subs: vec![], rw: Default::default(), emitted: vec![], contracted: vec![], loops_unannotated: vec![], fresh: vec![], inner: vec![], files: Default::default(), known: Default::default(), out: String::new(), dropped: Default::default() };
    // pass 1: contracts
    let mut rest: Vec<String> = vec![];
    let mut cur: Option<(String, Contract)> = None;
    let mut mode: (u8, usize) = (0, 0);
    for l in lines {
        let t = l.trim();
        if let Some((_, c)) = cur.as_mut() {
            if t == "//@end" { let (n, c) = cur.take().unwrap(); if let Some(o) = n.strip_prefix("impl:") { cx.extras.insert(o.to_string(), c.clauses); } else { cx.contracts.insert(n, c); } continue; }
            if let Some(r) = t.strip_prefix("//@ret ") { c.ret = Some(r.trim().into()); continue; }
            if let Some(r) = t.strip_prefix("//@attr ") { c.attrs.push(r.trim().into()); continue; }
            if let Some(r) = t.strip_prefix("//@loop ") { mode = (1, r.trim().parse().unwrap()); continue; }
            if let Some(r) = t.strip_prefix("//@body ") { mode = (2, r.trim().parse().unwrap()); continue; }
            if t == "//@entry" { mode = (3, 0); continue; }
            if t == "//@skip" { c.skip = true; continue; }
            let tgt = match mode.0 { 0 => &mut c.clauses, 1 => c.loops.entry(mode.1).or_default(), 2 => c.bodies.entry(mode.1).or_default(), _ => &mut c.entry };
            tgt.push_str(&l); tgt.push('\n');
            continue;
        }
        if let Some(n) = t.strip_prefix("//@impl ") { cur = Some((format!("impl:{}", n.trim()), Contract::default())); mode = (0, 0); continue; }
        if let Some(n) = t.strip_prefix("//@fn ") { cur = Some((n.trim().to_string(), Contract::default())); mode = (0, 0); continue; }
        if let Some(n) = t.strip_prefix("//@known ") { for x in n.split_whitespace() { cx.known.insert(x.to_string()); } continue; }
        rest.push(l);
    }
    for l in rest {
        let t = l.trim();
        if let Some(s) = t.strip_prefix("//@sub ") { let (x, y) = s.split_once("=>>").unwrap_or_else(|| s.split_once("=>").expect("sub")); cx.subs.push((x.trim().into(), y.trim().into())); cx.dropped.insert(format!("token substitution `{}` -> `{}`", x.trim(), y.trim())); }
        else if t == "//@nosub" { cx.subs.clear(); }
        else if let Some(s) = t.strip_prefix("//@rw ") { if let Some(n) = s.strip_prefix('-') { cx.rw.remove(n); } else { cx.rw.insert(s.trim().into()); } }
        else if let Some(s) = t.strip_prefix("//@emit ") { cx.emit(s); }
        else { cx.out.push_str(&l); cx.out.push('\n'); }
    }
    let unused: Vec<String> = cx.contracts.iter().filter(|(_, c)| !c.used && !c.skip).map(|(n, _)| n.clone()).collect();
    std::fs::write(out, &cx.out).unwrap();
    let j = format!("{{\"emitted\":{},\"contracted\":{},\"loops_unannotated\":{},\"fresh_functions\":{},\"contracts_without_function\":{},\"rewrites\":{}}}\n", jlist(&cx.emitted), jlist(&cx.contracted), jlist(&cx.loops_unannotated), jlist(&cx.fresh), jlist(&unused), jlist(&cx.dropped));
    std::fs::write(rep, j).unwrap();
    if !unused.is_empty() { die(&format!("contract target(s) not found: {}", unused.join(", "))); }
}
