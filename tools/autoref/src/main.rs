// usage: autoref FILE -> JSON lines of behaviour-preserving edits {kind,start,end,new}
use proc_macro2::{Delimiter, TokenStream, TokenTree};
use syn::{spanned::Spanned, visit::{self, Visit}, *};
struct V<'a> { src: &'a str, out: Vec<(String, usize, usize, String)>, infn: u32 }
fn json(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), '\r' => o.push_str("\\r"), c => o.push(c) } } o.push('"'); o }
impl<'a> V<'a> {
    fn t<T: Spanned>(&self, n: &T) -> &'a str { let r = n.span().byte_range(); &self.src[r] }
    fn r<T: Spanned>(&self, n: &T) -> (usize, usize) { let r = n.span().byte_range(); (r.start, r.end) }
    fn e<T: Spanned>(&mut self, k: &str, n: &T, new: String) { let (a, b) = self.r(n); if b > a { self.out.push((k.into(), a, b, new)); } }
    fn inner(&self, b: &Block) -> &'a str { let s = self.t(b); &s[1..s.len() - 1] }
    fn body(&mut self, b: &Block, ret_unit: bool, recv: bool) {
        if let Some(Stmt::Expr(x, None)) = b.stmts.last() {
            if !matches!(x, Expr::Return(_)) {
                let t = self.t(x);
                self.e("tail_let", x, format!("let __r = {}; __r", t));
                self.e("tail_return", x, format!("return {};", t));
            }
            if let Expr::If(i) = x { if let Some((_, els)) = &i.else_branch { if !matches!(*i.cond, Expr::Let(_)) { if let Expr::Block(eb) = &**els {
                let n = format!("if {} {{ return {}; }} {}", self.t(&i.cond), self.t(&i.then_branch), self.inner(&eb.block));
                self.e("early_return", x, n);
            } } } }
        }
        let _ = ret_unit;
        if recv {
            let s = self.inner(b);
            let mut o = String::new(); let bs = s.as_bytes(); let mut i = 0;
            while i < s.len() {
                if s[i..].starts_with("self") && (i == 0 || !(bs[i-1].is_ascii_alphanumeric() || bs[i-1] == b'_' )) && !s[i+4..].starts_with(|c: char| c.is_ascii_alphanumeric() || c == '_' || c == ':') { o.push_str("this_"); i += 4; }
                else { let c = s[i..].chars().next().unwrap(); o.push(c); i += c.len_utf8(); }
            }
            self.e("self_alias", b, format!("{{ let this_ = self; {} }}", o));
        }
        let s = self.inner(b);
        self.e("closure", b, format!("{{ let mut __f = || {{ {} }}; __f() }}", s));
        self.e("innerblock", b, format!("{{ let __r = {{ {} }}; __r }}", s));
    }
    fn stmts(&mut self, b: &Block) {
        let n = b.stmts.len();
        for i in 0..n {
            // guard: if c { diverge } rest -> if/else
            if let Stmt::Expr(Expr::If(f), _) = &b.stmts[i] { if f.else_branch.is_none() && i + 1 < n {
                let div = match f.then_branch.stmts.last() { Some(Stmt::Expr(Expr::Return(_), _)) => true, _ => false };
                if div { let a = self.r(&b.stmts[i]).0; let z = self.r(&b.stmts[n-1]).1; let rest = &self.src[self.r(&b.stmts[i+1]).0..z];
                    let ft = self.t(f); self.out.push(("guard_else".into(), a, z, format!("{} else {{ {} }}", ft, rest))); }
            } }
            // swap adjacent pure lets
            if i + 1 < n { if let (Stmt::Local(x), Stmt::Local(y)) = (&b.stmts[i], &b.stmts[i+1]) {
                if let (Some(xi), Some(yi)) = (&x.init, &y.init) { if pure(&xi.expr) && pure(&yi.expr) {
                    let (xt, yt) = (self.t(x), self.t(y)); let a = self.r(x).0; let z = self.r(y).1;
                    self.out.push(("swap_let".into(), a, z, format!("{} {}", yt, xt)));
                } }
            } }
            // swap adjacent assignments to distinct plain fields
            if i + 1 < n { if let (Stmt::Expr(x, Some(_)), Stmt::Expr(y, Some(_))) = (&b.stmts[i], &b.stmts[i+1]) {
                if let (Expr::Assign(x1), Expr::Assign(y1)) = (x, y) {
                    let (l1, l2) = (self.t(&x1.left).to_string(), self.t(&y1.left).to_string());
                    if l1 != l2 && pure(&x1.left) && pure(&y1.left) && pure(&x1.right) && pure(&y1.right) && !self.t(&y1.right).contains(&l1) && !self.t(&x1.right).contains(&l2) {
                        let (xt, yt) = (self.t(x), self.t(y)); let a = self.r(x).0; let z = self.r(y).1;
                        self.out.push(("swap_assign".into(), a, z, format!("{}; {}", yt, xt)));
                    }
                }
            } }
            // hoist arguments
            let ex = match &b.stmts[i] { Stmt::Expr(e, _) => Some(e), Stmt::Local(l) => l.init.as_ref().map(|i| &*i.expr), _ => None };
            if let Some(mut e) = ex {
                loop { match e { Expr::Try(t) => e = &t.expr, Expr::Return(r) if r.expr.is_some() => e = r.expr.as_ref().unwrap(), _ => break } }
                let args: Option<Vec<&Expr>> = match e {
                    Expr::MethodCall(m) if place(&m.receiver) => Some(m.args.iter().collect()),
                    Expr::Call(c) => Some(c.args.iter().collect()), _ => None };
                if let Some(args) = args { if args.iter().any(|a| !simple(a)) {
                    let (sa, se) = self.r(&b.stmts[i]);
                    let mut pre = String::new(); let mut o = String::new(); let mut at = sa;
                    for (k, a) in args.iter().enumerate() { if simple(a) || matches!(a, Expr::Closure(_)) { continue; }
                        let (x, y) = self.r(a); pre.push_str(&format!("let __a{} = {}; ", k, self.t(a))); o.push_str(&self.src[at..x]); o.push_str(&format!("__a{}", k)); at = y; }
                    o.push_str(&self.src[at..se]);
                    if !pre.is_empty() {
                    let is_tail = matches!(&b.stmts[i], Stmt::Expr(_, None));
                    self.out.push(("hoist_args".into(), sa, se, if is_tail { format!("{}{}", pre, o) } else { format!("{}{}", pre, o) })); }
                } }
            }
        }
        // extract statement runs as inner closure/blocks
        for i in 0..n { for j in [i + 1, i + 2] { if j < n {
            let a = self.r(&b.stmts[i]).0; let z = self.r(&b.stmts[j]).1; let s = &self.src[a..z];
            if !b.stmts[i..=j].iter().any(|s| matches!(s, Stmt::Local(_) | Stmt::Item(_))) && !matches!(&b.stmts[j], Stmt::Expr(_, None)) { self.out.push(("runblock".into(), a, z, format!("{{ {} }}", s))); }
        } } }
    }
    fn helper(&mut self, it: &ImplItemFn, in_trait_impl: bool) {
        if in_trait_impl { return; }
        let s = self.t(it); let (a, z) = self.r(it); let _ = s;
        let name = it.sig.ident.to_string();
        let mut args = vec![]; let mut recv = false;
        for i in &it.sig.inputs { match i { FnArg::Receiver(_) => recv = true, FnArg::Typed(t) => match &*t.pat { Pat::Ident(p) => args.push(p.ident.to_string()), _ => return } } }
        let (nb, ne) = self.r(&it.sig.ident);
        let (bb, be) = self.r(&it.block);
        let call = if recv { format!("self.{}__h({})", name, args.join(", ")) } else { format!("Self::{}__h({})", name, args.join(", ")) };
        let fnkw = self.r(&it.sig.fn_token).0;
        let new = format!("{}{{ {} }}\n    fn {}__h{}{}", &self.src[a..bb], call, name, &self.src[ne..bb], &self.src[bb..be]);
        let _ = (nb, fnkw);
        self.out.push(("helper".into(), a, z, new));
    }
}
fn place(e: &Expr) -> bool { match e { Expr::Path(_) => true, Expr::Field(f) => place(&f.base), Expr::Paren(p) => place(&p.expr), _ => false } }
fn simple(e: &Expr) -> bool { match e { Expr::Path(_) | Expr::Lit(_) => true, Expr::Reference(r) => simple(&r.expr), Expr::Field(f) => simple(&f.base), _ => false } }
fn pure(e: &Expr) -> bool { match e { Expr::Path(_) | Expr::Lit(_) => true, Expr::Field(f) => pure(&f.base), Expr::Reference(r) => r.mutability.is_none() && pure(&r.expr), Expr::Paren(p) => pure(&p.expr),
    Expr::Binary(b) => pure(&b.left) && pure(&b.right) && !matches!(b.op, BinOp::AddAssign(_) | BinOp::SubAssign(_)), Expr::Unary(u) => pure(&u.expr), Expr::Cast(c) => pure(&c.expr),
    Expr::MethodCall(m) => pure(&m.receiver) && m.args.iter().all(pure) && ["len", "is_empty", "remaining", "inner_pos", "stream_pos", "pos"].contains(&m.method.to_string().as_str()),
    _ => false } }
impl<'a, 'ast> Visit<'ast> for V<'a> {
    fn visit_block(&mut self, b: &'ast Block) { self.stmts(b); visit::visit_block(self, b); }
    fn visit_item_mod(&mut self, m: &'ast ItemMod) { if m.attrs.iter().any(|a| self.t(a).contains("cfg(test)")) { return; } visit::visit_item_mod(self, m); }
    fn visit_item_impl(&mut self, i: &'ast ItemImpl) {
        for it in &i.items { if let ImplItem::Fn(f) = it { let recv = f.sig.inputs.iter().any(|a| matches!(a, FnArg::Receiver(_))); self.body(&f.block, matches!(f.sig.output, ReturnType::Default), recv); self.helper(f, i.trait_.is_some()); } }
        visit::visit_item_impl(self, i);
    }
    fn visit_trait_item_fn(&mut self, f: &'ast TraitItemFn) { if let Some(b) = &f.default { let recv = f.sig.inputs.iter().any(|a| matches!(a, FnArg::Receiver(_))); self.body(b, false, recv); } visit::visit_trait_item_fn(self, f); }
    fn visit_item_fn(&mut self, f: &'ast ItemFn) {
        self.body(&f.block, false, false);
        let name = f.sig.ident.to_string(); let mut args = vec![]; let mut ok = true;
        for i in &f.sig.inputs { if let FnArg::Typed(t) = i { match &*t.pat { Pat::Ident(p) => args.push(p.ident.to_string()), _ => ok = false } } }
        if ok { let (a, z) = self.r(f); let (_, ne) = self.r(&f.sig.ident); let (bb, be) = self.r(&f.block);
            self.out.push(("helper".into(), a, z, format!("{}{{ {}__h({}) }}\nfn {}__h{}{}", &self.src[a..bb], name, args.join(", "), name, &self.src[ne..bb], &self.src[bb..be]))); }
        visit::visit_item_fn(self, f);
    }
    fn visit_item_macro(&mut self, m: &'ast ItemMacro) { toks(self, m.mac.tokens.clone()); }
    fn visit_expr(&mut self, x: &'ast Expr) {
        match x {
            Expr::Try(t) => { let e = self.t(&t.expr);
                self.e("try_match", x, format!("(match {} {{ Ok(__v) => __v, Err(__e) => return Err(::std::convert::From::from(__e)) }})", e));
                self.e("try_same", x, format!("(match {} {{ Err(__e) => return Err(__e), Ok(__v) => __v }})", e)); }
            Expr::If(i) => {
                let th = self.t(&i.then_branch);
                if let Expr::Let(l) = &*i.cond {
                    let els = match &i.else_branch { Some((_, e)) => self.t(e).to_string(), None => "{}".into() };
                    let n = format!("match {} {{ {} => {} _ => {{ {} }} }}", self.t(&l.expr), self.t(&l.pat), th, els);
                    self.e("iflet_match", x, n);
                } else if !self.t(&i.cond).contains("let ") {
                    let c = self.t(&i.cond);
                    match &i.else_branch {
                        Some((_, e)) => { let e = self.t(e);
                            self.e("if_flip", x, format!("if !({}) {{ {} }} else {}", c, e, th));
                            self.e("if_match", x, format!("match {} {{ true => {}, false => {{ {} }} }}", c, th, e)); }
                        None => { self.e("if_flip", x, format!("if !({}) {{}} else {}", c, th)); self.e("if_match", x, format!("match {} {{ true => {} false => {{}} }}", c, th));
                            if let Expr::Binary(b) = &*i.cond { if matches!(b.op, BinOp::And(_)) { let n = format!("if {} {{ if {} {} }}", self.t(&b.left), self.t(&b.right), th); self.e("if_nest", x, n); } } }
                    }
                    self.e("cond_let", &i.cond, format!("{{ let __c = {}; __c }}", c));
                }
            }
            Expr::While(w) if w.label.is_none() => {
                if let Expr::Let(l) = &*w.cond { let n = format!("loop {{ match {} {{ {} => {}, _ => break }} }}", self.t(&l.expr), self.t(&l.pat), self.t(&w.body)); self.e("while_loop", x, n); }
                else { let n = format!("loop {{ if !({}) {{ break; }} {} }}", self.t(&w.cond), self.inner(&w.body)); self.e("while_loop", x, n); }
            }
            Expr::ForLoop(f) if f.label.is_none() => {
                let n = format!("{{ let mut __it = ::std::iter::IntoIterator::into_iter({}); while let Some({}) = __it.next() {} }}", self.t(&f.expr), self.t(&f.pat), self.t(&f.body));
                self.e("for_while", x, n);
                let n = format!("{{ let mut __it = ::std::iter::IntoIterator::into_iter({}); loop {{ match __it.next() {{ None => break, Some({}) => {} }} }} }}", self.t(&f.expr), self.t(&f.pat), self.t(&f.body));
                self.e("for_loop", x, n);
            }
            Expr::Match(m) => {
                let n = m.arms.len();
                if n == 2 && m.arms.iter().all(|a| a.guard.is_none()) {
                    if let Pat::Wild(_) = m.arms[1].pat { let t = format!("if let {} = {} {{ {} }} else {{ {} }}", self.t(&m.arms[0].pat), self.t(&m.expr), self.t(&m.arms[0].body), self.t(&m.arms[1].body)); self.e("match_iflet", x, t); }
                    else { let a = &m.arms; let t = format!("match {} {{ {} => {{ {} }} {} => {{ {} }} }}", self.t(&m.expr), self.t(&a[1].pat), self.t(&a[1].body), self.t(&a[0].pat), self.t(&a[0].body));
                        if disjoint(&a[0].pat, &a[1].pat) { self.e("arm_swap", x, t); } }
                }
                if n > 2 { for k in 0..n-1 { let (a, b) = (&m.arms[k], &m.arms[k+1]); if a.guard.is_none() && b.guard.is_none() && disjoint(&a.pat, &b.pat) {
                    let s = self.r(a).0; let e = self.r(b).1; let t = format!("{} => {{ {} }}, {} => {{ {} }},", self.t(&b.pat), self.t(&b.body), self.t(&a.pat), self.t(&a.body)); self.out.push(("arm_swap".into(), s, e, t)); } } }
                if !place(&m.expr) { let me = self.t(&m.expr); let (s, e) = self.r(x); let (c, d) = self.r(&m.expr); let t = format!("{{ let __m = {}; {}__m{} }}", me, &self.src[s..c], &self.src[d..e]); self.e("match_let", x, t); }
            }
            Expr::Binary(b) => { let (l, r) = (self.t(&b.left), self.t(&b.right)); let op = self.t(&b.op);
                let p = pure(&b.left) || pure(&b.right);
                match op {
                    "+" | "*" | "|" | "&" | "^" if pure(&b.left) || pure(&b.right) => self.e("commute", x, format!("({}) {} ({})", r, op, l)),
                    "==" | "!=" if p => { self.e("commute", x, format!("({}) {} ({})", r, op, l)); self.e("negcmp", x, format!("!(({}) {} ({}))", l, if op == "==" { "!=" } else { "==" }, r)) }
                    "<" | ">" | "<=" | ">=" if p => { let o = match op { "<" => ">", ">" => "<", "<=" => ">=", _ => "<=" }; self.e("commute", x, format!("(({}) {} ({}))", r, o, l));
                        let o = match op { "<" => ">=", ">" => "<=", "<=" => ">", _ => "<" }; self.e("negcmp", x, format!("!(({}) {} ({}))", l, o, r)) }
                    "&&" => { self.e("demorgan", x, format!("!(!({}) || !({}))", l, r)); self.e("andif", x, format!("(if {} {{ {} }} else {{ false }})", l, r)) }
                    "||" => { self.e("demorgan", x, format!("!(!({}) && !({}))", l, r)); self.e("andif", x, format!("(if {} {{ true }} else {{ {} }})", l, r)) }
                    "+=" | "-=" | "|=" | "&=" | "<<=" | ">>=" if pure(&b.left) => self.e("compound", x, format!("{} = {} {} ({})", l, l, &op[..op.len()-1], r)),
                    _ => {}
                } }
            Expr::Assign(a) => { let (l, r) = (self.t(&a.left), self.t(&a.right)); self.e("assign_tmp", x, format!("{{ let __v = {}; {} = __v }}", r, l)); }
            Expr::Struct(st) if st.rest.is_none() && st.fields.len() > 1 => {
                if st.fields.iter().all(|f| pure(&f.expr)) { let mut fs: Vec<&str> = st.fields.iter().map(|f| self.t(f)).collect(); fs.reverse(); let n = format!("{} {{ {} }}", self.t(&st.path), fs.join(", ")); self.e("field_order", x, n); }
                else { let mut pre = String::new(); let mut fs = vec![]; for (k, f) in st.fields.iter().enumerate() { pre.push_str(&format!("let __s{} = {}; ", k, self.t(&f.expr))); fs.push(format!("{}: __s{}", self.t(&f.member), k)); }
                    let n = format!("{{ {}{} {{ {} }} }}", pre, self.t(&st.path), fs.join(", ")); self.e("struct_let", x, n); } }
            Expr::MethodCall(m) => {
                let name = m.method.to_string(); let rc = self.t(&m.receiver);
                let clo = |k: usize| -> Option<(&'a str, &'a str)> { if let Some(Expr::Closure(c)) = m.args.iter().nth(k) { if c.inputs.len() == 1 { return Some((self.t(&c.inputs[0]), self.t(&c.body))); } } None };
                let a0 = m.args.first().map(|a| self.t(a)).unwrap_or("");
                let f = clo(0);
                let ap = |v: &str| -> String { match f { Some((p, b)) => format!("{{ let {} = {}; {} }}", p, v, b), None => format!("({})({})", a0, v) } };
                match name.as_str() {
                    "map" => { let v = ap("__v"); self.e("map_match", x, format!("(match {} {{ Ok(__v) => Ok({}), Err(__e) => Err(__e) }})", rc, v)); self.e("map_match", x, format!("(match {} {{ Some(__v) => Some({}), None => None }})", rc, v)); }
                    "map_err" => { let v = ap("__e"); self.e("map_match", x, format!("(match {} {{ Ok(__v) => Ok(__v), Err(__e) => Err({}) }})", rc, v)); }
                    "and_then" => { let v = ap("__v"); self.e("map_match", x, format!("(match {} {{ Ok(__v) => {}, Err(__e) => Err(__e) }})", rc, v)); self.e("map_match", x, format!("(match {} {{ Some(__v) => {}, None => None }})", rc, v)); }
                    "ok_or" => self.e("map_match", x, format!("(match {} {{ Some(__v) => Ok(__v), None => Err({}) }})", rc, a0)),
                    "ok_or_else" => self.e("map_match", x, format!("(match {} {{ Some(__v) => Ok(__v), None => Err(({})()) }})", rc, a0)),
                    "unwrap_or" => self.e("map_match", x, format!("(match {} {{ Some(__v) => __v, None => {} }})", rc, a0)),
                    "is_some" => self.e("map_match", x, format!("(match {} {{ Some(_) => true, None => false }})", rc)),
                    "is_none" => self.e("map_match", x, format!("(match {} {{ Some(_) => false, None => true }})", rc)),
                    "unwrap" | "expect" => self.e("map_match", x, format!("(match {} {{ Some(__v) => __v, None => panic!() }})", rc)),
                    _ => {}
                }
                if matches!(&*m.receiver, Expr::MethodCall(_) | Expr::Try(_) | Expr::Call(_)) { let (c, _) = self.r(x); let (_, d) = self.r(&m.receiver); let e = self.r(x).1; let _ = c; let n = format!("{{ let __t = {}; __t{} }}", rc, &self.src[d..e]); self.e("chain_let", x, n); }
            }
            Expr::Call(c) => { if let (Expr::Path(p), 1) = (&*c.func, c.args.len()) { let f = self.t(p); if (f == "Ok" || f == "Some" || f == "Err") && !simple(&c.args[0]) { let a = self.t(&c.args[0]); self.e("ctor_let", x, format!("{{ let __o = {}; {}(__o) }}", a, f)); } } }
            Expr::Macro(m) => { if m.mac.path.is_ident("assert") { if let Ok(e) = m.mac.parse_body::<Expr>() { let t = self.t(&e); self.e("assert_if", x, format!("if !({}) {{ panic!() }}", t)); } } }
            _ => {}
        }
        visit::visit_expr(self, x);
    }
}
fn toks(v: &mut V, ts: TokenStream) {
    for t in ts { if let TokenTree::Group(g) = t {
        if g.delimiter() == Delimiter::Brace { let one: TokenStream = TokenTree::Group(g.clone()).into();
            if let Ok(b) = syn::parse2::<Block>(one) { if b.stmts.len() > 0 && !matches!(b.stmts[0], Stmt::Item(_)) { v.body(&b, false, true); v.visit_block(&b); continue; } } }
        toks(v, g.stream());
    } }
}
fn main() {
    let p = std::env::args().nth(1).unwrap();
    let src = std::fs::read_to_string(&p).unwrap();
    let b = src.clone().into_bytes(); let mut m = b.clone();
    for i in 0..b.len() - 1 { if b[i] == b'$' && (b[i+1].is_ascii_alphabetic() || b[i+1] == b'_') { m[i] = b'_'; } }
    let md = String::from_utf8(m).unwrap();
    let f = match syn::parse_file(&md) { Ok(f) => f, Err(e) => { eprintln!("{}: {} {:?}", p, e, e.span().start()); std::process::exit(1) } };
    let mut v = V { src: &src, out: vec![], infn: 0 }; let _ = v.infn;
    v.visit_file(&f);
    for (k, a, z, n) in &v.out { println!("{{\"kind\":{},\"start\":{},\"end\":{},\"new\":{}}}", json(k), a, z, json(n)); }
}
fn heads(p: &Pat, o: &mut Vec<String>) -> bool {
    use quote::ToTokens;
    match p { Pat::TupleStruct(t) => { o.push(t.path.to_token_stream().to_string()); true } Pat::Struct(t) => { o.push(t.path.to_token_stream().to_string()); true }
        Pat::Path(t) => { o.push(t.path.to_token_stream().to_string()); true } Pat::Lit(l) => { o.push(l.to_token_stream().to_string()); true }
        Pat::Ident(i) => { let s = i.ident.to_string(); if i.subpat.is_none() && s.chars().next().unwrap().is_uppercase() { o.push(s); true } else { false } }
        Pat::Or(x) => x.cases.iter().all(|c| heads(c, o)), _ => false }
}
fn disjoint(a: &Pat, b: &Pat) -> bool { let (mut x, mut y) = (vec![], vec![]); heads(a, &mut x) && heads(b, &mut y) && !x.iter().any(|h| y.contains(h)) }
