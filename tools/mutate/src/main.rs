//! Lists mutation points of Rust files and writes "all mutants in one" versions of them.
//!   mutate OUTDIR DISABLED.json MUTANTS.json ROOT file...
//! Every soft mutant is an alternative chosen at run time by `crate::__m::on(id)`; hard mutants
//! (const functions, macro bodies) are only listed, as single text edits.
use proc_macro2::{Delimiter, Span, TokenStream, TokenTree};
use std::collections::{BTreeMap, HashSet};
use syn::spanned::Spanned;
use syn::visit::{self, Visit};
use syn::*;

#[derive(Debug)]
struct Node {
    start: usize,
    end: usize,
    stmt: bool,
    alts: Vec<(String, String)>, // (kind, replacement)
}

struct V<'a> {
    src: &'a str,
    hard: usize, // > 0: in a const context
    soft: BTreeMap<(usize, std::cmp::Reverse<usize>), Node>,
    hards: Vec<(usize, usize, String, String)>,
    fname: Vec<String>,
}

impl<'a> V<'a> {
    fn t(&self, s: Span) -> &'a str {
        &self.src[s.byte_range()]
    }
    fn add(&mut self, s: Span, kind: &str, rep: String) {
        let r = s.byte_range();
        if self.hard > 0 {
            self.hards.push((r.start, r.end, kind.into(), rep));
            return;
        }
        let n = self.soft.entry((r.start, std::cmp::Reverse(r.end))).or_insert(Node { start: r.start, end: r.end, stmt: false, alts: vec![] });
        if !n.alts.iter().any(|a| a.1 == rep) {
            n.alts.push((kind.into(), rep));
        }
    }
    fn add_stmt(&mut self, s: Span) {
        let r = s.byte_range();
        if self.hard > 0 {
            self.hards.push((r.start, r.end, "delete".into(), "{}".into()));
            return;
        }
        let n = self.soft.entry((r.start, std::cmp::Reverse(r.end))).or_insert(Node { start: r.start, end: r.end, stmt: true, alts: vec![] });
        n.stmt = true;
        n.alts.push(("delete".into(), "{}".into()));
    }
    fn cond(&mut self, e: &Expr, looping: bool) {
        if has_let(e) {
            return;
        }
        let t = self.t(e.span()).to_string();
        if !looping {
            self.add(e.span(), "cond", format!("!({t})"));
            self.add(e.span(), "cond", "true".into());
        }
        self.add(e.span(), "cond", "false".into());
    }
}

fn has_let(e: &Expr) -> bool {
    match e {
        Expr::Let(_) => true,
        Expr::Binary(b) => has_let(&b.left) || has_let(&b.right),
        _ => false,
    }
}

fn swaps(op: &BinOp) -> &'static [&'static str] {
    match op {
        BinOp::Lt(_) => &["<=", ">="],
        BinOp::Le(_) => &["<", ">"],
        BinOp::Gt(_) => &[">=", "<="],
        BinOp::Ge(_) => &[">", "<"],
        BinOp::Eq(_) => &["!=", "<=", ">="],
        BinOp::Ne(_) => &["==", "<", ">"],
        BinOp::Add(_) => &["-"],
        BinOp::Sub(_) => &["+"],
        BinOp::Mul(_) => &["+", "/"],
        BinOp::Div(_) => &["*"],
        BinOp::Rem(_) => &["/"],
        BinOp::And(_) => &["||"],
        BinOp::Or(_) => &["&&"],
        BinOp::BitAnd(_) => &["|"],
        BinOp::BitOr(_) => &["&", "^"],
        BinOp::BitXor(_) => &["|"],
        BinOp::Shl(_) => &[">>"],
        BinOp::Shr(_) => &["<<"],
        BinOp::AddAssign(_) => &["-="],
        BinOp::SubAssign(_) => &["+="],
        BinOp::MulAssign(_) => &["+="],
        BinOp::BitOrAssign(_) => &["&="],
        BinOp::BitAndAssign(_) => &["|="],
        BinOp::ShlAssign(_) => &[">>="],
        BinOp::ShrAssign(_) => &["<<="],
        _ => &[],
    }
}

fn method_swap(m: &str) -> &'static [&'static str] {
    match m {
        "min" => &["max"],
        "max" => &["min"],
        "first" => &["last"],
        "last" => &["first"],
        "all" => &["any"],
        "any" => &["all"],
        "checked_add" => &["checked_sub"],
        "checked_sub" => &["checked_add"],
        "saturating_sub" => &["wrapping_sub", "saturating_add"],
        "saturating_add" => &["wrapping_add"],
        "wrapping_sub" => &["wrapping_add"],
        "wrapping_add" => &["wrapping_sub"],
        "to_be_bytes" => &["to_le_bytes"],
        "is_some" => &["is_none"],
        "is_none" => &["is_some"],
        "is_ok" => &["is_err"],
        "is_err" => &["is_ok"],
        "pop" => &["peek"],
        "floor" => &["ceil"],
        "next" => &["next_back"],
        "next_back" => &["next"],
        "min_val" => &["max_val"],
        "max_val" => &["min_val"],
        "capacity" => &["len"],
        "len" => &["capacity"],
        _ => &[],
    }
}

impl<'a, 'ast> Visit<'ast> for V<'a> {
    fn visit_item_mod(&mut self, m: &'ast ItemMod) {
        if m.attrs.iter().any(|a| self.t(a.span()).contains("cfg(test)")) {
            return;
        }
        visit::visit_item_mod(self, m);
    }
    fn visit_item_fn(&mut self, f: &'ast ItemFn) {
        if f.attrs.iter().any(|a| self.t(a.span()).contains("test")) {
            return;
        }
        let c = f.sig.constness.is_some() as usize;
        self.hard += c;
        visit::visit_item_fn(self, f);
        self.hard -= c;
    }
    fn visit_impl_item_fn(&mut self, f: &'ast ImplItemFn) {
        let c = f.sig.constness.is_some() as usize;
        self.hard += c;
        self.fname.push(f.sig.ident.to_string());
        visit::visit_impl_item_fn(self, f);
        self.fname.pop();
        self.hard -= c;
    }
    fn visit_item_const(&mut self, c: &'ast ItemConst) {
        self.hard += 1;
        visit::visit_item_const(self, c);
        self.hard -= 1;
    }
    fn visit_impl_item_const(&mut self, c: &'ast ImplItemConst) {
        self.hard += 1;
        visit::visit_impl_item_const(self, c);
        self.hard -= 1;
    }
    fn visit_trait_item_const(&mut self, c: &'ast TraitItemConst) {
        self.hard += 1;
        visit::visit_trait_item_const(self, c);
        self.hard -= 1;
    }
    fn visit_item_static(&mut self, _: &'ast ItemStatic) {}
    fn visit_type(&mut self, _: &'ast Type) {}
    fn visit_generics(&mut self, _: &'ast Generics) {}
    fn visit_path_arguments(&mut self, _: &'ast PathArguments) {}
    fn visit_angle_bracketed_generic_arguments(&mut self, _: &'ast AngleBracketedGenericArguments) {}
    fn visit_attribute(&mut self, _: &'ast Attribute) {}
    fn visit_pat(&mut self, _: &'ast Pat) {}
    fn visit_expr_repeat(&mut self, r: &'ast ExprRepeat) {
        self.visit_expr(&r.expr);
    }
    fn visit_expr(&mut self, e: &'ast Expr) {
        match e {
            Expr::Binary(b) => {
                if !has_let(e) {
                    let (l, r) = (self.t(b.left.span()).to_string(), self.t(b.right.span()).to_string());
                    for o in swaps(&b.op) {
                        self.add(e.span(), "op", format!("{l} {o} {r}"));
                    }
                    if matches!(b.op, BinOp::And(_) | BinOp::Or(_)) {
                        self.add(e.span(), "drop", l);
                        self.add(e.span(), "drop", r);
                    }
                }
            }
            Expr::Unary(u) => {
                if !matches!(u.op, UnOp::Deref(_)) {
                    let t = self.t(u.expr.span()).to_string();
                    self.add(e.span(), "unary", t);
                }
            }
            Expr::Lit(l) => match &l.lit {
                Lit::Int(i) => {
                    if let Ok(n) = i.base10_parse::<u128>() {
                        let sfx = i.suffix();
                        self.add(e.span(), "lit", format!("{}{sfx}", n + 1));
                        if n > 0 {
                            self.add(e.span(), "lit", format!("{}{sfx}", n - 1));
                        }
                    }
                }
                Lit::Byte(b) => {
                    let n = b.value();
                    self.add(e.span(), "lit", format!("{}u8", n.wrapping_add(1)));
                }
                Lit::Bool(b) => self.add(e.span(), "lit", (!b.value).to_string()),
                _ => {}
            },
            Expr::If(i) => self.cond(&i.cond, false),
            Expr::While(i) => self.cond(&i.cond, true),
            Expr::Range(r) => {
                if let Some(s) = &r.start {
                    let t = self.t(s.span()).to_string();
                    self.add(s.span(), "range", format!("({t}) + 1"));
                }
                if let Some(s) = &r.end {
                    let t = self.t(s.span()).to_string();
                    self.add(s.span(), "range", format!("({t}) - 1"));
                    self.add(s.span(), "range", format!("({t}) + 1"));
                }
            }
            Expr::Call(c) => {
                let f = self.t(c.func.span());
                if f == "Some" {
                    self.add(e.span(), "none", "None".into());
                }
                if f.ends_with("from_be_bytes") {
                    let t = self.t(e.span()).replace("from_be_bytes", "from_le_bytes");
                    self.add(e.span(), "le", t);
                }
            }
            Expr::MethodCall(m) => {
                for s in method_swap(&m.method.to_string()) {
                    let r = e.span().byte_range();
                    let mr = m.method.span().byte_range();
                    let t = format!("{}{}{}", &self.src[r.start..mr.start], s, &self.src[mr.end..r.end]);
                    self.add(e.span(), "method", t);
                }
            }
            _ => {}
        }
        visit::visit_expr(self, e);
    }
    fn visit_arm(&mut self, a: &'ast Arm) {
        if let Some((_, g)) = &a.guard {
            self.cond(g, false);
            self.visit_expr(g);
        }
        self.visit_expr(&a.body);
    }
    fn visit_stmt(&mut self, s: &'ast Stmt) {
        match s {
            Stmt::Expr(e, Some(_)) => match e {
                Expr::Call(_) | Expr::MethodCall(_) | Expr::Assign(_) | Expr::Binary(_) | Expr::Try(_) | Expr::Return(_) | Expr::Continue(_) | Expr::Break(_) => self.add_stmt(s.span()),
                _ => {}
            },
            Stmt::Expr(e @ (Expr::If(_) | Expr::While(_) | Expr::ForLoop(_)), None) => {
                if let Expr::If(i) = e {
                    if i.else_branch.is_some() {
                        visit::visit_stmt(self, s);
                        return;
                    }
                }
                self.add_stmt(s.span())
            }
            Stmt::Macro(m) => {
                let t = self.t(m.span());
                if t.starts_with("assert") || t.starts_with("debug_assert") {
                    self.add_stmt(s.span())
                }
            }
            _ => {}
        }
        visit::visit_stmt(self, s);
    }
    fn visit_item_macro(&mut self, m: &'ast ItemMacro) {
        if m.mac.path.is_ident("macro_rules") {
            self.macro_tokens(m.mac.tokens.clone());
        } else {
            self.macro_tokens(m.mac.tokens.clone());
        }
    }
}

impl<'a> V<'a> {
    fn macro_tokens(&mut self, ts: TokenStream) {
        // macro_rules: mutate only transcribers (the groups after =>), else the whole thing
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut k = 0;
        let mut rules = false;
        while k + 3 < v.len() {
            if let (TokenTree::Group(_), TokenTree::Punct(a), TokenTree::Punct(b), TokenTree::Group(g)) = (&v[k], &v[k + 1], &v[k + 2], &v[k + 3]) {
                if a.as_char() == '=' && b.as_char() == '>' {
                    rules = true;
                    self.body(g.stream());
                    k += 4;
                    continue;
                }
            }
            k += 1;
        }
        if !rules {
            self.body(v.into_iter().collect());
        }
    }
    fn body(&mut self, ts: TokenStream) {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut k = 0;
        while k < v.len() {
            let s = v[k].span().byte_range();
            match &v[k] {
                TokenTree::Group(g) => {
                    let _ = g.delimiter() == Delimiter::Brace;
                    self.body(g.stream());
                }
                TokenTree::Literal(l) => {
                    let t = l.to_string();
                    if let Ok(n) = t.parse::<u128>() {
                        self.hards.push((s.start, s.end, "lit".into(), format!("{}", n + 1)));
                        if n > 0 {
                            self.hards.push((s.start, s.end, "lit".into(), format!("{}", n - 1)));
                        }
                    }
                }
                TokenTree::Ident(i) => {
                    let t = i.to_string();
                    let r: &[&str] = match t.as_str() {
                        "true" => &["false"],
                        "false" => &["true"],
                        "to_be_bytes" => &["to_le_bytes"],
                        "from_be_bytes" => &["from_le_bytes"],
                        "MIN" => &["MAX"],
                        "MAX" => &["MIN"],
                        "is_some" => &["is_none"],
                        "min" => &["max"],
                        "max" => &["min"],
                        _ => &[],
                    };
                    for x in r {
                        self.hards.push((s.start, s.end, "ident".into(), x.to_string()));
                    }
                }
                TokenTree::Punct(p) => {
                    let mut op = p.as_char().to_string();
                    let mut e = s.end;
                    let mut j = k;
                    let mut sp = p.spacing();
                    while sp == proc_macro2::Spacing::Joint && j + 1 < v.len() {
                        if let TokenTree::Punct(q) = &v[j + 1] {
                            op.push(q.as_char());
                            e = q.span().byte_range().end;
                            sp = q.spacing();
                            j += 1;
                        } else {
                            break;
                        }
                    }
                    let r: &[&str] = match op.as_str() {
                        "<=" => &["<", ">"],
                        ">=" => &[">", "<"],
                        "==" => &["!="],
                        "!=" => &["=="],
                        "&&" => &["||"],
                        "||" => &["&&"],
                        "+" => &["-"],
                        "-" => &["+"],
                        "*" => &["+"],
                        "<<" => &[">>"],
                        ">>" => &["<<"],
                        "<" | ">" => {
                            // only with blanks around: otherwise it is most likely a generic bracket
                            let b = self.src.as_bytes();
                            if b[s.start - 1] == b' ' && b[e] == b' ' {
                                if op == "<" { &["<=", ">="] } else { &[">=", "<="] }
                            } else {
                                &[]
                            }
                        }
                        "|" => &["&"],
                        "&" => {
                            let b = self.src.as_bytes();
                            if b[s.start - 1] == b' ' && b[e] == b' ' { &["|"] } else { &[] }
                        }
                        _ => &[],
                    };
                    for x in r {
                        self.hards.push((s.start, e, "op".into(), x.to_string()));
                    }
                    k = j;
                }
            }
            k += 1;
        }
    }
}

fn render(src: &str, nodes: &[&Node], ids: &BTreeMap<(usize, usize, usize), usize>, from: usize, to: usize, out: &mut String, spans: &mut Vec<(usize, usize, usize)>) {
    // nodes: sorted by start, longest first, all within from..to
    let mut at = from;
    let mut k = 0;
    while k < nodes.len() {
        let n = nodes[k];
        let mut j = k + 1;
        while j < nodes.len() && nodes[j].start < n.end {
            assert!(nodes[j].end <= n.end);
            j += 1;
        }
        out.push_str(&src[at..n.start]);
        let live: Vec<(usize, &String)> = n.alts.iter().enumerate().filter_map(|(a, (_, r))| ids.get(&(n.start, n.end, a)).map(|i| (*i, r))).collect();
        if !live.is_empty() && !n.stmt {
            out.push('(');
        }
        for (i, r) in &live {
            out.push_str(&format!("if crate::__m::on({i}) {{ "));
            let a = out.len();
            out.push_str(r);
            spans.push((*i, a, out.len()));
            out.push_str(" } else ");
        }
        if !live.is_empty() {
            out.push_str("{ ");
        }
        render(src, &nodes[k + 1..j], ids, n.start, n.end, out, spans);
        if !live.is_empty() {
            out.push_str(" }");
            if !n.stmt {
                out.push(')');
            }
        }
        at = n.end;
        k = j;
    }
    out.push_str(&src[at..to]);
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (outdir, disabled, mutants, root) = (&a[1], &a[2], &a[3], &a[4]);
    let dis: HashSet<usize> = std::fs::read_to_string(disabled).ok().and_then(|s| serde_json::from_str::<Vec<usize>>(&s).ok()).unwrap_or_default().into_iter().collect();
    let mut id = 0usize;
    let mut all = vec![];
    for f in &a[5..] {
        let src = std::fs::read_to_string(format!("{root}/{f}")).unwrap();
        let ast = syn::parse_file(&src).unwrap();
        let mut v = V { src: &src, hard: 0, soft: BTreeMap::new(), hards: vec![], fname: vec![] };
        v.visit_file(&ast);
        let line = |b: usize| src[..b].matches('\n').count() + 1;
        let mut ids = BTreeMap::new();
        let nodes: Vec<&Node> = v.soft.values().collect();
        for n in &nodes {
            for (k, (kind, r)) in n.alts.iter().enumerate() {
                id += 1;
                if !dis.contains(&id) {
                    ids.insert((n.start, n.end, k), id);
                    all.push(serde_json::json!({"id": id, "file": f, "line": line(n.start), "start": n.start, "end": n.end, "kind": kind, "old": &src[n.start..n.end], "new": r, "hard": false}));
                }
            }
        }
        for (s, e, kind, r) in &v.hards {
            id += 1;
            if !dis.contains(&id) {
                all.push(serde_json::json!({"id": id, "file": f, "line": line(*s), "start": s, "end": e, "kind": kind, "old": &src[*s..*e], "new": r, "hard": true}));
            }
        }
        let mut out = String::new();
        let mut spans = vec![];
        render(&src, &nodes, &ids, 0, src.len(), &mut out, &mut spans);
        if f.ends_with("src/lib.rs") {
            out.push_str("\n#[doc(hidden)]\npub mod __m;\n");
        }
        std::fs::write(format!("{outdir}/{f}"), out).unwrap();
        std::fs::write(format!("{outdir}/{f}.spans"), serde_json::to_string(&spans).unwrap()).unwrap();
    }
    std::fs::write(mutants, serde_json::to_string(&all).unwrap()).unwrap();
    eprintln!("{} mutants ({} hard)", all.len(), all.iter().filter(|m| m["hard"] == true).count());
}
