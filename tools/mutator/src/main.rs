//! mutator SRC_ROOT OUT_ROOT FILE-LIST DISABLED > map.tsv
//!
//! Writes, for every listed file, a version that contains all its mutants behind a run-time switch
//! (`__mm(id)`: the environment variable VMON_MUT holds that id), so that one build serves them all.
use proc_macro2::Span;
use std::collections::HashSet;
use syn::spanned::Spanned;
use syn::visit::Visit;

enum Ev {
    Pre(String),
    Suf(String),
    Rep(usize, String), // replaces until end
}
struct M<'a> {
    src: &'a str,
    off: bool,
    next: &'a mut u32,
    disabled: &'a HashSet<u32>,
    evs: Vec<(usize, usize, usize, Ev)>, // pos, other end, seq
    map: Vec<(u32, usize, usize, String)>,
}
fn range(s: Span) -> (usize, usize) {
    let r = s.byte_range();
    (r.start, r.end)
}
fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        let t = quote::quote!(#a).to_string();
        t.contains("test") && t.contains("cfg") && !t.contains("not")
            || t.contains("# [test]")
    })
}
impl M<'_> {
    fn id(&mut self, span: (usize, usize), what: &str) -> Option<u32> {
        let n = *self.next;
        *self.next += 1;
        if self.off || self.disabled.contains(&n) {
            return None;
        }
        self.map.push((n, span.0, span.1, what.into()));
        Some(n)
    }
    fn wrap(&mut self, (a, b): (usize, usize), pre: String, suf: String) {
        let q = self.evs.len();
        self.evs.push((a, b, q, Ev::Pre(pre)));
        self.evs.push((b, a, q, Ev::Suf(suf)));
    }
    fn insert(&mut self, at: usize, t: String) {
        let q = self.evs.len();
        self.evs.push((at, at, q, Ev::Pre(t)));
    }
    fn replace(&mut self, a: usize, b: usize, t: String) {
        let q = self.evs.len();
        self.evs.push((a, b, q, Ev::Rep(b, t)));
    }
    fn cond(&mut self, c: &syn::Expr) {
        if has_let(c) {
            return;
        }
        let s = range(c.span());
        if let Some(n) = self.id(s, "cond true") {
            self.wrap(s, format!("(__mm({n}) || ("), "))".into());
        }
        if let Some(n) = self.id(s, "cond false") {
            self.wrap(s, format!("(!__mm({n}) && ("), "))".into());
        }
    }
}
fn has_let(e: &syn::Expr) -> bool {
    struct L(bool);
    impl<'a> Visit<'a> for L {
        fn visit_expr_let(&mut self, _: &'a syn::ExprLet) {
            self.0 = true
        }
        fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
    }
    let mut l = L(false);
    l.visit_expr(e);
    l.0
}
impl<'a> Visit<'a> for M<'_> {
    fn visit_item_mod(&mut self, i: &'a syn::ItemMod) {
        if !is_test(&i.attrs) {
            syn::visit::visit_item_mod(self, i)
        }
    }
    fn visit_item_fn(&mut self, i: &'a syn::ItemFn) {
        if !is_test(&i.attrs) && i.sig.constness.is_none() {
            syn::visit::visit_item_fn(self, i)
        }
    }
    fn visit_impl_item_fn(&mut self, i: &'a syn::ImplItemFn) {
        if !is_test(&i.attrs) && i.sig.constness.is_none() {
            syn::visit::visit_impl_item_fn(self, i)
        }
    }
    fn visit_item_const(&mut self, _: &'a syn::ItemConst) {}
    fn visit_item_static(&mut self, _: &'a syn::ItemStatic) {}
    fn visit_item_trait(&mut self, _: &'a syn::ItemTrait) {}
    fn visit_item_macro(&mut self, _: &'a syn::ItemMacro) {}
    fn visit_impl_item_const(&mut self, _: &'a syn::ImplItemConst) {}
    fn visit_attribute(&mut self, _: &'a syn::Attribute) {}
    fn visit_type(&mut self, _: &'a syn::Type) {}
    fn visit_pat(&mut self, _: &'a syn::Pat) {}
    fn visit_expr_macro(&mut self, _: &'a syn::ExprMacro) {}
    fn visit_expr_if(&mut self, e: &'a syn::ExprIf) {
        self.cond(&e.cond);
        syn::visit::visit_expr_if(self, e)
    }
    fn visit_expr_while(&mut self, e: &'a syn::ExprWhile) {
        syn::visit::visit_expr_while(self, e)
    }
    fn visit_expr_for_loop(&mut self, e: &'a syn::ExprForLoop) {
        let s = range(e.expr.span());
        if let Some(n) = self.id(s, "loop skips first") {
            self.wrap(s, "({ let mut __i = (".into(), format!(").into_iter(); if __mm({n}) {{ __i.next(); }} __i }})"));
        }
        syn::visit::visit_expr_for_loop(self, e)
    }
    fn visit_arm(&mut self, a: &'a syn::Arm) {
        if is_test(&a.attrs) {
            return;
        }
        if let Some((_, g)) = &a.guard {
            self.cond(g);
        }
        syn::visit::visit_arm(self, a)
    }
    fn visit_stmt(&mut self, s: &'a syn::Stmt) {
        if let syn::Stmt::Expr(e, Some(_)) = s {
            let sp = range(s.span());
            if !matches!(e, syn::Expr::Let(_) | syn::Expr::If(_) | syn::Expr::ForLoop(_) | syn::Expr::While(_) | syn::Expr::Block(_)) {
                if let Some(n) = self.id(sp, "statement removed") {
                    self.wrap(sp, format!("if !__mm({n}) {{ "), " }".into());
                }
            }
            if let syn::Expr::Binary(b) = e {
                use syn::BinOp::*;
                let op = match b.op {
                    AddAssign(_) => "-=",
                    SubAssign(_) => "+=",
                    _ => "",
                };
                if !op.is_empty() {
                    let (l, r) = (range(b.left.span()), range(b.right.span()));
                    let t = format!("{} {op} {};", &self.src[l.0..l.1], &self.src[r.0..r.1]);
                    if let Some(n) = self.id(sp, "assign op") {
                        self.wrap(sp, format!("if __mm({n}) {{ {t} }} else {{ "), " }".into());
                    }
                }
            }
        }
        syn::visit::visit_stmt(self, s)
    }
    fn visit_expr_binary(&mut self, b: &'a syn::ExprBinary) {
        use syn::BinOp::*;
        let s = range(b.span());
        let op = range(b.op.span());
        match b.op {
            Lt(_) | Le(_) | Gt(_) | Ge(_) => {
                let k = match b.op {
                    Lt(_) => 0,
                    Le(_) => 1,
                    Gt(_) => 2,
                    _ => 3,
                };
                if let Some(n) = self.id(s, "negated") {
                    self.wrap(s, format!("(__mm({n}) ^ ("), "))".into());
                }
                if let Some(n) = self.id(s, "boundary") {
                    self.wrap(s, format!("__mm_cmp({n}, {k}, &("), "))".into());
                    self.replace(op.0, op.1, "), &(".into());
                }
            }
            Eq(_) | Ne(_) => {
                if let Some(n) = self.id(s, "negated") {
                    self.wrap(s, format!("(__mm({n}) ^ ("), "))".into());
                }
            }
            And(_) if !has_let(&b.left) && !has_let(&b.right) => {
                for x in [&b.left, &b.right] {
                    let s = range(x.span());
                    if let Some(n) = self.id(s, "conjunct true") {
                        self.wrap(s, format!("(__mm({n}) || ("), "))".into());
                    }
                }
            }
            Or(_) => {
                for x in [&b.left, &b.right] {
                    let s = range(x.span());
                    if let Some(n) = self.id(s, "disjunct false") {
                        self.wrap(s, format!("(!__mm({n}) && ("), "))".into());
                    }
                }
            }
            Add(_) | Sub(_) | Mul(_) | Div(_) => {
                let (o, p) = match b.op {
                    Add(_) => ("+", "-"),
                    Sub(_) => ("-", "+"),
                    Mul(_) => ("*", "/"),
                    _ => ("/", "*"),
                };
                if let Some(n) = self.id(s, "arithmetic") {
                    self.wrap(s, "({ let __l = (".into(), format!("); if __mm({n}) {{ __l {p} __r }} else {{ __l {o} __r }} }})"));
                    self.replace(op.0, op.1, "); let __r = (".into());
                }
            }
            _ => {}
        }
        syn::visit::visit_expr_binary(self, b)
    }
    fn visit_expr_lit(&mut self, l: &'a syn::ExprLit) {
        let s = range(l.span());
        match &l.lit {
            syn::Lit::Int(i) => {
                let d = i.base10_digits().to_string();
                if let (Ok(v), Some(n)) = (d.parse::<u64>(), self.id(s, "literal + 1")) {
                    self.wrap(s, format!("(if __mm({n}) {{ {}{} }} else {{ ", v + 1, i.suffix()), " })".into());
                }
            }
            syn::Lit::Bool(_) => {
                if let Some(n) = self.id(s, "bool flipped") {
                    self.wrap(s, format!("(__mm({n}) ^ "), ")".into());
                }
            }
            _ => {}
        }
    }
    fn visit_expr_repeat(&mut self, e: &'a syn::ExprRepeat) {
        self.visit_expr(&e.expr)
    }
    fn visit_expr_field(&mut self, f: &'a syn::ExprField) {
        let s = range(f.span());
        let t: String = self.src[s.0..s.1].split_whitespace().collect();
        if t.ends_with("env.block.height") {
            if let Some(n) = self.id(s, "height + 1") {
                self.wrap(s, "(".into(), format!(" + __mm({n}) as u64)"));
            }
        } else if t.ends_with("env.block.time") {
            if let Some(n) = self.id(s, "time + 1") {
                self.wrap(s, "(".into(), format!(".plus_seconds(__mm({n}) as u64))"));
            }
        }
        syn::visit::visit_expr_field(self, f)
    }
    fn visit_expr_path(&mut self, p: &'a syn::ExprPath) {
        let s = range(p.span());
        let t: String = self.src[s.0..s.1].split_whitespace().collect();
        let swap = if t.ends_with("Order::Ascending") {
            t.replace("Ascending", "Descending")
        } else if t.ends_with("Order::Descending") {
            t.replace("Descending", "Ascending")
        } else if t.ends_with("Bound::exclusive") {
            t.replace("exclusive", "inclusive")
        } else {
            return;
        };
        if let Some(n) = self.id(s, "order/bound") {
            self.wrap(s, format!("(if __mm({n}) {{ {swap} }} else {{ "), " })".into());
        }
    }
    fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
        let f = range(c.func.span());
        let s = range(c.span());
        if &self.src[f.0..f.1] == "Some" {
            if let Some(n) = self.id(s, "None") {
                self.wrap(s, format!("(if __mm({n}) {{ None }} else {{ "), " })".into());
            }
        }
        syn::visit::visit_expr_call(self, c)
    }
    fn visit_expr_method_call(&mut self, c: &'a syn::ExprMethodCall) {
        let name = c.method.to_string();
        let s = range(c.span());
        let dot = range(c.dot_token.span()).0;
        let swap = match name.as_str() {
            "checked_add" => "checked_sub",
            "checked_sub" => "checked_add",
            "checked_mul" => "checked_div",
            "saturating_add" => "saturating_sub",
            "saturating_sub" => "saturating_add",
            "min" => "max",
            "max" => "min",
            "full_mul" => "",
            _ => "",
        };
        if !swap.is_empty() && c.args.len() == 1 {
            if let Some(n) = self.id(s, "method swapped") {
                let o = range(c.paren_token.span.open()).1;
                let a = range(c.args[0].span());
                let _ = o;
                self.wrap(s, "({ let __r = ".into(), String::new());
                self.replace(dot, a.0, "; let __a = (".into());
                self.replace(a.1, s.1, format!("); if __mm({n}) {{ __r.{swap}(__a) }} else {{ __r.{name}(__a) }} }})"));
            }
        } else if (name.starts_with("is_") || name == "has" || name == "contains" || name == "any" || name == "all") && c.args.len() <= 3 {
            if let Some(n) = self.id(s, "negated") {
                self.wrap(s, format!("(__mm({n}) ^ ("), "))".into());
            }
        } else if name.starts_with("add_message") || name.starts_with("add_submessage") {
            if let Some(n) = self.id(s, "messages dropped") {
                self.wrap(s, "({ let __r = ".into(), " } })".into());
                self.insert(dot, format!("; if __mm({n}) {{ __r }} else {{ __r"));
            }
        }
        syn::visit::visit_expr_method_call(self, c)
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let files = std::fs::read_to_string(&a[3]).unwrap();
    let disabled: HashSet<u32> = std::fs::read_to_string(&a[4]).unwrap_or_default().split_whitespace().map(|x| x.parse().unwrap()).collect();
    let mut next = 1;
    for f in files.lines() {
        let src = std::fs::read_to_string(format!("{}/{f}", a[1])).unwrap();
        let ast = syn::parse_file(&src).unwrap();
        let mut m = M { src: &src, off: false, next: &mut next, disabled: &disabled, evs: vec![], map: vec![] };
        m.visit_file(&ast);
        let (mut evs, map) = (std::mem::take(&mut m.evs), std::mem::take(&mut m.map));
        // suffixes first (inner before outer), then prefixes (outer before inner), then replacements
        evs.sort_by(|x, y| {
            let k = |e: &(usize, usize, usize, Ev)| match e.3 {
                Ev::Suf(_) => (e.0, 0, -(e.1 as i64), -(e.2 as i64)),
                Ev::Pre(_) => (e.0, 1, -(e.1 as i64), e.2 as i64),
                Ev::Rep(..) => (e.0, 2, 0, e.2 as i64),
            };
            k(x).cmp(&k(y))
        });
        let mut out = String::new();
        let mut at = 0;
        let mut place = vec![0usize; src.len() + 1];
        let mut placed = 0;
        for (pos, _, _, ev) in &evs {
            if *pos > at {
                while placed <= *pos {
                    place[placed] = out.len() + placed.saturating_sub(at);
                    placed += 1;
                }
                out += &src[at..*pos];
                at = *pos;
            }
            match ev {
                Ev::Pre(t) | Ev::Suf(t) => out += t,
                Ev::Rep(end, t) => {
                    out += t;
                    at = at.max(*end);
                }
            }
        }
        while placed <= src.len() {
            place[placed] = out.len() + placed.saturating_sub(at);
            placed += 1;
        }
        out += &src[at..];
        out += r#"
#[allow(dead_code)]
fn __mm(n: u32) -> bool {
    static M: std::sync::OnceLock<u32> = std::sync::OnceLock::new();
    let m = *M.get_or_init(|| std::env::var("VMON_MUT").ok().and_then(|x| x.parse().ok()).unwrap_or(0));
    if m == u32::MAX {
        static SEEN: std::sync::Mutex<std::collections::BTreeSet<u32>> = std::sync::Mutex::new(std::collections::BTreeSet::new());
        if SEEN.lock().unwrap().insert(n) {
            use std::io::Write;
            let mut f = std::fs::OpenOptions::new().append(true).create(true).open(std::env::var("VMON_MUTCOV").unwrap()).unwrap();
            f.write_all(format!("{n}\n").as_bytes()).unwrap();
        }
    }
    m == n
}
#[allow(dead_code)]
fn __mm_cmp<T: PartialOrd>(n: u32, op: u8, a: &T, b: &T) -> bool {
    let f = __mm(n);
    match (op, f) {
        (0, false) | (1, true) => a < b,
        (1, false) | (0, true) => a <= b,
        (2, false) | (3, true) => a > b,
        _ => a >= b,
    }
}
"#;
        let p = format!("{}/{f}", a[2]);
        std::fs::create_dir_all(std::path::Path::new(&p).parent().unwrap()).unwrap();
        if std::fs::read_to_string(&p).ok().as_deref() != Some(&out) {
            std::fs::write(&p, &out).unwrap();
        }
        for (n, s, e, what) in map {
            let line = src[..s].matches('\n').count() + 1;
            let text: String = src[s..e].split_whitespace().collect::<Vec<_>>().join(" ");
            // byte range in the output
            println!("{n}\t{f}\t{line}\t{what}\t{}\t{}\t{}", place[s], place[e], text.chars().take(160).collect::<String>());
        }
    }
}
