//! mutate SRC DST LIST [SKIP]: copies the .rs files of SRC to DST with every mutant compiled in, selected at run time
//! by the environment variable MUT_ID; writes LIST (id, file, line, what). Ids in the file SKIP are left out.
//! Used to measure the checks, never by them.
use proc_macro2::Span;
use quote::{quote, ToTokens};
use std::collections::HashSet;
use syn::spanned::Spanned;
use syn::visit_mut::{self, VisitMut};
use syn::*;

struct M {
    file: String,
    next: u32,
    skip: HashSet<u32>,
    list: Vec<String>,
}
impl M {
    fn id(&mut self, span: Span, what: String) -> Option<u32> {
        self.next += 1;
        let n = self.next;
        if self.skip.contains(&n) { return None; }
        let what: String = what.split_whitespace().collect::<Vec<_>>().join(" ").chars().take(150).collect();
        self.list.push(format!("{}\t{}\t{}\t{}", n, self.file, span.start().line, what));
        Some(n)
    }
}
fn is_test(a: &[Attribute]) -> bool {
    a.iter().any(|x| x.path().is_ident("test") || (x.path().is_ident("cfg") && x.to_token_stream().to_string().contains("test")))
}
fn txt<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}
impl VisitMut for M {
    fn visit_item_mod_mut(&mut self, i: &mut ItemMod) { if !is_test(&i.attrs) { visit_mut::visit_item_mod_mut(self, i) } }
    fn visit_item_fn_mut(&mut self, i: &mut ItemFn) { if !is_test(&i.attrs) && i.sig.constness.is_none() { visit_mut::visit_item_fn_mut(self, i) } }
    fn visit_impl_item_fn_mut(&mut self, i: &mut ImplItemFn) { if !is_test(&i.attrs) && i.sig.constness.is_none() { visit_mut::visit_impl_item_fn_mut(self, i) } }
    fn visit_item_const_mut(&mut self, _: &mut ItemConst) {}
    fn visit_item_static_mut(&mut self, _: &mut ItemStatic) {}
    fn visit_impl_item_const_mut(&mut self, _: &mut ImplItemConst) {}
    fn visit_item_enum_mut(&mut self, _: &mut ItemEnum) {}
    fn visit_pat_mut(&mut self, _: &mut Pat) {}
    fn visit_type_mut(&mut self, _: &mut Type) {}
    fn visit_attribute_mut(&mut self, _: &mut Attribute) {}
    fn visit_expr_repeat_mut(&mut self, e: &mut ExprRepeat) { self.visit_expr_mut(&mut e.expr) }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        let orig = s.clone();
        visit_mut::visit_stmt_mut(self, s);
        if let Stmt::Expr(e, Some(_)) = &orig {
            let del = match e {
                Expr::MethodCall(_) | Expr::Call(_) | Expr::Try(_) | Expr::Break(_) | Expr::Continue(_) => true,
                Expr::Assign(_) => true,
                Expr::Binary(b) => matches!(b.op, BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::BitOrAssign(_) | BinOp::BitAndAssign(_)),
                Expr::Return(_) => true,
                _ => false,
            };
            if del {
                if let Some(n) = self.id(orig.span(), format!("delete: {}", txt(&orig))) {
                    *s = parse_quote! { if !crate::mut_sel::m(#n) { #s } };
                }
            }
        } else if let Stmt::Expr(e @ (Expr::ForLoop(_) | Expr::While(_)), None) = &orig {
            if let Some(n) = self.id(orig.span(), format!("delete loop: {}", txt(e))) {
                *s = parse_quote! { if !crate::mut_sel::m(#n) { #s } };
            }
        }
    }
    fn visit_expr_if_mut(&mut self, e: &mut ExprIf) {
        let orig = e.cond.clone();
        visit_mut::visit_expr_if_mut(self, e);
        if let Expr::Let(_) = *orig { return; }
        if txt(&orig).contains("let ") { return; }
        let c = e.cond.clone();
        let a = self.id(orig.span(), format!("if true: {}", txt(&orig)));
        let b = self.id(orig.span(), format!("if false: {}", txt(&orig)));
        let mut t = quote! { (#c) };
        if let Some(n) = a { t = quote! { (#t || crate::mut_sel::m(#n)) }; }
        if let Some(n) = b { t = quote! { (#t && !crate::mut_sel::m(#n)) }; }
        e.cond = parse_quote! { #t };
    }
    fn visit_expr_match_mut(&mut self, e: &mut ExprMatch) {
        let orig = e.clone();
        visit_mut::visit_expr_match_mut(self, e);
        let wild = match e.arms.last().map(|a| (&a.pat, &a.guard)) { Some((Pat::Wild(_), None)) => true, Some((Pat::Ident(i), None)) => i.ident.to_string().starts_with(|c: char| c.is_lowercase()), _ => false };
        if wild {
            let k = e.arms.len() - 1;
            for (i, a) in e.arms.iter_mut().enumerate().take(k) {
                if let Some(n) = self.id(orig.arms[i].span(), format!("no arm: {}", txt(&orig.arms[i]))) {
                    let g: Expr = match &a.guard { Some((_, g)) => parse_quote! { (#g) && !crate::mut_sel::m(#n) }, None => parse_quote! { !crate::mut_sel::m(#n) } };
                    a.guard = Some((Default::default(), Box::new(g)));
                }
            }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let orig = e.clone();
        visit_mut::visit_expr_mut(self, e);
        match &orig {
            Expr::Binary(b) => {
                let alts: Vec<BinOp> = match b.op {
                    BinOp::Lt(_) => vec![parse_quote!(<=), parse_quote!(>=)],
                    BinOp::Le(_) => vec![parse_quote!(<), parse_quote!(>)],
                    BinOp::Gt(_) => vec![parse_quote!(>=), parse_quote!(<=)],
                    BinOp::Ge(_) => vec![parse_quote!(>), parse_quote!(<)],
                    BinOp::Eq(_) => vec![parse_quote!(!=)],
                    BinOp::Ne(_) => vec![parse_quote!(==)],
                    BinOp::And(_) => vec![parse_quote!(||)],
                    BinOp::Or(_) => vec![parse_quote!(&&)],
                    BinOp::Add(_) => vec![parse_quote!(-)],
                    BinOp::Sub(_) => vec![parse_quote!(+)],
                    BinOp::Mul(_) => vec![parse_quote!(/)],
                    BinOp::Div(_) => vec![parse_quote!(*)],
                    BinOp::Rem(_) => vec![parse_quote!(/)],
                    BinOp::BitAnd(_) => vec![parse_quote!(|)],
                    BinOp::BitOr(_) => vec![parse_quote!(&)],
                    BinOp::Shl(_) => vec![parse_quote!(>>)],
                    BinOp::Shr(_) => vec![parse_quote!(<<)],
                    _ => vec![],
                };
                let chain = txt(&orig).contains("let ");
                if chain { return; }
                for op in alts {
                    if let Some(n) = self.id(orig.span(), format!("{} instead of: {}", txt(&op), txt(&orig))) {
                        let (l, r, cur) = (&b.left, &b.right, e.clone());
                        *e = parse_quote! { (if crate::mut_sel::m(#n) { (#l) #op (#r) } else { #cur }) };
                    }
                }
            }
            Expr::Lit(l) => match &l.lit {
                Lit::Int(i) if i.suffix().is_empty() => {
                    if let Ok(v) = i.base10_parse::<u64>() {
                        let mut alt = vec![v + 1];
                        if v > 1 { alt.push(v - 1); }
                        for a in alt {
                            if let Some(n) = self.id(orig.span(), format!("{} instead of {}", a, v)) {
                                let x = LitInt::new(&a.to_string(), Span::call_site());
                                let cur = e.clone();
                                *e = parse_quote! { (if crate::mut_sel::m(#n) { #x } else { #cur }) };
                            }
                        }
                    }
                }
                Lit::Float(f) => {
                    if let Some(n) = self.id(orig.span(), format!("1.5 added to {}", f)) {
                        let cur = e.clone();
                        *e = parse_quote! { (if crate::mut_sel::m(#n) { #f + 1.5 } else { #cur }) };
                    }
                }
                Lit::Bool(b) => {
                    if let Some(n) = self.id(orig.span(), format!("not {}", b.value)) {
                        let v = !b.value;
                        *e = parse_quote! { (if crate::mut_sel::m(#n) { #v } else { #b }) };
                    }
                }
                Lit::Str(s) => {
                    if let Some(n) = self.id(orig.span(), format!("other string: {:?}", s.value())) {
                        let v = if s.value().is_empty() { "x".to_string() } else { s.value() + "_" };
                        *e = parse_quote! { (if crate::mut_sel::m(#n) { #v } else { #s }) };
                    }
                }
                _ => {}
            },
            Expr::Unary(u) => {
                if let UnOp::Not(_) = u.op {
                    if let Some(n) = self.id(orig.span(), format!("without not: {}", txt(&orig))) {
                        let (x, cur) = (&u.expr, e.clone());
                        *e = parse_quote! { (if crate::mut_sel::m(#n) { #x } else { #cur }) };
                    }
                }
            }
            Expr::Range(r) => {
                if let (Some(a), Some(b)) = (&r.start, &r.end) {
                    // the same type on both sides: only the end moves
                    if let RangeLimits::HalfOpen(_) = r.limits {
                        if let Some(n) = self.id(orig.span(), format!("end + 1: {}", txt(&orig))) {
                            let cur = e.clone();
                            *e = parse_quote! { (if crate::mut_sel::m(#n) { (#a)..((#b) + 1) } else { #cur }) };
                        }
                    }
                }
            }
            _ => {}
        }
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (src, dst) = (&a[1], &a[2]);
    let skip = a.get(4).and_then(|p| std::fs::read_to_string(p).ok()).unwrap_or_default().split_whitespace().map(|x| x.parse().unwrap()).collect();
    let mut m = M { file: String::new(), next: 0, skip, list: vec![] };
    let mut fs: Vec<_> = std::fs::read_dir(src).unwrap().map(|x| x.unwrap().path()).filter(|p| p.extension().map_or(false, |e| e == "rs")).collect();
    fs.sort();
    for f in fs {
        let n = f.file_name().unwrap().to_string_lossy().to_string();
        let text = std::fs::read_to_string(&f).unwrap();
        let mut file = syn::parse_file(&text).expect(&n);
        m.file = n.clone();
        if n != "expected_type.rs" && n != "generated.rs" && n != "lib.rs" { m.visit_file_mut(&mut file); }
        let mut out = file.into_token_stream().to_string();
        if n == "lib.rs" {
            out += r#"
pub(crate) mod mut_sel {
    use std::sync::atomic::{AtomicU32, AtomicU8, Ordering::Relaxed};
    static SEL: AtomicU32 = AtomicU32::new(u32::MAX);
    static COV: AtomicU8 = AtomicU8::new(0);
    static SEEN: [AtomicU8; 20000] = [const { AtomicU8::new(0) }; 20000];
    #[cold]
    fn init() -> u32 {
        let v = std::env::var("MUT_ID").ok().and_then(|x| x.parse().ok()).unwrap_or(0);
        COV.store(if std::env::var("MUT_COV").is_ok() { 1 } else { 0 }, Relaxed);
        SEL.store(v, Relaxed);
        v
    }
    #[cold]
    fn cover(n: u32) {
        use std::io::Write;
        if SEEN[n as usize].swap(1, Relaxed) == 0 {
            if let Ok(mut f) = std::fs::OpenOptions::new().create(true).append(true).open(std::env::var("MUT_COV").unwrap()) { let _ = f.write_all(format!("{}\n", n).as_bytes()); }
        }
    }
    #[inline]
    pub(crate) fn m(n: u32) -> bool {
        let mut s = SEL.load(Relaxed);
        if s == u32::MAX { s = init(); }
        if COV.load(Relaxed) == 1 && SEEN[n as usize].load(Relaxed) == 0 { cover(n); }
        s == n
    }
}
"#;
        }
        std::fs::write(format!("{}/{}", dst, n), out).unwrap();
    }
    std::fs::write(&a[3], m.list.join("\n") + "\n").unwrap();
    eprintln!("{} mutants", m.list.len());
}
