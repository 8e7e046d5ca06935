//! Mechanical extraction of functions from the macro-expanded crate into the Verus subset.
//! Input: the output of `rustc -Zunpretty=expanded` on /repo's current tree.  Output: JSON, one record per function.
//! Every rewrite is listed in DESIGN.md ("what the extraction does"); whatever it does not know is reported as unsupported.
use proc_macro2::TokenStream;
use quote::{format_ident, quote, ToTokens};
use std::collections::BTreeMap;
use syn::visit_mut::{self, VisitMut};
use syn::*;

const NOARG: &[&str] = &["Num", "EdwardsPoint", "EdwardsPointEx", "MontgomeryPoint", "PoseidonParams", "LinkedList", "BitIteratorLE", "BitIterator"];
const LTARG: &[&str] = &["CNum", "CBool", "CEdwardsPoint", "CMontgomeryPoint", "Cursor"];
const DROPPED: &[&str] = &["CS", "F", "J", "Fr", "Fs", "G", "E", "S", "BE", "BCS", "K", "V"];

fn ts<T: ToTokens>(t: &T) -> String { t.to_token_stream().to_string() }
fn nows(s: &str) -> String { s.chars().filter(|c| !c.is_whitespace()).collect() }

struct Ty { value: Option<Type>, self_is_sv: bool, drop: Vec<String> }
impl Ty {
    fn path(&mut self, p: &mut Path) {
        // only the last segment of a multi-segment crate/std type path matters, keep assoc paths (T::from_const)
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        if p.leading_colon.is_some() || segs[0] == "crate" || segs[0] == "std" || segs[0] == "super" {
            // ::core::option::Option::Some / crate::native::num::Num::from : cut leading lower-case modules
            p.leading_colon = None;
            let mut keep: Vec<PathSegment> = p.segments.iter().cloned().collect();
            while keep.len() > 1 && keep[0].ident.to_string().chars().next().unwrap().is_lowercase() { keep.remove(0); }
            p.segments = keep.into_iter().collect();
        }
        let n = p.segments.len();
        for (i, s) in p.segments.iter_mut().enumerate() {
            let id = s.ident.to_string();
            let dropf = |s: &mut PathSegment, pred: &dyn Fn(&GenericArgument) -> bool| {
                if let PathArguments::AngleBracketed(a) = &mut s.arguments {
                    let l: Vec<_> = a.args.iter().filter(|x| pred(x)).cloned().collect();
                    if l.is_empty() { s.arguments = PathArguments::None; } else { a.args = l.into_iter().collect(); }
                }
            };
            if id == "Num" {
                let fs = match &s.arguments { PathArguments::AngleBracketed(a) => ts(a).contains("Fs"), _ => false };
                s.arguments = PathArguments::None;
                if fs { s.ident = format_ident!("NumS"); }
            } else if NOARG.contains(&id.as_str()) {
                s.arguments = PathArguments::None;
            } else if LTARG.contains(&id.as_str()) {
                dropf(s, &|x| matches!(x, GenericArgument::Lifetime(_)));
            } else if id == "CMerkleProof" || id == "MerkleProof" {
                dropf(s, &|x| matches!(x, GenericArgument::Lifetime(_)) || ts(x) == "L");
            } else if id == "Signal" {
                dropf(s, &|x| matches!(x, GenericArgument::Lifetime(_)));
            } else if id == "CS" && i == 0 && n == 1 {
                s.ident = format_ident!("Cs");
            } else if id == "J" && i == 0 && n == 1 {
                s.ident = format_ident!("Params");
            }
        }
    }
}
impl VisitMut for Ty {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(tp) = t {
            let s = nows(&ts(tp));
            if s == "Self::Value" { if let Some(v) = &self.value { *t = v.clone(); visit_mut::visit_type_mut(self, t); return; } }
            if s == "CS::F" || s == "F" || s == "J::Fr" || s == "Fr" { *t = parse_quote!(Fe); return; }
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_path_mut(&mut self, p: &mut Path) { self.path(p); visit_mut::visit_path_mut(self, p); }
    fn visit_expr_struct_mut(&mut self, e: &mut ExprStruct) {
        if nows(&ts(&e.path)) == "Self::Value" {
            if let Some(Type::Path(tp)) = &self.value { let mut p = tp.path.clone(); for s in p.segments.iter_mut() { s.arguments = PathArguments::None; } e.path = p; }
        }
        visit_mut::visit_expr_struct_mut(self, e);
    }
    fn visit_generics_mut(&mut self, g: &mut Generics) {
        let drop = self.drop.clone();
        let l: Vec<GenericParam> = g.params.iter().filter(|p| match p { GenericParam::Type(t) => !drop.contains(&t.ident.to_string()), _ => true }).cloned().collect();
        if l.is_empty() { g.lt_token = None; g.gt_token = None; g.params = Default::default(); } else { g.params = l.into_iter().collect(); }
        for p in g.params.iter_mut() {
            if let GenericParam::Type(t) = p {
                // `CS: 'a + ..` style bounds keep only what the prelude knows
                t.bounds = t.bounds.iter().filter(|b| { let s = ts(*b); s.contains("Signal") || s.contains("Unsigned") }).cloned().collect();
            }
        }
        g.where_clause = None;
        visit_mut::visit_generics_mut(self, g);
    }
    fn visit_angle_bracketed_generic_arguments_mut(&mut self, a: &mut AngleBracketedGenericArguments) {
        visit_mut::visit_angle_bracketed_generic_arguments_mut(self, a);
    }
}

#[derive(Default)]
struct Rw { loops: Vec<String>, bad: Vec<String>, tmp: usize, lifted: Vec<ItemFn>, names: BTreeMap<String, String>, outer: String, sv: bool, calls: Vec<String> }

enum Src { Iter(Expr), IterMut(Expr), Range(Expr, Expr), Own(Expr) }
struct Chain { src: Src, zip: Option<Box<Chain>>, skip: Option<Expr>, maps: Vec<ExprClosure> }

fn strip_paren(e: &Expr) -> &Expr { match e { Expr::Paren(p) => strip_paren(&p.expr), Expr::Group(g) => strip_paren(&g.expr), _ => e } }

impl Rw {
    fn fresh(&mut self, p: &str) -> Ident { self.tmp += 1; format_ident!("__{}{}", p, self.tmp) }
    fn chain(&mut self, e: &Expr) -> Option<Chain> {
        match strip_paren(e) {
            Expr::Range(r) if matches!(r.limits, RangeLimits::HalfOpen(_)) => Some(Chain { src: Src::Range((**r.start.as_ref()?).clone(), (**r.end.as_ref()?).clone()), zip: None, skip: None, maps: vec![] }),
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                match (name.as_str(), m.args.len()) {
                    ("iter", 0) => Some(Chain { src: Src::Iter((*m.receiver).clone()), zip: None, skip: None, maps: vec![] }),
                    ("iter_mut", 0) => Some(Chain { src: Src::IterMut((*m.receiver).clone()), zip: None, skip: None, maps: vec![] }),
                    ("iterbit_le", 0) | ("iterbit_be", 0) => { let r = (*m).clone(); Some(Chain { src: Src::Own(parse_quote!(#r.vcollect())), zip: None, skip: None, maps: vec![] }) }
                    ("into_iter", 0) => Some(Chain { src: Src::Own((*m.receiver).clone()), zip: None, skip: None, maps: vec![] }),
                    ("zip", 1) => { let mut c = self.chain(&m.receiver)?; if c.zip.is_some() || !c.maps.is_empty() || c.skip.is_some() { return None; } let z = self.chain(&m.args[0])?; if z.zip.is_some() || !z.maps.is_empty() { return None; } c.zip = Some(Box::new(z)); Some(c) }
                    ("skip", 1) => { let mut c = self.chain(&m.receiver)?; if c.zip.is_some() || !c.maps.is_empty() || c.skip.is_some() { return None; } c.skip = Some(m.args[0].clone()); Some(c) }
                    ("map", 1) => { let mut c = self.chain(&m.receiver)?; if let Expr::Closure(cl) = &m.args[0] { c.maps.push(cl.clone()); Some(c) } else { None } }
                    ("cloned", 0) | ("copied", 0) => None,
                    _ => None,
                }
            }
            // `for x in &xs`
            Expr::Reference(r) if r.mutability.is_none() && matches!(strip_paren(&r.expr), Expr::Path(_) | Expr::Field(_)) => Some(Chain { src: Src::Iter((*r.expr).clone()), zip: None, skip: None, maps: vec![] }),
            Expr::Call(c) => {
                let f = nows(&ts(&c.func));
                if f == "BitIterator::new" { let r = c.clone(); Some(Chain { src: Src::Own(parse_quote!(#r.vcollect())), zip: None, skip: None, maps: vec![] }) } else { None }
            }
            _ => None,
        }
    }
    /// statements that bind `pat` to element number `i` of the chain's source
    fn bind_src(&mut self, src: &Src, pre: &Ident, i: &TokenStream, pat: &Pat) -> TokenStream {
        match src {
            Src::Iter(_) => self.bind(pat, quote!(#pre.vget(#i))),
            Src::Own(_) => self.bind(pat, quote!((*#pre.vget(#i)))),
            Src::Range(a, _) => { let _ = a; self.bind(pat, quote!(#pre + #i)) }
            Src::IterMut(x) => match pat {
                Pat::Tuple(t) => { let e = self.fresh("e"); let mut out = quote!(let #e = #x.vget_mut(#i);); for (j, p) in t.elems.iter().enumerate() { let j = Index::from(j); match p { Pat::Wild(_) => {} Pat::Ident(_) => out.extend(quote!(let #p = &mut #e.#j;)), _ => self.bad.push("pattern".into()) } } out }
                _ => quote!(let #pat = #x.vget_mut(#i);),
            },
        }
    }
    fn bind(&mut self, pat: &Pat, item: TokenStream) -> TokenStream {
        match pat {
            Pat::Reference(r) => { let p = &r.pat; quote!(let #p = *#item;) }
            Pat::Wild(_) => quote!(),
            Pat::Paren(p) => self.bind(&p.pat, item),
            _ => quote!(let #pat = #item;),
        }
    }
    fn src_setup(&mut self, c: &Chain) -> (Ident, TokenStream, TokenStream) {
        // (prefix identifier, setup statements, length expression)
        let p = self.fresh("s");
        let (setup, len) = match &c.src {
            Src::Iter(x) => (quote!(let #p = &#x;), quote!(#p.vlen())),
            Src::IterMut(x) => (quote!(), quote!(#x.vlen())),
            Src::Own(x) => (quote!(let #p = #x;), quote!(#p.vlen())),
            Src::Range(a, b) => { let e = self.fresh("b"); (quote!(let #p = #a; let #e = #b;), quote!((if #e > #p { #e - #p } else { 0 }))) }
        };
        match &c.skip { Some(k) => { let s = format_ident!("{}k", p); (p, quote!(#setup let #s: usize = #k;), quote!((if #len > #s { #len - #s } else { 0 }))) } None => (p, setup, len) }
    }
    /// emits the index loop; `body` gets the bound statements
    fn mk_loop(&mut self, c: &Chain, pat: &Pat, body: TokenStream) -> TokenStream {
        let k = self.loops.len();
        self.loops.push("iter".into());
        let (p, setup, len) = self.src_setup(c);
        let n = self.fresh("n");
        let i = self.fresh("i");
        // names by loop number so contracts can refer to them
        let (n, i) = { let _ = (n, i); (format_ident!("__n{}", k), format_ident!("__i{}", k)) };
        let idx = |c: &Chain, p: &Ident| if c.skip.is_some() { let s = format_ident!("{}k", p); quote!(#s + #i) } else { quote!(#i) };
        let i1 = idx(c, &p);
        let (setup, len, bindings) = match &c.zip {
            None => { let b = self.bind_src(&c.src, &p, &i1, pat); (setup, len, b) }
            Some(z) => {
                let (q, s2, l2) = self.src_setup(z);
                let i2 = idx(z, &q);
                let b = match pat {
                    Pat::Tuple(t) if t.elems.len() == 2 => { let a = self.bind_src(&c.src, &p, &i1, &t.elems[0]); let b = self.bind_src(&z.src, &q, &i2, &t.elems[1]); quote!(#a #b) }
                    _ => { self.bad.push("zip pattern".into()); quote!() }
                };
                (quote!(#setup #s2), quote!(vmin(#len, #l2)), b)
            }
        };
        let pre = format_ident!("__pre{}", k); let inv = format_ident!("__inv{}", k); let end = format_ident!("__end{}", k); let post = format_ident!("__post{}", k); let ent = format_ident!("__ent{}", k);
        quote!(#setup let #n: usize = #len; let mut #i: usize = 0; #pre!(); while #i < #n { #inv!(); #bindings #ent!(); #body #end!(); #i = #i + 1; } #post!();)
    }
    fn has_continue(b: &Block) -> bool {
        struct V(bool);
        impl<'a> syn::visit::Visit<'a> for V { fn visit_expr_continue(&mut self, _: &'a ExprContinue) { self.0 = true; } }
        let mut v = V(false);
        syn::visit::Visit::visit_block(&mut v, b);
        v.0
    }
    /// a consumed chain with maps: compose closures
    fn consume(&mut self, c: Chain, last: Option<(Pat, Expr)>, wrap: &dyn Fn(&TokenStream) -> TokenStream) -> TokenStream {
        // maps first, then `last` (for_each body) ; result expression handed to wrap
        let mut c = c;
        let maps = std::mem::take(&mut c.maps);
        let mut stm = TokenStream::new();
        let (pat0, mut cur): (Pat, TokenStream);
        let mut it = maps.into_iter();
        match it.next() {
            Some(m) => { if m.inputs.len() != 1 { self.bad.push("closure".into()); } pat0 = m.inputs[0].clone(); cur = m.body.to_token_stream(); }
            None => { let id = self.fresh("x"); pat0 = parse_quote!(#id); cur = quote!(#id); if let Some((p, e)) = &last { let r = wrap(&e.to_token_stream()); return self.mk_loop(&c, p, r); } }
        }
        for m in it { let p = &m.inputs[0]; stm.extend(quote!(let #p = #cur;)); cur = m.body.to_token_stream(); }
        if let Some((p, e)) = last { stm.extend(quote!(let #p = #cur;)); cur = e.to_token_stream(); }
        let r = wrap(&cur);
        let pat0 = strip_ty(&pat0);
        self.mk_loop(&c, &pat0, quote!(#stm #r))
    }
}
fn leaves(b: &Expr) -> bool { let t = ts(b); t.contains("return") || t.contains('?') }
fn strip_ty(p: &Pat) -> Pat { match p { Pat::Type(t) => (*t.pat).clone(), _ => p.clone() } }

impl VisitMut for Rw {
    fn visit_block_mut(&mut self, b: &mut Block) {
        // lift nested functions
        let mut out = vec![];
        for s in std::mem::take(&mut b.stmts) {
            match s {
                Stmt::Item(Item::Fn(mut f)) => {
                    let new = format!("{}__{}", self.outer, f.sig.ident);
                    self.names.insert(f.sig.ident.to_string(), new.clone());
                    f.sig.ident = format_ident!("{}", new);
                    self.lifted.push(f);
                }
                Stmt::Item(Item::Use(_)) => {}
                s => out.push(s),
            }
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_local_mut(&mut self, l: &mut Local) {
        // `let it = A.iter().chain(B.iter())` : an iterator kept in a variable
        if let Some(init) = &mut l.init {
            if let Expr::MethodCall(m) = &*init.expr {
                if m.method == "chain" && m.args.len() == 1 {
                    if let (Some(a), Some(b)) = (self.chain(&m.receiver), self.chain(&m.args[0])) {
                        if let (Src::Iter(x), Src::Iter(y)) = (&a.src, &b.src) { if a.maps.is_empty() && b.maps.is_empty() && a.zip.is_none() && b.zip.is_none() && a.skip.is_none() && b.skip.is_none() { let e: Expr = parse_quote!(viter_chain(#x.vslice(), #y.vslice())); init.expr = Box::new(e); } }
                    }
                } else if m.method == "iter" { let x = &m.receiver; let e: Expr = parse_quote!(viter(#x.vslice())); init.expr = Box::new(e); }
            }
        }
        visit_mut::visit_local_mut(self, l);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // loops and chains are handled before their children, on the original text
        match e {
            Expr::ForLoop(f) => {
                if let Expr::Range(r) = strip_paren(&f.expr) {
                    if matches!(r.limits, RangeLimits::HalfOpen(_)) {
                        let k = self.loops.len();
                        self.loops.push("range".into());
                        if let Pat::Wild(_) = &*f.pat { let id = format_ident!("__i{}", k); f.pat = Box::new(parse_quote!(#id)); }
                        let inv = format_ident!("__inv{}", k); let end = format_ident!("__end{}", k); let pre = format_ident!("__pre{}", k); let post = format_ident!("__post{}", k); let ent = format_ident!("__ent{}", k);
                        self.visit_expr_mut(&mut f.expr);
                        self.visit_block_mut(&mut f.body);
                        let st = &f.body.stmts;
                        let has_cont = Rw::has_continue(&f.body);
                        let (pat, ex) = (&f.pat, strip_paren(&f.expr));
                        let semi = match st.last() { Some(Stmt::Expr(_, None)) => quote!(;), _ => quote!() };
                        let endm = if has_cont { quote!() } else { quote!(#end!();) };
                        let lab = &f.label;
                        *e = parse_quote!({ #pre!(); #lab for #pat in #ex { #inv!(); #ent!(); #(#st)* #semi #endm } #post!(); });
                        return;
                    }
                }
                let body = f.body.clone();
                if Rw::has_continue(&body) { self.bad.push("continue in an iterator loop".into()); }
                match self.chain(&f.expr) {
                    Some(c) if c.maps.is_empty() => {
                        let st = &body.stmts;
                        let semi = match st.last() { Some(Stmt::Expr(_, None)) => quote!(;), _ => quote!() };
                        let r = self.mk_loop(&c, &f.pat, quote!({ #(#st)* #semi }));
                        *e = parse_quote!({ #r });
                        visit_mut::visit_expr_mut(self, e);
                        return;
                    }
                    _ => { self.bad.push(format!("for over {}", ts(&f.expr))); }
                }
            }
            Expr::While(w) => {
                let k = self.loops.len();
                if !ts(&w.body).contains("__inv") { self.loops.push("while".into());
                    let inv = format_ident!("__inv{}", k); let pre = format_ident!("__pre{}", k); let post = format_ident!("__post{}", k); let end = format_ident!("__end{}", k); let ent = format_ident!("__ent{}", k);
                    self.visit_expr_mut(&mut w.cond);
                    self.visit_block_mut(&mut w.body);
                    let st = &w.body.stmts; let c = &w.cond;
                    let semi = match st.last() { Some(Stmt::Expr(_, None)) => quote!(;), _ => quote!() };
                    if let Expr::Let(_) = &**c { self.bad.push("while let".into()); }
                    let lab = &w.label;
                    *e = parse_quote!({ #pre!(); #lab while #c { #inv!(); #ent!(); #(#st)* #semi #end!(); } #post!(); });
                    return;
                }
            }
            Expr::Loop(l) => {
                let k = self.loops.len();
                if !ts(&l.body).contains("__inv") { self.loops.push("loop".into());
                    let inv = format_ident!("__inv{}", k); let end = format_ident!("__end{}", k); let ent = format_ident!("__ent{}", k);
                    self.visit_block_mut(&mut l.body);
                    let st = &l.body.stmts;
                    let semi = match st.last() { Some(Stmt::Expr(_, None)) => quote!(;), _ => quote!() };
                    let lab = &l.label;
                    *e = parse_quote!(#lab loop { #inv!(); #ent!(); #(#st)* #semi #end!(); });
                    return;
                }
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                match (name.as_str(), m.args.len()) {
                    ("for_each", 1) => {
                        if let (Some(c), Expr::Closure(cl)) = (self.chain(&m.receiver), &m.args[0]) {
                            let (p, b) = (strip_ty(&cl.inputs[0]), (*cl.body).clone());
                            let r = self.consume(c, Some((p, b)), &|x| quote!(#x;));
                            *e = parse_quote!({ #r });
                            visit_mut::visit_expr_mut(self, e);
                            return;
                        }
                        self.bad.push("for_each".into());
                    }
                    ("collect", 0) => {
                        let tf = m.turbofish.as_ref().map(|t| nows(&ts(t)));
                        if let Some(c) = self.chain(&m.receiver) {
                            let tv = match &tf { Some(t) => t == "::<Vec<_>>", None => false };
                            let simple = c.maps.is_empty() && c.zip.is_none() && c.skip.is_none();
                            if simple && matches!(c.src, Src::Own(_)) {
                                if let Src::Own(x) = &c.src { *e = if tv { parse_quote!(#x) } else { parse_quote!(vfrom_vec(#x)) }; }
                            } else {
                                let k = self.loops.len();
                                let o = format_ident!("__o{}", k);
                                let r = self.consume(c, None, &|x| quote!(#o.push(#x);));
                                *e = if tv { parse_quote!({ let mut #o = Vec::new(); #r #o }) } else { parse_quote!({ let mut #o = Vec::new(); #r vfrom_vec(#o) }) };
                            }
                            visit_mut::visit_expr_mut(self, e);
                            return;
                        }
                        self.bad.push("collect".into());
                    }
                    ("any", 1) | ("all", 1) => {
                        if let (Some(c), Expr::Closure(cl)) = (self.chain(&m.receiver), &m.args[0]) {
                            let (p, b) = (strip_ty(&cl.inputs[0]), (*cl.body).clone());
                            let k = self.loops.len();
                            let o = format_ident!("__o{}", k);
                            let init = if name == "any" { quote!(false) } else { quote!(true) };
                            let r = self.consume(c, Some((p, b)), &|x| if name == "any" { quote!(if #x { #o = true; }) } else { quote!(if !(#x) { #o = false; }) });
                            *e = parse_quote!({ let mut #o = #init; #r #o });
                            visit_mut::visit_expr_mut(self, e);
                            return;
                        }
                        self.bad.push("any/all".into());
                    }
                    ("map", 1) => {
                        // Option::map with a closure (iterator maps are consumed above)
                        if let Expr::Closure(cl) = &m.args[0] {
                            let (r, p, b) = (&m.receiver, strip_ty(&cl.inputs[0]), &cl.body);
                            if leaves(b) { self.bad.push("control flow in a closure".into()); }
                            *e = parse_quote!(match #r { Some(#p) => Some(#b), None => None });
                            visit_mut::visit_expr_mut(self, e);
                            return;
                        }
                    }
                    ("map_err", 1) => {
                        if let Expr::Closure(cl) = &m.args[0] {
                            let (r, p, b) = (&m.receiver, strip_ty(&cl.inputs[0]), &cl.body);
                            if leaves(b) { self.bad.push("control flow in a closure".into()); }
                            *e = parse_quote!(match #r { Ok(__v) => Ok(__v), Err(#p) => Err(#b) });
                            visit_mut::visit_expr_mut(self, e);
                            return;
                        }
                    }
                    ("and_then", 1) if ts(&m.receiver).contains("map_err") => {
                        if let Expr::Closure(cl) = &m.args[0] {
                            let (r, p, b) = (&m.receiver, strip_ty(&cl.inputs[0]), &cl.body);
                            if leaves(b) { self.bad.push("control flow in a closure".into()); }
                            *e = parse_quote!(match #r { Ok(#p) => #b, Err(__x) => Err(__x) });
                            visit_mut::visit_expr_mut(self, e);
                            return;
                        }
                    }
                    ("clone_from_slice", 1) | ("copy_from_slice", 1) => {
                        let y = m.args[0].clone();
                        let mut rx = strip_paren(&m.receiver).clone();
                        if let Expr::Reference(r) = &rx { rx = strip_paren(&r.expr).clone(); }
                        if let Expr::Index(ix) = &rx { if let Expr::Range(rg) = &*ix.index {
                            let x = &ix.expr;
                            *e = match (&rg.start, &rg.end) {
                                (Some(a), Some(b)) => parse_quote!(vcopy_range(&mut #x, #a, #b, #y)),
                                (Some(a), None) => parse_quote!(vcopy_tail(&mut #x, #a, #y)),
                                (None, Some(b)) => parse_quote!(vcopy_range(&mut #x, 0, #b, #y)),
                                (None, None) => parse_quote!(vcopy_all(&mut #x, #y)),
                            };
                            visit_mut::visit_expr_mut(self, e); return;
                        } }
                        let x = &m.receiver;
                        *e = parse_quote!(vcopy_all(#x, #y));
                        visit_mut::visit_expr_mut(self, e);
                        return;
                    }
                    ("concat", 0) => {
                        if let Expr::Array(a) = strip_paren(&m.receiver) { if a.elems.len() == 2 { let (x, y) = (&a.elems[0], &a.elems[1]); *e = parse_quote!(vconcat(#x, #y)); visit_mut::visit_expr_mut(self, e); return; } }
                        self.bad.push("concat".into());
                    }
                    ("extend_from_slice", 1) => { let (x, y) = (&m.receiver, &m.args[0]); *e = parse_quote!(vextend(&mut #x, #y)); visit_mut::visit_expr_mut(self, e); return; }
                    ("unwrap", 0) => { m.method = format_ident!("vunwrap"); }
                    ("to_vec", 0) => { m.method = format_ident!("vto_vec"); }
                    ("as_ref", 0) => { m.method = format_ident!("vas_ref"); }
                    ("cloned", 0) => { m.method = format_ident!("vcloned"); }
                    ("leading_zeros", 0) => { let x = &m.receiver; *e = parse_quote!(vleading_zeros(#x)); visit_mut::visit_expr_mut(self, e); return; }
                    ("expect", 1) => { let x = &m.receiver; *e = parse_quote!(#x.vunwrap()); visit_mut::visit_expr_mut(self, e); return; }
                    ("iter", 0) if matches!(strip_paren(&m.receiver), Expr::Array(_)) => {}
                    ("iter", 0) | ("iter_mut", 0) | ("zip", _) | ("chain", _) | ("skip", _) => { self.bad.push(format!("iterator {}", name)); }
                    _ => {}
                }
                self.calls.push(name);
            }
            Expr::Reference(r) if r.mutability.is_none() => {
                if let Expr::Index(ix) = &*r.expr {
                    if let Expr::Range(rg) = &*ix.index {
                        let x = &ix.expr;
                        if let (Some(a), Some(b)) = (&rg.start, &rg.end) { *e = parse_quote!(vslice_range(&#x, #a, #b)); visit_mut::visit_expr_mut(self, e); return; }
                        if let (None, None) = (&rg.start, &rg.end) { *e = parse_quote!(&#x); visit_mut::visit_expr_mut(self, e); return; }
                    }
                }
            }
            Expr::Reference(r) => {
                if let Expr::Index(ix) = &*r.expr {
                    if let Expr::Range(rg) = &*ix.index {
                        let x = &ix.expr;
                        if let (None, None) = (&rg.start, &rg.end) { *e = parse_quote!(&mut #x); visit_mut::visit_expr_mut(self, e); return; }
                    }
                }
            }
            Expr::Index(ix) => {
                if self.sv { let s = ts(&ix.expr); if s == "self" || s == "other" || s == "value" || s == "if_else" { let (a, b) = (&ix.expr, &ix.index); *e = parse_quote!((*#a.vget(#b))); } }
            }
            Expr::Call(c) => {
                let f = nows(&ts(&c.func));
                let last = f.rsplit("::").next().unwrap_or("").to_string();
                if f.contains("panicking::") || f.contains("begin_panic") || f.contains("rt::panic") { *e = parse_quote!(reject()); return; }
                if f.ends_with("vec::from_elem") { let (x, n) = (&c.args[0], &c.args[1]); *e = parse_quote!(vec_from_elem(#x, #n)); }
                else if f.ends_with("box_assume_init_into_vec_unsafe") {
                    if let Expr::Call(c2) = &c.args[0] { if let Some(Expr::Array(a)) = c2.args.last() { let el = a.elems.iter(); let v = self.fresh("v"); *e = parse_quote!({ let mut #v = Vec::new(); #(#v.push(#el);)* #v }); visit_mut::visit_expr_mut(self, e); return; } }
                    self.bad.push("vec literal".into());
                }
                else if f.ends_with("vec::Vec::new") { *e = parse_quote!(Vec::new()); }
                else if f.contains("mem::size_of::<usize>") { *e = parse_quote!(vsize_of_usize()); return; }
                else if f == "CS::F::char" || f == "T::char" { *e = parse_quote!(fr_char()); return; }
                else if f == "J::Fs::char" { *e = parse_quote!(fs_char()); return; }
                else if f == "unsafe" {}
                else if let Some(n) = self.names.get(&f) { let id = format_ident!("{}", n); c.func = Box::new(parse_quote!(#id)); }
                else { self.calls.push(last); }
            }
            Expr::Path(p) => {
                let s = nows(&ts(p));
                match s.as_str() {
                    "CS::F::NUM_BITS" | "T::NUM_BITS" => { *e = parse_quote!(fr_num_bits()); return; }
                    "J::Fs::NUM_BITS" => { *e = parse_quote!(fs_num_bits()); return; }
                    "L::USIZE" => { *e = parse_quote!(L::vusize()); return; }
                    _ => {}
                }
            }
            Expr::Unsafe(u) => {
                // a lone call of transmute: rendered as a call (its meaning is declared by the area that uses it, or it has none)
                if let [Stmt::Expr(Expr::Call(c), None)] = &u.block.stmts[..] {
                    if let Expr::Path(p) = &*c.func { if p.path.segments.last().map_or(false, |s| s.ident == "transmute") { *e = Expr::Call(c.clone()); visit_mut::visit_expr_mut(self, e); return; } }
                }
                self.bad.push("unsafe".into())
            }
            Expr::Closure(_) => self.bad.push("closure".into()),
            Expr::Macro(m) => { let s = ts(&m.mac.path); if !s.starts_with("__") && s != "format_args" { self.bad.push(format!("macro {}", s)); } }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        visit_mut::visit_stmt_mut(self, s);
    }
}

struct SelfRen;
impl VisitMut for SelfRen {
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) { if p.path.is_ident("self") { p.path = parse_quote!(self_); } }
}

struct Out { fns: Vec<serde_json::Value> }

fn do_fn(out: &mut Out, module: &str, imp: Option<(&Generics, Option<&Path>, &Type, Option<&Type>, bool)>, sig: &Signature, block: Option<&Block>, derived: bool) {
    let mut sig = sig.clone();
    let sv = imp.as_ref().map(|i| ts(i.2).starts_with("SizedVec")).unwrap_or(false);
    let value = imp.as_ref().and_then(|i| i.3.cloned());
    let mut drop: Vec<String> = DROPPED.iter().map(|s| s.to_string()).collect();
    if module.starts_with("native::num") { drop.push("T".into()); }
    let mut ty = Ty { value, self_is_sv: sv, drop };
    let mut rw = Rw { sv, outer: format!("{}_{}", imp.as_ref().map(|i| nows(&ts(i.2)).chars().filter(|c| c.is_alphanumeric()).collect::<String>()).unwrap_or_default(), sig.ident), ..Default::default() };
    let mut body = block.cloned();
    if let Some(b) = &mut body {
        rw.visit_block_mut(b);
        // rename calls to lifted functions that appeared before the rename was known
        ty.visit_block_mut(b);
    }
    // by-value mutable parameters
    let mut prolog = TokenStream::new();
    for a in sig.inputs.iter_mut() {
        match a {
            FnArg::Receiver(r) => if r.reference.is_none() && r.mutability.is_some() { r.mutability = None; prolog.extend(quote!(let mut self_ = self;)); if let Some(b) = &mut body { SelfRen.visit_block_mut(b); } },
            FnArg::Typed(t) => if let Pat::Ident(p) = &mut *t.pat { if p.mutability.is_some() { p.mutability = None; let id = &p.ident; prolog.extend(quote!(let mut #id = #id;)); } } else { rw.bad.push("parameter pattern".into()) },
        }
    }
    ty.visit_signature_mut(&mut sig);
    let mut impl_json = serde_json::Value::Null;
    let mut key_impl = String::new();
    if let Some((g, tr, st, val, _)) = imp {
        let mut g = g.clone(); ty.visit_generics_mut(&mut g);
        let mut st = st.clone(); ty.visit_type_mut(&mut st);
        let tr = tr.map(|p| { let mut p = p.clone(); ty.visit_path_mut(&mut p); p });
        let val = val.map(|v| { let mut v = v.clone(); ty.visit_type_mut(&mut v); v });
        let strip = |s: &str| -> String { let mut o = String::new(); let mut it = s.chars().peekable(); while let Some(c) = it.next() { if c == '\'' { while let Some(d) = it.peek() { if d.is_alphanumeric() || *d == '_' { it.next(); } else { break; } } while let Some(d) = it.peek() { if *d == ' ' || *d == ',' { it.next(); } else { break; } } } else { o.push(c); } } nows(&o).replace("<>", "").replace(",>", ">") };
        key_impl = format!("{}|{}", tr.as_ref().map(|p| strip(&ts(p))).unwrap_or_default(), strip(&ts(&st)));
        impl_json = serde_json::json!({ "generics": ts(&g), "trait": tr.as_ref().map(|p| ts(p)), "self": ts(&st), "value": val.map(|v| ts(&v)) });
    } else { key_impl.push('|'); }
    let key = format!("{}|{}|{}", module, key_impl, sig.ident);
    let inputs: Vec<String> = sig.inputs.iter().map(|a| ts(a)).collect();
    let output = match &sig.output { ReturnType::Default => None, ReturnType::Type(_, t) => Some(ts(t)) };
    let body_s = body.as_ref().map(|b| { let st = &b.stmts; quote!(#prolog #(#st)*).to_string() });
    let lifted = std::mem::take(&mut rw.lifted);
    out.fns.push(serde_json::json!({
        "key": key, "module": module, "impl": impl_json, "name": sig.ident.to_string(), "generics": ts(&sig.generics), "inputs": inputs, "output": output,
        "body": body_s, "loops": rw.loops, "bad": rw.bad, "derived": derived, "calls": rw.calls, "vis": true,
    }));
    for f in lifted { do_fn(out, module, None, &f.sig, Some(&f.block), false); }
}

fn walk(out: &mut Out, module: &str, items: &[Item]) {
    for it in items {
        match it {
            Item::Mod(m) => if let Some((_, its)) = &m.content { let p = if module.is_empty() { m.ident.to_string() } else { format!("{}::{}", module, m.ident) }; walk(out, &p, its); },
            Item::Fn(f) => do_fn(out, module, None, &f.sig, Some(&f.block), false),
            Item::Impl(i) => {
                let derived = i.attrs.iter().any(|a| a.path().is_ident("automatically_derived"));
                let tr = i.trait_.as_ref().map(|t| &t.1);
                let val = i.items.iter().find_map(|x| match x { ImplItem::Type(t) if t.ident == "Value" || t.ident == "Output" || t.ident == "Item" => Some(&t.ty), _ => None });
                for x in &i.items { if let ImplItem::Fn(f) = x { do_fn(out, module, Some((&i.generics, tr, &i.self_ty, val, derived)), &f.sig, Some(&f.block), derived); } }
            }
            Item::Trait(t) => {
                for x in &t.items { if let TraitItem::Fn(f) = x {
                    if let Some(b) = &f.default { let tn: Type = { let id = &t.ident; parse_quote!(#id) }; do_fn(out, module, Some((&t.generics, None, &tn, None, false)), &f.sig, Some(b), false); }
                } }
            }
            Item::Struct(s) => { let mut s = s.clone(); s.attrs.clear(); for f in s.fields.iter_mut() { f.attrs.clear(); f.vis = parse_quote!(pub); } s.vis = parse_quote!(pub); let mut ty = Ty { value: None, self_is_sv: false, drop: DROPPED.iter().map(|s| s.to_string()).collect() }; ty.visit_item_struct_mut(&mut s); out.fns.push(serde_json::json!({ "key": format!("{}|type|{}", module, s.ident), "type": ts(&s), "module": module, "name": s.ident.to_string() })); }
            Item::Enum(s) => { let mut s = s.clone(); s.attrs.clear(); s.vis = parse_quote!(pub); let mut ty = Ty { value: None, self_is_sv: false, drop: DROPPED.iter().map(|s| s.to_string()).collect() }; ty.visit_item_enum_mut(&mut s); out.fns.push(serde_json::json!({ "key": format!("{}|type|{}", module, s.ident), "type": ts(&s), "module": module, "name": s.ident.to_string() })); }
            _ => {}
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let src = std::fs::read_to_string(&a[1]).unwrap();
    let f = parse_file(&src).expect("parse");
    let mut out = Out { fns: vec![] };
    walk(&mut out, "", &f.items);
    std::fs::write(&a[2], serde_json::to_string(&out.fns).unwrap()).unwrap();
}
