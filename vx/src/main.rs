// vx: mechanical extractor.  Reads a Verus template, replaces every //@fn block by the text of
// the named function taken from /repo's current source (byte-range edits on the original text),
// with the template's contract and loop annotations inserted.  Exit 3 = the source no longer has
// the structure the template needs (reported as "degraded", never as a violation).
use proc_macro2::{LineColumn, Span};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use syn::spanned::Spanned;
use syn::visit::Visit;
use syn::*;

fn structure(msg: String) -> ! { eprintln!("VX-STRUCTURE {msg}"); std::process::exit(3) }

struct Src { text: String, lines: Vec<usize> }
impl Src {
    fn new(text: String) -> Src { let mut lines = vec![0]; for (i, b) in text.bytes().enumerate() { if b == b'\n' { lines.push(i + 1) } } Src { text, lines } }
    fn off(&self, lc: LineColumn) -> usize {
        let l = self.lines[lc.line - 1]; let s = &self.text[l..];
        l + s.char_indices().nth(lc.column).map(|x| x.0).unwrap_or(s.len())
    }
    fn r(&self, s: Span) -> (usize, usize) { (self.off(s.start()), self.off(s.end())) }
    fn t(&self, s: Span) -> &str { let (a, b) = self.r(s); &self.text[a..b] }
}

#[derive(Default, Debug)]
struct Block { kind: String, file: String, name: String, ret: Option<String>, spec: String, loops: BTreeMap<usize, String>, at: Vec<(String, String)>, subs: Vec<(String, String)>, byref: BTreeMap<String, String>, rename: Option<String>, sig: Option<String>, attrs: String, cfg_on: Vec<String>, loops_decl: Option<usize>, nopub: bool, armcut: Vec<String>, nobody: bool, plain: bool, expand: bool, keep: Vec<String> }

/// replace occurrences of `p` that differ from it in white space only
fn sub_ws(text: &str, p: &str, q: &str) -> (String, usize) {
    let pat: Vec<char> = p.chars().filter(|c| !c.is_whitespace()).collect(); if pat.len() < 6 { return (text.to_string(), 0) }
    let t: Vec<char> = text.chars().collect(); let (mut out, mut i, mut n) = (String::new(), 0, 0);
    while i < t.len() {
        let (mut j, mut k) = (i, 0);
        if t[i] == pat[0] { while j < t.len() && k < pat.len() { if t[j] == pat[k] { j += 1; k += 1 } else if k > 0 && t[j].is_whitespace() { j += 1 } else { break } } }
        if k == pat.len() { out.push_str(q); i = j; n += 1 } else { out.push(t[i]); i += 1 }
    }
    (out, n)
}

fn parse_template(t: &str) -> Vec<std::result::Result<String, Block>> {
    let mut out = vec![]; let mut cur = String::new(); let mut blk: Option<Block> = None; let mut dest: Option<(String, String)> = None; let mut buf = String::new();
    fn flush(blk: &mut Block, dest: &mut Option<(String, String)>, buf: &mut String) {
        if let Some((k, a)) = dest.take() { match k.as_str() { "spec" => blk.spec = buf.clone(), "loop" => { blk.loops.insert(a.parse().unwrap(), buf.clone()); } "at" => blk.at.push((a, buf.clone())), "sig" => blk.sig = Some(buf.clone()), _ => {} } }
        buf.clear();
    }
    for line in t.lines() {
        let l = line.trim();
        if let Some(d) = l.strip_prefix("//@") {
            let (k, rest) = d.split_once(' ').unwrap_or((d, "")); let rest = rest.trim();
            match k {
                "fn" | "const" | "type" => {
                    let (f, n) = rest.split_once(" :: ").unwrap_or_else(|| panic!("bad directive {l}"));
                    out.push(Ok(std::mem::take(&mut cur)));
                    let b = Block { kind: k.into(), file: f.trim().into(), name: n.trim().into(), ..Default::default() };
                    blk = Some(b);
                    if k != "fn" { blk.as_mut().unwrap().plain = true; }
                }
                "end" => { let mut b = blk.take().unwrap_or_else(|| panic!("stray end")); flush(&mut b, &mut dest, &mut buf); out.push(Err(b)); }
                _ => { let b = blk.as_mut().unwrap_or_else(|| panic!("stray {l}")); flush(b, &mut dest, &mut buf);
                    match k {
                        "ret" => b.ret = Some(rest.into()), "rename" => b.rename = Some(rest.into()), "attrs" => b.attrs = rest.into(), "nobody" => b.nobody = true, "nopub" => b.nopub = true, "armcut" => b.armcut.push(rest.split_whitespace().collect()), "expand" => b.expand = true, "keep" => b.keep.extend(rest.split_whitespace().map(String::from)),
                        "loops" => b.loops_decl = Some(rest.parse().unwrap()),
                        "cfg" => b.cfg_on.extend(rest.split_whitespace().map(String::from)),
                        "sub" => { let (a, c) = rest.split_once(" ==>> ").or_else(|| rest.split_once(" => ")).unwrap_or((rest.trim_end_matches(" =>"), "")); b.subs.push((a.into(), c.into())) }
                        "iter" => { let (a, c) = rest.split_once(' ').unwrap(); b.byref.insert(a.into(), c.trim().into()); }
                        "spec" | "sig" => dest = Some((k.into(), String::new())), "loop" | "at" => dest = Some((k.into(), rest.into())),
                        _ => panic!("unknown directive {l}") } }
            }
        } else if blk.is_some() { buf.push_str(line); buf.push('\n'); } else { cur.push_str(line); cur.push('\n'); }
    }
    out.push(Ok(cur)); out
}

// ---------- locating items ----------
struct Found { sig: Signature, block: syn::Block }
fn last_seg(t: &Type) -> String { match t { Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(), Type::Reference(r) => last_seg(&r.elem), _ => String::new() } }
fn cfg_test(attrs: &[Attribute]) -> bool { attrs.iter().any(|a| a.path().is_ident("cfg") && { let s = quote::quote!(#a).to_string(); s.contains("(test") || s.contains("verif") }) }
fn find_fn(items: &[Item], want_ty: Option<&str>, want_trait: Option<&str>, name: &str, out: &mut Vec<Found>) {
    for it in items { match it {
        Item::Fn(f) if want_ty.is_none() && f.sig.ident == name && !cfg_test(&f.attrs) => out.push(Found { sig: f.sig.clone(), block: (*f.block).clone() }),
        Item::Mod(m) if !cfg_test(&m.attrs) => if let Some((_, c)) = &m.content { find_fn(c, want_ty, want_trait, name, out) },
        Item::Impl(i) => if let Some(w) = want_ty { if last_seg(&i.self_ty) == w && (want_trait.is_none() || i.trait_.as_ref().map(|t| t.1.segments.last().unwrap().ident.to_string()).as_deref() == want_trait) { for x in &i.items { if let ImplItem::Fn(f) = x { if f.sig.ident == name { out.push(Found { sig: f.sig.clone(), block: f.block.clone() }) } } } } },
        Item::Trait(t) => if want_ty == Some(&t.ident.to_string()) { for x in &t.items { if let TraitItem::Fn(f) = x { if f.sig.ident == name { if let Some(d) = &f.default { out.push(Found { sig: f.sig.clone(), block: d.clone() }) } } } } },
        _ => {} } }
}
fn find_item(items: &[Item], kind: &str, name: &str) -> Option<Item> {
    for it in items { match it {
        Item::Const(c) if kind == "const" && c.ident == name => return Some(it.clone()),
        Item::Static(c) if kind == "const" && c.ident == name => return Some(it.clone()),
        Item::Struct(c) if kind == "type" && c.ident == name => return Some(it.clone()),
        Item::Enum(c) if kind == "type" && c.ident == name => return Some(it.clone()),
        Item::Mod(m) if !cfg_test(&m.attrs) => if let Some((_, c)) = &m.content { if let Some(x) = find_item(c, kind, name) { return Some(x) } },
        _ => {} } }
    None
}

// ---------- edits ----------
#[derive(Clone, Debug)]
struct Edit { a: usize, b: usize, s: String, pri: i32 }
struct Ctx<'a> { src: &'a Src, blk: &'a Block, edits: Vec<Edit>, nloop: usize, rules: BTreeMap<&'static str, usize>, used_loops: Vec<usize>, canary: bool, ncanary: usize, depth: usize, loop_lines: Vec<usize>, posuse: Vec<(String, String)>, advanced: Vec<String>, iters: BTreeMap<String, Expr>, lets: BTreeMap<String, usize>, used_at: Vec<String> }

enum It { One(String), Pair(Box<It>, Box<It>) }
struct Chain { pre: Vec<String>, count: String, item: Box<dyn Fn(&str) -> It>, bounded: bool }

impl<'a> Ctx<'a> {
    fn uniq(&mut self, b: String) -> String { let mut v = b; while self.iters.contains_key(&format!("!{v}")) { v.push('b') } self.iters.insert(format!("!{v}"), Expr::Verbatim(Default::default())); v }
    fn rule(&mut self, r: &'static str) { *self.rules.entry(r).or_default() += 1 }
    fn ed(&mut self, a: usize, b: usize, s: String) { self.edits.push(Edit { a, b, s, pri: 0 }) }
    fn atext(&self, key: &str) -> String { self.blk.at.iter().filter(|x| x.0 == key).map(|x| x.1.clone()).collect::<Vec<_>>().join("\n") }
    fn can(&mut self) -> String { if self.canary { self.ncanary += 1; "\nassert(false); // CANARY\n".into() } else { String::new() } }
    fn cfg_true(&self, a: &Attribute) -> bool { let s = a.meta.require_list().map(|l| l.tokens.to_string()).unwrap_or_default(); eval_cfg(&s, &self.blk.cfg_on) }

    // slice-like source: (base text, offset text or "", length text)
    fn place(&mut self, e: &Expr, pre: &mut Vec<String>, mutable: bool) -> (String, String, String) {
        match e {
            Expr::Paren(p) => return self.place(&p.expr, pre, mutable),
            Expr::Reference(r) => return self.place(&r.expr, pre, mutable),
            Expr::MethodCall(m) if m.method == "into_remainder" => { let t = self.src.t(m.receiver.span()).to_string(); if let Some(Expr::MethodCall(r)) = self.iters.get(&t).cloned().as_ref() { if r.method == "chunks_exact_mut" {
                let (b, o, l) = self.place(&r.receiver, pre, true); let n = self.bindn(&r.args[0], pre); let v = self.uniq(format!("vx_m{}_{}", self.nloop, pre.len())); pre.push(format!("vx_nonzero({n}); let {v}: usize = ({l} / {n}) * {n};"));
                return (b, if o.is_empty() { v.clone() } else { format!("{o} + {v}") }, format!("vx_sat_sub({l}, {v})")) } } structure("into_remainder".into()) }
            Expr::Index(ix) => if let Expr::Range(rg) = &*ix.index {
                let (b, o, l) = self.place(&ix.expr, pre, mutable);
                if o.is_empty() {
                    let lo = rg.start.as_ref().map(|x| self.src.t(x.span()).to_string()).unwrap_or("0".into());
                    let hi = match &rg.end { None => l.clone(), Some(x) => { let t = self.src.t(x.span()).to_string(); if matches!(rg.limits, RangeLimits::Closed(_)) { format!("({t}) + 1") } else { t } } };
                    let id = self.nloop; let n = self.uniq(format!("vx_lo{id}_{}", pre.len())).split_off(format!("vx_lo{id}_").len());
                    pre.push(format!("let vx_lo{id}_{n}: usize = {lo}; let vx_hi{id}_{n}: usize = {hi}; vx_range_check(vx_lo{id}_{n}, vx_hi{id}_{n}, {l});"));
                    let off = if lo == "0" { String::new() } else { format!("vx_lo{id}_{n}") };
                    return (b, off, format!("(vx_hi{id}_{n} - vx_lo{id}_{n})"));
                }
            },
            Expr::Path(_) | Expr::Field(_) => { let t = self.src.t(e.span()).to_string(); if mutable && self.blk.byref.get(&t).map(|s| s.as_str()) == Some("vec") { return (format!("{t}.as_mut_slice()"), String::new(), format!("{t}.len()")) } return (t.clone(), String::new(), format!("{t}.len()")) }
            _ => {}
        }
        fn placeish(e: &Expr) -> bool { match e { Expr::Path(_) => true, Expr::Field(f) => placeish(&f.base), Expr::Index(i) => placeish(&i.expr) && !matches!(&*i.index, Expr::Range(_)), Expr::Paren(p) => placeish(&p.expr), _ => false } }
        let t = self.src.t(e.span()).to_string();
        if placeish(e) { return (t.clone(), String::new(), format!("{t}.len()")) }
        let id = self.nloop; let n = pre.len(); let v = self.uniq(format!("vx_s{id}_{n}"));
        pre.push(format!("let {v} = {}{t};", "")); let _ = mutable;
        (v.clone(), String::new(), format!("{v}.len()"))
    }
    fn bindn(&mut self, e: &Expr, pre: &mut Vec<String>) -> String {
        let t = self.src.t(e.span()).to_string();
        if matches!(e, Expr::Lit(_) | Expr::Path(_)) { return t }
        let v = self.uniq(format!("vx_n{}_{}", self.nloop, pre.len())); pre.push(format!("let {v}: usize = {t};")); v
    }
    fn chain(&mut self, e: &Expr) -> Chain {
        let fail = |s: &Src, e: &Expr| -> ! { structure(format!("unsupported iterator `{}`", s.t(e.span()))) };
        match e {
            Expr::Paren(p) => self.chain(&p.expr),
            Expr::Range(r) => {
                let mut pre = vec![];
                let lo = r.start.as_ref().map(|x| self.src.t(x.span()).to_string()).unwrap_or_else(|| fail(self.src, e));
                match &r.end { None => { Chain { pre, count: String::new(), bounded: false, item: Box::new(move |i| It::One(if lo == "0" { i.to_string() } else { format!("({lo}) + {i}") })) } }
                    Some(h) => { let hi = self.src.t(h.span()).to_string(); let v = self.uniq(format!("vx_r{}", self.nloop)); let incl = matches!(r.limits, RangeLimits::Closed(_));
                        pre.push(format!("let {v}lo: usize = {lo}; let {v}hi: usize = {hi}{}; let {v}n: usize = if {v}hi >= {v}lo {{ {v}hi - {v}lo }} else {{ 0 }};", if incl { " + 1" } else { "" }));
                        let vv = v.clone(); Chain { pre, count: format!("{v}n"), bounded: true, item: Box::new(move |i| It::One(format!("{vv}lo + {i}"))) } } }
            }
            Expr::Paren(p) => self.chain(&p.expr),
            Expr::Reference(r) if matches!(&*r.expr, Expr::Path(_)) && self.blk.byref.get(self.src.t(r.expr.span())).map(|s| s.as_str()) == Some("pos") => {
                let t = self.src.t(r.expr.span()).to_string(); if self.advanced.contains(&t) { structure(format!("iterator `{t}` advanced twice")) } self.advanced.push(t.clone());
                let x = self.iters.get(&t).cloned().unwrap_or_else(|| fail(self.src, e)); let c = self.chain(&x); let mut pre = c.pre; let v = format!("vx_pn{}_{t}", self.nloop); pre.push(format!("let {v}: usize = {};", c.count)); self.posuse.push((t, v.clone())); Chain { pre, count: v, bounded: true, item: c.item } }
            Expr::Reference(r) => { let mut pre = vec![]; let m = r.mutability.is_some(); let (b, o, l) = self.place(&r.expr, &mut pre, m); elem(pre, b, o, l, m) }
            Expr::Path(_) | Expr::Field(_) => { let t = self.src.t(e.span()).to_string(); if let Some(x) = self.iters.get(&t).cloned() { return self.chain(&x) } match self.blk.byref.get(&t).map(|s| s.as_str()) { Some("mut") => elem(vec![], t.clone(), String::new(), format!("{t}.len()"), true), Some("ref") => elem(vec![], t.clone(), String::new(), format!("{t}.len()"), false), _ => fail(self.src, e) } }
            Expr::MethodCall(m) if self.blk.byref.keys().any(|k| { let t: String = self.src.t(e.span()).split_whitespace().collect(); *k == t }) => { let t: String = self.src.t(e.span()).split_whitespace().collect(); let mt = self.blk.byref[&t] == "mut"; let mut pre = vec![]; let v = self.uniq(format!("vx_s{}_0", self.nloop)); pre.push(format!("let {v} = {};", self.src.t(e.span()))); elem(pre, v.clone(), String::new(), format!("{v}.len()"), mt) }
            Expr::MethodCall(m) => {
                let name = m.method.to_string(); let args: Vec<&Expr> = m.args.iter().collect();
                match name.as_str() {
                    "map" if matches!(args[0], Expr::Closure(c) if c.inputs.len() == 1 && matches!(&c.inputs[0], Pat::Ident(_))) => {
                        let Expr::Closure(cl) = args[0] else { unreachable!() };
                        let x = self.src.t(cl.inputs[0].span()).to_string(); let body = self.src.t(cl.body.span()).to_string(); let c = self.chain(&m.receiver); let inner = c.item;
                        Chain { pre: c.pre, count: c.count, bounded: c.bounded, item: Box::new(move |i| match inner(i) { It::One(t) => It::One(format!("({{ let {x} = {t}; {body} }})")), _ => structure("map over a pair".into()) }) } }
                    "iter" | "iter_mut" => { let mut pre = vec![]; let mt = name == "iter_mut"; let (b, o, l) = self.place(&m.receiver, &mut pre, mt); elem(pre, b, o, l, mt) }
                    "chunks_exact" | "chunks_exact_mut" | "rchunks_exact" | "rchunks_exact_mut" | "windows" | "chunks" | "chunks_mut" => {
                        let mut pre = vec![]; let mt = name.ends_with("_mut"); let (b, o, l) = self.place(&m.receiver, &mut pre, mt); let n = self.bindn(args[0], &mut pre);
                        pre.push(format!("vx_nonzero({n});"));
                        let pfx = if mt { "&mut " } else { "&" };
                        let off = if o.is_empty() { String::new() } else { format!("{o} + ") };
                        match name.as_str() {
                            "windows" => { let c = format!("vx_windows_count({l}, {n})"); Chain { pre, count: c, bounded: true, item: Box::new(move |i| It::One(format!("{pfx}{b}[{off}{i}..{off}{i} + {n}]"))) } }
                            "rchunks_exact" | "rchunks_exact_mut" => { let rl = self.uniq(format!("vx_rl{}_{}", self.nloop, pre.len())); pre.push(format!("let {rl}: usize = {l};")); let l = rl; let c = format!("({l} / {n})"); Chain { pre, count: c, bounded: true, item: Box::new(move |i| It::One(format!("{pfx}{b}[{off}{l} - {i} * {n} - {n}..{off}{l} - {i} * {n}]"))) } }
                            "chunks" | "chunks_mut" => { let c = format!("vx_ceil_div({l}, {n})"); Chain { pre, count: c, bounded: true, item: Box::new(move |i| It::One(format!("{pfx}{b}[{off}{i} * {n}..{off}vx_min({i} * {n} + {n}, {l})]"))) } }
                            _ => { let c = format!("({l} / {n})"); Chain { pre, count: c, bounded: true, item: Box::new(move |i| It::One(format!("{pfx}{b}[{off}{i} * {n}..{off}{i} * {n} + {n}]"))) } }
                        }
                    }
                    "remainder" => { if let Expr::MethodCall(r) = &*m.receiver { if r.method == "chunks_exact" {
                        let mut pre = vec![]; let (b, o, l) = self.place(&r.receiver, &mut pre, false); let n = self.bindn(&r.args[0], &mut pre);
                        let v = self.uniq(format!("vx_m{}_{}", self.nloop, pre.len())); pre.push(format!("vx_nonzero({n}); let {v}: usize = ({l} / {n}) * {n};"));
                        let off = if o.is_empty() { v.clone() } else { format!("{o} + {v}") };
                        return elem(pre, b, off, format!("vx_sat_sub({l}, {v})"), false) } } fail(self.src, e) }
                    "zip" => { let a = self.chain(&m.receiver); let b = self.chain(args[0]); let mut pre = a.pre; pre.extend(b.pre);
                        let (fa, fb) = (a.item, b.item); let (count, bounded) = match (a.bounded, b.bounded) { (true, true) => (format!("vx_min({}, {})", a.count, b.count), true), (true, _) => (a.count, true), (_, true) => (b.count, true), _ => (String::new(), false) };
                        Chain { pre, count, bounded, item: Box::new(move |i| It::Pair(Box::new(fa(i)), Box::new(fb(i)))) } }
                    "enumerate" => { let a = self.chain(&m.receiver); let fa = a.item; Chain { pre: a.pre, count: a.count, bounded: a.bounded, item: Box::new(move |i| It::Pair(Box::new(It::One(i.to_string())), Box::new(fa(i)))) } }
                    "rev" => { let a = self.chain(&m.receiver); if !a.bounded { fail(self.src, e) } let mut pre = a.pre; let v = self.uniq(format!("vx_rv{}_{}", self.nloop, pre.len())); pre.push(format!("let {v}: usize = {};", a.count)); let fa = a.item; let vv = v.clone(); Chain { pre, count: v, bounded: true, item: Box::new(move |i| fa(&format!("({vv} - 1 - {i})"))) } }
                    "take" => { let a = self.chain(&m.receiver); let mut pre = a.pre; let n = self.bindn(args[0], &mut pre); Chain { count: if a.bounded { format!("vx_min({}, {n})", a.count) } else { n }, bounded: true, pre, item: a.item } }
                    "skip" => { let a = self.chain(&m.receiver); let mut pre = a.pre; let n = self.bindn(args[0], &mut pre); let fa = a.item; let n2 = n.clone(); Chain { pre, count: format!("vx_sat_sub({}, {n})", a.count), bounded: a.bounded, item: Box::new(move |i| fa(&format!("({n2} + {i})"))) } }
                    "step_by" => { let a = self.chain(&m.receiver); if !a.bounded { fail(self.src, e) } let mut pre = a.pre; let n = self.bindn(args[0], &mut pre); pre.push(format!("vx_nonzero({n});")); let fa = a.item; let n2 = n.clone(); Chain { pre, count: format!("vx_ceil_div({}, {n})", a.count), bounded: true, item: Box::new(move |i| fa(&format!("({i} * {n2})"))) } }
                    "copied" | "cloned" => { let a = self.chain(&m.receiver); let fa = a.item; Chain { pre: a.pre, count: a.count, bounded: a.bounded, item: Box::new(move |i| match fa(i) { It::One(s) => It::One(match s.strip_prefix('&') { Some(x) => x.to_string(), None => format!("*({s})") }), x => x }) } }
                    "into_iter" | "by_ref" => self.chain(&m.receiver),
                    _ => fail(self.src, e),
                }
            }
            _ => fail(self.src, e),
        }
    }
    fn bind(&self, p: &Pat, it: It, out: &mut String) {
        match (p, it) {
            (Pat::Paren(p), it) => self.bind(&p.pat, it, out),
            (Pat::Wild(_), It::One(_)) => {}
            (Pat::Tuple(t), It::Pair(a, b)) if t.elems.len() == 2 => { self.bind(&t.elems[0], *a, out); self.bind(&t.elems[1], *b, out) }
            (Pat::Reference(r), It::One(s)) => { let inner = self.src.t(r.pat.span()).to_string(); let v = match s.strip_prefix('&') { Some(x) if !x.starts_with("mut ") => x.to_string(), _ => format!("*({s})") }; out.push_str(&format!("let {inner} = {v}; ")) }
            (p, It::One(s)) => out.push_str(&format!("let {} = {s}; ", self.src.t(p.span()))),
            (p, _) => structure(format!("loop pattern `{}`", self.src.t(p.span()))),
        }
    }
    fn emit_iter_loop(&mut self, hdr: (usize, usize), body_end: (usize, usize), pat: &Pat, e: &Expr, id: usize) {
        // hdr: range replaced up to and including the body's `{`; body_end: range of the closing `}`
        self.rule("R4 iterator loop desugared to an indexed while loop");
        let save = self.nloop; self.nloop = id;
        let c = self.chain(e); self.nloop = save;
        if !c.bounded { structure("unbounded iterator".into()) }
        let mut binds = String::new(); self.bind(pat, (c.item)(&format!("vx_k{id}")), &mut binds);
        let inv = self.blk.loops.get(&id).cloned().unwrap_or_default(); self.used_loops.push(id);
        let (ab, abody, ae) = (self.atext(&format!("loop {id} begin")), self.atext(&format!("loop {id} body")), self.atext(&format!("loop {id} end")));
        let (before, after) = (self.atext(&format!("before loop {id}")), self.atext(&format!("after loop {id}")));
        let can = self.can();
        let lbl = String::new();
        let h = format!("{{ {} let vx_c{id}: usize = {}; let mut vx_i{id}: usize = 0;\n{before}\n{lbl}while vx_i{id} < vx_c{id}\n    invariant vx_i{id} <= vx_c{id},\n{inv}\n    decreases vx_c{id} - vx_i{id},\n{{ let vx_k{id} = vx_i{id}; vx_i{id} = vx_i{id} + 1;{can}\n{ab}\n{binds}\n{abody}\n", c.pre.join(" "), c.count);
        // zip takes from its first iterator, then from the second: the first one loses an item when the second is exhausted
        let pu = std::mem::take(&mut self.posuse); let mut adv = String::new();
        for (k, (t, v)) in pu.iter().enumerate() { if pu.len() == 2 && k == 0 { adv.push_str(&format!("vxp_{t} = if {v} > vx_c{id} {{ vx_c{id} + 1 }} else {{ vx_c{id} }}; ")) } else if pu.len() == 2 { adv.push_str(&format!("vxp_{t} = vx_c{id}; ")) } else { structure("by-reference iterators".into()) } }
        let after = if adv.is_empty() { after } else { format!("{adv}\n{after}") };
        self.ed(hdr.0, hdr.1, h); self.ed(body_end.0, body_end.1, format!("{ae}\n}}\n{after}\n}}"));
    }
}
fn elem(pre: Vec<String>, b: String, o: String, l: String, m: bool) -> Chain {
    let pfx = if m { "&mut " } else { "&" };
    Chain { pre, count: l, bounded: true, item: Box::new(move |i| It::One(if o.is_empty() { format!("{pfx}{b}[{i}]") } else { format!("{pfx}{b}[{o} + {i}]") })) }
}
fn eval_cfg(s: &str, on: &[String]) -> bool {
    let s = s.trim();
    fn split(s: &str) -> Vec<String> { let mut d = 0; let mut o = vec![]; let mut c = String::new(); for ch in s.chars() { match ch { '(' => { d += 1; c.push(ch) } ')' => { d -= 1; c.push(ch) } ',' if d == 0 => { o.push(std::mem::take(&mut c)) } _ => c.push(ch) } } if !c.trim().is_empty() { o.push(c) } o }
    for (k, f) in [("not", 0), ("all", 1), ("any", 2)] { if s.starts_with(k) && s[k.len()..].trim_start().starts_with('(') { let t = s[k.len()..].trim(); let inner = &t[1..t.len() - 1]; let v: Vec<bool> = split(inner).iter().map(|x| eval_cfg(x, on)).collect(); return match f { 0 => !v[0], 1 => v.iter().all(|x| *x), _ => v.iter().any(|x| *x) } } }
    let n: String = s.chars().filter(|c| !c.is_whitespace()).collect();
    on.iter().any(|o| *o == n)
}
const DROP_MACROS: &[&str] = &["trace", "debug", "info", "warn", "error", "debug_assert", "debug_assert_eq", "debug_assert_ne", "println", "eprintln"];
impl<'a, 'ast> Visit<'ast> for Ctx<'a> {
    fn visit_stmt(&mut self, s: &'ast Stmt) {
        if let Stmt::Item(Item::Use(u)) = s { self.rule("R13 local use declaration dropped (one flat module)"); let (x, y) = self.src.r(u.span()); self.ed(x, y, String::new()); return }
        let attrs: &[Attribute] = match s { Stmt::Local(l) => &l.attrs, Stmt::Macro(m) => &m.attrs, Stmt::Expr(e, _) => match e { Expr::Block(x) => &x.attrs, Expr::If(x) => &x.attrs, Expr::Call(x) => &x.attrs, Expr::MethodCall(x) => &x.attrs, Expr::Assign(x) => &x.attrs, Expr::ForLoop(x) => &x.attrs, Expr::Return(x) => &x.attrs, Expr::Unsafe(x) => &x.attrs, Expr::Match(x) => &x.attrs, Expr::Macro(x) => &x.attrs, Expr::While(x) => &x.attrs, _ => &[] }, Stmt::Item(Item::Const(c)) => &c.attrs, _ => &[] };
        for a in attrs { if a.path().is_ident("cfg") {
            if !self.cfg_true(a) { let (x, y) = self.src.r(s.span()); self.rule("R2 statement under a false #[cfg] dropped"); self.ed(x, y, "/*cfg*/ ;".into()); return }
            let (x, y) = self.src.r(a.span()); self.ed(x, y, String::new());
        } else { let (x, y) = self.src.r(a.span()); self.rule("R1 attribute dropped"); self.ed(x, y, String::new()); } }
        if let Stmt::Local(l) = s { if let (Pat::Ident(i), Some(x)) = (&l.pat, &l.init) { let n = i.ident.to_string(); if self.blk.byref.get(&n).map(|x| x.as_str()) == Some("pos") {
            self.rule("R16 iterator advanced by reference became a position"); self.advanced.retain(|a| *a != n); self.iters.insert(n.clone(), (*x.expr).clone()); let (a, y) = self.src.r(s.span()); self.ed(a, y, format!("let mut vxp_{n}: usize = 0;")); return }
            if self.blk.byref.get(&n).map(|x| x.as_str()) == Some("let") {
            self.rule("R14 named iterator inlined into the loop that consumes it"); self.iters.insert(n, (*x.expr).clone()); let (x, y) = self.src.r(s.span()); self.ed(x, y, String::new()); return } } }
        if let Stmt::Local(l) = s { fn pid(p: &Pat) -> Option<String> { match p { Pat::Ident(i) => Some(i.ident.to_string()), Pat::Type(t) => pid(&t.pat), Pat::Tuple(t) => t.elems.first().and_then(pid), _ => None } }
            if let Some(n) = pid(&l.pat) { let k = { let e = self.lets.entry(n.clone()).or_insert(0); *e += 1; *e };
                let key = if k == 1 { format!("after let {n}") } else { format!("after let {n} {k}") }; let t = self.atext(&key);
                if !t.is_empty() { self.used_at.push(key); let (_, y) = self.src.r(s.span()); self.edits.push(Edit { a: y, b: y, s: format!("\n{t}\n"), pri: 2 }) } } }
        if let Stmt::Expr(e, Some(_)) = s {
            fn strip(e: &Expr) -> &Expr { match e { Expr::Try(t) => strip(&t.expr), Expr::Paren(p) => strip(&p.expr), Expr::MethodCall(m) if m.args.is_empty() && ["unwrap"].contains(&m.method.to_string().as_str()) => strip(&m.receiver), _ => e } }
            fn base(e: &Expr) -> Option<String> { match e { Expr::Path(p) => p.path.segments.last().map(|x| x.ident.to_string()), Expr::Index(i) => base(&i.expr), Expr::Field(f) => match &f.member { Member::Named(n) => Some(n.to_string()), _ => None }, Expr::Unary(u) => base(&u.expr), Expr::Paren(p) => base(&p.expr), _ => None } }
            let key = match strip(e) { Expr::MethodCall(m) => Some(format!("after call {}", m.method)), Expr::Call(c) => base(&c.func).map(|n| format!("after call {n}")), Expr::Assign(a) => base(&a.left).map(|n| format!("after assign {n}")), Expr::Binary(b) if matches!(b.op, BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_) | BinOp::DivAssign(_) | BinOp::RemAssign(_) | BinOp::BitXorAssign(_) | BinOp::BitAndAssign(_) | BinOp::BitOrAssign(_) | BinOp::ShlAssign(_) | BinOp::ShrAssign(_)) => base(&b.left).map(|n| format!("after assign {n}")), _ => None };
            if let Some(k0) = key { let k = { let e = self.lets.entry(k0.clone()).or_insert(0); *e += 1; *e }; let key = if k == 1 { k0 } else { format!("{k0} {k}") }; let t = self.atext(&key);
                if !t.is_empty() { self.used_at.push(key); let (_, y) = self.src.r(s.span()); self.edits.push(Edit { a: y, b: y, s: format!("\n{t}\n"), pri: 2 }) } } }
        if let Stmt::Expr(Expr::Return(_), _) = s { let k = { let e = self.lets.entry("before return".into()).or_insert(0); *e += 1; *e }; let key = if k == 1 { "before return".to_string() } else { format!("before return {k}") }; let t = self.atext(&key);
            if !t.is_empty() { self.used_at.push(key); let (x, _) = self.src.r(s.span()); self.edits.push(Edit { a: x, b: x, s: format!("\n{t}\n"), pri: -9 }) } }
        let mac = match s { Stmt::Macro(m) => Some(&m.mac), Stmt::Expr(Expr::Macro(m), Some(_)) => Some(&m.mac), _ => None };
        if let Some(m) = mac { let n = m.path.segments.last().unwrap().ident.to_string(); if DROP_MACROS.contains(&n.as_str()) { let (x, y) = self.src.r(s.span()); self.rule("R3 log/debug_assert macro dropped"); self.ed(x, y, "/*macro*/".into()); return } }
        if let Stmt::Expr(e, _) = s { if let Expr::MethodCall(m) = e { if m.method == "for_each" { if let Some(Expr::Closure(c)) = m.args.first() {
            self.rule("R5 for_each closure desugared to a loop"); let id = self.nloop; self.nloop += 1; self.loop_lines.push(e.span().start().line);
            let (a, b) = self.src.r(e.span()); let (ba, bb) = self.src.r(c.body.span());
            let pat = c.inputs[0].clone(); let recv = (*m.receiver).clone();
            let (ia, ib) = if matches!(&*c.body, Expr::Block(_)) { (ba + 1, bb - 1) } else { (ba, bb) };
            self.emit_iter_loop((a, ia), (ib, b), &pat, &recv, id); self.visit_expr(&c.body); return } } } }
        syn::visit::visit_stmt(self, s);
    }
    fn visit_expr_macro(&mut self, m: &'ast ExprMacro) {
        let n = m.mac.path.segments.last().unwrap().ident.to_string(); let (a, b) = self.src.r(m.span());
        match n.as_str() { "unreachable" | "panic" | "unimplemented" | "todo" => { self.rule("R6 panic macro became an unreachability obligation"); self.ed(a, b, "vx_unreachable()".into()) } "format" => { self.rule("R3 format! became an opaque string"); self.ed(a, b, "vx_format()".into()) }
            _ => {} }
    }
    fn visit_stmt_macro(&mut self, m: &'ast StmtMacro) {
        let n = m.mac.path.segments.last().unwrap().ident.to_string(); let (a, b) = self.src.r(m.span());
        match n.as_str() { "unreachable" | "panic" | "unimplemented" | "todo" => { self.rule("R6 panic macro became an unreachability obligation"); self.ed(a, b, "vx_unreachable()".into()) }
            "assert" => { self.rule("R6 assert! became an obligation"); let t = m.mac.tokens.to_string(); let c = split_first(&t); self.ed(a, b, format!("vx_assert({c});")) }
            "assert_eq" => { self.rule("R6 assert! became an obligation"); let t = m.mac.tokens.to_string(); let c = split_first(&t); let rest = &t[c.len() + 1..]; let d = split_first(rest); self.ed(a, b, format!("vx_assert(({c}) == ({d}));")) }
            "assert_ne" => { self.rule("R6 assert! became an obligation"); let t = m.mac.tokens.to_string(); let c = split_first(&t); let rest = &t[c.len() + 1..]; let d = split_first(rest); self.ed(a, b, format!("vx_assert(({c}) != ({d}));")) }
            _ => {} }
    }
    fn visit_expr_call(&mut self, c: &'ast ExprCall) {
        if let Expr::Path(p) = &*c.func { let sg: Vec<String> = p.path.segments.iter().map(|x| x.ident.to_string()).collect();
            if sg.len() == 2 && sg[1] == "from" && c.args.len() == 1 && ["u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize"].contains(&sg[0].as_str()) {
                self.rule("R9 integer T::from(x) written as the cast (x) as T");
                let (a, _) = self.src.r(c.span()); let (x, y) = self.src.r(c.args[0].span()); let (_, b) = self.src.r(c.span());
                self.edits.push(Edit { a, b: x, s: "((".into(), pri: -2 }); self.edits.push(Edit { a: y, b, s: format!(") as {})", sg[0]), pri: 3 });
            } }
        if let Expr::Path(p) = &*c.func { let sg: Vec<String> = p.path.segments.iter().map(|x| x.ident.to_string()).collect();
            if sg.len() == 2 && ["from_be_bytes", "from_le_bytes", "from_ne_bytes"].contains(&sg[1].as_str()) {
                self.rule("R10 integer/byte-array conversion method renamed to its wrapper (same call, named type)");
                let (a, b) = self.src.r(c.func.span()); self.ed(a, b, format!("vx_{}_{}", sg[0], sg[1])); for x in &c.args { self.visit_expr(x) } return
            } }
        syn::visit::visit_expr_call(self, c);
    }
    fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) {
        let n = m.method.to_string();
        if n == "collect" && m.args.is_empty() { if let Expr::MethodCall(fm) = &*m.receiver { let k = fm.method.to_string(); if k == "flat_map" || k == "map" { if let Some(Expr::Closure(c)) = fm.args.first() {
            let cnt = match (&*c.body, k.as_str()) { (Expr::Array(a), "flat_map") => Some(a.elems.len()), (_, "flat_map") => None, _ => Some(0) };
            if let Some(cnt) = cnt {
                self.rule("R15 map/flat_map(..).collect() desugared to a loop that pushes"); let id = self.nloop; self.nloop += 1; self.loop_lines.push(m.span().start().line);
                let (a, b) = self.src.r(m.span()); let (ba, bb) = self.src.r(c.body.span()); let pat = c.inputs[0].clone(); let recv = (*fm.receiver).clone();
                let ty = m.turbofish.as_ref().map(|t| self.src.t(t.args.span()).to_string()); let ty = ty.map(|t| format!(": {t}")).unwrap_or_default();
                self.edits.push(Edit { a, b: a, s: format!("{{ let mut vx_o{id}{ty} = Vec::new();\n"), pri: -5 });
                self.emit_iter_loop((a, ba), (bb, b), &pat, &recv, id);
                self.edits.push(Edit { a: ba, b: ba, s: format!("let vx_e{id} = "), pri: -5 });
                let push = if k == "map" { format!("; vx_o{id}.push(vx_e{id});\n") } else { format!("; {}\n", (0..cnt).map(|j| format!("vx_o{id}.push(vx_e{id}[{j}]);")).collect::<String>()) };
                self.edits.push(Edit { a: bb, b: bb, s: push, pri: -5 });
                self.edits.push(Edit { a: b, b, s: format!("\nvx_o{id} }}"), pri: 9 });
                self.visit_expr(&c.body); return
            } } } } }
        if n == "next" && m.args.is_empty() { let t = self.src.t(m.receiver.span()).to_string(); if self.blk.byref.get(&t).map(|s| s.as_str()) == Some("pos") { match self.iters.get(&t).cloned().as_ref() { Some(Expr::MethodCall(r)) if r.method == "iter" => {
            let mut pre = vec![]; let (b, o, _) = self.place(&r.receiver, &mut pre, false); if !pre.is_empty() || !o.is_empty() { structure("next".into()) }
            let (x, y) = self.src.r(m.span()); self.ed(x, y, format!("vx_next({b}, vxp_{t})")); return } _ => structure("next".into()) } } }
        if n == "copy_within" && m.args.len() == 2 { if let Some(Expr::Range(r)) = m.args.first() { if let (Some(s), Some(e), RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) {
            self.rule("R10 copy_within(a..b, c) renamed to its wrapper (same operation, range split into two arguments)");
            let (x, y) = self.src.r(m.method.span()); self.ed(x, y, "vx_copy_within".into());
            self.ed(self.src.r(s.span()).1, self.src.r(e.span()).0, ", ".into());
        } } }
        if ["to_be_bytes", "to_le_bytes", "to_ne_bytes"].contains(&n.as_str()) {
            self.rule("R10 integer/byte-array conversion method renamed to its wrapper (same call, named type)");
            let (a, b) = self.src.r(m.method.span()); self.ed(a, b, format!("vx_{n}"));
        }
        syn::visit::visit_expr_method_call(self, m);
    }
    fn visit_arm(&mut self, a: &'ast Arm) {
        let p: String = self.src.t(a.pat.span()).split_whitespace().collect();
        if self.blk.armcut.contains(&p) { self.rule("R11 match arm cut from the proof"); let (x, y) = self.src.r(a.body.span()); self.used_at.push(format!("armcut {p}")); self.ed(x, y, "{ vx_cut() }".into()); return }
        syn::visit::visit_arm(self, a);
    }
    fn visit_expr_match(&mut self, m: &'ast ExprMatch) {
        fn lits(p: &Pat) -> Option<Vec<Vec<u8>>> { match p { Pat::Lit(l) => if let Lit::ByteStr(b) = &l.lit { Some(vec![b.value()]) } else { None }, Pat::Or(o) => { let mut v = vec![]; for c in &o.cases { v.extend(lits(c)?) } Some(v) } Pat::Paren(p) => lits(&p.pat), _ => None } }
        if m.arms.iter().any(|a| lits(&a.pat).is_some()) {
            self.rule("R12 match on byte strings rewritten to an if-else chain");
            let last = m.arms.len() - 1; let id = self.src.off(m.match_token.span.start());
            self.ed(id, self.src.off(m.brace_token.span.open().end()), format!("{{ let vx_bm{id}: &[u8] = {};", self.src.t(m.expr.span())));
            for (i, a) in m.arms.iter().enumerate() {
                if a.guard.is_some() || !a.attrs.is_empty() { structure("byte-string match with guard".into()) }
                let c = match lits(&a.pat) { Some(v) if i < last => format!("if {} {{", v.iter().map(|l| format!("vx_bytes_eq(vx_bm{id}, &[{}])", l.iter().map(|b| format!("{b}u8")).collect::<Vec<_>>().join(", "))).collect::<Vec<_>>().join(" || ")), None if i == last && matches!(a.pat, Pat::Wild(_)) => "{".to_string(), _ => structure("byte-string match shape".into()) };
                self.ed(self.src.r(a.pat.span()).0, self.src.off(a.fat_arrow_token.spans[1].end()), c);
                let (_, e) = self.src.r(a.body.span()); let e2 = a.comma.as_ref().map(|c| self.src.off(c.span.end())).unwrap_or(e);
                self.visit_expr(&a.body);
                self.ed(e, e2, if i == last { " }".into() } else { " } else ".into() });
            }
            return;
        }
        for arm in &m.arms { for a in &arm.attrs { if a.path().is_ident("cfg") { let (x, y) = self.src.r(if self.cfg_true(a) { a.span() } else { arm.span() }); self.ed(x, y, String::new()); } } }
        syn::visit::visit_expr_match(self, m);
    }
    fn visit_expr_for_loop(&mut self, f: &'ast ExprForLoop) {
        let id = self.nloop; self.nloop += 1; self.loop_lines.push(f.span().start().line);
        let start = self.src.off(f.for_token.span().start()); let open = self.src.off(f.body.brace_token.span.open().end());
        let (ca, cb) = self.src.r(f.body.brace_token.span.close());
        if f.label.is_some() { structure("labelled iterator loop".into()) }
        self.emit_iter_loop((start, open), (ca, cb), &f.pat, &f.expr, id);
        self.depth += 1; for s in &f.body.stmts { self.visit_stmt(s) } self.depth -= 1;
    }
    fn visit_expr_while(&mut self, w: &'ast ExprWhile) { let id = self.nloop; self.nloop += 1; self.loop_lines.push(w.span().start().line); if matches!(&*w.cond, Expr::Let(_)) { structure("while let".into()) } self.plain_loop(id, w.span(), &w.body); syn::visit::visit_expr_while(self, w); }
    fn visit_expr_loop(&mut self, w: &'ast ExprLoop) { let id = self.nloop; self.nloop += 1; self.loop_lines.push(w.span().start().line); self.plain_loop(id, w.span(), &w.body); syn::visit::visit_expr_loop(self, w); }
}
fn split_first(t: &str) -> String { let mut d = 0; let mut c = String::new(); for ch in t.chars() { match ch { '(' | '[' | '{' => d += 1, ')' | ']' | '}' => d -= 1, ',' if d == 0 => return c, _ => {} } c.push(ch) } c }
impl<'a> Ctx<'a> {
    fn plain_loop(&mut self, id: usize, sp: Span, body: &syn::Block) {
        self.used_loops.push(id);
        let inv = self.blk.loops.get(&id).cloned().unwrap_or_default();
        let (oa, ob) = self.src.r(body.brace_token.span.open()); let (ca, _) = self.src.r(body.brace_token.span.close()); let (sa, sb) = self.src.r(sp);
        let can = self.can();
        let b = format!("\n{inv}\n{{{can}{}\n{}\n", self.atext(&format!("loop {id} begin")), self.atext(&format!("loop {id} body")));
        self.ed(oa, ob, b);
        let e = self.atext(&format!("loop {id} end")); if !e.is_empty() { self.edits.push(Edit { a: ca, b: ca, s: format!("\n{e}\n"), pri: 1 }) }
        let bf = self.atext(&format!("before loop {id}")); if !bf.is_empty() { self.edits.push(Edit { a: sa, b: sa, s: format!("{bf}\n"), pri: -1 }) }
        let af = self.atext(&format!("after loop {id}")); if !af.is_empty() { self.edits.push(Edit { a: sb, b: sb, s: format!("\n{af}\n"), pri: 2 }) }
    }
}
fn apply(text: &str, base: usize, end: usize, mut ed: Vec<Edit>) -> String {
    ed.sort_by_key(|e| (e.a, e.b, e.pri));
    // drop edits nested inside a dropped region
    let mut out = String::new(); let mut p = base;
    for e in ed { if e.a < p { if e.b <= p { continue } structure(format!("overlapping edits near {:?}", &text[e.a..e.b.min(e.a + 40)])) } out.push_str(&text[p..e.a]); out.push_str(&e.s); p = e.b; }
    out.push_str(&text[p..end]); out
}
/// textual expansion of item-position single-arm macro_rules whose parameters are all `$x:tt`/ident/ty/expr
fn expand_macros(text: String) -> String {
    let mut out = text.clone();
    let mut pos = 0;
    let bal = |s: &str, i: usize| -> usize { let b = s.as_bytes(); let mut d = 0i32; let mut j = i; loop { match b[j] { b'(' | b'[' | b'{' => d += 1, b')' | b']' | b'}' => { d -= 1; if d == 0 { return j } } _ => {} } j += 1; } };
    while let Some(k) = text[pos..].find("macro_rules! ") {
        let k = pos + k; let rest = &text[k + 13..]; let name: String = rest.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
        let ob = k + text[k..].find('{').unwrap(); let cb = bal(&text, ob); pos = cb;
        let body = &text[ob + 1..cb]; let po = body.find('(').unwrap(); let pc = bal(body, po);
        let params: Vec<String> = body[po + 1..pc].split(',').map(|x| x.trim().split(':').next().unwrap().to_string()).filter(|x| x.starts_with('$')).collect();
        let xo = pc + body[pc..].find('{').unwrap(); let xc = bal(body, xo); let tpl = &body[xo + 1..xc];
        let mut res = String::new(); let mut p = 0; let inv = format!("{name}!");
        while let Some(i) = out[p..].find(&inv) { let i = p + i; if i > 0 && out.as_bytes()[i - 1].is_ascii_alphanumeric() { res.push_str(&out[p..i + inv.len()]); p = i + inv.len(); continue }
            let o = i + inv.len() + out[i + inv.len()..].find(['(', '{']).unwrap(); let c = bal(&out, o);
            let args: Vec<String> = out[o + 1..c].split(',').map(|x| x.trim().to_string()).filter(|x| !x.is_empty()).collect();
            let mut t = tpl.to_string(); let mut order: Vec<usize> = (0..params.len().min(args.len())).collect(); order.sort_by_key(|j| std::cmp::Reverse(params[*j].len()));
            for j in order { t = t.replace(&params[j], &args[j]) }
            res.push_str(&out[p..i]); res.push_str(&t); p = c + 1; if out[p..].starts_with(';') { p += 1 } }
        res.push_str(&out[p..]); out = res;
    }
    out
}
fn crate_files(repo: &Path, file: &str) -> Vec<PathBuf> {
    let first = repo.join(file); let mut v = vec![first.clone()];
    if let Some(i) = file.find("/src/") { fn walk(d: &Path, v: &mut Vec<PathBuf>) { if let Ok(rd) = std::fs::read_dir(d) { let mut es: Vec<_> = rd.flatten().map(|e| e.path()).collect(); es.sort(); for p in es { if p.is_dir() { walk(&p, v) } else if p.extension().map_or(false, |e| e == "rs") { v.push(p) } } } } let mut w = vec![]; walk(&repo.join(&file[..i + 5]), &mut w); for p in w { if p != first { v.push(p) } } }
    v
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (repo, tpl, out) = (PathBuf::from(&a[1]), &a[2], &a[3]); let canary = a.iter().any(|x| x == "--canary");
    let t = std::fs::read_to_string(tpl).unwrap();
    // includes
    let mut tt = String::new(); for l in t.lines() { if let Some(i) = l.trim().strip_prefix("//@include ") { tt.push_str(&std::fs::read_to_string(Path::new(tpl).parent().unwrap().join(i.trim())).unwrap()); } else { tt.push_str(l); } tt.push('\n'); }
    let mut res = String::new(); let mut report = vec![]; let mut ncan = 0;
    for part in parse_template(&tt) {
        match part { Ok(s) => res.push_str(&s), Err(b) => {
            let mut done = false;
            for f in crate_files(&repo, &b.file) {
                let Ok(text) = std::fs::read_to_string(&f) else { continue };
                let text = if b.expand { expand_macros(text) } else { text };
                let short = b.name.rsplit("::").next().unwrap().trim().to_string();
                if !text.contains(&short) { continue }
                let Ok(ast) = syn::parse_file(&text) else { structure(format!("cannot parse {}", f.display())) };
                let src = Src::new(text.clone());
                let rel = f.strip_prefix(&repo).unwrap().display().to_string();
                if b.kind != "fn" {
                    let Some(it) = find_item(&ast.items, &b.kind, &short) else { continue };
                    let (x, y, at) = match &it { Item::Const(c) => (src.off(c.const_token.span.start()), src.r(c.span()).1, "const"), Item::Static(c) => (src.off(c.static_token.span.start()), src.r(c.span()).1, "static"), Item::Struct(c) => (src.off(c.struct_token.span.start()), src.r(c.span()).1, "type"), Item::Enum(c) => (src.off(c.enum_token.span.start()), src.r(c.span()).1, "type"), _ => unreachable!() };
                    let mut es: Vec<Edit> = vec![];
                    let cx = Ctx { src: &src, blk: &b, edits: vec![], nloop: 0, rules: BTreeMap::new(), used_loops: vec![], canary: false, ncanary: 0, depth: 0, loop_lines: vec![], posuse: vec![], advanced: vec![], iters: BTreeMap::new(), lets: BTreeMap::new(), used_at: vec![] };
                    let mut attrs_of = |es: &mut Vec<Edit>, attrs: &[Attribute], whole: (usize, usize)| -> bool { for a in attrs { if a.path().is_ident("cfg") && !cx.cfg_true(a) { let mut e = whole.1; if src.text[e..].starts_with(',') { e += 1 } es.push(Edit { a: whole.0, b: e, s: String::new(), pri: 0 }); return false } } for a in attrs { let (p, q) = src.r(a.span()); es.push(Edit { a: p, b: q, s: String::new(), pri: 0 }) } true };
                    match &it { Item::Struct(c) => for f in &c.fields { if !b.keep.is_empty() && f.ident.as_ref().map_or(false, |i| !b.keep.contains(&i.to_string())) { let w = src.r(f.span()); let mut e = w.1; if src.text[e..].starts_with(',') { e += 1 } es.push(Edit { a: w.0, b: e, s: String::new(), pri: 0 }); continue } if attrs_of(&mut es, &f.attrs, src.r(f.span())) { let k = match &f.vis { Visibility::Inherited => { let k = match &f.ident { Some(i) => src.r(i.span()).0, None => src.r(f.ty.span()).0 }; (k, k) } v => src.r(v.span()) }; es.push(Edit { a: k.0, b: k.1, s: "pub ".into(), pri: 0 }) } }, Item::Enum(c) => for v in &c.variants { attrs_of(&mut es, &v.attrs, src.r(v.span())); }, _ => {} }
                    let mut s = apply(&text, x, y, es); for (p, q) in &b.subs { s = s.replace(p.as_str(), q) }
                    if let Some(st) = s.strip_prefix("static ") { s = format!("const {st}") }
                    // a constant with a contract: `exec const N: T ensures SPEC { proof; EXPR }`
                    if !b.spec.trim().is_empty() { if let Some((h, v)) = s.split_once('=') { let pf: String = b.at.iter().filter(|(k, _)| k == "begin").map(|(_, t)| t.clone()).collect(); s = format!("exec {}\n{}\n{{\n{pf}\n{}\n}}", h.trim_end(), b.spec, v.trim().trim_end_matches(';')) } }
                    res.push_str(&b.attrs); res.push('\n'); res.push_str("pub "); res.push_str(&s); res.push('\n');
                    report.push(serde_json::json!({"item": b.name, "kind": at, "file": rel, "line": it.span().start().line})); done = true; break
                }
                let (ty, tr) = match b.name.rsplit_once("::") { Some((t, _)) => { let t = t.trim(); match t.split_once(" for ") { Some((tr, ty)) => (Some(ty.trim()), Some(tr.trim())), None => (Some(t), None) } } None => (None, None) };
                let mut found = vec![]; find_fn(&ast.items, ty, tr, &short, &mut found);
                if found.is_empty() { continue }
                let fd = &found[0];
                let mut c = Ctx { src: &src, blk: &b, edits: vec![], nloop: 0, rules: BTreeMap::new(), used_loops: vec![], canary, ncanary: 0, depth: 0, loop_lines: vec![], posuse: vec![], advanced: vec![], iters: BTreeMap::new(), lets: BTreeMap::new(), used_at: vec![] };
                if !b.nobody { for s in &fd.block.stmts { c.visit_stmt(s) } }
                if let Some(n) = b.loops_decl { if n != c.nloop { structure(format!("{}: {} loops, template annotates {n}", b.name, c.nloop)) } }
                for k in b.loops.keys() { if *k >= c.nloop { structure(format!("{}: no loop {k}", b.name)) } }
                if b.loops_decl.is_none() && c.nloop != b.loops.len() { structure(format!("{}: {} loops, template annotates {}", b.name, c.nloop, b.loops.len())) }
                for (k, _) in &b.at { if (k.starts_with("after let") || k.starts_with("before return") || k.starts_with("after call") || k.starts_with("after assign")) && !c.used_at.contains(k) { structure(format!("{}: no `{k}`", b.name)) } }
                for k in &b.armcut { if !c.used_at.contains(&format!("armcut {k}")) { structure(format!("{}: no arm `{k}`", b.name)) } }
                let tail = c.atext("before tail"); if !tail.is_empty() { match fd.block.stmts.last() { Some(Stmt::Expr(e, None)) => { let x = src.r(e.span()).0; c.edits.push(Edit { a: x, b: x, s: format!("{tail}\n"), pri: -9 }) } _ => structure(format!("{}: no tail expression", b.name)) } }
                let (oa, ob) = src.r(fd.block.brace_token.span.open()); let (ca, cb) = src.r(fd.block.brace_token.span.close());
                let can = c.can(); let at_begin = c.atext("begin"); let at_end = c.atext("end");
                let mut body = apply(&src.text, ob, ca, c.edits.clone());
                for (p, q) in &b.subs { let n = body.matches(p.as_str()).count(); if n > 0 { *c.rules.entry("R7 declared textual substitution").or_default() += n; body = body.replace(p.as_str(), q) } else { let (t, n) = sub_ws(&body, p, q); if n > 0 { *c.rules.entry("R7 declared textual substitution").or_default() += n; body = t } } }
                let sig = match &b.sig { Some(s) => { *c.rules.entry("R8 signature given by the template").or_default() += 1; s.trim().to_string() } None => {
                    let (sa, _) = src.r(fd.sig.span()); let fnt = src.off(fd.sig.fn_token.span.start()); let _ = sa;
                    let mut es = vec![]; if let (Some(r), ReturnType::Type(_, t)) = (&b.ret, &fd.sig.output) { let (x, y) = src.r(t.span()); es.push(Edit { a: x, b: y, s: format!("({r}: {})", src.t(t.span())), pri: 0 }); }
                    if let Some(rn) = &b.rename { let (x, y) = src.r(fd.sig.ident.span()); es.push(Edit { a: x, b: y, s: rn.clone(), pri: 0 }); }
                    let mut s = apply(&src.text, fnt, oa, es); for (p, q) in &b.subs { s = s.replace(p.as_str(), q) } s } };
                if b.nobody { res.push_str(&format!("{}\n{}\n{}\n{{ unimplemented!() }}\n", if b.attrs.is_empty() { "#[verifier::external_body] pub" } else { &b.attrs }, sig, b.spec)); }
                else { res.push_str(&format!("// <<< {} {}:{}\n{}\n{}{}\n{}\n{{\n{at_begin}\n{can}{body}\n{at_end}\n}}\n// >>>\n", b.name, rel, fd.sig.span().start().line, b.attrs, if b.nopub { "" } else { "pub " }, sig, b.spec)); }
                ncan += c.ncanary;
                let sl = fd.sig.span().start().line; let el = fd.block.span().end().line;
                report.push(serde_json::json!({"item": b.name, "kind": "fn", "file": rel, "line": sl, "end_line": el, "loops": c.nloop, "rules": c.rules, "source": &src.text[src.off(fd.sig.fn_token.span.start())..cb]}));
                done = true; break
            }
            if !done { structure(format!("cannot find {} `{}` in {}", b.kind, b.name, b.file)) }
        } }
    }
    std::fs::write(out, res).unwrap();
    std::fs::write(format!("{out}.json"), serde_json::to_string_pretty(&serde_json::json!({"items": report, "canaries": ncan})).unwrap()).unwrap();
}
