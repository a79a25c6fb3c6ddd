//! Textual LLVM IR: module index, constants, and lazy compilation of functions to a compact register code.
use crate::expr::*;
use std::collections::HashMap;
use std::sync::{Arc, OnceLock};

// ------------------------------------------------------------------ values and types

#[derive(Clone)]
pub enum V { I(u64), W(Arc<u128>), S(E), A(Arc<Vec<V>>) }
impl V {
    pub fn from128(v: u128, w: u32) -> V { if w <= 64 { V::I(v as u64) } else { V::W(Arc::new(v)) } }
    pub fn con(&self) -> Option<u128> { match self { V::I(x) => Some(*x as u128), V::W(x) => Some(**x), V::S(e) => e.c(), V::A(_) => None } }
    pub fn to_e(&self, w: u32) -> E { match self { V::S(e) => e.clone(), V::I(x) => cst(*x as u128, w), V::W(x) => cst(**x, w), V::A(_) => panic!("aggregate as scalar") } }
    pub fn of(e: E) -> V { match e.c() { Some(c) => V::from128(c, e.w), None => V::S(e) } }
}
impl std::fmt::Debug for V {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self { V::I(x) => write!(f, "{x:#x}"), V::W(x) => write!(f, "{:#x}w", **x), V::S(e) => write!(f, "<sym {}>", e.w), V::A(a) => write!(f, "{a:?}") }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Ty { Void, I(u32), F32, F64, Ptr, Arr(u64, Arc<Ty>), Vec(u32, Arc<Ty>), St(Arc<Vec<Ty>>, bool), Other }
fn up(x: u64, a: u64) -> u64 { x.div_ceil(a) * a }
impl Ty {
    pub fn bits(&self) -> u32 { match self { Ty::I(n) => *n, Ty::F32 => 32, Ty::F64 | Ty::Ptr => 64, Ty::Vec(n, t) => n * t.bits(), t => panic!("bits of {t:?}") } }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::I(n) => (*n as u64).div_ceil(8),
            Ty::F32 => 4, Ty::F64 | Ty::Ptr => 8,
            Ty::Vec(n, t) => (*n as u64 * t.bits() as u64).div_ceil(8),
            Ty::Arr(n, t) => n * t.size(),
            Ty::St(..) => self.size(),
            t => panic!("size of {t:?}"),
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::I(n) => (*n as u64).div_ceil(8).next_power_of_two().min(16),
            Ty::F32 => 4, Ty::F64 | Ty::Ptr => 8,
            Ty::Vec(..) => self.store_size().next_power_of_two(),
            Ty::Arr(_, t) => t.align(),
            Ty::St(ts, p) => if *p { 1 } else { ts.iter().map(|t| t.align()).max().unwrap_or(1) },
            t => panic!("align of {t:?}"),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::St(ts, p) => { let mut o = 0; for t in ts.iter() { if !p { o = up(o, t.align()); } o += t.size(); } if *p { o } else { up(o, self.align()) } }
            _ => up(self.store_size(), self.align()),
        }
    }
    pub fn field(&self, i: usize) -> (u64, &Ty) {
        match self {
            Ty::St(ts, p) => { let mut o = 0; for (k, t) in ts.iter().enumerate() { if !p { o = up(o, t.align()); } if k == i { return (o, t); } o += t.size(); } panic!("field") }
            Ty::Arr(_, t) => (t.size() * i as u64, t),
            Ty::Vec(_, t) => (t.store_size() * i as u64, t),
            t => panic!("field of {t:?}"),
        }
    }
    pub fn nfields(&self) -> usize { match self { Ty::St(ts, _) => ts.len(), Ty::Arr(n, _) => *n as usize, Ty::Vec(n, _) => *n as usize, _ => 0 } }
    pub fn is_agg(&self) -> bool { matches!(self, Ty::St(..) | Ty::Arr(..) | Ty::Vec(..)) }
    pub fn zero(&self) -> V {
        if self.is_agg() { V::A(Arc::new((0..self.nfields()).map(|i| match self { Ty::St(ts, _) => ts[i].zero(), Ty::Arr(_, t) | Ty::Vec(_, t) => t.zero(), _ => unreachable!() }).collect())) }
        else if matches!(self, Ty::Void | Ty::Other) { V::I(0) }
        else { V::from128(0, self.bits()) }
    }
}

// ------------------------------------------------------------------ lexer

fn special_float(n: &str, ty: &Ty, neg: bool) -> u64 {
    let v: u64 = match (n, ty) {
        ("inf", Ty::F64) => f64::INFINITY.to_bits(), ("qnan", Ty::F64) => f64::NAN.to_bits(),
        ("inf", _) => f32::INFINITY.to_bits() as u64, ("qnan", _) => f32::NAN.to_bits() as u64,
        _ => panic!("float constant {n}"),
    };
    v | if neg { if matches!(ty, Ty::F64) { 1 << 63 } else { 1 << 31 } } else { 0 }
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum T<'a> { L(&'a str), G(&'a str), W(&'a str), N(&'a str), Str(&'a str), CStr(&'a str), Meta, Attr, P(char), End }

#[derive(Clone)]
pub struct Lex<'a> { s: &'a str, p: usize }
impl<'a> Lex<'a> {
    pub fn new(s: &'a str) -> Lex<'a> { Lex { s, p: 0 } }
    fn ident_end(&self, from: usize) -> usize {
        let b = self.s.as_bytes();
        let mut i = from;
        while i < b.len() && (b[i].is_ascii_alphanumeric() || matches!(b[i], b'_' | b'.' | b'$' | b'-')) { i += 1; }
        i
    }
    fn quoted_end(&self, from: usize) -> usize { // from: after the opening quote
        from + self.s.as_bytes()[from..].iter().position(|c| *c == b'"').unwrap()
    }
    pub fn next(&mut self) -> T<'a> {
        let b = self.s.as_bytes();
        while self.p < b.len() && (b[self.p] as char).is_ascii_whitespace() { self.p += 1; }
        if self.p >= b.len() { return T::End; }
        let s = self.p;
        match b[s] {
            b';' => { while self.p < b.len() && b[self.p] != b'\n' { self.p += 1; } self.next() }
            c @ (b'%' | b'@') => {
                let name = if b[s + 1] == b'"' { let e = self.quoted_end(s + 2); self.p = e + 1; &self.s[s + 2..e] } else { let e = self.ident_end(s + 1); self.p = e; &self.s[s + 1..e] };
                if c == b'%' { T::L(name) } else { T::G(name) }
            }
            b'"' => { let e = self.quoted_end(s + 1); self.p = e + 1; T::Str(&self.s[s + 1..e]) }
            b'c' if s + 1 < b.len() && b[s + 1] == b'"' => { let e = self.quoted_end(s + 2); self.p = e + 1; T::CStr(&self.s[s + 2..e]) }
            b'!' => { let e = self.ident_end(s + 1); self.p = e; T::Meta }
            b'#' => { let e = self.ident_end(s + 1); self.p = e; T::Attr }
            b'-' | b'0'..=b'9' => { let mut e = self.ident_end(s + 1); if e < b.len() && b[e] == b'+' { e = self.ident_end(e + 1); } self.p = e; T::N(&self.s[s..e]) }
            c if c.is_ascii_alphabetic() || c == b'_' => { let e = self.ident_end(s); self.p = e; T::W(&self.s[s..e]) }
            b'.' => { let e = s + self.s[s..].bytes().take_while(|c| *c == b'.').count(); self.p = e; T::W(&self.s[s..e]) }
            c => { self.p += 1; T::P(c as char) }
        }
    }
    pub fn peek(&self) -> T<'a> { self.clone().next() }
    pub fn eat(&mut self, c: char) -> bool { if self.peek() == T::P(c) { self.next(); true } else { false } }
    pub fn eatw(&mut self, w: &str) -> bool { if self.peek() == T::W(w) { self.next(); true } else { false } }
    pub fn expect(&mut self, c: char) { let t = self.next(); assert!(t == T::P(c), "expected {c:?}, got {t:?} in {}", self.s); }
    /// Skip a balanced parenthesis group (the next token is '(').
    fn skip_parens(&mut self) {
        let mut d = 0;
        loop { match self.next() { T::P('(') => d += 1, T::P(')') => { d -= 1; if d == 0 { return; } } T::End => return, _ => {} } }
    }
    fn is_type_start(&self) -> bool {
        match self.peek() {
            T::P('[' | '{' | '<') => true,
            T::W(w) => is_type_word(w),
            _ => false,
        }
    }
    fn skip_to_type(&mut self) {
        while !self.is_type_start() {
            match self.next() {
                T::W(w) => { if (w == "align" || w == "addrspace") && matches!(self.peek(), T::N(_)) { self.next(); } if self.peek() == T::P('(') { self.skip_parens(); } }
                T::P(_) | T::Str(_) | T::Attr => {}
                t => panic!("type expected, got {t:?} in {}", self.s),
            }
        }
    }
    pub fn ty(&mut self) -> Ty {
        match self.next() {
            T::W("void") => Ty::Void,
            T::W("ptr") => Ty::Ptr,
            T::W("double") => Ty::F64,
            T::W("float") => Ty::F32,
            T::W("label" | "metadata" | "token" | "half" | "fp128" | "bfloat" | "...") => Ty::Other,
            T::W(w) if w.starts_with('i') => Ty::I(w[1..].parse().unwrap_or_else(|_| panic!("type {w}"))),
            T::P('[') => { let n = self.num(); self.next(); let t = self.ty(); self.expect(']'); Ty::Arr(n, Arc::new(t)) }
            T::P('<') => {
                if self.peek() == T::P('{') { let t = self.ty(); self.expect('>'); match t { Ty::St(ts, _) => Ty::St(ts, true), _ => unreachable!() } }
                else { let n = self.num(); self.next(); let t = self.ty(); self.expect('>'); Ty::Vec(n as u32, Arc::new(t)) }
            }
            T::P('{') => { let mut v = vec![]; if !self.eat('}') { loop { v.push(self.ty()); if self.eat('}') { break; } self.expect(','); } } Ty::St(Arc::new(v), false) }
            t => panic!("type expected, got {t:?} in {}", self.s),
        }
    }
    fn num(&mut self) -> u64 { match self.next() { T::N(n) => n.parse().unwrap(), t => panic!("number expected {t:?}") } }
    fn skip_attrs(&mut self) {
        loop {
            match self.peek() {
                T::W(w) if !is_value_word(w) => {
                    self.next();
                    if w == "align" && matches!(self.peek(), T::N(_)) { self.next(); }
                    if self.peek() == T::P('(') { self.skip_parens(); }
                }
                T::Str(_) => { self.next(); }
                _ => return,
            }
        }
    }
}
fn is_type_word(w: &str) -> bool {
    matches!(w, "void" | "ptr" | "double" | "float" | "label" | "metadata" | "token")
        || (w.len() > 1 && w.starts_with('i') && w.as_bytes()[1..].iter().all(|c| c.is_ascii_digit()))
}
fn is_value_word(w: &str) -> bool {
    matches!(w, "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "sub" | "add" | "xor" | "splat" | "asm") || w.starts_with("f0x")
}
pub fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut v = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' { v.push(b'\\'); i += 2; }
            else { v.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap()); i += 3; }
        } else { v.push(b[i]); i += 1; }
    }
    v
}

// ------------------------------------------------------------------ module

pub struct FnDecl { pub name: &'static str, pub demangled: &'static str, pub body: Option<(usize, usize)>, pub compiled: OnceLock<Func>, pub ext: crate::ext::Ext }
pub struct Global { pub name: &'static str, pub constant: bool, pub tls: bool, pub size: u64, init: &'static str, pub addr: u64, section: Option<&'static str> }

pub const OBJ_SHIFT: u32 = 32;
/// Object ids: 1.. constant globals, FN_BASE.. functions, TLS_BASE.. thread-local globals, DYN_BASE.. mutable globals, stack and heap.
pub const FN_BASE: u64 = 0x0010_0000;
pub const TLS_BASE: u64 = 0x0020_0000;
pub const DYN_BASE: u64 = 0x0030_0000;

pub struct Module {
    text: &'static str,
    pub fns: Vec<FnDecl>,
    pub fmap: HashMap<&'static str, u32>,
    pub globals: Vec<Global>,
    pub gmap: HashMap<&'static str, u32>,
    pub consts: Vec<Vec<u8>>,       // by object id (1-based)
    pub tls: Vec<Vec<u8>>,          // initial images
    pub dyn_init: Vec<Vec<u8>>,     // mutable globals
    sections: HashMap<String, u64>, // __start_/__stop_ symbols
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text: &'static str = Box::leak(std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{path}: {e}")).into_boxed_str());
        let mut m = Module { text, fns: vec![], fmap: HashMap::new(), globals: vec![], gmap: HashMap::new(), consts: vec![vec![]], tls: vec![], dyn_init: vec![], sections: HashMap::new() };
        let mut pos = 0;
        let mut dem = "";
        while pos < text.len() {
            let e = text[pos..].find('\n').map(|i| pos + i).unwrap_or(text.len());
            let line = &text[pos..e];
            if line.starts_with("define ") {
                let end = e + text[e..].find("\n}\n").expect("function end");
                let name = fn_name(line);
                m.add_fn(name, if dem.is_empty() { name } else { dem }, Some((pos, end)));
                pos = end + 3;
                dem = "";
                continue;
            } else if line.starts_with("declare ") {
                let name = fn_name(line);
                m.add_fn(name, name, None);
            } else if line.starts_with('@') {
                m.add_global(line);
            } else if let Some(c) = line.strip_prefix("; ") {
                if !c.starts_with("Function Attrs") { dem = c; }
                pos = e + 1;
                continue;
            }
            if !line.is_empty() { dem = ""; }
            pos = e + 1;
        }
        m.layout();
        m
    }
    fn add_fn(&mut self, name: &'static str, demangled: &'static str, body: Option<(usize, usize)>) {
        let id = self.fns.len() as u32;
        let ext = if body.is_none() { crate::ext::lookup(name) } else { crate::ext::intercept(name, demangled) };
        self.fns.push(FnDecl { name, demangled, body, compiled: OnceLock::new(), ext });
        self.fmap.insert(name, id);
    }
    fn add_global(&mut self, line: &'static str) {
        let mut l = Lex::new(line);
        let T::G(name) = l.next() else { panic!() };
        l.expect('=');
        let (mut constant, mut tls, mut external) = (false, false, false);
        loop {
            match l.next() {
                T::W("constant") => { constant = true; break; }
                T::W("global") => break,
                T::W("thread_local") => { tls = true; if l.peek() == T::P('(') { l.skip_parens(); } }
                T::W("external" | "extern_weak") => external = true,
                T::W("alias") => panic!("alias {line}"),
                T::End => panic!("global {line}"),
                _ => {}
            }
        }
        let ty = l.ty();
        let init = if external { "" } else { &line[l_start(&l, &ty, line)..] };
        let size = if external { 8 } else { ty.size() };
        let section = line.rfind(", section \"").map(|i| { let r = &line[i + 11..]; &r[..r.find('"').unwrap()] });
        self.gmap.insert(name, self.globals.len() as u32);
        self.globals.push(Global { name, constant, tls, size, init, addr: 0, section });
    }
    fn layout(&mut self) {
        // linker sections that the program walks as arrays
        let mut secs: HashMap<&'static str, Vec<usize>> = HashMap::new();
        for (i, g) in self.globals.iter().enumerate() {
            if let Some(s) = g.section { if s.starts_with("linkme_") || s.starts_with("linkm2_") { secs.entry(s).or_default().push(i); } }
        }
        let mut names: Vec<&'static str> = self.globals.iter().filter_map(|g| g.name.strip_prefix("__start_")).collect();
        names.sort();
        let mut insec: HashMap<usize, (usize, u64)> = HashMap::new();
        for s in names {
            let id = self.consts.len();
            let mut off = 0;
            for gi in secs.get(s).cloned().unwrap_or_default() {
                insec.insert(gi, (id, off));
                self.globals[gi].addr = ((id as u64) << OBJ_SHIFT) | off;
                off += self.globals[gi].size;
            }
            self.consts.push(vec![0; off as usize]);
            self.sections.insert(format!("__start_{s}"), (id as u64) << OBJ_SHIFT);
            self.sections.insert(format!("__stop_{s}"), ((id as u64) << OBJ_SHIFT) | off);
        }
        for i in 0..self.globals.len() {
            let g = &self.globals[i];
            if let Some(a) = self.sections.get(g.name) { self.globals[i].addr = *a; continue; }
            if insec.contains_key(&i) { continue; }
            let size = g.size as usize;
            let id = if g.tls { self.tls.push(vec![0; size]); TLS_BASE + self.tls.len() as u64 - 1 }
                else if g.constant { self.consts.push(vec![0; size]); self.consts.len() as u64 - 1 }
                else { self.dyn_init.push(vec![0; size]); DYN_BASE + self.dyn_init.len() as u64 - 1 };
            self.globals[i].addr = id << OBJ_SHIFT;
        }
        assert!((self.consts.len() as u64) < FN_BASE && (self.fns.len() as u64) < TLS_BASE - FN_BASE);
        for i in 0..self.globals.len() {
            let g = &self.globals[i];
            if g.init.is_empty() { continue; }
            let mut buf = vec![0u8; g.size as usize];
            let mut l = Lex::new(g.init);
            let ty = l.ty();
            self.const_bytes(&mut l, &ty, &mut buf);
            let a = self.globals[i].addr;
            let (id, off) = (a >> OBJ_SHIFT, (a & 0xffff_ffff) as usize);
            let dst = if id >= DYN_BASE { &mut self.dyn_init[(id - DYN_BASE) as usize] } else if id >= TLS_BASE { &mut self.tls[(id - TLS_BASE) as usize] } else { &mut self.consts[id as usize] };
            dst[off..off + buf.len()].copy_from_slice(&buf);
        }
    }
    fn const_bytes(&self, l: &mut Lex<'static>, ty: &Ty, out: &mut [u8]) {
        match (l.peek(), ty) {
            (T::CStr(s), _) => { l.next(); let b = unescape(s); out[..b.len()].copy_from_slice(&b); }
            (T::W("zeroinitializer" | "undef" | "poison"), _) => { l.next(); }
            (T::P(c @ ('{' | '[' | '<')), _) if ty.is_agg() => {
                l.next();
                let packed = c == '<' && l.eat('{');
                for i in 0..ty.nfields() {
                    if i > 0 { l.expect(','); }
                    let t = l.ty();
                    let (o, _) = ty.field(i);
                    let n = t.store_size() as usize;
                    self.const_bytes(l, &t, &mut out[o as usize..o as usize + n]);
                }
                l.next();
                if packed { l.expect('>'); }
            }
            _ => {
                let v = self.constant(l, ty);
                let c = v.con().expect("constant");
                let n = ty.store_size() as usize;
                out[..n].copy_from_slice(&c.to_le_bytes()[..n]);
            }
        }
    }
    pub fn global_addr(&self, name: &str) -> u64 {
        if let Some(i) = self.fmap.get(name) { return (FN_BASE + *i as u64) << OBJ_SHIFT; }
        match self.gmap.get(name) { Some(i) => self.globals[*i as usize].addr, None => panic!("unknown symbol {name}") }
    }
    /// Parse a constant of type `ty`.
    fn constant(&self, l: &mut Lex<'static>, ty: &Ty) -> V {
        match l.next() {
            T::P('+') if matches!(ty, Ty::F64 | Ty::F32) => { let T::W(n) = l.next() else { panic!("float constant") }; V::I(special_float(n, ty, false)) },
            T::N(n) if n.len() > 1 && n.starts_with('-') && n[1..].starts_with(|c: char| c.is_alphabetic()) && matches!(ty, Ty::F64 | Ty::F32) => V::I(special_float(&n[1..], ty, true)),
            T::N(n) if n.starts_with("0x") && matches!(ty, Ty::F64) => V::I(u64::from_str_radix(&n[2..], 16).unwrap()),
            T::N(n) if n.starts_with("0x") && matches!(ty, Ty::F32) => V::I((f64::from_bits(u64::from_str_radix(&n[2..], 16).unwrap()) as f32).to_bits() as u64),
            T::W(n) if n.starts_with("f0x") => V::I(u64::from_str_radix(&n[3..], 16).unwrap()),
            T::N(n) => match ty {
                Ty::F64 => V::I(n.parse::<f64>().unwrap().to_bits()),
                Ty::F32 => V::I(n.parse::<f32>().unwrap().to_bits() as u64),
                _ => {
                    let w = ty.bits();
                    let v = if let Some(x) = n.strip_prefix('-') { (x.parse::<u128>().unwrap()).wrapping_neg() } else { n.parse::<u128>().unwrap() };
                    V::from128(v & mask(w), w)
                }
            },
            T::W(w) if w.starts_with("f0x") => { let v = u64::from_str_radix(&w[3..], 16).unwrap(); V::I(v) }
            T::W("true") => V::I(1),
            T::W("false") => V::I(0),
            T::W("null" | "none") => V::I(0),
            T::W("undef" | "poison" | "zeroinitializer") => ty.zero(),
            T::W("splat") => { l.expect('('); let t = l.ty(); let v = self.constant(l, &t); l.expect(')'); let Ty::Vec(n, _) = ty else { panic!() }; V::A(Arc::new(vec![v; *n as usize])) }
            T::G(name) => V::I(self.global_addr(name)),
            T::W("inttoptr" | "ptrtoint" | "bitcast" | "trunc") => {
                l.expect('(');
                let t = l.ty();
                let v = self.constant(l, &t);
                l.eatw("to");
                let t2 = l.ty();
                l.expect(')');
                V::from128(v.con().unwrap() & mask(t2.bits()), t2.bits())
            }
            T::W(op @ ("sub" | "add" | "xor")) => {
                while l.peek() != T::P('(') { l.next(); }
                l.expect('(');
                let t = l.ty();
                let a = self.constant(l, &t).con().unwrap();
                l.expect(',');
                let _ = l.ty();
                let b = self.constant(l, &t).con().unwrap();
                l.expect(')');
                let o = match op { "sub" => Op::Sub, "add" => Op::Add, _ => Op::Xor };
                V::from128(fold(o, t.bits(), a, b), t.bits())
            }
            T::W("getelementptr") => {
                while l.peek() != T::P('(') { match l.next() { T::W("inrange") => { l.skip_parens(); } T::End => panic!(), _ => {} } }
                l.expect('(');
                let t = l.ty();
                l.expect(',');
                let pt = l.ty();
                let base = self.constant(l, &pt).con().unwrap() as u64;
                let mut idx = vec![];
                while l.eat(',') { let it = l.ty(); let v = self.constant(l, &it); idx.push(sext(v.con().unwrap(), it.bits()) as i64); }
                l.expect(')');
                let mut off = 0i64;
                let mut cur = t.clone();
                for (k, i) in idx.iter().enumerate() {
                    if k == 0 { off += i * cur.size() as i64; } else { let (o, f) = cur.field(*i as usize); off += o as i64; let f = f.clone(); cur = f; }
                }
                V::I(base.wrapping_add(off as u64))
            }
            T::P('{' | '[' | '<') => {
                let packed = matches!(ty, Ty::St(_, true)) && l.eat('{');
                let mut v = vec![];
                for i in 0..ty.nfields() { if i > 0 { l.expect(','); } let t = l.ty(); v.push(self.constant(l, &t)); }
                l.next();
                if packed { l.expect('>'); }
                V::A(Arc::new(v))
            }
            T::CStr(s) => V::A(Arc::new(unescape(s).iter().map(|b| V::I(*b as u64)).collect())),
            t => panic!("constant expected, got {t:?} in {}", l.s),
        }
    }
    pub fn func(&self, id: u32) -> Option<&Func> {
        let d = &self.fns[id as usize];
        let (s, e) = d.body?;
        Some(d.compiled.get_or_init(|| Compiler::new(self, id).run(&self.text[s..e])))
    }
}
fn l_start(l: &Lex, _ty: &Ty, line: &str) -> usize {
    // start of "<ty> <init>": find the type again by re-lexing from the keyword
    let mut k = Lex::new(line);
    loop {
        match k.next() { T::W("constant" | "global") => { return k.p; } T::End => return l.p, _ => {} }
    }
}
fn fn_name(line: &'static str) -> &'static str {
    let at = line.find('@').unwrap();
    let mut l = Lex::new(&line[at..]);
    match l.next() { T::G(n) => n, _ => panic!() }
}

// ------------------------------------------------------------------ compiled code

pub type R = u32;
/// Operand: register, or constant-pool index with the top bit set.
pub type O = u32;
pub const CONST: u32 = 0x8000_0000;
pub const NONE: u32 = u32::MAX;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Cast { Trunc, ZExt, SExt, Bit, FpExt, FpTrunc, UiToFp, SiToFp, FpToUi, FpToSi }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Pred { Eq, Ne, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fl { Sqrt, Floor, Ceil, Trunc, Round, Even, Exp, Exp2, Ln, Log2, Log10, Sin, Cos, Min, Max, Fma, Powi }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Intr { Nop, Memcpy, Memset, TlsAddr, Ctlz, Cttz, Ctpop, Bswap, Bitreverse, UMin, UMax, SMin, SMax, USubSat, UAddSat, UMulO, UAddO, USubO, SAddO, SSubO, SMulO, Ucmp, Scmp, Abs, Fshl, Fshr, IsConst, Trap, Fabs, Copysign, Pow, Float(Fl), FpToUiSat { src32: bool }, FpToSiSat { src32: bool }, Pause, Expect, Unsupported }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Rmw { Add, Sub, And, Or, Xor, Xchg, Nand, UMax, UMin, Max, Min }

pub struct CallI { pub callee: Callee, pub args: Box<[O]>, pub dst: R, pub inv: Option<(u32, u32)> }
#[derive(Clone, Copy)]
pub enum Callee { Fn(u32), Ind(O) }

pub enum Ins {
    Bin { op: Op, w: u32, d: R, a: O, b: O },
    FBin { op: u8, w: u32, d: R, a: O, b: O },
    ICmp { p: Pred, w: u32, d: R, a: O, b: O },
    FCmp { p: u8, w: u32, d: R, a: O, b: O },
    Cast { k: Cast, fw: u32, tw: u32, d: R, a: O },
    BitCast { from: Box<Ty>, to: Box<Ty>, d: R, a: O },
    Select { d: R, c: O, a: O, b: O, w: u32 },
    Gep1 { d: R, base: O, off: u64 },
    Gep { d: R, base: O, off: u64, idx: Box<[(O, u32, u64)]> },
    LoadI { d: R, p: O, n: u32, w: u32 },
    LoadT { d: R, p: O, ty: Box<Ty> },
    StoreI { v: O, p: O, n: u32, w: u32 },
    StoreT { v: O, p: O, ty: Box<Ty> },
    Rmw { k: Rmw, d: R, p: O, v: O, n: u32, w: u32 },
    CmpXchg { d: R, p: O, c: O, v: O, n: u32, w: u32 },
    Sched,
    Alloca { d: R, off: u32 },
    Jmp { e: u32 },
    Br { c: O, t: u32, f: u32 },
    Switch { v: O, w: u32, cases: Box<[(u64, u32)]>, d: u32 },
    Call(Box<CallI>),
    Intr { k: Intr, w: u32, d: R, args: Box<[O]> },
    Extract { d: R, a: O, path: Box<[u32]> },
    Insert { d: R, a: O, v: O, path: Box<[u32]> },
    ExtractEl { d: R, a: O, i: O },
    InsertEl { d: R, a: O, v: O, i: O },
    Shuffle { d: R, a: O, b: O, m: Box<[i32]> },
    Mov { d: R, a: O },
    LandingPad { d: R, catch: bool },
    Resume { a: O },
    Ret { v: O },
    RetVoid,
    Asm { d: R, cpuid: bool },
    Unreachable,
}
pub struct Edge { pub pc: u32, pub moves: Box<[(R, O)]> }
pub struct Func { pub id: u32, pub name: &'static str, pub demangled: &'static str, pub nparams: u32, pub nregs: u32, pub frame: u32, pub code: Vec<Ins>, pub edges: Vec<Edge>, pub consts: Vec<V>, pub has_catch: Vec<bool>, pub sample: bool }

struct Compiler<'m> {
    m: &'m Module,
    id: u32,
    regs: HashMap<&'static str, R>,
    consts: Vec<V>,
    cmap: HashMap<u64, u32>,
    code: Vec<Ins>,
    edges: Vec<(u32, &'static str)>, // (pred block, label)
    blocks: HashMap<&'static str, u32>,
    bpc: Vec<u32>,
    bname: Vec<&'static str>,
    phis: Vec<Vec<(R, Vec<(O, &'static str)>)>>,
    frame: u32,
    cur: u32,
}

impl<'m> Compiler<'m> {
    fn new(m: &'m Module, id: u32) -> Self {
        Compiler { m, id, regs: HashMap::new(), consts: vec![], cmap: HashMap::new(), code: vec![], edges: vec![], blocks: HashMap::new(), bpc: vec![], bname: vec![], phis: vec![], frame: 0, cur: 0 }
    }
    fn reg(&mut self, n: &'static str) -> R { let k = self.regs.len() as R; *self.regs.entry(n).or_insert(k) }
    fn konst(&mut self, v: V) -> O {
        if let V::I(x) = v {
            if let Some(i) = self.cmap.get(&x) { return CONST | *i; }
            self.cmap.insert(x, self.consts.len() as u32);
        }
        self.consts.push(v);
        CONST | (self.consts.len() as u32 - 1)
    }
    fn edge(&mut self, label: &'static str) -> u32 { self.edges.push((self.cur, label)); self.edges.len() as u32 - 1 }
    fn val(&mut self, l: &mut Lex<'static>, ty: &Ty) -> O {
        if let T::L(n) = l.peek() { l.next(); return self.reg(n); }
        if *ty == Ty::Other { // metadata operand
            l.next();
            return self.konst(V::I(0));
        }
        let v = self.m.constant(l, ty);
        self.konst(v)
    }
    fn tval(&mut self, l: &mut Lex<'static>) -> (Ty, O) { let t = l.ty(); l.skip_attrs(); let v = self.val(l, &t); (t, v) }
    fn label(&mut self, l: &mut Lex<'static>) -> u32 {
        let t = l.next();
        assert!(t == T::W("label"), "label expected {t:?}");
        match l.next() { T::L(n) => self.edge(n), t => panic!("{t:?}") }
    }

    fn run(mut self, text: &'static str) -> Func {
        let mut lines = text.lines();
        let head = lines.next().unwrap();
        // parameters
        let at = head.find('@').unwrap();
        let mut l = Lex::new(&head[at..]);
        l.next();
        l.expect('(');
        let mut np = 0;
        let mut unnamed = 0;
        if !l.eat(')') {
            loop {
                let t = l.ty();
                if t == Ty::Other { l.next(); break; }
                l.skip_attrs();
                match l.next() { T::L(n) => { let r = self.reg(n); assert_eq!(r, np); np += 1; if n.as_bytes()[0].is_ascii_digit() { unnamed += 1; } } t => panic!("param {t:?} in {head}") }
                if l.eat(')') { break; }
                l.expect(',');
            }
        }
        // join continuation lines
        let mut items: Vec<&'static str> = vec![];
        let mut it = lines.peekable();
        let base = text.as_ptr() as usize;
        while let Some(line) = it.next() {
            let tr = line.trim_start();
            if tr.is_empty() || tr.starts_with(';') || tr.starts_with("#dbg") { continue; }
            if !line.starts_with(' ') { items.push(line); continue; }
            let start = line.as_ptr() as usize - base;
            let mut end = start + line.len();
            if tr.starts_with("switch ") && !line.contains(']') {
                for c in it.by_ref() { end = c.as_ptr() as usize - base + c.len(); if c.trim_start().starts_with(']') { break; } }
            }
            loop {
                match it.peek() {
                    Some(c) if { let t = c.trim_start(); c.starts_with("          ") && (t.starts_with("to label") || t == "cleanup" || t.starts_with("catch ") || t.starts_with("filter ")) } => { end = c.as_ptr() as usize - base + c.len(); it.next(); }
                    _ => break,
                }
            }
            items.push(&text[start..end]);
        }
        // blocks
        let mut started = false;
        for (k, item) in items.iter().enumerate() {
            if !item.starts_with(' ') {
                let name = if item.starts_with('"') { &item[1..1 + item[1..].find('"').unwrap()] } else { &item[..item.find(':').unwrap()] };
                self.begin_block(name);
                started = true;
            } else {
                if !started {
                    // implicit entry block: named by the next unnamed number
                    let n: &'static str = Box::leak(format!("{unnamed}").into_boxed_str());
                    self.begin_block(n);
                    started = true;
                }
                let _ = k;
                self.ins(item);
            }
        }
        // resolve edges
        let mut edges = vec![];
        for (pred, label) in std::mem::take(&mut self.edges) {
            let b = *self.blocks.get(label).unwrap_or_else(|| panic!("no block {label} in {head}"));
            let pname = self.bname[pred as usize];
            let moves: Box<[(R, O)]> = self.phis[b as usize].iter().map(|(d, inc)| (*d, inc.iter().find(|(_, l)| *l == pname).unwrap_or_else(|| panic!("phi {label} from {pname} in {head}")).0)).filter(|(d, o)| d != o).collect();
            edges.push(Edge { pc: self.bpc[b as usize], moves });
        }
        let has_catch = self.code.iter().map(|i| matches!(i, Ins::LandingPad { catch: true, .. })).collect();
        let d = &self.m.fns[self.id as usize];
        Func { id: self.id, name: d.name, demangled: d.demangled, nparams: np, nregs: self.regs.len() as u32, frame: self.frame, code: self.code, edges, consts: self.consts, has_catch, sample: d.demangled.contains("core::unicode::unicode_data") }
    }
    fn begin_block(&mut self, name: &'static str) {
        self.cur = self.bpc.len() as u32;
        self.blocks.insert(name, self.cur);
        self.bname.push(name);
        self.bpc.push(self.code.len() as u32);
        self.phis.push(vec![]);
    }

    fn ins(&mut self, text: &'static str) {
        let mut l = Lex::new(text);
        let mut d = NONE;
        if let T::L(n) = l.peek() { l.next(); l.expect('='); d = self.reg(n); }
        let T::W(mut op) = l.next() else { panic!("instruction {text}") };
        if matches!(op, "tail" | "musttail" | "notail") { let T::W(o) = l.next() else { panic!() }; op = o; }
        match op {
            "add" | "sub" | "mul" | "udiv" | "urem" | "sdiv" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                l.skip_to_type();
                let t = l.ty();
                let a = self.val(&mut l, &t);
                l.expect(',');
                let b = self.val(&mut l, &t);
                let o = match op { "add" => Op::Add, "sub" => Op::Sub, "mul" => Op::Mul, "udiv" => Op::UDiv, "urem" => Op::URem, "sdiv" => Op::SDiv, "srem" => Op::SRem, "and" => Op::And, "or" => Op::Or, "xor" => Op::Xor, "shl" => Op::Shl, "lshr" => Op::LShr, _ => Op::AShr };
                let w = match &t { Ty::Vec(_, e) => e.bits(), t => t.bits() };
                self.code.push(Ins::Bin { op: o, w, d, a, b });
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                l.skip_to_type();
                let t = l.ty();
                let a = self.val(&mut l, &t);
                l.expect(',');
                let b = self.val(&mut l, &t);
                self.code.push(Ins::FBin { op: match op { "fadd" => 0, "fsub" => 1, "fmul" => 2, "fdiv" => 3, _ => 4 }, w: t.bits(), d, a, b });
            }
            "fneg" => {
                l.skip_to_type();
                let t = l.ty();
                let a = self.val(&mut l, &t);
                self.code.push(Ins::FBin { op: 5, w: t.bits(), d, b: a.clone(), a });
            }
            "icmp" => {
                let T::W(mut p) = l.next() else { panic!() };
                if p == "samesign" { let T::W(q) = l.next() else { panic!() }; p = q; }
                let t = l.ty();
                let a = self.val(&mut l, &t);
                l.expect(',');
                let b = self.val(&mut l, &t);
                let p = match p { "eq" => Pred::Eq, "ne" => Pred::Ne, "ult" => Pred::Ult, "ule" => Pred::Ule, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "slt" => Pred::Slt, "sle" => Pred::Sle, "sgt" => Pred::Sgt, "sge" => Pred::Sge, x => panic!("icmp {x}") };
                let w = match &t { Ty::Vec(_, e) => e.bits(), t => t.bits() };
                self.code.push(Ins::ICmp { p, w, d, a, b });
            }
            "fcmp" => {
                let T::W(mut p) = l.next() else { panic!() };
                while !matches!(p, "oeq" | "one" | "olt" | "ole" | "ogt" | "oge" | "ord" | "uno" | "ueq" | "une" | "ult" | "ule" | "ugt" | "uge" | "true" | "false") { let T::W(q) = l.next() else { panic!() }; p = q; }
                let t = l.ty();
                let a = self.val(&mut l, &t);
                l.expect(',');
                let b = self.val(&mut l, &t);
                // bit 0: lt, 1: eq, 2: gt, 3: unordered
                let c = match p { "oeq" => 2, "one" => 5, "olt" => 1, "ole" => 3, "ogt" => 4, "oge" => 6, "ord" => 7, "uno" => 8, "ueq" => 10, "une" => 13, "ult" => 9, "ule" => 11, "ugt" => 12, "uge" => 14, "true" => 15, _ => 0 };
                self.code.push(Ins::FCmp { p: c, w: t.bits(), d, a, b });
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "fpext" | "fptrunc" | "uitofp" | "sitofp" | "fptoui" | "fptosi" | "ptrtoaddr" => {
                l.skip_to_type();
                let t = l.ty();
                let a = self.val(&mut l, &t);
                assert!(l.eatw("to"));
                let t2 = l.ty();
                if op == "bitcast" { self.code.push(Ins::BitCast { from: Box::new(t), to: Box::new(t2), d, a }); return; }
                let (fw, tw) = match (&t, &t2) { (Ty::Vec(_, x), Ty::Vec(_, y)) => (x.bits(), y.bits()), _ => (t.bits(), t2.bits()) };
                let k = match op {
                    "trunc" => Cast::Trunc, "zext" => Cast::ZExt, "sext" => Cast::SExt, "fpext" => Cast::FpExt, "fptrunc" => Cast::FpTrunc, "uitofp" => Cast::UiToFp, "sitofp" => Cast::SiToFp, "fptoui" => Cast::FpToUi, "fptosi" => Cast::FpToSi,
                    _ => if tw > fw { Cast::ZExt } else if tw < fw { Cast::Trunc } else { Cast::Bit },
                };
                if k == Cast::Bit { self.code.push(Ins::Mov { d, a }); } else { self.code.push(Ins::Cast { k, fw, tw, d, a }); }
            }
            "select" => {
                l.skip_to_type();
                let (_, c) = self.tval(&mut l);
                l.expect(',');
                let (t, a) = self.tval(&mut l);
                l.expect(',');
                let (_, b) = self.tval(&mut l);
                let w = match &t { Ty::Vec(_, e) => e.bits(), t if t.is_agg() => 0, t => t.bits() };
                self.code.push(Ins::Select { d, c, a, b, w });
            }
            "freeze" => { let (_, a) = self.tval(&mut l); self.code.push(Ins::Mov { d, a }); }
            "getelementptr" => {
                l.skip_to_type();
                let t = l.ty();
                l.expect(',');
                let (_, base) = self.tval(&mut l);
                let mut off = 0u64;
                let mut dynamic = vec![];
                let mut cur = t;
                let mut k = 0;
                while l.eat(',') {
                    if l.peek() == T::Meta { break; }
                    let (it, o) = self.tval(&mut l);
                    let kc = if o & CONST != 0 { self.consts[(o & !CONST) as usize].con().map(|c| sext(c, it.bits()) as i64) } else { None };
                    if k > 0 && matches!(cur, Ty::St(..)) {
                        let (fo, f) = cur.field(kc.expect("struct index") as usize);
                        off = off.wrapping_add(fo);
                        let f = f.clone();
                        cur = f;
                    } else {
                        if k > 0 { let e = match &cur { Ty::Arr(_, e) | Ty::Vec(_, e) => (**e).clone(), t => panic!("gep into {t:?}") }; cur = e; }
                        let sz = cur.size();
                        match kc { Some(c) => off = off.wrapping_add((c as u64).wrapping_mul(sz)), None => dynamic.push((o, it.bits(), sz)) }
                    }
                    k += 1;
                }
                if dynamic.is_empty() { self.code.push(Ins::Gep1 { d, base, off }); }
                else { self.code.push(Ins::Gep { d, base, off, idx: dynamic.into() }); }
            }
            "load" => {
                let atomic = l.eatw("atomic");
                l.eatw("volatile");
                let t = l.ty();
                l.expect(',');
                let (_, p) = self.tval(&mut l);
                if atomic { self.code.push(Ins::Sched); }
                if t.is_agg() || t.bits() > 64 { self.code.push(Ins::LoadT { d, p, ty: Box::new(t) }); }
                else { self.code.push(Ins::LoadI { d, p, n: t.store_size() as u32, w: t.bits() }); }
            }
            "store" => {
                let atomic = l.eatw("atomic");
                l.eatw("volatile");
                let (t, v) = self.tval(&mut l);
                l.expect(',');
                let (_, p) = self.tval(&mut l);
                if atomic { self.code.push(Ins::Sched); }
                if t.is_agg() || t.bits() > 64 { self.code.push(Ins::StoreT { v, p, ty: Box::new(t) }); }
                else { self.code.push(Ins::StoreI { v, p, n: t.store_size() as u32, w: t.bits() }); }
            }
            "atomicrmw" => {
                l.eatw("volatile");
                let T::W(k) = l.next() else { panic!() };
                let k = match k { "add" => Rmw::Add, "sub" => Rmw::Sub, "and" => Rmw::And, "or" => Rmw::Or, "xor" => Rmw::Xor, "xchg" => Rmw::Xchg, "nand" => Rmw::Nand, "umax" => Rmw::UMax, "umin" => Rmw::UMin, "max" => Rmw::Max, "min" => Rmw::Min, x => panic!("atomicrmw {x}") };
                let (_, p) = self.tval(&mut l);
                l.expect(',');
                let (t, v) = self.tval(&mut l);
                self.code.push(Ins::Sched);
                self.code.push(Ins::Rmw { k, d, p, v, n: t.store_size() as u32, w: t.bits() });
            }
            "cmpxchg" => {
                l.eatw("weak");
                l.eatw("volatile");
                let (_, p) = self.tval(&mut l);
                l.expect(',');
                let (t, c) = self.tval(&mut l);
                l.expect(',');
                let (_, v) = self.tval(&mut l);
                self.code.push(Ins::Sched);
                self.code.push(Ins::CmpXchg { d, p, c, v, n: t.store_size() as u32, w: t.bits() });
            }
            "fence" => {}
            "alloca" => {
                let t = l.ty();
                let mut n = 1u64;
                let mut align = t.align();
                while l.eat(',') {
                    if l.eatw("align") { align = l.num(); }
                    else if l.peek() == T::Meta { break; }
                    else { let (_, o) = self.tval(&mut l); assert!(o & CONST != 0, "dynamic alloca"); n = self.consts[(o & !CONST) as usize].con().unwrap() as u64; }
                }
                let off = up(self.frame as u64, align.max(1));
                self.frame = (off + t.size() * n) as u32;
                self.code.push(Ins::Alloca { d, off: off as u32 });
            }
            "phi" => {
                l.skip_to_type();
                let t = l.ty();
                let mut inc = vec![];
                loop {
                    l.expect('[');
                    let v = self.val(&mut l, &t);
                    l.expect(',');
                    let T::L(b) = l.next() else { panic!() };
                    l.expect(']');
                    inc.push((v, b));
                    if !(l.eat(',') && l.peek() == T::P('[')) { break; }
                }
                let cur = self.cur as usize;
                self.phis[cur].push((d, inc));
            }
            "br" => {
                if l.peek() == T::W("label") { let e = self.label(&mut l); self.code.push(Ins::Jmp { e }); }
                else {
                    let (_, c) = self.tval(&mut l);
                    l.expect(',');
                    let t = self.label(&mut l);
                    l.expect(',');
                    let f = self.label(&mut l);
                    self.code.push(Ins::Br { c, t, f });
                }
            }
            "switch" => {
                let (t, v) = self.tval(&mut l);
                l.expect(',');
                let dflt = self.label(&mut l);
                l.expect('[');
                let mut cases = vec![];
                while !l.eat(']') {
                    let t2 = l.ty();
                    let c = self.m.constant(&mut l, &t2).con().unwrap();
                    l.expect(',');
                    let e = self.label(&mut l);
                    cases.push((c as u64, e));
                }
                assert!(t.bits() <= 64 || cases.iter().all(|_| true));
                self.code.push(Ins::Switch { v, w: t.bits(), cases: cases.into(), d: dflt });
            }
            "ret" => {
                if l.peek() == T::W("void") { self.code.push(Ins::RetVoid); }
                else { let (_, v) = self.tval(&mut l); self.code.push(Ins::Ret { v }); }
            }
            "unreachable" => self.code.push(Ins::Unreachable),
            "resume" => { let (_, a) = self.tval(&mut l); self.code.push(Ins::Resume { a }); }
            "landingpad" => {
                let catch = text.contains("\n          catch ") || text.contains("\n          filter ");
                self.code.push(Ins::LandingPad { d, catch });
            }
            "extractvalue" => {
                let (_, a) = self.tval(&mut l);
                let mut path = vec![];
                while l.eat(',') { if l.peek() == T::Meta { break; } path.push(l.num() as u32); }
                self.code.push(Ins::Extract { d, a, path: path.into() });
            }
            "insertvalue" => {
                let (_, a) = self.tval(&mut l);
                l.expect(',');
                let (_, v) = self.tval(&mut l);
                let mut path = vec![];
                while l.eat(',') { if l.peek() == T::Meta { break; } path.push(l.num() as u32); }
                self.code.push(Ins::Insert { d, a, v, path: path.into() });
            }
            "extractelement" => { let (_, a) = self.tval(&mut l); l.expect(','); let (_, i) = self.tval(&mut l); self.code.push(Ins::ExtractEl { d, a, i }); }
            "insertelement" => { let (_, a) = self.tval(&mut l); l.expect(','); let (_, v) = self.tval(&mut l); l.expect(','); let (_, i) = self.tval(&mut l); self.code.push(Ins::InsertEl { d, a, v, i }); }
            "shufflevector" => {
                let (_, a) = self.tval(&mut l);
                l.expect(',');
                let (_, b) = self.tval(&mut l);
                l.expect(',');
                let (_, mo) = self.tval(&mut l);
                let V::A(m) = &self.consts[(mo & !CONST) as usize] else { panic!() };
                let m: Box<[i32]> = m.iter().map(|x| x.con().unwrap() as i32).collect();
                self.code.push(Ins::Shuffle { d, a, b, m });
            }
            "call" | "invoke" => self.call(&mut l, d, op == "invoke", text),
            x => panic!("instruction {x}: {text}"),
        }
    }

    fn call(&mut self, l: &mut Lex<'static>, d: R, invoke: bool, text: &'static str) {
        l.skip_to_type();
        let rty = l.ty();
        if l.peek() == T::P('(') { l.skip_parens(); } // function type
        if l.eatw("asm") {
            assert!(text.contains("cpuid") || text.contains("\"~{memory}\"") || text.contains("asm sideeffect \"\"") || text.contains("asm sideeffect inteldialect \"\""), "inline asm {text}");
            self.code.push(Ins::Asm { d, cpuid: text.contains("cpuid") });
            if let Ty::I(_) = rty { /* black_box-like: no result expected */ }
            return;
        }
        let callee = match l.next() {
            T::G(n) => Callee::Fn(*self.m.fmap.get(n).unwrap_or_else(|| panic!("call of {n}"))),
            T::L(n) => Callee::Ind(self.reg(n)),
            T::W("null" | "poison" | "undef") => { let z = self.konst(V::I(0)); Callee::Ind(z) }
            T::W("inttoptr") => { let mut k = l.clone(); k.p -= "inttoptr".len(); let v = self.m.constant(&mut k, &Ty::Ptr); *l = k; let z = self.konst(v); Callee::Ind(z) }
            t => panic!("callee {t:?} in {text}"),
        };
        l.expect('(');
        let mut args = vec![];
        let mut tys = vec![];
        if !l.eat(')') {
            loop {
                let (t, o) = self.tval(l);
                args.push(o);
                tys.push(t);
                if l.eat(')') { break; }
                l.expect(',');
            }
        }
        let inv = if invoke {
            while !l.eatw("to") { if l.next() == T::End { panic!("invoke {text}"); } }
            let n = self.label(l);
            assert!(l.eatw("unwind"));
            let u = self.label(l);
            Some((n, u))
        } else { None };
        if let Callee::Fn(id) = callee {
            let name = self.m.fns[id as usize].name;
            if let Some(n) = name.strip_prefix("llvm.") {
                let w = tys.first().map(|t| match t { Ty::Vec(_, e) => e.bits(), Ty::I(n) => *n, Ty::F64 => 64, Ty::F32 => 32, _ => 64 }).unwrap_or(64);
                let rw = match &rty { Ty::I(n) => *n, Ty::Vec(_, e) => e.bits(), _ => w };
                let k = if n.starts_with("lifetime") || n.starts_with("assume") || n.starts_with("experimental.noalias") || n.starts_with("x86.avx.vzero") || n.starts_with("dbg") || n.starts_with("invariant") || n.starts_with("donothing") || n.starts_with("prefetch") { Intr::Nop }
                    else if n.starts_with("memcpy") || n.starts_with("memmove") { Intr::Memcpy }
                    else if n.starts_with("memset") { Intr::Memset }
                    else if n.starts_with("threadlocal.address") { Intr::TlsAddr }
                    else if n.starts_with("ctlz") { Intr::Ctlz }
                    else if n.starts_with("cttz") { Intr::Cttz }
                    else if n.starts_with("ctpop") { Intr::Ctpop }
                    else if n.starts_with("bswap") { Intr::Bswap }
                    else if n.starts_with("bitreverse") { Intr::Bitreverse }
                    else if n.starts_with("umin") { Intr::UMin }
                    else if n.starts_with("umax") { Intr::UMax }
                    else if n.starts_with("smin") { Intr::SMin }
                    else if n.starts_with("smax") { Intr::SMax }
                    else if n.starts_with("usub.sat") { Intr::USubSat }
                    else if n.starts_with("uadd.sat") { Intr::UAddSat }
                    else if n.starts_with("umul.with") { Intr::UMulO }
                    else if n.starts_with("uadd.with") { Intr::UAddO }
                    else if n.starts_with("usub.with") { Intr::USubO }
                    else if n.starts_with("sadd.with") { Intr::SAddO }
                    else if n.starts_with("ssub.with") { Intr::SSubO }
                    else if n.starts_with("smul.with") { Intr::SMulO }
                    else if n.starts_with("ucmp") { Intr::Ucmp }
                    else if n.starts_with("scmp") { Intr::Scmp }
                    else if n.starts_with("abs.") { Intr::Abs }
                    else if n.starts_with("fshl") { Intr::Fshl }
                    else if n.starts_with("fshr") { Intr::Fshr }
                    else if n.starts_with("is.constant") { Intr::IsConst }
                    else if n.starts_with("trap") || n.starts_with("debugtrap") { Intr::Trap }
                    else if n.starts_with("fabs") { Intr::Fabs }
                    else if n.starts_with("copysign") { Intr::Copysign }
                    else if n.starts_with("powi.") { Intr::Float(Fl::Powi) }
                    else if n.starts_with("pow.") { Intr::Pow }
                    else if n.starts_with("sqrt.") { Intr::Float(Fl::Sqrt) }
                    else if n.starts_with("floor.") { Intr::Float(Fl::Floor) }
                    else if n.starts_with("ceil.") { Intr::Float(Fl::Ceil) }
                    else if n.starts_with("trunc.") { Intr::Float(Fl::Trunc) }
                    else if n.starts_with("round.") { Intr::Float(Fl::Round) }
                    else if n.starts_with("roundeven.") || n.starts_with("rint.") || n.starts_with("nearbyint.") { Intr::Float(Fl::Even) }
                    else if n.starts_with("exp.") { Intr::Float(Fl::Exp) }
                    else if n.starts_with("exp2.") { Intr::Float(Fl::Exp2) }
                    else if n.starts_with("log.") { Intr::Float(Fl::Ln) }
                    else if n.starts_with("log2.") { Intr::Float(Fl::Log2) }
                    else if n.starts_with("log10.") { Intr::Float(Fl::Log10) }
                    else if n.starts_with("sin.") { Intr::Float(Fl::Sin) }
                    else if n.starts_with("cos.") { Intr::Float(Fl::Cos) }
                    else if n.starts_with("minnum") || n.starts_with("minimumnum") { Intr::Float(Fl::Min) }
                    else if n.starts_with("maxnum") || n.starts_with("maximumnum") { Intr::Float(Fl::Max) }
                    else if n.starts_with("fma.") || n.starts_with("fmuladd.") { Intr::Float(Fl::Fma) }
                    else if n.starts_with("fptoui.sat") { Intr::FpToUiSat { src32: n.ends_with("f32") } }
                    else if n.starts_with("fptosi.sat") { Intr::FpToSiSat { src32: n.ends_with("f32") } }
                    else if n.starts_with("x86.sse2.pause") { Intr::Pause }
                    else if n.starts_with("expect") { Intr::Expect }
                    else { Intr::Unsupported };
                if k != Intr::Nop {
                    let w = if matches!(k, Intr::FpToUiSat { .. } | Intr::FpToSiSat { .. }) { rw } else { w };
                    self.code.push(Ins::Intr { k, w, d, args: args.into() });
                }
                if let Some((n, _)) = inv { self.code.push(Ins::Jmp { e: n }); }
                return;
            }
        }
        self.code.push(Ins::Call(Box::new(CallI { callee, args: args.into(), dst: d, inv })));
    }
}
