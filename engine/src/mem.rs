//! Object-based memory: address = (object id << 32) | offset. Copy-on-write between states.
use crate::expr::*;
use crate::ir::*;
use std::collections::BTreeMap;
use std::sync::Arc;

#[derive(Clone)]
pub struct Obj { pub data: Vec<u8>, pub sym: Option<Box<BTreeMap<u32, (E, u8)>>>, pub heap: bool }

#[derive(Clone)]
struct Chunk([Option<Arc<Obj>>; 64]);

#[derive(Clone)]
pub struct Mem { table: Vec<Arc<Chunk>>, next: u64, stack_free: Vec<u32>, empty: Arc<Chunk>, pub live: u64 }

pub type R<T> = Result<T, String>;

fn split(a: u64) -> (u64, u64) { (a >> OBJ_SHIFT, a & 0xffff_ffff) }

impl Mem {
    pub fn new(m: &Module) -> Mem {
        let empty = Arc::new(Chunk(std::array::from_fn(|_| None)));
        let mut s = Mem { table: vec![], next: 0, stack_free: vec![], empty, live: 0 };
        for d in &m.dyn_init { s.push(Obj { data: d.clone(), sym: None, heap: false }); }
        s
    }
    fn push(&mut self, o: Obj) -> u64 {
        let i = self.next;
        self.next += 1;
        if i as usize / 64 >= self.table.len() { self.table.push(self.empty.clone()); }
        Arc::make_mut(&mut self.table[i as usize / 64]).0[i as usize % 64] = Some(Arc::new(o));
        DYN_BASE + i
    }
    pub fn alloc(&mut self, size: u64, heap: bool) -> u64 { self.live += heap as u64; self.push(Obj { data: vec![0; size as usize], sym: None, heap }) << OBJ_SHIFT }
    /// A fresh address without memory behind it (zero-sized objects get one byte).
    pub fn frame(&mut self, size: u32) -> u32 {
        if let Some(id) = self.stack_free.pop() {
            let o = self.obj_mut(id as u64).unwrap();
            o.data.clear();
            o.data.resize(size as usize, 0);
            o.sym = None;
            id
        } else { self.push(Obj { data: vec![0; size as usize], sym: None, heap: false }) as u32 }
    }
    pub fn pop_frame(&mut self, id: u32) { self.stack_free.push(id); }
    fn obj(&self, id: u64) -> Option<&Obj> {
        let i = id.wrapping_sub(DYN_BASE) as usize;
        self.table.get(i / 64)?.0[i % 64].as_deref()
    }
    fn obj_mut(&mut self, id: u64) -> Option<&mut Obj> {
        let i = id.wrapping_sub(DYN_BASE) as usize;
        let c = self.table.get_mut(i / 64)?;
        c.0[i % 64].as_ref()?;
        Arc::make_mut(c).0[i % 64].as_mut().map(Arc::make_mut)
    }
    /// Rewrite every symbolic byte that `f` changes.
    pub fn rewrite(&mut self, touches: &dyn Fn(&E) -> bool, f: &mut dyn FnMut(&E) -> E) {
        for i in 0..self.table.len() {
            if Arc::ptr_eq(&self.table[i], &self.empty) { continue; }
            for j in 0..64 {
                let hit = match &self.table[i].0[j] { Some(o) => o.sym.as_ref().is_some_and(|s| s.values().any(|(e, _)| touches(e))), None => false };
                if !hit { continue; }
                let ob = Arc::make_mut(Arc::make_mut(&mut self.table[i]).0[j].as_mut().unwrap());
                let ks: Vec<(u32, E, u8)> = ob.sym.as_ref().unwrap().iter().filter(|(_, (e, _))| touches(e)).map(|(k, (e, b))| (*k, e.clone(), *b)).collect();
                for (k, e, b) in ks {
                    let n = f(&e);
                    match extract(&n, b as u32 * 8, 8).c() {
                        Some(c) => { ob.data[k as usize] = c as u8; let s = ob.sym.as_mut().unwrap(); s.remove(&k); }
                        None => { ob.sym.as_mut().unwrap().insert(k, (n, b)); }
                    }
                }
                if ob.sym.as_ref().unwrap().is_empty() { ob.sym = None; }
            }
        }
    }
    pub fn free(&mut self, a: u64) -> R<()> {
        let (id, off) = split(a);
        match self.obj(id) {
            Some(o) if o.heap && off == 0 => {}
            Some(_) => return Err(format!("free of a pointer that is not the start of a heap object: {a:#x}")),
            None => return Err(format!("double free or free of an invalid pointer {a:#x}")),
        }
        let i = (id - DYN_BASE) as usize;
        self.live -= 1;
        Arc::make_mut(&mut self.table[i / 64]).0[i % 64] = None;
        if i / 64 + 1 < self.table.len() && self.table[i / 64].0.iter().all(|x| x.is_none()) { self.table[i / 64] = self.empty.clone(); }
        Ok(())
    }
    pub fn size_of(&self, a: u64) -> Option<u64> { self.obj(a >> OBJ_SHIFT).map(|o| o.data.len() as u64) }

    fn err(&self, what: &str, a: u64, n: u64, len: Option<usize>) -> String {
        match len {
            Some(l) => format!("out-of-bounds {what} of {n} bytes at offset {} of an object of {l} bytes", (a & 0xffff_ffff) as i64),
            None => format!("{what} of {n} bytes through an invalid or dangling pointer {a:#x}"),
        }
    }
    /// Concrete bytes and overlay of the object behind `a`, bounds-checked for `n` bytes.
    #[inline]
    fn rd<'a>(&'a self, m: &'a Module, a: u64, n: u64) -> R<(&'a [u8], usize, Option<&'a BTreeMap<u32, (E, u8)>>)> {
        let (id, off) = split(a);
        if id >= DYN_BASE {
            match self.obj(id) {
                Some(o) if off + n <= o.data.len() as u64 => return Ok((&o.data, off as usize, o.sym.as_deref())),
                o => return Err(self.err("read", a, n, o.map(|o| o.data.len()))),
            }
        }
        match m.consts.get(id as usize) {
            Some(d) if id > 0 && off + n <= d.len() as u64 => Ok((d, off as usize, None)),
            Some(d) if id > 0 => Err(self.err("read", a, n, Some(d.len()))),
            _ => Err(self.err("read", a, n, None)),
        }
    }
    #[inline]
    fn wr(&mut self, a: u64, n: u64) -> R<(&mut Obj, usize)> {
        let (id, off) = split(a);
        let len = self.obj(id).map(|o| o.data.len());
        match len {
            Some(l) if off + n <= l as u64 => Ok((self.obj_mut(id).unwrap(), off as usize)),
            _ => Err(self.err("write", a, n, len)),
        }
    }
    #[inline]
    pub fn load(&self, m: &Module, a: u64, n: u32, w: u32) -> R<V> {
        let (d, o, sym) = self.rd(m, a, n as u64)?;
        if let Some(s) = sym { if s.range(o as u32..o as u32 + n).next().is_some() { return Ok(sym_load(d, s, o, n, w)); } }
        let mut b = [0u8; 8];
        if n <= 8 {
            if n == 8 { b.copy_from_slice(&d[o..o + 8]); } else { for i in 0..n as usize { b[i] = d[o + i]; } }
            let v = u64::from_le_bytes(b);
            Ok(V::I(if w < 64 { v & ((1 << w) - 1) } else { v }))
        } else {
            let mut b = [0u8; 16];
            b[..n as usize].copy_from_slice(&d[o..o + n as usize]);
            Ok(V::from128(u128::from_le_bytes(b) & mask(w), w))
        }
    }
    #[inline]
    pub fn store(&mut self, a: u64, n: u32, w: u32, v: &V) -> R<()> {
        let (ob, o) = self.wr(a, n as u64)?;
        match v {
            V::I(x) => {
                let b = x.to_le_bytes();
                if n <= 8 { ob.data[o..o + n as usize].copy_from_slice(&b[..n as usize]); }
                else { ob.data[o..o + 8].copy_from_slice(&b); ob.data[o + 8..o + n as usize].fill(0); }
                if ob.sym.is_some() { clear_sym(ob, o, n as usize); }
            }
            V::W(x) => { let b = x.to_le_bytes(); ob.data[o..o + n as usize].copy_from_slice(&b[..n as usize]); if ob.sym.is_some() { clear_sym(ob, o, n as usize); } }
            V::S(e) => {
                let e = if w < n * 8 { zext(e, n * 8) } else { e.clone() };
                for k in 0..n { put_byte(ob, o as u32 + k, &e, k); }
            }
            V::A(_) => return Err("store of an aggregate as an integer".into()),
        }
        Ok(())
    }
    pub fn load_ty(&self, m: &Module, a: u64, t: &Ty) -> R<V> {
        match t {
            Ty::St(..) | Ty::Arr(..) => { let mut v = vec![]; for i in 0..t.nfields() { let (o, f) = t.field(i); v.push(self.load_ty(m, a.wrapping_add(o), f)?); } Ok(V::A(Arc::new(v))) }
            Ty::Vec(n, e) => {
                if e.bits() % 8 != 0 { let v = self.load(m, a, t.store_size() as u32, t.bits())?; return Ok(crate::exec::from_bits(&v, t)); }
                let mut v = vec![];
                for i in 0..*n { v.push(self.load(m, a.wrapping_add(i as u64 * e.store_size()), e.store_size() as u32, e.bits())?); }
                Ok(V::A(Arc::new(v)))
            }
            _ => self.load(m, a, t.store_size() as u32, t.bits()),
        }
    }
    pub fn store_ty(&mut self, a: u64, t: &Ty, v: &V) -> R<()> {
        match (t, v) {
            (Ty::St(..) | Ty::Arr(..), V::A(x)) => { for i in 0..t.nfields() { let (o, f) = t.field(i); self.store_ty(a.wrapping_add(o), f, &x[i])?; } Ok(()) }
            (Ty::Vec(n, e), V::A(x)) => {
                if e.bits() % 8 != 0 { return self.store(a, t.store_size() as u32, t.bits(), &crate::exec::to_bits(v, t)); }
                for i in 0..*n { self.store(a.wrapping_add(i as u64 * e.store_size()), e.store_size() as u32, e.bits(), &x[i as usize])?; }
                Ok(())
            }
            _ => self.store(a, t.store_size() as u32, t.bits(), v),
        }
    }
    pub fn copy(&mut self, m: &Module, dst: u64, src: u64, n: u64) -> R<()> {
        if n == 0 { return Ok(()); }
        let (bytes, syms) = {
            let (d, o, sym) = self.rd(m, src, n)?;
            let s: Vec<(u32, (E, u8))> = sym.map(|s| s.range(o as u32..(o as u64 + n) as u32).map(|(k, v)| (*k - o as u32, v.clone())).collect()).unwrap_or_default();
            if n <= 64 {
                let mut b = [0u8; 64];
                b[..n as usize].copy_from_slice(&d[o..o + n as usize]);
                if s.is_empty() {
                    let (ob, o) = self.wr(dst, n)?;
                    ob.data[o..o + n as usize].copy_from_slice(&b[..n as usize]);
                    if ob.sym.is_some() { clear_sym(ob, o, n as usize); }
                    return Ok(());
                }
            }
            (d[o..o + n as usize].to_vec(), s)
        };
        let (ob, o) = self.wr(dst, n)?;
        ob.data[o..o + n as usize].copy_from_slice(&bytes);
        if ob.sym.is_some() { clear_sym(ob, o, n as usize); }
        for (k, (e, b)) in syms { ob.sym.get_or_insert_with(Default::default).insert(o as u32 + k, (e, b)); }
        Ok(())
    }
    pub fn set(&mut self, dst: u64, v: &V, n: u64) -> R<()> {
        if n == 0 { return Ok(()); }
        let (ob, o) = self.wr(dst, n)?;
        match v {
            V::I(x) => { ob.data[o..o + n as usize].fill(*x as u8); if ob.sym.is_some() { clear_sym(ob, o, n as usize); } }
            v => { let e = v.to_e(8); for k in 0..n as u32 { put_byte(ob, o as u32 + k, &e, 0); } }
        }
        Ok(())
    }
    /// Byte as a value (8 bits).
    pub fn byte(&self, m: &Module, a: u64) -> R<V> { self.load(m, a, 1, 8) }
    pub fn bytes(&self, m: &Module, a: u64, n: u64) -> R<Vec<u8>> {
        if n == 0 { return Ok(vec![]); }
        let (d, o, sym) = self.rd(m, a, n)?;
        let mut v = d[o..o + n as usize].to_vec();
        if let Some(s) = sym { for (k, _) in s.range(o as u32..(o as u64 + n) as u32) { v[*k as usize - o] = b'?'; } }
        Ok(v)
    }
    pub fn write_bytes(&mut self, a: u64, b: &[u8]) -> R<()> {
        if b.is_empty() { return Ok(()); }
        let (ob, o) = self.wr(a, b.len() as u64)?;
        ob.data[o..o + b.len()].copy_from_slice(b);
        clear_sym(ob, o, b.len());
        Ok(())
    }
}

fn clear_sym(ob: &mut Obj, o: usize, n: usize) {
    if let Some(s) = &mut ob.sym {
        let ks: Vec<u32> = s.range(o as u32..(o + n) as u32).map(|(k, _)| *k).collect();
        for k in ks { s.remove(&k); }
        if s.is_empty() { ob.sym = None; }
    }
}
fn put_byte(ob: &mut Obj, off: u32, e: &E, k: u32) {
    // constant bytes of a symbolic value are stored as constants
    if e.op == Op::Const || matches!(e.op, Op::ZExt | Op::Concat) {
        let x = extract(e, k * 8, 8);
        if let Some(c) = x.c() {
            ob.data[off as usize] = c as u8;
            if let Some(s) = &mut ob.sym { s.remove(&off); if s.is_empty() { ob.sym = None; } }
            return;
        }
        ob.data[off as usize] = 0;
        ob.sym.get_or_insert_with(Default::default).insert(off, if x.w == e.w { (e.clone(), 0) } else { (x, 0) });
        return;
    }
    ob.data[off as usize] = 0;
    ob.sym.get_or_insert_with(Default::default).insert(off, (e.clone(), k as u8));
}
fn sym_load(d: &[u8], s: &BTreeMap<u32, (E, u8)>, o: usize, n: u32, w: u32) -> V {
    let first = s.get(&(o as u32));
    // whole value stored in one piece
    if let Some((e, 0)) = first {
        if e.w == n * 8 && (1..n).all(|k| s.get(&(o as u32 + k)).is_some_and(|(f, b)| *b as u32 == k && same(e, f))) {
            return V::of(extract(e, 0, w));
        }
    }
    let mut acc: Option<E> = None;
    for k in 0..n {
        let b = match s.get(&(o as u32 + k)) { Some((e, b)) => extract(e, *b as u32 * 8, 8), None => cst(d[o + k as usize] as u128, 8) };
        acc = Some(match acc { None => b, Some(a) => concat(&b, &a) });
    }
    let e = acc.unwrap();
    V::of(extract(&e, 0, w))
}
