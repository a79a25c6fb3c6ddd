//! Bit-vector expressions (immutable DAG) with local simplification.
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
pub enum Op { Const, Var, Add, Sub, Mul, UDiv, URem, SDiv, SRem, And, Or, Xor, Shl, LShr, AShr, Eq, Ult, Ule, Slt, Sle, Ite, Concat, Extract, ZExt, SExt }
use Op::*;

pub struct Expr { pub op: Op, pub w: u32, pub k: u128, pub a: Vec<E>, pub h: u128, pub supp: [u64; 2], pub size: u32 }
pub type E = Arc<Expr>;

pub fn mask(w: u32) -> u128 { if w >= 128 { !0 } else { (1u128 << w) - 1 } }
pub fn sext(v: u128, w: u32) -> i128 { if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) } }
fn mix(mut x: u64) -> u64 { x ^= x >> 32; x = x.wrapping_mul(0xd6e8feb86659fd93); x ^= x >> 32; x = x.wrapping_mul(0xd6e8feb86659fd93); x ^ (x >> 32) }
pub fn hash_mix(h: u128, v: u64) -> u128 {
    let a = mix((h as u64) ^ v.wrapping_mul(0x9e3779b97f4a7c15));
    let b = mix(((h >> 64) as u64).wrapping_add(v).wrapping_mul(0xff51afd7ed558ccd) ^ 0x1234567);
    ((b as u128) << 64) | a as u128
}

fn node(op: Op, w: u32, k: u128, a: Vec<E>) -> E {
    let mut h = hash_mix(op as u128 + 77, w as u64);
    h = hash_mix(h, k as u64);
    h = hash_mix(h, (k >> 64) as u64);
    let mut supp = [0u64; 2];
    let mut size = 1u32;
    for x in &a {
        h = hash_mix(h, x.h as u64);
        h = hash_mix(h, (x.h >> 64) as u64);
        supp[0] |= x.supp[0];
        supp[1] |= x.supp[1];
        size = size.saturating_add(x.size);
    }
    if op == Var { let b = (k % 128) as usize; supp[b / 64] |= 1 << (b % 64); }
    Arc::new(Expr { op, w, k, a, h, supp, size })
}

pub fn cst(v: u128, w: u32) -> E { node(Const, w, v & mask(w), vec![]) }
pub fn var(idx: u32, w: u32) -> E { node(Var, w, idx as u128, vec![]) }
pub fn same(a: &E, b: &E) -> bool { Arc::ptr_eq(a, b) || a.h == b.h }
impl Expr {
    pub fn c(&self) -> Option<u128> { if self.op == Const { Some(self.k) } else { None } }
}

pub fn fold(op: Op, w: u32, a: u128, b: u128) -> u128 {
    let m = mask(w);
    let r = match op {
        Add => a.wrapping_add(b),
        Sub => a.wrapping_sub(b),
        Mul => a.wrapping_mul(b),
        UDiv => if b == 0 { m } else { a / b },
        URem => if b == 0 { a } else { a % b },
        SDiv => { let (x, y) = (sext(a, w), sext(b, w)); if y == 0 { if x < 0 { 1 } else { m } } else { x.wrapping_div(y) as u128 } }
        SRem => { let (x, y) = (sext(a, w), sext(b, w)); if y == 0 { a } else { x.wrapping_rem(y) as u128 } }
        And => a & b,
        Or => a | b,
        Xor => a ^ b,
        Shl => if b >= w as u128 { 0 } else { a << b },
        LShr => if b >= w as u128 { 0 } else { a >> b },
        AShr => { let x = sext(a, w); (x >> b.min(127).min(w as u128)) as u128 }
        Eq => return (a == b) as u128,
        Ult => return (a < b) as u128,
        Ule => return (a <= b) as u128,
        Slt => return (sext(a, w) < sext(b, w)) as u128,
        Sle => return (sext(a, w) <= sext(b, w)) as u128,
        _ => unreachable!(),
    };
    r & m
}

pub fn not1(a: &E) -> E {
    if let Some(c) = a.c() { return cst(c ^ 1, 1); }
    if a.op == Xor && a.w == 1 { if a.a[1].c() == Some(1) { return a.a[0].clone(); } }
    match a.op {
        Ult => return bin(Ule, &a.a[1], &a.a[0]),
        Ule => return bin(Ult, &a.a[1], &a.a[0]),
        Slt => return bin(Sle, &a.a[1], &a.a[0]),
        Sle => return bin(Slt, &a.a[1], &a.a[0]),
        _ => {}
    }
    node(Xor, 1, 0, vec![a.clone(), cst(1, 1)])
}

/// Number of low bits that can be non-zero.
fn active(a: &E) -> u32 {
    match a.op {
        Const => 128 - a.k.leading_zeros(),
        ZExt => active(&a.a[0]),
        Concat => if a.a[0].c() == Some(0) { active(&a.a[1]) } else { a.w },
        And => active(&a.a[0]).min(active(&a.a[1])),
        _ => a.w,
    }
}
/// Number of low bits known to be zero.
fn low_zeros(a: &E) -> u32 {
    match a.op {
        Const => if a.k == 0 { a.w } else { a.k.trailing_zeros() },
        Concat => { let l = low_zeros(&a.a[1]); if l == a.a[1].w { l + low_zeros(&a.a[0]) } else { l } }
        ZExt => { let l = low_zeros(&a.a[0]); if l == a.a[0].w { a.w } else { l } }
        _ => 0,
    }
}

pub fn bin(op: Op, a: &E, b: &E) -> E {
    let w = a.w;
    debug_assert_eq!(a.w, b.w);
    let cmp = matches!(op, Eq | Ult | Ule | Slt | Sle);
    let rw = if cmp { 1 } else { w };
    if let (Some(x), Some(y)) = (a.c(), b.c()) { return cst(fold(op, w, x, y), rw); }
    // constants to the right for commutative operators
    if matches!(op, Add | Mul | And | Or | Xor | Eq) && a.op == Const { return bin(op, b, a); }
    let m = mask(w);
    if let Some(c) = b.c() {
        match op {
            Add | Sub | Or | Xor | Shl | LShr | AShr if c == 0 => return a.clone(),
            Mul if c == 1 => return a.clone(),
            UDiv if c == 1 => return a.clone(),
            Mul | And if c == 0 => return cst(0, w),
            And if c == m => return a.clone(),
            Or if c == m => return cst(m, w),
            Sub => return bin(Add, a, &cst(c.wrapping_neg(), w)),
            Add => if a.op == Add { if let Some(c1) = a.a[1].c() { return bin(Add, &a.a[0], &cst(c.wrapping_add(c1), w)); } },
            Xor => {
                if w == 1 { return not1(a); }
                if a.op == Xor { if let Some(c1) = a.a[1].c() { return bin(Xor, &a.a[0], &cst(c ^ c1, w)); } }
            }
            And => {
                if (c & (c.wrapping_add(1))) == 0 { // low mask
                    let k = 128 - c.leading_zeros();
                    return zext(&extract(a, 0, k), w);
                }
                let tz = c.trailing_zeros();
                let sc = c >> tz;
                if (sc & (sc.wrapping_add(1))) == 0 { // contiguous mask
                    let k = 128 - sc.leading_zeros();
                    return zext(&concat(&extract(a, tz, k), &cst(0, tz)), w);
                }
                if a.op == And { if let Some(c1) = a.a[1].c() { return bin(And, &a.a[0], &cst(c & c1, w)); } }
            }
            Mul if c.is_power_of_two() => return bin(Shl, a, &cst(c.trailing_zeros() as u128, w)),
            UDiv if c.is_power_of_two() => return bin(LShr, a, &cst(c.trailing_zeros() as u128, w)),
            URem if c.is_power_of_two() => return bin(And, a, &cst(c - 1, w)),
            Shl => { if c >= w as u128 { return cst(0, w); } let c = c as u32; return concat(&extract(a, 0, w - c), &cst(0, c)); }
            LShr => { if c >= w as u128 { return cst(0, w); } let c = c as u32; return zext(&extract(a, c, w - c), w); }
            Eq => {
                if w == 1 { return if c == 1 { a.clone() } else { not1(a) }; }
                match a.op {
                    ZExt => { let iw = a.a[0].w; return if c >> iw != 0 { cst(0, 1) } else { bin(Eq, &a.a[0], &cst(c, iw)) }; }
                    SExt => { let iw = a.a[0].w; let t = c & mask(iw); return if (sext(t, iw) as u128) & m != c { cst(0, 1) } else { bin(Eq, &a.a[0], &cst(t, iw)) }; }
                    Concat => {
                        let lw = a.a[1].w;
                        let h = bin(Eq, &a.a[0], &cst(c >> lw, a.a[0].w));
                        let l = bin(Eq, &a.a[1], &cst(c, lw));
                        return bin(And, &h, &l);
                    }
                    Add => if let Some(c1) = a.a[1].c() { return bin(Eq, &a.a[0], &cst(c.wrapping_sub(c1), w)); },
                    Xor => if let Some(c1) = a.a[1].c() { return bin(Eq, &a.a[0], &cst(c ^ c1, w)); },
                    Ite => {
                        let (x, y) = (&a.a[1], &a.a[2]);
                        if x.op == Const || y.op == Const {
                            let ex = bin(Eq, x, b);
                            let ey = bin(Eq, y, b);
                            return ite(&a.a[0], &ex, &ey);
                        }
                    }
                    _ => {}
                }
            }
            Ult => {
                if c == 0 { return cst(0, 1); }
                if c == 1 { return bin(Eq, a, &cst(0, w)); }
                let n = active(a);
                if n < w { return if c > mask(n) { cst(1, 1) } else { bin(Ult, &extract(a, 0, n), &cst(c, n)) }; }
            }
            Ule => {
                if c == m { return cst(1, 1); }
                return bin(Ult, a, &cst(c + 1, w));
            }
            _ => {}
        }
    }
    if let Some(c) = a.c() {
        match op {
            Shl | LShr | UDiv | URem if c == 0 => return cst(0, w),
            Ule if c == 0 => return cst(1, 1),
            Ult => {
                if c == m { return cst(0, 1); }
                if c == 0 { return not1(&bin(Eq, b, a)); }
                let n = active(b);
                if n < w { return if c >= mask(n) { cst(0, 1) } else { bin(Ult, &cst(c, n), &extract(b, 0, n)) }; }
            }
            Ule => { return bin(Ult, &cst(c - 1, w), b); }
            _ => {}
        }
    }
    if same(a, b) {
        match op {
            Sub | Xor => return cst(0, w),
            And | Or => return a.clone(),
            Eq | Ule | Sle => return cst(1, 1),
            Ult | Slt => return cst(0, 1),
            _ => {}
        }
    }
    if matches!(op, Eq | Ult | Ule) && a.op != Const && b.op != Const {
        let n = active(a).max(active(b)).max(1);
        if n < w { return bin(op, &extract(a, 0, n), &extract(b, 0, n)); }
        if op == Eq && w == 1 { return not1(&bin(Xor, a, b)); }
    }
    if matches!(op, Slt | Sle) && active(a) < w && active(b) < w {
        return bin(if op == Slt { Ult } else { Ule }, a, b);
    }
    if matches!(op, Or | Add | Xor) {
        // disjoint bits: assemble with concat
        for (x, y) in [(a, b), (b, a)] {
            let n = active(x);
            let z = low_zeros(y);
            if n <= z && n > 0 && z < w {
                return concat(&extract(y, z, w - z), &extract(x, 0, z));
            }
        }
        if op == Or && (a.op == Concat || b.op == Concat) && a.op != Const && b.op != Const {
            let lw = if a.op == Concat { a.a[1].w } else { b.a[1].w };
            let l = bin(Or, &extract(a, 0, lw), &extract(b, 0, lw));
            let h = bin(Or, &extract(a, lw, w - lw), &extract(b, lw, w - lw));
            return concat(&h, &l);
        }
    }
    if w == 1 && matches!(op, And | Or) {
        // x & !x
        if same(&not1(a), b) { return cst((op == Or) as u128, 1); }
    }
    node(op, rw, 0, vec![a.clone(), b.clone()])
}

pub fn ite(c: &E, a: &E, b: &E) -> E {
    if let Some(k) = c.c() { return if k == 1 { a.clone() } else { b.clone() }; }
    if same(a, b) { return a.clone(); }
    if a.w == 1 {
        match (a.c(), b.c()) {
            (Some(1), Some(0)) => return c.clone(),
            (Some(0), Some(1)) => return not1(c),
            (Some(1), None) => return bin(Or, c, b),
            (Some(0), None) => return bin(And, &not1(c), b),
            (None, Some(0)) => return bin(And, c, a),
            (None, Some(1)) => return bin(Or, &not1(c), a),
            _ => {}
        }
    }
    if c.op == Xor && c.w == 1 && c.a[1].c() == Some(1) { return ite(&c.a[0], b, a); }
    node(Ite, a.w, 0, vec![c.clone(), a.clone(), b.clone()])
}

pub fn extract(a: &E, lo: u32, n: u32) -> E {
    if lo == 0 && n == a.w { return a.clone(); }
    debug_assert!(lo + n <= a.w, "extract {lo} {n} of {}", a.w);
    if n == 0 { return node(Const, 0, 0, vec![]); }
    match a.op {
        Const => cst(a.k >> lo, n),
        Extract => extract(&a.a[0], lo + a.k as u32, n),
        Concat => {
            let lw = a.a[1].w;
            if lo >= lw { extract(&a.a[0], lo - lw, n) }
            else if lo + n <= lw { extract(&a.a[1], lo, n) }
            else { concat(&extract(&a.a[0], 0, lo + n - lw), &extract(&a.a[1], lo, lw - lo)) }
        }
        ZExt => {
            let iw = a.a[0].w;
            if lo >= iw { cst(0, n) }
            else if lo + n <= iw { extract(&a.a[0], lo, n) }
            else { zext(&extract(&a.a[0], lo, iw - lo), n) }
        }
        SExt => {
            let iw = a.a[0].w;
            if lo + n <= iw { extract(&a.a[0], lo, n) }
            else if lo < iw { sext_e(&extract(&a.a[0], lo, iw - lo), n) }
            else { node(Extract, n, lo as u128, vec![a.clone()]) }
        }
        And | Or | Xor => bin(a.op, &extract(&a.a[0], lo, n), &extract(&a.a[1], lo, n)),
        Add | Sub | Mul if lo == 0 => bin(a.op, &extract(&a.a[0], 0, n), &extract(&a.a[1], 0, n)),
        Ite => ite(&a.a[0], &extract(&a.a[1], lo, n), &extract(&a.a[2], lo, n)),
        _ => node(Extract, n, lo as u128, vec![a.clone()]),
    }
}

pub fn concat(h: &E, l: &E) -> E {
    if h.w == 0 { return l.clone(); }
    if l.w == 0 { return h.clone(); }
    let w = h.w + l.w;
    if let (Some(x), Some(y)) = (h.c(), l.c()) { if w <= 128 { return cst((x << l.w) | y, w); } }
    if h.c() == Some(0) { return zext(l, w); }
    if h.op == Extract && l.op == Extract && same(&h.a[0], &l.a[0]) && l.k as u32 + l.w == h.k as u32 {
        return extract(&h.a[0], l.k as u32, w);
    }
    if l.op == Extract && l.k == 0 && h.op == Extract && same(&h.a[0], &l.a[0]) && h.k as u32 == l.w { return extract(&h.a[0], 0, w); }
    // concat(h, concat(x, y)) with mergeable h,x
    if l.op == Concat && h.op == Extract && l.a[0].op == Extract && same(&h.a[0], &l.a[0].a[0]) && l.a[0].k as u32 + l.a[0].w == h.k as u32 {
        return concat(&concat(h, &l.a[0]), &l.a[1]);
    }
    if h.op == ZExt { return zext(&concat(&h.a[0], l), w); }
    node(Concat, w, 0, vec![h.clone(), l.clone()])
}
pub fn zext(a: &E, w: u32) -> E {
    if w == a.w { return a.clone(); }
    if let Some(c) = a.c() { return cst(c, w); }
    if a.op == ZExt { return zext(&a.a[0], w); }
    node(ZExt, w, 0, vec![a.clone()])
}
pub fn sext_e(a: &E, w: u32) -> E {
    if w == a.w { return a.clone(); }
    if let Some(c) = a.c() { return cst(sext(c, a.w) as u128, w); }
    if a.op == ZExt { return zext(&a.a[0], w); }
    node(SExt, w, 0, vec![a.clone()])
}

/// Evaluate under an assignment of the variables.
pub fn eval(e: &E, m: &dyn Fn(u32) -> u64) -> u128 {
    if e.size < 24 { return eval_plain(e, m); }
    let mut memo = HashMap::new();
    eval_memo(e, m, &mut memo)
}
fn eval_node(e: &E, m: &dyn Fn(u32) -> u64, f: &mut dyn FnMut(&E) -> u128) -> u128 {
    match e.op {
        Const => e.k,
        Var => m(e.k as u32) as u128 & mask(e.w),
        Ite => if f(&e.a[0]) == 1 { f(&e.a[1]) } else { f(&e.a[2]) },
        Concat => (f(&e.a[0]) << e.a[1].w) | f(&e.a[1]),
        Extract => (f(&e.a[0]) >> e.k) & mask(e.w),
        ZExt => f(&e.a[0]),
        SExt => sext(f(&e.a[0]), e.a[0].w) as u128 & mask(e.w),
        _ => { let x = f(&e.a[0]); let y = f(&e.a[1]); fold(e.op, e.a[0].w, x, y) }
    }
}
fn eval_plain(e: &E, m: &dyn Fn(u32) -> u64) -> u128 { eval_node(e, m, &mut |x| eval_plain(x, m)) }
fn eval_memo(e: &E, m: &dyn Fn(u32) -> u64, memo: &mut HashMap<*const Expr, u128>) -> u128 {
    if let Some(v) = memo.get(&Arc::as_ptr(e)) { return *v; }
    let v = eval_node(e, m, &mut |x| eval_memo(x, m, memo));
    memo.insert(Arc::as_ptr(e), v);
    v
}

/// `e` with some variables replaced by constants.
pub fn subst(e: &E, supp: &[u64; 2], m: &dyn Fn(u32) -> Option<u64>, memo: &mut HashMap<*const Expr, (E, E)>) -> E {
    if e.supp[0] & supp[0] | e.supp[1] & supp[1] == 0 { return e.clone(); }
    if let Some(r) = memo.get(&Arc::as_ptr(e)) { return r.1.clone(); }
    let r = match e.op {
        Const => e.clone(),
        Var => match m(e.k as u32) { Some(v) => cst(v as u128, e.w), None => e.clone() },
        _ => {
            let a: Vec<E> = e.a.iter().map(|x| subst(x, supp, m, memo)).collect();
            match e.op {
                Ite => ite(&a[0], &a[1], &a[2]),
                Concat => concat(&a[0], &a[1]),
                Extract => extract(&a[0], e.k as u32, e.w),
                ZExt => zext(&a[0], e.w),
                SExt => sext_e(&a[0], e.w),
                op => bin(op, &a[0], &a[1]),
            }
        }
    };
    memo.insert(Arc::as_ptr(e), (e.clone(), r.clone()));
    r
}
pub fn vars_of(e: &E, out: &mut Vec<u32>, seen: &mut std::collections::HashSet<*const Expr>) {
    if !seen.insert(Arc::as_ptr(e)) { return; }
    if e.op == Var { out.push(e.k as u32); }
    for a in &e.a { vars_of(a, out, seen); }
}

/// The bits of a variable that `c` fixes: (variable, mask, value).
pub fn fixes(c: &E) -> Option<(u32, u128, u128)> {
    fn part(e: &E, v: u128) -> Option<(u32, u128, u128)> {
        match e.op {
            Var => Some((e.k as u32, mask(e.w), v)),
            Extract if e.a[0].op == Var => Some((e.a[0].k as u32, mask(e.w) << e.k, v << e.k)),
            _ => None,
        }
    }
    if c.w != 1 { return None; }
    match c.op {
        Eq => part(&c.a[0], c.a[1].c()?),
        Xor if c.a[1].c() == Some(1) => part(&c.a[0], 0),
        Var | Extract => part(c, 1),
        _ => None,
    }
}
