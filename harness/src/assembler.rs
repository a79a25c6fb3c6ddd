//! C14: the range assembler.
use crate::util::*;
use paladin::contiguous::{Contiguous, ContiguousQueue};

#[derive(Clone, Copy, PartialEq)]
struct R { lo: u8, hi: u8, id: u8 }
impl Contiguous for R {
    type Key = u8;
    fn is_contiguous(&self, o: &R) -> bool { self.hi.checked_add(1) == Some(o.lo) || o.hi.checked_add(1) == Some(self.lo) }
    fn key(&self) -> &u8 { &self.lo }
}
fn fresh(all: &[R], id: u8) -> R {
    let (lo, hi) = (vh::u8("lo"), vh::u8("hi"));
    vh::assume(lo <= hi);
    for o in all { vh::assume((hi < o.lo) | (o.hi < lo)); }
    R { lo, hi, id }
}
/// `k` offers of arbitrary, pairwise disjoint ranges; combined pairs are offered again.
fn offers(k: usize, recombine: bool, remove: bool, initial: usize) {
    let mut live: Vec<R> = vec![];    // stored, by the reference
    let mut all: Vec<R> = vec![];     // everything whose range is taken
    let mut init = vec![];
    for i in 0..initial { let r = fresh(&all, 100 + i as u8); all.push(r); live.push(r); init.push(r); }
    let q: ContiguousQueue<R> = if initial > 0 { ContiguousQueue::from(init) } else if vh::bool("default") { ContiguousQueue::default() } else { ContiguousQueue::new() };
    let mut again: Option<R> = None;
    let mut made = 0;
    let mut id = 0;
    while made < k || again.is_some() {
        if remove && !live.is_empty() && vh::bool("remove") {
            let i = vh::choice(live.len() as u32, "which") as usize;
            let r = live.remove(i);
            vh::check(q.dequeue(&r.lo) == Some(r), "a stored item cannot be removed by its key");
            vh::check(q.dequeue(&r.lo).is_none(), "a removed item is still stored");
            all.retain(|x| x.id != r.id);
            vh::cover("removed");
        }
        let r = match again.take() {
            Some(r) => r,
            None => { made += 1; let r = fresh(&all, id); all.push(r); r }
        };
        id += 1;
        let adjacent: Vec<R> = live.iter().copied().filter(|o| r.is_contiguous(o)).collect();
        match q.acquire_contiguous_pair_or_queue(r) {
            Some((a, b)) => {
                vh::check(a.lo <= b.lo, "a pair is not in order");
                vh::check((a == r) != (b == r), "a pair does not consist of the item offered and one other");
                let o = if a == r { b } else { a };
                vh::check(a.is_contiguous(&b), "a pair is not adjacent");
                let pos = live.iter().position(|x| *x == o);
                vh::check(pos.is_some(), "a pair contains an item that is not stored");
                live.remove(pos.unwrap());
                vh::cover(if a == r { "upper neighbour" } else { "lower neighbour" });
                if adjacent.len() == 2 { vh::cover("both neighbours"); }
                if recombine { let m = R { lo: a.lo, hi: b.hi, id: 50 + id }; all.retain(|x| x.id != a.id && x.id != b.id); all.push(m); again = Some(m); }
            }
            None => {
                vh::check(adjacent.is_empty(), "an adjacent stored item is overlooked");
                live.push(r);
                vh::cover("stored");
            }
        }
    }
    // Conservation: what the reference has stored, and nothing else, can be taken out.
    for r in &live { vh::check(q.dequeue(&r.lo) == Some(*r), "an item is lost"); }
    let probe = vh::u8("probe");
    vh::check(q.dequeue(&probe).is_none(), "an item is stored twice or was never offered");
    vh::cover("done");
}
/// Wide keys.
#[derive(Clone, Copy, PartialEq)]
struct W(u64, u64);
impl Contiguous for W {
    type Key = u64;
    fn is_contiguous(&self, o: &W) -> bool { self.1.checked_add(1) == Some(o.0) || o.1.checked_add(1) == Some(self.0) }
    fn key(&self) -> &u64 { &self.0 }
}
fn wide() {
    let q: ContiguousQueue<W> = ContiguousQueue::new();
    let a = W(vh::u64("a"), vh::u64("a2"));
    let b = W(vh::u64("b"), vh::u64("b2"));
    vh::assume(a.0 <= a.1);
    vh::assume(b.0 <= b.1);
    vh::assume((a.1 < b.0) | (b.1 < a.0));
    vh::check(q.acquire_contiguous_pair_or_queue(a).is_none(), "a pair contains an item that is not stored");
    match q.acquire_contiguous_pair_or_queue(b) {
        Some((x, y)) => { vh::check(a.is_contiguous(&b), "a pair is not adjacent"); vh::check(if a.0 < b.0 { x == a && y == b } else { x == b && y == a }, "a pair is not in order"); vh::cover("paired"); }
        None => { vh::check(!a.is_contiguous(&b), "an adjacent stored item is overlooked"); vh::cover("stored"); }
    }
    vh::cover("done");
}
/// find, queue and dequeue one by one.
fn find() {
    use paladin::contiguous::ContiguousQueue as Q;
    let q: Q<R> = Q::new();
    let mut all = vec![];
    for i in 0..2 { let r = fresh(&all, i); vh::assume(all.iter().all(|o: &R| !o.is_contiguous(&r))); q.queue(r); all.push(r); }
    let r = fresh(&all, 9);
    let found = q.find_contiguous(&r).is_some();
    vh::check(found == all.iter().any(|o| o.is_contiguous(&r)), "an adjacent stored item is overlooked");
    let left = all.iter().filter(|o| q.dequeue(&o.lo) == Some(**o)).count();
    vh::check(left == if found { 1 } else { 2 }, "looking up removes another number of items than it returns");
    vh::check(q.dequeue(&r.lo).is_none(), "looking up stores the item");
    vh::cover("done");
}

harness! {
    asm_2 { offers(2, false, false, 0) }
    asm_3 { offers(3, false, false, 0) }
    asm_4 { offers(4, false, false, 0) }
    asm_5 { offers(5, false, false, 0) }
    asm_join3 { offers(3, true, false, 0) }
    asm_join4 { offers(4, true, false, 0) }
    asm_join5 { offers(5, true, false, 0) }
    asm_remove3 { offers(3, false, true, 0) }
    asm_remove4 { offers(4, true, true, 0) }
    asm_initial { offers(2, true, false, 2) }
    asm_initial3 { offers(2, true, false, 3) }
    asm_wide { wide() }
    asm_find { find() }
}
