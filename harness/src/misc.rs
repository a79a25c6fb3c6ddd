//! Not part of any check: what refactored code could use, to see whether the engine copes with it.
use crate::util::*;
use std::collections::*;

fn val() -> u64 { vh::u64("x") }
harness! {
    m_hashmap { let x = val(); vh::assume(x < 1000); let mut m = HashMap::new(); for i in 0..20u64 { m.insert(i, i * 2); } m.insert(x, 7); vh::check(m[&x] == 7, "hm"); let mut s: HashSet<String> = HashSet::new(); for i in 0..10 { s.insert(format!("k{i}")); } vh::check(s.contains("k3") && !s.contains("k33"), "hs"); m.retain(|k, _| k % 2 == 0); vh::check(m.len() >= 10, "ret"); vh::cover("done"); }
    m_btree { let x = val(); let mut m = BTreeMap::new(); for i in 0..20u64 { m.insert(i * 10, i); } m.insert(x, 7); vh::check(m.range(x..).next() == Some((&x, &7)), "bt"); let (k, _) = m.pop_first().unwrap(); vh::check(k == 0, "first"); vh::cover("done"); }
    m_sort { let mut v: Vec<u64> = (0..30).map(|i| (i * 7919) % 31).collect(); v.sort(); v.dedup(); vh::check(v.windows(2).all(|w| w[0] < w[1]), "sorted"); let mut w: Vec<(u64, String)> = (0..25).map(|i| ((i * 13) % 17, format!("{i}"))).collect(); w.sort_by_key(|x| x.0); w.sort_unstable_by(|a, b| b.1.cmp(&a.1)); vh::check(w.len() == 25, "len"); vh::check(v.binary_search(&5).is_ok(), "bs"); vh::cover("done"); }
    m_sort_sym { let mut v = vec![vh::u8("a"), vh::u8("b"), vh::u8("c"), vh::u8("d")]; v.sort_unstable(); vh::check(v[0] <= v[1] && v[2] <= v[3], "sorted"); vh::cover("done"); }
    m_heap { let mut h = BinaryHeap::new(); for i in [5u64, 3, 9, 1, val()] { h.push(std::cmp::Reverse(i)); } let a = h.pop().unwrap().0; let b = h.pop().unwrap().0; vh::check(a <= b, "heap"); vh::cover("done"); }
    m_float { let x = 1.5f64 * 3.25 + (vh::u8("n") as f64); let s = format!("{:.3} {x:?} {:e}", 2.0f64.sqrt(), 1234.5f64); vh::check(s.starts_with("1.414"), "fmt"); let d = Duration::from_secs_f64(1.25).mul_f64(2.0); vh::check(d.as_millis() == 2500, "dur"); let p: f64 = "3.75".parse().unwrap(); vh::check(p == 3.75 && x.floor() <= x && x.powi(2) >= 0.0, "p"); vh::cover("done"); }
    m_u128 { let x = val() as u128 * 3; vh::check(x / 3 == val_of(x), "u128"); vh::check(format!("{}", u128::MAX).len() == 39, "fmt"); vh::cover("done"); }
    m_str { let s = "Hello, wörld, foo=bar;x"; vh::check(s.to_lowercase().contains("wörld"), "lc"); let v: Vec<&str> = s.split(", ").collect(); vh::check(v.len() == 3, "split"); vh::check(s.find("foo") == Some(15), "find"); vh::check(s.replace("o", "0").matches('0').count() == 3, "rep"); vh::check("42".parse::<i32>() == Ok(42) && "x".parse::<u8>().is_err(), "parse"); vh::check(s.char_indices().rev().next() == Some((s.len() - 1, 'x')), "ci"); let t: String = s.chars().filter(|c| c.is_alphanumeric()).map(|c| c.to_ascii_uppercase()).collect(); vh::check(t.len() > 5, "t"); vh::check(String::from_utf8_lossy(b"a\xff").len() == 4, "lossy"); vh::check(s.trim_end_matches('x').ends_with(';'), "trim"); vh::cover("done"); }
    m_tokio_sync { let r = run(async {
        let (tx, mut rx) = tokio::sync::mpsc::channel::<u64>(2); let (otx, orx) = tokio::sync::oneshot::channel(); let (btx, mut brx) = tokio::sync::broadcast::channel(4);
        let sem = Arc::new(tokio::sync::Semaphore::new(1)); let m = Arc::new(tokio::sync::Mutex::new(0u64)); let rw = tokio::sync::RwLock::new(5); let x = val();
        let b = Arc::new(tokio::sync::Barrier::new(2));
        let h = { let (sem, m, b) = (sem.clone(), m.clone(), b.clone()); tokio::spawn(async move { for i in 0..5 { tx.send(i).await.unwrap(); } let _p = sem.acquire().await.unwrap(); *m.lock().await += 1; btx.send(x).unwrap(); drop(tx); b.wait().await; otx.send(3).unwrap(); }) };
        let mut n = 0; while let Some(v) = rx.recv().await { vh::check(v == n, "order"); n += 1; } b.wait().await; vh::check(orx.await == Ok(3), "os"); vh::check(brx.recv().await == Ok(x), "bc"); h.await.unwrap(); vh::check(*m.lock().await == 1 && *rw.read().await == 5, "m");
        let mut js = tokio::task::JoinSet::new(); for i in 0..4 { js.spawn(async move { yield_now().await; i }); } let mut s = 0; while let Some(r) = js.join_next().await { s += r.unwrap(); } vh::check(s == 6, "js");
        let (utx, mut urx) = tokio::sync::mpsc::unbounded_channel(); utx.send(1).unwrap(); drop(utx); vh::check(urx.recv().await == Some(1) && urx.recv().await.is_none(), "u");
        let oc = tokio::sync::OnceCell::new(); vh::check(*oc.get_or_init(|| async { 9 }).await == 9, "oc");
        let mut iv = tokio::time::interval(Duration::from_millis(10)); iv.tick().await; iv.tick().await;
        vh::check(tokio::time::timeout(Duration::from_millis(5), std::future::pending::<()>()).await.is_err(), "to");
        let t = tokio::task::spawn_blocking(move || x.wrapping_add(1)).await.unwrap(); vh::check(t == x.wrapping_add(1), "sb");
    }); vh::check(r.is_some(), "hang"); vh::cover("done"); }
    m_futures { let r = run(async {
        let mut fu: futures::stream::FuturesUnordered<_> = (0..5u64).map(|i| async move { yield_now().await; i }).collect(); let mut s = 0; while let Some(i) = fu.next().await { s += i; } vh::check(s == 10, "fu");
        let v = futures::future::join_all((0..4).map(|i| async move { i * 2 })).await; vh::check(v == [0, 2, 4, 6], "ja"); let t = futures::future::try_join_all((0..40).map(|i| async move { if i < 50 { Ok(i) } else { Err(()) } })).await.unwrap(); vh::check(t.len() == 40, "tja");
        let (a, _, rest) = futures::future::select_all((0..3).map(|i| Box::pin(async move { i }))).await; vh::check(a == 0 && rest.len() == 2, "sa");
        let b: Vec<u64> = futures::stream::iter(0..8u64).map(|i| async move { i + 1 }).buffer_unordered(3).collect().await; vh::check(b.len() == 8, "bu"); let c: Vec<u64> = futures::stream::iter(0..8u64).map(|i| async move { i + 1 }).buffered(3).filter(|x| futures::future::ready(x % 2 == 0)).collect().await; vh::check(c == [2, 4, 6, 8], "b");
        futures::stream::iter(0..5).for_each_concurrent(2, |_| yield_now()).await;
        let mut st = futures::stream::FuturesOrdered::new(); for i in 1..3 { st.push_back(async move { i }); } vh::check(st.next().await == Some(1), "fo");
        let mut so = Box::pin(futures::stream::unfold(0, |s| async move { if s < 3 { Some((s, s + 1)) } else { None } })); let mut k = 0; while let Some(x) = so.next().await { vh::check(x == k, "uf"); k += 1; }
        let mut z = futures::stream::iter([1, 2]).chain(futures::stream::once(async { 3 }).boxed()).zip(futures::stream::repeat(9)).enumerate().peekable(); Pin::new(&mut z).peek().await; vh::check(z.next().await == Some((0, (1, 9))), "z");
        let sh = async { 5 }.shared(); vh::check(sh.clone().await + sh.await == 10, "sh"); let (f, h) = futures::future::abortable(std::future::pending::<()>()); h.abort(); vh::check(f.await.is_err(), "ab");
        let m = futures::lock::Mutex::new(1); *m.lock().await += 1; vh::check(*m.lock().await == 2, "fm"); let cu = std::panic::AssertUnwindSafe(async { panic!("x") }).catch_unwind().await; vh::check(cu.is_err(), "cu");
        futures::select_biased! { a = async { 1 }.fuse() => vh::check(a == 1, "sb"), _ = futures::future::pending::<()>().fuse() => vh::check(false, "p") }
    }); vh::check(r.is_some(), "hang"); vh::cover("done"); }
    m_std_sync { let (tx, rx) = std::sync::mpsc::channel(); let x = val(); let h = std::thread::spawn(move || { tx.send(x).unwrap(); x }); vh::check(rx.recv() == Ok(x), "rx"); vh::check(h.join().unwrap() == x, "join"); static L: std::sync::OnceLock<String> = std::sync::OnceLock::new(); vh::check(L.get_or_init(|| "a".into()) == "a", "ol"); static Z: std::sync::LazyLock<Vec<u8>> = std::sync::LazyLock::new(|| vec![1]); vh::check(Z.len() == 1, "ll"); let rw = std::sync::RwLock::new(1); { *rw.write().unwrap() = 2; } vh::check(*rw.read().unwrap() == 2, "rw"); let (a, b) = (std::sync::Condvar::new(), std::sync::Mutex::new(())); let g = b.lock().unwrap(); let (_g, t) = a.wait_timeout(g, Duration::from_millis(1)).unwrap(); vh::check(t.timed_out(), "cv"); std::thread::scope(|s| { let j = s.spawn(|| 4); vh::check(j.join().unwrap() == 4, "sc"); }); let w = Arc::downgrade(&Arc::new(1)); vh::check(w.upgrade().is_none(), "weak"); vh::cover("done"); }
    m_vec { let mut v: Vec<u64> = (0..50).collect(); v.rotate_left(7); v.swap(0, 3); let d: Vec<u64> = v.drain(5..15).collect(); v.splice(0..2, d.iter().copied()); v.truncate(30); v.extend_from_slice(&d); v.chunks(7).for_each(|c| vh::check(c.len() <= 7, "ch")); let (a, b) = v.split_at(10); vh::check(a.iter().chain(b).sum::<u64>() > 0, "sum"); let m = v.iter().max_by_key(|x| **x % 17).unwrap(); vh::check(*m < 100, "max"); let p = v.iter().partition::<Vec<u64>, _>(|x| **x > 20); vh::check(p.0.len() + p.1.len() == v.len(), "part"); let mut dq: VecDeque<u64> = v.iter().copied().collect(); dq.rotate_right(3); dq.retain(|x| x % 3 == 0); dq.make_contiguous().sort(); vh::check(dq.iter().zip(dq.iter().skip(1)).all(|(a, b)| a <= b), "dq"); let t: u64 = v.iter().rev().step_by(3).take_while(|x| **x < 90).fold(0, |a, x| a ^ x); vh::log("t", t); let arr = [3u32; 16]; vh::check(arr.map(|x| x + 1).iter().all(|x| *x == 4), "arr"); vh::check([1, 2, 3].concat_check(), "c"); vh::cover("done"); }
    m_sym_vec { let v: Vec<u32> = (0..6).map(|_| vh::u32("v")).collect(); let s: u32 = v.iter().fold(0, |a, b| a.wrapping_add(*b)); let t: u32 = v.iter().rev().fold(0, |a, b| a.wrapping_add(*b)); vh::check(s == t, "comm"); let c = v.iter().filter(|x| **x > 10).count(); vh::check(c <= 6, "c"); vh::check(v.iter().max().unwrap() >= v.iter().min().unwrap(), "mm"); let h = v.iter().map(|x| x.count_ones() + x.leading_zeros() + x.trailing_zeros()).max(); vh::check(h < Some(100), "h"); vh::check(v[0].checked_add(v[1]).map_or(true, |z| z >= v[0]), "ca"); vh::check(v[0].saturating_sub(v[1]) <= v[0] && v[2].swap_bytes().swap_bytes() == v[2] && v[3].reverse_bits().reverse_bits() == v[3], "ops"); vh::cover("done"); }
    m_any { let b: Box<dyn std::any::Any> = Box::new(5u32); vh::check(b.downcast_ref::<u32>() == Some(&5), "any"); let e: anyhow::Error = anyhow::anyhow!("a").context("b"); vh::check(format!("{e:#}") == "b: a" && format!("{e:?}").contains("Caused by"), "ah"); let r = std::panic::catch_unwind(|| { let v: Vec<u8> = vec![]; v[vh::u8("i") as usize] }); vh::check(r.is_err(), "cu"); let n = std::any::type_name::<Vec<u8>>(); vh::check(n.contains("Vec"), "tn"); let io = std::io::Error::new(std::io::ErrorKind::Other, "x"); vh::check(io.to_string() == "x", "io"); let mut w = std::io::Cursor::new(vec![]); std::io::Write::write_all(&mut w, b"abc").unwrap(); vh::check(w.into_inner() == b"abc", "cur"); vh::check(std::env::var("NOPE_X").is_err(), "env"); let c = std::cell::RefCell::new(1); *c.borrow_mut() += 1; vh::check(c.try_borrow().is_ok(), "rc"); vh::cover("done"); }
    m_hash { use std::hash::*; let mut h = std::collections::hash_map::DefaultHasher::new(); "abc".hash(&mut h); val().hash(&mut h); let a = h.finish(); vh::check(a == a, "h"); let st = RandomState::new(); vh::check(st.hash_one(5) == st.hash_one(5), "rs"); vh::cover("done"); }
    m_time { let t = std::time::Instant::now(); vh::advance(5_000_000); vh::check(t.elapsed() >= Duration::from_millis(5), "el"); let s = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH); vh::check(s.is_ok(), "st"); let d = Duration::from_millis(1500); vh::check(format!("{d:?}") == "1.5s", "dbg"); std::thread::sleep(Duration::from_millis(1)); vh::cover("done"); }
    m_bytes { let mut b = bytes::BytesMut::new(); b.extend_from_slice(b"hello"); let f = b.split_to(2).freeze(); vh::check(&f[..] == b"he" && f.clone().slice(1..).len() == 1, "b"); let x = vh::u32("x"); let y = u32::from_le_bytes(x.to_be_bytes()).swap_bytes(); vh::check(x == y, "bytes"); let mut a = [0u8; 64]; a[..4].copy_from_slice(&x.to_le_bytes()); a.reverse(); vh::check(a[63] == x as u8, "rev"); vh::check(a.iter().map(|b| *b as u32).sum::<u32>() <= 64 * 255, "sum"); vh::cover("done"); }
    m_print { println!("x {}", 5); eprintln!("y"); let _ = format!("{:#?} {:>8} {:<5}| {:^7} {:08x} {:+} {:?}", vec![Some(1), None], "a", 3, "m", 255, 7, "q\"\n"); vh::cover("done"); }
}
fn val_of(x: u128) -> u128 { x / 3 }
trait C { fn concat_check(&self) -> bool; }
impl C for [i32; 3] { fn concat_check(&self) -> bool { [&self[..], &[4][..]].concat() == [1, 2, 3, 4] && ["a", "b"].join("-") == "a-b" } }
