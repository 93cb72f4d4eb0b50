//! Not part of any check: the executor against native code on much of the
//! standard library, so that a rewrite of the code under test that uses other
//! parts of it still runs.
use crate::sym::*;
use std::borrow::Cow;
use std::cell::{OnceCell, RefCell};
use std::collections::*;
use std::fmt::Write;
use std::rc::{Rc, Weak};
use std::sync::{Arc, Mutex, OnceLock, RwLock};

fn h(s: &str) { let mut x = 0xcbf29ce484222325u64; for b in s.bytes() { x = (x ^ b as u64).wrapping_mul(0x100000001b3); } digest(x) }
thread_local! { static TL: RefCell<Vec<u32>> = RefCell::new(Vec::new()); }
static ONCE: OnceLock<String> = OnceLock::new();
static MX: Mutex<Vec<u8>> = Mutex::new(Vec::new());
trait Shape { fn area(&self) -> u64; fn name(&self) -> String { "shape".into() } }
struct Sq(u64);
struct Ci(u64);
impl Shape for Sq { fn area(&self) -> u64 { self.0 * self.0 } }
impl Shape for Ci { fn area(&self) -> u64 { self.0 * 3 } fn name(&self) -> String { format!("circle {}", self.0) } }
fn text() -> String {
    let a = [0u8, 9, 10, 32, 45, 48, 65, 97, 98, 102, 127][pick(11)];
    let b = pick(8);
    let mut s = String::new();
    s.push((a & 0x7f) as char);
    s.push_str(["", "ab", "é", " x = 12 ", "A\u{301}b\r\nc", "foo::bar", "ẞß İ", "12.5e3"][b]);
    s
}
#[no_mangle]
pub extern "C" fn h_zz_str() {
    let s = text();
    h(&s.to_lowercase()); h(&s.to_uppercase()); h(s.trim()); h(s.trim_start_matches(|c: char| c.is_alphanumeric())); h(&s.replace('a', "bb")); h(&s.replace("ab", "x"));
    h(&s.chars().rev().collect::<String>()); h(&format!("{:?} {:>8} {:<8}| {:^9} {s:*^12}", s, s, s, s));
    h(&s.escape_debug().to_string()); h(&s.escape_unicode().to_string()); h(&s.escape_default().to_string());
    for p in s.split(' ') { h(p) } for p in s.split("::") { h(p) } for p in s.lines() { h(p) } for p in s.split_whitespace() { h(p) } for p in s.rsplitn(2, 'b') { h(p) } for p in s.split_inclusive('\n') { h(p) } for p in s.split(['a', 'b'].as_slice()) { h(p) }
    for (i, c) in s.char_indices() { digest(i as u64 + c as u64); digest(c.is_whitespace() as u64 | (c.is_numeric() as u64) << 1 | (c.is_control() as u64) << 2 | (c.is_uppercase() as u64) << 3 | (c.is_ascii_punctuation() as u64) << 4); digest(c.len_utf8() as u64 + c.to_digit(16).unwrap_or(99) as u64); }
    for m in s.match_indices('b') { digest(m.0 as u64) }
    digest(s.find("bar").map_or(9, |x| x as u64)); digest(s.rfind('b').map_or(9, |x| x as u64)); digest(s.find(char::is_whitespace).map_or(9, |x| x as u64)); digest(s.contains("o:") as u64); digest(s.starts_with("f") as u64 + s.ends_with("3") as u64 * 2);
    digest(s.parse::<i64>().map_or(7, |x| x as u64)); digest(s.trim().parse::<f64>().map_or(7, |x| x.to_bits())); digest(s.parse::<u8>().is_ok() as u64); digest(s.parse::<bool>().is_ok() as u64);
    digest(s.as_str().cmp("b") as i8 as u64); digest((s.as_str() < "c") as u64); digest(s.eq_ignore_ascii_case("ab") as u64);
    digest(s.encode_utf16().fold(0u64, |a, x| a * 31 + x as u64)); digest(s.bytes().filter(|b| b.is_ascii_digit()).count() as u64); digest(s.is_char_boundary(2) as u64);
    h(&s.chars().map(|c| c.to_string()).collect::<Vec<_>>().join("-")); h(&[s.as_str(), "x"].concat()); h(&s.repeat(3)); h(&String::from_utf8_lossy(&s.bytes().chain([0xff, 0x41]).collect::<Vec<u8>>()));
    if let Some((a, b)) = s.split_once('=') { h(a); h(b); }
    if let Some(r) = s.strip_prefix("f") { h(r) }
    let c: Cow<str> = if s.len() > 3 { Cow::Borrowed("b") } else { Cow::Owned(s.clone()) };
    h(&c); h(&c.into_owned());
    let mut t = s.clone(); t.insert(0, 'é'); t.truncate(t.char_indices().nth(2).map_or(t.len(), |x| x.0)); t.retain(|c| c != 'b'); t.extend(['x', 'y']); let _ = t.pop(); t.drain(..0); h(&t);
    let b: Box<str> = t.into_boxed_str(); h(&b); let r: Rc<str> = Rc::from(&*b); h(&r);
    end()
}
#[no_mangle]
pub extern "C" fn h_zz_coll() {
    let a: Vec<u32> = { let k = pick(25) as usize; (0..6).map(move |i| ((k * k + i * k * 13) * 7 + i * 31) as u32 % 97) }.collect();
    let mut v = a.clone(); v.sort(); for x in &v { digest(*x as u64) }
    let mut v = a.clone(); v.sort_unstable_by(|a, b| b.cmp(a)); v.dedup(); digest(v.len() as u64); digest(v[0] as u64);
    let mut big: Vec<u32> = (0..70).map(|i| (i * 37 + a[0]) % 53).collect(); big.sort(); digest(big[35] as u64); big.sort_by_key(|x| std::cmp::Reverse(*x % 10)); digest(big[3] as u64); big.sort_unstable(); digest(big[69] as u64); digest(big.binary_search(&20).is_ok() as u64); digest(big.partition_point(|x| *x < 25) as u64);
    digest(a.iter().max().copied().unwrap() as u64); digest(a.iter().min_by_key(|x| **x % 5).copied().unwrap() as u64); digest(a.iter().sum::<u32>() as u64); digest(a.iter().map(|x| *x as u64 % 7 + 1).product::<u64>());
    digest(a.iter().position(|x| *x > 50).map_or(99, |x| x as u64)); digest(a.iter().rposition(|x| *x > 50).map_or(99, |x| x as u64)); digest(a.iter().any(|x| *x == 3) as u64 + a.iter().all(|x| *x < 90) as u64 * 2);
    for w in a.windows(2) { digest(w[0].abs_diff(w[1]) as u64) } for c in a.chunks(4) { digest(c.len() as u64 + c[0] as u64) }
    for (x, y) in a.iter().zip(a.iter().skip(1).step_by(2)) { digest((x ^ y) as u64) }
    digest(a.iter().rev().take_while(|x| **x > 10).count() as u64); digest(a.iter().scan(0u32, |s, x| { *s += x; Some(*s) }).last().unwrap() as u64); digest(a.iter().flat_map(|x| vec![*x; 2]).filter_map(|x| if x % 2 == 0 { Some(x / 2) } else { None }).sum::<u32>() as u64);
    let (e, o): (Vec<u32>, Vec<u32>) = a.iter().partition(|x| **x % 2 == 0); digest(e.len() as u64 * 10 + o.len() as u64);
    let mut hm: HashMap<u32, Vec<usize>> = HashMap::new(); for (i, x) in a.iter().enumerate() { hm.entry(x % 8).or_default().push(i) } let mut k: Vec<_> = hm.keys().copied().collect(); k.sort(); for x in k { digest(x as u64 * 100 + hm[&x].len() as u64) }
    let hs: HashSet<u32> = a.iter().copied().collect(); digest(hs.len() as u64); digest(hs.contains(&5) as u64);
    let mut bm: BTreeMap<u32, usize> = BTreeMap::new(); for (i, x) in big.iter().enumerate() { bm.insert(*x ^ 5, i); } for (k, v) in bm.range(3..20) { digest((*k as u64) << 8 | *v as u64) } bm.remove(&7); digest(bm.len() as u64); digest(bm.first_key_value().map_or(0, |x| *x.0 as u64)); bm.retain(|k, _| k % 2 == 0); digest(bm.len() as u64);
    let bs: BTreeSet<&u32> = a.iter().collect(); digest(**bs.iter().next().unwrap() as u64);
    let mut q: VecDeque<u32> = a.iter().copied().collect(); q.rotate_left(2); q.push_front(9); q.pop_back(); for x in &q { digest(*x as u64) } q.make_contiguous().reverse(); digest(q[1] as u64);
    let mut hp: BinaryHeap<u32> = a.iter().copied().collect(); digest(hp.pop().unwrap() as u64); hp.push(100); digest(hp.into_sorted_vec()[2] as u64);
    let mut ll: LinkedList<u32> = a.iter().copied().collect(); ll.push_front(1); digest(ll.iter().sum::<u32>() as u64);
    let mut s = a.clone(); s.swap(0, 3); s.reverse(); s.rotate_right(1); s.insert(2, 5); s.remove(0); s.swap_remove(1); s.split_off(3); s.extend_from_slice(&a[1..3]); s.drain(1..2); s.retain_mut(|x| { *x += 1; *x % 3 != 0 }); s.resize(8, 7); s.fill(3); s.truncate(5); s.splice(1..3, [8, 9, 10]); for x in &s { digest(*x as u64) }
    let (l, r) = a.split_at(2); digest(l.len() as u64 + r[0] as u64); digest(a.first().zip(a.last()).map_or(0, |(a, b)| (a * b) as u64)); digest(a.concat_check());
    let sm = smallest(&a); digest(sm);
    if let [x, .., y] = a.as_slice() { digest((x + y) as u64) }
    if let [x, y, rest @ ..] = &a[..] { digest((x * y) as u64 + rest.len() as u64) }
    let arr: [u32; 6] = a.clone().try_into().unwrap(); digest(arr.map(|x| x + 1).iter().sum::<u32>() as u64); digest(std::array::from_fn::<u32, 4, _>(|i| i as u32 * a[0]).iter().sum::<u32>() as u64);
    digest((arr < [5, 5, 5, 5, 5, 5]) as u64); digest((a == arr) as u64); digest(a.iter().cmp(big.iter()) as i8 as u64);
    end()
}
trait CC { fn concat_check(&self) -> u64; }
impl CC for Vec<u32> { fn concat_check(&self) -> u64 { [&self[..2], &self[4..]].concat().iter().fold(0, |a, b| a * 3 + *b as u64) } }
fn smallest<T: Ord + Copy + Into<u64>>(v: &[T]) -> u64 { v.iter().copied().reduce(|a, b| if a < b { a } else { b }).map_or(0, Into::into) }
#[no_mangle]
pub extern "C" fn h_zz_num() {
    let a = [0u64, 1, 2, 7, 40, 44, 100, 255, 256, 333, 1000, 4097, 32768, 65535][pick(14)];
    let b = pick(5) as u64 * 77 + 3;
    let x = a as u32; let y = b as u32;
    for v in [x.wrapping_mul(y), x.saturating_sub(y), x.rotate_left(y % 32), x.count_ones(), x.leading_zeros(), x.trailing_zeros(), x.swap_bytes(), x.reverse_bits(), x.pow(2), x.checked_add(u32::MAX - 5).unwrap_or(1), x.isqrt(), x.next_power_of_two(), x.div_ceil(y), x.abs_diff(y), x.min(y), x.max(9).clamp(3, 1000), x.rem_euclid(y)] { digest(v as u64) }
    let i = a as i32 - 30000;
    for v in [i.abs(), i.signum(), i.rem_euclid(7), i.div_euclid(7), i >> 3, i.wrapping_neg(), i.saturating_mul(100000), i.overflowing_mul(100000).0, i.checked_div(0).unwrap_or(4)] { digest(v as u64) }
    digest(u8::try_from(a).map_or(3, |x| x as u64)); digest(u16::try_from(a as i64 - 5).is_ok() as u64); digest(usize::from_str_radix("7f", 16).unwrap() as u64); digest((a as u128 * 0x1_0000_0000_0000_0001u128 >> 40) as u64); digest((a as u128 * 1000000007u128 / (b as u128 * 3)) as u64);
    let n = conc(a as usize % 3000) as f64 / 8.0 - 5.0;
    for v in [n.floor(), n.ceil(), n.round(), n.trunc(), n.fract(), n.abs(), n.sqrt(), n.powi(3), n.mul_add(2.0, 1.0), n.min(3.0), n.max(2.0), n.copysign(-1.0), n.clamp(-1.0, 9.0), n.rem_euclid(3.0)] { digest(v.to_bits()) }
    digest(n as i32 as u64); digest(n as u8 as u64); digest(n.total_cmp(&2.0) as i8 as u64); digest(n.is_nan() as u64); digest((n as f32).to_bits() as u64);
    h(&format!("{} {:?} {:.2} {:e} {:08.3}", n, n, n, n, n)); h(&format!("{:x} {:#b} {:05} {:+} {:?} {:#?}", a as u32 & 0xff, b, b, i, (x, "t"), Some([1, 2]))); h(&a.to_string()); h(&i.to_string());
    end()
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
enum Node { #[default] Leaf, One(Box<Node>), Many(Vec<Node>), Named { name: String, at: Option<u32> } }
impl std::fmt::Display for Node { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { match self { Node::Leaf => f.write_str("leaf"), Node::One(n) => write!(f, "<{}>", n), Node::Many(v) => { for n in v { write!(f, "{n},")? } Ok(()) } Node::Named { name, at } => f.debug_struct("N").field("name", name).field("at", at).finish() } } }
#[no_mangle]
pub extern "C" fn h_zz_misc() {
    let k = pick(6);
    let c = [0u8, 48, 65, 97, 122, 33, 127][pick(7)];
    let n = Node::Many(vec![Node::Leaf, Node::One(Box::new(Node::Named { name: "x".repeat(k), at: (k > 2).then_some(k as u32) })), Node::default()]);
    h(&n.to_string()); h(&format!("{:?} {:#?}", n, n)); digest((n.clone() == n) as u64); digest(n.cmp(&Node::Leaf) as i8 as u64);
    let shapes: Vec<Box<dyn Shape>> = vec![Box::new(Sq(k as u64)), Box::new(Ci(c as u64))]; for s in &shapes { digest(s.area()); h(&s.name()) }
    let f: Box<dyn Fn(u64) -> u64> = if k % 2 == 0 { Box::new(move |x| x + c as u64) } else { Box::new(|x| x * 2) }; digest(f(5));
    let mut acc = 0u64; let mut g = |x: u64| acc += x; g(3); g(k as u64); digest(acc);
    let rc = Rc::new(RefCell::new(vec![1u32])); let w: Weak<_> = Rc::downgrade(&rc); let r2 = Rc::clone(&rc); r2.borrow_mut().push(k as u32); digest(rc.borrow().iter().sum::<u32>() as u64); digest(Rc::strong_count(&rc) as u64); drop(r2); drop(rc); digest(w.upgrade().is_none() as u64);
    TL.with(|t| t.borrow_mut().push(4)); TL.with_borrow_mut(|t| { t.push(k as u32); digest(t.len() as u64) });
    h(ONCE.get_or_init(|| format!("once {k}"))); MX.lock().unwrap().push(c); digest(MX.lock().unwrap().len() as u64);
    let rw = Arc::new(RwLock::new(3u8)); { *rw.write().unwrap() += 1; } digest(*rw.read().unwrap() as u64); let oc = OnceCell::new(); digest(*oc.get_or_init(|| 7u64));
    let mut s = String::new(); write!(s, "{:>w$}|{:.p$}", k, "abcdef", w = 5, p = k).unwrap(); writeln!(s).unwrap(); h(&s);
    let r: Result<u32, std::num::ParseIntError> = "12x".parse::<u32>(); h(&r.clone().unwrap_err().to_string()); digest(r.or_else(|_| "5".parse::<u32>()).unwrap() as u64);
    let e: Box<dyn std::error::Error> = From::from("boxed"); h(&e.to_string());
    let o: Option<&str> = (k > 1).then_some("z"); h(o.unwrap_or_default()); digest(o.map(str::len).filter(|x| *x > 0).is_some() as u64); let v: Option<Vec<u32>> = (0..k as u32).map(|x| if x < 4 { Some(x) } else { None }).collect(); digest(v.map_or(77, |v| v.len() as u64)); let v: Result<Vec<u32>, String> = ["1", "2", "x"][..k.min(3)].iter().map(|s| s.parse::<u32>().map_err(|e| e.to_string())).collect(); digest(v.is_ok() as u64);
    let p = std::panic::catch_unwind(|| 5u64); digest(p.unwrap_or(0));
    let mut it = "a1b2".chars().peekable(); while let Some(x) = it.next_if(|c| c.is_alphabetic()) { digest(x as u64); if let Some(d) = it.peek() { digest(*d as u64); it.next(); } }
    let mut t = std::mem::take(&mut s); std::mem::swap(&mut t, &mut s); h(&std::mem::replace(&mut s, "new".into())); h(&s);
    let mut it = std::iter::successors(Some(1u32), |x| (*x < 200).then(|| x * (k as u32 + 2))); digest(it.by_ref().count() as u64); digest(std::iter::repeat_n(2u64, k).sum::<u64>()); digest(std::iter::once(1).chain(std::iter::empty()).chain(3..=5).cycle().take(9).sum::<u64>()); let mut z = 0; digest(std::iter::from_fn(|| { z += 1; (z < k as u64).then_some(z) }).sum());
    // hashing is a constant in the executor (exact for maps and sets), so hash values are not compared
    digest(std::mem::size_of_val(&n) as u64); digest(std::mem::discriminant(&n).eq(&std::mem::discriminant(&Node::Leaf)) as u64);
    if let Ok(x) = std::env::var("NO_SUCH_VARIABLE_XYZ") { h(&x) } 
    let boxed: Box<[u32]> = vec![1, 2, 3].into_boxed_slice(); digest(boxed.iter().copied().sum::<u32>() as u64); let bx: Box<dyn std::any::Any> = Box::new(5u32); digest(bx.downcast_ref::<u32>().copied().unwrap_or(0) as u64);
    let label = 'o: loop { for i in 0.. { if i * i > c as u32 { break 'o i } } }; digest(label as u64);
    let Some(q) = [1, 5, 9].get(k) else { end() }; digest(*q);
    digest(matches!(c, b'a'..=b'z' | b'0') as u64); digest(u64::from(c.is_ascii_hexdigit()) + char::from(c).to_ascii_uppercase() as u64); digest(i64::from(c.to_ascii_lowercase()) as u64);
    end()
}
#[no_mangle]
pub extern "C" fn h_zz_fp() {
    fn any() -> f64 { let mut b = 0u64; for _ in 0..8 { b = b << 8 | byte() as u64; } f64::from_bits(b) }
    static S: [f64; 10] = [0.0, -0.0, 1.0, -1.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MIN_POSITIVE, 5e-324, -255.5];
    let a = any();
    let b = match pick(11) { 10 => any(), k => S[k] };
    let c = if pick(2) == 0 { b } else { -b };
    let mut n = 0;
    if a < c { n |= 1 } if a <= c { n |= 2 } if a > c { n |= 4 } if a >= c { n |= 8 } if a == c { n |= 16 } if a != c { n |= 32 }
    if a.is_nan() { n |= 64 } if a.abs() < 2.0 { n |= 128 } if a.is_infinite() { n |= 256 }
    if !(a < c) { n |= 512 } if !(a >= c) { n |= 1024 } if a.partial_cmp(&c) == Some(std::cmp::Ordering::Less) { n |= 2048 }
    digest(n); digest(a.to_bits()); digest(c.to_bits());
    // what must hold of the comparisons, for every two numbers
    check((a < c) as u8 + (a == c) as u8 + (a > c) as u8 + (a.is_nan() || c.is_nan()) as u8 == 1, 1);
    check((a <= c) == (a < c || a == c), 2);
    check(a.is_nan() || a == a, 3);
    check(!(a < c && c < 1.0) || a < 1.0, 4);
    end()
}
