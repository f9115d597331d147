//! Claims with known answers, for testing the engine: those of `holds` have to be proved, and those
//! of `fails` have to be refuted. What is observed is compared with native runs.
#![allow(clippy::all)]

use std::cell::{Cell, OnceCell, RefCell};
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Cursor, Read, Seek, SeekFrom, Write as _};
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, LazyLock, Mutex, OnceLock, RwLock};

#[path = "../../harness/src/sx.rs"]
pub mod sx;

use sx::{assume, byte, bytes, choose, observe, u16, u32};

fn float() -> f32 {
    // one of the interesting ones, without it being constant
    const VALUES: [f32; 24] = [
        0.0, -0.0, 0.25, 0.5, -0.5, 0.75, -0.75, 1.0, 1.5, -1.5, 2.5, -2.5, 3.49, 8388607.5, -8388607.5, 8388608.0,
        1e20, -1e20, 1e-40, f32::MAX, f32::MIN, f32::INFINITY, f32::NEG_INFINITY, f32::NAN,
    ];
    let bits = u32();
    let i = choose(VALUES.len());
    assume(bits == VALUES[i].to_bits());
    f32::from_bits(bits)
}

#[inline(never)]
fn see(value: f32) {
    observe(if value.is_nan() { 1 << 40 } else { value.to_bits() as u64 });
}

harnesses! {
    fn t_round("holds", Both, [], "") {
        let x = float();
        see(x.floor());
        see(x.ceil());
        see(x.trunc());
        see(x.round());
        see(x.round_ties_even());
        see(x.fract());
        see(x % 1.0);
        see(x.max(2.0));
        see(x.min(2.0));
        see(x.clamp(-1.0, 1.0));
        see(x.signum());
        see(x.copysign(-1.0));
        see(x.rem_euclid(7.0));
        see(x.mul_add(2.0, 1.0));
        see(x.powi(2));
        see(x.sqrt());
        see(x.to_degrees());
        observe(x as i32 as u32 as u64);
        observe(x as u8 as u64);
        observe(x as i64 as u64);
        observe((x as f64).floor().to_bits());
    }

    fn t_floor("holds", Both, [], "") {
        let x = f32::from_bits(u32());
        assume(x.abs() < 1000.0);
        let y = x.floor();
        check!(y <= x && x < y + 1.0 && y == y as i32 as f32, "floor");
        let z = x.round();
        check!((z - x).abs() <= 0.5 && z == z as i32 as f32, "round");
    }

    fn t_fract("holds", Both, [], "") {
        let x = f32::from_bits(u32());
        let a = x as i32 as f32 == x;
        let b = x.fract() == 0.0 && x >= -2147483648.0 && x < 2147483648.0;
        let c = x % 1.0 == 0.0 && x >= -2147483648.0 && x < 2147483648.0;
        let d = x.trunc() == x && x >= -2147483648.0 && x < 2147483648.0;
        // 2^31 saturates to what converts back to it
        assume(x != 2147483648.0);
        check!(a == b && a == c && a == d, "integers");
    }

    fn t_fract_edge("fails", Both, [], "") {
        let x = f32::from_bits(u32());
        let a = x as i32 as f32 == x;
        let b = x.fract() == 0.0 && x >= -2147483648.0 && x < 2147483648.0;
        check!(a == b, "integers");
    }

    fn t_scale("holds", Both, [], "") {
        let x = u32() as i32;
        let a = (x as f64 / 65536.0) as f32;
        let b = x as f32 / 65536.0;
        let c = x as f32 * (1.0 / 256.0) / 256.0;
        check!(a.to_bits() == b.to_bits() && b.to_bits() == c.to_bits(), "scaled");
        let i = byte();
        let j = byte();
        let d = -(f32::from(i) * 256.0) - f32::from(j) - 108.0;
        check!(d.to_bits() == ((-(i as i32) * 256 - j as i32 - 108) as f32).to_bits(), "integers");
        let e = f32::from(i) * f32::from(j);
        check!(e.to_bits() == ((i as u32 * j as u32) as f32).to_bits(), "products");
        let f = f32::from(i) * -f32::from(j);
        check!(f.is_sign_negative(), "negative zeros are kept");
        let g = f + f32::from(j) * -0.0;
        check!(g.is_sign_negative(), "negative zeros add up");
        observe(f.to_bits() as u64);
        observe((f - 0.0).to_bits() as u64);
        observe((f + 0.0).to_bits() as u64);
    }

    fn t_scale_wide("fails", Both, [], "") {
        let x = u32();
        check!((x as f32 / 3.0) == (x as f64 / 3.0) as f32, "rounded once");
    }

    fn t_sort("holds", Both, [], "") {
        let mut x = bytes::<4>();
        let sum: u32 = x.iter().map(|x| *x as u32).sum();
        x.sort();
        check!(x.windows(2).all(|w| w[0] <= w[1]), "sorted");
        check!(x.iter().map(|x| *x as u32).sum::<u32>() == sum, "same");
    }

    fn t_sort_by_key("holds", Both, [], "") {
        let mut x: Vec<(u8, usize)> = bytes::<3>().into_iter().enumerate().map(|(i, x)| (x, i)).collect();
        x.sort_by_key(|x| x.0);
        check!(x.windows(2).all(|w| w[0] <= w[1]), "sorted stably");
        x.sort_unstable_by(|a, b| b.cmp(a));
        check!(x.windows(2).all(|w| w[0] > w[1]), "sorted in reverse");
    }

    fn t_search("holds", Both, [], "") {
        const DATA: [u16; 7] = [1, 5, 9, 100, 1000, 5000, 60000];
        let x = u16();
        let r = DATA.binary_search(&x);
        check!(r.is_ok() == DATA.contains(&x), "found");
        let i = DATA.partition_point(|y| *y < x);
        check!(r.unwrap_or_else(|i| i) == i, "position");
        observe(i as u64);
    }

    fn t_maps("holds", Both, [], "") {
        let x = bytes::<3>();
        let mut a = BTreeMap::new();
        let mut b = HashMap::new();
        for (i, x) in x.iter().enumerate() {
            assume(*x < 4);
            a.insert(*x, i);
            b.insert(*x, i);
        }
        let k = byte();
        assume(k < 5);
        check!(a.get(&k) == b.get(&k), "the same");
        check!(a.len() == b.len(), "the same size");
        let s: HashSet<u8> = x.iter().copied().collect();
        check!(s.len() == a.len(), "the same set");
        let e = *b.entry(k).or_insert(9);
        observe(e as u64);
    }

    fn t_deque("holds", Both, [], "") {
        let x = bytes::<3>();
        let mut q = VecDeque::new();
        for x in x {
            q.push_front(x);
        }
        let y: Vec<_> = q.iter().rev().copied().collect();
        check!(y == x, "reversed");
        q.rotate_left(1);
        check!(q.pop_back() == Some(x[2]), "rotated");
    }

    fn t_text("holds", Both, [], "") {
        let x = bytes::<3>();
        let a = String::from_utf8_lossy(&x);
        let b = String::from_utf8(x.to_vec());
        check!(b.is_err() || *b.as_ref().unwrap() == *a, "lossy");
        check!(b.is_ok() == std::str::from_utf8(&x).is_ok(), "validity");
        observe(a.chars().count() as u64);
    }

    fn t_dyn("holds", Both, [], "") {
        let x = byte();
        let f: Vec<Box<dyn Fn(u8) -> u8>> = vec![
            Box::new(|x| x.wrapping_add(1)),
            Box::new(move |y| x ^ y),
            Box::new(|x| x.rotate_left(3)),
        ];
        let i = byte();
        assume(i < 3);
        let r = f[i as usize](7);
        check!(r == match i { 0 => 8, 1 => x ^ 7, _ => 56 }, "called");
        observe(r as u64);
    }

    fn t_iterators("holds", Both, [], "") {
        let x = bytes::<6>();
        let a: Vec<u16> = x.chunks_exact(2).map(|c| u16::from_be_bytes([c[0], c[1]])).collect();
        let b: Vec<u16> = x.chunks(2).map(|c| c.iter().fold(0, |s, x| s << 8 | *x as u16)).collect();
        check!(a == b, "chunks");
        let c: Vec<u8> = x.iter().copied().take_while(|x| *x != 0).collect();
        check!(c.len() == x.iter().position(|x| *x == 0).unwrap_or(6), "prefix");
        let d: Option<Vec<u8>> = x.iter().map(|x| x.checked_sub(1)).collect();
        check!(d.is_some() == (c.len() == 6), "collect");
        let e = x.iter().rev().step_by(2).zip(x.iter().skip(1)).filter(|(a, b)| a > b).count();
        observe(e as u64);
        let f = x.split(|x| *x == 0).map(|x| x.len()).sum::<usize>();
        check!(f == x.iter().filter(|x| **x != 0).count(), "split");
        let g = x.iter().max().unwrap();
        check!(x.iter().all(|x| x <= g), "maximum");
    }

    fn t_arithmetic("holds", Both, [], "") {
        let (x, y) = (u16(), u16());
        check!(x.checked_add(y).is_some() == (x as u32 + y as u32 <= 65535), "add");
        check!(x.saturating_sub(y) == if x > y { x - y } else { 0 }, "sub");
        check!(x.checked_mul(y).map(|z| z as u32) == Some(x as u32 * y as u32).filter(|z| *z < 65536), "mul");
        check!(x.abs_diff(y) == x.max(y) - x.min(y), "difference");
        check!(x.div_ceil(8) as u32 == (x as u32 + 7) >> 3, "ceil");
        check!((x as i16).rem_euclid(10) == ((x as i16 as i32 % 10 + 10) % 10) as i16, "euclid");
        check!(x.count_ones() + x.count_zeros() == 16, "count");
        check!(x.swap_bytes() == x.rotate_left(8), "swap");
        check!((x as i16).saturating_add(y as i16) as i32 == (x as i16 as i32 + y as i16 as i32).clamp(-32768, 32767), "saturating");
        check!(x.leading_zeros() == 16 - (x as u32 * 2 + 1).ilog2() , "log");
        let w = (x as u32) * (y as u32);
        observe(w as u64);
        observe(x.isqrt() as u64);
    }

    fn t_idiom_slices("holds", Both, [], "") {
        let x = bytes::<5>();
        let mut v = x.to_vec();
        v.retain(|x| x & 1 == 0);
        v.dedup();
        observe(v.len() as u64);
        let mut w = x.to_vec();
        w.rotate_left(2);
        check!(w == [x[2], x[3], x[4], x[0], x[1]], "rotated");
        let t: Vec<u8> = w.drain(1..3).collect();
        check!(t == x[3..] && w == [x[2], x[0], x[1]], "drained");
        let t: Vec<u8> = w.splice(..1, [9, 8]).collect();
        check!(t == [x[2]] && w == [9, 8, x[0], x[1]], "spliced");
        let t = w.split_off(2);
        w.extend_from_slice(&t);
        w.insert(1, x[0]);
        w.swap(0, 1);
        w.truncate(4);
        check!(w == [x[0], 9, 8, x[0]], "edited");
        check!([w.as_slice(), &t].concat().len() == 6, "concatenated");
        w.copy_within(1.., 0);
        w.reverse();
        check!(w == [x[0], x[0], 8, 9], "moved");
        w.fill(3);
        w.resize(6, 1);
        w.resize_with(7, || 2);
        check!(w == [3, 3, 3, 3, 1, 1, 2], "filled");
        observe(x.windows(2).filter(|w| w[0] < w[1]).count() as u64);
        observe(x.chunk_by(|a, b| a <= b).count() as u64);
        check!(x.first() == Some(&x[0]) && x.split_last() == Some((&x[4], &x[..4])), "ends");
        check!(x.starts_with(&x[..2]) && x.ends_with(&x[2..]), "affixes");
        let (a, b) = x.split_at(2);
        check!([a, b].concat() == x, "split");
        check!(x.rchunks(2).next() == Some(&x[3..]), "backwards");
        check!(x.iter().rposition(|y| *y == x[4]) == Some(4), "position");
        check!(x.get(1..3) == Some(&x[1..3]) && x.get(4..6).is_none(), "range");
        if let [a, .., b] = x { check!(a == x[0] && b == x[4], "pattern"); }
        check!(x.is_sorted() == x.windows(2).all(|x| x[0] <= x[1]), "sorted");
        let b: Box<[u8]> = x.to_vec().into_boxed_slice();
        check!(*b == x, "boxed");
        check!(<[u8; 5]>::try_from(&b[..]).ok() == Some(x), "array");
        let a: [u16; 5] = std::array::from_fn(|i| x[i] as u16);
        check!(a == x.map(u16::from), "mapped");
    }

    fn t_idiom_iterators_1("holds", Both, [], "") {
        let x = bytes::<3>();
        let s: Vec<u32> = x.iter().scan(0u32, |s, x| { *s += *x as u32; Some(*s) }).collect();
        check!(s[2] == x.iter().map(|x| *x as u32).sum(), "scan");
        check!(x.iter().try_fold(0u8, |s, x| s.checked_add(*x)).is_some() == (s[2] < 256), "fold");
        check!(x.iter().zip(1..).map(|(x, i)| *x as u64 * i).sum::<u64>() <= 255 * 6, "weighted");
        let mut p = x.iter().peekable();
        let mut n = 0;
        while let Some(a) = p.next() {
            if p.next_if(|b| *b > a).is_some() { n += 1; }
        }
        observe(n);
        check!(std::iter::successors(Some(1u32), |x| x.checked_mul(10)).count() == 10, "successors");
        check!(std::iter::repeat(x[0]).take(3).eq([x[0]; 3]), "repeat");
        check!(std::iter::from_fn({ let mut i = 0; move || { i += 1; (i < 4).then_some(i) } }).sum::<i32>() == 6, "function");
        let (a, b): (Vec<usize>, Vec<u8>) = x.iter().copied().enumerate().unzip();
        check!(a == [0, 1, 2] && b == x, "unzip");
    }

    fn t_idiom_iterators_2("holds", Both, [], "") {
        let x = bytes::<3>();
        observe(x.iter().flat_map(|x| vec![*x; (*x & 1) as usize]).count() as u64);
        let (a, b): (Vec<u8>, Vec<u8>) = x.iter().partition(|x| **x < 10);
        check!(a.len() + b.len() == 3, "partition");
        let c: Vec<u8> = a.iter().chain(&b).cloned().collect();
        observe(c[0] as u64);
    }

    fn t_idiom_iterators_3("holds", Both, [], "") {
        let x = bytes::<3>();
        check!(x.iter().min_by_key(|x| **x as i8).is_some(), "minimum");
        observe(x.iter().skip_while(|x| **x > 3).cycle().take(5).last().copied().unwrap_or(7) as u64);
        let r: Result<Vec<i8>, _> = x.iter().map(|x| i8::try_from(*x)).collect();
        check!(r.is_ok() == x.iter().all(|x| *x < 128), "conversion");
        check!(x.iter().any(|x| *x == 5) == x.contains(&5), "any");
        check!(x.iter().rev().rev().eq(x.iter()), "reversed");
    }

    fn t_idiom_iterators_4("holds", Both, [], "") {
        let x = bytes::<3>();
        check!(x.iter().map_while(|x| x.checked_sub(1)).count() == x.iter().position(|x| *x == 0).unwrap_or(3), "while");
        check!(x.iter().cmp(x.iter().rev()).reverse() == x.iter().rev().cmp(x.iter()), "compared");
        observe(x.iter().fold(String::new(), |mut s, x| { s.push(*x as char); s }).len() as u64);
    }

    fn t_idiom_collections("holds", Both, [], "") {
        let x = bytes::<3>();
        let s: BTreeSet<u8> = x.into_iter().collect();
        check!(s.iter().next_back() == x.iter().max(), "set");
        check!(s.range(x[0]..).next() == Some(&x[0]), "range");
        let mut h = BinaryHeap::from(x.to_vec());
        check!(h.pop().as_ref() == x.iter().max() && h.into_sorted_vec().len() == 2, "heap");
        let mut m: BTreeMap<u8, Vec<usize>> = BTreeMap::new();
        for (i, x) in x.iter().enumerate() {
            m.entry(*x).or_default().push(i);
        }
        check!(m.values().map(Vec::len).sum::<usize>() == 3 && m[&x[1]].contains(&1), "groups");
        check!(m.first_key_value().unwrap().0 == x.iter().min().unwrap(), "first");
        check!(m.remove(&x[2]).is_some() && !m.contains_key(&x[2]), "removed");
        m.retain(|k, _| *k > 3);
        observe(m.len() as u64);
        let mut h: HashMap<String, u8> = HashMap::with_capacity(4);
        h.insert("one".into(), x[0]);
        h.insert("two".into(), x[1]);
        check!(h.get("one") == Some(&x[0]) && h.get("three").is_none(), "text");
        let mut q: VecDeque<u8> = x.into();
        q.push_back(1);
        check!(q.make_contiguous() == [x[0], x[1], x[2], 1] && q.iter().copied().max() >= q.front().copied(), "queue");
        check!(q.drain(..2).eq([x[0], x[1]]), "drained");
    }

    fn t_idiom_text("holds", Both, [], "") {
        let x = byte();
        assume(x < 20);
        let a = format!("{x}");
        check!(a == x.to_string() && a.parse::<u8>() == Ok(x), "decimal");
        let mut b = String::new();
        let _ = write!(b, "{:02x}-{:>4}-{:?}", x, x, Some(x));
        check!(u8::from_str_radix(&b[..2], 16) == Ok(x), "hexadecimal");
        observe(b.len() as u64);
        observe(b.bytes().map(u64::from).sum());
        let mut w: Vec<u8> = vec![];
        let _ = write!(&mut w, "{}.{}", x, 5);
        let c = String::from_utf8(w).unwrap();
        check!(c.parse::<f32>() == Ok(x as f32 + 0.5), "number");
        check!(c.split('.').nth(1) == Some("5") && c.find('.') == Some(a.len()), "split");
        check!(c.split_once('.').unwrap().0.trim_start_matches('1').len() <= 2, "once");
        check!(c.replace('.', ",").contains(',') && c.strip_suffix(".5") == Some(&a), "replaced");
        let d: String = c.chars().rev().collect();
        check!(d.starts_with("5."), "reversed");
        check!(["a", &a, "b"].join("/").split('/').count() == 3, "joined");
        check!(char::from_digit(x as u32 % 10, 10).and_then(|x| x.to_digit(10)) == Some(x as u32 % 10), "digit");
        let t = char::from(b'a' + x).to_ascii_uppercase();
        check!(t.is_ascii_uppercase() && t as u8 == b'A' + x, "upper");
        let mut e = String::from("0123456789.E-");
        e.insert(0, t);
        check!(e.pop() == Some('-') && e.remove(0) == t && e.char_indices().nth(10) == Some((10, '.')), "edited");
        check!("12".repeat(2).parse::<i64>() == Ok(1212), "repeated");
        check!("-1.25e2".parse::<f64>() == Ok(-125.0) && "x".parse::<i32>().is_err(), "parsed");
        check!(format!("{:.2} {:e}", 1.005f32, 1500.0f64) == "1.00 1.5e3", "fractions");
        check!(format_args!("{}", 1).as_str().is_none() || true, "arguments");
    }

    fn t_idiom_floats("holds", Both, [], "") {
        let x = float();
        observe(x.is_finite() as u64 | (x.is_sign_negative() as u64) << 1 | (x.is_normal() as u64) << 2);
        observe(x.classify() as u64);
        observe(x.total_cmp(&1.0) as i8 as u8 as u64);
        observe(x.partial_cmp(&1.0).map_or(9, |x| x as i8 as u8 as u64));
        see(x.recip());
        see(x.abs());
        see(-x);
        see(x.hypot(3.0));
        see(x.div_euclid(3.0));
        see(x as f64 as f32);
        see((x as f64 * 0.1) as f32);
        observe((x as f64 * 1e-3).to_bits() & if x.is_nan() { 0 } else { !0 });
        observe(x as u16 as u64);
        observe(x as i8 as u8 as u64);
        observe(x as usize as u64);
        observe(x as i128 as u64);
        see(x.to_bits() as f32);
        see(u64::from(x.to_bits()).wrapping_mul(0x1_0000_0001) as f32);
        observe((i64::from(x.to_bits() as i32) as f64).to_bits());
    }

    fn t_idiom_integers_1("holds", Both, [], "") {
        let x = u32();
        observe(x.leading_zeros() as u64);
        observe(x.trailing_ones() as u64 + x.count_ones() as u64);
        check!(x.swap_bytes().swap_bytes() == x && x.reverse_bits().reverse_bits() == x, "reversed");
        check!(x.is_power_of_two() == (x.count_ones() == 1), "power");
        check!(x.saturating_add(1) as u64 == (x as u64 + 1).min(u32::MAX as u64), "saturated");
        check!(x.overflowing_sub(1).1 == (x == 0), "overflow");
        check!(x.abs_diff(5) as i64 == (x as i64 - 5).abs(), "difference");
        check!((x as i32).unsigned_abs() as i64 == (x as i32 as i64).abs(), "magnitude");
        check!(x.checked_shl(x & 63).is_some() == (x & 63 < 32), "shift");
        check!(x.checked_next_multiple_of(8).map_or(8, |y| y - x) <= 8, "multiple");
        check!(x.div_ceil(4) == x / 4 + (x % 4 != 0) as u32, "ceiling");
        check!(u16::try_from(x).is_ok() == (x < 65536), "narrow");
        check!(x.rotate_left(8) == (x << 8 | x >> 24), "rotated");
        check!(i16::from_be_bytes([(x >> 8) as u8, x as u8]) == x as i16, "bytes");
        check!(x.midpoint(x) == x, "midpoint");
        check!(x.clamp(3, 9) == x.max(3).min(9), "clamped");
        observe(x.to_le_bytes()[0] as u64);
    }

    fn t_idiom_integers_2("holds", Both, [], "") {
        let x = u16();
        check!((x as i16).rem_euclid(7) == ((x as i16 % 7) + 7) % 7, "euclid");
        check!((x as u128 * x as u128) >> 32 == 0, "wide");
        let y = (x as u32 & 3).pow(3) + (x as u32 & 15).isqrt();
        observe(y as u64);
        check!((x & 0xff).checked_ilog2().is_some() == (x & 0xff != 0), "logarithm");
    }

    fn t_idiom_shared("holds", Both, [], "") {
        thread_local! { static LOCAL: Cell<u32> = const { Cell::new(1) }; static LIST: RefCell<Vec<u8>> = RefCell::new(vec![]); }
        static ONCE: OnceLock<Vec<u16>> = OnceLock::new();
        static LAZY: LazyLock<HashMap<u8, u16>> = LazyLock::new(|| (0..5).map(|i| (i, i as u16 * 3)).collect());
        static COUNT: AtomicUsize = AtomicUsize::new(0);
        static LOCK: Mutex<Option<u8>> = Mutex::new(None);
        let x = byte();
        assume(x < 5);
        LOCAL.set(x as u32);
        LIST.with_borrow_mut(|v| v.push(x));
        check!(LOCAL.get() == x as u32 && LIST.with_borrow(|v| v[0]) == x, "local");
        check!(ONCE.get_or_init(|| vec![1, 2, 3]).len() == 3, "once");
        check!(LAZY.get(&x) == Some(&(x as u16 * 3)), "lazy");
        COUNT.fetch_add(x as usize, Ordering::SeqCst);
        check!(COUNT.load(Ordering::Relaxed) == x as usize, "atomic");
        COUNT.store(0, Ordering::SeqCst);
        *LOCK.lock().unwrap() = Some(x);
        check!(LOCK.lock().unwrap().take() == Some(x), "lock");
        let a = Rc::new(RefCell::new(vec![x]));
        let b = a.clone();
        b.borrow_mut().push(1);
        check!(a.borrow().len() == 2 && Rc::strong_count(&a) == 2, "shared");
        drop(b);
        check!(Rc::try_unwrap(a).unwrap().into_inner() == [x, 1], "alone");
        let a: Arc<[u8]> = Arc::from(vec![x, x]);
        check!(a.iter().sum::<u8>() == x * 2 && Arc::downgrade(&a).upgrade().is_some(), "counted");
        let c = OnceCell::new();
        check!(*c.get_or_init(|| x) == x && *RwLock::new(x).read().unwrap() == x, "cells");
        let any: Box<dyn std::any::Any> = Box::new(x);
        check!(any.downcast_ref::<u8>() == Some(&x) && any.downcast::<u16>().is_err(), "any");
        let e: Box<dyn std::error::Error> = format!("bad {x}").into();
        check!(e.to_string().len() == 5, "error");
        let e = std::io::Error::new(std::io::ErrorKind::InvalidData, "bad");
        check!(e.kind() == std::io::ErrorKind::InvalidData && e.to_string() == "bad", "kind");
        println!("printed {x}");
        eprint!("printed\n");
        check!(std::env::var_os("NO_SUCH_VARIABLE").is_none(), "environment");
        check!(std::mem::replace(&mut *RefCell::new(x).borrow_mut(), 1) == x, "replaced");
        LIST.with_borrow_mut(|v| v.clear());
    }

    fn t_idiom_reading("holds", Both, [], "") {
        let x = bytes::<6>();
        let mut c = Cursor::new(&x[..]);
        let mut a = [0; 2];
        check!(c.read_exact(&mut a).is_ok() && a == x[..2], "exactly");
        let mut v = Vec::with_capacity(2);
        check!(c.by_ref().take(3).read_to_end(&mut v).ok() == Some(3) && v == x[2..5], "taken");
        check!(c.seek(SeekFrom::Current(-4)).ok() == Some(1) && c.stream_position().ok() == Some(1), "moved");
        check!(c.bytes().map(|x| x.unwrap()).eq(x[1..].iter().copied()), "bytes");
        let mut b = BufReader::new(&x[..]);
        v.clear();
        let n = b.read_until(0, &mut v).unwrap();
        check!(n == x.iter().position(|x| *x == 0).map_or(6, |x| x + 1), "until");
        let mut s = &x[..];
        check!(s.read(&mut a).ok() == Some(2) && s.len() == 4, "slice");
        let mut t = String::new();
        check!((&x[..1]).read_to_string(&mut t).is_ok() == (x[0] < 128), "text");
        let mut w = Cursor::new(Vec::new());
        check!(std::io::copy(&mut (&x[..]).chain(&a[..]), &mut w).ok() == Some(8), "copied");
        check!(w.into_inner().len() == 8, "written");
        check!((&x[..2]).read_exact(&mut [0; 3]).unwrap_err().kind() == std::io::ErrorKind::UnexpectedEof, "short");
    }

    fn t_overflow("fails", Both, [], "") {
        let (x, y) = (byte(), byte());
        assume(x < 200 && y < 100);
        observe((x + y) as u64);
    }

    fn t_bounds("fails", Both, [], "") {
        let x = [1, 2, 3, 4, 5];
        let i = byte();
        assume(i <= 5);
        observe(x[i as usize]);
    }

    fn t_unchecked("fails", Both, [], "") {
        let x = vec![1u8, 2, 3, 4, 5];
        let i = byte();
        assume(i <= 5);
        observe(unsafe { *x.as_ptr().add(i as usize) } as u64);
    }

    fn t_unwrap("fails", Both, [], "") {
        let x = u32();
        observe((x ^ 0xdeadbeef).checked_sub(1).unwrap() as u64);
    }

    fn t_division("fails", Both, [], "") {
        observe((100 / (byte() as u32).saturating_sub(254).wrapping_sub(1)) as u64);
    }

    fn t_shift("fails", Both, [], "") {
        let x = byte();
        assume(x < 33);
        observe((1u32 << x) as u64);
    }

    fn t_forever("fails", Both, [], "") {
        let x = byte();
        let mut i = 1u8;
        while i != x {
            i = i.wrapping_add(2);
        }
        observe(i as u64);
    }

    fn t_equation("fails", Both, [], "") {
        let x = u32();
        check!(x.wrapping_mul(2654435761) != 12345, "the inverse");
    }

    fn t_recursion("fails", Both, [], "") {
        fn f(x: u32) -> u32 { if x % 2 == 0 { x } else { f(x.wrapping_add(2)) ^ 1 } }
        observe(f(u32()) as u64);
    }
}

/// All harnesses.
pub fn all() -> impl Iterator<Item = &'static sx::Harness> {
    ALL.iter()
}
