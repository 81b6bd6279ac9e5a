//! Coverage-guided search over the inputs of a generated leg. Inputs are mutated in their serialised form; an input that
//! reaches a new edge of the library, or brings the two sides of one of its comparisons closer than before, is kept and
//! mutated further. The oracle is the leg's own check. One thread, so that a run depends on the seed alone.
use crate::bn;
use crate::gen::special_set;
use crate::runner::{Failure, Leg, LegResult, Outcome};
use proptest::test_runner::{RngAlgorithm, TestRng};
use proptest::prelude::Rng as _;
use serde_json::{json, Value};
use std::collections::{HashMap, HashSet};

#[repr(C)]
#[derive(Clone, Copy, Default)]
struct Pair {
    a: u64,
    b: u64,
    size: u32,
}
extern "C" {
    fn cov_start();
    fn cov_stop();
    fn cov_features(out: *mut u32, cap: u32) -> u32;
    fn cov_pairs(out: *mut Pair, cap: u32) -> u32;
}
struct Rnd(TestRng);
impl Rnd {
    fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.0.next_u64() % n as u64) as usize
        }
    }
    fn u64(&mut self) -> u64 {
        self.0.next_u64()
    }
}

fn is_hex(s: &str) -> bool {
    s.len() >= 2 && s.len() % 2 == 0 && s.bytes().all(|c| c.is_ascii_digit() || (b'a'..=b'f').contains(&c))
}
/// every place in the value, as a path
fn places(v: &Value, path: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    out.push(path.clone());
    match v {
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                path.push(i.to_string());
                places(x, path, out);
                path.pop();
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                path.push(k.clone());
                places(x, path, out);
                path.pop();
            }
        }
        _ => {}
    }
}
fn at<'a>(v: &'a mut Value, path: &[String]) -> Option<&'a mut Value> {
    let mut cur = v;
    for p in path {
        cur = match cur {
            Value::Array(a) => a.get_mut(p.parse::<usize>().ok()?)?,
            Value::Object(o) => o.get_mut(p)?,
            _ => return None,
        };
    }
    Some(cur)
}
fn get<'a>(v: &'a Value, path: &[String]) -> Option<&'a Value> {
    let mut cur = v;
    for p in path {
        cur = match cur {
            Value::Array(a) => a.get(p.parse::<usize>().ok()?)?,
            Value::Object(o) => o.get(p)?,
            _ => return None,
        };
    }
    Some(cur)
}
fn strings(v: &Value, out: &mut Vec<Vec<u8>>) {
    match v {
        Value::String(s) if is_hex(s) => out.push(bn::unhex(s).unwrap_or_default()),
        Value::Array(a) => a.iter().for_each(|x| strings(x, out)),
        Value::Object(o) => o.values().for_each(|x| strings(x, out)),
        _ => {}
    }
}

fn put(b: &mut [u8], at: usize, src: &[u8]) {
    for (i, x) in src.iter().enumerate() {
        if at + i < b.len() {
            b[at + i] = *x;
        }
    }
}
/// bytes of a little-endian number
fn mutate_bytes(b: &mut Vec<u8>, others: &[Vec<u8>], pairs: &[Pair], r: &mut Rnd) {
    if b.is_empty() {
        return;
    }
    let n = b.len();
    let add = |b: &mut Vec<u8>, from: usize, d: u64, neg: bool| {
        let mut c = d as u128;
        for x in b[from..].iter_mut() {
            let low = (c & 255) as u8;
            c >>= 8;
            let (y, o) = if neg { x.overflowing_sub(low) } else { x.overflowing_add(low) };
            *x = y;
            c += u128::from(o);
        }
    };
    match r.below(13) {
        0 | 1 => {
            let k = r.below(8 * n);
            b[k / 8] ^= 1 << (k % 8);
        }
        2 => {
            let k = r.below(n);
            b[k] = [0, 255, 1, 0x80, 0x7f, r.u64() as u8][r.below(6)];
        }
        3 => {
            let w = [2usize, 4, 8][r.below(3)];
            let k = r.below(n / w + 1) * w;
            let fill = [0, u64::MAX, 1, 1 << (8 * w as u32 - 1), r.u64(), r.u64() & 0xff][r.below(6)];
            put(b, k, &fill.to_le_bytes()[..w]);
        }
        4 => {
            let (from, d, neg) = (if r.below(2) == 0 { 0 } else { r.below(n) }, 1 + r.below(16) as u64, r.below(2) == 0);
            add(b, from, d, neg);
        }
        5 => {
            let s = special_set();
            let x = bn::to_bytes(&s[r.below(s.len())]);
            put(b, 0, &x);
        }
        6 if !others.is_empty() => {
            let o = others[r.below(others.len())].clone();
            put(b, 0, &o);
        }
        7 if !others.is_empty() => {
            let o = &others[r.below(others.len())];
            let (from, len) = (r.below(n), 1 + r.below(16));
            for k in from..(from + len).min(n).min(o.len()) {
                b[k] = o[k];
            }
        }
        8 | 9 | 10 if !pairs.is_empty() => {
            // a comparison the library made: put one side where the other occurs, or anywhere
            let p = pairs[r.below(pairs.len())];
            let w = (p.size as usize).clamp(1, 8);
            let (x, y) = if r.below(2) == 0 { (p.a, p.b) } else { (p.b, p.a) };
            let y = if r.below(4) == 0 { y.wrapping_add(r.below(3) as u64).wrapping_sub(1) } else { y };
            let (xb, yb) = (x.to_le_bytes(), y.to_le_bytes());
            // the comparison may be on a widened value
            let ws: Vec<usize> = [1usize, 2, 4, 8].into_iter().filter(|k| *k <= w && (*k == 8 || x >> (8 * *k) == 0)).collect();
            let w = if ws.is_empty() || r.below(2) == 0 { w } else { ws[r.below(ws.len())] };
            let hits: Vec<usize> = if n >= w { (0..=n - w).filter(|i| b[*i..*i + w] == xb[..w]).collect() } else { vec![] };
            let k = if !hits.is_empty() { hits[r.below(hits.len())] } else { r.below(n / w + 1) * w };
            put(b, k, &yb[..w]);
        }
        11 => {
            for x in b.iter_mut() {
                *x = !*x;
            }
        }
        _ => {
            let (from, len) = (r.below(n), 1 + r.below(8));
            for k in from..(from + len).min(n) {
                b[k] = r.u64() as u8;
            }
        }
    }
}
/// What the leg's generator produces at each place: a mutated input stays within that, so that it is one the leg could
/// have generated (byte strings are free, lists may be edited, everything else is taken from a generated input).
#[derive(Default)]
struct Shape {
    lens: HashMap<Vec<String>, (usize, usize)>,
    not_bytes: HashSet<Vec<String>>,
    has_bytes: bool,
}
impl Shape {
    fn of(seeds: &[Value]) -> Shape {
        let mut s = Shape::default();
        for v in seeds {
            let mut all = vec![];
            places(v, &mut vec![], &mut all);
            for p in all {
                match get(v, &p) {
                    Some(Value::Array(a)) => {
                        let e = s.lens.entry(p.clone()).or_insert((a.len(), a.len()));
                        *e = (e.0.min(a.len()), e.1.max(a.len()));
                        if !a.iter().all(|x| x.as_u64().map_or(false, |x| x < 256)) {
                            s.not_bytes.insert(p);
                        }
                    }
                    Some(Value::String(t)) => s.has_bytes |= is_hex(t),
                    _ => {}
                }
            }
        }
        s.has_bytes |= s.lens.iter().any(|(p, (a, b))| a < b && !s.not_bytes.contains(p));
        s
    }
}
fn mutate(v: &Value, seeds: &[Value], pool: &[(Value, Vec<Pair>)], shape: &Shape, pairs: &[Pair], r: &mut Rnd) -> Value {
    let mut v = v.clone();
    for _ in 0..1 + r.below(3) {
        let mut all = vec![];
        places(&v, &mut vec![], &mut all);
        // byte strings are where the search happens
        let hex: Vec<&Vec<String>> = all.iter().filter(|p| matches!(get(&v, p), Some(Value::String(s)) if is_hex(s))).collect();
        let path = if !hex.is_empty() && r.below(2) == 0 { hex[r.below(hex.len())].clone() } else { all[r.below(all.len())].clone() };
        let mut others = vec![];
        strings(&v, &mut others);
        let donor = if r.below(2) == 0 { &pool[r.below(pool.len())].0 } else { &seeds[r.below(seeds.len())] };
        let Some(x) = at(&mut v, &path) else { continue };
        match x {
            Value::String(s) if is_hex(s) && r.below(16) > 0 => {
                let mut b = bn::unhex(s).unwrap_or_default();
                mutate_bytes(&mut b, &others, pairs, r);
                *s = bn::hex(&b);
            }
            Value::Array(a) if shape.lens.get(&path).map_or(false, |(a, b)| a < b) && r.below(4) > 0 => {
                let (lo, hi) = shape.lens[&path];
                let (i, j) = (r.below(a.len()), r.below(a.len()));
                if !shape.not_bytes.contains(&path) && r.below(4) > 0 {
                    let mut b: Vec<u8> = a.iter().map(|x| x.as_u64().unwrap_or(0) as u8).collect();
                    mutate_bytes(&mut b, &others, pairs, r);
                    *a = b.into_iter().map(|x| json!(x)).collect();
                } else if !a.is_empty() {
                    match r.below(4) {
                        0 if a.len() > lo => {
                            a.remove(i);
                        }
                        1 if a.len() < hi => {
                            let y = a[i].clone();
                            a.insert(j, y);
                        }
                        2 => a.swap(i, j),
                        _ => {
                            let y = a[i].clone();
                            a[j] = y;
                        }
                    }
                }
            }
            _ => {
                if let Some(y) = get(donor, &path) {
                    *x = y.clone();
                }
            }
        }
    }
    v
}

/// The failure, unless it is a panic of the harness itself (an input outside of what the leg generates).
fn broken(out: &Result<Outcome, String>) -> Option<String> {
    match out {
        Ok(Err(m)) if !m.starts_with("panic: panicked at src/") => Some(m.clone()),
        _ => None,
    }
}
/// Smaller bytes and fewer list elements while the check still fails.
fn minimise(leg: &dyn Leg, shape: &Shape, v: Value, message: String) -> (Value, String) {
    let t0 = std::time::Instant::now();
    let (mut best, mut msg) = (v, message);
    let mut progress = true;
    while progress && t0.elapsed().as_secs() < 15 {
        progress = false;
        let mut all = vec![];
        places(&best, &mut vec![], &mut all);
        for path in all {
            let Some(cur) = at(&mut best.clone(), &path).cloned() else { continue };
            let mut tries = vec![];
            match &cur {
                Value::String(s) if is_hex(s) => {
                    let b = bn::unhex(s).unwrap_or_default();
                    for w in [b.len(), 16, 8, 4, 1] {
                        for k in (0..b.len()).step_by(w.max(1)) {
                            let mut c = b.clone();
                            for z in c[k..(k + w).min(b.len())].iter_mut() {
                                *z = 0;
                            }
                            if c != b {
                                tries.push(json!(bn::hex(&c)));
                            }
                        }
                    }
                }
                Value::Array(a) if shape.lens.get(&path).map_or(false, |(lo, hi)| lo < hi && a.len() > *lo) => {
                    for i in 0..a.len() {
                        let mut c = a.clone();
                        c.remove(i);
                        tries.push(Value::Array(c));
                    }
                }
                _ => {}
            }
            for t in tries {
                if t0.elapsed().as_secs() >= 15 {
                    break;
                }
                let mut c = best.clone();
                if let Some(x) = at(&mut c, &path) {
                    *x = t;
                }
                if let Some(m) = broken(&leg.replay(&c)) {
                    best = c;
                    msg = m;
                    progress = true;
                    break;
                }
            }
        }
    }
    (best, msg)
}

/// `cases` executions of the leg's check, starting from generated inputs.
pub fn run(leg: &dyn Leg, cases: u64, seed: u64, shard: u64) -> Option<(LegResult, usize)> {
    let mut r = Rnd(TestRng::from_seed(RngAlgorithm::ChaCha, &crate::runner::derive_seed(&[&seed, &leg.name(), &shard, &"guided"])));
    let mut res = LegResult::default();
    let mut seen: HashSet<u32> = HashSet::new();
    let mut distinct: HashSet<String> = HashSet::new();
    let mut pool: Vec<(Value, Vec<Pair>)> = vec![];
    let seeds = leg.generate((cases / 8).clamp(16, 2000), seed ^ 0x5eed ^ (shard << 32));
    let shape = Shape::of(&seeds);
    if !shape.has_bytes {
        return None;
    }
    let mut feats = vec![0u32; 1 << 17];
    let mut pairs = vec![Pair::default(); 256];
    for i in 0..cases {
        let x = if pool.is_empty() || (i % 4 == 0 && (i as usize) < 4 * seeds.len()) {
            seeds[(i as usize / 4).min(seeds.len() - 1)].clone()
        } else {
            // later finds are nearer to the frontier
            let n = pool.len();
            let k = if r.below(2) == 0 { n - 1 - r.below(n.min(8)) } else { r.below(n) };
            mutate(&pool[k].0, &seeds, &pool, &shape, &pool[k].1, &mut r)
        };
        unsafe { cov_start() };
        let out = leg.replay(&x);
        unsafe { cov_stop() };
        if let Some(m) = broken(&out) {
            res.evaluations += 1;
            let (input, message) = minimise(leg, &shape, x, m);
            res.failure = Some(Failure { input, message });
            break;
        }
        match out {
            Err(_) | Ok(Err(_)) => continue, // not an input of this leg
            Ok(Ok(info)) => {
                res.evaluations += 1;
                if info.nontrivial {
                    res.nontrivial += 1;
                    if distinct.insert(x.to_string()) && res.samples.is_empty() && i > cases / 2 {
                        res.samples.push(x.clone());
                    }
                }
                for l in info.labels {
                    *res.labels.entry(l).or_default() += 1;
                }
                let n = unsafe { cov_features(feats.as_mut_ptr(), feats.len() as u32) } as usize;
                let mut fresh = false;
                for f in &feats[..n] {
                    fresh |= seen.insert(*f);
                }
                if fresh || pool.is_empty() {
                    let k = unsafe { cov_pairs(pairs.as_mut_ptr(), 256) } as usize;
                    let mut ps: Vec<Pair> = pairs[..k].to_vec();
                    ps.sort_by_key(|p| (p.size, p.a, p.b));
                    ps.dedup_by_key(|p| (p.size, p.a, p.b));
                    pool.push((x, ps));
                }
            }
        }
    }
    res.distinct_nontrivial = distinct.len() as u64;
    Some((res, seen.len()))
}
