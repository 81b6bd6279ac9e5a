//! C23: calls depend on their arguments only, not on earlier calls, their order, or what other threads do.
use crate::bn;
use crate::ensure;
use crate::forms::*;
use crate::gen::*;
use crate::runner::*;
use ed448_goldilocks::curve::edwards::CompressedEdwardsY;
use ed448_goldilocks::curve::{ExtendedPoint, MontgomeryPoint};
use ed448_goldilocks::decaf::{CompressedDecaf, DecafPoint};
use ed448_goldilocks::Scalar;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Command, Stdio};
use std::sync::Barrier;

/// one public call on arguments given as bytes
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Call {
    SAdd(B56, B56),
    SSub(B56, B56),
    SMul(B56, B56),
    SInv(B56),
    SHalf(B56),
    SWide(B56, B56),
    SCanon(B57),
    SRandom(B56, B56),
    EDec(B57),
    EAdd(B57, B57, u8),
    ESub(B57, B57, u8),
    EMul(B57, B56, u8),
    EMod4(B57, B56),
    EOther(B57),
    EEq(B57, B57),
    MMul(B56, B56, u8),
    MLow(B56),
    DDec(B56),
    DAdd(B56, B56, u8),
    DSub(B56, B56, u8),
    DMul(B56, B56, u8),
    DEq(B56, B56),
}
struct Supply(Vec<u8>, usize);
impl rand_core::RngCore for Supply {
    fn next_u32(&mut self) -> u32 {
        rand_core::impls::next_u32_via_fill(self)
    }
    fn next_u64(&mut self) -> u64 {
        rand_core::impls::next_u64_via_fill(self)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for b in d {
            // after the given bytes, something that a rejection loop gets out of
            *b = self.0.get(self.1).copied().unwrap_or((self.1 as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15).to_le_bytes()[6]);
            self.1 += 1;
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl rand_core::CryptoRng for Supply {}

fn ed(b: &B57) -> Option<ExtendedPoint> {
    CompressedEdwardsY(b.0).decompress()
}
fn de(b: &B56) -> Option<DecafPoint> {
    CompressedDecaf(b.0).decompress()
}
fn perform(c: &Call) -> Option<Vec<u8>> {
    let s = |x: Scalar| Some(x.to_bytes().to_vec());
    // the sum with G involves every coordinate
    let e = |x: ExtendedPoint| Some([&x.compress().0[..], &(x + ExtendedPoint::generator()).compress().0[..]].concat());
    let d = |x: DecafPoint| Some([&x.compress().0[..], &(&x + &DecafPoint::generator()).compress().0[..]].concat());
    match c {
        Call::SAdd(a, b) => s(a.scalar() + b.scalar()),
        Call::SSub(a, b) => s(a.scalar() - b.scalar()),
        Call::SMul(a, b) => s(a.scalar() * b.scalar()),
        Call::SInv(a) => s(a.scalar().invert()),
        Call::SHalf(a) => s(a.scalar().halve()),
        Call::SWide(a, b) => {
            let mut w = [0u8; 114];
            w[..56].copy_from_slice(&a.0);
            w[58..].copy_from_slice(&b.0);
            s(Scalar::from_bytes_mod_order_wide(&w))
        }
        Call::SCanon(b) => s(Scalar::from_canonical_bytes(b.0)?),
        Call::SRandom(a, b) => {
            let mut r = Supply([a.0, b.0, a.0].concat(), 0);
            let x = Scalar::random(&mut r);
            Some([&x.to_bytes()[..], &(r.1 as u64).to_le_bytes()].concat())
        }
        Call::EDec(b) => e(ed(b)?),
        Call::EAdd(a, b, f) => e(e_add(*f as usize, &ed(a)?, &ed(b)?)),
        Call::ESub(a, b, f) => e(e_sub(*f as usize, &ed(a)?, &ed(b)?)),
        Call::EMul(a, k, f) => e(e_mul(*f as usize, &ed(a)?, &k.scalar())),
        Call::EMod4(a, k) => e(ed(a)?.scalar_mod_four(&k.scalar())),
        Call::EOther(a) => {
            let p = ed(a)?;
            let mut r = e(p.double())?;
            r.extend(e(p.torque())?);
            r.extend(e(-p)?);
            r.extend(e(p.to_twisted().to_untwisted())?);
            r.extend(p.to_montgomery().0);
            r.push(p.is_torsion_free() as u8);
            Some(r)
        }
        Call::EEq(a, b) => Some(vec![(ed(a)? == ed(b)?) as u8]),
        Call::MMul(u, k, f) => Some(m_mul(*f as usize, &MontgomeryPoint(u.0), &k.scalar()).0.to_vec()),
        Call::MLow(u) => Some(vec![MontgomeryPoint(u.0).is_low_order() as u8]),
        Call::DDec(b) => d(de(b)?),
        Call::DAdd(a, b, f) => d(d_add(*f as usize, &de(a)?, &de(b)?)),
        Call::DSub(a, b, f) => d(d_sub(*f as usize, &de(a)?, &de(b)?)),
        Call::DMul(a, k, f) => d(d_mul(*f as usize, &de(a)?, &k.scalar())),
        Call::DEq(a, b) => Some(vec![de(a)?.equals(&de(b)?) as u8]),
    }
}
fn result(c: &Call) -> String {
    match catch_unwind(AssertUnwindSafe(|| perform(c))) {
        Ok(Some(v)) => bn::hex(&v),
        Ok(None) => "rejected".into(),
        Err(_) => "panic".into(),
    }
}
/// The values a history draws its arguments from: a scalar, a point, a u-coordinate and a Decaf element, each with relatives.
#[derive(Clone, Debug)]
struct Family {
    s: Vec<B56>,
    e: Vec<B57>,
    u: Vec<B56>,
    d: Vec<B56>,
}
fn family() -> BoxedStrategy<Family> {
    let v = || proptest::collection::vec(kin(), 3);
    (scalar(), point(), field(), decaf(), v(), v(), v(), v())
        .prop_map(|(s, p, u, d, a, b, c, k)| {
            let l = bn::l();
            let mut f = Family { s: vec![s], e: vec![Hex(p.model().encode())], u: vec![u], d: vec![] };
            f.s.extend(a.iter().map(|k| relative(&s, k, &l)));
            f.e.extend(b.iter().map(|k| Hex(relative_pt(&p, k).model().encode())));
            f.u.extend(c.iter().map(|k| relative(&u, k, &bn::P)));
            let m = d.model();
            f.d.push(Hex(m.decaf_encode()));
            f.d.push(Hex(m.neg().decaf_encode()));
            f.d.push(Hex(m.dbl().decaf_encode()));
            f.d.push(relative(&f.d[0], &k[0], &bn::P));
            // the same bytes in another role
            f.u.push(f.s[0]);
            f.s.push(f.u[1]);
            f
        })
        .boxed()
}
fn make(f: &Family, c: &(u8, u8, u8, u8)) -> Call {
    let s = |k: u8| f.s[k as usize % f.s.len()];
    let e = |k: u8| f.e[k as usize % f.e.len()];
    let u = |k: u8| f.u[k as usize % f.u.len()];
    let d = |k: u8| f.d[k as usize % f.d.len()];
    let (_, a, b, g) = *c;
    match c.0 % 27 {
        0 => Call::SAdd(s(a), s(b)),
        1 => Call::SSub(s(a), s(b)),
        2 => Call::SMul(s(a), s(b)),
        3 => Call::SInv(s(a)),
        4 => Call::SHalf(s(a)),
        5 => Call::SWide(s(a), s(b)),
        6 => {
            let mut x = [0u8; 57];
            x[..56].copy_from_slice(&s(a).0);
            Call::SCanon(Hex(x))
        }
        7 => Call::SRandom(s(a), s(b)),
        8 | 9 => {
            let mut x = e(a).0;
            x[56] ^= if b % 3 == 0 { 0x80 } else { 0 };
            Call::EDec(Hex(x))
        }
        10 => Call::EAdd(e(a), e(b), g),
        11 => Call::ESub(e(a), e(b), g),
        12 | 13 | 14 => Call::EMul(e(a), s(b), g),
        15 => Call::EMod4(e(a), s(b)),
        16 => Call::EOther(e(a)),
        17 => Call::EEq(e(a), e(b)),
        18 | 19 => Call::MMul(u(a), s(b), g),
        20 => Call::MLow(u(a)),
        21 | 22 => Call::DDec(d(a)),
        23 => Call::DAdd(d(a), d(b), g),
        24 => Call::DSub(d(a), d(b), g),
        25 => Call::DMul(d(a), s(b), g),
        _ => Call::DEq(d(a), d(b)),
    }
}
fn calls(max: usize) -> BoxedStrategy<Vec<Call>> {
    (family(), proptest::collection::vec(any::<(u8, u8, u8, u8)>(), 2..max)).prop_map(|(f, v)| v.iter().map(|c| make(&f, c)).collect()).boxed()
}
fn distinct(v: &[Call]) -> bool {
    v.iter().collect::<std::collections::HashSet<_>>().len() >= 2
}
fn order(v: &Vec<Call>) -> Outcome {
    let first: Vec<String> = v.iter().map(result).collect();
    for i in (0..v.len()).rev() {
        let again = result(&v[i]);
        ensure!(again == first[i], "call {} {:?}: {} the first time, {} in the reverse order", i, v[i], first[i], again);
    }
    // each call directly after each neighbour two further on
    for i in 0..v.len() {
        let j = (i + 2) % v.len();
        result(&v[j]);
        let again = result(&v[i]);
        ensure!(again == first[i], "call {} {:?}: {} the first time, {} after call {}", i, v[i], first[i], again, j);
    }
    Ok(Info::nt(distinct(v)))
}
/// a call, the same call with one argument replaced by a relative, and an unrelated call of the same kind
fn pair() -> BoxedStrategy<Vec<Call>> {
    (family(), family(), any::<(u8, u8, u8, u8)>(), 1u8..4, any::<bool>(), any::<u8>())
        .prop_map(|(f, o, c, d, which, g)| {
            let b = if which { (c.0, c.1.wrapping_add(d), c.2, g) } else { (c.0, c.1, c.2.wrapping_add(d), g) };
            vec![make(&f, &c), make(&f, &b), make(&o, &c)]
        })
        .boxed()
}
fn pairs(v: &Vec<Call>) -> Outcome {
    let (a, b, x) = (&v[0], &v[1 % v.len()], &v[v.len() - 1]);
    let mut seen: Vec<(&Call, String)> = vec![];
    for (k, c) in [a, b, x, b, a, x, a, a].into_iter().enumerate() {
        let r = result(c);
        match seen.iter().find(|s| s.0 == c) {
            Some(s) => ensure!(s.1 == r, "{:?}: {} the first time, {} in step {} of A B X B A X A A", c, s.1, r, k),
            None => seen.push((c, r)),
        }
    }
    Ok(Info::nt(a != b))
}
/// child side of `fresh`
pub fn call_once() {
    let mut t = String::new();
    std::io::stdin().read_to_string(&mut t).ok();
    if let Ok(c) = serde_json::from_str::<Call>(&t) {
        print!("{}", result(&c));
    }
}
fn fresh(v: &Vec<Call>) -> Outcome {
    let first: Vec<String> = v.iter().map(result).collect();
    let i = v.len() - 1;
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let run = || -> std::io::Result<String> {
        let mut child = Command::new(&exe).arg("callonce").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn()?;
        child.stdin.take().unwrap().write_all(serde_json::to_string(&v[i])?.as_bytes())?;
        let out = child.wait_with_output()?;
        Ok(String::from_utf8_lossy(&out.stdout).into_owned())
    };
    let alone = match run() {
        Ok(t) if !t.is_empty() => t,
        _ => {
            eprintln!("the child process gave no answer");
            std::process::exit(3);
        }
    };
    ensure!(alone == first[i], "call {} {:?}: {} after the others, {} alone in a fresh process", i, v[i], first[i], alone);
    Ok(Info::nt(distinct(v)))
}
fn threads(v: &Vec<Call>) -> Outcome {
    const N: usize = 4;
    let alone: Vec<String> = v.iter().map(result).collect();
    let start = Barrier::new(N);
    let got: Vec<Vec<(usize, String)>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..N)
            .map(|t| {
                let start = &start;
                s.spawn(move || {
                    start.wait();
                    (0..v.len()).map(|k| if t % 2 == 0 { (k + t) % v.len() } else { v.len() - 1 - (k + t) % v.len() }).map(|i| (i, result(&v[i]))).collect()
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
    });
    for g in got {
        for (i, r) in g {
            ensure!(r == alone[i], "call {} {:?}: {} alone, {} while other threads run the same calls", i, v[i], alone[i], r);
        }
    }
    Ok(Info::nt(distinct(v)))
}
pub fn c23() -> Vec<Box<dyn Leg>> {
    vec![
        Box::new(Gen { name: "C23.order", rule: "up to 9 calls on related arguments: in order, in reverse, each after another; non-trivial: two or more different calls", quick: 6_000, thorough: 240_000, strat: || calls(10), check: order }),
        Box::new(Gen { name: "C23.pairs", rule: "calls A, B with one argument replaced by a relative, X unrelated, made in the order A B X B A X A A; non-trivial: A and B differ", quick: 14_000, thorough: 400_000, strat: pair, check: pairs }),
        Box::new(Gen { name: "C23.fresh", rule: "the last of up to 5 calls on related arguments, against the same call alone in a fresh process; non-trivial: two or more different calls", quick: 4_000, thorough: 80_000, strat: || calls(6), check: fresh }),
        Box::new(Gen { name: "C23.threads", rule: "up to 9 calls on related arguments by four threads at once in different orders, against one thread; non-trivial: two or more different calls", quick: 4_000, thorough: 120_000, strat: || calls(10), check: threads }),
    ]
}
