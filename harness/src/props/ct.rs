//! C22: which branches are taken and which addresses are accessed does not depend on scalars, points or choices.
//! Only in the traced builds (feature `ct`): the code under test is compiled with SanitizerCoverage callbacks that hash
//! the edges taken and the addresses loaded and stored (ct/trace.c). A case is one secret input; its trace is compared with
//! that of a fixed reference input, for each operation. An optimised build looks for differences; a difference counts
//! when an unoptimised build of the same source (HARNESS_PEER) shows it too, so that neither what the optimiser adds
//! nor what it removes is judged.
use crate::forms::*;
use crate::gen::*;
use crate::runner::*;
use ed448_goldilocks::curve::{ExtendedPoint, MontgomeryPoint};
use ed448_goldilocks::decaf::{CompressedDecaf, DecafPoint};
use ed448_goldilocks::Scalar;
use proptest::prelude::*;
use serde::{de::DeserializeOwned, Serialize};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::RefCell;
use std::collections::HashMap;
use std::hint::black_box;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdout, Command, Stdio};
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq};

extern "C" {
    fn ct_start();
    fn ct_stop(hash: *mut u64, count: *mut u64);
    fn ct_alloc(size: usize, align: usize) -> *mut u8;
    fn ct_owns(p: *mut u8) -> i32;
}
pub struct Arena;
unsafe impl GlobalAlloc for Arena {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = ct_alloc(l.size(), l.align());
        if p.is_null() {
            System.alloc(l)
        } else {
            p
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ct_owns(p) == 0 {
            System.dealloc(p, l)
        }
    }
}
type Op<T> = (&'static str, fn(&T));
#[inline(never)]
fn trace<T>(f: fn(&T), x: &T) -> (u64, u64) {
    let (mut h, mut n) = (0, 0);
    unsafe {
        ct_start();
        f(x);
        ct_stop(&mut h, &mut n);
    }
    (h, n)
}
macro_rules! ops {
    ($t:ty; $($n:literal => |$x:ident| $b:expr;)*) => { vec![$(($n, { fn f($x: &$t) { black_box($b); } f as fn(&$t) }),)*] };
}

// ---------------------------------------------------------------- what is secret in each group of operations
pub struct ScalarIn {
    s: Scalar,
    t: Scalar,
    b: [u8; 56],
    w: [u8; 114],
}
struct Bytes([u8; 114]);
impl rand_core::RngCore for Bytes {
    fn next_u32(&mut self) -> u32 {
        rand_core::impls::next_u32_via_fill(self)
    }
    fn next_u64(&mut self) -> u64 {
        rand_core::impls::next_u64_via_fill(self)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for (i, b) in d.iter_mut().enumerate() {
            *b = self.0[i % 114];
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl rand_core::CryptoRng for Bytes {}
fn scalar_ops() -> Vec<Op<ScalarIn>> {
    ops![ScalarIn;
        "scalar addition" => |x| x.s + x.t;
        "scalar subtraction" => |x| x.s - x.t;
        "scalar multiplication" => |x| x.s * x.t;
        "scalar inversion" => |x| x.s.invert();
        "scalar halving" => |x| x.s.halve();
        "scalar ==" => |x| x.s == x.t;
        "scalar ct_eq" => |x| x.s.ct_eq(&x.t);
        "scalar to bytes" => |x| x.s.to_bytes();
        "scalar to 57 bytes" => |x| x.s.to_bytes_rfc_8032();
        "scalar from bytes" => |x| Scalar::from_bytes(x.b);
        "scalar bits" => |x| x.s.bits();
        "wide reduction" => |x| Scalar::from_bytes_mod_order_wide(&x.w);
        "random scalar" => |x| Scalar::random(&mut Bytes(x.w));
    ]
}
pub struct EdIn {
    s: Scalar,
    p: ExtendedPoint,
    q: ExtendedPoint,
    c: u8,
}
fn ed_ops() -> Vec<Op<EdIn>> {
    ops![EdIn;
        "point * scalar" => |x| e_mul(0, &x.p, &x.s);
        "scalar * point" => |x| e_mul(5, &x.p, &x.s);
        "point *= scalar" => |x| e_mul(8, &x.p, &x.s);
        "scalar_mul" => |x| e_mul(10, &x.p, &x.s);
        "point + point" => |x| e_add(0, &x.p, &x.q);
        "point += point" => |x| e_add(4, &x.p, &x.q);
        "point - point" => |x| e_sub(0, &x.p, &x.q);
        "-point" => |x| e_neg(0, &x.p);
        "doubling" => |x| x.p.double();
        "adding the 2-torsion point" => |x| x.p.torque();
        "point ==" => |x| x.p == x.q;
        "point ct_eq" => |x| x.p.ct_eq(&x.q);
        "conditional_select" => |x| ExtendedPoint::conditional_select(&x.p, &x.q, Choice::from(x.c));
        "conditional_assign" => |x| { let mut r = x.p; r.conditional_assign(&x.q, Choice::from(x.c)); r };
        "conditional_swap" => |x| { let (mut a, mut b) = (x.p, x.q); ExtendedPoint::conditional_swap(&mut a, &mut b, Choice::from(x.c)); (a, b) };
        "point encoding" => |x| x.p.compress();
        "to_affine" => |x| x.p.to_affine();
        "to_montgomery" => |x| x.p.to_montgomery();
        "to_twisted" => |x| x.p.to_twisted();
    ]
}
pub struct DecafIn {
    s: Scalar,
    p: DecafPoint,
    q: DecafPoint,
    a: CompressedDecaf,
    b: CompressedDecaf,
}
fn decaf_ops() -> Vec<Op<DecafIn>> {
    ops![DecafIn;
        "decaf * scalar" => |x| d_mul(0, &x.p, &x.s);
        "scalar * decaf" => |x| d_mul(1, &x.p, &x.s);
        "decaf * scalar, by value" => |x| d_mul(2, &x.p, &x.s);
        "scalar * decaf, by value" => |x| d_mul(3, &x.p, &x.s);
        "decaf + decaf" => |x| d_add(0, &x.p, &x.q);
        "decaf - decaf" => |x| d_sub(0, &x.p, &x.q);
        "-decaf" => |x| d_neg(0, &x.p);
        "decaf equals" => |x| x.p.equals(&x.q);
        "decaf encoding" => |x| x.p.compress();
        "decaf encoding ==" => |x| x.a == x.b;
        "decaf encoding ct_eq" => |x| x.a.ct_eq(&x.b);
    ]
}
pub struct MontIn {
    s: Scalar,
    u: MontgomeryPoint,
    v: MontgomeryPoint,
}
fn mont_ops() -> Vec<Op<MontIn>> {
    ops![MontIn;
        "u * scalar" => |x| m_mul(0, &x.u, &x.s);
        "scalar * u" => |x| m_mul(1, &x.u, &x.s);
        "u ==" => |x| x.u == x.v;
        "u ct_eq" => |x| x.u.ct_eq(&x.v);
    ]
}

// ---------------------------------------------------------------- comparing traces
/// the numbers of the operations whose trace differs from that of the reference input
fn differing<T>(ops: &[Op<T>], reference: &T, x: &T, only: Option<usize>) -> (Vec<usize>, u64) {
    let mut out = vec![];
    let mut events = 0;
    // both inputs are read from the same place
    let mut slot: Box<(u64, std::mem::ManuallyDrop<T>)> = Box::new((0, unsafe { std::mem::ManuallyDrop::new(std::ptr::read(reference)) }));
    for (i, (_, f)) in ops.iter().enumerate() {
        if only.map_or(false, |k| k != i) {
            continue;
        }
        let mut both = |slot: &mut Box<(u64, std::mem::ManuallyDrop<T>)>| unsafe {
            std::ptr::copy_nonoverlapping(reference, &mut *slot.1, 1);
            f(&slot.1); // anything set up on first use, outside the trace
            let a = trace(*f, &slot.1);
            std::ptr::copy_nonoverlapping(x, &mut *slot.1, 1);
            let b = trace(*f, &slot.1);
            events += a.1 + b.1;
            a != b
        };
        if both(&mut slot) && both(&mut slot) {
            out.push(i);
        }
    }
    (out, events)
}
struct Peer {
    child: Child,
    out: BufReader<ChildStdout>,
}
impl Drop for Peer {
    fn drop(&mut self) {
        self.child.kill().ok();
        self.child.wait().ok();
    }
}
thread_local! {
    static PEER: RefCell<Option<Peer>> = const { RefCell::new(None) };
    /// operations for which the optimised build differs and the unoptimised does not: not asked about every time
    static ARTEFACT: RefCell<HashMap<(&'static str, usize), u32>> = RefCell::new(Default::default());
}
/// does the unoptimised build differ on this input too?
fn confirmed<I: Serialize>(group: &str, op: usize, x: &I) -> bool {
    PEER.with(|c| {
        let mut c = c.borrow_mut();
        if c.is_none() {
            let path = std::env::var("HARNESS_PEER").unwrap_or_default();
            let mut child = Command::new(&path).arg("ctserve").stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().unwrap_or_else(|e| {
                eprintln!("cannot start {}: {}", path, e);
                std::process::exit(3);
            });
            let out = BufReader::new(child.stdout.take().unwrap());
            *c = Some(Peer { child, out });
        }
        let peer = c.as_mut().unwrap();
        let line = serde_json::to_string(&(group, op, serde_json::to_value(x).unwrap())).unwrap();
        let ok = writeln!(peer.child.stdin.as_mut().unwrap(), "{}", line).is_ok();
        let mut r = String::new();
        if !ok || peer.out.read_line(&mut r).unwrap_or(0) == 0 {
            eprintln!("the unoptimised build gave no answer");
            std::process::exit(3);
        }
        r.trim_end() == "differs"
    })
}
trait Group: 'static {
    const NAME: &'static str;
    type In: Input;
    type Built: 'static;
    fn ops() -> Vec<Op<Self::Built>>;
    fn build(x: &Self::In) -> Result<Self::Built, String>;
    fn reference() -> Self::In;
    fn strat() -> BoxedStrategy<Self::In>;
}
fn check<G: Group>(x: &G::In) -> Outcome {
    let ops = G::ops();
    let reference = G::build(&G::reference())?;
    let b = G::build(x)?;
    let (d, _) = differing(&ops, &reference, &b, None);
    let mut artefact = false;
    for i in d {
        let n = ARTEFACT.with(|a| a.borrow().get(&(G::NAME, i)).copied().unwrap_or(0));
        // once many inputs have shown the difference to be the optimiser's, only some of them are asked about
        if n > 16 && hash(x) % 16 != 0 {
            artefact = true;
            continue;
        }
        if confirmed(G::NAME, i, x) {
            return Err(format!("{}: the branches taken or the addresses accessed differ from those for the reference input {}", ops[i].0, serde_json::to_string(&G::reference()).unwrap_or_default()));
        }
        ARTEFACT.with(|a| *a.borrow_mut().entry((G::NAME, i)).or_insert(0) += 1);
        artefact = true;
    }
    Ok(Info::nt(serde_json::to_string(x).ok() != serde_json::to_string(&G::reference()).ok()).label(artefact, "differs in the optimised build only"))
}
fn hash<T: std::hash::Hash>(x: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
fn answer<G: Group>(op: usize, v: &serde_json::Value) -> Result<bool, String>
where
    G::In: DeserializeOwned,
{
    let x: G::In = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
    Ok(!differing(&G::ops(), &G::build(&G::reference())?, &G::build(&x)?, Some(op)).0.is_empty())
}
/// child side of `confirmed`
pub fn serve() {
    let mut out = std::io::stdout();
    for line in std::io::stdin().lock().lines() {
        let Ok(line) = line else { break };
        let Ok((g, op, v)) = serde_json::from_str::<(String, usize, serde_json::Value)>(&line) else { break };
        let r = match g.as_str() {
            "scalar" => answer::<GScalar>(op, &v),
            "edwards" => answer::<GEd>(op, &v),
            "decaf" => answer::<GDecaf>(op, &v),
            _ => answer::<GMont>(op, &v),
        };
        let t = match r {
            Ok(true) => "differs",
            Ok(false) => "same",
            Err(_) => break,
        };
        if writeln!(out, "{}", t).is_err() || out.flush().is_err() {
            break;
        }
    }
}
fn some(k: u8) -> B56 {
    let mut b = [0u8; 56];
    for (i, x) in b.iter_mut().enumerate() {
        *x = (i as u8).wrapping_mul(37).wrapping_add(k).wrapping_mul(101) ^ 0x5a;
    }
    Hex(b)
}
/// a scalar, and one that is equal to it, differs in one bit, or is unrelated
fn near_pair() -> BoxedStrategy<(B56, B56)> {
    (scalar(), scalar(), 0u8..4, 0usize..448)
        .prop_map(|(a, b, m, k)| {
            let mut c = if m < 3 { a } else { b };
            if m == 1 || m == 2 {
                c.0[k / 8] ^= 1 << (k % 8);
            }
            (a, c)
        })
        .boxed()
}
struct GScalar;
impl Group for GScalar {
    const NAME: &'static str = "scalar";
    type In = ((B56, B56), B114);
    type Built = ScalarIn;
    fn ops() -> Vec<Op<ScalarIn>> {
        scalar_ops()
    }
    fn build(x: &Self::In) -> Result<ScalarIn, String> {
        Ok(ScalarIn { s: x.0 .0.scalar(), t: x.0 .1.scalar(), b: x.0 .0 .0, w: x.1 .0 })
    }
    fn reference() -> Self::In {
        let mut w = [0x77u8; 114];
        w[..56].copy_from_slice(&some(3).0);
        ((some(1), some(2)), Hex(w))
    }
    fn strat() -> BoxedStrategy<Self::In> {
        (near_pair(), scalar(), scalar(), any::<[u8; 2]>())
            .prop_map(|(p, a, b, c)| {
                let mut w = [0u8; 114];
                w[..56].copy_from_slice(&a.0);
                w[56..112].copy_from_slice(&b.0);
                w[112..].copy_from_slice(&c);
                (p, Hex(w))
            })
            .boxed()
    }
}
struct GEd;
impl Group for GEd {
    const NAME: &'static str = "edwards";
    type In = (B56, Pt, Option<Pt>, bool);
    type Built = EdIn;
    fn ops() -> Vec<Op<EdIn>> {
        ed_ops()
    }
    fn build(x: &Self::In) -> Result<EdIn, String> {
        let p = x.1.build()?.0;
        let q = match &x.2 {
            Some(q) => q.build()?.0,
            None => p,
        };
        Ok(EdIn { s: x.0.scalar(), p, q, c: x.3 as u8 })
    }
    fn reference() -> Self::In {
        let pt = |k| Pt { base: Base::FromY(some(k), true), torsion: 0, rep: Rep::AddSub(9) };
        (some(1), pt(2), Some(pt(3)), false)
    }
    fn strat() -> BoxedStrategy<Self::In> {
        (scalar(), point(), proptest::option::weighted(0.8, point()), any::<bool>()).boxed()
    }
}
struct GDecaf;
impl Group for GDecaf {
    const NAME: &'static str = "decaf";
    type In = (B56, Dp, Option<Dp>, (B56, B56));
    type Built = DecafIn;
    fn ops() -> Vec<Op<DecafIn>> {
        decaf_ops()
    }
    fn build(x: &Self::In) -> Result<DecafIn, String> {
        let p = x.1.build()?.0;
        let q = match &x.2 {
            Some(q) => q.build()?.0,
            None => d_dup(&p),
        };
        Ok(DecafIn { s: x.0.scalar(), p, q, a: CompressedDecaf(x.3 .0 .0), b: CompressedDecaf(x.3 .1 .0) })
    }
    fn reference() -> Self::In {
        let dp = |k| Dp { base: DBase::FromS(some(k)), rep: DRep::AddSub(9) };
        (some(1), dp(2), Some(dp(3)), (some(4), some(5)))
    }
    fn strat() -> BoxedStrategy<Self::In> {
        (scalar(), decaf(), proptest::option::weighted(0.8, decaf()), near_pair()).boxed()
    }
}
struct GMont;
impl Group for GMont {
    const NAME: &'static str = "montgomery";
    type In = (B56, (B56, B56));
    type Built = MontIn;
    fn ops() -> Vec<Op<MontIn>> {
        mont_ops()
    }
    fn build(x: &Self::In) -> Result<MontIn, String> {
        Ok(MontIn { s: x.0.scalar(), u: x.1 .0.mont(), v: x.1 .1.mont() })
    }
    fn reference() -> Self::In {
        (some(1), (some(2), some(3)))
    }
    fn strat() -> BoxedStrategy<Self::In> {
        (scalar(), prop_oneof![near_pair(), (field(), field()).boxed()]).boxed()
    }
}
/// corner cases: the values an early exit would look for
fn corners() -> Vec<B56> {
    use crate::bn;
    let l = bn::l();
    let mut v: Vec<_> = (0..18).map(bn::from_u64).collect();
    for c in [l, bn::addc(&l, &l).0, bn::P, bn::shr1(&l), bn::shr1(&bn::P), bn::MAX] {
        v.extend([offset(&c, -1), c, offset(&c, 1)]);
    }
    v.extend((0..448).step_by(32).map(bn::pow2));
    v.push(bn::pow2(447));
    v.iter().map(B56::of).collect()
}
fn corner(i: u64) -> B56 {
    let c = corners();
    c[i as usize % c.len()]
}
fn points() -> Vec<Pt> {
    let mut v = vec![];
    for rep in [Rep::Decoded, Rep::AddSub(5)] {
        for torsion in 0..4 {
            v.push(Pt { base: Base::Identity, torsion, rep: rep.clone() });
            v.push(Pt { base: Base::Generator, torsion, rep: rep.clone() });
        }
    }
    v
}
fn elements() -> Vec<Dp> {
    let mut v = vec![];
    for rep in [DRep::Decoded, DRep::AddSub(5), DRep::AddSubRecoded(7)] {
        for base in [DBase::Identity, DBase::Generator, DBase::FromS(some(8))] {
            v.push(Dp { base, rep: rep.clone() });
        }
    }
    v
}
fn scalar_corner(i: u64) -> <GScalar as Group>::In {
    let n = corners().len() as u64;
    let mut w = [0u8; 114];
    w[..56].copy_from_slice(&corner(i / n).0);
    w[56..112].copy_from_slice(&corner(i).0);
    ((corner(i), corner(i / n)), Hex(w))
}
fn ed_corner(i: u64) -> <GEd as Group>::In {
    let p = points();
    (corner(i), p[i as usize % p.len()].clone(), if i % 3 == 0 { None } else { Some(p[(i / 5) as usize % p.len()].clone()) }, i % 2 == 0)
}
fn decaf_corner(i: u64) -> <GDecaf as Group>::In {
    let p = elements();
    (corner(i), p[i as usize % p.len()].clone(), if i % 4 == 0 { None } else { Some(p[(i / 5) as usize % p.len()].clone()) }, (corner(i), corner(i / 7)))
}
fn mont_corner(i: u64) -> <GMont as Group>::In {
    (corner(i), (corner(i / 3), corner(i / 5)))
}
pub fn c22() -> Vec<Box<dyn Leg>> {
    vec![
        Box::new(Sweep { name: "C22.scalar_corners", rule: "pairs of corner-case integers through the same; non-trivial: not the reference input", total: |_| (corners().len() * corners().len()) as u64, input: scalar_corner, check: check::<GScalar> }),
        Box::new(Sweep { name: "C22.edwards_corners", rule: "corner-case scalars, identity, base and torsion points; non-trivial: not the reference input", total: |t| if t { 3000 } else { 300 }, input: ed_corner, check: check::<GEd> }),
        Box::new(Sweep { name: "C22.decaf_corners", rule: "corner-case scalars, identity, base and another element; non-trivial: not the reference input", total: |t| if t { 3000 } else { 300 }, input: decaf_corner, check: check::<GDecaf> }),
        Box::new(Sweep { name: "C22.montgomery_corners", rule: "corner-case scalars and u-coordinates; non-trivial: not the reference input", total: |t| if t { 5000 } else { 500 }, input: mont_corner, check: check::<GMont> }),
        Box::new(Gen { name: "C22.scalar", rule: "pairs of scalars and wide integers; traces of 13 scalar operations compared with a reference input's; non-trivial: not the reference input", quick: 6_000, thorough: 120_000, strat: GScalar::strat, check: check::<GScalar> }),
        Box::new(Gen { name: "C22.edwards", rule: "scalar, two points, a choice; traces of 19 Edwards operations compared with a reference input's; non-trivial: not the reference input", quick: 1_000, thorough: 20_000, strat: GEd::strat, check: check::<GEd> }),
        Box::new(Gen { name: "C22.decaf", rule: "scalar, two Decaf elements, two encodings; traces of 11 Decaf operations compared with a reference input's; non-trivial: not the reference input", quick: 1_000, thorough: 20_000, strat: GDecaf::strat, check: check::<GDecaf> }),
        Box::new(Gen { name: "C22.montgomery", rule: "scalar and two u-coordinates; traces of 4 Montgomery operations compared with a reference input's; non-trivial: not the reference input", quick: 2_500, thorough: 50_000, strat: GMont::strat, check: check::<GMont> }),
    ]
}
