//! C16 (both back ends agree) and C19 (nothing panics): programs over the whole public API.
use crate::bn;
use crate::forms::*;
use crate::gen::*;
use crate::runner::*;
use ed448_goldilocks::curve::edwards::CompressedEdwardsY;
use ed448_goldilocks::curve::{ExtendedPoint, MontgomeryPoint};
use ed448_goldilocks::decaf::{CompressedDecaf, DecafPoint};
use ed448_goldilocks::ristretto::{CompressedRistretto, RistrettoPoint};
use ed448_goldilocks::Scalar;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Child, Command, Stdio};
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Op {
    // scalars
    SRaw(u8, B56),
    SCanon(u8, B57),
    SWide(u8, B114),
    SAdd(u8, u8, u8),
    SSub(u8, u8, u8),
    SMul(u8, u8, u8),
    SInv(u8, u8),
    SHalf(u8, u8),
    SLimb(u8, u8, u32),
    SView(u8),
    // Edwards
    EDec(u8, B57),
    EAdd(u8, u8, u8),
    ESub(u8, u8, u8),
    ENeg(u8, u8),
    EDbl(u8, u8),
    ETorque(u8, u8),
    EMul(u8, u8, u8),
    EMod4(u8, u8, u8),
    ESel(u8, u8, u8, bool),
    ETwist(u8, u8),
    EAff(u8, u8),
    ETf(u8),
    EEq(u8, u8),
    ESum(u8, Vec<u8>),
    // Montgomery
    MRaw(u8, B56),
    MOf(u8, u8),
    MMul(u8, u8, u8),
    MProj(u8, u8),
    MLow(u8),
    MEq(u8, u8),
    // Decaf
    DDec(u8, B56),
    DAdd(u8, u8, u8),
    DSub(u8, u8, u8),
    DNeg(u8, u8),
    DMul(u8, u8, u8),
    DEq(u8, u8),
    DBase(u8, bool),
    // the rest
    Misc,
}
struct M {
    s: [Scalar; 3],
    e: [ExtendedPoint; 3],
    m: [MontgomeryPoint; 3],
    d: [DecafPoint; 3],
    out: Vec<u8>,
}
/// which operator form a call uses: fixed by its registers, so that shrinking keeps it
fn form(d: u8, a: u8, b: u8) -> usize {
    a as usize + 3 * b as usize + 9 * d as usize
}
fn tag(b: bool) -> u8 {
    if b {
        1
    } else {
        0
    }
}
impl M {
    fn new() -> M {
        M {
            s: [Scalar::one(), Scalar::zero(), Scalar::from(2)],
            e: [ExtendedPoint::generator(), ExtendedPoint::identity(), ExtendedPoint::generator().double()],
            m: [MontgomeryPoint::generator(), MontgomeryPoint([0; 56]), MontgomeryPoint([1; 56])],
            d: [DecafPoint::generator(), DecafPoint::identity(), DecafPoint::generator()],
            out: vec![],
        }
    }
    fn so(&mut self, d: u8, v: Scalar) {
        self.out.extend(v.to_bytes());
        self.s[d as usize] = v;
    }
    fn eo(&mut self, d: u8, v: ExtendedPoint) {
        self.out.extend(v.compress().0);
        self.e[d as usize] = v;
    }
    fn mo(&mut self, d: u8, v: MontgomeryPoint) {
        self.out.extend(v.0);
        self.m[d as usize] = v;
    }
    fn doo(&mut self, d: u8, v: DecafPoint) {
        self.out.extend(v.compress().0);
        self.d[d as usize] = v;
    }
    fn step(&mut self, op: &Op) {
        match op {
            Op::SRaw(d, b) => self.so(*d, Scalar::from_bytes(b.0)),
            Op::SCanon(d, b) => match Scalar::from_canonical_bytes(b.0) {
                Some(v) => self.so(*d, v),
                None => self.out.push(0xee),
            },
            Op::SWide(d, b) => self.so(*d, Scalar::from_bytes_mod_order_wide(&b.0)),
            Op::SAdd(d, a, b) => self.so(*d, self.s[*a as usize] + self.s[*b as usize]),
            Op::SSub(d, a, b) => self.so(*d, self.s[*a as usize] - self.s[*b as usize]),
            Op::SMul(d, a, b) => self.so(*d, self.s[*a as usize] * self.s[*b as usize]),
            Op::SInv(d, a) => self.so(*d, self.s[*a as usize].invert()),
            Op::SHalf(d, a) => self.so(*d, self.s[*a as usize].halve()),
            Op::SLimb(d, i, v) => {
                let mut x = self.s[*d as usize];
                x[*i as usize % 14] = *v;
                self.so(*d, x)
            }
            Op::SView(a) => {
                let x = self.s[*a as usize];
                self.out.extend(x.to_bytes_rfc_8032());
                self.out.push(x.bits().iter().filter(|b| **b).count() as u8);
                self.out.extend(x[0].to_le_bytes());
            }
            Op::EDec(d, b) => match CompressedEdwardsY(b.0).decompress() {
                Some(v) => self.eo(*d, v),
                None => self.out.push(0xee),
            },
            Op::EAdd(d, a, b) => self.eo(*d, e_add(form(*d, *a, *b), &self.e[*a as usize], &self.e[*b as usize])),
            Op::ESub(d, a, b) => self.eo(*d, e_sub(form(*d, *a, *b), &self.e[*a as usize], &self.e[*b as usize])),
            Op::ENeg(d, a) => self.eo(*d, e_neg(form(*d, *a, 0), &self.e[*a as usize])),
            Op::EDbl(d, a) => self.eo(*d, self.e[*a as usize].double()),
            Op::ETorque(d, a) => self.eo(*d, self.e[*a as usize].torque()),
            Op::EMul(d, a, s) => self.eo(*d, e_mul(form(*d, *a, *s), &self.e[*a as usize], &self.s[*s as usize])),
            Op::EMod4(d, a, s) => self.eo(*d, self.e[*a as usize].scalar_mod_four(&self.s[*s as usize])),
            Op::ESel(d, a, b, c) => self.eo(*d, ExtendedPoint::conditional_select(&self.e[*a as usize], &self.e[*b as usize], Choice::from(tag(*c)))),
            Op::ETwist(d, a) => self.eo(*d, self.e[*a as usize].to_twisted().to_untwisted()),
            Op::EAff(d, a) => self.eo(*d, self.e[*a as usize].to_affine().to_extended()),
            Op::ETf(a) => {
                let b = self.e[*a as usize].is_torsion_free();
                self.out.push(tag(b))
            }
            Op::EEq(a, b) => {
                let (x, y) = (self.e[*a as usize], self.e[*b as usize]);
                self.out.push(tag(x == y) | tag(x.ct_eq(&y).into()) << 1)
            }
            Op::ESum(d, v) => {
                let s: ExtendedPoint = v.iter().map(|i| &self.e[*i as usize]).sum();
                self.eo(*d, s)
            }
            Op::MRaw(d, b) => self.mo(*d, MontgomeryPoint(b.0)),
            Op::MOf(d, a) => self.mo(*d, self.e[*a as usize].to_montgomery()),
            Op::MMul(d, a, s) => self.mo(*d, m_mul(form(*d, *a, *s), &self.m[*a as usize], &self.s[*s as usize])),
            Op::MProj(d, a) => self.mo(*d, self.m[*a as usize].to_projective().to_affine()),
            Op::MLow(a) => {
                let b = self.m[*a as usize].is_low_order();
                self.out.push(tag(b))
            }
            Op::MEq(a, b) => {
                let (x, y) = (self.m[*a as usize], self.m[*b as usize]);
                self.out.push(tag(x == y) | tag(x.ct_eq(&y).into()) << 1)
            }
            Op::DDec(d, b) => match CompressedDecaf(b.0).decompress() {
                Some(v) => self.doo(*d, v),
                None => self.out.push(0xee),
            },
            Op::DAdd(d, a, b) => self.doo(*d, d_add(form(*d, *a, *b), &self.d[*a as usize], &self.d[*b as usize])),
            Op::DSub(d, a, b) => self.doo(*d, d_sub(form(*d, *a, *b), &self.d[*a as usize], &self.d[*b as usize])),
            Op::DNeg(d, a) => self.doo(*d, d_neg(form(*d, *a, 0), &self.d[*a as usize])),
            Op::DMul(d, a, s) => self.doo(*d, d_mul(form(*d, *a, *s), &self.d[*a as usize], &self.s[*s as usize])),
            Op::DEq(a, b) => {
                let x = self.d[*a as usize].equals(&self.d[*b as usize]);
                self.out.push(tag(x))
            }
            Op::DBase(d, id) => self.doo(*d, if *id { DecafPoint::identity() } else { DecafPoint::generator() }),
            Op::Misc => {
                self.out.push(tag(RistrettoPoint::identity().equals(&RistrettoPoint::identity())));
                self.out.extend(CompressedRistretto::identity().as_bytes());
                self.out.extend(CompressedDecaf::identity().as_bytes());
                self.out.push(tag(CompressedDecaf::identity() == self.d[0].compress()));
                // formatting must not panic (its text is not compared)
                let _ = format!("{:?} {:?} {:?} {:?} {:?}", self.s[0], self.e[0], self.m[0], self.d[0], self.d[0].compress());
                let _ = format!("{:?} {:?}", CompressedRistretto::identity(), self.e[0].to_twisted());
                let mut z = self.m[0];
                zeroize::Zeroize::zeroize(&mut z);
                self.out.extend(z.as_bytes());
            }
        }
    }
}
pub fn exec(p: &[Op]) -> Vec<u8> {
    let mut m = M::new();
    for op in p {
        m.step(op);
    }
    m.out
}
/// what a program does, with a panic as an observable result
pub fn observe(p: &[Op]) -> String {
    match catch_unwind(AssertUnwindSafe(|| exec(p))) {
        Ok(o) => bn::hex(&o),
        Err(_) => "panic".into(),
    }
}

fn b57_enc() -> BoxedStrategy<B57> {
    prop_oneof![
        4 => point().prop_map(|p| Hex(p.model().encode())),
        2 => (field(), prop_oneof![3 => Just(0u8), 3 => Just(0x80u8), 1 => any::<u8>()]).prop_map(|(y, l)| { let mut r = [0u8; 57]; r[..56].copy_from_slice(&y.0); r[56] = l; Hex(r) }),
        1 => (point(), 0usize..456).prop_map(|(p, k)| { let mut r = p.model().encode(); r[k / 8] ^= 1 << (k % 8); Hex(r) }),
    ]
    .boxed()
}
fn b57_scalar() -> BoxedStrategy<B57> {
    (scalar(), prop_oneof![6 => Just(0u8), 1 => any::<u8>()]).prop_map(|(s, l)| { let mut r = [0u8; 57]; r[..56].copy_from_slice(&s.0); r[56] = l; Hex(r) }).boxed()
}
fn b56_decaf() -> BoxedStrategy<B56> {
    prop_oneof![
        3 => field().prop_map(|s| next_decaf(&s).0),
        2 => field(),
        1 => (field(), 0usize..448).prop_map(|(s, k)| { let mut r = next_decaf(&s).0; r.0[k / 8] ^= 1 << (k % 8); r }),
    ]
    .boxed()
}
pub fn op() -> BoxedStrategy<Op> {
    let r = || 0u8..3;
    let three = move || (0u8..3, 0u8..3, 0u8..3);
    let two = move || (0u8..3, 0u8..3);
    prop_oneof![
        8 => prop_oneof![
            3 => (r(), scalar()).prop_map(|(d, b)| Op::SRaw(d, b)),
            1 => (r(), b57_scalar()).prop_map(|(d, b)| Op::SCanon(d, b)),
            1 => (r(), crate::props::scalar::wide()).prop_map(|(d, b)| Op::SWide(d, b)),
            1 => three().prop_map(|(d, a, b)| Op::SAdd(d, a, b)),
            1 => three().prop_map(|(d, a, b)| Op::SSub(d, a, b)),
            1 => three().prop_map(|(d, a, b)| Op::SMul(d, a, b)),
            1 => two().prop_map(|(d, a)| Op::SInv(d, a)),
            1 => two().prop_map(|(d, a)| Op::SHalf(d, a)),
            1 => (r(), 0u8..14, prop_oneof![Just(0u32), Just(u32::MAX), any::<u32>()]).prop_map(|(d, i, v)| Op::SLimb(d, i, v)),
            1 => r().prop_map(Op::SView),
        ],
        10 => prop_oneof![
            4 => (r(), b57_enc()).prop_map(|(d, b)| Op::EDec(d, b)),
            3 => three().prop_map(|(d, a, b)| Op::EAdd(d, a, b)),
            3 => three().prop_map(|(d, a, b)| Op::ESub(d, a, b)),
            1 => two().prop_map(|(d, a)| Op::ENeg(d, a)),
            1 => two().prop_map(|(d, a)| Op::EDbl(d, a)),
            1 => two().prop_map(|(d, a)| Op::ETorque(d, a)),
            2 => three().prop_map(|(d, a, b)| Op::EMul(d, a, b)),
            1 => three().prop_map(|(d, a, b)| Op::EMod4(d, a, b)),
            1 => (three(), any::<bool>()).prop_map(|((d, a, b), c)| Op::ESel(d, a, b, c)),
            1 => two().prop_map(|(d, a)| Op::ETwist(d, a)),
            1 => two().prop_map(|(d, a)| Op::EAff(d, a)),
            1 => r().prop_map(Op::ETf),
            1 => two().prop_map(|(a, b)| Op::EEq(a, b)),
            1 => (r(), proptest::collection::vec(r(), 0..4)).prop_map(|(d, v)| Op::ESum(d, v)),
        ],
        5 => prop_oneof![
            2 => (r(), field()).prop_map(|(d, b)| Op::MRaw(d, b)),
            1 => two().prop_map(|(d, a)| Op::MOf(d, a)),
            2 => three().prop_map(|(d, a, b)| Op::MMul(d, a, b)),
            1 => two().prop_map(|(d, a)| Op::MProj(d, a)),
            1 => r().prop_map(Op::MLow),
            1 => two().prop_map(|(a, b)| Op::MEq(a, b)),
        ],
        6 => prop_oneof![
            3 => (r(), b56_decaf()).prop_map(|(d, b)| Op::DDec(d, b)),
            2 => three().prop_map(|(d, a, b)| Op::DAdd(d, a, b)),
            2 => three().prop_map(|(d, a, b)| Op::DSub(d, a, b)),
            1 => two().prop_map(|(d, a)| Op::DNeg(d, a)),
            1 => three().prop_map(|(d, a, b)| Op::DMul(d, a, b)),
            1 => two().prop_map(|(a, b)| Op::DEq(a, b)),
            1 => (r(), any::<bool>()).prop_map(|(d, b)| Op::DBase(d, b)),
        ],
        1 => Just(Op::Misc),
    ]
    .boxed()
}
fn program() -> BoxedStrategy<Vec<Op>> {
    proptest::collection::vec(op(), 1..28).boxed()
}
fn kinds(p: &[Op]) -> usize {
    p.iter().map(std::mem::discriminant).collect::<std::collections::HashSet<_>>().len()
}

// ---------------------------------------------------------------- C19
fn no_panic(p: &Vec<Op>) -> Outcome {
    let o = exec(p);
    Ok(Info::nt(kinds(p) >= 3).label(!o.is_empty(), "has output").label(p.len() >= 15, "15+ calls"))
}
/// arbitrary bytes into every byte-taking entry point
fn entry(x: &(B57, B57)) -> Outcome {
    let mut b56 = [0u8; 56];
    b56.copy_from_slice(&x.0 .0[..56]);
    let mut c56 = [0u8; 56];
    c56.copy_from_slice(&x.1 .0[..56]);
    let mut w = [0u8; 114];
    w[..57].copy_from_slice(&x.0 .0);
    w[57..].copy_from_slice(&x.1 .0);
    let p = vec![
        Op::SRaw(0, Hex(b56)),
        Op::SCanon(1, x.0),
        Op::SWide(1, Hex(w)),
        Op::SRaw(2, Hex(c56)),
        Op::SAdd(1, 0, 2),
        Op::SSub(1, 0, 2),
        Op::SMul(1, 0, 2),
        Op::SInv(1, 2),
        Op::SHalf(1, 2),
        Op::EDec(0, x.0),
        Op::EDec(1, x.1),
        Op::EAdd(2, 0, 1),
        Op::EMul(2, 0, 0),
        Op::MRaw(0, Hex(b56)),
        Op::MLow(0),
        Op::MProj(1, 0),
        Op::MMul(2, 0, 2),
        Op::DDec(0, Hex(b56)),
        Op::DDec(1, Hex(c56)),
        Op::DAdd(2, 0, 1),
        Op::DMul(2, 0, 0),
        Op::DEq(0, 1),
        Op::DSub(2, 1, 0),
        Op::DNeg(2, 2),
        Op::ETf(0),
        Op::ETorque(2, 1),
        Op::EDbl(2, 0),
        Op::ESub(2, 2, 1),
        Op::ENeg(2, 2),
        Op::EMod4(2, 2, 0),
        Op::EEq(0, 1),
        Op::ETwist(2, 0),
        Op::EAff(2, 0),
        Op::MOf(2, 0),
        Op::SView(0),
        Op::Misc,
    ];
    exec(&p);
    Ok(Info::nt(x.0 .0 != [0; 57]))
}
fn entry_strat() -> BoxedStrategy<(B57, B57)> {
    let one = || {
        prop_oneof![
            2 => b57_enc(),
            2 => (field(), any::<u8>()).prop_map(|(y, l)| { let mut r = [0u8; 57]; r[..56].copy_from_slice(&y.0); r[56] = l; Hex(r) }),
            2 => b57_scalar(),
            1 => (b56_decaf(), any::<u8>()).prop_map(|(y, l)| { let mut r = [0u8; 57]; r[..56].copy_from_slice(&y.0); r[56] = l; Hex(r) }),
            1 => proptest::collection::vec(any::<u8>(), 57).prop_map(|v| { let mut r = [0u8; 57]; r.copy_from_slice(&v); Hex(r) }),
        ]
    };
    (one(), one()).boxed()
}
fn entry_input(i: u64) -> (B57, B57) {
    let v = special_set();
    let n = v.len() as u64;
    let mk = |k: u64, l: u8| {
        let mut r = [0u8; 57];
        r[..56].copy_from_slice(&bn::to_bytes(&v[(k % n) as usize]));
        r[56] = l;
        Hex(r)
    };
    (mk(i, if i % 2 == 0 { 0 } else { (i % 256) as u8 }), mk(i * 31 + 7, if i % 3 == 0 { 0x80 } else { 0 }))
}
pub fn c19() -> Vec<Box<dyn Leg>> {
    vec![
        Box::new(Sweep { name: "C19.special", rule: "boundary integers through every byte-taking entry point; non-trivial: not all zero", total: |_| special_set().len() as u64 * 2, input: entry_input, check: entry }),
        Box::new(Gen { name: "C19.entry", rule: "arbitrary byte strings through every byte-taking entry point; non-trivial: not all zero", quick: 24_000, thorough: 480_000, strat: entry_strat, check: entry }),
        Box::new(Gen { name: "C19.program", rule: "programs of up to 27 public calls under overflow checks; non-trivial: three or more kinds of call", quick: 24_000, thorough: 480_000, strat: program, check: no_panic }),
    ]
}

// ---------------------------------------------------------------- C16
struct Peer {
    child: Child,
    out: BufReader<std::process::ChildStdout>,
}
impl Drop for Peer {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
thread_local! {
    static PEER: RefCell<Option<Peer>> = const { RefCell::new(None) };
}
/// The other build's answer, from a child process owned by this thread.
fn ask_peer(p: &[Op]) -> String {
    PEER.with(|c| {
        let mut c = c.borrow_mut();
        if c.is_none() {
            let path = match std::env::var("HARNESS_PEER") {
                Ok(p) => p,
                Err(_) => {
                    eprintln!("HARNESS_PEER is not set");
                    std::process::exit(3);
                }
            };
            let mut child = Command::new(&path).arg("serve").stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().unwrap_or_else(|e| {
                eprintln!("cannot start {}: {}", path, e);
                std::process::exit(3);
            });
            let out = BufReader::new(child.stdout.take().unwrap());
            *c = Some(Peer { child, out });
        }
        let peer = c.as_mut().unwrap();
        let line = serde_json::to_string(p).unwrap();
        let ok = writeln!(peer.child.stdin.as_mut().unwrap(), "{}", line).is_ok();
        let mut r = String::new();
        if !ok || peer.out.read_line(&mut r).unwrap_or(0) == 0 {
            *c = None;
            return "crash".into();
        }
        r.trim_end().to_string()
    })
}
/// child side of `ask_peer`
pub fn serve() {
    let stdin = std::io::stdin();
    let mut out = std::io::stdout();
    for line in stdin.lock().lines() {
        let Ok(line) = line else { break };
        let Ok(p) = serde_json::from_str::<Vec<Op>>(&line) else { break };
        if writeln!(out, "{}", observe(&p)).is_err() || out.flush().is_err() {
            break;
        }
    }
}
fn agree(p: &Vec<Op>) -> Outcome {
    let a = observe(p);
    let b = ask_peer(p);
    if a != b {
        // name the first call whose outcome differs
        let mut k = p.len();
        for i in 1..=p.len() {
            if observe(&p[..i]) != ask_peer(&p[..i]) {
                k = i;
                break;
            }
        }
        let (a, b) = (observe(&p[..k]), ask_peer(&p[..k]));
        let pre = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count() / 2 * 2;
        let cut = |s: &str| s.get(pre..(pre + 130).min(s.len())).unwrap_or(s).to_string();
        return Err(format!("call {} {:?}: this back end gives {} and the other gives {}", k - 1, p[k - 1], cut(&a), cut(&b)));
    }
    Ok(Info::nt(kinds(p) >= 3 && a != "panic").label(p.len() >= 15, "15+ calls"))
}
fn agree_entry(x: &(B57, B57)) -> Outcome {
    let mut b56 = [0u8; 56];
    b56.copy_from_slice(&x.0 .0[..56]);
    let mut c56 = [0u8; 56];
    c56.copy_from_slice(&x.1 .0[..56]);
    let p = vec![
        Op::SRaw(0, Hex(b56)),
        Op::SCanon(1, x.0),
        Op::SRaw(2, Hex(c56)),
        Op::EDec(0, x.0),
        Op::EDec(1, x.1),
        Op::EAdd(2, 0, 1),
        Op::EMul(2, 2, 0),
        Op::MOf(1, 2),
        Op::MRaw(0, Hex(b56)),
        Op::MLow(0),
        Op::MProj(1, 0),
        Op::MMul(2, 0, 2),
        Op::DDec(0, Hex(b56)),
        Op::DDec(1, Hex(c56)),
        Op::DSub(2, 0, 1),
        Op::DMul(2, 2, 0),
        Op::DEq(0, 1),
        Op::ETf(0),
        Op::ETorque(2, 1),
        Op::EEq(0, 1),
        Op::ETwist(2, 0),
        Op::SInv(1, 0),
        Op::SHalf(1, 0),
        Op::SSub(1, 0, 2),
        Op::SView(0),
    ];
    let mut r = agree(&p)?;
    r.nontrivial = x.0 .0 != [0; 57];
    Ok(r)
}
pub fn c16() -> Vec<Box<dyn Leg>> {
    vec![
        Box::new(Sweep { name: "C16.special", rule: "boundary integers through every byte-taking entry point, both builds compared; non-trivial: not all zero", total: |_| special_set().len() as u64 * 2, input: entry_input, check: agree_entry }),
        Box::new(Gen { name: "C16.entry", rule: "byte strings through every byte-taking entry point, both builds compared; non-trivial: not all zero", quick: 10_000, thorough: 200_000, strat: entry_strat, check: agree_entry }),
        Box::new(Gen { name: "C16.program", rule: "programs of up to 27 public calls, both builds compared call by call; non-trivial: three or more kinds of call, no panic", quick: 16_000, thorough: 320_000, strat: program, check: agree }),
    ]
}
