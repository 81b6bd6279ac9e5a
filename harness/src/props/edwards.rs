//! C05 - C09 and the core of C18: the Ed448 curve.
use crate::bn::{self, Fp};
use crate::ensure;
use crate::forms::*;
use crate::gen::*;
use crate::refcurve::Ed;
use crate::runner::*;
use ed448_goldilocks::curve::edwards::CompressedEdwardsY;
use ed448_goldilocks::curve::ExtendedPoint;
use ed448_goldilocks::Scalar;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// The library's point is the model point, as seen through its encoding and (if `deep`) through one more addition,
/// which also reads the coordinates the encoding does not show.
pub fn same(what: &str, p: &ExtendedPoint, m: Ed, deep: bool) -> Result<(), String> {
    let (g, w) = (p.compress().0, m.encode());
    ensure!(g == w, "{}: got {} want {}", what, bn::hex(&g), bn::hex(&w));
    if deep {
        let q = p.add(&ExtendedPoint::generator());
        let (g, w) = (q.compress().0, m.add(Ed::gen()).encode());
        ensure!(g == w, "({}) + G: got {} want {}", what, bn::hex(&g), bn::hex(&w));
    }
    Ok(())
}

/// How the second operand relates to the first.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Rel {
    Free(Pt),
    /// +-P plus k times the order-4 point, in this representation
    Of(bool, u8, Rep),
    /// +-2P plus torsion
    Twice(bool, u8, Rep),
}
pub fn rel() -> BoxedStrategy<Rel> {
    prop_oneof![
        4 => point().prop_map(Rel::Free),
        3 => (any::<bool>(), 0u8..4, rep()).prop_map(|(n, t, r)| Rel::Of(n, t, r)),
        1 => (any::<bool>(), 0u8..4, rep()).prop_map(|(n, t, r)| Rel::Twice(n, t, r)),
    ]
    .boxed()
}
pub fn related(p: Ed, r: &Rel) -> Result<(ExtendedPoint, Ed), String> {
    let (m, rep) = match r {
        Rel::Free(q) => return q.build(),
        Rel::Of(n, t, rep) => (if *n { p.neg() } else { p }.add(Ed::torsion(*t)), rep),
        Rel::Twice(n, t, rep) => (if *n { p.dbl().neg() } else { p.dbl() }.add(Ed::torsion(*t)), rep),
    };
    let q = Pt { base: Base::Identity, torsion: 0, rep: rep.clone() };
    Ok((q.rep_lib(lib_point(m)?), m))
}

// ---------------------------------------------------------------- C05
fn pair_strat() -> BoxedStrategy<(Pt, Rel)> {
    (point(), rel()).boxed()
}
fn pair(x: &(Pt, Rel)) -> Outcome {
    let (p, mp) = x.0.build()?;
    let (q, mq) = related(mp, &x.1)?;
    same("p", &p, mp, true)?;
    same("q", &q, mq, true)?;
    let sum = mp.add(mq);
    let dif = mp.sub(mq);
    same("&p + &q", &(&p + &q), sum, true)?;
    same("&q + &p", &(&q + &p), sum, true)?;
    same("&p - &q", &(&p - &q), dif, true)?;
    same("&q - &p", &(&q - &p), dif.neg(), true)?;
    same("double", &p.double(), mp.dbl(), true)?;
    same("negate", &p.negate(), mp.neg(), true)?;
    same("torque", &p.torque(), mp.add(Ed::torsion(2)), true)?;
    // the other forms of the same operations
    let s = &p + &q;
    let d = &p - &q;
    for (n, r) in [("p + q", p + q), ("p + &q", p + &q), ("&p + q", &p + q), ("p.add(&q)", p.add(&q))] {
        ensure!(r == s, "{} differs from &p + &q", n);
        same(n, &r, sum, false)?;
    }
    for (n, r) in [("p - q", p - q), ("p - &q", p - &q), ("&p - q", &p - q)] {
        ensure!(r == d, "{} differs from &p - &q", n);
        same(n, &r, dif, false)?;
    }
    let mut r = p;
    r += q;
    same("p += q", &r, sum, true)?;
    let mut r = p;
    r += &q;
    same("p += &q", &r, sum, true)?;
    let mut r = p;
    r -= q;
    same("p -= q", &r, dif, true)?;
    let mut r = p;
    r -= &q;
    same("p -= &q", &r, dif, true)?;
    same("-p", &-p, mp.neg(), true)?;
    same("-&p", &-&p, mp.neg(), true)?;
    let v = [p, q, s];
    same("sum of references", &v.iter().sum::<ExtendedPoint>(), sum.dbl(), true)?;
    same("sum of values", &v.iter().copied().sum::<ExtendedPoint>(), sum.dbl(), true)?;
    // doubling of the sum reads T of the sum
    same("2(p+q)", &s.double(), sum.dbl(), false)?;
    let t = mp.is_4_torsion() || mq.is_4_torsion();
    Ok(Info::nt(!mp.is_id() && !mq.is_id())
        .label(mp.eq(mq), "equal")
        .label(mp.eq(mq.neg()), "opposite")
        .label(t, "a 4-torsion operand"))
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum EOp {
    Load(u8, Pt),
    Add(u8, u8, u8),
    Sub(u8, u8, u8),
    AddAssign(u8, u8),
    SubAssign(u8, u8),
    Neg(u8, u8),
    Dbl(u8, u8),
    Torque(u8, u8),
    Tors(u8, u8),
    Sum(u8, Vec<u8>),
    SumOwned(u8, Vec<u8>),
    ModFour(u8, u8, u8),
    Affine(u8, u8),
    Recode(u8, u8),
}
fn eop() -> BoxedStrategy<EOp> {
    let r = || 0u8..4;
    prop_oneof![
        1 => (r(), point()).prop_map(|(d, p)| EOp::Load(d, p)),
        5 => (r(), r(), r()).prop_map(|(d, a, b)| EOp::Add(d, a, b)),
        5 => (r(), r(), r()).prop_map(|(d, a, b)| EOp::Sub(d, a, b)),
        2 => (r(), r()).prop_map(|(a, b)| EOp::AddAssign(a, b)),
        2 => (r(), r()).prop_map(|(a, b)| EOp::SubAssign(a, b)),
        2 => (r(), r()).prop_map(|(a, b)| EOp::Neg(a, b)),
        3 => (r(), r()).prop_map(|(a, b)| EOp::Dbl(a, b)),
        2 => (r(), r()).prop_map(|(a, b)| EOp::Torque(a, b)),
        1 => (r(), r()).prop_map(|(a, b)| EOp::Tors(a, b)),
        1 => (r(), proptest::collection::vec(r(), 0..6)).prop_map(|(d, v)| EOp::Sum(d, v)),
        1 => (r(), proptest::collection::vec(r(), 0..6)).prop_map(|(d, v)| EOp::SumOwned(d, v)),
        1 => (r(), r(), any::<u8>()).prop_map(|(d, a, k)| EOp::ModFour(d, a, k)),
        1 => (r(), r()).prop_map(|(a, b)| EOp::Affine(a, b)),
        1 => (r(), r()).prop_map(|(a, b)| EOp::Recode(a, b)),
    ]
    .boxed()
}
fn hist_strat() -> BoxedStrategy<(Pt, Pt, Vec<EOp>)> {
    (point(), point(), proptest::collection::vec(eop(), 1..32)).boxed()
}
fn hist(x: &(Pt, Pt, Vec<EOp>)) -> Outcome {
    let (a, ma) = x.0.build()?;
    let (b, mb) = x.1.build()?;
    let mut p = [a, b, ExtendedPoint::generator(), ExtendedPoint::identity()];
    let mut m = [ma, mb, Ed::gen(), Ed::ID];
    let mut n = 0;
    for (i, op) in x.2.iter().enumerate() {
        n += 1;
        let d = match op {
            EOp::Load(d, pt) => {
                let (q, mq) = pt.build()?;
                p[*d as usize] = q;
                m[*d as usize] = mq;
                n -= 1;
                d
            }
            EOp::Add(d, a, b) => {
                p[*d as usize] = e_add(i, &p[*a as usize], &p[*b as usize]);
                m[*d as usize] = m[*a as usize].add(m[*b as usize]);
                d
            }
            EOp::Sub(d, a, b) => {
                p[*d as usize] = e_sub(i, &p[*a as usize], &p[*b as usize]);
                m[*d as usize] = m[*a as usize].sub(m[*b as usize]);
                d
            }
            EOp::AddAssign(d, a) => {
                let q = p[*a as usize];
                p[*d as usize] += q;
                m[*d as usize] = m[*d as usize].add(m[*a as usize]);
                d
            }
            EOp::SubAssign(d, a) => {
                let q = p[*a as usize];
                p[*d as usize] -= &q;
                m[*d as usize] = m[*d as usize].sub(m[*a as usize]);
                d
            }
            EOp::Neg(d, a) => {
                p[*d as usize] = e_neg(i, &p[*a as usize]);
                m[*d as usize] = m[*a as usize].neg();
                d
            }
            EOp::Dbl(d, a) => {
                p[*d as usize] = p[*a as usize].double();
                m[*d as usize] = m[*a as usize].dbl();
                d
            }
            EOp::Torque(d, a) => {
                p[*d as usize] = p[*a as usize].torque();
                m[*d as usize] = m[*a as usize].add(Ed::torsion(2));
                d
            }
            EOp::Tors(d, k) => {
                let t = Ed::torsion(*k);
                p[*d as usize] = p[*d as usize] + lib_point(t)?;
                m[*d as usize] = m[*d as usize].add(t);
                d
            }
            EOp::Sum(d, v) => {
                let s: ExtendedPoint = v.iter().map(|i| &p[*i as usize]).sum();
                m[*d as usize] = v.iter().fold(Ed::ID, |acc, i| acc.add(m[*i as usize]));
                p[*d as usize] = s;
                d
            }
            EOp::SumOwned(d, v) => {
                let s: ExtendedPoint = v.iter().map(|i| p[*i as usize]).sum();
                m[*d as usize] = v.iter().fold(Ed::ID, |acc, i| acc.add(m[*i as usize]));
                p[*d as usize] = s;
                d
            }
            EOp::ModFour(d, a, k) => {
                p[*d as usize] = p[*a as usize].scalar_mod_four(&Scalar::from(*k as u32));
                m[*d as usize] = m[*a as usize].mul(&bn::from_u64((*k % 4) as u64));
                d
            }
            EOp::Affine(d, a) => {
                p[*d as usize] = p[*a as usize].to_affine().to_extended();
                m[*d as usize] = m[*a as usize];
                d
            }
            EOp::Recode(d, a) => {
                p[*d as usize] = p[*a as usize].compress().decompress().ok_or(format!("step {}: own encoding rejected", i))?;
                m[*d as usize] = m[*a as usize];
                d
            }
        };
        let k = *d as usize;
        let (g, w) = (p[k].compress().0, m[k].encode());
        ensure!(g == w, "step {} {:?}: got {} want {}", i, op, bn::hex(&g), bn::hex(&w));
        for j in 0..4 {
            ensure!((p[k] == p[j]) == m[k].eq(m[j]), "step {}: register {} == register {} is {}", i, k, j, p[k] == p[j]);
        }
    }
    Ok(Info::nt(n >= 2).label(n >= 10, "10+ operations"))
}
/// all sums and differences of a fixed list: 4-torsion, generator multiples with torsion, representations
fn small_total(_: bool) -> u64 {
    60 * 60
}
fn small_point(i: u64) -> Pt {
    let t = (i % 4) as u8;
    let reps = [Rep::Decoded, Rep::AddSub(1), Rep::TimesOne];
    let k = (i / 4 % 5) as usize;
    let s = [bn::ZERO, bn::ONE, bn::from_u64(2), bn::subb(&bn::l(), &bn::ONE).0, bn::subb(&bn::l(), &bn::from_u64(2)).0][k];
    Pt { base: Base::Mul(B56::of(&s)), torsion: t, rep: reps[(i / 20 % 3) as usize].clone() }
}
fn small_input(i: u64) -> (Pt, Rel) {
    (small_point(i / 60), Rel::Free(small_point(i % 60)))
}
/// lists over P, Q, P + Q, -P, the identity and the torsion points, in iterators of every shape
fn sum(x: &(Pt, Rel, Vec<u8>, u8)) -> Outcome {
    let (p, mp) = x.0.build()?;
    let (q, mq) = related(mp, &x.1)?;
    let t = lib_point(Ed::torsion(1))?;
    let pool = [p, q, &p + &q, -p, ExtendedPoint::identity(), t, t.double(), &p + &t];
    let mt = Ed::torsion(1);
    let model = [mp, mq, mp.add(mq), mp.neg(), Ed::ID, mt, mt.dbl(), mp.add(mt)];
    let v: Vec<_> = x.2.iter().map(|i| pool[*i as usize % 8]).collect();
    let want = x.2.iter().fold(Ed::ID, |acc, i| acc.add(model[*i as usize % 8]));
    same(&format!("sum of {} points, shape {}", v.len(), x.3), &e_sum(x.3 as usize, &v), want, true)?;
    Ok(Info::nt(v.len() > 2).label(v.len() % 2 == 1, "odd length").label(v.len() > 16, "17+ points").label(want.is_id(), "sum is the identity"))
}
fn sum_strat() -> BoxedStrategy<(Pt, Rel, Vec<u8>, u8)> {
    let len = prop_oneof![3 => 0usize..9, 3 => 0usize..40, 1 => 60usize..70, 1 => 124usize..134];
    (point(), rel(), len.prop_flat_map(|n| proptest::collection::vec(0u8..8, n)), 0u8..12).boxed()
}
pub fn c05() -> Vec<Box<dyn Leg>> {
    vec![
        Box::new(Gen { name: "C05.sum", rule: "lists of 0 to 133 points summed through iterators of twelve shapes; non-trivial: more than two points", quick: 12_000, thorough: 240_000, strat: sum_strat, check: sum }),
        Box::new(Sweep { name: "C05.small", rule: "all pairs of {0,G,2G,-G,-2G} plus each 4-torsion point in three representations; non-trivial: neither is the identity", total: small_total, input: small_input, check: pair }),
        Box::new(Gen { name: "C05.pair", rule: "pairs of curve points, often equal/opposite/shifted by torsion; non-trivial: neither is the identity", quick: 25_000, thorough: 500_000, strat: pair_strat, check: pair }),
        Box::new(Gen { name: "C05.history", rule: "register-machine histories of group operations; non-trivial: at least two operations", quick: 10_000, thorough: 200_000, strat: hist_strat, check: hist }),
    ]
}

// ---------------------------------------------------------------- C06
fn mul_strat() -> BoxedStrategy<(Pt, B56, bool)> {
    (point(), scalar(), proptest::bool::weighted(0.15)).boxed()
}
fn mul(x: &(Pt, B56, bool)) -> Outcome {
    let (p, mp) = x.0.build()?;
    let s = x.1.scalar();
    let k = x.1.u();
    let want = mp.mul(&k);
    let f = (k[0] >> 5 ^ k[3] ^ k[6] >> 40) as usize % 11;
    same(&format!("product, form {}", f), &e_mul(f, &p, &s), want, true)?;
    let m4 = p.scalar_mod_four(&s);
    same("scalar_mod_four", &m4, mp.mul(&bn::from_u64(k[0] & 3)), true)?;
    if x.2 {
        let mut a = p;
        a *= s;
        let mut b = p;
        b *= &s;
        for (n, q) in [
            ("&p * &s", &p * &s),
            ("p * s", p * s),
            ("p * &s", p * &s),
            ("&p * s", &p * s),
            ("s * p", s * p),
            ("s * &p", s * &p),
            ("&s * p", &s * p),
            ("&s * &p", &s * &p),
            ("p *= s", a),
            ("p *= &s", b),
            ("scalar_mul", p.scalar_mul(&s)),
        ] {
            same(n, &q, want, true)?;
        }
    }
    Ok(Info::nt(!mp.is_id() && !bn::is_zero(&k) && k != bn::ONE)
        .label(!bn::is_canonical_l(&k), "unreduced scalar")
        .label(x.0.torsion % 4 != 0, "torsion component")
        .label(want.is_id(), "result is the identity"))
}
/// digit * 16^j and digit * 16^j * 4 + r on P (every window position and digit)
fn digit_total(_: bool) -> u64 {
    112 * 16 * 2
}
fn digit_input(i: u64) -> (Pt, B56, bool) {
    let mut k = bn::ZERO;
    let (pos, dig, sh) = ((i / 32) as usize, i % 16, (i / 16 % 2) as usize * 2);
    for b in 0..4 {
        let at = 4 * pos + b + sh;
        if dig >> b & 1 == 1 && at < 448 {
            k[at / 64] |= 1 << (at % 64);
        }
    }
    k[0] |= i & if sh == 2 { 3 } else { 0 };
    let y = B56::of(&bn::from_u64(i % 7));
    (Pt { base: if i % 3 == 0 { Base::Generator } else { Base::Cleared(y, i % 2 == 0) }, torsion: (i % 4) as u8, rep: Rep::Decoded }, B56::of(&k), false)
}
fn special_total(_: bool) -> u64 {
    special_set().len() as u64 * 2
}
fn special_input(i: u64) -> (Pt, B56, bool) {
    let n = special_set().len() as u64;
    let p = if i < n { Pt { base: Base::Generator, torsion: 0, rep: Rep::Decoded } } else { Pt { base: Base::FromY(B56::of(&bn::from_u64(i % 11 + 2)), i % 2 == 0), torsion: 0, rep: Rep::AddSub(i as u8) } };
    (p, B56::of(&special_set()[(i % n) as usize]), i % 16 == 0)
}
/// related points times related scalars, one after the other
fn mul_hist_strat() -> BoxedStrategy<Vec<(Pt, B56, bool)>> {
    (point(), scalar(), proptest::collection::vec((kin(), kin()), 1..4))
        .prop_map(|(p, s, v)| {
            let mut out = vec![(p.clone(), s, false)];
            out.extend(v.iter().map(|(a, b)| (relative_pt(&p, a), relative(&s, b, &bn::l()), false)));
            out
        })
        .boxed()
}
fn mul_hist(v: &Vec<(Pt, B56, bool)>) -> Outcome {
    in_turn(v, mul)
}
pub fn c06() -> Vec<Box<dyn Leg>> {
    vec![
        Box::new(Gen { name: "C06.history", rule: "products of related points and related scalars one after the other, then in reverse; non-trivial: two or more, each non-trivial", quick: 1_500, thorough: 30_000, strat: mul_hist_strat, check: mul_hist }),
        Box::new(Sweep { name: "C06.digits", rule: "every window position and digit; non-trivial: scalar not 0 or 1, point not the identity", total: digit_total, input: digit_input, check: mul }),
        Box::new(Sweep { name: "C06.special", rule: "boundary scalars on the base point and on a point with torsion; non-trivial: scalar not 0 or 1, point not the identity", total: special_total, input: special_input, check: mul }),
        Box::new(Gen { name: "C06.mul", rule: "448-bit scalar times curve point; non-trivial: scalar not 0 or 1, point not the identity", quick: 30_000, thorough: 600_000, strat: mul_strat, check: mul }),
    ]
}

// ---------------------------------------------------------------- C07
fn enc_strat() -> BoxedStrategy<(Pt, Rel)> {
    (point(), rel()).boxed()
}
fn enc(x: &(Pt, Rel)) -> Outcome {
    let (p, mp) = x.0.build()?;
    let (q, mq) = related(mp, &x.1)?;
    for (n, r, m) in [("p", &p, mp), ("q", &q, mq), ("p+q", &(p + q), mp.add(mq)), ("-p", &-p, mp.neg()), ("torque", &p.torque(), mp.add(Ed::torsion(2)))] {
        let e = r.compress();
        let w = m.encode();
        ensure!(e.0 == w, "encoding of {}: got {} want {}", n, bn::hex(&e.0), bn::hex(&w));
        let back = e.decompress().ok_or_else(|| format!("own encoding of {} rejected", n))?;
        ensure!(back == *r && *r == back, "decode(encode({})) is a different point", n);
        ensure!(back.compress().0 == w, "decode(encode({})) encodes differently", n);
    }
    let bytes_eq = p.compress().0 == q.compress().0;
    ensure!((p == q) == bytes_eq && (q == p) == bytes_eq && (p != q) != bytes_eq, "p == q is {} but encodings equal is {}", p == q, bytes_eq);
    ensure!(bytes_eq == mp.eq(mq), "equality differs from the model");
    let z1 = x.0.rep == Rep::Decoded;
    Ok(Info::nt(!mp.is_id()).label(!z1, "Z is not 1").label(mp.eq(mq), "equal pair"))
}
/// points whose y (or x) is a boundary value: re-encode after a change of representation
fn ency_input(i: u64) -> (Pt, Rel) {
    let v = special_set();
    let y = B56::of(&v[(i / 2) as usize % v.len()]);
    let reps = [Rep::AddSub((i % 255) as u8 + 1), Rep::TimesOne, Rep::Renorm(3), Rep::Torque2];
    (Pt { base: Base::FromY(y, i % 2 == 0), torsion: 0, rep: reps[(i / 3 % 4) as usize].clone() }, Rel::Of(false, 0, Rep::Decoded))
}
pub fn c07() -> Vec<Box<dyn Leg>> {
    vec![
        Box::new(Sweep { name: "C07.special_y", rule: "points at or just above each boundary value of y, both signs, Z not 1; non-trivial: not the identity", total: |_| special_set().len() as u64 * 2, input: ency_input, check: enc }),
        Box::new(Gen { name: "C07.encode", rule: "curve points in several representations with a related partner; non-trivial: not the identity", quick: 96_000, thorough: 1_920_000, strat: enc_strat, check: enc }),
    ]
}

// ---------------------------------------------------------------- C08
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum EncSpec {
    Raw(B57),
    /// y and last byte
    Y(B56, u8),
    /// encoding of a point, bits flipped, last byte xored
    Mut(Pt, Vec<u16>, u8),
    /// encoding of a point whose y < 2^448 - p, with p added to y
    PlusP(B56, u8),
}
fn enc_bytes(x: &EncSpec) -> [u8; 57] {
    match x {
        EncSpec::Raw(b) => b.0,
        EncSpec::Y(y, l) => {
            let mut r = [0u8; 57];
            r[..56].copy_from_slice(&y.0);
            r[56] = *l;
            r
        }
        EncSpec::Mut(p, flips, l) => {
            let mut r = p.model().encode();
            for f in flips {
                let f = *f as usize % 448;
                r[f / 8] ^= 1 << (f % 8);
            }
            r[56] ^= l;
            r
        }
        EncSpec::PlusP(y, l) => {
            // y reduced to 224 bits so that y + p < 2^448
            let mut u = y.u();
            u[3] &= 0xffff_ffff;
            u[4..].fill(0);
            let (u, _) = bn::addc(&u, &bn::P);
            let mut r = [0u8; 57];
            r[..56].copy_from_slice(&bn::to_bytes(&u));
            r[56] = *l;
            r
        }
    }
}
fn last() -> BoxedStrategy<u8> {
    prop_oneof![5 => Just(0u8), 5 => Just(0x80u8), 1 => Just(1u8), 1 => Just(0x40u8), 1 => Just(0x81u8), 1 => Just(0xffu8), 1 => any::<u8>(), 1 => (0u32..8).prop_map(|k| 1u8 << k)].boxed()
}
fn dec_strat() -> BoxedStrategy<EncSpec> {
    prop_oneof![
        1 => proptest::collection::vec(any::<u8>(), 57).prop_map(|v| { let mut r = [0u8; 57]; r.copy_from_slice(&v); EncSpec::Raw(Hex(r)) }),
        6 => (field(), last()).prop_map(|(y, l)| EncSpec::Y(y, l)),
        4 => (point(), proptest::collection::vec(0u16..448, 0..3), last()).prop_map(|(p, f, l)| EncSpec::Mut(p, f, l)),
        2 => (field(), last()).prop_map(|(y, l)| EncSpec::PlusP(y, l)),
        1 => (small(), last()).prop_map(|(y, l)| EncSpec::PlusP(B56::of(&y), l)),
    ]
    .boxed()
}
pub fn dec_bytes(b: &[u8; 57]) -> Outcome {
    let want = Ed::decode(b);
    let got = CompressedEdwardsY(*b).decompress();
    match (&got, &want) {
        (Some(p), Some(m)) => {
            same("decoded point", p, *m, true)?;
            let e = p.compress().0;
            ensure!(e == *b, "re-encoding gives {}", bn::hex(&e));
        }
        (None, None) => {}
        (Some(p), None) => return Err(format!("accepted invalid encoding {} (re-encodes as {})", bn::hex(b), bn::hex(&p.compress().0))),
        (None, Some(_)) => return Err(format!("rejected valid encoding {}", bn::hex(b))),
    }
    let mut y = [0u8; 56];
    y.copy_from_slice(&b[..56]);
    let yu = bn::from_bytes(&y);
    let high = !bn::lt(&yu, &bn::P);
    let x = Ed::x_from_y(Fp::new(&yu));
    Ok(Info::nt(!bn::is_zero(&yu) && yu != bn::ONE)
        .label(want.is_some(), "valid")
        .label(high && x.is_some(), "y not below p, x exists")
        .label(b[56] & 0x7f != 0 && x.is_some(), "unused bits set, x exists")
        .label(x.is_none(), "no x"))
}
fn dec(x: &EncSpec) -> Outcome {
    dec_bytes(&enc_bytes(x))
}
fn dec_sp_total(_: bool) -> u64 {
    special_set().len() as u64 * 4 + 4 * 256 + 2 * 1024 + 2 * 456
}
fn dec_sp_input(i: u64) -> EncSpec {
    let n = special_set().len() as u64;
    if i < 4 * n {
        return EncSpec::Y(B56::of(&special_set()[(i / 4) as usize]), [0, 0x80, 0x01, 0xc0][(i % 4) as usize]);
    }
    let i = i - 4 * n;
    if i < 1024 {
        // every last byte on y = 1, y = -1, y = 0 and the base point
        let y = [bn::ONE, bn::subb(&bn::P, &bn::ONE).0, bn::ZERO, Ed::gen().y.0][(i % 4) as usize];
        return EncSpec::Y(B56::of(&y), (i / 4) as u8);
    }
    let i = i - 1024;
    if i < 2048 {
        return EncSpec::PlusP(B56::of(&bn::from_u64(i / 2)), (i % 2) as u8 * 0x80);
    }
    let i = i - 2048;
    // every single-bit flip of the base point's encoding and of another point's
    let p = Pt { base: if i % 2 == 0 { Base::Generator } else { Base::FromY(B56::of(&bn::from_u64(6)), true) }, torsion: 0, rep: Rep::Decoded };
    let f = i / 2;
    if f < 448 {
        EncSpec::Mut(p, vec![f as u16], 0)
    } else {
        EncSpec::Mut(p, vec![], 1 << (f - 448))
    }
}
/// related strings one after the other
fn dec_hist_strat() -> BoxedStrategy<Vec<EncSpec>> {
    (dec_strat(), proptest::collection::vec((kin(), any::<u8>()), 1..5))
        .prop_map(|(e, v)| {
            let b = enc_bytes(&e);
            let mut y = [0u8; 56];
            y.copy_from_slice(&b[..56]);
            let mut out = vec![e];
            out.extend(v.iter().map(|(k, f)| EncSpec::Y(relative(&Hex(y), k, &bn::P), b[56] ^ [0, 0x80, 0x80, 0][*f as usize % 4])));
            out
        })
        .boxed()
}
fn dec_hist(v: &Vec<EncSpec>) -> Outcome {
    in_turn(v, dec)
}
pub fn c08() -> Vec<Box<dyn Leg>> {
    vec![
        Box::new(Gen { name: "C08.history", rule: "related strings decoded one after the other, then in reverse; non-trivial: two or more, y not 0 or 1", quick: 16_000, thorough: 320_000, strat: dec_hist_strat, check: dec_hist }),
        Box::new(Sweep { name: "C08.special", rule: "boundary y values with four last bytes, every last byte on four points, p+0..p+1023, every single-bit flip of two encodings; non-trivial: y not 0 or 1", total: dec_sp_total, input: dec_sp_input, check: dec }),
        Box::new(Gen { name: "C08.decode", rule: "57-byte strings: boundary y, valid ones mutated, y+p, random; non-trivial: y not 0 or 1", quick: 480_000, thorough: 9_600_000, strat: dec_strat, check: dec }),
    ]
}

// ---------------------------------------------------------------- C09
fn tf_strat() -> BoxedStrategy<(Pt, bool)> {
    (
        (prop_oneof![2 => base_cheap(), 3 => base_prime_order()], 0u8..4, rep()).prop_map(|(base, torsion, rep)| Pt { base, torsion, rep }),
        any::<bool>(),
    )
        .boxed()
}
fn tf(x: &(Pt, bool)) -> Outcome {
    let (p, m) = x.0.build()?;
    let want = m.torsion_free();
    ensure!(p.is_torsion_free() == want, "is_torsion_free = {} for {}", !want, bn::hex(&m.encode()));
    if x.1 {
        for k in 1..4u8 {
            let q = p + lib_point(Ed::torsion(k))?;
            let w = if want { false } else { m.add(Ed::torsion(k)).torsion_free() };
            ensure!(q.is_torsion_free() == w, "is_torsion_free = {} after adding torsion {}", !w, k);
        }
        let t = p.torque();
        ensure!(t.is_torsion_free() == m.add(Ed::torsion(2)).torsion_free(), "is_torsion_free wrong after torque");
    }
    Ok(Info::nt(!m.is_4_torsion()).label(want, "torsion-free").label(m.is_4_torsion(), "4-torsion").label(!want, "not torsion-free"))
}
fn tf_input(i: u64) -> (Pt, bool) {
    let y = i / 24;
    let base = match i % 3 {
        0 => Base::Cleared(B56::of(&bn::from_u64(y)), i & 1 == 0),
        1 => Base::Mul(B56::of(&bn::from_u64(y))),
        _ => Base::FromY(B56::of(&bn::from_u64(y)), i & 1 == 0),
    };
    (Pt { base, torsion: (i / 3 % 4) as u8, rep: if i / 12 % 2 == 0 { Rep::Decoded } else { Rep::AddSub(9) } }, false)
}
fn tf_hist_strat() -> BoxedStrategy<Vec<(Pt, bool)>> {
    (tf_strat(), proptest::collection::vec(kin(), 1..5))
        .prop_map(|(x, v)| {
            let mut out = vec![(x.0.clone(), false)];
            out.extend(v.iter().map(|k| (relative_pt(&x.0, k), false)));
            out
        })
        .boxed()
}
fn tf_hist(v: &Vec<(Pt, bool)>) -> Outcome {
    in_turn(v, tf)
}
pub fn c09() -> Vec<Box<dyn Leg>> {
    vec![
        Box::new(Gen { name: "C09.history", rule: "related points one after the other, then in reverse; non-trivial: two or more, none 4-torsion", quick: 2_000, thorough: 40_000, strat: tf_hist_strat, check: tf_hist }),
        Box::new(Sweep { name: "C09.small", rule: "small multiples and small-y points plus each 4-torsion point; non-trivial: not itself 4-torsion", total: |_| 1200, input: tf_input, check: tf }),
        Box::new(Gen { name: "C09.torsion_free", rule: "points with each torsion component; non-trivial: not itself 4-torsion", quick: 28_000, thorough: 560_000, strat: tf_strat, check: tf }),
    ]
}

// ---------------------------------------------------------------- C18 (core: needs only to_twisted().to_untwisted())
fn iso(x: &Pt) -> Outcome {
    let (p, m) = x.build()?;
    let q = p.to_twisted().to_untwisted();
    same("dual(isogeny(p))", &q, m.dbl().dbl(), true)?;
    ensure!(q == p.double().double(), "dual(isogeny(p)) differs from double(double(p))");
    Ok(Info::nt(!m.is_4_torsion()).label(m.is_4_torsion(), "4-torsion"))
}
fn iso_input(i: u64) -> Pt {
    if i < 60 {
        return small_point(i);
    }
    let v = special_set();
    Pt { base: Base::FromY(B56::of(&v[(i - 60) as usize % v.len()]), i % 2 == 0), torsion: (i % 4) as u8, rep: if i % 3 == 0 { Rep::AddSub(7) } else { Rep::Decoded } }
}
pub fn c18() -> Vec<Box<dyn Leg>> {
    vec![
        Box::new(Sweep { name: "C18.special", rule: "4-torsion, small multiples, boundary y values; non-trivial: not 4-torsion", total: |_| 60 + special_set().len() as u64, input: iso_input, check: iso }),
        Box::new(Gen { name: "C18.fourfold", rule: "curve points: dual of isogeny is multiplication by 4; non-trivial: not 4-torsion", quick: 60_000, thorough: 1_200_000, strat: point, check: iso }),
    ]
}
