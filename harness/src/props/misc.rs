//! C20 (equality, selection, wiping) and C21 (linearity).
use crate::bn;
use crate::ensure;
use crate::forms::*;
use crate::gen::*;
use crate::props::decaf::{self, drel, DRel};
use crate::props::edwards::{related, rel, same, Rel};
use crate::refcurve::Ed;
use crate::runner::*;
use ed448_goldilocks::curve::{ExtendedPoint, MontgomeryPoint};
use ed448_goldilocks::decaf::{CompressedDecaf, DecafPoint};
use ed448_goldilocks::ristretto::{CompressedRistretto, RistrettoPoint};
use ed448_goldilocks::Scalar;
use proptest::prelude::*;
use std::hash::{Hash, Hasher};
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq};
use zeroize::Zeroize;

// ---------------------------------------------------------------- C20
fn select(x: &(Pt, Rel, bool)) -> Outcome {
    let (p, mp) = x.0.build()?;
    let (q, mq) = related(mp, &x.1)?;
    let c = Choice::from(x.2 as u8);
    let (ms, mo) = if x.2 { (mq, mp) } else { (mp, mq) };
    same("conditional_select", &ExtendedPoint::conditional_select(&p, &q, c), ms, true)?;
    let mut r = p;
    r.conditional_assign(&q, c);
    same("conditional_assign", &r, ms, true)?;
    let (mut a, mut b) = (p, q);
    ExtendedPoint::conditional_swap(&mut a, &mut b, c);
    same("conditional_swap first", &a, ms, true)?;
    same("conditional_swap second", &b, mo, true)?;
    // the selected value can replace the original in every operation (all coordinates are complete)
    same("2 * selected", &ExtendedPoint::conditional_select(&p, &q, c).double(), ms.dbl(), false)?;
    same("selected to twisted and back", &r.to_twisted().to_untwisted(), ms.dbl().dbl(), false)?;
    let e = mp.eq(mq);
    ensure!((p == q) == e && (q == p) == e && (p != q) != e && bool::from(p.ct_eq(&q)) == e && bool::from(q.ct_eq(&p)) == e, "equality of points: want {}", e);
    ensure!(p == p && bool::from(p.ct_eq(&p)), "a point differs from itself");
    ensure!(p == p.to_affine().to_extended(), "a point differs from its normalised form");
    Ok(Info::nt(!e).label(x.2, "choice 1").label(e, "equal points"))
}
fn select_strat() -> BoxedStrategy<(Pt, Rel, bool)> {
    (point(), rel(), any::<bool>()).boxed()
}
fn h(x: &MontgomeryPoint) -> u64 {
    let mut s = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut s);
    s.finish()
}
fn bytes56(x: &(B56, B56, bool)) -> Outcome {
    let (a, b) = (MontgomeryPoint(x.0 .0), MontgomeryPoint(x.1 .0));
    let same_bytes = x.0 .0 == x.1 .0;
    let same_u = bn::Fp::from_bytes(&x.0 .0) == bn::Fp::from_bytes(&x.1 .0);
    let ct = bool::from(a.ct_eq(&b));
    ensure!((a == b) == ct && (b == a) == ct && (a != b) != ct && bool::from(b.ct_eq(&a)) == ct, "== and ct_eq of Montgomery points disagree");
    ensure!(!same_bytes || ct, "identical Montgomery points differ");
    ensure!(!ct || same_u, "different Montgomery points are equal");
    ensure!(!ct || h(&a) == h(&b), "equal Montgomery points hash differently");
    ensure!(a == a && h(&a) == h(&MontgomeryPoint(x.0 .0)), "a Montgomery point differs from itself");
    ensure!(a.as_bytes() == &x.0 .0, "as_bytes of a Montgomery point");
    let mut z = a;
    z.zeroize();
    ensure!(z.0 == [0; 56], "zeroize left {}", bn::hex(&z.0));
    // projective form: selection returns the selected one completely
    let (pa, pb) = (a.to_projective(), b.to_projective());
    let c = Choice::from(x.2 as u8);
    let (wa, wb) = (bn::Fp::from_bytes(&x.0 .0).to_bytes(), bn::Fp::from_bytes(&x.1 .0).to_bytes());
    let (ws, wo) = if x.2 { (wb, wa) } else { (wa, wb) };
    ensure!(pa.to_affine().0 == wa, "to_projective().to_affine() = {}", bn::hex(&pa.to_affine().0));
    let (mut sa, mut sb) = (pa, pb);
    ConditionallySelectable::conditional_swap(&mut sa, &mut sb, c);
    ensure!(sa.to_affine().0 == ws && sb.to_affine().0 == wo, "conditional_swap of projective Montgomery points");
    let mut sc = pa;
    sc.conditional_assign(&pb, c);
    ensure!(sc.to_affine().0 == ws, "conditional_assign of projective Montgomery points");
    // Decaf encodings
    let (ca, cb) = (CompressedDecaf(x.0 .0), CompressedDecaf(x.1 .0));
    ensure!((ca == cb) == same_bytes && (cb == ca) == same_bytes && (ca != cb) != same_bytes && bool::from(ca.ct_eq(&cb)) == same_bytes, "equality of Decaf encodings");
    ensure!(ca.as_bytes() == &x.0 .0[..], "as_bytes of a Decaf encoding");
    // scalars
    let (s, t) = (x.0.scalar(), x.1.scalar());
    ensure!((s == t) == same_bytes && (t == s) == same_bytes && (s != t) != same_bytes && bool::from(s.ct_eq(&t)) == same_bytes, "equality of scalars");
    Ok(Info::nt(!same_bytes).label(x.2, "choice 1").label(!same_bytes && same_u, "same u, different bytes"))
}
fn bytes_strat() -> BoxedStrategy<(B56, B56, bool)> {
    (field(), field(), 0u8..6, 0usize..448, any::<bool>())
        .prop_map(|(a, b, m, k, c)| {
            let mut b = match m {
                0 | 1 | 2 => a,
                3 => Hex(bn::Fp::from_bytes(&a.0).to_bytes()),
                _ => b,
            };
            if m == 1 || m == 2 {
                b.0[k / 8] ^= 1 << (k % 8);
            }
            (a, b, c)
        })
        .boxed()
}
fn bytes_input(i: u64) -> (B56, B56, bool) {
    let bg = [[0u8; 56], [0xff; 56], [0xa5; 56], bn::to_bytes(&bn::P)][(i / 449) as usize % 4];
    let mut b = bg;
    let k = (i % 449) as usize;
    if k < 448 {
        b[k / 8] ^= 1 << (k % 8);
    }
    (Hex(bg), Hex(b), i % 2 == 1)
}
fn decaf_eq(x: &(Dp, DRel)) -> Outcome {
    let (p, mp) = x.0.build()?;
    let (q, mq) = decaf::related(&x.0, &x.1)?;
    let w = mp.decaf_eq(mq);
    ensure!(p.equals(&q) == w && q.equals(&p) == w, "equals is {}", !w);
    // the same element in this representation and freshly decoded
    let (p2, _) = Dp { base: x.0.base.clone(), rep: DRep::Decoded }.build()?;
    ensure!(p.equals(&p2) && p2.equals(&p) && p.equals(&p), "equals depends on the representation");
    ensure!(p2.equals(&q) == w, "equals is not transitive");
    Ok(Info::nt(!w))
}
fn neutral(x: &(Pt, Dp)) -> Outcome {
    let (p, m) = x.0.build()?;
    for (n, z) in [("identity()", ExtendedPoint::identity()), ("default()", ExtendedPoint::default()), ("empty sum", Vec::<ExtendedPoint>::new().iter().sum())] {
        same(n, &z, Ed::ID, true)?;
        same(n, &(p + z), m, true)?;
        same(n, &(z + p), m, true)?;
        ensure!((z == p) == m.is_id(), "{} == p", n);
    }
    ensure!(Scalar::default() == Scalar::zero() && Scalar::zero().to_bytes() == [0; 56], "default scalar is not zero");
    let mut one = [0u8; 56];
    one[0] = 1;
    ensure!(Scalar::one().to_bytes() == one, "one is not one");
    let (d, md) = x.1.build()?;
    let z = DecafPoint::identity();
    ensure!(z.equals(&d) == md.decaf_eq(Ed::ID), "Decaf identity equals d");
    ensure!((&d + &z).compress().0 == md.decaf_encode() && (&z + &d).compress().0 == md.decaf_encode(), "Decaf identity is not neutral");
    ensure!(z.compress() == CompressedDecaf::identity() && CompressedDecaf::identity().0 == [0; 56], "encoding of the Decaf identity");
    ensure!(CompressedDecaf::identity().decompress().map_or(false, |q| q.equals(&z)), "decoding of the Decaf identity");
    ensure!(RistrettoPoint::identity().equals(&RistrettoPoint::identity()), "Ristretto identity differs from itself");
    ensure!(CompressedRistretto::identity() == CompressedRistretto::identity() && CompressedRistretto::identity().as_bytes() == &[0u8; 56][..], "Ristretto identity encoding");
    Ok(Info::nt(!m.is_id()))
}
pub fn c20() -> Vec<Box<dyn Leg>> {
    vec![
        Box::new(Gen { name: "C20.select", rule: "two points and a choice; non-trivial: the points differ", quick: 30_000, thorough: 960_000, strat: select_strat, check: select }),
        Box::new(Gen { name: "C20.bytes", rule: "pairs of 56-byte values as Montgomery points, Decaf encodings and scalars; non-trivial: the bytes differ", quick: 120_000, thorough: 2_400_000, strat: bytes_strat, check: bytes56 }),
        Box::new(Sweep { name: "C20.bits", rule: "pairs differing in exactly one bit, every position on four backgrounds; non-trivial: the bytes differ", total: |_| 449 * 4, input: bytes_input, check: bytes56 }),
        Box::new(Gen { name: "C20.decaf_eq", rule: "pairs of Decaf elements, independent or related (P, -P, 2P, -2P), in different representations; non-trivial: the elements differ", quick: 20_000, thorough: 640_000, strat: || (decaf(), drel()).boxed(), check: decaf_eq }),
        Box::new(Gen { name: "C20.neutral", rule: "identities and defaults against points; non-trivial: not the identity", quick: 16_000, thorough: 320_000, strat: || (point(), decaf()).boxed(), check: neutral }),
    ]
}

// ---------------------------------------------------------------- C21
type Lin = (Pt, Pt, B56, B56);
fn lin_strat() -> BoxedStrategy<Lin> {
    (prime_point(), prime_point(), scalar_pair()).prop_map(|(p, q, (a, b))| (p, q, a, b)).boxed()
}
fn lin(x: &Lin) -> Outcome {
    let (p, mp) = x.0.build()?;
    let (q, _) = x.1.build()?;
    let (a, b) = (x.2.scalar(), x.3.scalar());
    // every operator form in turn, starting from one fixed by the input
    let f = std::cell::Cell::new((x.2.u()[0] ^ x.2.u()[5] >> 7 ^ x.3.u()[0]) as usize & 0xffff);
    let next = || { f.set(f.get() + 1); f.get() };
    let mul = |p: &ExtendedPoint, s: &Scalar| e_mul(next(), p, s);
    let add = |p: &ExtendedPoint, q: &ExtendedPoint| e_add(next(), p, q);
    let (pa, pb) = (mul(&p, &a), mul(&p, &b));
    let eq = |n: &str, l: ExtendedPoint, r: ExtendedPoint| -> Result<(), String> {
        ensure!(l == r && l.compress().0 == r.compress().0, "{}: {} vs {}", n, bn::hex(&l.compress().0), bn::hex(&r.compress().0));
        Ok(())
    };
    eq("(a+b)P = aP+bP", mul(&p, &(a + b)), add(&pa, &pb))?;
    eq("(a-b)P = aP-bP", mul(&p, &(a - b)), e_sub(next(), &pa, &pb))?;
    eq("(ab)P = a(bP)", mul(&p, &(a * b)), mul(&pb, &a))?;
    eq("a(P+Q) = aP+aQ", mul(&add(&p, &q), &a), add(&pa, &mul(&q, &a)))?;
    let h = mul(&p, &a.halve());
    eq("2(a/2)P = aP", add(&h, &h), pa)?;
    let az = bn::is_zero(&bn::mod_l(&x.2.u()));
    let inv = a.invert();
    eq("(1/a)(aP) = P", mul(&pa, &inv), if az { ExtendedPoint::identity() } else { p })?;
    Ok(Info::nt(!mp.is_id() && !az && !bn::is_zero(&bn::mod_l(&x.3.u()))).label(!bn::is_canonical_l(&x.2.u()), "unreduced a"))
}
type DLin = (Dp, Dp, B56, B56);
fn dlin_strat() -> BoxedStrategy<DLin> {
    (decaf(), decaf(), scalar_pair()).prop_map(|(p, q, (a, b))| (p, q, a, b)).boxed()
}
fn dlin(x: &DLin) -> Outcome {
    let (p, mp) = x.0.build()?;
    let (q, _) = x.1.build()?;
    let (a, b) = (x.2.scalar(), x.3.scalar());
    let f = std::cell::Cell::new((x.2.u()[0] ^ x.2.u()[5] >> 7 ^ x.3.u()[0]) as usize & 0xffff);
    let next = || { f.set(f.get() + 1); f.get() };
    let mul = |p: &DecafPoint, s: &Scalar| d_mul(next(), p, s);
    let add = |p: &DecafPoint, q: &DecafPoint| d_add(next(), p, q);
    let (pa, pb) = (mul(&p, &a), mul(&p, &b));
    let eq = |n: &str, l: DecafPoint, r: &DecafPoint| -> Result<(), String> {
        ensure!(l.equals(r) && l.compress().0 == r.compress().0, "{}: {} vs {}", n, bn::hex(&l.compress().0), bn::hex(&r.compress().0));
        Ok(())
    };
    eq("(a+b)P = aP+bP", mul(&p, &(a + b)), &add(&pa, &pb))?;
    eq("(a-b)P = aP-bP", mul(&p, &(a - b)), &d_sub(next(), &pa, &pb))?;
    eq("(ab)P = a(bP)", mul(&p, &(a * b)), &mul(&pb, &a))?;
    eq("a(P+Q) = aP+aQ", mul(&add(&p, &q), &a), &add(&pa, &mul(&q, &a)))?;
    let h = mul(&p, &a.halve());
    eq("2(a/2)P = aP", add(&h, &h), &pa)?;
    let az = bn::is_zero(&bn::mod_l(&x.2.u()));
    let inv = a.invert();
    eq("(1/a)(aP) = P", mul(&pa, &inv), &if az { DecafPoint::identity() } else { &p + &DecafPoint::identity() })?;
    Ok(Info::nt(!mp.decaf_eq(Ed::ID) && !az && !bn::is_zero(&bn::mod_l(&x.3.u()))).label(!bn::is_canonical_l(&x.2.u()), "unreduced a"))
}
/// W mod l acts like the base-2^448 digits of W; the order annihilates
fn widelin(x: &(Pt, Dp, B114)) -> Outcome {
    let (p, mp) = x.0.build()?;
    let (d, _) = x.1.build()?;
    let w = Scalar::from_bytes_mod_order_wide(&x.2 .0);
    let mut lo = [0u8; 56];
    lo.copy_from_slice(&x.2 .0[..56]);
    let mut hi = [0u8; 56];
    hi.copy_from_slice(&x.2 .0[56..112]);
    let top = Scalar::from(u16::from_le_bytes([x.2 .0[112], x.2 .0[113]]) as u32);
    let (lo, hi) = (Scalar::from_bytes(lo), Scalar::from_bytes(hi));
    // 2^448 P by doubling twice 224 times
    let shift = |q: &ExtendedPoint| {
        let mut r = *q;
        for _ in 0..448 {
            r = r.double();
        }
        r
    };
    let lhs = &p * &w;
    let ph = shift(&p);
    let rhs = &(&(&p * &lo) + &(&ph * &hi)) + &(&shift(&ph) * &top);
    ensure!(lhs == rhs, "wide W: (W mod l)P = {} but by digits {}", bn::hex(&lhs.compress().0), bn::hex(&rhs.compress().0));
    let dshift = |q: &DecafPoint| {
        let mut r = q + q;
        for _ in 1..448 {
            r = &r + &r;
        }
        r
    };
    let dh = dshift(&d);
    let lhs = &d * &w;
    let rhs = &(&(&d * &lo) + &(&dh * &hi)) + &(&dshift(&dh) * &top);
    ensure!(lhs.equals(&rhs), "wide W on Decaf: {} but by digits {}", bn::hex(&lhs.compress().0), bn::hex(&rhs.compress().0));
    let l = Scalar::from_bytes(bn::to_bytes(&bn::l()));
    ensure!(&p * &l == ExtendedPoint::identity(), "lP is not the identity");
    ensure!((&d * &l).equals(&DecafPoint::identity()), "l * Decaf element is not the identity");
    Ok(Info::nt(!mp.is_id() && x.2 .0[56..].iter().any(|&b| b != 0)))
}
pub fn c21() -> Vec<Box<dyn Leg>> {
    vec![
        Box::new(Gen { name: "C21.edwards", rule: "scalars a, b and prime-order points P, Q; non-trivial: P not the identity, a and b not multiples of the order", quick: 6_000, thorough: 150_000, strat: lin_strat, check: lin }),
        Box::new(Gen { name: "C21.decaf", rule: "scalars a, b and Decaf elements P, Q; non-trivial: P not the identity, a and b not multiples of the order", quick: 3_600, thorough: 90_000, strat: dlin_strat, check: dlin }),
        Box::new(Gen { name: "C21.wide", rule: "114-byte integers acting on points by digits; non-trivial: more than 448 bits, P not the identity", quick: 2_400, thorough: 60_000, strat: || (prime_point(), decaf(), crate::props::scalar::wide()).boxed(), check: widelin }),
    ]
}
