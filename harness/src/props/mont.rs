//! C10 - C12: Curve448.
use crate::bn::{self, Fp};
use crate::ensure;
use crate::gen::*;
use crate::refcurve::{x448_ladder, Ed};
use crate::runner::*;
use ed448_goldilocks::curve::{ExtendedPoint, MontgomeryPoint};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

// ---------------------------------------------------------------- u-coordinates
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum USpec {
    Raw(B56),
    /// u-coordinate of an Edwards point
    OfPoint(Pt),
    /// value below 2^224 plus p: a non-canonical encoding
    PlusP(B56),
}
impl USpec {
    pub fn bytes(&self) -> [u8; 56] {
        match self {
            USpec::Raw(b) => b.0,
            USpec::OfPoint(p) => p.model().to_u().to_bytes(),
            USpec::PlusP(b) => {
                let mut u = b.u();
                u[3] &= 0xffff_ffff;
                u[4..].fill(0);
                bn::to_bytes(&bn::addc(&u, &bn::P).0)
            }
        }
    }
}
pub fn uspec() -> BoxedStrategy<USpec> {
    prop_oneof![
        6 => field().prop_map(USpec::Raw),
        2 => point().prop_map(USpec::OfPoint),
        1 => prop_oneof![small().prop_map(|u| B56::of(&u)), field()].prop_map(USpec::PlusP),
        1 => Just(USpec::Raw(Hex(bn::to_bytes(&bn::from_u64(5))))),
    ]
    .boxed()
}
fn on_curve(u: Fp) -> bool {
    u.sq().mul(u).add(Fp::small(156326).mul(u.sq())).add(u).is_square()
}

// ---------------------------------------------------------------- C10
fn ladder(x: &(USpec, B56)) -> Outcome {
    let ub = x.0.bytes();
    let u = Fp::from_bytes(&ub);
    let k = x.1.u();
    let want = x448_ladder(&k, u).to_bytes();
    let p = MontgomeryPoint(ub);
    let s = x.1.scalar();
    let r = &p * &s;
    ensure!(r.0 == want, "u * s: got {} want {}", bn::hex(&r.0), bn::hex(&want));
    let r2 = &s * &p;
    ensure!(r2.0 == want, "s * u: got {} want {}", bn::hex(&r2.0), bn::hex(&want));
    Ok(Info::nt(!u.is_zero() && !bn::is_zero(&k) && k != bn::ONE)
        .label(k[0] & 1 == 1, "odd scalar")
        .label(on_curve(u), "on the curve")
        .label(!on_curve(u), "on the twist")
        .label(!bn::lt(&bn::from_bytes(&ub), &bn::P), "non-canonical u")
        .label(!bn::is_canonical_l(&k), "unreduced scalar"))
}
fn ladder_strat() -> BoxedStrategy<(USpec, B56)> {
    (uspec(), scalar()).boxed()
}
fn lad_input(i: u64) -> (USpec, B56) {
    let v = special_set();
    let n = v.len() as u64;
    // (every boundary scalar on 5 and another u) then (every boundary u times a few scalars)
    if i < 2 * n {
        let u = if i < n { bn::from_u64(5) } else { bn::from_u64(i % 13 + 2) };
        (USpec::Raw(B56::of(&u)), B56::of(&v[(i % n) as usize]))
    } else {
        let j = i - 2 * n;
        let l = bn::l();
        let ks = [bn::ONE, bn::from_u64(2), bn::from_u64(3), bn::from_u64(4), l, bn::subb(&l, &bn::ONE).0, bn::addc(&l, &bn::ONE).0, bn::MAX];
        (USpec::Raw(B56::of(&v[(j % n) as usize])), B56::of(&ks[(j / n % 8) as usize]))
    }
}
fn dh(x: &(USpec, B56, B56)) -> Outcome {
    let p = MontgomeryPoint(x.0.bytes());
    let (a, b) = (x.1.scalar(), x.2.scalar());
    let ab = &(&p * &a) * &b;
    let ba = &(&p * &b) * &a;
    ensure!(ab.0 == ba.0, "a(bP) = {} but b(aP) = {}", bn::hex(&ba.0), bn::hex(&ab.0));
    // (ab mod l)Q = a(bQ) when Q has order l: Q = 4P
    let four = ed448_goldilocks::Scalar::from(4);
    let p4 = &p * &four;
    if on_curve(Fp::from_bytes(&p.0)) {
        let x = &(&p4 * &a) * &b;
        let y = &p4 * &(a * b);
        ensure!(x.0 == y.0, "b(a(4P)) = {} but (ab)(4P) = {}", bn::hex(&x.0), bn::hex(&y.0));
    }
    Ok(Info::nt(!Fp::from_bytes(&p.0).is_zero() && !bn::is_zero(&x.1.u()) && !bn::is_zero(&x.2.u())))
}
fn dh_strat() -> BoxedStrategy<(USpec, B56, B56)> {
    (uspec(), scalar(), scalar()).boxed()
}
/// related u-coordinates times related scalars, one after the other
fn lad_hist_strat() -> BoxedStrategy<Vec<(USpec, B56)>> {
    (uspec(), scalar(), proptest::collection::vec((kin(), kin()), 1..5))
        .prop_map(|(u, s, v)| {
            let b = Hex(u.bytes());
            let mut out = vec![(u, s)];
            out.extend(v.iter().map(|(x, y)| (USpec::Raw(relative(&b, x, &bn::P)), relative(&s, y, &bn::l()))));
            out
        })
        .boxed()
}
fn lad_hist(v: &Vec<(USpec, B56)>) -> Outcome {
    in_turn(v, ladder)
}
pub fn c10() -> Vec<Box<dyn Leg>> {
    vec![
        Box::new(Gen { name: "C10.history", rule: "related u-coordinates times related scalars one after the other, then in reverse; non-trivial: two or more, each non-trivial", quick: 2_000, thorough: 40_000, strat: lad_hist_strat, check: lad_hist }),
        Box::new(Sweep { name: "C10.special", rule: "boundary scalars on two u, boundary u with eight scalars; non-trivial: u not 0, scalar not 0 or 1", total: |th| special_set().len() as u64 * if th { 10 } else { 5 }, input: lad_input, check: ladder }),
        Box::new(Gen { name: "C10.ladder", rule: "u-coordinate times 448-bit scalar; non-trivial: u not 0, scalar not 0 or 1", quick: 36_000, thorough: 720_000, strat: ladder_strat, check: ladder }),
        Box::new(Gen { name: "C10.dh", rule: "two scalars applied in both orders; non-trivial: u and scalars not 0", quick: 9_000, thorough: 180_000, strat: dh_strat, check: dh }),
    ]
}

// ---------------------------------------------------------------- C11
fn iso(x: &(Pt, B56)) -> Outcome {
    let (p, m) = x.0.build()?;
    let want = m.to_u().to_bytes();
    for (n, q) in [("P", p), ("-P", -p), ("P + 2-torsion", p.torque()), ("-(P + 2-torsion)", -p.torque())] {
        let g = q.to_montgomery();
        ensure!(g.0 == want, "image of {}: got {} want {}", n, bn::hex(&g.0), bn::hex(&want));
    }
    let s = x.1.scalar();
    let lhs = (&p * &s).to_montgomery();
    let rhs = &p.to_montgomery() * &s;
    let w = m.mul(&x.1.u()).to_u().to_bytes();
    ensure!(lhs.0 == w, "image of sP: got {} want {}", bn::hex(&lhs.0), bn::hex(&w));
    ensure!(lhs.0 == rhs.0, "image of sP is {} but s * image is {}", bn::hex(&lhs.0), bn::hex(&rhs.0));
    Ok(Info::nt(!m.is_4_torsion()).label(m.is_4_torsion(), "4-torsion").label(!m.to_u().is_zero() && x.1.u()[0] & 1 == 1, "odd scalar"))
}
fn iso_strat() -> BoxedStrategy<(Pt, B56)> {
    (point(), scalar()).boxed()
}
fn iso_input(i: u64) -> (Pt, B56) {
    let v = special_set();
    let n = v.len() as u64;
    let base = if i < n { Base::Generator } else { Base::FromY(B56::of(&v[(i % n) as usize]), i % 2 == 0) };
    let s = if i < n { v[i as usize] } else { bn::from_u64(i % 9) };
    (Pt { base, torsion: (i / 5 % 4) as u8, rep: if i % 3 == 0 { Rep::AddSub(i as u8) } else { Rep::Decoded } }, B56::of(&s))
}
fn gen5(_: &u8) -> Outcome {
    let g = ExtendedPoint::generator().to_montgomery();
    let five = bn::to_bytes(&bn::from_u64(5));
    ensure!(g.0 == five, "image of the base point is {}", bn::hex(&g.0));
    ensure!(MontgomeryPoint::generator().0 == five, "MontgomeryPoint::generator() is {}", bn::hex(&MontgomeryPoint::generator().0));
    ensure!(ExtendedPoint::generator().compress().0 == Ed::gen().encode(), "the Edwards generator is not the RFC 8032 base point");
    Ok(Info::nt(true))
}
fn iso_hist_strat() -> BoxedStrategy<Vec<(Pt, B56)>> {
    (point(), scalar(), proptest::collection::vec((kin(), kin()), 1..3))
        .prop_map(|(p, s, v)| {
            let mut out = vec![(p.clone(), s)];
            out.extend(v.iter().map(|(a, b)| (relative_pt(&p, a), relative(&s, b, &bn::l()))));
            out
        })
        .boxed()
}
fn iso_hist(v: &Vec<(Pt, B56)>) -> Outcome {
    in_turn(v, iso)
}
pub fn c11() -> Vec<Box<dyn Leg>> {
    vec![
        Box::new(Gen { name: "C11.history", rule: "related points and scalars one after the other, then in reverse; non-trivial: two or more, none 4-torsion", quick: 1_500, thorough: 30_000, strat: iso_hist_strat, check: iso_hist }),
        Box::new(Sweep { name: "C11.base", rule: "the base point maps to 5", total: |_| 1, input: |i| i as u8, check: gen5 }),
        Box::new(Sweep { name: "C11.special", rule: "boundary scalars on the base point, boundary y values; non-trivial: not 4-torsion", total: |_| special_set().len() as u64 * 2, input: iso_input, check: iso }),
        Box::new(Gen { name: "C11.isogeny", rule: "point and scalar; non-trivial: not 4-torsion", quick: 32_000, thorough: 640_000, strat: iso_strat, check: iso }),
    ]
}

// ---------------------------------------------------------------- C12
fn low(x: &B56) -> Outcome {
    let u = Fp::from_bytes(&x.0);
    let want = u.is_zero() || u == Fp::ONE || u == Fp::ONE.neg();
    let p = MontgomeryPoint(x.0);
    ensure!(p.is_low_order() == want, "is_low_order({:?}) = {}", x, !want);
    Ok(Info::nt(!bn::is_zero(&x.u())).label(want, "low order").label(!bn::lt(&x.u(), &bn::P), "non-canonical"))
}
/// the same through multiplication by the cofactor (independent of the list of values)
fn low4(x: &B56) -> Outcome {
    let p = MontgomeryPoint(x.0);
    let r = &p * &ed448_goldilocks::Scalar::from(4);
    let zero = r.0 == [0; 56];
    ensure!(p.is_low_order() == zero, "is_low_order({:?}) = {} but 4u = {}", x, !zero, bn::hex(&r.0));
    Ok(Info::nt(!bn::is_zero(&x.u())).label(zero, "low order"))
}
fn low_strat() -> BoxedStrategy<B56> {
    let c = || prop_oneof![Just(bn::ZERO), Just(bn::ONE), Just(bn::subb(&bn::P, &bn::ONE).0), Just(bn::P), Just(bn::addc(&bn::P, &bn::ONE).0), Just(bn::MAX)];
    prop_oneof![
        2 => c().prop_map(|u| B56::of(&u)),
        // off by one bit or one byte
        3 => (c(), 0usize..448).prop_map(|(u, k)| { let mut b = B56::of(&u); b.0[k / 8] ^= 1 << (k % 8); b }),
        3 => (c(), 0usize..56, any::<u8>()).prop_map(|(u, k, v)| { let mut b = B56::of(&u); b.0[k] = v; b }),
        2 => (c(), delta()).prop_map(|(u, d)| B56::of(&offset(&u, d))),
        2 => field(),
    ]
    .boxed()
}
fn low_total(_: bool) -> u64 {
    6 * 448 + 6 * 64 + special_set().len() as u64
}
fn low_input(i: u64) -> B56 {
    let cs = [bn::ZERO, bn::ONE, bn::subb(&bn::P, &bn::ONE).0, bn::P, bn::addc(&bn::P, &bn::ONE).0, bn::MAX];
    if i < 6 * 448 {
        let mut b = B56::of(&cs[(i / 448) as usize]);
        let k = (i % 448) as usize;
        b.0[k / 8] ^= 1 << (k % 8);
        b
    } else if i < 6 * 448 + 6 * 64 {
        let j = i - 6 * 448;
        B56::of(&offset(&cs[(j / 64) as usize], (j % 64) as i64 - 32))
    } else {
        B56::of(&special_set()[(i - 6 * 448 - 6 * 64) as usize])
    }
}
pub fn c12() -> Vec<Box<dyn Leg>> {
    vec![
        Box::new(Sweep { name: "C12.special", rule: "0, 1, -1, p, p+1, 2^448-1, their single-bit flips and neighbours, boundary values; non-trivial: not the zero string", total: low_total, input: low_input, check: low }),
        Box::new(Gen { name: "C12.low_order", rule: "56-byte strings near the low-order values and others; non-trivial: not the zero string", quick: 2_000_000, thorough: 40_000_000, strat: low_strat, check: low }),
        Box::new(Gen { name: "C12.cofactor", rule: "the same against multiplication by 4; non-trivial: not the zero string", quick: 120_000, thorough: 2_400_000, strat: low_strat, check: low4 }),
    ]
}
