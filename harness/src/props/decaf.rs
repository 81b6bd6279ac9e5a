//! C13 - C15: the Decaf group.
use crate::bn::{self, Fp};
use crate::ensure;
use crate::forms::*;
use crate::gen::*;
use crate::refcurve::Ed;
use crate::runner::*;
use ed448_goldilocks::decaf::{CompressedDecaf, DecafPoint};
use ed448_goldilocks::Scalar;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub fn same(what: &str, p: &DecafPoint, m: Ed, deep: bool) -> Result<(), String> {
    let (g, w) = (p.compress().0, m.decaf_encode());
    ensure!(g == w, "{}: got {} want {}", what, bn::hex(&g), bn::hex(&w));
    if deep {
        let q = p + &DecafPoint::generator();
        let (g, w) = (q.compress().0, m.add(crate::refcurve::decaf_gen()).decaf_encode());
        ensure!(g == w, "({}) + G: got {} want {}", what, bn::hex(&g), bn::hex(&w));
    }
    Ok(())
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum DRel {
    Free(Dp),
    /// +-P in another representation
    Of(bool, DRep),
    /// +-2P, by doubling it in another representation
    Twice(bool, DRep),
}
pub fn drel() -> BoxedStrategy<DRel> {
    prop_oneof![
        3 => decaf().prop_map(DRel::Free),
        2 => (any::<bool>(), decaf()).prop_map(|(n, d)| DRel::Of(n, d.rep)),
        1 => (any::<bool>(), decaf()).prop_map(|(n, d)| DRel::Twice(n, d.rep)),
    ]
    .boxed()
}
pub fn related(p: &Dp, r: &DRel) -> Result<(DecafPoint, Ed), String> {
    match r {
        DRel::Free(q) => q.build(),
        DRel::Of(n, rep) => {
            let (q, m) = Dp { base: p.base.clone(), rep: rep.clone() }.build()?;
            Ok(if *n { (-q, m.neg()) } else { (q, m) })
        }
        DRel::Twice(n, rep) => {
            let (q, m) = Dp { base: p.base.clone(), rep: rep.clone() }.build()?;
            Ok(if *n { (-(&q + &q), m.dbl().neg()) } else { (&q + &q, m.dbl()) })
        }
    }
}
fn pair_strat() -> BoxedStrategy<(Dp, DRel)> {
    (decaf(), drel()).boxed()
}

// ---------------------------------------------------------------- C13
fn pair(x: &(Dp, DRel)) -> Outcome {
    let (p, mp) = x.0.build()?;
    let (q, mq) = related(&x.0, &x.1)?;
    same("p", &p, mp, true)?;
    same("q", &q, mq, true)?;
    let (sum, dif) = (mp.add(mq), mp.sub(mq));
    same("&p + &q", &(&p + &q), sum, true)?;
    same("&q + &p", &(&q + &p), sum, true)?;
    same("&p - &q", &(&p - &q), dif, true)?;
    same("&q - &p", &(&q - &p), dif.neg(), true)?;
    same("p.sub(&q)", &p.sub(&q), dif, true)?;
    same("-&p", &-&p, mp.neg(), true)?;
    same("p + q", &(d_dup(&p) + d_dup(&q)), sum, true)?;
    same("p - q", &(d_dup(&p) - d_dup(&q)), dif, true)?;
    same("-p", &-d_dup(&p), mp.neg(), true)?;
    same("p + p", &(&p + &p), mp.dbl(), true)?;
    let want = mp.decaf_eq(mq);
    ensure!(p.equals(&q) == want && q.equals(&p) == want, "equals is {} but the elements are {}", !want, if want { "the same" } else { "different" });
    ensure!(p.equals(&p), "not equal to itself");
    let opp = mp.decaf_eq(mq.neg());
    ensure!(p.equals(&-&q) == opp, "equals(-q) is {}", !opp);
    Ok(Info::nt(!mp.decaf_eq(Ed::ID) && !mq.decaf_eq(Ed::ID)).label(want, "equal").label(opp, "opposite"))
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum DOp {
    Load(u8, Dp),
    Add(u8, u8, u8),
    Sub(u8, u8, u8),
    Neg(u8, u8),
    Mul(u8, u8, B56),
    Recode(u8, u8),
}
fn dop() -> BoxedStrategy<DOp> {
    let r = || 0u8..4;
    prop_oneof![
        2 => (r(), decaf()).prop_map(|(d, p)| DOp::Load(d, p)),
        8 => (r(), r(), r()).prop_map(|(d, a, b)| DOp::Add(d, a, b)),
        8 => (r(), r(), r()).prop_map(|(d, a, b)| DOp::Sub(d, a, b)),
        3 => (r(), r()).prop_map(|(d, a)| DOp::Neg(d, a)),
        1 => (r(), r(), scalar()).prop_map(|(d, a, s)| DOp::Mul(d, a, s)),
        2 => (r(), r()).prop_map(|(d, a)| DOp::Recode(d, a)),
    ]
    .boxed()
}
fn hist(x: &(Dp, Dp, Vec<DOp>)) -> Outcome {
    let (a, ma) = x.0.build()?;
    let (b, mb) = x.1.build()?;
    let mut p = [a, b, DecafPoint::generator(), DecafPoint::identity()];
    let mut m = [ma, mb, crate::refcurve::decaf_gen(), Ed::ID];
    let mut n = 0;
    for (i, op) in x.2.iter().enumerate() {
        n += 1;
        let (d, q, mq) = match op {
            DOp::Load(d, s) => {
                n -= 1;
                let (q, mq) = s.build()?;
                (d, q, mq)
            }
            DOp::Add(d, a, b) => (d, d_add(i, &p[*a as usize], &p[*b as usize]), m[*a as usize].add(m[*b as usize])),
            DOp::Sub(d, a, b) => (d, d_sub(i, &p[*a as usize], &p[*b as usize]), m[*a as usize].sub(m[*b as usize])),
            DOp::Neg(d, a) => (d, d_neg(i, &p[*a as usize]), m[*a as usize].neg()),
            DOp::Mul(d, a, s) => (d, d_mul(s.0[1] as usize, &p[*a as usize], &s.scalar()), m[*a as usize].mul(&s.u())),
            DOp::Recode(d, a) => (d, p[*a as usize].compress().decompress().ok_or(format!("step {}: own encoding rejected", i))?, m[*a as usize]),
        };
        let k = *d as usize;
        p[k] = q;
        m[k] = mq;
        let (g, w) = (p[k].compress().0, m[k].decaf_encode());
        ensure!(g == w, "step {} {:?}: got {} want {}", i, op, bn::hex(&g), bn::hex(&w));
        for j in 0..4 {
            let want = m[k].decaf_eq(m[j]);
            ensure!(p[k].equals(&p[j]) == want, "step {}: register {} equals register {} is {}", i, k, j, !want);
        }
    }
    Ok(Info::nt(n >= 2).label(n >= 10, "10+ operations"))
}
fn hist_strat() -> BoxedStrategy<(Dp, Dp, Vec<DOp>)> {
    (decaf(), decaf(), proptest::collection::vec(dop(), 1..24)).boxed()
}
fn mul(x: &(Dp, B56, bool)) -> Outcome {
    let (p, m) = x.0.build()?;
    let s = x.1.scalar();
    let k = x.1.u();
    let want = m.mul(&k);
    let f = (k[0] >> 5 ^ k[3] ^ k[6] >> 40) as usize % 4;
    same(["&p * &s", "&s * &p", "p * s", "s * p"][f], &d_mul(f, &p, &s), want, true)?;
    if x.2 {
        same("&p * &s", &(&p * &s), want, true)?;
        same("&s * &p", &(&s * &p), want, true)?;
        same("p * s", &(d_dup(&p) * s), want, true)?;
        same("s * p", &(s * d_dup(&p)), want, true)?;
        let ord = &p * &Scalar::from_bytes(bn::to_bytes(&bn::l()));
        ensure!(ord.equals(&DecafPoint::identity()), "l * p is not the identity");
        same("l * p", &ord, Ed::ID, true)?;
    }
    Ok(Info::nt(!m.decaf_eq(Ed::ID) && !bn::is_zero(&k) && k != bn::ONE).label(!bn::is_canonical_l(&k), "unreduced scalar").label(want.decaf_eq(Ed::ID), "result is the identity"))
}
fn mul_strat() -> BoxedStrategy<(Dp, B56, bool)> {
    (decaf(), scalar(), proptest::bool::weighted(0.15)).boxed()
}
fn mul_input(i: u64) -> (Dp, B56, bool) {
    let base = if i % 2 == 0 { DBase::Generator } else { DBase::FromS(B56::of(&bn::from_u64(i))) };
    (Dp { base, rep: if i % 3 == 0 { DRep::AddSubRecoded(i as u8) } else { DRep::Decoded } }, B56::of(&special_set()[i as usize]), false)
}
fn small_dp(i: u64) -> Dp {
    let l = bn::l();
    let s = [bn::ZERO, bn::ONE, bn::from_u64(2), bn::from_u64(3), bn::subb(&l, &bn::ONE).0, bn::subb(&l, &bn::from_u64(2)).0][(i % 6) as usize];
    let reps = [DRep::Decoded, DRep::AddSub(5), DRep::AddSubRecoded(3), DRep::AddSubRecoded(4), DRep::AddSubRecoded(5), DRep::TimesOne, DRep::NegNeg, DRep::AddSubRecoded(6)];
    let base = if i % 6 == 0 && i / 6 % 2 == 0 { DBase::Identity } else if i % 6 == 1 && i / 6 % 2 == 0 { DBase::Generator } else { DBase::Mul(B56::of(&s)) };
    Dp { base, rep: reps[(i / 6 % 8) as usize].clone() }
}
fn small_input(i: u64) -> (Dp, DRel) {
    (small_dp(i / 48), DRel::Free(small_dp(i % 48)))
}
pub fn c13() -> Vec<Box<dyn Leg>> {
    vec![
        Box::new(Sweep { name: "C13.small", rule: "all pairs of {0,G,2G,3G,-G,-2G} in eight representations; non-trivial: neither is the identity", total: |_| 48 * 48, input: small_input, check: pair }),
        Box::new(Gen { name: "C13.pair", rule: "pairs of Decaf elements, often equal or opposite in another representation; non-trivial: neither is the identity", quick: 15_000, thorough: 300_000, strat: pair_strat, check: pair }),
        Box::new(Gen { name: "C13.history", rule: "register-machine histories; non-trivial: at least two operations", quick: 6_250, thorough: 125_000, strat: hist_strat, check: hist }),
        Box::new(Gen { name: "C13.mul", rule: "448-bit scalar times element; non-trivial: scalar not 0 or 1, element not the identity", quick: 10_000, thorough: 200_000, strat: mul_strat, check: mul }),
        Box::new(Sweep { name: "C13.mul_special", rule: "boundary scalars; non-trivial: scalar not 0 or 1", total: |_| special_set().len() as u64, input: mul_input, check: mul }),
    ]
}

// ---------------------------------------------------------------- C14
fn enc(x: &(Dp, DRel)) -> Outcome {
    let (p, mp) = x.0.build()?;
    let (q, mq) = related(&x.0, &x.1)?;
    for (n, r, m) in [("p", &p, mp), ("q", &q, mq), ("p+q", &(&p + &q), mp.add(mq)), ("p-q", &(&p - &q), mp.sub(mq)), ("-p", &-&p, mp.neg())] {
        let e = r.compress();
        let w = m.decaf_encode();
        ensure!(e.0 == w, "encoding of {}: got {} want {}", n, bn::hex(&e.0), bn::hex(&w));
        ensure!(e.0[0] & 1 == 0 && bn::lt(&bn::from_bytes(&e.0), &bn::P), "encoding of {} is not reduced and even: {}", n, bn::hex(&e.0));
        let back = e.decompress().ok_or_else(|| format!("own encoding of {} rejected", n))?;
        ensure!(back.equals(r) && r.equals(&back), "decode(encode({})) is a different element", n);
        ensure!(back.compress().0 == w, "decode(encode({})) encodes differently", n);
    }
    let be = p.compress().0 == q.compress().0;
    ensure!(p.equals(&q) == be && q.equals(&p) == be, "equals is {} but encodings equal is {}", p.equals(&q), be);
    ensure!((p.compress() == q.compress()) == be, "CompressedDecaf equality");
    Ok(Info::nt(!mp.decaf_eq(Ed::ID)).label(be, "equal pair").label(matches!(x.0.rep, DRep::AddSubRecoded(_)), "other coset representative"))
}
fn enc_input(i: u64) -> (Dp, DRel) {
    let v = special_set();
    (Dp { base: DBase::FromS(B56::of(&v[i as usize % v.len()])), rep: DRep::AddSubRecoded((i % 255) as u8 + 1) }, DRel::Of(i % 2 == 1, DRep::Decoded))
}
pub fn c14() -> Vec<Box<dyn Leg>> {
    vec![
        Box::new(Sweep { name: "C14.small", rule: "all pairs of {0,G,2G,3G,-G,-2G} in eight representations; non-trivial: not the identity", total: |_| 48 * 48, input: small_input, check: enc }),
        Box::new(Sweep { name: "C14.special", rule: "elements at or just above boundary encodings, in a shifted representation; non-trivial: not the identity", total: |_| special_set().len() as u64, input: enc_input, check: enc }),
        Box::new(Gen { name: "C14.encode", rule: "elements in several representations with a related partner; non-trivial: not the identity", quick: 56_000, thorough: 1_120_000, strat: pair_strat, check: enc }),
    ]
}

// ---------------------------------------------------------------- C15
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum DEnc {
    Raw(B56),
    /// valid encoding with bits flipped
    Mut(Dp, Vec<u16>),
    /// p - (valid encoding): the negative (odd) representative
    Neg(Dp),
    /// a value below 2^224 plus p
    PlusP(B56),
    /// next valid encoding after a value below 2^224, plus p: rejected only because it is not canonical
    ValidPlusP(B56),
    /// s with s^2 = +-(a neighbour) : 1/s, -1/s, i.e. other roots of the same point
    Inv(Dp, bool),
}
impl DEnc {
    fn bytes(&self) -> [u8; 56] {
        let plus_p = |b: &B56| {
            let mut u = b.u();
            u[3] &= 0xffff_ffff;
            u[4..].fill(0);
            u
        };
        match self {
            DEnc::Raw(b) => b.0,
            DEnc::Mut(p, f) => {
                let mut r = p.model().decaf_encode();
                for f in f {
                    let f = *f as usize % 448;
                    r[f / 8] ^= 1 << (f % 8);
                }
                r
            }
            DEnc::Neg(p) => Fp::from_bytes(&p.model().decaf_encode()).neg().to_bytes(),
            DEnc::PlusP(b) => bn::to_bytes(&bn::addc(&plus_p(b), &bn::P).0),
            DEnc::ValidPlusP(b) => {
                let (e, _) = next_decaf(&B56::of(&plus_p(b)));
                bn::to_bytes(&bn::addc(&e.u(), &bn::P).0)
            }
            DEnc::Inv(p, n) => {
                let s = Fp::from_bytes(&p.model().decaf_encode()).inv();
                if *n { s.neg() } else { s }.to_bytes()
            }
        }
    }
}
pub fn dec_bytes(b: &[u8; 56]) -> Outcome {
    let want = Ed::decaf_decode(b);
    let got = CompressedDecaf(*b).decompress();
    match (&got, &want) {
        (Some(p), Some(m)) => {
            same("decoded element", p, *m, true)?;
            let e = p.compress().0;
            ensure!(e == *b, "re-encoding gives {}", bn::hex(&e));
        }
        (None, None) => {}
        (Some(p), None) => return Err(format!("accepted invalid encoding {} (re-encodes as {})", bn::hex(b), bn::hex(&p.compress().0))),
        (None, Some(_)) => return Err(format!("rejected valid encoding {}", bn::hex(b))),
    }
    let u = bn::from_bytes(b);
    let high = !bn::lt(&u, &bn::P);
    let red = Fp::new(&u);
    Ok(Info::nt(!bn::is_zero(&u))
        .label(want.is_some(), "valid")
        .label(high, "not below p")
        .label(high && Ed::decaf_decode(&red.abs().to_bytes()).is_some(), "not below p, otherwise valid")
        .label(!high && red.is_odd() && Ed::decaf_decode(&red.neg().to_bytes()).is_some(), "negative, otherwise valid")
        .label(!high && !red.is_odd() && want.is_none(), "not a square"))
}
fn dec(x: &DEnc) -> Outcome {
    dec_bytes(&x.bytes())
}
fn dec_strat() -> BoxedStrategy<DEnc> {
    prop_oneof![
        6 => field().prop_map(DEnc::Raw),
        2 => (decaf(), proptest::collection::vec(0u16..448, 0..3)).prop_map(|(p, f)| DEnc::Mut(p, f)),
        1 => decaf().prop_map(DEnc::Neg),
        1 => prop_oneof![small().prop_map(|u| B56::of(&u)), field()].prop_map(DEnc::PlusP),
        2 => prop_oneof![small().prop_map(|u| B56::of(&u)), field()].prop_map(DEnc::ValidPlusP),
        1 => (decaf(), any::<bool>()).prop_map(|(p, n)| DEnc::Inv(p, n)),
    ]
    .boxed()
}
fn dec_total(_: bool) -> u64 {
    special_set().len() as u64 + 1024 + 448 * 2 + 512
}
fn dec_input(i: u64) -> DEnc {
    let n = special_set().len() as u64;
    if i < n {
        return DEnc::Raw(B56::of(&special_set()[i as usize]));
    }
    let i = i - n;
    if i < 1024 {
        return DEnc::PlusP(B56::of(&bn::from_u64(i)));
    }
    let i = i - 1024;
    if i < 896 {
        let base = if i % 2 == 0 { DBase::Generator } else { DBase::Mul(B56::of(&bn::from_u64(7))) };
        return DEnc::Mut(Dp { base, rep: DRep::Decoded }, vec![(i / 2) as u16]);
    }
    DEnc::Raw(B56::of(&bn::from_u64(i - 896)))
}
/// related strings one after the other
fn dec_hist_strat() -> BoxedStrategy<Vec<DEnc>> {
    (dec_strat(), proptest::collection::vec(kin(), 1..5))
        .prop_map(|(e, v)| {
            let b = Hex(e.bytes());
            let mut out = vec![e];
            out.extend(v.iter().map(|k| DEnc::Raw(relative(&b, k, &bn::P))));
            out
        })
        .boxed()
}
fn dec_hist(v: &Vec<DEnc>) -> Outcome {
    in_turn(v, dec)
}
pub fn c15() -> Vec<Box<dyn Leg>> {
    vec![
        Box::new(Gen { name: "C15.history", rule: "related strings decoded one after the other, then in reverse; non-trivial: two or more, none zero", quick: 12_000, thorough: 240_000, strat: dec_hist_strat, check: dec_hist }),
        Box::new(Sweep { name: "C15.special", rule: "boundary integers, 0..511, p..p+1023, single-bit flips of two encodings; non-trivial: not zero", total: dec_total, input: dec_input, check: dec }),
        Box::new(Gen { name: "C15.decode", rule: "56-byte strings: boundary, mutated, negated, plus p; non-trivial: not zero", quick: 360_000, thorough: 7_200_000, strat: dec_strat, check: dec }),
    ]
}
