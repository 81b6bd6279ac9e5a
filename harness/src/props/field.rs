//! C17: the coordinate field. The hooked legs drive the private field element directly; the public legs reach it
//! through Montgomery and Decaf encodings and run even without the hook.
use crate::bn::{self, Fp};
use crate::ensure;
use crate::gen::*;
#[cfg(not(feature = "hooks"))]
use crate::refcurve::x448_ladder;
use crate::runner::*;
use ed448_goldilocks::curve::MontgomeryPoint;
use proptest::prelude::*;

/// decode, encode through the projective form; one ladder step's worth of add, sub, mul, square and invert
#[cfg(not(feature = "hooks"))]
fn public(x: &(B56, u8)) -> Outcome {
    let p = MontgomeryPoint(x.0 .0);
    let u = Fp::from_bytes(&x.0 .0);
    let g = p.to_projective().to_affine();
    ensure!(g.0 == u.to_bytes(), "decode and encode: got {} want {}", bn::hex(&g.0), bn::hex(&u.to_bytes()));
    let k = x.1 as u64;
    let r = &p * &ed448_goldilocks::Scalar::from(k as u32);
    let w = x448_ladder(&bn::from_u64(k), u).to_bytes();
    ensure!(r.0 == w, "{} * u: got {} want {}", k, bn::hex(&r.0), bn::hex(&w));
    Ok(Info::nt(!u.is_zero()).label(!bn::lt(&x.0.u(), &bn::P), "non-canonical"))
}
#[cfg(not(feature = "hooks"))]
fn public_strat() -> BoxedStrategy<(B56, u8)> {
    (field(), any::<u8>()).boxed()
}
fn reduce(x: &B56) -> Outcome {
    let u = Fp::from_bytes(&x.0);
    let g = MontgomeryPoint(x.0).to_projective().to_affine();
    ensure!(g.0 == u.to_bytes(), "decode and encode: got {} want {}", bn::hex(&g.0), bn::hex(&u.to_bytes()));
    Ok(Info::nt(!u.is_zero()).label(!bn::lt(&x.u(), &bn::P), "non-canonical"))
}
fn reduce_total(_: bool) -> u64 {
    special_set().len() as u64 + 8192
}
fn reduce_input(i: u64) -> B56 {
    let n = special_set().len() as u64;
    if i < n {
        B56::of(&special_set()[i as usize])
    } else {
        let j = i - n;
        // p-2048 .. p+2048 and 2^448-4096 ..
        if j < 4096 {
            B56::of(&offset(&bn::P, j as i64 - 2048))
        } else {
            B56::of(&offset(&bn::MAX, 4096 - j as i64))
        }
    }
}
pub fn c17() -> Vec<Box<dyn Leg>> {
    #[allow(unused_mut)]
    let mut v: Vec<Box<dyn Leg>> = vec![
        Box::new(Sweep { name: "C17.reduce", rule: "boundary integers and the neighbourhoods of p and 2^448 decoded and encoded; non-trivial: not zero modulo p", total: reduce_total, input: reduce_input, check: reduce }),
    ];
    #[cfg(feature = "hooks")]
    v.extend(hooked::legs());
    // without the hook, the ladder is the public operation closest to the field
    #[cfg(not(feature = "hooks"))]
    v.push(Box::new(Gen { name: "C17.public", rule: "field encodings through short ladders; non-trivial: not zero modulo p", quick: 60_000, thorough: 1_200_000, strat: public_strat, check: public }));
    v
}

#[cfg(feature = "hooks")]
mod hooked {
    use super::*;
    use ed448_goldilocks::verif_hooks::Fe;
    use serde::{Deserialize, Serialize};

    fn eq(what: &str, g: &Fe, w: Fp) -> Result<(), String> {
        let b = g.to_bytes();
        ensure!(b == w.to_bytes(), "{}: got {} want {}", what, bn::hex(&b), bn::hex(&w.to_bytes()));
        Ok(())
    }
    /// All cheap operations on two encodings.
    fn ops(x: &(B56, B56)) -> Outcome {
        let (a, b) = (Fe::from_bytes(&x.0 .0), Fe::from_bytes(&x.1 .0));
        let (ma, mb) = (Fp::from_bytes(&x.0 .0), Fp::from_bytes(&x.1 .0));
        eq("a", &a, ma)?;
        eq("a+b", &a.add(&b), ma.add(mb))?;
        eq("a-b", &a.sub(&b), ma.sub(mb))?;
        eq("b-a", &b.sub(&a), mb.sub(ma))?;
        eq("a*b", &a.mul(&b), ma.mul(mb))?;
        eq("b*a", &b.mul(&a), ma.mul(mb))?;
        eq("a^2", &a.square(), ma.sq())?;
        eq("a*a", &a.mul(&a), ma.sq())?;
        eq("-a", &a.negate(), ma.neg())?;
        // operands that have not been normalised: sums, differences and negatives
        let (s, ms) = (a.add(&b), ma.add(mb));
        let (d, md) = (a.sub(&b), ma.sub(mb));
        let (n, mn) = (b.negate(), mb.neg());
        for (nx, u, mu) in [("a+b", &s, ms), ("a-b", &d, md), ("-b", &n, mn)] {
            eq(&format!("({})^2", nx), &u.square(), mu.sq())?;
            eq(&format!("-({})", nx), &u.negate(), mu.neg())?;
            for (ny, v, mv) in [("a+b", &s, ms), ("a-b", &d, md), ("-b", &n, mn), ("a", &a, ma)] {
                eq(&format!("({})*({})", nx, ny), &u.mul(v), mu.mul(mv))?;
                eq(&format!("({})+({})", nx, ny), &u.add(v), mu.add(mv))?;
                eq(&format!("({})-({})", nx, ny), &u.sub(v), mu.sub(mv))?;
            }
        }
        ensure!(a.is_negative() == ma.is_odd(), "is_negative({:?}) = {}", x.0, a.is_negative());
        ensure!(s.is_negative() == ms.is_odd(), "is_negative(a+b) = {}", s.is_negative());
        ensure!(d.is_negative() == md.is_odd(), "is_negative(a-b) = {}", d.is_negative());
        ensure!(a.is_zero() == ma.is_zero() && d.is_zero() == md.is_zero(), "is_zero");
        ensure!(a.sub(&a).is_zero() && a.add(&a.negate()).is_zero(), "a-a is not zero");
        let e = ma == mb;
        ensure!(a.eq(&b) == e && b.eq(&a) == e, "a == b is {}", !e);
        // the same residue in two representations
        ensure!(s.sub(&b).eq(&a) && d.add(&b).eq(&a), "(a+b)-b == a is false");
        for c in [false, true] {
            eq("select", &Fe::select(&a, &b, c), if c { mb } else { ma })?;
            eq("conditional negate", &a.cond_negate(c), if c { ma.neg() } else { ma })?;
            let (p, q) = Fe::swap(&a, &s, c);
            eq("swap.0", &p, if c { ms } else { ma })?;
            eq("swap.1", &q, if c { ma } else { ms })?;
        }
        Ok(Info::nt(!ma.is_zero() && !mb.is_zero() && ma != Fp::ONE && mb != Fp::ONE)
            .label(!bn::lt(&x.0.u(), &bn::P) || !bn::lt(&x.1.u(), &bn::P), "non-canonical operand")
            .label(e, "equal"))
    }
    fn ops_strat() -> BoxedStrategy<(B56, B56)> {
        (field_u(), field_u(), 0u8..12, delta())
            .prop_map(|(a, b, m, d)| {
                let fa = Fp::new(&a);
                let b = match m {
                    0 => a,
                    1 => fa.neg().0,
                    2 => offset(&fa.neg().0, d),
                    3 => offset(&a, d),
                    4 => fa.inv().0,
                    _ => b,
                };
                (B56::of(&a), B56::of(&b))
            })
            .boxed()
    }
    fn ops_total(_: bool) -> u64 {
        let n = special_set().len() as u64;
        n * n
    }
    fn ops_input(i: u64) -> (B56, B56) {
        let v = special_set();
        let n = v.len() as u64;
        let j = ((i as u128 * 2_654_435_761u128) % (n * n) as u128) as u64;
        (B56::of(&v[(j / n) as usize]), B56::of(&v[(j % n) as usize]))
    }
    /// Inversion, inverse square root, square root of a ratio.
    fn roots(x: &(B56, B56, u8)) -> Outcome {
        let (mut a, mut ma) = (Fe::from_bytes(&x.0 .0), Fp::from_bytes(&x.0 .0));
        let (mut b, mut mb) = (Fe::from_bytes(&x.1 .0), Fp::from_bytes(&x.1 .0));
        if x.2 & 1 == 1 {
            a = a.square();
            ma = ma.sq();
        }
        if x.2 & 2 == 2 {
            b = b.sub(&a);
            mb = mb.sub(ma);
        }
        if x.2 & 4 == 4 {
            a = a.negate();
            ma = ma.neg();
        }
        eq("1/a", &a.invert(), ma.inv())?;
        let (r, ok) = a.inverse_square_root();
        let want = !ma.is_zero() && ma.is_square();
        ensure!(ok == want, "inverse_square_root flag {} for {}", ok, bn::hex(&ma.to_bytes()));
        if want {
            let v = Fp::from_bytes(&r.to_bytes());
            ensure!(v.sq().mul(ma) == Fp::ONE, "isqrt(a)^2 * a = {}", bn::hex(&v.sq().mul(ma).to_bytes()));
        }
        let (r, ok) = Fe::sqrt_ratio(&a, &b);
        let want = ma.is_zero() || (!mb.is_zero() && ma.mul(mb).is_square());
        ensure!(ok == want, "sqrt_ratio flag {} for {} / {}", ok, bn::hex(&ma.to_bytes()), bn::hex(&mb.to_bytes()));
        if want {
            let v = Fp::from_bytes(&r.to_bytes());
            ensure!(v.sq().mul(mb) == ma, "sqrt_ratio^2 * v != u");
        }
        Ok(Info::nt(!ma.is_zero() && ma != Fp::ONE).label(ma.is_square(), "square").label(!ma.is_square(), "not a square").label(ma.is_zero() || mb.is_zero(), "a zero operand"))
    }
    fn roots_strat() -> BoxedStrategy<(B56, B56, u8)> {
        (ops_strat(), 0u8..8).prop_map(|((a, b), k)| (a, b, k)).boxed()
    }
    fn roots_input(i: u64) -> (B56, B56, u8) {
        let v = special_set();
        let n = v.len();
        (B56::of(&v[i as usize / 2 % n]), B56::of(&v[(i as usize * 7) % n]), if i % 2 == 0 { 0 } else { 1 + (i / 2 % 7) as u8 })
    }
    #[derive(Clone, Debug, Hash, Serialize, Deserialize)]
    pub enum FOp {
        Load(u8, B56),
        Add(u8, u8, u8),
        Sub(u8, u8, u8),
        Mul(u8, u8, u8),
        Sq(u8, u8),
        Neg(u8, u8),
        SubSelf(u8, u8),
        Inv(u8, u8),
        Swap(u8, u8, bool),
        Sel(u8, u8, u8, bool),
        CNeg(u8, bool),
        Isr(u8, u8),
        Recode(u8),
    }
    fn fop() -> BoxedStrategy<FOp> {
        let r = || 0u8..4;
        prop_oneof![
            2 => (r(), field()).prop_map(|(d, b)| FOp::Load(d, b)),
            8 => (r(), r(), r()).prop_map(|(d, a, b)| FOp::Add(d, a, b)),
            8 => (r(), r(), r()).prop_map(|(d, a, b)| FOp::Sub(d, a, b)),
            6 => (r(), r(), r()).prop_map(|(d, a, b)| FOp::Mul(d, a, b)),
            4 => (r(), r()).prop_map(|(d, a)| FOp::Sq(d, a)),
            4 => (r(), r()).prop_map(|(d, a)| FOp::Neg(d, a)),
            1 => (r(), r()).prop_map(|(d, a)| FOp::SubSelf(d, a)),
            1 => (r(), r(), any::<bool>()).prop_map(|(a, b, c)| FOp::Swap(a, b, c)),
            1 => (r(), r(), r(), any::<bool>()).prop_map(|(d, a, b, c)| FOp::Sel(d, a, b, c)),
            1 => (r(), any::<bool>()).prop_map(|(a, c)| FOp::CNeg(a, c)),
            1 => (r(), r()).prop_map(|(d, a)| FOp::Inv(d, a)),
            1 => (r(), r()).prop_map(|(d, a)| FOp::Isr(d, a)),
            1 => r().prop_map(FOp::Recode),
        ]
        .boxed()
    }
    type Chain = (B56, B56, Vec<FOp>);
    fn chain_strat() -> BoxedStrategy<Chain> {
        (field(), field(), proptest::collection::vec(fop(), 1..60)).boxed()
    }
    fn chain(x: &Chain) -> Outcome {
        let mut f = [Fe::from_bytes(&x.0 .0), Fe::from_bytes(&x.1 .0), Fe::one(), Fe::minus_one()];
        let mut m = [Fp::from_bytes(&x.0 .0), Fp::from_bytes(&x.1 .0), Fp::ONE, Fp::ONE.neg()];
        let mut n = 0;
        for (i, op) in x.2.iter().enumerate() {
            n += 1;
            let d = match op {
                FOp::Load(d, b) => {
                    n -= 1;
                    f[*d as usize] = Fe::from_bytes(&b.0);
                    m[*d as usize] = Fp::from_bytes(&b.0);
                    d
                }
                FOp::Add(d, a, b) => {
                    f[*d as usize] = f[*a as usize].add(&f[*b as usize]);
                    m[*d as usize] = m[*a as usize].add(m[*b as usize]);
                    d
                }
                FOp::Sub(d, a, b) => {
                    f[*d as usize] = f[*a as usize].sub(&f[*b as usize]);
                    m[*d as usize] = m[*a as usize].sub(m[*b as usize]);
                    d
                }
                FOp::Mul(d, a, b) => {
                    f[*d as usize] = f[*a as usize].mul(&f[*b as usize]);
                    m[*d as usize] = m[*a as usize].mul(m[*b as usize]);
                    d
                }
                FOp::Sq(d, a) => {
                    f[*d as usize] = f[*a as usize].square();
                    m[*d as usize] = m[*a as usize].sq();
                    d
                }
                FOp::Neg(d, a) => {
                    f[*d as usize] = f[*a as usize].negate();
                    m[*d as usize] = m[*a as usize].neg();
                    d
                }
                FOp::SubSelf(d, a) => {
                    // 0 reached by subtraction: a representation of zero that is not all-zero limbs
                    f[*d as usize] = f[*a as usize].sub(&f[*a as usize]);
                    m[*d as usize] = Fp::ZERO;
                    d
                }
                FOp::Inv(d, a) => {
                    f[*d as usize] = f[*a as usize].invert();
                    m[*d as usize] = m[*a as usize].inv();
                    d
                }
                FOp::Swap(a, b, c) => {
                    let (p, q) = Fe::swap(&f[*a as usize], &f[*b as usize], *c);
                    if a != b {
                        f[*a as usize] = p;
                        f[*b as usize] = q;
                        if *c {
                            m.swap(*a as usize, *b as usize);
                        }
                    }
                    eq(&format!("step {} {:?}", i, op), &f[*b as usize], m[*b as usize])?;
                    a
                }
                FOp::Sel(d, a, b, c) => {
                    f[*d as usize] = Fe::select(&f[*a as usize], &f[*b as usize], *c);
                    m[*d as usize] = if *c { m[*b as usize] } else { m[*a as usize] };
                    d
                }
                FOp::CNeg(d, c) => {
                    f[*d as usize] = f[*d as usize].cond_negate(*c);
                    if *c {
                        m[*d as usize] = m[*d as usize].neg();
                    }
                    d
                }
                FOp::Isr(d, a) => {
                    let (r, ok) = f[*a as usize].inverse_square_root();
                    let ma = m[*a as usize];
                    let want = !ma.is_zero() && ma.is_square();
                    ensure!(ok == want, "step {} {:?}: flag {}", i, op, ok);
                    if ok {
                        let v = Fp::from_bytes(&r.to_bytes());
                        ensure!(v.sq().mul(ma) == Fp::ONE, "step {} {:?}: not an inverse square root", i, op);
                        f[*d as usize] = r;
                        m[*d as usize] = v;
                    }
                    d
                }
                FOp::Recode(d) => {
                    f[*d as usize] = Fe::from_bytes(&f[*d as usize].to_bytes());
                    d
                }
            };
            let k = *d as usize;
            eq(&format!("step {} {:?}", i, op), &f[k], m[k])?;
            ensure!(f[k].is_zero() == m[k].is_zero() && f[k].is_negative() == m[k].is_odd(), "step {} {:?}: zero or sign test", i, op);
            for j in 0..4 {
                ensure!(f[k].eq(&f[j]) == (m[k] == m[j]), "step {} {:?}: equality of registers {} and {}", i, op, k, j);
            }
        }
        Ok(Info::nt(n >= 3).label(n >= 20, "20+ operations"))
    }
    pub fn legs() -> Vec<Box<dyn Leg>> {
        vec![
            Box::new(Gen { name: "C17.ops", rule: "two encodings through every cheap operation and two-step combinations; non-trivial: neither is 0 or 1", quick: 1_000_000, thorough: 20_000_000, strat: ops_strat, check: ops }),
            Box::new(Sweep { name: "C17.special_pairs", rule: "pairs of boundary integers; non-trivial: neither is 0 or 1", total: ops_total, input: ops_input, check: ops }),
            Box::new(Gen { name: "C17.roots", rule: "inversion and square roots; non-trivial: not 0 or 1", quick: 120_000, thorough: 2_400_000, strat: roots_strat, check: roots }),
            Box::new(Sweep { name: "C17.roots_special", rule: "the same on boundary integers; non-trivial: not 0 or 1", total: |_| special_set().len() as u64 * 2, input: roots_input, check: roots }),
            Box::new(Gen { name: "C17.chain", rule: "register-machine histories of field operations; non-trivial: at least three operations", quick: 100_000, thorough: 2_000_000, strat: chain_strat, check: chain }),
        ]
    }
}
