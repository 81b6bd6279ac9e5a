//! C18: the twisted curve's own operations, reached through `ExtendedPoint::to_twisted` (the types cannot be named).
use crate::bn;
use crate::ensure;
use crate::gen::*;
use crate::props::edwards::{related, rel, same, Rel};
use crate::refcurve::Ed;
use crate::runner::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use subtle::{Choice, ConditionallyNegatable, ConditionallySelectable, ConstantTimeEq};

/// phi(p) op phi(q) computed on the twisted curve equals phi(p op q); seen through == and through the dual isogeny.
fn hom(x: &(Pt, Rel)) -> Outcome {
    let (p, mp) = x.0.build()?;
    let (q, mq) = related(mp, &x.1)?;
    let (tp, tq) = (p.to_twisted(), q.to_twisted());
    let id = ed448_goldilocks::curve::ExtendedPoint::identity().to_twisted();
    let (ep, eq_) = (tp.to_extensible(), tq.to_extensible());
    let (np, nq) = (ep.to_projective_niels(), eq_.to_projective_niels());
    let (sum, dif) = (p + q, p - q);
    let (msum, mdif) = (mp.add(mq), mp.sub(mq));
    let four = |m: Ed| m.dbl().dbl();
    macro_rules! is {
        ($n:expr, $t:expr, $edw:expr, $m:expr) => {{
            let t = $t;
            ensure!(t == $edw.to_twisted(), "{}: differs from the image of the Edwards result", $n);
            ensure!(bool::from(t.ct_eq(&$edw.to_twisted())), "{}: ct_eq differs", $n);
            same($n, &t.to_untwisted(), four($m), false)?;
        }};
    }
    is!("add_extended", ep.add_extended(&tq).to_extended(), sum, msum);
    is!("add_extensible", ep.add_extensible(&eq_).to_extended(), sum, msum);
    is!("add_projective_niels", ep.add_projective_niels(&nq).to_extended(), sum, msum);
    is!("sub_extended", ep.sub_extended(&tq).to_extended(), dif, mdif);
    is!("double", ep.double().to_extended(), p.double(), mp.dbl());
    is!("negate", tp.negate(), -p, mp.neg());
    is!("niels to extended", np.to_extended(), p, mp);
    for c in [0u8, 1] {
        let mut n = nq;
        n.conditional_negate(Choice::from(c));
        if c == 1 {
            is!("conditional_negate(1)", n.to_extended(), -q, mq.neg());
            is!("add negated niels", ep.add_projective_niels(&n).to_extended(), dif, mdif);
        } else {
            is!("conditional_negate(0)", n.to_extended(), q, mq);
            is!("add kept niels", ep.add_projective_niels(&n).to_extended(), sum, msum);
        }
    }
    // results go on being usable: T of each result is read by the next operation
    is!("(p+q)+p", ep.add_extended(&tq).add_extended(&tp).to_extended(), sum + p, msum.add(mp));
    is!("(p-q)+q", ep.sub_extended(&tq).add_projective_niels(&nq).to_extended(), p, mp);
    is!("2(p+q)-q", ep.add_projective_niels(&nq).double().sub_extended(&tq).to_extended(), sum.double() - q, msum.dbl().sub(mq));
    is!("(2p)+q", ep.double().add_extended(&tq).to_extended(), p.double() + q, mp.dbl().add(mq));
    is!("(2p) niels", ep.double().to_projective_niels().to_extended(), p.double(), mp.dbl());
    // exactly the 4-torsion points go to the identity
    ensure!((tp == id) == mp.is_4_torsion(), "image is the identity: {} for a point that is 4-torsion: {}", tp == id, mp.is_4_torsion());
    let e = mp.sub(mq).is_4_torsion();
    ensure!((tp == tq) == e && (tq == tp) == e, "images equal: {} but difference 4-torsion: {}", tp == tq, e);
    ensure!((ep == eq_) == e, "extensible images equal: {}", !e);
    ensure!((np == nq) == e, "niels images equal: {}", !e);
    // and so in other projective representations of the same points
    let (ep2, eq2) = (ep.add_extended(&tq).sub_extended(&tq), eq_.double().sub_extended(&tq));
    for (n, a, b, w) in [("p' q", &ep2, &eq_, e), ("p q'", &ep, &eq2, e), ("p' q'", &ep2, &eq2, e), ("p p'", &ep, &ep2, true), ("q' q", &eq2, &eq_, true)] {
        let (xa, xb) = (a.to_extended(), b.to_extended());
        ensure!((a == b) == w && (b == a) == w && bool::from(a.ct_eq(b)) == w && (a != b) != w, "{}: extensible points equal: {}", n, !w);
        ensure!((xa == xb) == w && (xb == xa) == w && bool::from(xa.ct_eq(&xb)) == w && (xa != xb) != w, "{}: extended points equal: {}", n, !w);
        let (na, nb) = (a.to_projective_niels(), b.to_projective_niels());
        ensure!((na == nb) == w && (nb == na) == w && (na != nb) != w, "{}: niels points equal: {}", n, !w);
    }
    // adding the 2-torsion point twice is nothing
    ensure!(tp.torque().torque() == tp, "torque twice");
    Ok(Info::nt(!mp.is_4_torsion() && !mq.is_4_torsion()).label(e, "same image").label(mp.add(mq).is_4_torsion(), "opposite images"))
}
fn neutral_of<T: Default>(_like: &T) -> T {
    T::default()
}
/// Selection, assignment, swapping and defaults of the twisted-curve types: the whole value, seen through later operations.
fn select(x: &(Pt, Rel, bool)) -> Outcome {
    let (p, mp) = x.0.build()?;
    let (q, mq) = related(mp, &x.1)?;
    let c = Choice::from(x.2 as u8);
    let (tp, tq) = (p.to_twisted(), q.to_twisted());
    let (np, nq) = (tp.to_extensible().to_projective_niels(), tq.to_extensible().to_projective_niels());
    let (ms, mo) = if x.2 { (mq, mp) } else { (mp, mq) };
    let four = |m: Ed| m.dbl().dbl();
    // X, Y, Z through the dual isogeny, T through an addition, in each of which it takes part
    macro_rules! ext {
        ($n:expr, $t:expr, $m:expr) => {{
            let t = $t;
            same($n, &t.to_untwisted(), four($m), false)?;
            same($n, &tp.to_extensible().add_extended(&t).to_extended().to_untwisted(), four(mp.add($m)), false)?;
            same($n, &t.to_extensible().add_extended(&tq).to_extended().to_untwisted(), four($m.add(mq)), false)?;
        }};
    }
    macro_rules! niels {
        ($n:expr, $t:expr, $m:expr) => {{
            let t = $t;
            same($n, &t.to_extended().to_untwisted(), four($m), false)?;
            same($n, &tp.to_extensible().add_projective_niels(&t).to_extended().to_untwisted(), four(mp.add($m)), false)?;
        }};
    }
    ext!("twisted conditional_select", ConditionallySelectable::conditional_select(&tp, &tq, c), ms);
    niels!("niels conditional_select", ConditionallySelectable::conditional_select(&np, &nq, c), ms);
    let (mut a, mut n) = (tp, np);
    a.conditional_assign(&tq, c);
    n.conditional_assign(&nq, c);
    ext!("twisted conditional_assign", a, ms);
    niels!("niels conditional_assign", n, ms);
    let (mut a, mut b, mut n, mut o) = (tp, tq, np, nq);
    ConditionallySelectable::conditional_swap(&mut a, &mut b, c);
    ConditionallySelectable::conditional_swap(&mut n, &mut o, c);
    ext!("twisted conditional_swap, first", a, ms);
    ext!("twisted conditional_swap, second", b, mo);
    niels!("niels conditional_swap, first", n, ms);
    niels!("niels conditional_swap, second", o, mo);
    ext!("twisted default", neutral_of(&tp), Ed::ID);
    niels!("niels default", neutral_of(&np), Ed::ID);
    ensure!(neutral_of(&tp) == ed448_goldilocks::curve::ExtendedPoint::identity().to_twisted(), "twisted default is not the identity");
    Ok(Info::nt(!mp.sub(mq).is_id()))
}
pub fn c20() -> Vec<Box<dyn Leg>> {
    vec![Box::new(Gen { name: "C20.twisted", rule: "two twisted-curve points and a choice; non-trivial: the points differ", quick: 8_000, thorough: 160_000, strat: || (point(), rel(), any::<bool>()).boxed(), check: select })]
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum TOp {
    AddExt(u8, u8),
    AddExs(u8, u8),
    AddNiels(u8, u8, bool),
    Sub(u8, u8),
    Dbl(u8),
    Neg(u8),
    Torque(u8),
}
fn top() -> BoxedStrategy<TOp> {
    let r = || 0u8..3;
    prop_oneof![
        3 => (r(), r()).prop_map(|(a, b)| TOp::AddExt(a, b)),
        2 => (r(), r()).prop_map(|(a, b)| TOp::AddExs(a, b)),
        3 => (r(), r(), any::<bool>()).prop_map(|(a, b, c)| TOp::AddNiels(a, b, c)),
        3 => (r(), r()).prop_map(|(a, b)| TOp::Sub(a, b)),
        3 => r().prop_map(TOp::Dbl),
        1 => r().prop_map(TOp::Neg),
        1 => r().prop_map(TOp::Torque),
    ]
    .boxed()
}
fn hist(x: &(Pt, Pt, Pt, Vec<TOp>)) -> Outcome {
    let b = [x.0.build()?, x.1.build()?, x.2.build()?];
    let mut t = [b[0].0.to_twisted(), b[1].0.to_twisted(), b[2].0.to_twisted()];
    // the image under the dual isogeny; adding the 2-torsion point does not change it
    let mut m = [b[0].1.dbl().dbl(), b[1].1.dbl().dbl(), b[2].1.dbl().dbl()];
    for (i, op) in x.3.iter().enumerate() {
        let d = match op {
            TOp::AddExt(a, b) => {
                t[*a as usize] = t[*a as usize].to_extensible().add_extended(&t[*b as usize]).to_extended();
                m[*a as usize] = m[*a as usize].add(m[*b as usize]);
                a
            }
            TOp::AddExs(a, b) => {
                t[*a as usize] = t[*a as usize].to_extensible().add_extensible(&t[*b as usize].to_extensible()).to_extended();
                m[*a as usize] = m[*a as usize].add(m[*b as usize]);
                a
            }
            TOp::AddNiels(a, b, neg) => {
                let mut n = t[*b as usize].to_extensible().to_projective_niels();
                n.conditional_negate(Choice::from(*neg as u8));
                t[*a as usize] = t[*a as usize].to_extensible().add_projective_niels(&n).to_extended();
                m[*a as usize] = if *neg { m[*a as usize].sub(m[*b as usize]) } else { m[*a as usize].add(m[*b as usize]) };
                a
            }
            TOp::Sub(a, b) => {
                t[*a as usize] = t[*a as usize].to_extensible().sub_extended(&t[*b as usize]).to_extended();
                m[*a as usize] = m[*a as usize].sub(m[*b as usize]);
                a
            }
            TOp::Dbl(a) => {
                t[*a as usize] = t[*a as usize].to_extensible().double().to_extended();
                m[*a as usize] = m[*a as usize].dbl();
                a
            }
            TOp::Neg(a) => {
                t[*a as usize] = t[*a as usize].negate();
                m[*a as usize] = m[*a as usize].neg();
                a
            }
            TOp::Torque(a) => {
                t[*a as usize] = t[*a as usize].torque();
                a
            }
        };
        let k = *d as usize;
        let (g, w) = (t[k].to_untwisted().compress().0, m[k].encode());
        ensure!(g == w, "step {} {:?}: dual image {} want {}", i, op, bn::hex(&g), bn::hex(&w));
    }
    Ok(Info::nt(x.3.len() >= 2 && !m[0].is_id()))
}
fn hom_input(i: u64) -> (Pt, Rel) {
    let pt = |i: u64| {
        let s = [0u64, 1, 2, 3][(i / 4 % 4) as usize];
        Pt { base: Base::Mul(B56::of(&bn::from_u64(s))), torsion: (i % 4) as u8, rep: if i / 16 == 0 { Rep::Decoded } else { Rep::AddSub(11) } }
    };
    (pt(i / 32), Rel::Free(pt(i % 32)))
}
/// Crate-private twisted-curve operations: affine coordinates and the three scalar multiplications.
#[cfg(feature = "hooks")]
fn private(x: &(Pt, Rel, B56, B56)) -> Outcome {
    use ed448_goldilocks::verif_hooks as h;
    let (p, mp) = x.0.build()?;
    let (q, mq) = related(mp, &x.1)?;
    let (tp, tq) = (p.to_twisted(), q.to_twisted());
    let four = |m: Ed| m.dbl().dbl();
    let (s, r) = (x.2.scalar(), x.3.scalar());
    // the callers of variable_base divide scalars by four first, so only integers below 2^446 are passed
    let k = bn::shr1(&bn::shr1(&x.2.u()));
    ensure!(h::tw_is_on_curve(&tp) && h::tw_is_on_curve(&tq), "image not on the twisted curve");
    for (n, t, e, m) in [
        ("tw add", h::tw_add(&tp, &tq), p + q, mp.add(mq)),
        ("tw double", h::tw_double(&tp), p.double(), mp.dbl()),
        ("tw affine add", h::tw_affine_add(&tp, &tq), p + q, mp.add(mq)),
        ("tw affine negate", h::tw_affine_negate(&tp), -p, mp.neg()),
    ] {
        ensure!(h::tw_is_on_curve(&t), "{}: result not on the twisted curve", n);
        ensure!(t == e.to_twisted(), "{}: differs from the image of the Edwards result", n);
        same(n, &t.to_untwisted(), four(m), false)?;
    }
    let sp = four(mp.mul(&x.2.u()));
    same("variable_base", &h::tw_variable_base(&tp, &B56::of(&k).scalar()).to_untwisted(), four(mp.mul(&k)), false)?;
    same("double_and_add", &h::tw_double_and_add(&tp, &s).to_untwisted(), sp, false)?;
    // aP + bB for the twisted base point B
    let base = h::tw_double_base(&ed448_goldilocks::Scalar::zero(), &tp, &ed448_goldilocks::Scalar::one()).to_untwisted();
    let mb = Ed::decode(&base.compress().0).ok_or("dual image of the twisted base point does not decode")?;
    ensure!(!mb.is_id() && base.is_torsion_free(), "twisted base point");
    same("double_base", &h::tw_double_base(&s, &tp, &r).to_untwisted(), sp.add(mb.mul(&x.3.u())), false)?;
    Ok(Info::nt(!mp.is_4_torsion() && !mq.is_4_torsion()))
}
#[cfg(feature = "hooks")]
fn private_legs() -> Vec<Box<dyn Leg>> {
    vec![Box::new(Gen { name: "C18.private", rule: "pairs of Edwards points and scalars through crate-private twisted-curve operations (affine law, three scalar multiplications); non-trivial: neither point is 4-torsion", quick: 3_000, thorough: 60_000, strat: || (point(), rel(), scalar(), scalar()).boxed(), check: private })]
}
#[cfg(not(feature = "hooks"))]
fn private_legs() -> Vec<Box<dyn Leg>> {
    vec![]
}
fn images() -> BoxedStrategy<(Pt, Rel)> {
    let p = (field(), any::<bool>(), any::<bool>(), rep()).prop_map(|(v, o, x, rep)| Pt { base: Base::FromTwisted(v, o, x), torsion: 0, rep });
    (p, rel()).boxed()
}
pub fn c18() -> Vec<Box<dyn Leg>> {
    let mut v = public_legs();
    v.extend(private_legs());
    v
}
fn public_legs() -> Vec<Box<dyn Leg>> {
    vec![
        Box::new(Sweep { name: "C18.small", rule: "all pairs of {0,G,2G,3G} plus 4-torsion in two representations; non-trivial: neither is 4-torsion", total: |_| 32 * 32, input: hom_input, check: hom }),
        Box::new(Gen { name: "C18.homomorphism", rule: "pairs of Edwards points through every twisted-curve operation; non-trivial: neither is 4-torsion", quick: 6_000, thorough: 120_000, strat: || (point(), rel()).boxed(), check: hom }),
        Box::new(Gen { name: "C18.images", rule: "points whose image on the twisted curve has a boundary coordinate, with a related partner; non-trivial: neither is 4-torsion", quick: 2_000, thorough: 60_000, strat: images, check: hom }),
        Box::new(Gen { name: "C18.history", rule: "histories of twisted-curve operations; non-trivial: two or more operations, first result not the identity", quick: 10_000, thorough: 200_000, strat: || (point(), point(), point(), proptest::collection::vec(top(), 1..16)).boxed(), check: hist }),
    ]
}
