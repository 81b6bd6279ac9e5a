//! C24: what users build from the crate - Ed448, X448, and Decaf protocols - comes out as the RFCs say.
use crate::bn::{self, Fp, U};
use crate::ensure;
use crate::forms::*;
use crate::gen::*;
use crate::refcurve::{decaf_gen, x448_ladder, Ed};
use crate::runner::*;
use crate::shake::shake256;
use ed448_goldilocks::curve::edwards::CompressedEdwardsY;
use ed448_goldilocks::curve::{ExtendedPoint, MontgomeryPoint};
use ed448_goldilocks::decaf::{CompressedDecaf, DecafPoint};
use ed448_goldilocks::Scalar;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

fn bytes57(max: &[u8]) -> [u8; 57] {
    let mut r = [0; 57];
    r.copy_from_slice(&max[..57]);
    r
}
// ---------------------------------------------------------------- Ed448 (RFC 8032, 5.2)
fn digest(ctx: &[u8], parts: &[&[u8]]) -> [u8; 114] {
    let head = [0u8, ctx.len() as u8];
    let mut all: Vec<&[u8]> = vec![b"SigEd448", &head, ctx];
    all.extend(parts);
    let mut out = [0; 114];
    shake256(&all, &mut out);
    out
}
fn expand(seed: &B57) -> ([u8; 56], [u8; 57]) {
    let mut h = [0u8; 114];
    shake256(&[&seed.0], &mut h);
    let mut s = [0u8; 56];
    s.copy_from_slice(&h[..56]);
    s[0] &= 252;
    s[55] |= 128;
    (s, bytes57(&h[57..]))
}
fn wide(h: &[u8; 114]) -> U {
    bn::mod_l_wide(&bn::limbs_le(h))
}
fn s57(u: &U) -> [u8; 57] {
    let mut r = [0u8; 57];
    r[..56].copy_from_slice(&bn::to_bytes(u));
    r
}
/// by the crate
fn sign(seed: &B57, ctx: &[u8], msg: &[u8]) -> ([u8; 57], [u8; 57], [u8; 57]) {
    let (s, prefix) = expand(seed);
    let g = ExtendedPoint::generator();
    let s = Scalar::from_bytes(s);
    let a = (g * s).compress().0;
    let r = Scalar::from_bytes_mod_order_wide(&digest(ctx, &[&prefix, msg]));
    let rp = (g * r).compress().0;
    let k = Scalar::from_bytes_mod_order_wide(&digest(ctx, &[&rp, &a, msg]));
    (a, rp, (r + k * s).to_bytes_rfc_8032())
}
/// by the model; `ta` and `tr` add 4-torsion to the key and to R, which only a cofactored verification forgives
fn sign_model(seed: &B57, ctx: &[u8], msg: &[u8], ta: u8, tr: u8) -> ([u8; 57], [u8; 57], [u8; 57]) {
    let (s, prefix) = expand(seed);
    let g = Ed::gen();
    let s = bn::from_bytes(&s);
    let a = g.mul(&s).add(Ed::torsion(ta)).encode();
    let r = wide(&digest(ctx, &[&prefix, msg]));
    let rp = g.mul(&r).add(Ed::torsion(tr)).encode();
    let k = wide(&digest(ctx, &[&rp, &a, msg]));
    (a, rp, s57(&bn::add_l(&r, &bn::mul_l(&k, &bn::mod_l(&s)))))
}
/// (with cofactor, without); None: malformed
fn verify(a: &[u8; 57], r: &[u8; 57], s: &[u8; 57], ctx: &[u8], msg: &[u8], form: usize) -> Option<(bool, bool)> {
    let ap = CompressedEdwardsY(*a).decompress()?;
    let rp = CompressedEdwardsY(*r).decompress()?;
    let sc = Scalar::from_canonical_bytes(*s)?;
    let k = Scalar::from_bytes_mod_order_wide(&digest(ctx, &[r, a, msg]));
    let lhs = e_mul(form, &ExtendedPoint::generator(), &sc);
    let rhs = e_add(form, &rp, &e_mul(form, &ap, &k));
    Some((lhs.double().double() == rhs.double().double(), lhs == rhs))
}
fn verify_model(a: &[u8; 57], r: &[u8; 57], s: &[u8; 57], ctx: &[u8], msg: &[u8]) -> Option<(bool, bool)> {
    let ap = Ed::decode(a)?;
    let rp = Ed::decode(r)?;
    let mut sb = [0u8; 56];
    sb.copy_from_slice(&s[..56]);
    let sc = bn::from_bytes(&sb);
    if s[56] != 0 || !bn::is_canonical_l(&sc) {
        return None;
    }
    let k = wide(&digest(ctx, &[r, a, msg]));
    let d = Ed::gen().mul(&sc).sub(rp.add(ap.mul(&k)));
    Some((d.is_4_torsion(), d.is_id()))
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Signing {
    seed: B57,
    msg: Vec<u8>,
    ctx: Vec<u8>,
    form: u8,
}
fn b57() -> BoxedStrategy<B57> {
    (field(), any::<u8>())
        .prop_map(|(f, x)| {
            let mut b = [x; 57];
            b[..56].copy_from_slice(&f.0);
            Hex(b)
        })
        .boxed()
}
fn signing() -> BoxedStrategy<Signing> {
    let msg = prop_oneof![Just(vec![]), proptest::collection::vec(any::<u8>(), 0..40), proptest::collection::vec(any::<u8>(), 100..300)];
    let ctx = prop_oneof![3 => Just(vec![]), 1 => proptest::collection::vec(any::<u8>(), 0..20)];
    (b57(), msg, ctx, any::<u8>()).prop_map(|(seed, msg, ctx, form)| Signing { seed, msg, ctx, form }).boxed()
}
fn check_sign(x: &Signing) -> Outcome {
    let got = sign(&x.seed, &x.ctx, &x.msg);
    let want = sign_model(&x.seed, &x.ctx, &x.msg, 0, 0);
    ensure!(got.0 == want.0, "public key: got {} want {}", bn::hex(&got.0), bn::hex(&want.0));
    ensure!(got.1 == want.1, "R: got {} want {}", bn::hex(&got.1), bn::hex(&want.1));
    ensure!(got.2 == want.2, "S: got {} want {}", bn::hex(&got.2), bn::hex(&want.2));
    let v = verify(&got.0, &got.1, &got.2, &x.ctx, &x.msg, x.form as usize);
    ensure!(v == Some((true, true)), "the signature does not verify (with and without cofactor): {:?}", v);
    Ok(Info::nt(true).label(x.msg.is_empty(), "empty message").label(!x.ctx.is_empty(), "context"))
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Damage {
    None,
    Bit(u16),
    Message,
    /// S + n*l
    PlusL(u8),
    /// a small-order key or R, with this torsion, and S as it comes
    SmallKey(u8),
    SmallR(u8),
    /// everything of small order and S = 0
    AllSmall(u8, u8),
    NegKey,
    NegS,
    Replace(u8, B57),
}
fn damage() -> BoxedStrategy<Damage> {
    prop_oneof![
        4 => Just(Damage::None),
        4 => (0u16..1368).prop_map(Damage::Bit),
        1 => Just(Damage::Message),
        2 => (1u8..4).prop_map(Damage::PlusL),
        1 => (0u8..4).prop_map(Damage::SmallKey),
        1 => (0u8..4).prop_map(Damage::SmallR),
        2 => (0u8..4, 0u8..4).prop_map(|(a, b)| Damage::AllSmall(a, b)),
        1 => Just(Damage::NegKey),
        1 => Just(Damage::NegS),
        2 => (0u8..3, b57()).prop_map(|(k, b)| Damage::Replace(k, b)),
    ]
    .boxed()
}
fn verifying() -> BoxedStrategy<(Signing, u8, u8, Damage)> {
    (signing(), torsion(), torsion(), damage()).boxed()
}
fn check_verify(x: &(Signing, u8, u8, Damage)) -> Outcome {
    let w = &x.0;
    let (mut a, mut r, mut s) = sign_model(&w.seed, &w.ctx, &w.msg, x.1, x.2);
    let mut msg = w.msg.clone();
    match &x.3 {
        Damage::None => {}
        Damage::Bit(k) => {
            let (k, b) = (*k as usize / 8 % 171, 1u8 << (k % 8));
            match k / 57 {
                0 => a[k] ^= b,
                1 => r[k - 57] ^= b,
                _ => s[k - 114] ^= b,
            }
        }
        Damage::Message => msg.push(0),
        Damage::PlusL(n) => {
            let mut b = [0u8; 56];
            b.copy_from_slice(&s[..56]);
            let mut u = bn::from_bytes(&b);
            for _ in 0..*n % 4 {
                u = bn::addc(&u, &bn::l()).0;
            }
            s = s57(&u);
        }
        Damage::SmallKey(t) => a = Ed::torsion(*t).encode(),
        Damage::SmallR(t) => r = Ed::torsion(*t).encode(),
        Damage::AllSmall(t, q) => {
            a = Ed::torsion(*t).encode();
            r = Ed::torsion(*q).encode();
            s = [0; 57];
        }
        Damage::NegKey => a[56] ^= 0x80,
        Damage::NegS => {
            let mut b = [0u8; 56];
            b.copy_from_slice(&s[..56]);
            s = s57(&bn::sub_l(&bn::ZERO, &bn::mod_l(&bn::from_bytes(&b))));
        }
        Damage::Replace(k, b) => match k % 3 {
            0 => a = b.0,
            1 => r = b.0,
            _ => s = b.0,
        },
    }
    let got = verify(&a, &r, &s, &w.ctx, &msg, w.form as usize);
    let want = verify_model(&a, &r, &s, &w.ctx, &msg);
    ensure!(got == want, "verification (with cofactor, without; None: malformed): got {:?} want {:?} for key {} R {} S {}", got, want, bn::hex(&a), bn::hex(&r), bn::hex(&s));
    Ok(Info::nt(x.3 != Damage::None || x.1 % 4 != 0 || x.2 % 4 != 0)
        .label(want == Some((true, true)), "valid")
        .label(want == Some((true, false)), "valid with cofactor only")
        .label(want == Some((false, false)), "invalid")
        .label(want.is_none(), "malformed"))
}
/// several signatures at once: sum of z_i (S_i B - R_i - k_i A_i)
fn batch_strat() -> BoxedStrategy<Vec<(Signing, u8, u8, B56, Damage)>> {
    proptest::collection::vec((signing(), torsion(), torsion(), scalar(), prop_oneof![5 => Just(Damage::None), 1 => Just(Damage::Message)]), 1..5).boxed()
}
fn check_batch(v: &Vec<(Signing, u8, u8, B56, Damage)>) -> Outcome {
    let mut terms: Vec<ExtendedPoint> = vec![];
    let mut b = Scalar::zero();
    let mut want = Ed::ID;
    for (w, ta, tr, z, d) in v {
        let (a, r, s) = sign_model(&w.seed, &w.ctx, &w.msg, *ta, *tr);
        let mut msg = w.msg.clone();
        if *d == Damage::Message {
            msg.push(1);
        }
        let (Some(ap), Some(rp), Some(sc)) = (CompressedEdwardsY(a).decompress(), CompressedEdwardsY(r).decompress(), Scalar::from_canonical_bytes(s)) else {
            return Err("a valid key or signature is rejected".into());
        };
        let h = digest(&w.ctx, &[&r, &a, &msg]);
        let k = Scalar::from_bytes_mod_order_wide(&h);
        let zs = z.scalar();
        b = b + zs * sc;
        terms.push(-(rp * zs));
        terms.push(-(ap * (zs * k)));
        let (zu, zl) = (z.u(), bn::mod_l(&z.u()));
        let mut sb = [0u8; 56];
        sb.copy_from_slice(&s[..56]);
        want = want.add(Ed::gen().mul(&bn::mul_l(&zl, &bn::from_bytes(&sb))));
        want = want.sub(Ed::decode(&r).unwrap_or(Ed::ID).mul(&zu));
        want = want.sub(Ed::decode(&a).unwrap_or(Ed::ID).mul(&bn::mul_l(&zl, &wide(&h))));
    }
    terms.insert(0, ExtendedPoint::generator() * b);
    let forward: ExtendedPoint = terms.iter().sum();
    let backward: ExtendedPoint = terms.iter().rev().copied().sum();
    let halves = terms[..terms.len() / 2].iter().sum::<ExtendedPoint>() + terms[terms.len() / 2..].iter().sum::<ExtendedPoint>();
    let w = want.encode();
    for (n, p) in [("in order", forward), ("in reverse", backward), ("by halves", halves)] {
        ensure!(p.compress().0 == w, "sum {}: got {} want {}", n, bn::hex(&p.compress().0), bn::hex(&w));
        ensure!((p.double().double() == ExtendedPoint::identity()) == want.is_4_torsion(), "batch verdict of the sum {}", n);
    }
    Ok(Info::nt(v.len() > 1).label(want.is_4_torsion(), "accepted").label(!want.is_4_torsion(), "rejected"))
}

// ---------------------------------------------------------------- X448 (RFC 7748, 5 and 6.2)
fn clamped(b: &B56) -> [u8; 56] {
    let mut s = b.0;
    s[0] &= 252;
    s[55] |= 128;
    s
}
fn check_x448(x: &(B56, B56, super::mont::USpec)) -> Outcome {
    let (a, b) = (clamped(&x.0), clamped(&x.1));
    let (sa, sb) = (Scalar::from_bytes(a), Scalar::from_bytes(b));
    let g = MontgomeryPoint::generator();
    let (pa, pb) = (&g * &sa, &sb * &g);
    for (p, s) in [(&pa, &a), (&pb, &b)] {
        let want = x448_ladder(&bn::from_bytes(s), Fp::small(5)).to_bytes();
        ensure!(p.0 == want, "public key: got {} want {}", bn::hex(&p.0), bn::hex(&want));
        // the same key by way of Ed448
        let e = (ExtendedPoint::generator() * Scalar::from_bytes(*s)).to_montgomery();
        ensure!(e.0 == p.0, "public key by way of the Edwards curve: got {} want {}", bn::hex(&e.0), bn::hex(&p.0));
        ensure!(p.is_low_order() == bn::is_zero(&bn::mod_l(&bn::from_bytes(s))), "is_low_order of a public key: {}", p.is_low_order());
    }
    let (ka, kb) = (&pb * &sa, &sb * &pa);
    ensure!(ka == kb && ka.0 == kb.0, "shared secrets differ: {} and {}", bn::hex(&ka.0), bn::hex(&kb.0));
    let want = x448_ladder(&bn::from_bytes(&a), Fp::from_bytes(&pb.0)).to_bytes();
    ensure!(ka.0 == want, "shared secret: got {} want {}", bn::hex(&ka.0), bn::hex(&want));
    // any peer value: the secret is zero for low order, and otherwise only when the key is a multiple of the peer's order
    let u = MontgomeryPoint(x.2.bytes());
    let k = &u * &sa;
    let want = x448_ladder(&bn::from_bytes(&a), Fp::from_bytes(&u.0)).to_bytes();
    ensure!(k.0 == want, "secret with an arbitrary peer: got {} want {}", bn::hex(&k.0), bn::hex(&want));
    let low = [Fp::ZERO, Fp::ONE, Fp::ONE.neg()].contains(&Fp::from_bytes(&u.0));
    ensure!(low == u.is_low_order() && (!low || k.0 == [0; 56]), "is_low_order says {} and the secret is {}", u.is_low_order(), bn::hex(&k.0));
    Ok(Info::nt(x.0 != x.1).label(want == [0; 56], "low order peer"))
}

// ---------------------------------------------------------------- secret sharing
/// coefficients, and distinct non-zero positions
fn shares_strat() -> BoxedStrategy<(Vec<B56>, Vec<u32>)> {
    (proptest::collection::vec(scalar(), 1..5), proptest::collection::btree_set(prop_oneof![3 => 1u32..20, 1 => 1u32..=u32::MAX], 4..6))
        .prop_map(|(c, s)| (c, s.into_iter().collect()))
        .boxed()
}
fn check_shares(x: &(Vec<B56>, Vec<u32>)) -> Outcome {
    let (c, xs) = x;
    let mut xs: Vec<u32> = xs.iter().copied().filter(|v| *v != 0).collect();
    xs.sort();
    xs.dedup();
    if c.is_empty() || xs.len() < c.len() {
        return Ok(Info::nt(false));
    }
    xs.truncate(c.len());
    let share = |i: u32| c.iter().rev().fold(Scalar::zero(), |s, k| s * Scalar::from(i) + k.scalar());
    let shares: Vec<Scalar> = xs.iter().map(|i| share(*i)).collect();
    let lagrange: Vec<Scalar> = xs
        .iter()
        .map(|i| {
            let (mut n, mut d) = (Scalar::one(), Scalar::one());
            for j in xs.iter().filter(|j| *j != i) {
                n = n * Scalar::from(*j);
                d = d * (Scalar::from(*j) - Scalar::from(*i));
            }
            n * d.invert()
        })
        .collect();
    let secret = shares.iter().zip(&lagrange).fold(Scalar::zero(), |s, (a, b)| s + *a * *b);
    let m = bn::mod_l(&c[0].u());
    ensure!(secret.to_bytes() == bn::to_bytes(&m), "secret from shares: got {} want {}", bn::hex(&secret.to_bytes()), bn::hex(&bn::to_bytes(&m)));
    // in the exponent, with encoded shares
    let mut e = ExtendedPoint::identity();
    let mut d = DecafPoint::identity();
    for (s, k) in shares.iter().zip(&lagrange) {
        let ep = (ExtendedPoint::generator() * *s).compress().decompress().ok_or("share rejected")?;
        e += ep * *k;
        let dp = (&DecafPoint::generator() * s).compress().decompress().ok_or("share rejected")?;
        d = d + &dp * k;
    }
    let w = Ed::gen().mul(&m).encode();
    ensure!(e.compress().0 == w, "secret in the Edwards exponent: got {} want {}", bn::hex(&e.compress().0), bn::hex(&w));
    let w = decaf_gen().mul(&m).decaf_encode();
    ensure!(d.compress().0 == w, "secret in the Decaf exponent: got {} want {}", bn::hex(&d.compress().0), bn::hex(&w));
    Ok(Info::nt(c.len() > 1))
}

// ---------------------------------------------------------------- Decaf: commitments, proofs, encryption
fn recode(p: &DecafPoint) -> Result<DecafPoint, String> {
    let c = p.compress();
    c.decompress().ok_or_else(|| format!("own encoding {} rejected", bn::hex(&c.0)))
}
fn decaf_strat() -> BoxedStrategy<(Dp, [B56; 4], u8)> {
    (decaf(), [scalar(), scalar(), scalar(), scalar()], any::<u8>()).boxed()
}
fn check_decaf(x: &(Dp, [B56; 4], u8)) -> Outcome {
    let (h, hm) = x.0.build()?;
    let f = x.2 as usize;
    let g = DecafPoint::generator();
    let [a, r, b, t] = &x.1;
    let (sa, sr, sb, st) = (a.scalar(), r.scalar(), b.scalar(), t.scalar());
    let com = |v: &Scalar, o: &Scalar| d_add(f, &d_mul(f, &g, v), &d_mul(f, &h, o));
    // commitments add up
    let sum = d_add(f, &recode(&com(&sa, &sr))?, &recode(&com(&sb, &st))?);
    let both = com(&(sa + sb), &(sr + st));
    ensure!(sum.equals(&both) && sum.compress() == both.compress(), "commitments do not add up: {} and {}", bn::hex(&sum.compress().0), bn::hex(&both.compress().0));
    let ml = |x: &B56, y: &B56| bn::add_l(&bn::mod_l(&x.u()), &bn::mod_l(&y.u()));
    let w = decaf_gen().mul(&ml(a, b)).add(hm.mul(&ml(r, t))).decaf_encode();
    ensure!(sum.compress().0 == w, "sum of commitments: got {} want {}", bn::hex(&sum.compress().0), bn::hex(&w));
    // a proof of knowledge of a, and an altered one
    let pk = d_mul(f, &g, &sa).compress();
    let rp = d_mul(f, &g, &sr).compress();
    let mut hash = [0u8; 114];
    shake256(&[&pk.0, &rp.0], &mut hash);
    let e = Scalar::from_bytes_mod_order_wide(&hash);
    let z = sr + e * sa;
    let accept = |z: &Scalar, pk: &CompressedDecaf, rp: &CompressedDecaf| -> Result<bool, String> {
        let p = pk.decompress().ok_or("key rejected")?;
        let r = rp.decompress().ok_or("commitment rejected")?;
        Ok(d_mul(f, &g, z).equals(&d_add(f, &r, &d_mul(f, &p, &e))))
    };
    ensure!(accept(&z, &pk, &rp)?, "an honest proof is not accepted");
    ensure!(!accept(&(z + Scalar::one()), &pk, &rp)?, "a proof with z + 1 is accepted");
    if pk.0 != [0; 56] {
        let neg = recode(&d_neg(f, &pk.decompress().ok_or("key rejected")?))?.compress();
        ensure!(accept(&z, &neg, &rp)? == (bn::is_zero(&wide(&hash))), "a proof for the negated key is accepted");
    }
    // encryption of H to the key a, with randomness b
    let p = pk.decompress().ok_or("key rejected")?;
    let (c1, c2) = (recode(&d_mul(f, &g, &sb))?, recode(&d_add(f, &h, &d_mul(f, &p, &sb)))?);
    let m = d_sub(f, &c2, &d_mul(f, &c1, &sa));
    ensure!(m.equals(&h) && m.compress().0 == hm.decaf_encode(), "decryption: got {} want {}", bn::hex(&m.compress().0), bn::hex(&hm.decaf_encode()));
    Ok(Info::nt(!bn::is_zero(&bn::mod_l(&a.u())) && !bn::is_zero(&bn::mod_l(&b.u()))))
}
pub fn c24() -> Vec<Box<dyn Leg>> {
    vec![
        Box::new(Gen { name: "C24.sign", rule: "Ed448 key, signature and verification for a seed, message and context; every case is non-trivial", quick: 4_000, thorough: 100_000, strat: signing, check: check_sign }),
        Box::new(Gen { name: "C24.verify", rule: "verification of a damaged or torsion-shifted signature; non-trivial: damaged or shifted", quick: 8_000, thorough: 200_000, strat: verifying, check: check_verify }),
        Box::new(Gen { name: "C24.batch", rule: "weighted sum of up to 4 signature equations, three groupings; non-trivial: two or more", quick: 1_000, thorough: 40_000, strat: batch_strat, check: check_batch }),
        Box::new(Gen { name: "C24.x448", rule: "X448 between two seeds and with an arbitrary peer; non-trivial: the seeds differ", quick: 3_000, thorough: 120_000, strat: || (scalar(), scalar(), super::mont::uspec()).boxed(), check: check_x448 }),
        Box::new(Gen { name: "C24.shares", rule: "a secret from its shares, as scalar and in the exponent of both groups; non-trivial: two or more shares", quick: 2_000, thorough: 60_000, strat: shares_strat, check: check_shares }),
        Box::new(Gen { name: "C24.decaf", rule: "commitments, Schnorr proof, encryption over Decaf; non-trivial: key and randomness not 0", quick: 2_000, thorough: 80_000, strat: decaf_strat, check: check_decaf }),
    ]
}
/// RFC 8032, 7.4 (first vector), for the self-test
pub fn model_vector() -> bool {
    let mut seed = [0u8; 57];
    seed.copy_from_slice(&bn::unhex("6c82a562cb808d10d632be89c8513ebf6c929f34ddfa8c9f63c9960ef6e348a3528c8a3fcc2f044e39a3fc5b94492f8f032e7549a20098f95b").unwrap());
    let (a, r, s) = sign_model(&Hex(seed), &[], &[], 0, 0);
    bn::hex(&a) == "5fd7449b59b461fd2ce787ec616ad46a1da1342485a70e1f8a0ea75d80e96778edf124769b46c7061bd6783df1e50f6cd1fa1abeafe8256180"
        && bn::hex(&[&r[..], &s[..]].concat()) == "533a37f6bbe457251f023c0d88f976ae2dfb504a843e34d2074fd823d41a591f2b233f034f628281f2fd7a22ddd47d7828c59bd0a21bfd3980ff0d2028d4b18a9df63e006c5d1c2d345b925d8dc00b4104852db99ac5c7cdda8530a113a0f4dbb61149f05a7363268c71d95808ff2e652600"
        && verify_model(&a, &r, &s, &[], &[]) == Some((true, true))
}
