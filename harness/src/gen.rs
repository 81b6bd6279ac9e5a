//! Generators: 448-bit integers concentrated on the boundaries that matter (group order, field prime, limb
//! and digit edges), points with chosen torsion and projective representation, Decaf elements.
#![allow(dead_code)]
use crate::bn::{self, Fp, U};
use crate::refcurve::{decaf_gen, Ed};
use ed448_goldilocks::curve::edwards::CompressedEdwardsY;
use ed448_goldilocks::curve::{ExtendedPoint, MontgomeryPoint};
use ed448_goldilocks::decaf::{CompressedDecaf, DecafPoint};
use ed448_goldilocks::Scalar;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{de::Error as _, Deserialize, Deserializer, Serialize, Serializer};
use std::fmt;
use std::sync::OnceLock;

/// N bytes, written as hex in samples and replay files.
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Hex<const N: usize>(pub [u8; N]);
impl<const N: usize> fmt::Debug for Hex<N> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "0x{}", bn::hex(&self.0))
    }
}
impl<const N: usize> Serialize for Hex<N> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&bn::hex(&self.0))
    }
}
impl<'de, const N: usize> Deserialize<'de> for Hex<N> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        let v = bn::unhex(&s).ok_or_else(|| D::Error::custom("hex"))?;
        <[u8; N]>::try_from(v.as_slice()).map(Hex).map_err(|_| D::Error::custom("length"))
    }
}
pub type B56 = Hex<56>;
pub type B57 = Hex<57>;
pub type B114 = Hex<114>;
impl B56 {
    pub fn u(&self) -> U {
        bn::from_bytes(&self.0)
    }
    pub fn of(u: &U) -> B56 {
        Hex(bn::to_bytes(u))
    }
    pub fn scalar(&self) -> Scalar {
        Scalar::from_bytes(self.0)
    }
    pub fn mont(&self) -> MontgomeryPoint {
        MontgomeryPoint(self.0)
    }
}
pub fn u_of(s: &Scalar) -> U {
    bn::from_bytes(&s.to_bytes())
}

// ---------------------------------------------------------------- structured 448-bit integers

/// Integers the code or its users treat specially.
pub fn centers() -> &'static Vec<U> {
    static C: OnceLock<Vec<U>> = OnceLock::new();
    C.get_or_init(|| {
        let l = bn::l();
        let two = bn::addc(&l, &l).0;
        let three = bn::addc(&two, &l).0;
        let four = bn::addc(&two, &two).0;
        let mut v = vec![bn::ZERO, l, two, three, four, bn::P];
        v.push(bn::shr1(&l));
        v.push(bn::addc(&l, &bn::shr1(&l)).0);
        v.push(bn::shr1(&bn::shr1(&l)));
        v.push(bn::shr1(&bn::P));
        v.push(bn::subb(&bn::P, &l).0);
        // 2^448 mod l, 2^896 mod l, their negatives and inverses; 2^448 mod p
        let r = bn::mod_l_wide(&[0, 0, 0, 0, 0, 0, 0, 1]);
        let r2 = bn::mul_l(&r, &r);
        for x in [r, r2, bn::inv_l(&r), bn::inv_l(&r2)] {
            v.push(x);
            v.push(bn::subb(&l, &x).0);
        }
        v.push(bn::addc(&bn::pow2(224), &bn::ONE).0);
        // curve constants and their inverses modulo p
        for c in [39081u64, 39082, 156324, 156326, 156328, 78164] {
            v.push(bn::from_u64(c));
            v.push(bn::subb(&bn::P, &bn::from_u64(c)).0);
            v.push(Fp::small(c).inv().0);
        }
        // coordinates of the base point, square roots that appear in the formulas
        let g = Ed::gen();
        v.extend([g.x.0, g.y.0, Fp::small(39081).sqrt().unwrap().0, Fp::small(39082).neg().sqrt().unwrap().0]);
        // encodings of the Decaf elements with x y = 1 or -1 on the twisted curve: x^4 - 39081 x^2 - 1 = 0
        let (a, half) = (Fp::small(39081), Fp::small(2).inv());
        let r = a.sq().add(Fp::small(4)).sqrt().unwrap();
        for r in [r, r.neg()] {
            if let Some(x) = a.add(r).mul(half).sqrt() {
                // x = 2s / (1 - s^2)
                if let Some(w) = Fp::ONE.add(x.sq()).sqrt() {
                    for w in [w, w.neg()] {
                        v.push(w.sub(Fp::ONE).mul(x.inv()).abs().0);
                    }
                }
            }
        }
        v
    })
}
fn arr56() -> impl Strategy<Value = [u8; 56]> {
    proptest::array::uniform32(any::<u8>()).prop_flat_map(|a| {
        proptest::array::uniform24(any::<u8>()).prop_map(move |b| {
            let mut r = [0u8; 56];
            r[..24].copy_from_slice(&b);
            r[24..].copy_from_slice(&a);
            r
        })
    })
}
/// seven uniform words (one independent draw each, so that each shrinks separately)
pub fn uniform() -> impl Strategy<Value = U> {
    [any::<u64>(), any::<u64>(), any::<u64>(), any::<u64>(), any::<u64>(), any::<u64>(), any::<u64>()]
}
/// a signed offset, small magnitudes most likely
pub fn delta() -> impl Strategy<Value = i64> {
    prop_oneof![
        4 => -4i64..=4,
        2 => -300i64..=300,
        2 => (0u32..62, any::<bool>(), -3i64..=3).prop_map(|(k, s, e)| { let v = (1i64 << k) + e; if s { -v } else { v } }),
    ]
}
pub fn offset(c: &U, d: i64) -> U {
    if d >= 0 {
        bn::addc(c, &bn::from_u64(d as u64)).0
    } else {
        bn::subb(c, &bn::from_u64(d.unsigned_abs())).0
    }
}
/// special value plus or minus a little (also shifted by a power of two)
pub fn near() -> impl Strategy<Value = U> {
    let n = centers().len();
    prop_oneof![
        4 => (0..n, delta()).prop_map(|(i, d)| offset(&centers()[i], d)),
        2 => (0..n, 0usize..448, any::<bool>(), -2i64..=2).prop_map(|(i, k, s, d)| {
            let c = &centers()[i];
            let x = if s { bn::subb(c, &bn::pow2(k)).0 } else { bn::addc(c, &bn::pow2(k)).0 };
            offset(&x, d)
        }),
    ]
}
/// numbers made of `bits`-wide digits that are mostly extreme
pub fn digits(bits: usize) -> BoxedStrategy<U> {
    let n = (448 + bits - 1) / bits;
    let max = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
    let half = 1u64 << (bits - 1);
    let digit = prop_oneof![
        4 => Just(0u64),
        4 => Just(max),
        1 => Just(1u64),
        1 => Just(max - 1),
        1 => Just(half),
        1 => Just(half - 1),
        1 => Just(half + 1),
        2 => 0..=max,
    ];
    proptest::collection::vec(digit, n)
        .prop_map(move |v| {
            let mut r = bn::ZERO;
            for (i, d) in v.iter().enumerate() {
                let lo = i * bits;
                for b in 0..bits {
                    if d >> b & 1 == 1 && lo + b < 448 {
                        r[(lo + b) / 64] |= 1 << ((lo + b) % 64);
                    }
                }
            }
            r
        })
        .boxed()
}
/// runs of ones: sum of +-2^i
pub fn sparse() -> impl Strategy<Value = U> {
    proptest::collection::vec((0usize..448, any::<bool>()), 0..6).prop_map(|v| {
        let mut r = bn::ZERO;
        for (i, s) in v {
            r = if s { bn::subb(&r, &bn::pow2(i)).0 } else { bn::addc(&r, &bn::pow2(i)).0 };
        }
        r
    })
}
/// agrees with a special value on the top `k` 32-bit digits (the boundary digit off by one or not), arbitrary below
pub fn prefix() -> impl Strategy<Value = U> {
    let n = centers().len();
    (0..n, 0usize..=14, -1i64..=1, uniform(), 0u8..3).prop_map(|(i, k, d, low, fill)| {
        let c = centers()[i];
        let mut r = bn::ZERO;
        for j in 0..14 {
            let w = if 13 - j < k {
                let mut w = (c[j / 2] >> (32 * (j % 2))) as u32;
                if 13 - j == k - 1 {
                    w = w.wrapping_add(d as u32);
                }
                w
            } else {
                match fill {
                    0 => 0,
                    1 => u32::MAX,
                    _ => (low[j / 2] >> (32 * (j % 2))) as u32,
                }
            };
            r[j / 2] |= (w as u64) << (32 * (j % 2));
        }
        r
    })
}
/// one digit of 1 to 224 bits repeated throughout, or a digit sequence followed by its mirror image
pub fn periodic() -> impl Strategy<Value = U> {
    let width = prop_oneof![Just(8usize), Just(1), Just(2), Just(4), Just(16), Just(28), Just(32), Just(56), Just(64), Just(112), Just(224)];
    (width, prop_oneof![1 => small().boxed(), 2 => uniform().boxed(), 1 => near().boxed()], 0u8..4).prop_map(|(w, d, mirror)| {
        let mut r = bn::ZERO;
        for k in 0..448 {
            let j = if mirror == 0 && k >= 224 {
                // the upper half mirrors the lower one, byte by byte
                (447 - k) / 8 * 8 + k % 8
            } else if mirror == 0 {
                k
            } else {
                k % w
            };
            if bn::bit(&d, j) {
                r[k / 64] |= 1 << (k % 64);
            }
        }
        r
    })
}
pub fn small() -> impl Strategy<Value = U> {
    prop_oneof![
        2 => (0u64..64).prop_map(|x| bn::from_u64(x)),
        1 => (0u32..64, any::<u64>()).prop_map(|(k, x)| bn::from_u64(x >> k)),
        1 => (0usize..448, uniform()).prop_map(|(k, x)| { let mut r = x; for _ in 0..k { r = bn::shr1(&r); } r }),
    ]
}

/// Integer literals that run.py found in /repo/src and that the pinned tree does not have (HARNESS_DICT: JSON list of
/// little-endian hex strings). They only steer generation; empty on the unchanged tree.
fn dictionary() -> &'static Vec<U> {
    static C: OnceLock<Vec<U>> = OnceLock::new();
    C.get_or_init(|| {
        let text = std::env::var("HARNESS_DICT").ok().and_then(|p| std::fs::read_to_string(p).ok()).unwrap_or_default();
        let list: Vec<String> = serde_json::from_str(&text).unwrap_or_default();
        let mut out = vec![];
        for h in list {
            if let Some(b) = bn::unhex(&h) {
                let mut x = [0u8; 56];
                let n = b.len().min(56);
                x[..n].copy_from_slice(&b[..n]);
                out.push(bn::from_bytes(&x));
            }
        }
        out
    })
}
/// a dictionary value (or a neighbour) as a digit of an otherwise arbitrary number, as a bit position, or by itself
fn dict_u() -> BoxedStrategy<U> {
    let n = dictionary().len();
    let base = prop_oneof![2 => Just(bn::ZERO), 3 => uniform(), 1 => near(), 1 => Just(bn::MAX)];
    (0..n, prop_oneof![4 => Just(0i64), 1 => -1i64..=1], prop_oneof![Just(4usize), Just(8), Just(16), Just(28), Just(32), Just(56), Just(64), Just(448)], 0usize..112, 0u8..10, base)
        .prop_map(|(i, d, width, pos, mode, mut r)| {
            let v = offset(&dictionary()[i], d);
            if mode == 0 && v[0] < 448 && v[1..].iter().all(|w| *w == 0) {
                return bn::addc(&r, &bn::pow2(v[0] as usize)).0;
            }
            let lo = pos % (448 / width) * width;
            for b in 0..width {
                let k = lo + b;
                r[k / 64] &= !(1 << (k % 64));
                if bn::bit(&v, b) {
                    r[k / 64] |= 1 << (k % 64);
                }
            }
            r
        })
        .boxed()
}
fn with_dict(s: BoxedStrategy<U>) -> BoxedStrategy<U> {
    if dictionary().is_empty() {
        s
    } else {
        prop_oneof![3 => s, 1 => dict_u()].boxed()
    }
}
/// A 448-bit scalar, reduced or not.
pub fn scalar_u() -> BoxedStrategy<U> {
    with_dict(prop_oneof![
        4 => uniform(),
        3 => uniform().prop_map(|x| bn::mod_l(&x)),
        3 => near(),
        2 => prefix(),
        1 => small(),
        1 => sparse(),
        1 => periodic(),
        2 => digits(32),
        2 => digits(4),
        1 => digits(8),
        1 => digits(64),
    ]
    .boxed())
}
pub fn scalar() -> BoxedStrategy<B56> {
    scalar_u().prop_map(|u| B56::of(&u)).boxed()
}
/// A canonical scalar (below l).
pub fn cscalar() -> BoxedStrategy<B56> {
    scalar_u().prop_map(|u| B56::of(&bn::mod_l(&u))).boxed()
}
/// A 448-bit encoding of a field element, canonical or not.
pub fn field_u() -> BoxedStrategy<U> {
    with_dict(prop_oneof![
        4 => uniform(),
        3 => near(),
        2 => prefix(),
        1 => small(),
        1 => sparse(),
        1 => periodic(),
        3 => digits(28),
        2 => digits(56),
        1 => digits(32),
        1 => digits(8),
        1 => (0u64..=300).prop_map(|d| bn::subb(&bn::MAX, &bn::from_u64(d)).0),
        // the non-canonical window [p, 2^448)
        1 => (0usize..225, uniform()).prop_map(|(k, x)| {
            let mut o = bn::ZERO;
            o[..4].copy_from_slice(&x[..4]);
            o[3] &= 0xffff_ffff;
            for _ in 0..k { o = bn::shr1(&o); }
            bn::addc(&bn::P, &o).0
        }),
    ]
    .boxed())
}
pub fn field() -> BoxedStrategy<B56> {
    field_u().prop_map(|u| B56::of(&u)).boxed()
}
/// Two scalars, often related (equal, opposite, inverse, sum near a boundary).
pub fn scalar_pair() -> BoxedStrategy<(B56, B56)> {
    (scalar_u(), scalar_u(), 0u8..16, delta())
        .prop_map(|(a, b, mode, d)| {
            let l = bn::l();
            let b = match mode {
                0 => a,
                1 => bn::subb(&l, &bn::mod_l(&a)).0,
                2 => offset(&bn::subb(&l, &bn::mod_l(&a)).0, d),
                3 => offset(&a, d),
                4 => bn::subb(&bn::ZERO, &a).0,
                5 => offset(&bn::subb(&bn::ZERO, &a).0, d),
                6 => bn::mul_l(&bn::inv_l(&a), &bn::mod_l(&offset(&bn::ZERO, d.abs()))),
                7 => bn::addc(&a, &l).0,
                8 => bn::mod_l(&a),
                _ => b,
            };
            (B56::of(&a), B56::of(&b))
        })
        .boxed()
}

// ---------------------------------------------------------------- Edwards points

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Base {
    Identity,
    Generator,
    /// this multiple of the generator
    Mul(B56),
    /// the point with the smallest valid y >= this value modulo p, and this parity of x
    FromY(B56, bool),
    /// as FromY, times 4: always in the prime-order subgroup
    Cleared(B56, bool),
    /// the point of prime order whose image on the twisted curve has the smallest possible y >= this value (or x, if the
    /// second flag is set) modulo p, and this parity of the other coordinate
    FromTwisted(B56, bool, bool),
}
/// How the point is represented in the library's projective coordinates.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Rep {
    /// straight from decoding (Z = 1)
    Decoded,
    /// P + kG - kG
    AddSub(u8),
    /// 1 * P
    TimesOne,
    /// -(-P)
    NegNeg,
    /// torque(torque(P))
    Torque2,
    /// normalised by the library after AddSub
    Renorm(u8),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Pt {
    pub base: Base,
    /// multiple of the order-4 point (1,0) added
    pub torsion: u8,
    pub rep: Rep,
}
pub fn y_point(y: &B56, odd: bool) -> Ed {
    let mut y = Fp::from_bytes(&y.0);
    loop {
        if let Some(x) = Ed::x_from_y(y) {
            return Ed::affine(if x.is_odd() != odd { x.neg() } else { x }, y);
        }
        y = y.add(Fp::ONE);
    }
}
/// The 2-isogeny to y^2 - x^2 = 1 - 39082 x^2 y^2 and its dual, on integers (derived from the doubling formulas):
/// (2xy/(y^2 - a x^2), (y^2 + a x^2)/(2 - y^2 - a x^2))
fn isogeny(x: Fp, y: Fp, a: Fp) -> (Fp, Fp) {
    let (xx, yy) = (a.mul(x.sq()), y.sq());
    let xy = x.mul(y);
    (xy.add(xy).mul(yy.sub(xx).inv()), yy.add(xx).mul(Fp::small(2).sub(yy).sub(xx).inv()))
}
/// see Base::FromTwisted
pub fn twisted_point(v: &B56, odd: bool, by_x: bool) -> Ed {
    let quarter = bn::inv_l(&bn::from_u64(4));
    let (mut v, d) = (Fp::from_bytes(&v.0), Fp::small(39082).neg());
    loop {
        let vv = v.sq();
        // x^2 = (y^2 - 1) / (1 + d y^2) and y^2 = (1 + x^2) / (1 - d x^2)
        let (n, m) = if by_x { (Fp::ONE.add(vv), Fp::ONE.sub(d.mul(vv))) } else { (vv.sub(Fp::ONE), Fp::ONE.add(d.mul(vv))) };
        if let Some(w) = n.mul(m.inv()).sqrt() {
            let w = if w.is_odd() != odd { w.neg() } else { w };
            let (x, y) = if by_x { (v, w) } else { (w, v) };
            // the dual isogeny followed by the isogeny is multiplication by 4
            let (ex, ey) = isogeny(x, y, Fp::ONE.neg());
            let p = Ed::affine(ex, ey).mul(&quarter);
            let q = p.norm();
            if isogeny(q.x, q.y, Fp::ONE) == (x, y) {
                return p;
            }
        }
        v = v.add(Fp::ONE);
    }
}
impl Base {
    pub fn model(&self) -> Ed {
        match self {
            Base::FromTwisted(v, odd, by_x) => twisted_point(v, *odd, *by_x),
            Base::Identity => Ed::ID,
            Base::Generator => Ed::gen(),
            Base::Mul(s) => Ed::gen().mul(&s.u()),
            Base::FromY(y, odd) => y_point(y, *odd),
            Base::Cleared(y, odd) => y_point(y, *odd).dbl().dbl(),
        }
    }
}
/// G, 2G, ... 255G in the library, by repeated addition (checked against the model by C05)
fn small_multiples() -> &'static Vec<ExtendedPoint> {
    static C: OnceLock<Vec<ExtendedPoint>> = OnceLock::new();
    C.get_or_init(|| {
        let g = ExtendedPoint::generator();
        let mut v = vec![ExtendedPoint::identity()];
        for i in 1..256 {
            let n = v[i - 1] + g;
            v.push(n);
        }
        v
    })
}
/// The library's point for a model point, by decoding its RFC 8032 encoding.
pub fn lib_point(m: Ed) -> Result<ExtendedPoint, String> {
    let e = m.encode();
    CompressedEdwardsY(e).decompress().ok_or_else(|| format!("valid encoding {} rejected", bn::hex(&e)))
}
impl Pt {
    pub fn model(&self) -> Ed {
        let b = self.base.model();
        if self.torsion % 4 == 0 {
            b
        } else {
            b.add(Ed::torsion(self.torsion))
        }
    }
    pub fn rep_lib(&self, p: ExtendedPoint) -> ExtendedPoint {
        match self.rep {
            Rep::Decoded => p,
            Rep::AddSub(k) => {
                let q = small_multiples()[k as usize];
                p + q - q
            }
            Rep::TimesOne => p * Scalar::one(),
            Rep::NegNeg => -(-p),
            Rep::Torque2 => p.torque().torque(),
            Rep::Renorm(k) => {
                let q = small_multiples()[k as usize];
                (p + q - q).to_affine().to_extended()
            }
        }
    }
    pub fn build(&self) -> Result<(ExtendedPoint, Ed), String> {
        let m = self.model();
        let p = lib_point(m)?;
        Ok((self.rep_lib(p), m))
    }
    pub fn special(&self) -> bool {
        matches!(self.base, Base::Identity) || matches!(self.base, Base::Mul(s) if s.0 == [0; 56])
    }
}
pub fn base_cheap() -> BoxedStrategy<Base> {
    prop_oneof![
        1 => Just(Base::Identity),
        2 => Just(Base::Generator),
        10 => (field(), any::<bool>()).prop_map(|(y, s)| Base::FromY(y, s)),
        6 => (field(), any::<bool>()).prop_map(|(y, s)| Base::Cleared(y, s)),
        2 => scalar().prop_map(Base::Mul),
    ]
    .boxed()
}
pub fn base_prime_order() -> BoxedStrategy<Base> {
    prop_oneof![
        1 => Just(Base::Identity),
        3 => Just(Base::Generator),
        10 => (field(), any::<bool>()).prop_map(|(y, s)| Base::Cleared(y, s)),
        3 => scalar().prop_map(Base::Mul),
    ]
    .boxed()
}
pub fn rep() -> BoxedStrategy<Rep> {
    prop_oneof![
        4 => Just(Rep::Decoded),
        5 => any::<u8>().prop_map(Rep::AddSub),
        1 => Just(Rep::TimesOne),
        1 => Just(Rep::NegNeg),
        1 => Just(Rep::Torque2),
        1 => any::<u8>().prop_map(Rep::Renorm),
    ]
    .boxed()
}
pub fn torsion() -> BoxedStrategy<u8> {
    prop_oneof![3 => Just(0u8), 3 => 0u8..4].boxed()
}
pub fn point() -> BoxedStrategy<Pt> {
    (base_cheap(), torsion(), rep()).prop_map(|(base, torsion, rep)| Pt { base, torsion, rep }).boxed()
}
pub fn prime_point() -> BoxedStrategy<Pt> {
    (base_prime_order(), rep()).prop_map(|(base, rep)| Pt { base, torsion: 0, rep }).boxed()
}

// ---------------------------------------------------------------- Decaf elements

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum DBase {
    Identity,
    Generator,
    /// this multiple of the generator
    Mul(B56),
    /// the element with the smallest valid encoding >= this value modulo p (made even)
    FromS(B56),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum DRep {
    Decoded,
    /// P + kG - kG
    AddSub(u8),
    /// P + Q - decode(encode(Q)) for Q = kG: shifts the coset representative for about half of the k
    AddSubRecoded(u8),
    TimesOne,
    NegNeg,
    Recoded,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Dp {
    pub base: DBase,
    pub rep: DRep,
}
pub fn next_decaf(s: &B56) -> (B56, Ed) {
    let mut s = Fp::from_bytes(&s.0);
    if s.is_odd() {
        s = s.sub(Fp::ONE);
    }
    loop {
        if s.is_odd() {
            s = Fp::small(2); // past p - 1
        }
        if let Some(p) = Ed::decaf_decode(&s.to_bytes()) {
            return (Hex(s.to_bytes()), p);
        }
        s = s.add(Fp::small(2));
    }
}
pub fn lib_decaf(b: &B56) -> Result<DecafPoint, String> {
    CompressedDecaf(b.0).decompress().ok_or_else(|| format!("valid decaf encoding {:?} rejected", b))
}
/// the library's encodings of kG, by repeated addition
fn decaf_small() -> &'static Vec<[u8; 56]> {
    static C: OnceLock<Vec<[u8; 56]>> = OnceLock::new();
    C.get_or_init(|| {
        let g = decaf_gen();
        let mut m = Ed::ID;
        (0..256)
            .map(|_| {
                let e = m.decaf_encode();
                m = m.add(g);
                e
            })
            .collect()
    })
}
fn decaf_mult_by_adding(k: u8) -> DecafPoint {
    // double-and-add from the generator constant, without decoding
    let g = DecafPoint::generator();
    let mut r = DecafPoint::identity();
    for i in (0..8).rev() {
        r = &r + &r;
        if k >> i & 1 == 1 {
            r = &r + &g;
        }
    }
    r
}
impl Dp {
    pub fn model(&self) -> Ed {
        match &self.base {
            DBase::Identity => Ed::ID,
            DBase::Generator => decaf_gen(),
            DBase::Mul(s) => decaf_gen().mul(&s.u()),
            DBase::FromS(s) => next_decaf(s).1,
        }
    }
    pub fn build(&self) -> Result<(DecafPoint, Ed), String> {
        let (p, m) = match &self.base {
            DBase::Identity => (DecafPoint::identity(), Ed::ID),
            DBase::Generator => (DecafPoint::generator(), decaf_gen()),
            DBase::Mul(_) => {
                let m = self.model();
                (lib_decaf(&Hex(m.decaf_encode()))?, m)
            }
            DBase::FromS(s) => {
                let (b, m) = next_decaf(s);
                (lib_decaf(&b)?, m)
            }
        };
        let p = match self.rep {
            DRep::Decoded => p,
            DRep::AddSub(k) => {
                let q = decaf_mult_by_adding(k);
                &(&p + &q) - &q
            }
            DRep::AddSubRecoded(k) => {
                let q = decaf_mult_by_adding(k);
                let q2 = lib_decaf(&Hex(decaf_small()[k as usize]))?;
                &(&p + &q) - &q2
            }
            DRep::TimesOne => &p * &Scalar::one(),
            DRep::NegNeg => -(-p),
            DRep::Recoded => {
                let e = p.compress();
                e.decompress().ok_or_else(|| format!("own encoding {} rejected", bn::hex(&e.0)))?
            }
        };
        Ok((p, m))
    }
}
pub fn decaf() -> BoxedStrategy<Dp> {
    (
        prop_oneof![
            1 => Just(DBase::Identity),
            2 => Just(DBase::Generator),
            12 => field().prop_map(DBase::FromS),
            3 => scalar().prop_map(DBase::Mul),
        ],
        prop_oneof![
            3 => Just(DRep::Decoded),
            3 => any::<u8>().prop_map(DRep::AddSub),
            5 => any::<u8>().prop_map(DRep::AddSubRecoded),
            1 => Just(DRep::TimesOne),
            1 => Just(DRep::NegNeg),
            1 => Just(DRep::Recoded),
        ],
    )
        .prop_map(|(base, rep)| Dp { base, rep })
        .boxed()
}

/// A deterministic list of structured 448-bit integers for the sweeps.
pub fn special_set() -> &'static Vec<U> {
    static C: OnceLock<Vec<U>> = OnceLock::new();
    C.get_or_init(|| {
        let mut v: Vec<U> = (0..34).map(bn::from_u64).collect();
        for c in centers() {
            for d in -3i64..=3 {
                v.push(offset(c, d));
            }
        }
        for i in 0..448 {
            v.push(bn::pow2(i));
            if i % 4 == 0 {
                v.push(offset(&bn::pow2(i), -1));
            }
        }
        for i in (0..446).step_by(8) {
            v.push(bn::subb(&bn::l(), &bn::pow2(i)).0);
            v.push(bn::subb(&bn::P, &bn::pow2(i)).0);
        }
        // one 28/32/56/64-bit digit all ones, or everything but that digit
        for w in [28usize, 32, 56, 64] {
            for j in 0..448 / w {
                let mut x = bn::ZERO;
                for b in 0..w {
                    let k = j * w + b;
                    x[k / 64] |= 1 << (k % 64);
                }
                v.push(x);
                v.push(bn::subb(&bn::MAX, &x).0);
            }
        }
        v.push(bn::MAX);
        v.sort();
        v.dedup();
        v
    })
}

// ---------------------------------------------------------------- relatives: values that agree in part
/// how a value of a history is derived from the first one
pub type Kin = (u8, u16);
pub fn kin() -> BoxedStrategy<Kin> {
    (0u8..16, 0u16..448).boxed()
}
/// `m` is the modulus that matters for the value (l or p)
pub fn relative(b: &B56, k: &Kin, m: &U) -> B56 {
    let u = b.u();
    let at = k.1 as usize % 448;
    let mut r = u;
    match k.0 % 16 {
        0 | 1 => {}
        2 | 3 => r[at / 64] ^= 1 << (at % 64),
        4 => r = bn::subb(m, &u).0,
        5 => r = bn::addc(&u, m).0,
        6 => r = offset(&u, 1),
        7 => r = offset(&u, -1),
        // one half or one word kept
        8 => r[..4].fill(0),
        9 => r[4..].fill(at as u64),
        10 => r[at % 7] = !r[at % 7],
        11 => r[at % 7] = 0,
        12 => r.swap(at % 7, at / 7 % 7),
        13 => r = bn::subb(&bn::ZERO, &u).0,
        14 => r = bn::shr1(&u),
        _ => r = bn::addc(&u, &u).0,
    }
    B56::of(&r)
}
/// the same point in another representation, its negative, or shifted by 4-torsion; sometimes another multiple
pub fn relative_pt(p: &Pt, k: &Kin) -> Pt {
    let mut p = p.clone();
    match k.0 % 8 {
        0 => {}
        1 | 2 => p.torsion = (p.torsion + 1 + (k.1 % 3) as u8) % 4,
        3 | 4 => {
            p.base = match &p.base {
                Base::FromY(y, s) => Base::FromY(*y, !*s),
                Base::Cleared(y, s) => Base::Cleared(*y, !*s),
                Base::Mul(s) => Base::Mul(relative(s, &(4, 0), &bn::l())),
                Base::Generator => Base::Mul(B56::of(&bn::subb(&bn::l(), &bn::ONE).0)),
                x => x.clone(),
            };
            if k.0 % 8 == 4 {
                p.torsion = (4 - p.torsion % 4) % 4;
            }
        }
        5 => p.rep = Rep::AddSub(k.1 as u8),
        6 => p.rep = Rep::Decoded,
        _ => {
            p.base = match &p.base {
                Base::FromY(y, s) => Base::Cleared(*y, *s),
                Base::Cleared(y, s) => Base::FromY(*y, *s),
                _ => Base::Mul(B56::of(&bn::from_u64(k.1 as u64))),
            }
        }
    }
    p
}
/// Runs a check on each value of a history in turn, and again in reverse: nothing may be left behind by an earlier call.
pub fn in_turn<T>(v: &[T], check: fn(&T) -> crate::runner::Outcome) -> crate::runner::Outcome {
    let mut nt = v.len() > 1;
    for (i, x) in v.iter().enumerate().chain(v.iter().enumerate().rev()) {
        nt &= check(x).map_err(|e| format!("call {} of the history: {}", i, e))?.nontrivial;
    }
    Ok(crate::runner::Info::nt(nt))
}
