//! C01 - C04: the scalar field.
use crate::bn::{self, U};
use crate::ensure;
use crate::gen::*;
use crate::runner::*;
use ed448_goldilocks::Scalar;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use subtle::ConstantTimeEq;

fn canonical(u: &U) -> bool {
    bn::is_canonical_l(u)
}
fn hx(u: &U) -> String {
    bn::hex(&bn::to_bytes(u))
}
fn expect(what: &str, got: &Scalar, want: &U) -> Result<(), String> {
    let g = u_of(got);
    ensure!(g == *want, "{}: got {} want {}", what, hx(&g), hx(want));
    Ok(())
}

// ---------------------------------------------------------------- C01
pub fn arith(x: &(B56, B56)) -> Outcome {
    let (a, b) = (x.0.u(), x.1.u());
    let (sa, sb) = (x.0.scalar(), x.1.scalar());
    expect("a+b", &(sa + sb), &bn::add_l(&a, &b))?;
    expect("b+a", &(sb + sa), &bn::add_l(&a, &b))?;
    expect("a-b", &(sa - sb), &bn::sub_l(&a, &b))?;
    expect("b-a", &(sb - sa), &bn::sub_l(&b, &a))?;
    expect("a*b", &(sa * sb), &bn::mul_l(&a, &b))?;
    expect("b*a", &(sb * sa), &bn::mul_l(&a, &b))?;
    let (ca, cb) = (canonical(&a), canonical(&b));
    let nt = !bn::is_zero(&a) && !bn::is_zero(&b) && a != bn::ONE && b != bn::ONE;
    Ok(Info::nt(nt).label(ca && cb, "both reduced").label(!ca && !cb, "both unreduced").label(ca != cb, "one unreduced"))
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum SOp {
    Set(u8, B56),
    Small(u8, u32),
    Wide(u8, B114),
    Limb(u8, u8, u32),
    Add(u8, u8, u8),
    Sub(u8, u8, u8),
    Mul(u8, u8, u8),
    Fma(u8, u8, u8),
    Neg(u8, u8),
}
fn sop() -> BoxedStrategy<SOp> {
    let r = 0u8..4;
    prop_oneof![
        2 => (r.clone(), scalar()).prop_map(|(d, s)| SOp::Set(d, s)),
        1 => (r.clone(), any::<u32>()).prop_map(|(d, s)| SOp::Small(d, s)),
        1 => (r.clone(), wide()).prop_map(|(d, s)| SOp::Wide(d, s)),
        1 => (r.clone(), 0u8..14, prop_oneof![Just(0u32), Just(u32::MAX), any::<u32>()]).prop_map(|(d, i, v)| SOp::Limb(d, i, v)),
        4 => (r.clone(), r.clone(), r.clone()).prop_map(|(d, a, b)| SOp::Add(d, a, b)),
        4 => (r.clone(), r.clone(), r.clone()).prop_map(|(d, a, b)| SOp::Sub(d, a, b)),
        4 => (r.clone(), r.clone(), r.clone()).prop_map(|(d, a, b)| SOp::Mul(d, a, b)),
        2 => (r.clone(), r.clone(), r.clone()).prop_map(|(d, a, b)| SOp::Fma(d, a, b)),
        1 => (r.clone(), r.clone()).prop_map(|(d, a)| SOp::Neg(d, a)),
    ]
    .boxed()
}
fn chain_strat() -> BoxedStrategy<(B56, B56, Vec<SOp>)> {
    (scalar(), scalar(), proptest::collection::vec(sop(), 1..40)).boxed()
}
fn chain(x: &(B56, B56, Vec<SOp>)) -> Outcome {
    let mut s = [x.0.scalar(), x.1.scalar(), Scalar::one(), Scalar::zero()];
    let mut m = [x.0.u(), x.1.u(), bn::ONE, bn::ZERO];
    let mut arith = 0;
    for (i, op) in x.2.iter().enumerate() {
        let d = match op {
            SOp::Set(d, b) => {
                s[*d as usize] = b.scalar();
                m[*d as usize] = b.u();
                d
            }
            SOp::Small(d, v) => {
                s[*d as usize] = Scalar::from(*v);
                m[*d as usize] = bn::from_u64(*v as u64);
                d
            }
            SOp::Wide(d, b) => {
                s[*d as usize] = Scalar::from_bytes_mod_order_wide(&b.0);
                m[*d as usize] = bn::mod_l_wide(&bn::limbs_le(&b.0));
                d
            }
            SOp::Limb(d, i, v) => {
                let (k, i) = (*d as usize, *i as usize);
                s[k][i] = *v;
                let sh = 32 * (i % 2);
                m[k][i / 2] = m[k][i / 2] & !(0xffff_ffffu64 << sh) | (*v as u64) << sh;
                d
            }
            SOp::Add(d, a, b) => {
                s[*d as usize] = s[*a as usize] + s[*b as usize];
                m[*d as usize] = bn::add_l(&m[*a as usize], &m[*b as usize]);
                arith += 1;
                d
            }
            SOp::Sub(d, a, b) => {
                s[*d as usize] = s[*a as usize] - s[*b as usize];
                m[*d as usize] = bn::sub_l(&m[*a as usize], &m[*b as usize]);
                arith += 1;
                d
            }
            SOp::Mul(d, a, b) => {
                s[*d as usize] = s[*a as usize] * s[*b as usize];
                m[*d as usize] = bn::mul_l(&m[*a as usize], &m[*b as usize]);
                arith += 1;
                d
            }
            SOp::Fma(d, a, b) => {
                let k = *d as usize;
                s[k] = s[k] + s[*a as usize] * s[*b as usize];
                m[k] = bn::add_l(&m[k], &bn::mul_l(&m[*a as usize], &m[*b as usize]));
                arith += 2;
                d
            }
            SOp::Neg(d, a) => {
                s[*d as usize] = Scalar::zero() - s[*a as usize];
                m[*d as usize] = bn::sub_l(&bn::ZERO, &m[*a as usize]);
                arith += 1;
                d
            }
        };
        let k = *d as usize;
        let g = u_of(&s[k]);
        ensure!(g == m[k], "step {} {:?}: got {} want {}", i, op, hx(&g), hx(&m[k]));
    }
    Ok(Info::nt(arith >= 2).label(arith >= 10, "10+ operations"))
}
fn pairs_total(_: bool) -> u64 {
    let n = special_set().len() as u64;
    n * n
}
fn pairs_input(i: u64) -> (B56, B56) {
    let v = special_set();
    let n = v.len() as u64;
    // a fixed permutation of the pairs, so that a prefix is spread over the whole square
    let j = ((i as u128 * 2_654_435_761u128) % (n * n) as u128) as u64;
    (B56::of(&v[(j / n) as usize]), B56::of(&v[(j % n) as usize]))
}
pub fn c01() -> Vec<Box<dyn Leg>> {
    vec![
        Box::new(Gen { name: "C01.arith", rule: "two 448-bit scalars; non-trivial: neither is 0 or 1", quick: 1_200_000, thorough: 24_000_000, strat: scalar_pair, check: arith }),
        Box::new(Sweep { name: "C01.special_pairs", rule: "pairs from a fixed list of boundary integers; non-trivial: neither is 0 or 1", total: pairs_total, input: pairs_input, check: arith }),
        Box::new(Gen { name: "C01.chain", rule: "register-machine histories of scalar operations; non-trivial: at least two arithmetic operations", quick: 120_000, thorough: 2_400_000, strat: chain_strat, check: chain }),
    ]
}

// ---------------------------------------------------------------- C02
fn invert(x: &B56) -> Outcome {
    let a = x.u();
    let i = u_of(&x.scalar().invert());
    ensure!(canonical(&i), "inverse not canonical: {}", hx(&i));
    let r = bn::mod_l(&a);
    if bn::is_zero(&r) {
        ensure!(bn::is_zero(&i), "inverse of zero is {}", hx(&i));
    } else {
        let p = bn::mul_l(&a, &i);
        ensure!(p == bn::ONE, "a * a^-1 = {}", hx(&p));
    }
    Ok(Info::nt(!bn::is_zero(&r) && a != bn::ONE).label(!canonical(&a), "unreduced").label(bn::is_zero(&r), "multiple of the order"))
}
fn halve(x: &B56) -> Outcome {
    let a = x.u();
    let h = u_of(&x.scalar().halve());
    let d = bn::add_l(&h, &h);
    ensure!(d == bn::mod_l(&a), "2*half = {} want {}", hx(&d), hx(&bn::mod_l(&a)));
    if canonical(&a) {
        ensure!(canonical(&h), "half of a canonical scalar is not canonical: {}", hx(&h));
    }
    Ok(Info::nt(!bn::is_zero(&a)).label(a[0] & 1 == 1, "odd").label(!canonical(&a), "unreduced"))
}
fn both(x: &B56) -> Outcome {
    let a = invert(x)?;
    let b = halve(x)?;
    Ok(Info { nontrivial: a.nontrivial && b.nontrivial, labels: b.labels })
}
fn sp_total(_: bool) -> u64 {
    special_set().len() as u64
}
fn sp_input(i: u64) -> B56 {
    B56::of(&special_set()[i as usize])
}
fn inv_hist_strat() -> BoxedStrategy<Vec<B56>> {
    (scalar(), proptest::collection::vec(kin(), 1..6))
        .prop_map(|(s, v)| {
            let mut out = vec![s];
            out.extend(v.iter().map(|k| relative(&s, k, &bn::l())));
            out
        })
        .boxed()
}
fn inv_hist(v: &Vec<B56>) -> Outcome {
    in_turn(v, both)
}
pub fn c02() -> Vec<Box<dyn Leg>> {
    vec![
        Box::new(Gen { name: "C02.history", rule: "related scalars one after the other, then in reverse; non-trivial: two or more, none 0, 1 or a multiple of the order", quick: 10_000, thorough: 200_000, strat: inv_hist_strat, check: inv_hist }),
        Box::new(Sweep { name: "C02.special", rule: "every integer of a fixed list of boundary integers; non-trivial: not 0, 1 or a multiple of the order", total: sp_total, input: sp_input, check: both }),
        Box::new(Gen { name: "C02.invert", rule: "448-bit scalars; non-trivial: not 0, 1 or a multiple of the order", quick: 192_000, thorough: 3_840_000, strat: scalar, check: invert }),
        Box::new(Gen { name: "C02.halve", rule: "448-bit scalars; non-trivial: not 0", quick: 3_200_000, thorough: 64_000_000, strat: scalar, check: halve }),
    ]
}

// ---------------------------------------------------------------- C03
fn raw(x: &(B56, B56, u8, u32)) -> Outcome {
    let a = x.0.u();
    let s = x.0.scalar();
    ensure!(s.to_bytes() == x.0 .0, "to_bytes(from_bytes(b)) = {}", bn::hex(&s.to_bytes()));
    let r = s.to_bytes_rfc_8032();
    ensure!(r[..56] == x.0 .0 && r[56] == 0, "57-byte encoding is {}", bn::hex(&r));
    let bits = s.bits();
    ensure!(bits.len() == 448, "bits() has {} entries", bits.len());
    for i in 0..448 {
        ensure!(bits[i] == bn::bit(&a, i), "bit {} is {}", i, bits[i]);
    }
    for i in 0..14 {
        ensure!(s[i] == (a[i / 2] >> (32 * (i % 2))) as u32, "limb {} is {:08x}", i, s[i]);
    }
    // writing a limb changes exactly that limb
    let mut t = s;
    let k = x.2 as usize % 14;
    t[k] = x.3;
    let mut want = x.0 .0;
    want[4 * k..4 * k + 4].copy_from_slice(&x.3.to_le_bytes());
    ensure!(t.to_bytes() == want, "after writing limb {}: {}", k, bn::hex(&t.to_bytes()));
    ensure!(Scalar::from(x.3).to_bytes() == bn::to_bytes(&bn::from_u64(x.3 as u64)), "From<u32>({})", x.3);
    // strict decoding of the 57-byte encoding
    strict(&r)?;
    // equality
    for b in [x.1, Hex(want)] {
        let same = x.0 .0 == b.0;
        let o = b.scalar();
        ensure!((s == o) == same && (o == s) == same && (s != o) != same && bool::from(s.ct_eq(&o)) == same, "equality of {:?} and {:?}", x.0, b);
    }
    ensure!(s == s, "not equal to itself");
    Ok(Info::nt(!bn::is_zero(&a)).label(!canonical(&a), "unreduced"))
}
fn strict(b: &[u8; 57]) -> Result<bool, String> {
    let mut lo = [0u8; 56];
    lo.copy_from_slice(&b[..56]);
    let v = bn::from_bytes(&lo);
    let valid = b[56] == 0 && canonical(&v);
    match Scalar::from_canonical_bytes(*b) {
        Some(s) => {
            ensure!(valid, "accepted {}", bn::hex(b));
            ensure!(s.to_bytes() == lo, "decoded {} as {}", bn::hex(b), bn::hex(&s.to_bytes()));
            ensure!(s.to_bytes_rfc_8032() == *b, "re-encoding differs");
        }
        None => ensure!(!valid, "rejected {}", bn::hex(b)),
    }
    Ok(valid)
}
fn canon(x: &B57) -> Outcome {
    let valid = strict(&x.0)?;
    Ok(Info::nt(x.0 != [0; 57]).label(valid, "valid").label(!valid && x.0[56] == 0, "too large").label(x.0[56] != 0, "last byte set"))
}
fn canon_strat() -> BoxedStrategy<B57> {
    (scalar_u(), prop_oneof![12 => Just(0u8), 1 => Just(1u8), 1 => Just(0x80u8), 1 => any::<u8>()], proptest::option::weighted(0.2, 0usize..456))
        .prop_map(|(u, last, flip)| {
            let mut r = [0u8; 57];
            r[..56].copy_from_slice(&bn::to_bytes(&u));
            r[56] = last;
            if let Some(f) = flip {
                r[f / 8] ^= 1 << (f % 8);
            }
            Hex(r)
        })
        .boxed()
}
/// for each special integer: last byte 0 and some other last byte; and every last byte for 0 and l-1
fn canon_total(_: bool) -> u64 {
    special_set().len() as u64 * 2 + 512 + 456
}
fn canon_input(i: u64) -> B57 {
    let n = special_set().len() as u64;
    let mut r = [0u8; 57];
    let lm1 = bn::to_bytes(&bn::subb(&bn::l(), &bn::ONE).0);
    if i < 2 * n {
        r[..56].copy_from_slice(&bn::to_bytes(&special_set()[(i / 2) as usize]));
        r[56] = if i % 2 == 0 { 0 } else { (i % 255) as u8 + 1 };
    } else if i < 2 * n + 512 {
        let k = i - 2 * n;
        if k % 2 == 0 {
            r[..56].copy_from_slice(&lm1);
        }
        r[56] = (k / 2) as u8;
    } else {
        r[..56].copy_from_slice(&lm1);
        let f = (i - 2 * n - 512) as usize;
        r[f / 8] ^= 1 << (f % 8);
    }
    Hex(r)
}
fn raw_strat() -> BoxedStrategy<(B56, B56, u8, u32)> {
    (scalar_pair(), 0u8..14, prop_oneof![any::<u32>(), Just(0), Just(u32::MAX)]).prop_map(|((a, b), k, v)| (a, b, k, v)).boxed()
}
/// every single-bit difference is seen by ==
fn eqbits(x: &(B56, u16)) -> Outcome {
    let mut b = x.0;
    b.0[x.1 as usize / 8] ^= 1 << (x.1 % 8);
    let (s, t) = (x.0.scalar(), b.scalar());
    ensure!(s != t && !bool::from(s.ct_eq(&t)), "equal although bit {} differs", x.1);
    Ok(Info::nt(true))
}
fn eqbits_input(i: u64) -> (B56, u16) {
    let v = special_set();
    (B56::of(&v[(i / 448 * 7919) as usize % v.len()]), (i % 448) as u16)
}
fn words_total(_: bool) -> u64 {
    4096
}
fn words_input(i: u64) -> (B56, B56, u8, u32) {
    // one 16-bit word set to a chosen value at every position
    let pos = (i % 28) as usize;
    let vals = [1u16, 0xff, 0x100, 0x7fff, 0x8000, 0xff00, 0xffff, 0x1234];
    let v = vals[(i / 28) as usize % 8];
    let mut b = if i / 224 % 2 == 0 { [0u8; 56] } else { [0xffu8; 56] };
    b[2 * pos..2 * pos + 2].copy_from_slice(&v.to_le_bytes());
    (Hex(b), Hex([(i / 448) as u8; 56]), (i % 14) as u8, i as u32 * 0x9e37_79b1)
}
pub fn c03() -> Vec<Box<dyn Leg>> {
    vec![
        Box::new(Gen { name: "C03.raw", rule: "56-byte strings, limb writes and equality partners; non-trivial: not zero", quick: 800_000, thorough: 16_000_000, strat: raw_strat, check: raw }),
        Box::new(Sweep { name: "C03.words", rule: "each 16-bit word at each position over all-zero and all-one backgrounds; non-trivial: not zero", total: words_total, input: words_input, check: raw }),
        Box::new(Gen { name: "C03.canonical", rule: "57-byte strings around the order and with bit flips; non-trivial: not all zero", quick: 1_600_000, thorough: 32_000_000, strat: canon_strat, check: canon }),
        Box::new(Sweep { name: "C03.canonical_special", rule: "boundary integers, all last bytes, all single-bit flips of l-1; non-trivial: not all zero", total: canon_total, input: canon_input, check: canon }),
        Box::new(Sweep { name: "C03.eq_bits", rule: "pairs differing in exactly one bit, each of the 448 positions; all non-trivial", total: |_| 448 * 20, input: eqbits_input, check: eqbits }),
    ]
}

// ---------------------------------------------------------------- C04
/// 114-byte integers: uniform, all-extreme bytes, multiples of l plus or minus a little, boundary pieces
pub fn wide() -> BoxedStrategy<B114> {
    let piece = || prop_oneof![2 => scalar_u(), 1 => Just(bn::ZERO), 1 => Just(bn::MAX)];
    let top = || prop_oneof![1 => any::<u16>(), 1 => Just(0u16), 1 => Just(u16::MAX), 1 => Just(1u16)];
    let split = (piece(), piece(), top()).prop_map(|(lo, hi, t)| {
        let mut r = [0u8; 114];
        r[..56].copy_from_slice(&bn::to_bytes(&lo));
        r[56..112].copy_from_slice(&bn::to_bytes(&hi));
        r[112..].copy_from_slice(&t.to_le_bytes());
        Hex(r)
    });
    // k*l + d
    let mult = (scalar_u(), any::<u32>(), delta(), 0u32..=48).prop_map(|(k, ktop, d, sh)| {
        let mut k = k.to_vec();
        k.push((ktop >> (sh % 32)) as u64 & 0x3_ffff);
        let l = bn::l();
        let mut r = vec![0u64; 15];
        for i in 0..8 {
            let mut c = 0u128;
            for j in 0..7 {
                c += r[i + j] as u128 + k[i] as u128 * l[j] as u128;
                r[i + j] = c as u64;
                c >>= 64;
            }
            r[i + 7] = c as u64;
        }
        let mut c = d as i128;
        for w in r.iter_mut() {
            c += *w as i128;
            *w = c as u64;
            c >>= 64;
        }
        let mut out = [0u8; 114];
        for i in 0..114 {
            out[i] = (r[i / 8] >> (8 * (i % 8))) as u8;
        }
        Hex(out)
    });
    let bytes = proptest::collection::vec(prop_oneof![2 => Just(0u8), 2 => Just(0xff), 1 => any::<u8>()], 114).prop_map(|v| {
        let mut r = [0u8; 114];
        r.copy_from_slice(&v);
        Hex(r)
    });
    let uniform = proptest::collection::vec(any::<u8>(), 114).prop_map(|v| {
        let mut r = [0u8; 114];
        r.copy_from_slice(&v);
        Hex(r)
    });
    prop_oneof![3 => split, 3 => mult, 1 => bytes, 2 => uniform].boxed()
}
fn wide_check(x: &B114) -> Outcome {
    let want = bn::mod_l_wide(&bn::limbs_le(&x.0));
    expect("wide reduction", &Scalar::from_bytes_mod_order_wide(&x.0), &want)?;
    let big = x.0[56..].iter().any(|&b| b != 0);
    Ok(Info::nt(big).label(bn::is_zero(&want), "multiple of the order").label(x.0[112..] != [0, 0], "top two bytes set"))
}
fn wide_bits_total(_: bool) -> u64 {
    912 * 3
}
fn wide_bits_input(i: u64) -> B114 {
    let mut r = if i / 912 == 1 { [0xffu8; 114] } else { [0u8; 114] };
    let k = (i % 912) as usize;
    r[k / 8] ^= 1 << (k % 8);
    if i / 912 == 2 {
        // 2^k - 1
        r = [0u8; 114];
        for j in 0..k {
            r[j / 8] |= 1 << (j % 8);
        }
    }
    Hex(r)
}

/// A generator whose first bytes are prescribed and which continues pseudo-randomly; counts what it hands out.
struct StreamRng<'a> {
    head: &'a [u8],
    pos: usize,
    state: u64,
}
impl<'a> StreamRng<'a> {
    fn byte(&mut self) -> u8 {
        let b = if self.pos < self.head.len() {
            self.head[self.pos]
        } else {
            // splitmix64
            self.state = self.state.wrapping_add(0x9e37_79b9_7f4a_7c15);
            let mut z = self.state;
            z = (z ^ z >> 30).wrapping_mul(0xbf58_476d_1ce4_e5b9);
            z = (z ^ z >> 27).wrapping_mul(0x94d0_49bb_1331_11eb);
            (z ^ z >> 31) as u8
        };
        self.pos += 1;
        b
    }
}
impl<'a> rand_core::RngCore for StreamRng<'a> {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0u8; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0u8; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for d in dest {
            *d = self.byte();
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl<'a> rand_core::CryptoRng for StreamRng<'a> {}

fn random_strat() -> BoxedStrategy<(Vec<u8>, u64)> {
    prop_oneof![
        2 => (wide(), any::<u64>()).prop_map(|(w, s)| (w.0.to_vec(), s)),
        1 => (any::<u8>(), 0usize..400, any::<u64>()).prop_map(|(b, n, s)| (vec![b; n], s)),
        1 => (proptest::collection::vec(any::<u8>(), 0..8), any::<u64>()),
    ]
    .boxed()
}
fn random_check(x: &(Vec<u8>, u64)) -> Outcome {
    let mk = || StreamRng { head: &x.0, pos: 0, state: x.1 };
    let mut r1 = mk();
    let s1 = Scalar::random(&mut r1);
    ensure!(canonical(&u_of(&s1)), "not canonical: {}", hx(&u_of(&s1)));
    // unrelated work in between must not matter
    let _ = Scalar::from(7) * s1;
    let mut r2 = mk();
    let s2 = Scalar::random(&mut r2);
    ensure!(s1.to_bytes() == s2.to_bytes(), "same byte stream, different scalars");
    ensure!(r1.pos == r2.pos, "same byte stream, different consumption");
    ensure!(r1.pos >= 56, "only {} bytes drawn for a 446-bit scalar", r1.pos);
    // a second draw continues the stream and is independent of the first object
    let n1 = Scalar::random(&mut r1);
    let n2 = Scalar::random(&mut r2);
    ensure!(n1.to_bytes() == n2.to_bytes(), "same byte stream, different second scalars");
    Ok(Info::nt(!x.0.is_empty()))
}
/// Distribution of a batch of draws: every bit below 445 balanced, top 5 bits, low 5 bits and residues mod 3, 5, 7 even, all distinct.
fn uniform_check(seed: &u64) -> Outcome {
    const N: usize = 8192;
    let mut rng = StreamRng { head: &[], pos: 0, state: seed.wrapping_mul(0xd134_2543_de82_ef95) };
    let mut ones = [0u32; 446];
    let mut top = [0u32; 32];
    let mut low = [0u32; 32];
    let mut res = [[0u32; 7]; 3];
    let mut column = vec![[0u64; N / 64]; 446]; // bit i of draw n is bit n of column i
    let mut seen = std::collections::HashSet::new();
    for n in 0..N {
        let u = u_of(&Scalar::random(&mut rng));
        ensure!(canonical(&u), "not canonical: {}", hx(&u));
        ensure!(seen.insert(u), "the same scalar drawn twice: {}", hx(&u));
        for (i, c) in column.iter_mut().enumerate() {
            let b = bn::bit(&u, i);
            ones[i] += b as u32;
            c[n / 64] |= (b as u64) << (n % 64);
        }
        top[(u[6] >> 57) as usize & 31] += 1;
        low[u[0] as usize & 31] += 1;
        for (k, q) in [3u64, 5, 7].iter().enumerate() {
            let mut r = 0u128;
            for w in u.iter().rev() {
                r = (r << 64 | *w as u128) % *q as u128;
            }
            res[k][r as usize] += 1;
        }
    }
    // bounds at 7 standard deviations (binomial), about 1e-12 per comparison
    let dev = |c: u32, p: f64| -> f64 { (c as f64 - N as f64 * p) / (N as f64 * p * (1.0 - p)).sqrt() };
    for i in 0..446 {
        let d = dev(ones[i], 0.5);
        ensure!(d.abs() < 7.0, "bit {} is set in {} of {} draws ({:.1} sigma)", i, ones[i], N, d);
    }
    // every two bits agree in half of the draws, and so do every bit and every bit of the next draw
    let count = |a: &[u64; N / 64], b: &[u64; N / 64]| N as u32 - a.iter().zip(b).map(|(a, b)| (a ^ b).count_ones()).sum::<u32>();
    for j in 0..446 {
        let mut next = [0u64; N / 64];
        for k in 0..N / 64 {
            next[k] = column[j][k] >> 1 | column[j][(k + 1) % (N / 64)] << 63;
        }
        for i in 0..446 {
            if i < j {
                let c = count(&column[i], &column[j]);
                ensure!(dev(c, 0.5).abs() < 7.0, "bits {} and {} agree in {} of {} draws ({:.1} sigma)", i, j, c, N, dev(c, 0.5));
            }
            let c = count(&column[i], &next);
            ensure!(dev(c, 0.5).abs() < 7.0, "bit {} and bit {} of the next draw agree in {} of {} draws ({:.1} sigma)", i, j, c, N, dev(c, 0.5));
        }
    }
    for (name, t) in [("top", top), ("low", low)] {
        for i in 0..32 {
            let d = dev(t[i], 1.0 / 32.0);
            ensure!(d.abs() < 7.0, "{} five bits = {} in {} of {} draws ({:.1} sigma)", name, i, t[i], N, d);
        }
    }
    for (k, q) in [3usize, 5, 7].iter().enumerate() {
        for i in 0..*q {
            let d = dev(res[k][i], 1.0 / *q as f64);
            ensure!(d.abs() < 7.0, "{} mod {} in {} of {} draws ({:.1} sigma)", i, q, res[k][i], N, d);
        }
    }
    Ok(Info::nt(true))
}
pub fn c04() -> Vec<Box<dyn Leg>> {
    vec![
        Box::new(Gen { name: "C04.wide", rule: "114-byte integers; non-trivial: larger than 448 bits", quick: 2_400_000, thorough: 48_000_000, strat: wide, check: wide_check }),
        Box::new(Sweep { name: "C04.wide_bits", rule: "2^k, 2^912-1-2^k and 2^k-1 for every k; non-trivial: larger than 448 bits", total: wide_bits_total, input: wide_bits_input, check: wide_check }),
        Box::new(Gen { name: "C04.random", rule: "byte streams with a prescribed head; non-trivial: head not empty", quick: 480_000, thorough: 9_600_000, strat: random_strat, check: random_check }),
        Box::new(Gen { name: "C04.uniform", rule: "batches of 8192 draws from a seeded stream, bounds at 7 sigma on bits, all pairs of bits of one draw and of successive draws, top/low windows and residues; all non-trivial", quick: 32, thorough: 640, strat: || any::<u64>().boxed(), check: uniform_check }),
    ]
}
