//! Reference integers: 448-bit little-endian numbers, the field modulo p = 2^448 - 2^224 - 1 and the
//! integers modulo l. Written from the definitions; shares nothing with the crate under test.
#![allow(dead_code)]
use std::cmp::Ordering;
use std::sync::OnceLock;

/// A 448-bit integer, little-endian 64-bit limbs.
pub type U = [u64; 7];
pub const ZERO: U = [0; 7];
pub const ONE: U = [1, 0, 0, 0, 0, 0, 0];
pub const MAX: U = [u64::MAX; 7];

pub fn cmp(a: &U, b: &U) -> Ordering {
    for i in (0..7).rev() {
        match a[i].cmp(&b[i]) {
            Ordering::Equal => {}
            o => return o,
        }
    }
    Ordering::Equal
}
pub fn lt(a: &U, b: &U) -> bool {
    cmp(a, b) == Ordering::Less
}
/// a + b mod 2^448 and the carry.
pub fn addc(a: &U, b: &U) -> (U, bool) {
    let mut r = ZERO;
    let mut c = 0u128;
    for i in 0..7 {
        c += a[i] as u128 + b[i] as u128;
        r[i] = c as u64;
        c >>= 64;
    }
    (r, c != 0)
}
/// a - b mod 2^448 and the borrow.
pub fn subb(a: &U, b: &U) -> (U, bool) {
    let mut r = ZERO;
    let mut borrow = false;
    for i in 0..7 {
        let (x, b1) = a[i].overflowing_sub(b[i]);
        let (x, b2) = x.overflowing_sub(borrow as u64);
        r[i] = x;
        borrow = b1 || b2;
    }
    (r, borrow)
}
pub fn from_u64(x: u64) -> U {
    let mut r = ZERO;
    r[0] = x;
    r
}
pub fn pow2(i: usize) -> U {
    let mut r = ZERO;
    r[i / 64] = 1 << (i % 64);
    r
}
pub fn shr1(a: &U) -> U {
    let mut r = ZERO;
    for i in 0..7 {
        r[i] = a[i] >> 1 | if i < 6 { a[i + 1] << 63 } else { 0 };
    }
    r
}
pub fn bit(a: &U, i: usize) -> bool {
    a[i / 64] >> (i % 64) & 1 == 1
}
pub fn is_zero(a: &U) -> bool {
    *a == ZERO
}
pub fn to_bytes(a: &U) -> [u8; 56] {
    let mut r = [0u8; 56];
    for i in 0..7 {
        r[8 * i..8 * i + 8].copy_from_slice(&a[i].to_le_bytes());
    }
    r
}
pub fn from_bytes(b: &[u8; 56]) -> U {
    let mut r = ZERO;
    for i in 0..7 {
        let mut w = [0u8; 8];
        w.copy_from_slice(&b[8 * i..8 * i + 8]);
        r[i] = u64::from_le_bytes(w);
    }
    r
}
pub fn mul_wide(a: &U, b: &U) -> [u64; 14] {
    let mut r = [0u64; 14];
    for i in 0..7 {
        let mut c = 0u128;
        for j in 0..7 {
            c += r[i + j] as u128 + a[i] as u128 * b[j] as u128;
            r[i + j] = c as u64;
            c >>= 64;
        }
        r[i + 7] = c as u64;
    }
    r
}

// ---------------------------------------------------------------- modulo p

/// p = 2^448 - 2^224 - 1
pub const P: U = [
    u64::MAX,
    u64::MAX,
    u64::MAX,
    0xffff_fffe_ffff_ffff,
    u64::MAX,
    u64::MAX,
    u64::MAX,
];

/// An element of the field, always held reduced.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Fp(pub U);

fn fold_p(w: &[u64; 14]) -> U {
    // 2^448 = 2^224 + 1 (mod p); 32-bit digits, hi digit j goes to j and j+7 (the latter folded again).
    let d = |i: usize| -> u64 { w[i / 2] >> (32 * (i % 2)) & 0xffff_ffff };
    let mut acc = [0u64; 14];
    for j in 0..14 {
        acc[j] += d(j) + d(14 + j);
        let h = d(14 + j);
        if j + 7 < 14 {
            acc[j + 7] += h;
        } else {
            acc[j - 7] += h;
            acc[j] += h;
        }
    }
    loop {
        let mut c = 0u64;
        for a in acc.iter_mut() {
            c += *a;
            *a = c & 0xffff_ffff;
            c >>= 32;
        }
        if c == 0 {
            break;
        }
        acc[0] += c;
        acc[7] += c;
    }
    let mut r = ZERO;
    for i in 0..7 {
        r[i] = acc[2 * i] | acc[2 * i + 1] << 32;
    }
    while !lt(&r, &P) {
        r = subb(&r, &P).0;
    }
    r
}

impl Fp {
    pub const ZERO: Fp = Fp(ZERO);
    pub const ONE: Fp = Fp(ONE);
    pub fn new(a: &U) -> Fp {
        let mut r = *a;
        while !lt(&r, &P) {
            r = subb(&r, &P).0;
        }
        Fp(r)
    }
    pub fn small(x: u64) -> Fp {
        Fp(from_u64(x))
    }
    pub fn from_bytes(b: &[u8; 56]) -> Fp {
        Fp::new(&from_bytes(b))
    }
    pub fn to_bytes(self) -> [u8; 56] {
        to_bytes(&self.0)
    }
    pub fn add(self, o: Fp) -> Fp {
        let (r, c) = addc(&self.0, &o.0);
        if c || !lt(&r, &P) {
            Fp(subb(&r, &P).0)
        } else {
            Fp(r)
        }
    }
    pub fn sub(self, o: Fp) -> Fp {
        let (r, b) = subb(&self.0, &o.0);
        if b {
            Fp(addc(&r, &P).0)
        } else {
            Fp(r)
        }
    }
    pub fn neg(self) -> Fp {
        Fp::ZERO.sub(self)
    }
    pub fn mul(self, o: Fp) -> Fp {
        Fp(fold_p(&mul_wide(&self.0, &o.0)))
    }
    pub fn sq(self) -> Fp {
        self.mul(self)
    }
    pub fn pow(self, e: &U) -> Fp {
        // fixed 4-bit windows
        let mut tab = [Fp::ONE; 16];
        for i in 1..16 {
            tab[i] = tab[i - 1].mul(self);
        }
        let mut r = Fp::ONE;
        for i in (0..112).rev() {
            r = r.sq().sq().sq().sq();
            let n = (e[i / 16] >> (4 * (i % 16)) & 15) as usize;
            if n != 0 {
                r = r.mul(tab[n]);
            }
        }
        r
    }
    /// 1/a, and 0 for 0.
    pub fn inv(self) -> Fp {
        self.pow(&subb(&P, &from_u64(2)).0)
    }
    pub fn is_zero(self) -> bool {
        self.0 == ZERO
    }
    /// 0 counts as a square
    pub fn is_square(self) -> bool {
        self.is_zero() || self.pow(&shr1(&P)) == Fp::ONE
    }
    /// A square root if there is one (p = 3 mod 4).
    pub fn sqrt(self) -> Option<Fp> {
        static E: OnceLock<U> = OnceLock::new();
        let e = E.get_or_init(|| shr1(&shr1(&addc(&P, &ONE).0)));
        let r = self.pow(e);
        if r.sq() == self {
            Some(r)
        } else {
            None
        }
    }
    /// "negative" in the sense of RFC 8032 / 9496: the reduced integer is odd
    pub fn is_odd(self) -> bool {
        self.0[0] & 1 == 1
    }
    pub fn abs(self) -> Fp {
        if self.is_odd() {
            self.neg()
        } else {
            self
        }
    }
}

// ---------------------------------------------------------------- modulo l

/// c with l = 2^446 - c
pub const LC: [u64; 4] = [
    0xdc87_3d6d_54a7_bb0d,
    0xde93_3d8d_723a_70aa,
    0x3bb1_24b6_5129_c96f,
    0x0000_0000_8335_dc16,
];
/// l, the prime order of the group
pub fn l() -> U {
    let mut c = ZERO;
    c[..4].copy_from_slice(&LC);
    subb(&pow2(446), &c).0
}

fn vmul(a: &[u64], b: &[u64]) -> Vec<u64> {
    let mut r = vec![0u64; a.len() + b.len()];
    for i in 0..a.len() {
        let mut c = 0u128;
        for j in 0..b.len() {
            c += r[i + j] as u128 + a[i] as u128 * b[j] as u128;
            r[i + j] = c as u64;
            c >>= 64;
        }
        r[i + b.len()] = c as u64;
    }
    r
}
/// x mod l for an integer of any length
pub fn mod_l_wide(x: &[u64]) -> U {
    let mut x = x.to_vec();
    x.resize(x.len().max(7), 0);
    loop {
        while x.len() > 7 && *x.last().unwrap() == 0 {
            x.pop();
        }
        // x = hi * 2^446 + lo = hi * c + lo
        let mut hi: Vec<u64> = Vec::new();
        for i in 6..x.len() {
            hi.push(x[i] >> 62 | if i + 1 < x.len() { x[i + 1] << 2 } else { 0 });
        }
        let mut lo = ZERO;
        lo.copy_from_slice(&x[..7]);
        lo[6] &= (1 << 62) - 1;
        if hi.iter().all(|&h| h == 0) {
            let m = l();
            while !lt(&lo, &m) {
                lo = subb(&lo, &m).0;
            }
            return lo;
        }
        let mut r = vmul(&hi, &LC);
        r.resize(r.len().max(8) + 1, 0);
        let mut c = 0u128;
        for i in 0..r.len() {
            c += r[i] as u128 + if i < 7 { lo[i] as u128 } else { 0 };
            r[i] = c as u64;
            c >>= 64;
        }
        x = r;
    }
}
pub fn mod_l(x: &U) -> U {
    mod_l_wide(x)
}
pub fn is_canonical_l(x: &U) -> bool {
    lt(x, &l())
}
pub fn add_l(a: &U, b: &U) -> U {
    let (r, c) = addc(a, b);
    let mut w = r.to_vec();
    w.push(c as u64);
    mod_l_wide(&w)
}
pub fn sub_l(a: &U, b: &U) -> U {
    let (a, b) = (mod_l(a), mod_l(b));
    let (r, bo) = subb(&a, &b);
    if bo {
        addc(&r, &l()).0
    } else {
        r
    }
}
pub fn mul_l(a: &U, b: &U) -> U {
    mod_l_wide(&mul_wide(a, b))
}
pub fn inv_l(a: &U) -> U {
    let e = subb(&l(), &from_u64(2)).0;
    let mut tab = [ONE; 16];
    for i in 1..16 {
        tab[i] = mul_l(&tab[i - 1], a);
    }
    let mut r = ONE;
    for i in (0..112).rev() {
        for _ in 0..4 {
            r = mul_l(&r, &r);
        }
        let n = (e[i / 16] >> (4 * (i % 16)) & 15) as usize;
        if n != 0 {
            r = mul_l(&r, &tab[n]);
        }
    }
    r
}
/// bytes of any length, little-endian, as 64-bit limbs
pub fn limbs_le(b: &[u8]) -> Vec<u64> {
    b.chunks(8)
        .map(|c| {
            let mut w = [0u8; 8];
            w[..c.len()].copy_from_slice(c);
            u64::from_le_bytes(w)
        })
        .collect()
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
pub fn unhex(s: &str) -> Option<Vec<u8>> {
    if s.len() % 2 != 0 {
        return None;
    }
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(s.get(2 * i..2 * i + 2)?, 16).ok())
        .collect()
}
