//! Reference curves, from the RFCs: Ed448 (RFC 8032 5.2), Curve448 (RFC 7748 5), decaf448 (RFC 9496 5).
#![allow(dead_code)]
use crate::bn::{self, Fp, U};
use std::sync::OnceLock;

fn d() -> Fp {
    Fp::small(39081).neg()
}

/// A point of x^2 + y^2 = 1 - 39081 x^2 y^2 in projective coordinates.
#[derive(Clone, Copy, Debug)]
pub struct Ed {
    pub x: Fp,
    pub y: Fp,
    pub z: Fp,
}

impl Ed {
    pub const ID: Ed = Ed { x: Fp::ZERO, y: Fp::ONE, z: Fp::ONE };
    pub fn affine(x: Fp, y: Fp) -> Ed {
        Ed { x, y, z: Fp::ONE }
    }
    pub fn gen() -> Ed {
        static G: OnceLock<Ed> = OnceLock::new();
        *G.get_or_init(|| {
            let h = |s: &str| {
                let mut v = bn::unhex(s).unwrap();
                v.reverse();
                let mut b = [0u8; 56];
                b.copy_from_slice(&v);
                Fp::from_bytes(&b)
            };
            // RFC 8032 / RFC 7748 base point
            Ed::affine(
                h("4f1970c66bed0ded221d15a622bf36da9e146570470f1767ea6de324a3d3a46412ae1af72ab66511433b80e18b00938e2626a82bc70cc05e"),
                h("693f46716eb6bc248876203756c9c7624bea73736ca3984087789c1e05a0c2d73ad3ff1ce67c39c4fdbd132c4ed7c8ad9808795bf230fa14"),
            )
        })
    }
    /// k times the point (1, 0) of order 4
    pub fn torsion(k: u8) -> Ed {
        match k % 4 {
            0 => Ed::ID,
            1 => Ed::affine(Fp::ONE, Fp::ZERO),
            2 => Ed::affine(Fp::ZERO, Fp::ONE.neg()),
            _ => Ed::affine(Fp::ONE.neg(), Fp::ZERO),
        }
    }
    pub fn norm(self) -> Ed {
        let i = self.z.inv();
        Ed::affine(self.x.mul(i), self.y.mul(i))
    }
    pub fn add(self, o: Ed) -> Ed {
        // RFC 8032, 5.2.4
        let a = self.z.mul(o.z);
        let b = a.sq();
        let c = self.x.mul(o.x);
        let dd = self.y.mul(o.y);
        let e = d().mul(c).mul(dd);
        let f = b.sub(e);
        let g = b.add(e);
        let h = self.x.add(self.y).mul(o.x.add(o.y));
        Ed {
            x: a.mul(f).mul(h.sub(c).sub(dd)),
            y: a.mul(g).mul(dd.sub(c)),
            z: f.mul(g),
        }
    }
    pub fn dbl(self) -> Ed {
        let b = self.x.add(self.y).sq();
        let c = self.x.sq();
        let dd = self.y.sq();
        let e = c.add(dd);
        let h = self.z.sq();
        let j = e.sub(h).sub(h);
        Ed { x: b.sub(e).mul(j), y: e.mul(c.sub(dd)), z: e.mul(j) }
    }
    /// Straight from the affine law, for the self-test.
    pub fn add_affine(self, o: Ed) -> Ed {
        let (p, q) = (self.norm(), o.norm());
        let t = d().mul(p.x).mul(q.x).mul(p.y).mul(q.y);
        Ed::affine(
            p.x.mul(q.y).add(p.y.mul(q.x)).mul(Fp::ONE.add(t).inv()),
            p.y.mul(q.y).sub(p.x.mul(q.x)).mul(Fp::ONE.sub(t).inv()),
        )
    }
    pub fn neg(self) -> Ed {
        Ed { x: self.x.neg(), ..self }
    }
    pub fn sub(self, o: Ed) -> Ed {
        self.add(o.neg())
    }
    pub fn eq(self, o: Ed) -> bool {
        self.x.mul(o.z) == o.x.mul(self.z) && self.y.mul(o.z) == o.y.mul(self.z)
    }
    pub fn is_id(self) -> bool {
        self.x.is_zero() && self.y == self.z
    }
    /// s*P for the integer s (4-bit windows, most significant first)
    pub fn mul(self, s: &U) -> Ed {
        let mut tab = [Ed::ID; 16];
        for i in 1..16 {
            tab[i] = tab[i - 1].add(self);
        }
        let mut r = Ed::ID;
        for i in (0..112).rev() {
            r = r.dbl().dbl().dbl().dbl();
            let n = (s[i / 16] >> (4 * (i % 16)) & 15) as usize;
            if n != 0 {
                r = r.add(tab[n]);
            }
        }
        r
    }
    /// plain double-and-add, for the self-test
    pub fn mul_slow(self, s: &U) -> Ed {
        let mut r = Ed::ID;
        for i in (0..448).rev() {
            r = r.add(r);
            if bn::bit(s, i) {
                r = r.add(self);
            }
        }
        r
    }
    pub fn on_curve(self) -> bool {
        let p = self.norm();
        let (xx, yy) = (p.x.sq(), p.y.sq());
        xx.add(yy) == Fp::ONE.add(d().mul(xx).mul(yy))
    }
    /// RFC 8032 5.2.2
    pub fn encode(self) -> [u8; 57] {
        let p = self.norm();
        let mut r = [0u8; 57];
        r[..56].copy_from_slice(&p.y.to_bytes());
        r[56] = (p.x.is_odd() as u8) << 7;
        r
    }
    /// x^2 for a given y is (1-y^2)/(1-dy^2); the two candidates, if any
    pub fn x_from_y(y: Fp) -> Option<Fp> {
        let yy = y.sq();
        let n = Fp::ONE.sub(yy);
        let m = Fp::ONE.sub(d().mul(yy)); // never zero: d is not a square
        // sqrt(n/m) = n*m * sqrt(1/(n*m))... computed as (n^3 m)(n^5 m^3)^((p-3)/4), RFC 8032 5.2.3
        let n3m = n.sq().mul(n).mul(m);
        let n5m3 = n3m.mul(n.sq()).mul(m.sq());
        static E: OnceLock<U> = OnceLock::new();
        let e = E.get_or_init(|| bn::shr1(&bn::shr1(&bn::subb(&bn::P, &bn::from_u64(3)).0)));
        let x = n3m.mul(n5m3.pow(e));
        if m.mul(x.sq()) == n {
            Some(x)
        } else {
            None
        }
    }
    /// RFC 8032 5.2.3
    pub fn decode(b: &[u8; 57]) -> Option<Ed> {
        if b[56] & 0x7f != 0 {
            return None;
        }
        let sign = b[56] >> 7 == 1;
        let mut y = [0u8; 56];
        y.copy_from_slice(&b[..56]);
        let y = bn::from_bytes(&y);
        if !bn::lt(&y, &bn::P) {
            return None;
        }
        let y = Fp(y);
        let x = Ed::x_from_y(y)?;
        if x.is_zero() && sign {
            return None;
        }
        Some(Ed::affine(if x.is_odd() != sign { x.neg() } else { x }, y))
    }
    /// u-coordinate of the RFC 7748 4-isogeny, with 0 for infinity
    pub fn to_u(self) -> Fp {
        self.y.sq().mul(self.x.sq().inv())
    }
    pub fn torsion_free(self) -> bool {
        self.mul(&bn::l()).is_id()
    }
    pub fn is_4_torsion(self) -> bool {
        self.dbl().dbl().is_id()
    }

    // ------------------------------------------------------------ decaf448 (RFC 9496, 5.3)
    pub fn decaf_decode(b: &[u8; 56]) -> Option<Ed> {
        let s = bn::from_bytes(b);
        if !bn::lt(&s, &bn::P) {
            return None;
        }
        let s = Fp(s);
        if s.is_odd() {
            return None;
        }
        let k = decaf_consts();
        let ss = s.sq();
        let u1 = Fp::ONE.add(ss);
        let u2 = u1.sq().sub(Fp::small(4).mul(d()).mul(ss));
        // SQRT_RATIO_M1(1, u2 * u1^2)
        let v = u2.mul(u1.sq());
        let invsqrt = match v.sqrt() {
            Some(r) if !r.is_zero() => r.inv().abs(),
            _ => return None,
        };
        let u3 = s.add(s).mul(invsqrt).mul(u1).mul(k.sqrt_minus_d).abs();
        let x = u3.mul(invsqrt).mul(u2).mul(k.invsqrt_minus_d);
        let y = Fp::ONE.sub(ss).mul(invsqrt).mul(u1);
        Some(Ed::affine(x, y))
    }
    pub fn decaf_encode(self) -> [u8; 56] {
        let p = self.norm();
        let k = decaf_consts();
        let t = p.x.mul(p.y);
        let one_minus_d = Fp::small(39082);
        let u1 = p.x.add(t).mul(p.x.sub(t));
        let w = u1.mul(one_minus_d).mul(p.x.sq());
        let invsqrt = match w.sqrt() {
            Some(r) => r.inv().abs(),
            None => w.neg().sqrt().unwrap().inv().abs(), // cannot happen for a decaf representative
        };
        let ratio = invsqrt.mul(u1).mul(k.sqrt_minus_d).abs();
        let u2 = k.invsqrt_minus_d.mul(ratio).sub(t);
        one_minus_d.mul(invsqrt).mul(p.x).mul(u2).abs().to_bytes()
    }
    /// RFC 9496: equality of the group elements
    pub fn decaf_eq(self, o: Ed) -> bool {
        self.x.mul(o.y) == self.y.mul(o.x)
    }
}
struct DecafConsts {
    sqrt_minus_d: Fp,
    invsqrt_minus_d: Fp,
}
fn decaf_consts() -> &'static DecafConsts {
    static C: OnceLock<DecafConsts> = OnceLock::new();
    C.get_or_init(|| {
        // RFC 9496 5.2: the even square root of 39081 and its inverse
        let r = Fp::small(39081).sqrt().unwrap().abs();
        DecafConsts { sqrt_minus_d: r, invsqrt_minus_d: r.inv() }
    })
}
/// The decaf448 generator as an Ed448 point: the encoding of RFC 9496 section 5 decoded
pub fn decaf_gen() -> Ed {
    static G: OnceLock<Ed> = OnceLock::new();
    *G.get_or_init(|| {
        let mut b = [0x66u8; 56];
        for x in b[28..].iter_mut() {
            *x = 0x33;
        }
        Ed::decaf_decode(&b).unwrap()
    })
}

/// RFC 7748 section 5, without clamping and without masking, on integers
pub fn x448_ladder(k: &U, u: Fp) -> Fp {
    let a24 = Fp::small(39081);
    let x1 = u;
    let (mut x2, mut z2, mut x3, mut z3) = (Fp::ONE, Fp::ZERO, u, Fp::ONE);
    let mut swap = false;
    for t in (0..448).rev() {
        let kt = bn::bit(k, t);
        if swap != kt {
            std::mem::swap(&mut x2, &mut x3);
            std::mem::swap(&mut z2, &mut z3);
        }
        swap = kt;
        let a = x2.add(z2);
        let aa = a.sq();
        let b = x2.sub(z2);
        let bb = b.sq();
        let e = aa.sub(bb);
        let c = x3.add(z3);
        let dd = x3.sub(z3);
        let da = dd.mul(a);
        let cb = c.mul(b);
        x3 = da.add(cb).sq();
        z3 = x1.mul(da.sub(cb).sq());
        x2 = aa.mul(bb);
        z2 = e.mul(aa.add(a24.mul(e)));
    }
    if swap {
        std::mem::swap(&mut x2, &mut x3);
        std::mem::swap(&mut z2, &mut z3);
    }
    x2.mul(z2.inv())
}

/// Affine chord-and-tangent on B v^2 = u^3 + 156326 u^2 + u with B = 1 (curve) or -1 (twist): for the self-test.
#[derive(Clone, Copy, Debug)]
pub enum Mont {
    Inf,
    Aff(Fp, Fp),
}
pub fn mont_add(b: Fp, p: Mont, q: Mont) -> Mont {
    let a = Fp::small(156326);
    match (p, q) {
        (Mont::Inf, x) | (x, Mont::Inf) => x,
        (Mont::Aff(x1, y1), Mont::Aff(x2, y2)) => {
            let lam = if x1 == x2 {
                if y1.add(y2).is_zero() {
                    return Mont::Inf;
                }
                let three = Fp::small(3);
                let two = Fp::small(2);
                three.mul(x1.sq()).add(two.mul(a).mul(x1)).add(Fp::ONE).mul(two.mul(b).mul(y1).inv())
            } else {
                y2.sub(y1).mul(x2.sub(x1).inv())
            };
            let x3 = b.mul(lam.sq()).sub(a).sub(x1).sub(x2);
            Mont::Aff(x3, lam.mul(x1.sub(x3)).sub(y1))
        }
    }
}
/// u-coordinate (0 for infinity) of k times the point with this u, by the affine law
pub fn mont_mul_affine(k: &U, u: Fp) -> Fp {
    let rhs = u.sq().mul(u).add(Fp::small(156326).mul(u.sq())).add(u);
    let (b, v) = match rhs.sqrt() {
        Some(v) => (Fp::ONE, v),
        None => (Fp::ONE.neg(), rhs.neg().sqrt().unwrap()),
    };
    let p = Mont::Aff(u, v);
    let mut r = Mont::Inf;
    for i in (0..448).rev() {
        r = mont_add(b, r, r);
        if bn::bit(k, i) {
            r = mont_add(b, r, p);
        }
    }
    match r {
        Mont::Inf => Fp::ZERO,
        Mont::Aff(x, _) => x,
    }
}
