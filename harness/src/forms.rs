//! Every operator form of an operation, picked by number, so that histories exercise all of them.
use ed448_goldilocks::curve::{ExtendedPoint, MontgomeryPoint};
use ed448_goldilocks::decaf::DecafPoint;
use ed448_goldilocks::Scalar;

pub fn e_add(k: usize, p: &ExtendedPoint, q: &ExtendedPoint) -> ExtendedPoint {
    match k % 8 {
        0 => p + q,
        1 => *p + *q,
        2 => p + *q,
        3 => *p + q,
        4 => {
            let mut r = *p;
            r += q;
            r
        }
        5 => {
            let mut r = *p;
            r += *q;
            r
        }
        6 => [*p, *q].iter().sum(),
        _ => vec![*p, *q].into_iter().sum(),
    }
}
/// the list in an iterator of shape k: with and without bounds on its length, owned and borrowed, resuming after its end
pub fn e_sum(k: usize, v: &[ExtendedPoint]) -> ExtendedPoint {
    let mut i = 0;
    let mut step = |after: bool| {
        i += 1;
        if i <= v.len() {
            Some(v[i - 1])
        } else if after && i > v.len() + 1 {
            v.first().copied() // what follows the first None does not belong to the list
        } else {
            None
        }
    };
    match k % 12 {
        0 => v.iter().sum(),
        1 => v.iter().copied().sum(),
        2 => v.to_vec().into_iter().sum(),
        3 => std::iter::from_fn(|| step(false)).sum(),
        4 => v.iter().enumerate().filter(|(i, _)| *i < usize::MAX).map(|(_, p)| p).sum(),
        5 => v[..v.len() / 3].iter().chain(&v[v.len() / 3..]).sum(),
        6 => v.chunks(3).flat_map(|c| c.iter()).sum(),
        7 => v.iter().rev().sum(),
        8 => std::iter::from_fn(|| step(true).filter(|_| true)).sum(),
        9 => (Box::new(v.iter()) as Box<dyn Iterator<Item = &ExtendedPoint> + '_>).sum(),
        10 => v.iter().collect::<std::collections::VecDeque<_>>().into_iter().sum(),
        _ => v.iter().step_by(2).chain(v.iter().skip(1).step_by(2)).peekable().sum(),
    }
}
pub fn e_sub(k: usize, p: &ExtendedPoint, q: &ExtendedPoint) -> ExtendedPoint {
    match k % 6 {
        0 => p - q,
        1 => *p - *q,
        2 => p - *q,
        3 => *p - q,
        4 => {
            let mut r = *p;
            r -= q;
            r
        }
        _ => {
            let mut r = *p;
            r -= *q;
            r
        }
    }
}
pub fn e_neg(k: usize, p: &ExtendedPoint) -> ExtendedPoint {
    match k % 3 {
        0 => -p,
        1 => -*p,
        _ => p.negate(),
    }
}
pub fn e_mul(k: usize, p: &ExtendedPoint, s: &Scalar) -> ExtendedPoint {
    match k % 11 {
        0 => p * s,
        1 => *p * *s,
        2 => p * *s,
        3 => *p * s,
        4 => s * p,
        5 => *s * *p,
        6 => s * *p,
        7 => *s * p,
        8 => {
            let mut r = *p;
            r *= s;
            r
        }
        9 => {
            let mut r = *p;
            r *= *s;
            r
        }
        _ => p.scalar_mul(s),
    }
}
pub fn m_mul(k: usize, p: &MontgomeryPoint, s: &Scalar) -> MontgomeryPoint {
    match k % 2 {
        0 => p * s,
        _ => s * p,
    }
}
/// another handle on the same value (DecafPoint is not Clone)
pub fn d_dup(p: &DecafPoint) -> DecafPoint {
    -&(-p)
}
pub fn d_add(k: usize, p: &DecafPoint, q: &DecafPoint) -> DecafPoint {
    match k % 2 {
        0 => p + q,
        _ => d_dup(p) + d_dup(q),
    }
}
pub fn d_sub(k: usize, p: &DecafPoint, q: &DecafPoint) -> DecafPoint {
    match k % 3 {
        0 => p - q,
        1 => p.sub(q),
        _ => d_dup(p) - d_dup(q),
    }
}
pub fn d_neg(k: usize, p: &DecafPoint) -> DecafPoint {
    match k % 2 {
        0 => -p,
        _ => -d_dup(p),
    }
}
pub fn d_mul(k: usize, p: &DecafPoint, s: &Scalar) -> DecafPoint {
    match k % 4 {
        0 => p * s,
        1 => s * p,
        2 => d_dup(p) * *s,
        _ => *s * d_dup(p),
    }
}
