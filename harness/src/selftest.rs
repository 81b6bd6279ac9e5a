//! The reference checked against itself (slow paths), against RFC vectors and, through `refeval`, against Python integers.
use crate::bn::{self, Fp, U};
use crate::refcurve::*;
use std::io::BufRead;

fn h56(s: &str) -> [u8; 56] {
    let mut r = [0u8; 56];
    r.copy_from_slice(&bn::unhex(s).unwrap());
    r
}
fn rng(i: u64) -> U {
    // splitmix64
    let mut x = i.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ 0x1234_5678_9abc_def0;
    let mut r = bn::from_u64(0);
    for w in r.iter_mut() {
        x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = x;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        *w = z ^ (z >> 31);
    }
    r
}
fn clamp(b: &mut [u8; 56]) {
    b[0] &= 252;
    b[55] |= 128;
}
pub fn run() -> i32 {
    let mut bad = 0;
    let mut t = |name: &str, ok: bool| {
        if !ok {
            bad += 1;
            eprintln!("SELFTEST FAILED: {}", name);
        }
    };
    let g = Ed::gen();
    t("generator on the curve", g.on_curve());
    t("generator order", g.mul(&bn::l()).is_id() && !g.is_id());
    for k in 0..4 {
        t("torsion", Ed::torsion(k).on_curve() && Ed::torsion(k).mul(&bn::from_u64(4)).is_id() && Ed::torsion(k).eq(Ed::torsion(1).mul(&bn::from_u64(k as u64))));
    }
    for i in 0..40 {
        let (s, r) = (rng(2 * i), rng(2 * i + 1));
        let p = g.mul(&s).add(Ed::torsion(i as u8));
        let q = g.mul(&r);
        t("mul vs double-and-add", p.mul(&r).eq(p.mul_slow(&r)));
        t("add vs affine law", p.add(q).eq(p.add_affine(q)) && p.dbl().eq(p.add_affine(p)) && p.on_curve());
        t("distributes", g.mul(&bn::add_l(&bn::mod_l(&s), &bn::mod_l(&r))).eq(g.mul(&s).add(q)));
        t("codec", Ed::decode(&p.encode()).map_or(false, |x| x.eq(p)));
        let u = Fp::new(&rng(1000 + i));
        t("ladder vs affine Montgomery law", x448_ladder(&s, u) == mont_mul_affine(&s, u));
        t("isogeny", p.mul(&r).to_u() == x448_ladder(&r, p.to_u()));
        if i % 4 == 0 {
            // RFC 9496: the group is 2E/E[2]; both members of a coset have one encoding, which decodes to it
            let e = q.dbl();
            for k in [0, 2] {
                let c = e.add(Ed::torsion(k));
                t("decaf codec", Ed::decaf_decode(&c.decaf_encode()).map_or(false, |x| x.decaf_eq(c)) && c.decaf_encode() == e.decaf_encode());
            }
        }
        t("field inverse", u.is_zero() || u.mul(u.inv()) == Fp::ONE);
        t("field sqrt", u.sq().sqrt().map_or(false, |x| x.sq() == u.sq()));
        let c = bn::mod_l(&s);
        t("scalar inverse", bn::is_zero(&c) || bn::mul_l(&c, &bn::inv_l(&c)) == bn::from_u64(1));
    }
    // RFC 7748, 5.2 and 6.2
    for (k, u, r) in [
        ("3d262fddf9ec8e88495266fea19a34d28882acef045104d0d1aae121700a779c984c24f8cdd78fbff44943eba368f54b29259a4f1c600ad3", "06fce640fa3487bfda5f6cf2d5263f8aad88334cbd07437f020f08f9814dc031ddbdc38c19c6da2583fa5429db94ada18aa7a7fb4ef8a086", "ce3e4ff95a60dc6697da1db1d85e6afbdf79b50a2412d7546d5f239fe14fbaadeb445fc66a01b0779d98223961111e21766282f73dd96b6f"),
        ("9a8f4925d1519f5775cf46b04b5800d4ee9ee8bae8bc5565d498c28dd9c9baf574a9419744897391006382a6f127ab1d9ac2d8c0a598726b", "0500000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000", "9b08f7cc31b7e3e67d22d5aea121074a273bd2b83de09c63faa73d2c22c5d9bbc836647241d953d40c5b12da88120d53177f80e532c41fa0"),
    ] {
        let mut kb = h56(k);
        clamp(&mut kb);
        t("RFC 7748 vector", x448_ladder(&bn::from_bytes(&kb), Fp::from_bytes(&h56(u))).to_bytes() == h56(r));
    }
    // RFC 9496, A.2 (multiples of the decaf448 generator)
    let b = decaf_gen();
    t("RFC 9496 2B", bn::hex(&b.dbl().decaf_encode()) == "c898eb4f87f97c564c6fd61fc7e49689314a1f818ec85eeb3bd5514ac816d38778f69ef347a89fca817e66defdedce178c7cc709b2116e75");
    t("RFC 9496 3B", bn::hex(&b.dbl().add(b).decaf_encode()) == "a0c09bf2ba7208fda0f4bfe3d0f5b29a543012306d43831b5adc6fe7f8596fa308763db15468323b11cf6e4aeb8c18fe44678f44545a69bc");
    t("RFC 8032 vector", crate::props::protocol::model_vector());
    println!("selftest: {}", if bad == 0 { "ok" } else { "FAILED" });
    if bad == 0 {
        0
    } else {
        2
    }
}
/// `op arg..` per line (hex, little endian), one answer per line: compared with Python integers by tools/refcheck.py
pub fn refeval() {
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let w: Vec<&str> = line.split_whitespace().collect();
        let u = |i: usize| bn::from_bytes(&h56(w[i]));
        let h = |x: U| bn::hex(&bn::to_bytes(&x));
        let r = match w[0] {
            "modl" => h(bn::mod_l_wide(&bn::limbs_le(&bn::unhex(w[1]).unwrap()))),
            "addl" => h(bn::add_l(&bn::mod_l(&u(1)), &bn::mod_l(&u(2)))),
            "subl" => h(bn::sub_l(&bn::mod_l(&u(1)), &bn::mod_l(&u(2)))),
            "mull" => h(bn::mul_l(&bn::mod_l(&u(1)), &bn::mod_l(&u(2)))),
            "invl" => h(bn::inv_l(&bn::mod_l(&u(1)))),
            "mulp" => h(Fp::new(&u(1)).mul(Fp::new(&u(2))).0),
            "addp" => h(Fp::new(&u(1)).add(Fp::new(&u(2))).0),
            "subp" => h(Fp::new(&u(1)).sub(Fp::new(&u(2))).0),
            "invp" => h(Fp::new(&u(1)).inv().0),
            "sqrtp" => Fp::new(&u(1)).sqrt().map_or("none".into(), |x| h(x.abs().0)),
            "edmul" => bn::hex(&Ed::gen().mul(&u(1)).add(Ed::torsion(1)).mul(&u(2)).encode()),
            "eddec" => {
                let mut b = [0u8; 57];
                b.copy_from_slice(&bn::unhex(w[1]).unwrap());
                Ed::decode(&b).map_or("none".into(), |p| h(p.norm().x.0))
            }
            "shake" => {
                let mut out = [0u8; 300];
                crate::shake::shake256(&[&bn::unhex(w.get(1).unwrap_or(&"")).unwrap()], &mut out);
                bn::hex(&out)
            }
            "x448" => h(x448_ladder(&u(1), Fp::new(&u(2))).0),
            "decafdec" => Ed::decaf_decode(&h56(w[1])).map_or("none".into(), |p| format!("{} {}", h(p.norm().x.0), h(p.norm().y.0))),
            "decafenc" => bn::hex(&decaf_gen().mul(&u(1)).decaf_encode()),
            _ => "?".into(),
        };
        println!("{}", r);
    }
}
