//! SHAKE256 (FIPS 202), checked against Python's hashlib by tools/refcheck.py.
const RC: [u64; 24] = {
    // the rc LFSR of FIPS 202, 3.2.5
    let mut out = [0u64; 24];
    let mut r: u8 = 1;
    let mut i = 0;
    while i < 24 {
        let mut j = 0;
        while j < 7 {
            if r & 1 == 1 {
                out[i] |= 1 << ((1u32 << j) - 1);
            }
            r = (r << 1) ^ (if r >> 7 == 1 { 0x71 } else { 0 });
            j += 1;
        }
        i += 1;
    }
    out
};
fn permute(a: &mut [[u64; 5]; 5]) {
    for rc in RC {
        let mut c = [0u64; 5];
        for x in 0..5 {
            c[x] = (0..5).fold(0, |s, y| s ^ a[x][y]);
        }
        for x in 0..5 {
            let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
            for y in 0..5 {
                a[x][y] ^= d;
            }
        }
        let (mut x, mut y) = (1, 0);
        let mut b = [[0u64; 5]; 5];
        b[0][0] = a[0][0];
        for t in 0..24u32 {
            b[y][(2 * x + 3 * y) % 5] = a[x][y].rotate_left((t + 1) * (t + 2) / 2 % 64);
            (x, y) = (y, (2 * x + 3 * y) % 5);
        }
        for x in 0..5 {
            for y in 0..5 {
                a[x][y] = b[x][y] ^ (!b[(x + 1) % 5][y] & b[(x + 2) % 5][y]);
            }
        }
        a[0][0] ^= rc;
    }
}
const RATE: usize = 136;
pub fn shake256(parts: &[&[u8]], out: &mut [u8]) {
    let mut a = [[0u64; 5]; 5];
    let mut m = parts.concat();
    m.push(0x1f);
    while m.len() % RATE != 0 {
        m.push(0);
    }
    *m.last_mut().unwrap() |= 0x80;
    let lane = |i: usize| (i % 5, i / 5);
    for block in m.chunks(RATE) {
        for (i, w) in block.chunks(8).enumerate() {
            let (x, y) = lane(i);
            a[x][y] ^= u64::from_le_bytes(w.try_into().unwrap());
        }
        permute(&mut a);
    }
    for chunk in out.chunks_mut(RATE) {
        for (i, w) in chunk.chunks_mut(8).enumerate() {
            let (x, y) = lane(i);
            w.copy_from_slice(&a[x][y].to_le_bytes()[..w.len()]);
        }
        permute(&mut a);
    }
}
