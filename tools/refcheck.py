#!/usr/bin/env python3
"""Checks the Rust reference model (harness refeval) against plain Python integers and RFC 8032 vectors.
usage: refcheck.py HARNESS_BINARY     exit 0 if everything agrees"""
import hashlib, random, subprocess, sys
P = 2**448 - 2**224 - 1
L = 2**446 - 0x8335dc163bb124b65129c96fde933d8d723a70aadc873d6d54a7bb0d
D = -39081 % P
GX = 0x4f1970c66bed0ded221d15a622bf36da9e146570470f1767ea6de324a3d3a46412ae1af72ab66511433b80e18b00938e2626a82bc70cc05e
GY = 0x693f46716eb6bc248876203756c9c7624bea73736ca3984087789c1e05a0c2d73ad3ff1ce67c39c4fdbd132c4ed7c8ad9808795bf230fa14
inv = lambda a, m=P: pow(a, m - 2, m)
le = lambda x, n=56: x.to_bytes(n, 'little').hex()
def add(p, q):
    (x1, y1), (x2, y2) = p, q
    t = D * x1 * x2 * y1 * y2 % P
    return ((x1 * y2 + x2 * y1) * inv(1 + t) % P, (y1 * y2 - x1 * x2) * inv(1 - t) % P)
def mul(s, p):
    r = (0, 1)
    for i in reversed(range(s.bit_length())):
        r = add(r, r)
        if s >> i & 1: r = add(r, p)
    return r
def enc(p): return le(p[1] | (p[0] & 1) << 455, 57)
def sqrt(a):
    r = pow(a, (P + 1) // 4, P)
    return r if r * r % P == a % P else None
def even(x): return x if x % 2 == 0 else P - x
def dec(b):
    v = int.from_bytes(b, 'little'); y = v & (1 << 448) - 1; s = b[56] >> 7
    if b[56] & 0x7f or y >= P: return None
    x = sqrt((1 - y * y) * inv(1 - D * y * y) % P)
    if x is None or (x == 0 and s): return None
    return x if x & 1 == s else P - x
def x448(k, u):  # affine, by the curve B v^2 = u^3 + A u^2 + u
    A = 156326
    rhs = (u**3 + A * u * u + u) % P
    b = 1; v = sqrt(rhs)
    if v is None: b, v = P - 1, sqrt(-rhs % P)
    def madd(p, q):
        if p is None: return q
        if q is None: return p
        if p[0] == q[0]:
            if (p[1] + q[1]) % P == 0: return None
            l = (3 * p[0]**2 + 2 * A * p[0] + 1) * inv(2 * b * p[1]) % P
        else: l = (q[1] - p[1]) * inv(q[0] - p[0]) % P
        x = (b * l * l - A - p[0] - q[0]) % P
        return (x, (l * (p[0] - x) - p[1]) % P)
    r = None
    for i in reversed(range(448)):
        r = madd(r, r)
        if k >> i & 1: r = madd(r, (u, v))
    return 0 if r is None else r[0]
def isr(u, v):  # SQRT_RATIO_M1 of RFC 9496 section 5: (was_square, r)
    r = u * pow(u * v, (P - 3) // 4, P) % P
    return v * r * r % P == u % P, even(r)
def decafdec(b):
    s = int.from_bytes(b, 'little')
    if s >= P or s & 1: return None
    ss = s * s % P; u1 = (1 + ss) % P; u2 = (u1 * u1 - 4 * D * ss) % P
    ok, i = isr(1, u2 * u1 * u1 % P)
    u3 = even(2 * s * i * u1 * SMD % P)
    x = u3 * i * u2 * ISMD % P; y = (1 - ss) * i * u1 % P
    return (x, y) if ok else None
SMD = even(sqrt(39081)); ISMD = inv(SMD)
def decafenc(p):
    x, y = p; z = 1; t = x * y % P
    u1 = (x + t) * (x - t) % P
    _, i = isr(1, u1 * (1 - D) * x * x % P)
    ratio = even(i * u1 * SMD % P); u2 = (ISMD * ratio * z - t) % P
    return le(even((1 - D) * i * x * u2 % P))
def main():
    rnd = random.Random(448); cases = []
    edge = [0, 1, 2, L - 1, L, L + 1, P - 1, P, P + 1, 2**448 - 1, 2**446, 2**224, 2**447]
    val = lambda: rnd.choice(edge) if rnd.random() < .4 else rnd.getrandbits(448)
    c = lambda q, a: cases.append((q, a))
    for _ in range(400):
        a, b = val(), val()
        w = rnd.getrandbits(912) if rnd.random() < .7 else (rnd.choice(edge) << 456 | rnd.choice(edge))
        c(f"modl {le(w, 114)}", le(w % L))
        c(f"addl {le(a)} {le(b)}", le((a + b) % L)); c(f"subl {le(a)} {le(b)}", le((a - b) % L))
        c(f"mull {le(a)} {le(b)}", le(a * b % L)); c(f"invl {le(a)}", le(inv(a % L, L)))
        c(f"mulp {le(a)} {le(b)}", le(a * b % P)); c(f"addp {le(a)} {le(b)}", le((a + b) % P)); c(f"subp {le(a)} {le(b)}", le((a - b) % P))
        c(f"invp {le(a)}", le(inv(a % P)))
        s = sqrt(a % P); c(f"sqrtp {le(a)}", "none" if s is None else le(even(s)))
        e = bytes.fromhex(le(val())) + bytes([rnd.choice([0, 0, 128, 128, 1, 255])])
        x = dec(e); c(f"eddec {e.hex()}", "none" if x is None else le(x))
        d = bytes.fromhex(le(val() & ~1 if rnd.random() < .8 else val()))
        x = decafdec(d); c(f"decafdec {d.hex()}", "none" if x is None else f"{le(x[0])} {le(x[1])}")
    for n in (0, 1, 8, 135, 136, 137, 271, 272, 300):
        m = rnd.randbytes(n); c(f"shake {m.hex()}", hashlib.shake_256(m).hexdigest(300))
    B = decafdec(bytes.fromhex("66" * 28 + "33" * 28))
    for _ in range(4):
        a, b = val(), val()
        c(f"edmul {le(a)} {le(b)}", enc(mul(b, add(mul(a, (GX, GY)), (1, 0)))))
        u = val() % P or 9
        c(f"x448 {le(a)} {le(u)}", le(x448(a, u)))
        k = rnd.getrandbits(448)
        c(f"decafenc {le(k)}", decafenc(mul(k, B)))
    out = subprocess.run([sys.argv[1], "refeval"], input="\n".join(q for q, _ in cases) + "\n", capture_output=True, text=True, timeout=300).stdout.split("\n")
    bad = [(q, a, o) for (q, a), o in zip(cases, out) if a != o]
    for b in bad[:5]: print("MISMATCH", b)
    # RFC 8032 7.4, blank and 1-octet vectors: ties the Python reference to the standard
    for sk, pk in [("6c82a562cb808d10d632be89c8513ebf6c929f34ddfa8c9f63c9960ef6e348a3528c8a3fcc2f044e39a3fc5b94492f8f032e7549a20098f95b", "5fd7449b59b461fd2ce787ec616ad46a1da1342485a70e1f8a0ea75d80e96778edf124769b46c7061bd6783df1e50f6cd1fa1abeafe8256180"),
                   ("c4eab05d357007c632f3dbb48489924d552b08fe0c353a0d4a1f00acda2c463afbea67c5e8d2877c5e3bc397a659949ef8021e954e0a12274e", "43ba28f430cdff456ae531545f7ecd0ac834a55d9358c0372bfa0c6c6798c0866aea01eb00742802b8438ea4cb82169c235160627b4c3a9480")]:
        h = bytearray(hashlib.shake_256(bytes.fromhex(sk)).digest(114)[:57]); h[0] &= 252; h[55] |= 128; h[56] = 0
        if enc(mul(int.from_bytes(h, 'little'), (GX, GY))) != pk: print("RFC 8032 vector"); bad.append(1)
    print(f"refcheck: {len(cases)} comparisons, {len(bad)} mismatches")
    return 1 if bad or len(out) < len(cases) else 0
sys.exit(main())
