#!/usr/bin/env python3-vt
"""Validate oracle.c against mpmath and (with --write) emit golden.txt.

Usage: python3-vt validate_oracle.py liboracle.so [N] [--write golden.txt]
Not part of any check's run; `pcheck selftest` replays golden.txt instead.
"""
import ctypes, math, random, sys, struct
import mpmath as mp

lib = ctypes.CDLL(sys.argv[1])
N = int(sys.argv[2]) if len(sys.argv) > 2 and sys.argv[2].isdigit() else 60
out_path = sys.argv[sys.argv.index("--write") + 1] if "--write" in sys.argv else None
rnd = random.Random(20240607)
D = ctypes.c_double


def call(name, sig, args, nout):
    f = getattr(lib, name)
    buf = (D * 8)()
    conv = [ctypes.c_int(a) if s == "i" else D(a) for s, a in zip(sig, args)]
    f(*conv, buf)
    return list(buf)[:nout]


def logu(lo, hi):
    return 10 ** rnd.uniform(lo, hi)


def pick(*fs):
    return rnd.choice(fs)()


def mpf(x):
    return mp.mpf(x)


def g_gamma():
    return (pick(lambda: rnd.uniform(0, 171), lambda: rnd.uniform(-170, 0), lambda: logu(-300, 2), lambda: rnd.randint(-170, 170) + rnd.choice([-1, 1]) * logu(-12, -1)),)


def g_pos():
    return (pick(lambda: logu(-300, 5), lambda: rnd.uniform(0, 200), lambda: logu(-2, 2), lambda: logu(2, 12)),)


def g_pq():
    a = pick(lambda: logu(-4, 4), lambda: rnd.uniform(0, 200), lambda: logu(2, 5))
    x = pick(lambda: a * logu(-2, 0.3), lambda: abs(a + rnd.gauss(0, 4) * math.sqrt(a)), lambda: logu(-30, 2))
    return (a, x)


def g_beta():
    return (pick(lambda: logu(-6, 5), lambda: rnd.uniform(0, 50)), pick(lambda: logu(-6, 5), lambda: rnd.uniform(0, 50)))


def g_betai():
    a = pick(lambda: logu(-3, 4.5), lambda: rnd.uniform(0, 50))
    b = pick(lambda: logu(-3, 4.5), lambda: rnd.uniform(0, 50))
    m = a / (a + b)
    sd = math.sqrt(a * b / (a + b) ** 2 / (a + b + 1))
    x = pick(rnd.random, lambda: m + rnd.gauss(0, 4) * sd, lambda: logu(-20, 0), lambda: 1 - logu(-12, 0))
    return (a, b, min(max(x, 1e-290), 1 - 2 ** -53))


def g_real():
    return (rnd.choice([-1, 1]) * pick(lambda: logu(-20, 1.4), lambda: rnd.uniform(0, 26.5)),)


def g_realbig():
    return (rnd.choice([-1, 1]) * pick(lambda: logu(-20, 1.4), lambda: rnd.uniform(0, 26.5), lambda: logu(0, 60)),)


def g_erfcx():
    x = g_realbig()[0]
    return (x if x > -26 else -x,)


def g_w():
    r = lambda: pick(lambda: logu(-12, 1), lambda: rnd.uniform(0, 8), lambda: rnd.uniform(0, 30), lambda: logu(0, 8), lambda: 0.0, lambda: logu(-12, -5))
    while True:
        x, y = rnd.choice([-1, 1]) * r(), rnd.choice([-1, 1]) * r()
        if y > -26 and x * x + y * y < 1e30:
            return (x, y)


def g_nx():
    n = rnd.choice([0, 1, 2, 3, 5, 8, 17, 50, 150])
    x = pick(lambda: logu(-6, 4), lambda: rnd.uniform(0, 60), lambda: n * rnd.uniform(0.5, 1.5) + 0.1)
    return (n, x)


def g_nux():
    nu = pick(lambda: rnd.uniform(0, 12), lambda: rnd.uniform(0, 120), lambda: rnd.randint(0, 20) + 0.5, lambda: float(rnd.randint(0, 40)), lambda: rnd.randint(0, 20) + logu(-14, -1), lambda: logu(-14, 0))
    x = pick(lambda: logu(-5, 3), lambda: rnd.uniform(0, 60), lambda: nu * rnd.uniform(0.3, 2) + 0.01, lambda: rnd.uniform(1.9, 2.1), lambda: logu(-3, 0.3), lambda: logu(-200, -5))
    return (nu, x)


def reg_beta(a, b, x):
    a, b, x = mpf(a), mpf(b), mpf(x)
    pre = mp.exp(a * mp.log(x) + b * mp.log1p(-x) - (mp.loggamma(a) + mp.loggamma(b) - mp.loggamma(a + b)))
    # Gauss: I = pre/a * 2F1(a+b,1;a+1;x) on the convergent side
    if x < (a + 1) / (a + b + 2):
        I = pre / a * mp.hyp2f1(a + b, 1, a + 1, x)
        return I, 1 - I
    J = pre / b * mp.hyp2f1(a + b, 1, b + 1, 1 - x)
    return 1 - J, J


def pq(a, x):
    a, x = mpf(a), mpf(x)
    if x < a + 1:
        P = mp.exp(a * mp.log(x) - x - mp.loggamma(a + 1)) * mp.hyp1f1(1, a + 1, x)
        return P, 1 - P
    Q = mp.gammainc(a, x, mp.inf, regularized=True)
    return 1 - Q, Q


def wref(x, y):
    z = mp.mpc(x, y)
    if y >= 0:
        if abs(z) > 10:
            # asymptotic series; its smallest term is ~e^{-|z|^2} < 1e-43
            s = mp.mpc(0); t = mp.mpc(1)
            for n in range(0, 400):
                s += t
                u = t * (2 * n + 1) / (2 * z * z)
                if abs(u) > abs(t) or abs(u) < mp.mpf(10) ** -50:
                    break
                t = u
            return mp.j / (mp.sqrt(mp.pi) * z) * s + (mp.exp(-z * z) if y == 0 else 0)
        with mp.workdps(int(60 + 0.9 * abs(z) ** 2)):
            return mp.exp(-z * z) * mp.erfc(-mp.j * z)
    return 2 * mp.exp(-z * z) - wref(-x, -y)


SPECS = [
    # name, C function, signature, generator, reference -> list of mp values, mult of N
    ("gamma", "ref_gamma", "d", g_gamma, lambda x: [mp.gamma(mpf(x))], 4),
    ("lgamma", "ref_lgamma", "d", g_pos, lambda x: [mp.loggamma(mpf(x))], 4),
    ("pq", "ref_gammapq", "dd", g_pq, lambda a, x: list(pq(a, x)), 2),
    ("beta", "ref_beta", "dd", g_beta, lambda a, b: [mp.exp(mp.loggamma(mpf(a)) + mp.loggamma(mpf(b)) - mp.loggamma(mpf(a) + mpf(b)))], 4),
    ("betai", "ref_betai", "ddd", g_betai, lambda a, b, x: list(reg_beta(a, b, x)), 2),
    ("erf", "ref_erf", "d", g_real, lambda x: [mp.erf(mpf(x))], 3),
    ("erfc", "ref_erfc", "d", g_real, lambda x: [mp.erfc(mpf(x))], 3),
    ("erfcx", "ref_erfcx", "d", g_erfcx, lambda x: [mp.re(wref(0, x))], 3),
    ("dawson", "ref_dawson", "d", g_realbig, lambda x: [mp.sqrt(mp.pi) / 2 * mp.im(wref(x, 0))], 3),
    ("w", "ref_w", "dd", g_w, lambda x, y: (lambda v: [mp.re(v), mp.im(v)])(wref(x, y)), 5),
    ("jn", "ref_jn", "id", g_nx, lambda n, x: [mp.besselj(n, mpf(x))], 3),
    ("yn", "ref_yn", "id", g_nx, lambda n, x: [mp.bessely(n, mpf(x))], 2),
    ("jy", "ref_jy", "dd", g_nux, lambda nu, x: [mp.besselj(mpf(nu), mpf(x)), mp.bessely(mpf(nu), mpf(x)), mp.besselj(mpf(nu), mpf(x), 1), (mp.bessely(mpf(nu) - 1, mpf(x)) - mp.bessely(mpf(nu) + 1, mpf(x))) / 2], 4),
    ("ik", "ref_ik", "dd", g_nux, lambda nu, x: [mp.besseli(mpf(nu), mpf(x)), mp.besselk(mpf(nu), mpf(x)), (mp.besseli(mpf(nu) - 1, mpf(x)) + mp.besseli(mpf(nu) + 1, mpf(x))) / 2, -(mp.besselk(mpf(nu) - 1, mpf(x)) + mp.besselk(mpf(nu) + 1, mpf(x))) / 2], 3),
]


def hx(x):
    return "%016x" % struct.unpack("<Q", struct.pack("<d", x))[0]


lines = []
only = [a[7:] for a in sys.argv if a.startswith("--only=")]
for name, cf, sig, gen, ref, mult in SPECS:
    if only and name not in only:
        continue
    worst = (0, None, None)
    bad = 0
    done = 0
    while done < N * mult:
        args = gen()
        mp.mp.dps = 60
        try:
            want = ref(*args)
        except Exception as e:  # mpmath did not converge: not usable as a golden point
            continue
        got = call(cf, sig, args, 8)
        done += 1
        # normwise for pairs (w), componentwise otherwise
        scale = None
        if name == "w":
            scale = mp.sqrt(sum(v * v for v in want))
        ok = True
        for i, v in enumerate(want):
            hi, lo = got[2 * i], got[2 * i + 1]
            if abs(v) > mp.mpf("1.7e308") or abs(v) < mp.mpf("1e-290"):
                continue
            g = mp.mpf(hi) + mp.mpf(lo)
            e = abs(g - v) / (scale if scale else abs(v))
            if not e < mp.mpf(10) ** -19:
                ok = False
                bad += 1
                if bad < 6:
                    print("  BAD", name, args, i, mp.nstr(v, 25), mp.nstr(g, 25), mp.nstr(e, 3))
            if e > worst[0]:
                worst = (e, args, i)
        parts = []
        for v in want:
            if abs(v) > mp.mpf("1.7e308") or abs(v) < mp.mpf("1e-290"):
                parts.append("-")
                parts.append("-")
            else:
                hi = float(v)
                parts.append(hx(hi))
                parts.append(hx(float(v - mp.mpf(hi))))
        lines.append("%s %s | %s" % (name, " ".join(str(a) if s == "i" else hx(a) for s, a in zip(sig, args)), " ".join(parts)))
    print(f"{name:7s} n={done} worst={mp.nstr(worst[0],3)} at {worst[1]} out {worst[2]} bad={bad}", flush=True)
if out_path:
    open(out_path, "w").write("\n".join(lines) + "\n")
