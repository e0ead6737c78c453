/* Quad-precision (113-bit, libquadmath) reference implementations.
 *
 * None of these shares code or constants with the crate under test; wherever a
 * simpler or structurally different algorithm reaches quad accuracy it is used
 * (power series with positive terms, trapezoidal quadrature, library
 * functions), so that an error in the crate cannot be mirrored here.
 * /verif/oracle_check validates every function below against mpmath.
 *
 * Every result is returned as an unevaluated sum hi + lo of two doubles.
 */
#include <quadmath.h>
#include <math.h>
#include <stdlib.h>

typedef __float128 q;
typedef __complex128 cq;

static void put(q v, double *o) {
    double hi = (double)v;
    o[0] = hi;
    o[1] = isfinite(hi) ? (double)(v - (q)hi) : 0.0;
}

/* ---------------------------------------------------------------- gamma */
void ref_gamma(double x, double *o) { put(tgammaq((q)x), o); }
void ref_lgamma(double x, double *o) { put(lgammaq((q)x), o); }
void ref_factorial(int n, double *o) {
    q r = 1;
    for (int i = 2; i <= n; i++) r *= i;
    put(r, o);
}

/* log(1+d)-d, accurate for small d */
static q log1pmx(q d) {
    if (fabsq(d) > 0.1Q) return log1pq(d) - d;
    q s = 0, t = -d;
    for (int k = 2; k < 200; k++) {
        t *= -d;
        q u = -t / k;
        s += u;
        if (fabsq(u) < 1e-36Q * fabsq(s)) break;
    }
    return s;
}
/* log Gamma(a) - [(a-1/2) log a - a + log(2 pi)/2] for a >= 30 */
static q stirl(q a) {
    static const q c[] = {1.Q/12, -1.Q/360, 1.Q/1260, -1.Q/1680, 1.Q/1188, -691.Q/360360,
        1.Q/156, -3617.Q/122400, 43867.Q/244188, -174611.Q/125400, 77683.Q/5796,
        -236364091.Q/1506960, 657931.Q/300, -3392780147.Q/93960};
    q i2 = 1 / (a * a), s = 0;
    for (int k = 13; k >= 0; k--) s = s * i2 + c[k];
    return s / a;
}
/* log of x^a e^-x / Gamma(a), stable for huge a */
static q log_pref(q a, q x) {
    if (a > 60) {
        q d = (x - a) / a;
        /* a log(x/a) + a - x = a (log1p(d) - d) */
        q l = fabsq(d) < 0.5Q ? a * log1pmx(d) : a * logq(x / a) + (a - x);
        return l + 0.5Q * (logq(a) - logq(2 * M_PIq)) - stirl(a);
    }
    return a * logq(x) - x - lgammaq(a);
}
/* regularised incomplete gamma; P in o[0..2], Q in o[2..4], density dP/dx in o[4] */
void ref_gammapq(double ad, double xd, double *o) {
    q a = ad, x = xd, P, Q;
    if (x == 0) { put(0, o); put(1, o + 2); o[4] = 0; return; }
    if (isinfq(x)) { put(1, o); put(0, o + 2); o[4] = 0; return; }
    q ld = log_pref(a, x);
    if (x < a + 1 && !(a < 1e-3Q && x > 0.5Q)) { /* for tiny a, 1 - P would lose Q */
        q s = 1, t = 1, ap = a;
        for (long i = 0; i < 50000000; i++) {
            ap += 1; t *= x / ap; s += t;
            if (t < 1e-35Q * s) break;
        }
        P = expq(ld) * s / a;
        Q = 1 - P;
    } else {
        q tiny = 1e-4000Q;
        q b = x + 1 - a, c = 1 / tiny, d = 1 / b, h = d;
        for (long i = 1; i < 50000000; i++) {
            q an = -(q)i * ((q)i - a);
            b += 2;
            d = an * d + b; if (fabsq(d) < tiny) d = tiny;
            c = b + an / c; if (fabsq(c) < tiny) c = tiny;
            d = 1 / d;
            q del = d * c; h *= del;
            if (fabsq(del - 1) < 1e-33Q) break;
        }
        Q = expq(ld) * h;
        P = 1 - Q;
    }
    put(P, o); put(Q, o + 2);
    o[4] = (double)(expq(ld) / x);
}

/* ---------------------------------------------------------------- beta */
/* log B(a,b), stable when one argument is much larger than the other */
static q lbeta(q a, q b) {
    if (a > b) { q t = a; a = b; b = t; }          /* a <= b */
    if (b < 60) return lgammaq(a) + lgammaq(b) - lgammaq(a + b);
    /* lgamma(b) - lgamma(a+b) */
    q s = a + b;
    q diff = stirl(b) - stirl(s) - a * logq(s) + a - (b - 0.5Q) * log1pq(a / b);
    q la = a > 60 ? (a - 0.5Q) * logq(a) - a + 0.5Q * logq(2 * M_PIq) + stirl(a) : lgammaq(a);
    return la + diff;
}
void ref_beta(double a, double b, double *o) { put(expq(lbeta(a, b)), o); }
void ref_lbeta(double a, double b, double *o) { put(lbeta(a, b), o); }

static q betacfq(q a, q b, q x) {
    q tiny = 1e-4000Q, c = 1, d = 1 - (a + b) * x / (a + 1);
    if (fabsq(d) < tiny) d = tiny;
    d = 1 / d;
    q h = d;
    for (long k = 1; k < 3000000; k++) {
        q m = k, aa = m * (b - m) * x / ((a + 2 * m - 1) * (a + 2 * m));
        d = 1 + aa * d; if (fabsq(d) < tiny) d = tiny;
        c = 1 + aa / c; if (fabsq(c) < tiny) c = tiny;
        d = 1 / d; h *= d * c;
        aa = -(a + m) * (a + b + m) * x / ((a + 2 * m) * (a + 2 * m + 1));
        d = 1 + aa * d; if (fabsq(d) < tiny) d = tiny;
        c = 1 + aa / c; if (fabsq(c) < tiny) c = tiny;
        d = 1 / d;
        q del = d * c; h *= del;
        if (fabsq(del - 1) < 1e-32Q) return h;
    }
    return nanq("");
}
/* I_x(a,b) in o[0..2], 1-I in o[2..4], density in o[4], log2 of density in o[5] */
void ref_betai(double ad, double bd, double xd, double *o) {
    q a = ad, b = bd, x = xd, I, J;
    if (x == 0) { put(0, o); put(1, o + 2); o[4] = 0; return; }
    if (x == 1) { put(1, o); put(0, o + 2); o[4] = 0; return; }
    /* x^a (1-x)^b / B(a,b), in a form that does not cancel for large a+b */
    q lp;
    if (a > 60 && b > 60) {
        q n = a + b, mu = a / n, dx = (x * b - (1 - x) * a) / n; /* x - mu */
        (void)mu;
        /* a log(x n/a) + b log((1-x) n/b) */
        q u = dx * n / a, v = -dx * n / b;
        q t = (fabsq(u) < 0.5Q && fabsq(v) < 0.5Q) ? a * log1pmx(u) + b * log1pmx(v)
                                                   : a * logq(x * n / a) + b * logq((1 - x) * n / b);
        lp = t + 0.5Q * logq(a * b / (2 * M_PIq * n)) + stirl(n) - stirl(a) - stirl(b);
    } else {
        lp = a * logq(x) + b * log1pq(-x) - lbeta(a, b);
    }
    q p = expq(lp);
    if (x < (a + 1) / (a + b + 2)) {
        I = p * betacfq(a, b, x) / a; J = 1 - I;
    } else {
        J = p * betacfq(b, a, 1 - x) / b; I = 1 - J;
    }
    put(I, o); put(J, o + 2);
    o[4] = (double)(p / x / (1 - x));
}

/* ---------------------------------------------------------------- erf */
void ref_erf(double x, double *o) { put(erfq((q)x), o); }
void ref_erfc(double x, double *o) { put(erfcq((q)x), o); }
static q erfcx_q(q x) {
    if (x < 60) return expq(x * x) * erfcq(x);
    q i2 = 1 / (2 * x * x), s = 1, t = 1;
    for (int n = 1; n < 60; n++) {
        q u = -t * (2 * n - 1) * i2;
        if (fabsq(u) > fabsq(t)) break;
        t = u; s += t;
        if (fabsq(t) < 1e-36Q) break;
    }
    return s / (x * sqrtq(M_PIq));
}
void ref_erfcx(double x, double *o) { put(erfcx_q((q)x), o); }

static q dawson_q(q x) {
    q ax = fabsq(x);
    if (ax == 0) return x;
    if (ax < 12) {
        q x2 = x * x, t = x, s = 0;
        for (int n = 0; n < 3000; n++) {
            q u = t / (2 * n + 1);
            s += u;
            if (fabsq(u) < 1e-36Q * fabsq(s) && n > x2) break;
            t *= x2 / (n + 1);
        }
        return expq(-x2) * s;
    }
    q i2 = 1 / (2 * x * x), s = 1, t = 1;
    for (int n = 1; n < 200; n++) {
        q u = t * (2 * n - 1) * i2;
        if (u > t) break;
        t = u; s += t;
        if (t < 1e-36Q) break;
    }
    return s / (2 * x);
}
void ref_dawson(double x, double *o) { put(dawson_q((q)x), o); }

/* w(z) for Im z >= 0 by the trapezoidal rule with pole correction. */
static cq w_upper(q x, q y) {
    const q h = 0.2Q;
    cq z = x + y * 1.0Qi;
    /* choose the grid (t = (n + s) h) whose points stay away from x */
    q f = x / h - floorq(x / h);
    q s = (f > 0.25Q && f < 0.75Q) ? 0 : 0.5Q;
    cq sum = 0;
    int N = 46; /* (46*.2)^2 = 84 -> e^-84 = 3e-37 */
    for (int n = -N; n <= N; n++) {
        q t = (n + s) * h;
        sum += expq(-t * t) / (z - t);
    }
    cq r = sum * (h / M_PIq) * 1.0Qi;
    if (y < M_PIq / h) {
        /* + 2 e^{-z^2} / (1 - (+/-) e^{-2 pi i z/h}) */
        q re = (y - x) * (y + x), im = -2 * x * y;
        if (re > -11000) {
            cq ez2 = expq(re) * (cosq(im) + sinq(im) * 1.0Qi);
            q a = 2 * M_PIq * y / h, b = -2 * M_PIq * (f + 0 * s);
            q mag = expq(a);
            cq e = mag * (cosq(b) + sinq(b) * 1.0Qi);
            if (s != 0) e = -e;
            r += 2 * ez2 / (1 - e);
        }
    }
    return r;
}
static cq w_any(q x, q y) {
    if (y >= 0) return w_upper(x, y);
    q re = (y - x) * (y + x), im = -2 * x * y;
    cq ez2 = 0;
    if (re > -11300) ez2 = expq(re) * (cosq(im) + sinq(im) * 1.0Qi);
    return 2 * ez2 - w_upper(-x, -y);
}
/* re in o[0..2], im in o[2..4]; |e^{-z^2}| in o[4] */
void ref_w(double x, double y, double *o) {
    cq w = w_any((q)x, (q)y);
    q re = crealq(w), im = cimagq(w);
    put(re, o); put(im, o + 2);
    o[4] = (double)expq(((q)y - (q)x) * ((q)y + (q)x));
}

/* ---------------------------------------------------------------- Bessel */
void ref_jn(int n, double x, double *o) { put(jnq(n, (q)x), o); }
void ref_yn(int n, double x, double *o) { put(ynq(n, (q)x), o); }

/* 1/Gamma(1+u) Taylor coefficients are only needed for |u| tiny */
static void temme_gam(q mu, q *g1, q *g2, q *gpl, q *gmi) {
    *gpl = 1 / tgammaq(1 + mu);
    *gmi = 1 / tgammaq(1 - mu);
    *g2 = (*gmi + *gpl) / 2;
    if (fabsq(mu) < 1e-7Q) {
        /* gamma1(mu) = -(gammaE + c3 mu^2 + ...); c3 = coefficient of u^3 in 1/Gamma(1+u) */
        const q ge = 0.577215664901532860606512090082402431Q;
        const q c3 = -0.0420026350340952355290039348754298187Q;
        *g1 = -(ge + c3 * mu * mu);
    } else
        *g1 = (*gmi - *gpl) / (2 * mu);
}
/* J_nu(x) for 0 < x < 2 by its power series */
static q jq_small(q nu, q x) {
    q h2 = -x * x / 4, t = expq(nu * logq(x / 2) - lgammaq(nu + 1)), s = t;
    for (int k = 1; k < 200; k++) {
        t *= h2 / (k * (k + nu));
        s += t;
        if (fabsq(t) <= 1e-37Q * fabsq(s)) break;
    }
    return s;
}
/* J, Y, J', Y' of order nu >= 0 at x > 0: Steed's method with Temme's series,
 * J' and Y' in closed form. o[0..8]. Returns 0 on success. */
int ref_jy(double nud, double xd, double *o) {
    q nu = nud, x = xd;
    const q eps = 1e-34Q, tiny = 1e-4900Q;
    int nl = (int)(x < 2 ? nud + 0.5 : fmax(0, nud - xd + 1.5));
    q mu = nu - nl, mu2 = mu * mu, xi = 1 / x, xi2 = 2 * xi, w = xi2 / M_PIq;
    int isign = 1;
    q h = nu * xi;
    if (h < tiny) h = tiny;
    q b = xi2 * nu, d = 0, c = h;
    long i;
    for (i = 0; i < 2000000; i++) {
        b += xi2;
        d = b - d; if (fabsq(d) < tiny) d = tiny;
        c = b - 1 / c; if (fabsq(c) < tiny) c = tiny;
        d = 1 / d;
        q del = c * d; h *= del;
        if (d < 0) isign = -isign;
        if (fabsq(del - 1) < eps) break;
    }
    if (i == 2000000) return 1;
    q rjl = isign * 1e-4000Q, rjpl = h * rjl, rjl1 = rjl, rjp1 = rjpl, fact = nu * xi;
    for (int l = nl; l >= 1; l--) {
        q t = fact * rjl + rjpl;
        fact -= xi;
        rjpl = fact * t - rjl;
        rjl = t;
    }
    if (rjl == 0) rjl = eps;
    q f = rjpl / rjl, rjmu, rymu, rymup, ry1;
    if (x < 2) {
        q x2 = x / 2, pimu = M_PIq * mu;
        q fct = fabsq(pimu) < 1e-20Q ? 1 : pimu / sinq(pimu);
        q dd = -logq(x2), e = mu * dd;
        q fact2 = fabsq(e) < 1e-20Q ? 1 : sinhq(e) / e;
        q g1, g2, gp, gm;
        temme_gam(mu, &g1, &g2, &gp, &gm);
        q ff = 2 / M_PIq * fct * (g1 * coshq(e) + g2 * fact2 * dd);
        e = expq(e);
        q p = e / (gp * M_PIq), qq = 1 / (e * M_PIq * gm);
        q pimu2 = pimu / 2, fact3 = fabsq(pimu2) < 1e-20Q ? 1 : sinq(pimu2) / pimu2;
        q r = M_PIq * pimu2 * fact3 * fact3;
        q cc = 1, d2 = -x2 * x2, sum = ff + r * qq, sum1 = p;
        for (int k = 1; k < 1000; k++) {
            ff = (k * ff + p + qq) / (k * (q)k - mu2);
            cc *= d2 / k;
            p /= k - mu; qq /= k + mu;
            q del = cc * (ff + r * qq);
            sum += del;
            sum1 += cc * p - k * del;
            if (fabsq(del) < (1 + fabsq(sum)) * 1e-36Q) break;
        }
        rymu = -sum; ry1 = -sum1 * xi2;
        rymup = mu * xi * rymu - ry1;
        rjmu = w / (rymup - f * rymu);
    } else {
        q a = 0.25Q - mu2;
        /* p + i q by modified Lentz in complex arithmetic */
        cq bb, C, D, H;
        q p, qv;
        cq pq_;
        {
            /* CF: p+iq = -1/(2x) + i + (i/x) * K, K = a1/(2(x+i)+) a2/(2(x+2i)+)...  a_k = (k-1/2)^2 - mu^2 */
            H = 1e-4900Q; C = H; D = 0;
            long k;
            for (k = 1; k < 2000000; k++) {
                q ak = (k - 0.5Q) * (k - 0.5Q) - mu2;
                bb = 2 * x + 2 * k * 1.0Qi;
                D = bb + ak * D; if (cabsq(D) < tiny) D = tiny;
                C = bb + ak / C; if (cabsq(C) < tiny) C = tiny;
                D = 1 / D;
                cq del = C * D;
                H *= del;
                if (fabsq(crealq(del) - 1) + fabsq(cimagq(del)) < 1e-33Q) break;
            }
            if (k == 2000000) return 2;
            pq_ = -0.5Q * xi + 1.0Qi + 1.0Qi * xi * H;
            (void)a;
            p = crealq(pq_); qv = cimagq(pq_);
        }
        q gam = (p - f) / qv;
        rjmu = sqrtq(w / ((p - f) * gam + qv));
        if (rjl < 0) rjmu = -rjmu;
        rymu = gam * rjmu;
        rymup = rymu * p + qv * rjmu;
        ry1 = mu * xi * rymu - rymup;
    }
    fact = rjmu / rjl;
    q J = rjl1 * fact, Jp = rjp1 * fact;
    for (int k = 1; k <= nl; k++) {
        q t = (mu + k) * xi2 * ry1 - rymu;
        rymu = ry1; ry1 = t;
    }
    q Y = rymu, Yp = nu * xi * rymu - ry1;
    if (x < 2) {
        J = jq_small(nu, x);
        Jp = nu * xi * J - jq_small(nu + 1, x);
    }
    put(J, o); put(Y, o + 2); put(Jp, o + 4); put(Yp, o + 6);
    return 0;
}

/* I_nu by its power series (all terms positive) */
static q iq_(q nu, q x) {
    q h = x / 2, h2 = h * h;
    q t = expq(nu * logq(h) - lgammaq(nu + 1)), s = t;
    for (long k = 1; k < 5000000; k++) {
        t *= h2 / ((q)k * (k + nu));
        s += t;
        if (t <= 1e-36Q * s) break;
    }
    return s;
}
/* K_nu and K_nu' for x < 2: Temme's series at |mu| <= 1/2, then upward recurrence (stable) */
static void kq_small(q nu, q x, q *K, q *Kp) {
    int nl = (int)(nu + 0.5Q);
    q mu = nu - nl, mu2 = mu * mu, x2 = x / 2, xi = 1 / x;
    q pimu = M_PIq * mu;
    q fct = fabsq(pimu) < 1e-20Q ? 1 : pimu / sinq(pimu);
    q dd = -logq(x2), e = mu * dd;
    q fact2 = fabsq(e) < 1e-20Q ? 1 : sinhq(e) / e;
    q g1, g2, gp, gm;
    temme_gam(mu, &g1, &g2, &gp, &gm);
    q ff = fct * (g1 * coshq(e) + g2 * fact2 * dd), sum = ff;
    e = expq(e);
    q p = e / (2 * gp), qq = 1 / (2 * e * gm);
    q c = 1, d2 = x2 * x2, sum1 = p;
    for (int k = 1; k < 1000; k++) {
        ff = (k * ff + p + qq) / (k * (q)k - mu2);
        c *= d2 / k;
        p /= k - mu; qq /= k + mu;
        q del = c * ff;
        sum += del;
        sum1 += c * (p - k * ff);
        if (fabsq(del) < fabsq(sum) * 1e-36Q) break;
    }
    q a = sum, b = sum1 * 2 * xi;
    for (int k = 1; k <= nl; k++) {
        q t = (mu + k) * 2 * xi * b + a;
        a = b; b = t;
    }
    *K = a;
    *Kp = nu * xi * a - b;
}
/* K_nu and -K_nu' by the trapezoidal rule on int e^{-x cosh t} cosh(nu t) (cosh t) dt */
static void kq_(q nu, q x, q *K, q *Kp) {
    /* the integrand peaks at sinh t = nu/x; take logs relative to the peak */
    q tp = asinhq(nu / x);
    q ref = -x * coshq(tp) + nu * tp;
    /* width at the peak ~ 1/sqrt(x cosh tp) */
    q wd = 1 / sqrtq(x * coshq(tp));
    q h = 0.12Q * (wd < 0.5Q ? wd : 0.5Q);
    /* sum outwards from the peak */
    q s0 = 0, s1 = 0;
    long k0 = (long)(tp / h);
    for (long k = k0; k < k0 + 2000000; k++) {
        q t = k * h, ct = coshq(t);
        q g = expq(-x * ct + nu * t - ref) * (1 + expq(-2 * nu * t)) / 2;
        if (k == 0) g /= 2;
        s0 += g; s1 += g * ct;
        if (t > tp && g * ct < 1e-38Q * s1) break;
    }
    for (long k = k0 - 1; k >= 0; k--) {
        q t = k * h, ct = coshq(t);
        q g = expq(-x * ct + nu * t - ref) * (1 + expq(-2 * nu * t)) / 2;
        if (k == 0) g /= 2;
        s0 += g; s1 += g * ct;
        if (g < 1e-42Q * s0) break;
    }
    q sc = expq(ref);
    *K = s0 * h * sc; *Kp = -s1 * h * sc;
}
/* I, K, I', K' */
void ref_ik(double nud, double xd, double *o) {
    q nu = nud, x = xd;
    q I = iq_(nu, x), I1 = iq_(nu + 1, x), K, Kp;
    if (x < 2) kq_small(nu, x, &K, &Kp); else kq_(nu, x, &K, &Kp);
    put(I, o); put(K, o + 2); put(I1 + nu / x * I, o + 4); put(Kp, o + 6);
}

/* ---------------------------------------------------------------- Lambert W */
/* residuals for w = wr + i wi as branch k of z:
 * o[0] = |w e^w - z| / |z|
 * o[1] = |w + log w - log z - 2 pi i k|  (0 branch-cut adjustments left to the caller)
 * o[2] = nearest integer to Im(w + log w - log z)/2pi, o[3] = distance of the real part */
void ref_lambert(double zr, double zi, double wr, double wi, double *o) {
    cq z = (q)zr + (q)zi * 1.0Qi, w = (q)wr + (q)wi * 1.0Qi;
    if (signbit(zi) && zi == 0) __imag__ z = -0.0Q;
    cq e = expq((q)wr) * (cosq((q)wi) + sinq((q)wi) * 1.0Qi);
    cq r = w * e - z;
    o[0] = (double)(cabsq(r) / cabsq(z));
    /* Im: wi + arg w - arg z */
    q t = (q)wi + atan2q((q)wi, (q)wr) - atan2q((q)zi, (q)zr);
    q re = (q)wr + logq(cabsq(w)) - logq(cabsq(z));
    q k = rintq(t / (2 * M_PIq));
    o[1] = (double)hypotq(re, t - 2 * M_PIq * k);
    o[2] = (double)k;
    o[3] = (double)re;
}
