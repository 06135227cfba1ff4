"""Reference laws of the shipped distributions, written independently of the code under test."""
import math

import numpy as np
from scipy import stats as S


class Mix:
    def __init__(self, p, a, b):
        self.p, self.a, self.b = p, a, b

    def cdf(self, x):
        return self.p * S.norm.cdf(x, self.a, self.b) + (1 - self.p) * S.norm.cdf(x)

    def sample(self, g, n):
        c = g.random(n) < self.p
        return np.where(c, self.a + self.b * g.standard_normal(n), g.standard_normal(n))


class Frozen:
    def __init__(self, f):
        self.f = f

    def cdf(self, x):
        return self.f.cdf(x)

    def sample(self, g, n):
        return np.asarray(self.f.ppf(g.random(n)), dtype=float)


def law(kind, p):
    """kind: DistributionType value; p: parameters by any of the names in use."""
    g = p.get
    if kind == "normal":
        return Frozen(S.norm(g("mean", 0), math.sqrt(g("var", 1))))
    if kind == "exponential":
        return Frozen(S.expon(scale=1 / g("lam")))
    if kind == "weibull":
        return Frozen(S.exponweib(g("a"), g("k")))
    if kind == "uniform":
        return Frozen(S.uniform(g("a"), g("b") - g("a")))
    if kind == "student":
        return Frozen(S.t(g("df"), loc=g("loc", 0), scale=g("scale", 1)))
    if kind == "gamma":
        return Frozen(S.gamma(g("alpha", g("alfa")), scale=1 / g("beta")))
    if kind == "beta":
        return Frozen(S.beta(g("alpha", g("a")), g("beta", g("b"))))
    if kind == "log_normal":
        return Frozen(S.lognorm(g("s"), scale=g("scale") if "scale" in p else math.exp(g("mu"))))
    if kind == "cauchy":
        return Frozen(S.cauchy(g("t"), g("s")))
    if kind == "chi_2":
        return Frozen(S.chi2(g("df")))
    if kind == "gompertz":
        return Frozen(S.gompertz(g("eta"), scale=g("b")))
    if kind == "gumbel":
        return Frozen(S.gumbel_r(g("mu"), g("beta")))
    if kind == "inv_gauss":
        return Frozen(S.invgauss(g("mu"), scale=g("lam")))
    if kind == "laplace":
        return Frozen(S.laplace(g("t"), g("s")))
    if kind == "lo_con_normal":
        return Mix(g("p"), g("a"), 1.0)
    if kind == "logistic":
        return Frozen(S.logistic(g("t"), g("s")))
    if kind == "mix_con_normal":
        return Mix(g("p"), g("a"), g("b"))
    if kind == "rice":
        return Frozen(S.rice(g("nu"), scale=g("sigma")))
    if kind == "scale_con_normal":
        return Mix(g("p"), 0.0, g("b"))
    if kind == "trunc_normal":
        s = math.sqrt(g("var"))
        m = g("mean")
        return Frozen(S.truncnorm((g("a") - m) / s, (g("b") - m) / s, loc=m, scale=s))
    if kind == "tukey":
        return Frozen(S.tukeylambda(g("lam")))
    raise KeyError(kind)


# admissible parameters per distribution, by the names its generator uses
PARAMS = {
    "normal": [dict(mean=0, var=1), dict(mean=3, var=4), dict(mean=-2.5, var=0.25), dict(mean=0, var=9), dict(mean=10, var=1)],
    "exponential": [dict(lam=1), dict(lam=0.5), dict(lam=3), dict(lam=0.1)],
    "weibull": [dict(a=1, k=5), dict(a=1, k=1), dict(a=2, k=1.5), dict(a=1.5, k=3), dict(a=0.7, k=2)],
    "uniform": [dict(a=0, b=1), dict(a=-1, b=2), dict(a=3, b=7), dict(a=0, b=0.5)],
    "student": [dict(df=1), dict(df=3), dict(df=7.5), dict(df=2)],
    "gamma": [dict(alfa=1, beta=1), dict(alfa=2, beta=3), dict(alfa=3.3, beta=0.5), dict(alfa=1, beta=2)],
    "beta": [dict(a=1, b=1), dict(a=2, b=3), dict(a=3.3, b=1.2), dict(a=1, b=2), dict(a=2, b=2)],
    "log_normal": [dict(s=1, mu=0), dict(s=0.5, mu=1), dict(s=1, mu=-0.5), dict(s=0.3, mu=0)],
    "cauchy": [dict(t=0, s=1), dict(t=3, s=0.5), dict(t=-2, s=2)],
    "chi_2": [dict(df=2), dict(df=5), dict(df=3.5)],
    "gompertz": [dict(eta=1, b=1), dict(eta=2, b=3), dict(eta=0.5, b=0.5)],
    "gumbel": [dict(mu=0, beta=1), dict(mu=3, beta=2), dict(mu=-1, beta=0.5)],
    "inv_gauss": [dict(mu=1, lam=1), dict(mu=0.5, lam=2), dict(mu=2, lam=0.5)],
    "laplace": [dict(t=0, s=1), dict(t=2, s=0.5), dict(t=-1, s=3)],
    "lo_con_normal": [dict(p=0.5, a=0), dict(p=0.3, a=4), dict(p=0.8, a=-3)],
    "logistic": [dict(t=0, s=1), dict(t=2, s=0.5), dict(t=-1, s=3)],
    "mix_con_normal": [dict(p=0.5, a=0, b=1), dict(p=0.3, a=4, b=2), dict(p=0.7, a=-3, b=0.5)],
    "rice": [dict(nu=0, sigma=1), dict(nu=2, sigma=0.5), dict(nu=1, sigma=3)],
    "scale_con_normal": [dict(p=0.5, b=1), dict(p=0.3, b=5), dict(p=0.7, b=0.2)],
    "trunc_normal": [dict(mean=0, var=1, a=-10, b=10), dict(mean=0, var=1, a=-1, b=2), dict(mean=3, var=4, a=2, b=5), dict(mean=-1, var=0.25, a=-1.2, b=10)],
    "tukey": [dict(lam=2), dict(lam=0.5), dict(lam=0.14), dict(lam=-0.2)],
}


def _num(r, lo, hi):
    """A number of the range, often a whole one, on a logarithmic scale."""
    v = math.exp(r.uniform(math.log(lo), math.log(hi)))
    if r.random() < 0.35 and hi >= 1:
        return max(1, round(v))
    return round(v, r.choice([1, 3, 6])) if v > 0.2 else round(v, 6)


def _loc(r, w):
    return r.choice([0, r.randint(-int(w), int(w)), round(r.uniform(-w, w), r.choice([1, 4]))])


def params(r, kind):
    """Admissible parameters, by the names that the generator uses."""
    if r.random() < 0.5:
        return dict(r.choice(PARAMS[kind]))
    pos = lambda lo=0.05, hi=30: _num(r, lo, hi)                 # noqa: E731
    p = round(r.uniform(0.05, 0.95), 2)
    if kind == "normal":
        return dict(mean=_loc(r, 20), var=pos())
    if kind == "exponential":
        return dict(lam=pos(0.01, 50))
    if kind == "weibull":
        return dict(a=pos(0.5, 8), k=pos(0.5, 12))
    if kind == "uniform":
        a = _loc(r, 20)
        return dict(a=a, b=round(a + pos(), 6))
    if kind == "student":
        return dict(df=pos(0.7, 60))
    if kind == "gamma":
        return dict(alfa=pos(0.6, 40), beta=pos())
    if kind == "beta":
        return dict(a=pos(0.6, 15), b=pos(0.6, 15))
    if kind == "log_normal":
        return dict(s=pos(0.05, 3), mu=_loc(r, 5))
    if kind in ("cauchy", "laplace", "logistic"):
        return dict(t=_loc(r, 20), s=pos())
    if kind == "chi_2":
        return dict(df=pos(1, 60))
    if kind == "gompertz":
        return dict(eta=pos(0.1, 8), b=pos())
    if kind == "gumbel":
        return dict(mu=_loc(r, 20), beta=pos())
    if kind == "inv_gauss":
        return dict(mu=pos(0.1, 8), lam=pos())
    if kind == "lo_con_normal":
        return dict(p=p, a=_loc(r, 10))
    if kind == "mix_con_normal":
        return dict(p=p, a=_loc(r, 10), b=pos())
    if kind == "scale_con_normal":
        return dict(p=p, b=pos())
    if kind == "rice":
        return dict(nu=r.choice([0, pos(0.1, 10)]), sigma=pos())
    if kind == "trunc_normal":
        m, v = _loc(r, 10), pos(0.1, 20)
        s = math.sqrt(v)
        lo = m + r.uniform(-3, 1) * s
        return dict(mean=m, var=v, a=round(lo, 6), b=round(lo + r.uniform(0.5, 4) * s, 6))
    if kind == "tukey":
        return dict(lam=r.choice([round(r.uniform(-0.4, 0.9), 3), pos(0.5, 6)]))
    raise KeyError(kind)


FNS = {"normal": "norm.generate_norm", "exponential": "expon.generate_expon", "weibull": "weibull.generate_weibull",
       "uniform": "uniform.generate_uniform", "student": "student.generate_t", "gamma": "gamma.generate_gamma",
       "beta": "beta.generate_beta", "log_normal": "lognormal.generate_lognorm", "cauchy": "cauchy.generate_cauchy",
       "chi_2": "chi2.generate_chi2", "gompertz": "gompertz.generate_gompertz", "gumbel": "gumbel.generate_gumbel",
       "inv_gauss": "invgauss.generate_invgauss", "laplace": "laplace.generate_laplace",
       "lo_con_normal": "lo_con_norm.generate_lo_con_norm", "logistic": "logistic.generate_logistic",
       "mix_con_normal": "mix_con_norm.generate_mix_con_norm", "rice": "rice.generate_rice",
       "scale_con_normal": "scale_con_norm.generate_scale_con_norm", "trunc_normal": "truncnormal.generate_truncnorm",
       "tukey": "tukey.generate_tukey"}
SLOW = {"lo_con_normal", "mix_con_normal", "scale_con_normal"}       # a Python loop per value


# ---------------------------------------------------------------- tests with error about 1e-11
LIM = 13.5           # n D^2 beyond this has probability below 2 exp(-27) under the law


def outside(x, lw):
    """Text if some of the values are impossible under the law."""
    x = np.asarray(x, dtype=float)
    if not np.isfinite(x).all():
        return f"{(~np.isfinite(x)).sum()} of {len(x)} values are not finite"
    if not hasattr(lw, "f"):
        return None
    lo, hi = (float(v) for v in lw.f.support())
    slack = 1e-9 * (1 + sum(abs(v) for v in (lo, hi) if math.isfinite(v)))
    bad = x[(x < lo - slack) | (x > hi + slack)]
    if len(bad):
        return f"{len(bad)} of {len(x)} values lie outside [{lo:.6g}, {hi:.6g}], such as {bad[0]!r}"
    return None


def off_law(x, lw):
    """Text if the values x cannot be an i.i.d. sample of the law, else None."""
    x = np.asarray(x, dtype=float)
    n = len(x)
    if n == 0:
        return None
    out = outside(x, lw)
    if out or n < 14:
        return out
    u = np.sort(lw.cdf(x))
    i = np.arange(1, n + 1)
    d = max((i / n - u).max(), (u - (i - 1) / n).max())
    if n * d * d > LIM:
        return f"distance {d:.3f} from the law over {n} values (mean {x.mean():.3g}, median {np.median(x):.3g})"
    for tail, k in ((0.01, int((u < 0.01).sum())), (0.01, int((u > 0.99).sum())), (0.1, int((u < .1).sum())), (.1, int((u > .9).sum()))):
        if S.binom.sf(k - 1, n, tail) < 1e-12 or S.binom.cdf(k, n, tail) < 1e-12:
            return f"{k} of {n} values in a tail that should hold {tail * n:.0f}"
    return None


def dependent(xs, lw):
    """Text if successive values of the samples are visibly dependent (rank correlation)."""
    u = np.concatenate([np.clip(lw.cdf(np.asarray(x, dtype=float)), 0, 1) for x in xs])
    n = len(u)
    if n < 100:
        return None
    for lag in (1, 2):
        a, b = u[:-lag] - 0.5, u[lag:] - 0.5
        z = float((a * b).sum() * 12 / math.sqrt(n - lag))
        if abs(z) > 8:
            return f"values {lag} apart are correlated: z={z:.1f} over {n} values"
    # repetition at a distance: components, blocks or signs reused later on
    if n >= 220:
        c = u - 0.5
        f = np.fft.rfft(c, 2 * n)
        ac = np.fft.irfft(f * np.conj(f))[:n]
        lags = np.arange(1, min(n - 100, 1100) + 1)
        z = ac[lags] * 12 / np.sqrt(n - lags)
        k = int(np.abs(z).argmax())
        if abs(z[k]) > 10:
            return f"values {lags[k]} apart are correlated: z={z[k]:.1f} over {n} values"
    # exchangeability: a sample handed over sorted has a rank trend
    tr = 0.0
    m = 0
    for x in xs:
        k = len(x)
        if k >= 5:
            v = np.clip(lw.cdf(np.asarray(x, dtype=float)), 0, 1) - 0.5
            t = np.arange(k) - (k - 1) / 2
            tr += float((v * t).sum() / math.sqrt((t * t).sum() / 12))
            m += 1
    if m and abs(tr) / math.sqrt(m) > 8:
        return f"values follow their position in the sample: z={tr / math.sqrt(m):.1f}"
    return None


def two_sample(x, y):
    x, y = np.sort(np.asarray(x, dtype=float)), np.sort(np.asarray(y, dtype=float))
    al = np.concatenate([x, y])
    d = np.abs(np.searchsorted(x, al, "right") / len(x) - np.searchsorted(y, al, "right") / len(y)).max()
    m = len(x) * len(y) / (len(x) + len(y))
    return float(d), bool(m * d * d > LIM)
