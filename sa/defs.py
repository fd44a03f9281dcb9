"""Mathematical definitions: interpretation of the named tables that specifications refer to.

These are textbook formulas (explicit sums, defining equations), independent of the recurrences
and iterations used in the analysed code.  They interpret atoms ("fn", "def:<name>", args...)."""
import functools
import hashlib
import math


@functools.lru_cache(None)
def _plm(l, m, x):
    """associated Legendre function without Condon-Shortley phase: (1-x^2)^(m/2) d^m/dx^m P_l(x)"""
    if m > l or m < 0 or l < 0:
        return 0.0
    s = 0.0
    for k in range((l - m) // 2 + 1):
        c = (-1) ** k * math.comb(l, k) * math.comb(2 * l - 2 * k, l) * math.factorial(l - 2 * k) // math.factorial(l - 2 * k - m)
        s += c * x ** (l - 2 * k - m)
    return s * max(0.0, 1 - x * x) ** (m / 2.0) / 2.0 ** l


def norm_factor(l, m, norm, inverse):
    f = math.sqrt((2 * l + 1) / (4 * math.pi) * math.factorial(l - m) / math.factorial(l + m)) if 0 <= m <= l else 0.0
    if norm == "ortho":
        g = 1.0
    elif norm == "schmidt":
        g = math.sqrt(4 * math.pi / (2 * l + 1))
    else:
        g = math.sqrt(4 * math.pi)
    return f * (1.0 / g if inverse else g)


def plm(norm, inverse, cs, m, l, x):
    """normalised associated Legendre function at x = cos(theta)"""
    return norm_factor(l, m, norm, inverse) * _plm(l, m, x) * ((-1) ** m if cs else 1)


def dplm(norm, inverse, cs, comp, m, l, t):
    """component 0: d/dtheta Pbar_lm(cos theta); component 1: m Pbar_lm(cos theta) / sin(theta)"""
    f = norm_factor(l, m, norm, inverse) * ((-1) ** m if cs else 1)
    if m > l:
        return 0.0
    x, s = math.cos(t), math.sin(t)
    if comp == 1:
        if m == 0:
            return 0.0
        return f * m * s ** (m - 1) * _poly(l, m, x)
    # sin^m * Q(x): derivative of (1-x^2)^(m/2) * polynomial, explicit
    a = (m * x * s ** (m - 1) if m else 0.0) * _poly(l, m, x) - s ** (m + 1) * _dpoly(l, m, x)
    return f * a


@functools.lru_cache(None)
def _coef(l, m):
    return [(l - 2 * k - m, (-1) ** k * math.comb(l, k) * math.comb(2 * l - 2 * k, l) * math.factorial(l - 2 * k) // math.factorial(l - 2 * k - m)) for k in range((l - m) // 2 + 1)]


def _poly(l, m, x):
    return sum(c * x ** e for e, c in _coef(l, m)) / 2.0 ** l


def _dpoly(l, m, x):
    return sum(c * e * x ** (e - 1) for e, c in _coef(l, m) if e > 0) / 2.0 ** l


def _leg(n, x):
    p0, p1 = 1.0, x
    if n == 0:
        return 1.0
    for k in range(2, n + 1):
        p0, p1 = p1, ((2 * k - 1) * x * p1 - (k - 1) * p0) / k
    return p1


def _roots(f, count, lo=-1.0, hi=1.0):
    """sign changes of f on [lo, hi], bisected"""
    g = max(400, 60 * count)
    xs = [lo + (hi - lo) * (i + 0.37) / (g + 1) for i in range(g + 1)]
    out = []
    for a, b in zip(xs, xs[1:]):
        if (f(a) > 0) != (f(b) > 0):
            for _ in range(80):
                c = 0.5 * (a + b)
                if (f(a) > 0) != (f(c) > 0):
                    b = c
                else:
                    a = c
            out.append(0.5 * (a + b))
    return out if len(out) == count else None


@functools.lru_cache(None)
def gauss(n):
    r = _roots(lambda x: _leg(n, x), n)
    d = lambda x: n * (x * _leg(n, x) - _leg(n - 1, x)) / (x * x - 1)
    return tuple(r), tuple(2 / ((1 - x * x) * d(x) ** 2) for x in r)


@functools.lru_cache(None)
def lobatto(n):
    if n < 2:
        return None
    d = lambda x: (x * _leg(n - 1, x) - _leg(n - 2, x)) * 1.0
    r = [-1.0] + (_roots(d, n - 2) if n > 2 else []) + [1.0]
    return tuple(r), tuple(2 / (n * (n - 1) * _leg(n - 1, x) ** 2) for x in r)


@functools.lru_cache(None)
def clenshaw(n):
    if n < 2:
        return None
    N = n - 1
    xs = tuple(math.cos(math.pi - math.pi * j / N) for j in range(n))
    ws = []
    for j in range(n):
        t = math.pi * j / N
        s = 1.0
        for k in range(1, N // 2 + 1):
            s -= (1.0 if 2 * k == N else 2.0) / (4 * k * k - 1) * math.cos(2 * k * t)
        ws.append((1.0 if j in (0, N) else 2.0) / N * s)
    return xs, tuple(ws)


@functools.lru_cache(None)
def trapezoid(n, periodic=False):
    d = n if periodic else n - 1
    if d < 1:
        return None
    xs = tuple(-1 + 2.0 * j / d for j in range(n))
    return xs, tuple(2.0 / d * (1.0 if periodic or j not in (0, n - 1) else 0.5) for j in range(n))


RULES = {"legendre_gauss_weights": gauss, "lobatto_weights": lobatto, "clenshaw_curtiss_weights": clenshaw, "trapezoidal_weights": trapezoid}


def quad(rule, part, n, j, *opts):
    r = RULES[rule](n, *[bool(o) for o in opts])
    if r is None or not 0 <= j < n:
        return None
    return r[part][j]


def dft(kind, norm, n, j, m):
    """element of the (inverse) real DFT: kind rfftR/rfftI/irfftR/irfftI, ifftR/I, fftR/I"""
    s = {"backward": (1.0, 1.0 / n), "forward": (1.0 / n, 1.0), "ortho": (n ** -0.5, n ** -0.5)}[norm]
    if kind in ("rfftR", "fftR"):
        return s[0] * math.cos(2 * math.pi * j * m / n)
    if kind in ("rfftI", "fftI"):
        return -s[0] * math.sin(2 * math.pi * j * m / n)
    if kind == "ifftR":
        return s[1] * math.cos(2 * math.pi * j * m / n)
    if kind == "ifftI":
        return s[1] * math.sin(2 * math.pi * j * m / n)
    # irfft: j is the mode, m the position
    if j > n // 2:
        return 0.0
    edge = j == 0 or (n % 2 == 0 and j == n // 2)
    if kind == "irfftR":
        return s[1] * (1 if edge else 2) * math.cos(2 * math.pi * j * m / n)
    if edge:
        return None        # imaginary part of a purely real mode: whatever the backend does
    return -2 * s[1] * math.sin(2 * math.pi * j * m / n)


def jn(m, x):
    """Bessel function of the first kind by its periodic integral"""
    n = 96
    return sum(math.cos(m * (2 * math.pi * k / n) - x * math.sin(2 * math.pi * k / n)) for k in range(n)) / n


@functools.lru_cache(64)
def jn_zeros(m, n):
    out, x, h = [], 0.05, 0.05
    f = jn(m, x)
    while len(out) < n:
        y = x + h
        g = jn(m, y)
        if f * g < 0 and y > 0.5:
            a, b, fa = x, y, f
            for _ in range(80):
                c = (a + b) / 2
                fc = jn(m, c)
                if fa * fc <= 0:
                    b = c
                else:
                    a, fa = c, fc
            out.append((a + b) / 2)
        x, f = y, g
    return tuple(out)


DEFS = {"plm": plm, "dplm": dplm, "quad": quad, "jn": jn}


# ------------------------------------------------------------------ sparse filter tensor: an arbitrary one, the same for equal arguments
def _h(*a):
    return int.from_bytes(hashlib.blake2b(repr(a).encode(), digest_size=8).digest(), "big") / 2.0 ** 64


@functools.lru_cache(4096)
def psi_table(K, Ho, Hi, Wi, nnz, srt, opts):
    out, seen = [], set()
    K, Ho, Hi, Wi, nnz = (int(x) for x in (K, Ho, Hi, Wi, nnz))
    if min(K, Ho, Hi, Wi) < 1:
        return None
    for n in range(nnz):
        for r in range(50):
            e = tuple(int(_h(opts, n, r, j) * m) for j, m in enumerate((K, Ho, Hi * Wi)))
            if e not in seen:
                break
        seen.add(e)
        out.append(e + (0.5 + _h(opts, n, "v"),))
    if srt == "rows":          # as precomputed: row by row
        return tuple(sorted(out, key=lambda e: (e[1], e[0]) + e[2:]))
    return tuple(sorted(out)) if srt else tuple(out)


def _psi(sig):
    K, Ho, Hi, Wi, nnz, srt = sig[:6]
    return psi_table(K, Ho, Hi, Wi, nnz, srt, tuple(round(x, 9) if isinstance(x, float) else x for x in sig[6:]))


def psi(part, *a):
    n, t = a[-1], _psi(a[:-1])
    if t is None or not 0 <= n < len(t):
        return None
    return t[int(n)][("ker", "row", "col", "val").index(part)]


def _rows(t):
    return sorted({e[:2] for e in t})


def psirows(*a):
    t = _psi(a)
    return None if t is None else len(_rows(t))


def psiroff(*a):
    t, j = _psi(a[:-1]), a[-1]
    if t is None:
        return None
    r = _rows(t)
    return sum(1 for e in t if e[:2] in r[: int(j)]) if 0 <= j <= len(r) else None


def psisplitoff(part, *a):
    t, k = _psi(a[:-1]), a[-1]
    if t is None or not 0 <= k <= a[0]:
        return None
    if part == "nnz":
        return sum(1 for e in t if e[0] < k)
    return sum(1 for e in _rows(t) if e[0] < k) + int(k)


def psisplitroff(*a):
    t, j = _psi(a[:-1]), a[-1]
    out = []
    for k in range(int(a[0])):
        out.append(0)
        for r in [x for x in _rows(t) if x[0] == k]:
            out.append(out[-1] + sum(1 for e in t if e[:2] == r))
    return out[int(j)] if 0 <= j < len(out) else None


DEFS.update(psi=psi, psirows=psirows, psiroff=psiroff, psisplitoff=psisplitoff, psisplitroff=psisplitroff)


# ------------------------------------------------------------------ neighbourhood pattern of the attention layers: arbitrary, every output point has neighbours
@functools.lru_cache(1024)
@functools.lru_cache(maxsize=4096)
def nbr_table(R, WR, H, W, up, opts):
    """rows sorted list of (row, col): row indexes the coarser grid's latitudes, col = lat * W + lon on the other grid"""
    R, WR, H, W = (int(x) for x in (R, WR, H, W))
    if min(R, WR, H, W) < 1:
        return None
    out = set()
    for r in range(R):
        for j in range(1 + int(2 * _h(opts, r, "n"))):
            out.add((r, int(_h(opts, r, j) * H * W)))
    if up:
        p = max(1, W // WR)
        for ho in range(H):
            for q in range(p):
                out.add((int(_h(opts, ho, q, "r") * R), ho * W + (q + p * int(_h(opts, ho, q, "c") * WR)) % W))
    return tuple(sorted(out))


def _nbr(a):
    return nbr_table(*a[:5], tuple(round(x, 9) if isinstance(x, float) else x for x in a[5:]))


def nbr(part, *a):
    n, t = a[-1], _nbr(a[:-1])
    if t is None or not 0 <= n < len(t):
        return None
    return t[int(n)][0 if part == "row" else 1]


def nbrnnz(*a):
    t = _nbr(a)
    return None if t is None else len(t)


def nbroff(*a):
    t, r = _nbr(a[:-1]), a[-1]
    return None if t is None or not 0 <= r <= a[0] else sum(1 for e in t if e[0] < r)


DEFS.update(nbr=nbr, nbrnnz=nbrnnz, nbroff=nbroff)
