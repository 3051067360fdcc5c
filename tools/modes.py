"""Comparison modes whose expected value needs real arithmetic on top of the exact data in the specification."""
import math
import numpy as np
import vt
from vt import fnum, kern_eval_w, kern_gram, EXTRA_MODES, _vec, _scale


def mode(name):
    def deco(f):
        EXTRA_MODES[name] = f
        return f
    return deco


def close(o, v, tol):
    o, v = np.asarray(o, float), np.asarray(v, float).reshape(-1)
    if len(o) != len(v):
        return "expected %d values, observed %d" % (len(v), len(o))
    bad = ~(np.abs(o - v) <= tol)
    if bad.any():
        i = int(np.argmax(bad))
        return "entry %d: expected %.12g, observed %.12g (tolerance %.1e; %d of %d differ)" % (i, v[i], o[i], tol, int(bad.sum()), len(v))
    return None


@mode("fourier2")
def fourier2(x, o, obs, ctx):
    """second derivative of the trigonometric interpolant with the library's frequencies, uniform nodes"""
    c = _vec(x)
    n = len(c)
    h = float(x["h"])
    nd = h * np.arange(n)
    dp = 2 * math.pi / (n * h)
    p = dp * np.arange(n) - dp * n / 2.0
    L = np.zeros((n, n))
    for l in range(n):
        for j in range(n):
            L[l, j] = -np.sum(np.cos((nd[j] - nd[l]) * p) * p * p) * h * dp / (2 * math.pi)
    return close(o, L.T @ c, 1e-8 * _scale(x) * (1 + np.abs(L).max()) * n)


@mode("extreme")
def extreme(x, o, obs, ctx):
    v = _vec(x)[0]
    locs = [fnum(t) for t in x["locs"]]
    if len(o) != 2 or not abs(o[0] - v) <= 1e-9 * _scale(x):
        return "expected extreme value %.12g, observed %s" % (v, obs[:2])
    if not any(abs(o[1] - t) <= 1e-12 for t in locs):
        return "extreme value %.12g reported at %s, attained at %s" % (v, obs[1], x["locs"])
    return None


@mode("argmax")
def argmax(x, o, obs, ctx):
    v = _vec(x)[0]
    if len(o) != 3 or not abs(o[0] - v) <= 1e-9 * _scale(x):
        return "expected extreme value %.12g, observed %s" % (v, obs[:3])
    if not any(o[1] == t[0] and abs(o[2] - fnum(t[1])) <= 1e-12 for t in x["locs"]):
        return "extreme value reported at %s, attained at %s" % (obs[1:], x["locs"])
    return None


@mode("absval")
def absval(x, o, obs, ctx):
    return close(np.abs(o), _vec(x), 1e-9 * _scale(x))


@mode("kernbasis")
def kernbasis(x, o, obs, ctx):
    g = ctx["g"][0]
    return close(o, np.concatenate([kern_eval_w(g, P / 4.0) for P in x["pts"]]), 1e-10 * g["sc"])


@mode("kernsng")
def kernsng(x, o, obs, ctx):
    g = ctx["g"][0]
    G = kern_gram(g)
    return close(o, x["init"] + 2 * x["scale"] * (G @ _vec(x)), 1e-9 * _scale(x) * (1 + np.abs(G).sum()))


@mode("identity")
def identity(x, o, obs, ctx):
    return close(o, np.eye(x["d"]), fnum(x["tol"]))


@mode("gram")
def gram(x, o, obs, ctx):
    if not x["w"]:
        return None
    d = x["d"]
    w = np.array(x["w"], float) / 2
    if len(o) != d * len(w):
        return "expected %d values, observed %d" % (d * len(w), len(o))
    C = np.asarray(o).reshape(d, -1)
    return close(((C * w) @ C.T).reshape(-1), np.eye(d), 1e-9)


@mode("lsq")
def lsq(x, o, obs, ctx):
    A = np.array(x["A"], float) / np.array(x["D"], float)[:, None]
    w = np.array(x["w"], float) / 2
    y = np.array(x["y"], float)
    N = A.T @ A + np.diag(x["lam"] * w)
    return close(o, np.linalg.solve(N, A.T @ y), 1e-5)


# --------------------------------------------------------------------------- parameterised trains
def basis(g, x4):
    """basis values of one dimension at x4/4"""
    x = x4 / 4.0
    if g["fam"] == "K":
        return np.asarray(kern_eval_w(g, x))
    nd = np.array(g["x"], float)
    if g["fam"] == "L":
        return np.array([np.interp(x, nd, e) for e in np.eye(len(nd))])
    return np.eye(len(nd))[int(np.argmin(np.abs(nd - x)))]


def gram_of(g):
    if g["fam"] == "K":
        return np.asarray(kern_gram(g))
    nd = np.array(g["x"], float)
    w = np.zeros(len(nd))
    w[:-1] += np.diff(nd) / 2
    w[1:] += np.diff(nd) / 2
    return np.diag(w)


class TrainP:
    """a parameterised train: cores[k][j][i] = parameters of entry (i, j)"""

    def __init__(self, gs, r, p):
        self.gs, self.r = gs, r
        self.n = [len(g["x"]) * (2 if g.get("mv") else 1) for g in gs]
        self.d = len(gs)
        self.off = [0]
        for k in range(self.d):
            self.off.append(self.off[-1] + r[k] * r[k + 1] * self.n[k])
        self.p = np.array(p, float)

    def core(self, k, p=None):
        p = self.p if p is None else p
        return p[self.off[k]:self.off[k + 1]].reshape(self.r[k + 1], self.r[k], self.n[k])

    def at(self, B, p=None):
        """the cores at a point, from B: basis values, or for moving centres the coordinate itself"""
        return [np.einsum("jiu,u->ij", self.core(k, p), B[k]) if np.ndim(B[k]) else
                np.einsum("jiu,jiu->ij", self.core(k, p)[:, :, :self.n[k] // 2], self.gauss(k, B[k], p)[0]) for k in range(self.d)]

    def gauss(self, k, x, p=None):
        """values of moving kernels and their derivatives with respect to the centres"""
        g, m = self.gs[k], self.n[k] // 2
        c, w = self.core(k, p)[:, :, m:], g["w"] / 2.0
        e = g["sc"] * np.exp(-((x - c) / w) ** 2)
        return e, e * 2 * (x - c) / w ** 2

    def bases(self, x4):
        return [x4[k] / 4.0 if self.gs[k].get("mv") else basis(self.gs[k], x4[k]) for k in range(self.d)]

    def lr(self, M, k):
        v = np.ones(1)
        for j in range(k):
            v = v @ M[j]
        return v

    def rl(self, M, k):
        v = np.ones(1)
        for j in range(self.d - 1, k, -1):
            v = M[j] @ v
        return v

    def val(self, x4):
        return float(self.lr(self.at(self.bases(x4)), self.d)[0])

    def cgrad(self, x4, k, M=None):
        B = self.bases(x4)
        M = M or self.at(B)
        if np.ndim(B[k]) == 0:
            e, dc = self.gauss(k, B[k])
            return np.einsum("i,j,jiu->jiu", self.lr(M, k), self.rl(M, k), np.concatenate([e, self.core(k)[:, :, :self.n[k] // 2] * dc], axis=2)).reshape(-1)
        return np.einsum("i,j,u->jiu", self.lr(M, k), self.rl(M, k), B[k]).reshape(-1)

    def grad(self, x4):
        return np.concatenate([self.cgrad(x4, k) for k in range(self.d)])

    def hess(self, x4, v):
        h = 0
        v = np.array(v, float)
        out = np.zeros(len(self.p))
        for l in range(self.d):      # the train is linear in every core
            q = TrainP(self.gs, self.r, self.p.copy())
            q.p[self.off[l]:self.off[l + 1]] = v[self.off[l]:self.off[l + 1]]
            g = q.grad(x4)
            g[self.off[l]:self.off[l + 1]] = 0
            out += g
        return out

    def sqn(self, w):
        return sum(w[k] * (self.sqm(k) if self.gs[k].get("mv") else np.einsum("jiu,uv,jiv->", self.core(k), gram_of(self.gs[k]), self.core(k))) for k in range(self.d))

    def sqm(self, k):
        g, m, t = self.gs[k], self.n[k] // 2, 0.0
        b = [g["x"][0] - 1, g["x"][-1] + 2] if g["b"] == 1 else []
        for u in self.core(k).reshape(-1, 2 * m):
            ks = [dict(s=g["sc"], w=g["w"], c=z, cd=1) for z in u[m:]]
            t += float(u[:m] @ _kinner(ks, ks, b) @ u[:m])
        return t

    def sqg(self, w):
        return np.concatenate([(2 * w[k] * np.einsum("jiu,uv->jiv", self.core(k), gram_of(self.gs[k]))).reshape(-1) for k in range(self.d)])


@mode("ktrain")
def ktrain(x, o, obs, ctx):
    T = TrainP(ctx["g"], x["r"], x["p"])
    w = x["what"]
    if w == "val":
        v = np.array([T.val(z) for z in x["xs"]])
    elif w == "grad":
        v = np.concatenate([T.grad(z) for z in x["xs"]])
    elif w == "cgrad":
        v = T.cgrad(x["xs"][0], x["core"] - 1)
    elif w == "lr":
        v = T.lr(T.at(T.bases(x["xs"][0])), x["core"] - 1)
    elif w == "rl":
        v = T.rl(T.at(T.bases(x["xs"][0])), x["core"] - 1)
    elif w == "hess":
        v = T.hess(x["xs"][0], x["v"])
    elif w == "sqn":
        v = np.array([T.sqn(x["w"])])
    elif w == "sqg":
        v = x["g0"] + T.sqg(x["w"])
    return close(o, v, 1e-9 * max(1.0, np.abs(v).max() if len(v) else 1, 4.0 ** T.d))


def ls_obj(T, xs, y, w, reg, lam, core=None):
    e = y - np.array([T.val(z) for z in xs])
    J = float(np.sum(w * e * e) / len(y))
    if reg:
        ww = [0.5 * lam] * T.d
        if core is not None:
            ww = [0.5 * lam if k == core else 0.0 for k in range(T.d)]
        J += T.sqn(ww)
    return J


def als_sweep(T, xs, y, w, lam, rng=None):
    """one sweep: every core in turn replaced by the minimiser of its regularised least-squares problem (perturbed by the
    accuracy an iterative optimiser reaches, when rng is given)"""
    seq = list(range(T.d)) + list(range(T.d - 2, 0, -1))
    for k in seq:
        A = np.array([T.cgrad(z, k) for z in xs])
        G = np.kron(np.eye(T.r[k] * T.r[k + 1]), gram_of(T.gs[k]))
        H = 2 * A.T @ (A * w[:, None]) / len(y) + lam * G
        q = np.linalg.solve(H, 2 * A.T @ (w * y) / len(y))
        if rng is not None:
            q = q + 3e-6 * rng.standard_normal(len(q)) * max(1.0, 1 / math.sqrt(max(1e-6, np.linalg.eigvalsh(H)[0])))
        T.p[T.off[k]:T.off[k + 1]] = q
    return T


@mode("regress")
def regress(x, o, obs, ctx):
    gs, lam, reg = ctx["g"], x["lam"] / 4.0, x["reg"]
    T = TrainP(gs, x["r"], x["p"])
    y = np.array(x["y"], float)
    w = np.array(x["w"], float) if x["w"] else np.ones(len(y))
    ne = int(o[0])
    st, q = np.array(o[1:1 + ne]), np.array(o[1 + ne:])
    if len(q) != len(x["p"]):
        return "the result has %d parameters instead of %d" % (len(q), len(x["p"]))
    if not np.all(np.isfinite(q)) or not np.all(np.isfinite(st)) or ne < 1:
        return "stored values or parameters are not finite numbers"
    als = x["typ"] == "als"
    J0 = ls_obj(T, x["xs"], y, w, reg, lam, 0 if als else None)
    sc = max(1.0, abs(J0))
    if abs(st[0] - J0) > 1e-8 * sc:
        return "first stored objective value is %.12g, the objective at the initial parameters is %.12g" % (st[0], J0)
    Q = TrainP(gs, x["r"], q)
    if not als or not reg:
        for i in range(1, ne):
            if st[i] > st[i - 1] + 1e-8 * sc:
                return "stored objective values increase at %d: %.12g then %.12g" % (i, st[i - 1], st[i])
        J1 = ls_obj(Q, x["xs"], y, w, reg, lam, None)
        if abs(J1 - st[-1]) > 1e-6 * max(sc, 1) and J1 > st[-1]:
            return "the result has objective %.12g, the last stored value is %.12g" % (J1, st[-1])
        if J1 > J0 * (1 + 1e-9) + 1e-9:
            return "the result has objective %.12g, the initial parameters %.12g" % (J1, J0)
    if als and reg:
        Js = []
        for t in range(4):
            T, rng = TrainP(gs, x["r"], x["p"]), np.random.default_rng(t) if t else None
            for _ in range(x["swp"]):
                als_sweep(T, x["xs"], y, w, lam, rng)
            Js.append(ls_obj(T, x["xs"], y, w, True, lam))
        Je, Jo = Js[0], ls_obj(Q, x["xs"], y, w, True, lam)
        if abs(Je - Jo) > 2e-4 * max(1e-3, abs(Je)) + 10 * max(abs(z - Je) for z in Js):
            return "after %d sweeps the objective is %.10g, minimising every core in turn gives %.10g" % (x["swp"], Jo, Je)
    return None


@mode("sgdreg")
def sgdreg(x, o, obs, ctx):
    """stochastic descent: plain steps in the first ten epochs, bias-corrected moments afterwards, over every order of the samples"""
    gs, lam, reg, lr0 = ctx["g"], x["lam"] / 4.0, x["reg"], 1.0 / x["rate"]
    y = np.array(x["y"], float)
    N, E, same = len(y), x["ne"], x["same"]
    w = np.array(x["w"], float) if x["w"] else np.ones(N)
    nt = int(round(N / 1.1))
    ns = int(o[0])
    st, q = np.array(o[1:1 + ns]), np.array(o[1 + ns:])
    if len(q) != len(x["p"]):
        return "the result has %d parameters instead of %d" % (len(q), len(x["p"]))
    if ns != E + 1:
        return "%d stored values after %d epochs" % (ns, E)

    def one(T, i):
        J = w[i] * (y[i] - T.val(x["xs"][i])) ** 2
        return J + T.sqn([0.5 * lam] * T.d) if reg else J

    def grad(T, i):
        g = -2 * w[i] * (y[i] - T.val(x["xs"][i])) * T.grad(x["xs"][i])
        return g + T.sqg([0.5 * lam] * T.d) if reg else g
    best = [np.inf, None]
    sc = max(1.0, np.abs(q).max())

    def walk(e, used, p, m1, m2, hist):
        if len(used) == nt:
            T = TrainP(gs, x["r"], p)
            hist = hist + [sum(one(T, i) for i in used) / nt]
            if e + 1 == E:
                d = max(np.abs(p - q).max() / sc, max(abs(a - b) / max(1.0, abs(a)) for a, b in zip(hist, st[1:])))
                if d < best[0] or best[1] is None:
                    best[0], best[1] = d, p
                return
            return walk(e + 1, (), p, m1, m2, hist)
        done = False
        for i in range(N):
            if i in used or (same and done):
                continue
            done = True
            T = TrainP(gs, x["r"], p)
            g, lr = grad(T, i), lr0 * 0.993 ** e
            if e < 10:
                walk(e, used + (i,), p - lr * g, m1, m2, hist)
            else:
                a, b = 0.9 * m1 + 0.1 * g, 0.999 * m2 + 0.001 * g * g
                walk(e, used + (i,), p - lr * (a / (1 - 0.9 ** (e + 1))) / (np.sqrt(b / (1 - 0.999 ** (e + 1))) + 1e-8), a, b, hist)
            if best[0] < 1e-9:
                return
    T0 = TrainP(gs, x["r"], x["p"])
    e0 = [one(T0, i) for i in range(N)]
    if not (min(e0) - 1e-8 * max(1.0, max(e0)) <= st[0] <= max(e0) * (1 + 1e-8) + 1e-8) or (nt == N and abs(st[0] - np.mean(e0)) > 1e-8 * max(1.0, np.mean(e0))):
        return "first stored value is %.12g, the training error at the initial parameters %.12g" % (st[0], np.mean(e0))
    walk(0, (), np.array(x["p"], float), np.zeros(len(q)), np.zeros(len(q)), [])
    # a diverging run (values that are no numbers) or one whose late steps divide by vanishing gradients decides nothing
    if best[1] is None or not np.all(np.isfinite(best[1])) or np.abs(best[1]).max() > 1e6:
        return None
    if best[0] < (1e-6 if E > 10 else 2e-9):
        return None
    return "no order of the samples leads to the result: nearest candidate differs by %g" % best[0]


@mode("between")
def between(x, o, obs, ctx):
    if len(o) != len(x["lo"]) or any(not a <= v <= b for a, v, b in zip(x["lo"], o, x["hi"])):
        return "expected between %s and %s, observed %s" % (x["lo"], x["hi"], obs)
    return None


@mode("relsmall")
def relsmall(x, o, obs, ctx):
    return None if o[0] <= fnum(x["tol"]) * (o[1] + 1e-6) else "differs by %g from a result of size %g" % (o[0], o[1])


@mode("leobs")
def leobs(x, o, obs, ctx):
    v = float(ctx["out"][x["than"]][0])
    return None if o[0] <= v + fnum(x["tol"]) * (1 + v) else "%g is larger than the %g of %s" % (o[0], v, x["than"])


@mode("cv")
def cv(x, o, obs, ctx):
    gs, lam, kf = ctx["g"], x["lam"] / 4.0, x["kf"]
    y = np.array(x["y"], float)
    N, b, vs = len(y), len(y) // kf, []
    for t in range(4):
        num, rng = 0.0, np.random.default_rng(t) if t else None
        for i in range(kf):
            lo, hi = i * b, (i + 1) * b if i < kf - 1 else N
            tr = [j for j in range(N) if not lo <= j < hi]
            T = als_sweep(TrainP(gs, x["r"], x["p"]), [x["xs"][j] for j in tr], y[tr], np.ones(len(tr)), lam, rng)
            num += sum((y[j] - T.val(x["xs"][j])) ** 2 for j in range(lo, hi))
        vs.append(num / float(np.sum(y * y)))
    v = vs[0]
    return close(o, [v], 2e-4 * max(1e-2, v) + 10 * max(abs(z - v) for z in vs))


# --------------------------------------------------------------------------- optimisers
TRACES = []       # recorded minimisations, for OptTrace.tla: (behaviour, step, trace)


def tern(a, b, rel=1e-9, floor=0.0):
    """is a < b, with a band where rounding could decide"""
    if abs(a - b) <= rel * max(abs(a), abs(b)) + floor:
        return "u"
    return "y" if a < b else "n"


def quad_of(x):
    d = len(x["b"])
    A, b = np.array(x["A"], float).reshape(d, d), np.array(x["b"], float)
    return d, A, b, (lambda z: float(0.5 * z @ A @ z - b @ z)), (lambda z: A @ z - b)


@mode("opt")
def opt(x, o, obs, ctx):
    d, A, b, f, g = quad_of(x)
    c = x["o"]
    x0 = np.array(x["x0"], float)
    ret, minf, xe, nit, rest = int(o[0]), o[1], np.array(o[2:2 + d]), int(o[2 + d]), np.array(o[3 + d:])
    w = 1 + c["sf"] + d * c["sg"] + d * c["sx"]
    if len(rest) != w * nit or nit < 1:
        return "the stored history has %d numbers, %d iterates of %d expected" % (len(rest), nit, w)
    H = rest.reshape(nit, w)
    if list(H[:, 0]) != list(range(nit)):
        return "iterates are not numbered in order"
    F = H[:, 1] if c["sf"] else None
    G = H[:, 1 + c["sf"]:1 + c["sf"] + d] if c["sg"] else None
    X = H[:, w - d:] if c["sx"] else None
    sc = 1 + abs(f(x0)) + float(np.abs(A).sum()) * (1 + float(np.abs(x0).max())) ** 2
    if not np.all(np.isfinite(rest)) or not np.all(np.isfinite(xe)):
        return "non-finite values"
    if abs(minf - f(xe)) > 1e-9 * sc:
        return "the reported minimum %.15g is not the objective %.15g at the reported point" % (minf, f(xe))
    down = not c["bnd"] or c["alg"] == "grad"      # a projected quasi-Newton step need not descend
    if down and minf > f(x0) + 1e-7 * sc:
        return "the result %.12g is worse than the start %.12g" % (minf, f(x0))
    if F is not None and (abs(F[0] - f(x0)) > 1e-9 * sc or abs(F[-1] - minf) > 1e-9 * sc):
        return "stored values start at %.12g and end at %.12g; start value %.12g, result %.12g" % (F[0], F[-1], f(x0), minf)
    if X is not None and (np.abs(X[0] - x0).max() > 1e-12 or np.abs(X[-1] - xe).max() > 1e-12):
        return "stored points do not start at the start or end at the result"
    if X is not None and G is not None:
        for i in range(nit):
            if np.abs(G[i] - g(X[i])).max() > 1e-8 * sc:
                return "stored gradient %d is not the gradient at the stored point" % i
    fs = np.linalg.solve(A, b)
    if c["bnd"]:
        lb, ub = np.array(c["lb"], float), np.array(c["ub"], float)
        if np.any(xe < lb) or np.any(xe > ub):
            return "the result %s is outside the box" % list(xe)
    elif ret in (1, 2, 3):
        tol = max(float(c["ft"]), float(c["xt"]), float(c["gt"])) * 200
        if minf - f(fs) > tol * (1 + abs(f(fs)) + abs(f(x0) - f(fs))):
            return "stopped (code %d) at %.12g, the minimum is %.12g" % (ret, minf, f(fs))
    ev, al, gt, ft, xt = [], c["alg"], float(c["gt"]), float(c["ft"]), float(c["xt"])
    for i in range(nit):
        e = dict(feas="u", same="u", mono="u", ft="u", xt="u", onb="u", gt="u")
        if X is not None:
            e["feas"] = "n" if c["bnd"] and (np.any(X[i] < lb) or np.any(X[i] > ub)) else "y"
            e["onb"] = "y" if c["bnd"] and (np.any(X[i] <= lb) or np.any(X[i] >= ub)) else "n"
            if F is not None:
                e["same"] = "y" if abs(F[i] - f(X[i])) <= 1e-9 * sc else "n"
            gr = g(X[i])
            if al == "grad":
                e["gt"] = tern(math.sqrt(float(gr @ gr)), gt, 1e-6, 1e-13 * sc)
            if i:
                e["xt"] = tern(math.sqrt(float(np.sum((X[i] - X[i - 1]) ** 2))), xt, 1e-9, 1e-15)
        elif not c["bnd"]:
            e["onb"] = "n"
        if F is not None and i:
            if down:
                e["mono"] = "y" if F[i] <= F[i - 1] + 1e-7 * sc else "n"
            df = abs(F[i] - F[i - 1])
            e["ft"] = tern(df / abs(F[i - 1]) if abs(F[i - 1]) > 1e-10 else df, ft, 1e-6, 1e-15)
        ev.append(e)
    TRACES.append((ctx.get("at"), dict(kind="det", alg=al, mi=c["mi"], ret=ret, ev=ev)))
    return None


@mode("wolfe")
def wolfe(x, o, obs, ctx):
    d, A, b, f, g = quad_of(x)
    st, nf, info, nx, gr = o[0], o[1], int(o[2]), np.array(o[3:3 + d]), np.array(o[3 + d:])
    x0, p, al, be = np.array(x["x"], float), np.array(x["p"], float), x["al"] / 8, x["be"] / 8
    if x["box"] and (np.any(nx < np.array(x["lb"])) or np.any(nx > np.array(x["ub"]))):
        return "the new point is outside the box"
    if abs(nf - f(nx)) > 1e-9 * (1 + abs(f(nx))):
        return "the reported value %.12g is not the objective %.12g at the new point" % (nf, f(nx))
    if nf > f(x0) + 1e-9 * (1 + abs(f(x0))):
        return "the new point is worse: %.12g after %.12g" % (nf, f(x0))
    if np.abs(gr - g(nx)).max() > 1e-9 * 1000:
        return "the gradient handed back is not the one at the new point"
    t, dg = st / al, float(g(x0) @ p)
    if not x["box"] and info == 0:
        if np.abs(nx - (x0 + t * p)).max() > 1e-9:
            return "step %.12g does not lead to the new point" % t
        # the search never goes beyond a full step, where the curvature condition may still fail
        if nf > f(x0) + al * t * dg + 1e-9 * (1 + abs(f(x0))) or (t < 1 - 1e-9 and abs(float(g(nx) @ p)) > -be * dg + 1e-9 * (1 + abs(dg))):
            return "the strong Wolfe conditions fail at step %.12g" % t
    return None


@mode("optold")
def optold(x, o, obs, ctx):
    d, A, b, f, g = quad_of(x)
    ret, fv, xe, x0 = int(o[0]), o[1], np.array(o[2:2 + d]), np.array(x["x0"], float)
    lb, ub = np.array(x["lb"], float), np.array(x["ub"], float)
    xs = np.linalg.solve(A, b)
    sc = 1 + abs(f(x0)) + abs(f(xs))
    if abs(fv - f(xe)) > 1e-9 * sc:
        return "the reported value %.12g is not the objective %.12g at the result" % (fv, f(xe))
    if fv > f(x0) + 1e-9 * sc:
        return "the result %.12g is worse than the start %.12g" % (fv, f(x0))
    k = x["kind"]
    if k != "newton" and o[-1] > x["mi"]:
        return "%d gradients with a limit of %d iterations" % (o[-1], x["mi"])
    if k == "newton" and np.abs(xe - xs).max() > 1e-8:
        return "Newton's method ended at %s, the minimiser is %s" % (list(xe), list(xs))
    if k == "gd" and ret == 0 and np.linalg.norm(g(xe)) > 1e-5 * (1 + 1e-6):
        return "gradient descent stopped with gradient norm %.6g" % np.linalg.norm(g(xe))
    if k in ("pg", "bnewton") and (np.any(xe < lb) or np.any(xe > ub)):
        return "the result is outside the box"
    if k == "bbfgs" and ret == 0 and fv - f(xs) > 1e-4 * sc:
        return "stopped at %.10g, the minimum is %.10g" % (fv, f(xs))
    return None


@mode("sgd")
def sgd(x, o, obs, ctx):
    d, n = x["d"], x["n"]
    A, y = np.array(x["A"], float).reshape(n, d), np.array(x["y"], float)
    ret, fv, xe, nit = int(o[0]), o[1], np.array(o[2:2 + d]), int(o[2 + d])
    st = np.array(o[3 + d:3 + d + (nit if x["sf"] else 0)])
    log = np.array(o[3 + d + len(st):]).reshape(-1, 2)
    m = int(round(n / 1.1))
    if not np.all(np.isfinite(xe)):
        return "non-finite result"
    ep = nit - 1 if x["sf"] else nit
    if ep > x["mi"] or ep < 1 or (ret == -1 and ep != x["mi"]):
        return "%d epochs with a limit of %d, code %d" % (ep, x["mi"], ret)
    if x["sf"] and abs(st[-1] - fv) > 1e-12 * (1 + abs(fv)):
        return "the reported value %.12g is not the last stored one %.12g" % (fv, st[-1])
    last = [int(t[0]) for t in log[-n:][:m]] if len(log) >= n else []
    e = 0.5 * (A @ xe - y) ** 2
    if last and abs(np.mean(e[last]) - fv) > 1e-9 * (1 + abs(fv)):
        return "the reported value %.12g is not the training error %.12g at the result" % (fv, np.mean(e[last]))
    TRACES.append((ctx.get("at"), dict(kind="sgd", n=n, m=m, sf=x["sf"], epochs=ep, ret=ret, ev=[dict(s=int(t[0]), g=bool(t[1])) for t in log])))
    return None


# --------------------------------------------------------------------------- cross approximation
CTRACES = []      # recorded runs, for CrossTrace.tla


@mode("xrk")
def xrk(x, o, obs, ctx):
    ctx["xrk"] = [int(t) for t in obs if t]
    return None


@mode("xpts")
def xpts(x, o, obs, ctx):
    ctx["xpts"] = o
    return None


@mode("xranks")
def xranks(x, o, obs, ctx):
    ctx["xranks"] = [int(t) for t in obs]
    if len(o) != len(x["v"]) or (any(a > b for a, b in zip(o, x["v"])) if x["le"] else list(o) != x["v"]):
        return "ranks %s, expected %s %s" % (obs, "at most" if x["le"] else "exactly", x["v"])
    return None


def interp_row(g, x):
    """values of the space's interpolation functionals at x (nearest node, upper one in a tie, for constants)"""
    X = np.array(g["x"], float)
    i = int(min(max(np.searchsorted(X, x, side="right") - 1, 0), len(X) - 2))
    t = (x - X[i]) / (X[i + 1] - X[i])
    w = np.zeros(len(X))
    if g["fam"] == "C":
        w[i + (1 if t >= 0.5 else 0)] = 1
    else:
        w[i], w[i + 1] = 1 - t, t
    return w


def fiber_rows(gs, pts):
    """one row per point: interpolation weights over the product grid of gs"""
    out = []
    for p in pts:
        w = np.array([1.0])
        for g, c in zip(gs, p):
            w = np.kron(w, interp_row(g, c))
        out.append(w)
    return np.array(out)


@mode("xvals")
def xvals(x, o, obs, ctx):
    gs, n, d = ctx["g"], x["n"], len(x["n"])
    P = np.asarray(ctx["xpts"]).reshape(-1, d)
    Tn = np.array(x["v"], float).reshape(n)
    if len(o) != Tn.size or not np.all(np.isfinite(o)):
        return "expected %d finite values" % Tn.size
    V = np.array(o).reshape(n)
    if len(P) == 0:
        return "the function was never evaluated"
    # segments of constant ranks
    seg = []
    if x["api"] == "raw":
        q = np.array(ctx["xrk"]).reshape(-1, d + 2)
        for a in range(len(q)):
            seg.append((int(q[a][0]), int(q[a + 1][0]) if a + 1 < len(q) else len(P), [int(t) for t in q[a][1:]]))
    else:
        seg.append((0, len(P), x["r"]))
    partial = x["api"] != "raw" and x["adapt"] == 1      # ranks unknown after the first setting
    codes, visits, sets = {}, [], []

    def code(k, c):
        X = gs[k]["x"]
        if not (X[0] - 1e-12 <= c <= X[-1] + 1e-12):
            return -1
        if abs(c * 12 - round(c * 12)) < 1e-9:
            return int(round(c * 12)) + 5000
        return codes.setdefault((k, c), 100000 + len(codes))
    for si, (a, b, r) in enumerate(seg):
        no, at = 0, a
        while at < b:
            no += 1
            pos = (no - 1) % (2 * d)
            k = pos if pos < d else 2 * d - 1 - pos
            cnt = r[k] * n[k] * r[k + 1]
            if at + cnt > b:
                if partial:
                    break
                return "the evaluations of core %d are incomplete (%d of %d fiber points)" % (k, b - at, cnt)
            pt = P[at:at + cnt]
            visits.append(dict(seg=si + 1, no=no, r=r, pts=[list(t) for t in sorted({tuple(code(j, c) for j, c in enumerate(p)) for p in pt})]))
            sets.append((k, pos < d, pt))
            at += cnt
            if partial and no == 2 * d:
                break
    # which right sets the (last) rank setting started from
    last = [i for i, v in enumerate(visits) if v["seg"] == (1 if partial else len(seg))]
    good = True
    for i in last[:d - 1]:
        k, _, pt = sets[i]
        R = fiber_rows(gs[k + 1:], sorted({tuple(p[k + 1:]) for p in pt}))
        U = Tn.reshape(int(np.prod(n[:k + 1])), -1)
        su = np.linalg.svd(U, compute_uv=False)
        rho = int(np.sum(su > 1e-9 * su[0]))
        sm = np.linalg.svd(U @ R.T, compute_uv=False)
        if len(sm) < rho or sm[rho - 1] < 1e-2 * su[0] or su[rho - 1] < 1e-2 * su[0]:
            good = False
    sc = max(1.0, float(np.abs(Tn).max()))
    # the last visit is core 0: there the result interpolates
    if not partial and x["adapt"] == 0:
        k, _, pt = sets[-1]
        R = fiber_rows(gs[1:], sorted({tuple(p[1:]) for p in pt}))
        e = np.abs((V.reshape(n[0], -1) - Tn.reshape(n[0], -1)) @ R.T).max()
        if not e <= 1e-7 * sc:
            return "the approximation does not interpolate the last fibers (error %.3g)" % e
    if good:
        tol = 1e-7 * sc + (float(x["rt"]) * 100 * float(np.linalg.norm(Tn)) if x["adapt"] else 0)
        e = np.abs(V - Tn).max()
        if not e <= tol:
            return "a function of the space whose ranks are covered is not recovered (error %.3g, ranks %s)" % (e, seg[-1][2])
    ctx["stat"] = ctx.get("stat", 0) + good
    if not partial:
        R0 = [[[int(c) + 5000 for c in p] for p in s] for s in x["R0"]]
        CTRACES.append((ctx.get("at"), dict(d=d, R0=R0, mi=x["mi"], kick=x["kick"], mr=x["mr"], adapt=x["adapt"], exact=int(good and float(x["ct"]) >= 1e-6 and len(seg) == 1), good=int(good),
                                            nodes=[[12 * t + 5000 for t in g["x"]] for g in gs], got=ctx["xranks"], v=visits)))
    return None


@mode("rowset")
def rowset(x, o, obs, ctx):
    """rows in any order"""
    w = x["w"]
    exp = sorted(tuple(round(t / x["den"], 9) for t in r) for r in x["v"])
    if len(o) % w:
        return "rows of %d numbers expected, %d numbers seen" % (w, len(o))
    got = sorted(tuple(round(float(t), 9) for t in o[i:i + w]) for i in range(0, len(o), w))
    return None if exp == got else "rows %s, expected %s" % (got[:6], exp[:6])


# --------------------------------------------------------------------------- dense linear algebra
@mode("sqrtof")
def sq(x, o, obs, ctx):
    v = math.sqrt(x["v"] / float(x.get("den", 1)))
    return close(o, [v], 1e-11 * (1 + v))


@mode("stash")
def stash(x, o, obs, ctx):
    ctx.setdefault("stash", {})[x["k"]] = np.array(o, float)
    return None


def _orth(Q, what):
    e = np.abs(Q.T @ Q - np.eye(Q.shape[1])).max() if Q.size else 0
    return None if e <= 1e-10 else "%s not orthonormal (off by %.1e)" % (what, e)


@mode("fac")
def fac(x, o, obs, ctx):
    A = np.array(x["v"], float).reshape(x["r"], x["c"])
    m, n = A.shape
    what, s = x["what"], ctx.pop("stash", {})
    o = np.array(o, float)
    if not np.all(np.isfinite(o)):
        return "not finite"
    sv = np.linalg.svd(A, compute_uv=False)
    nrm = 1 + sv[0]
    rank = int((sv > 1e-9 * nrm).sum())

    def eq(P, Q, w, tol=1e-9):
        if P.shape != Q.shape:
            return "%s: wrong size" % w
        e = np.abs(P - Q).max() if P.size else 0
        return None if e <= tol * nrm else "%s fails by %.2e" % (w, e)
    if what == "qr":
        if o.size != A.size:
            return "wrong size"
        Q = o.reshape(m, n)
        return _orth(Q, "Q") or eq(Q @ (Q.T @ A), A, "A = Q Q'A")
    if what == "rq":
        Q, Bn = s["Q"].reshape(m, n), o.reshape(-1, m)
        B0 = np.array(x["more"], float).reshape(-1, m)
        return _orth(Q.T, "rows of Q") or eq(Bn @ Q, B0 @ A, "(B R) Q = B A", 1e-8)
    if what in ("svd", "tsvd"):
        S = s["S"]
        k = len(S)
        if (np.diff(S) > 1e-10 * nrm).any() or (S < 0).any():
            return "singular values out of order: %s" % S
        if what == "svd":
            U, VT = s["U"].reshape(m, m), o.reshape(n, n)
            return eq(S, sv, "singular values") or _orth(U, "U") or _orth(VT.T, "V") or eq((U[:, :k] * S) @ VT[:k], A, "U S V'")
        U, VT, dl = s["U"].reshape(m, k), o.reshape(k, n), fnum(x["more"][0])
        tail = np.array([(sv[j:] ** 2).sum() for j in range(len(sv) + 1)])     # squared error when j values are kept
        eps = 1e-9 * nrm * nrm
        ok = [j for j in range(1, len(sv) + 1) if (j == len(sv) or tail[j] < dl + eps) and (j == 1 or tail[j - 1] >= dl - eps)]
        if int(s["rank"][0]) != k or k not in ok:
            return "rank %d kept, rule gives %s" % (k, ok)
        return eq(S, sv[:k], "singular values") or _orth(U, "U") or _orth(VT.T, "V") or (None if abs(((U * S) @ VT - A).ravel() @ ((U * S) @ VT - A).ravel() - tail[k]) <= 1e-8 * nrm * nrm else "truncation error is not the discarded part")
    if what == "pinv":
        if int(s["rank"][0]) != rank:
            return "rank %d reported, is %d" % (int(s["rank"][0]), rank)
        P = np.linalg.pinv(A, rcond=1e-9)
        return close(o, P.ravel(), 1e-7 * (1 + np.abs(P).max()))
    if what == "lls":
        if sv[-1] < 1e-6 * nrm:
            return None                      # rank decisions at round-off level are not claimed
        y = np.array(x["more"], float)
        z = np.linalg.lstsq(A, y, rcond=1e-9)[0]
        return close(o, z, 1e-7 * (1 + np.abs(z).max() + np.abs(y).max()))
    if what == "maxvol":
        if rank < n:
            return None
        rows = [int(t) for t in s["rows"]]
        if int(s["ret"][0]) != 0 or len(set(rows)) != n or not all(0 <= t < m for t in rows):
            return "rows %s (return %d)" % (rows, int(s["ret"][0]))
        inv = o.reshape(n, n)
        e = np.abs(A[rows] @ inv - np.eye(n)).max()
        if e > 1e-8 * nrm * (1 + np.abs(inv).max()):
            return "not the inverse of the chosen rows (off by %.1e)" % e
        c = np.abs(A @ inv).max()
        return None if c <= 1.01 + 1e-8 * nrm * (1 + np.abs(inv).max()) else "chosen rows %s are not dominant: coefficient %.4f" % (rows, c)
    if what == "skel":
        r = len(o)
        cols0 = [int(t) for t in x["more"]]
        st = np.linalg.svd(A[:, cols0], compute_uv=False)
        if rank < r or len(set(cols0)) < r or st[-1] < 1e-6 * nrm:
            return None                      # the start columns do not see the whole matrix
        rows, cols = [int(t) for t in s["rows"]], [int(t) for t in o]
        if len(set(rows)) != r or len(set(cols)) != r or not all(0 <= t < m for t in rows) or not all(0 <= t < n for t in cols):
            return "rows %s columns %s" % (rows, cols)
        if int(s["ret"][0]) != 1:
            return "did not converge on a matrix of exactly this rank (return %d)" % int(s["ret"][0])
        X = A[np.ix_(rows, cols)]
        if np.linalg.cond(X) > 1e8:
            return "the chosen cross is singular"
        bad = eq(A[:, cols] @ np.linalg.solve(X, A[rows]), A, "skeleton of the chosen rows and columns", 1e-7)
        if not bad and "full" in s:
            bad = eq(s["full"].reshape(m, n), A, "reconstructed matrix", 1e-7) or (None if int(s["crank"][0]) == r else "cross rank %d" % int(s["crank"][0]))
        return bad
    return "unknown"


@mode("qfac")
def qfac(x, o, obs, ctx):
    """factorisations of matrices of functions: unfolded with the square roots of the integration weights they are
    factorisations of ordinary matrices. cols: (row, node) by column; rows: row by (column, node)"""
    r, c, n = x["r"], x["c"], len(x["w"])
    sw = np.sqrt(np.array(x["w"], float) / 2)
    A0 = np.array(x["v"], float).reshape(c, r, n)               # [column, row, node]
    what, s = x["what"], ctx.pop("stash", {})
    o = np.array(o, float)
    if not np.all(np.isfinite(o)):
        return "not finite"

    def cols(a):
        return (a * sw).reshape(a.shape[0], -1).T               # (row node) x column

    def rows(a):
        return (a * sw).transpose(1, 0, 2).reshape(a.shape[1], -1)
    A = cols(A0)
    sv = np.linalg.svd(A, compute_uv=False)
    nrm = 1 + sv[0]

    def eq(P, Q, w, tol=1e-8):
        if P.shape != Q.shape:
            return "%s: wrong size" % w
        e = np.abs(P - Q).max() if P.size else 0
        return None if e <= tol * nrm else "%s fails by %.2e" % (w, e)

    def orth(M, w, tol=1e-8):
        e = np.abs(M.T @ M - np.eye(M.shape[1])).max() if M.size else 0
        return None if e <= tol else "%s not orthonormal (off by %.1e)" % (w, e)
    if what in ("qr", "hq", "gs", "zqr"):
        R = s["R"].reshape(c, c).T
        Qc = cols(o.reshape(c, r, n))
        ill = max(1.0, sv[0] / sv[-1]) if what == "gs" else 1.0
        return orth(Qc, "columns of Q", 1e-8 * ill) or eq(Qc @ R, A, "A = Q R") or eq(np.tril(R, -1), 0 * R, "R upper triangular")
    if what in ("lq", "hl"):
        L = s["R"].reshape(r, r).T
        Qr = rows(o.reshape(c, r, n))
        return orth(Qr.T, "rows of Q") or eq(L @ Qr, rows(A0), "A = L Q") or eq(np.triu(L, 1), 0 * L, "L lower triangular")
    if what in ("svd", "tsvd"):
        S, k = s["S"], int(s["rank"][0])
        U, VT = cols(o.reshape(k, r, n)), s["VT"].reshape(c, k).T
        if len(S) != k or (np.diff(S) > 1e-10 * nrm).any() or (S < 0).any():
            return "singular values %s" % S
        tail = np.array([(sv[j:] ** 2).sum() for j in range(len(sv) + 1)])
        full = np.zeros(c)
        full[:len(sv)] = sv
        if what == "tsvd":
            dl, eps = fnum(x["more"][0]), 1e-8 * nrm * nrm
            T = [(full[j:] ** 2).sum() for j in range(c + 1)]
            ok = [j for j in range(1, c + 1) if (j == c or T[j] < dl + eps) and (j == 1 or T[j - 1] >= dl - eps)]
            if k not in ok:
                return "rank %d kept, rule gives %s" % (k, ok)
        D = (U * S) @ VT - A
        big = S > 1e-7 * nrm
        return eq(S, full[:k], "singular values") or orth(U[:, big], "U") or orth(VT.T, "V") or (None if abs((D ** 2).sum() - (full[k:] ** 2).sum()) <= 1e-7 * nrm * nrm else "product differs from A by more than what was discarded")
    # pointwise: functions evaluated at a pivot
    xs = np.array(x["x"], float)

    def ev(a, i, t):                                            # row i of the array a at t, all columns
        if x["fam"] == "L":
            return np.array([np.interp(t, xs, a[j, i]) for j in range(a.shape[0])])
        return a[:, i, int(np.argmin(np.abs(xs - t)))]
    pi, px = [int(t) for t in s["pi"]], s["px"]
    if not all(0 <= i < r for i in pi) or not all(xs[0] <= t <= xs[-1] for t in px):
        return "pivots out of range: %s %s" % (pi, px)
    full = sv[-1] > 1e-6 * nrm and len(sv) == c
    if what == "lu":
        U = s["U"].reshape(c, c).T
        L0 = o.reshape(c, r, n)
        P = np.array([ev(L0, pi[k], px[k]) for k in range(c)])   # L at the pivots: unit lower triangular
        if full and (int(s["ret"][0]) != 0 or np.abs(L0).max() > 1 + 1e-8):
            return "return %d, largest entry of L %g" % (int(s["ret"][0]), np.abs(L0).max())
        return eq((cols(L0) @ U), A, "A = L U") or (eq(np.triu(P), np.eye(c), "L at the pivots is unit lower triangular") if full else None)
    if what == "mv":
        if not full:
            return None
        inv = s["inv"].reshape(c, c).T if "inv" in s else o.reshape(c, c).T
        P = np.array([ev(A0, pi[k], px[k]) for k in range(c)])
        if len({(i, t) for i, t in zip(pi, px)}) < c or not all(np.abs(xs - t).min() < 1e-9 for t in px):
            return "pivots %s %s" % (pi, list(px))
        cd = np.abs(inv).max() * nrm
        if np.abs(P @ inv - np.eye(c)).max() > 1e-8 * cd:
            return "not the inverse of the chosen rows"
        m = np.abs(np.tensordot(A0, inv, axes=(0, 0))).max()
        return None if m <= 1.01 + 1e-8 * cd else "chosen rows are not dominant: coefficient %.4f" % m
    return "unknown"


@mode("cyc")
def cyc(x, o, obs, ctx):
    """group ring elements: entry m weights exp(2 pi i m / L); compared as interleaved real and imaginary parts"""
    E = np.asarray(x["e"], float)
    L = E.shape[1]
    z = E @ np.exp(2j * math.pi * np.arange(L) / L) / float(x["den"])
    v = np.empty(2 * len(z))
    v[0::2], v[1::2] = z.real, z.imag
    return close(o, v, 1e-9 * (1 + np.abs(E).sum(axis=1).max() / float(x["den"])))


@mode("roots")
def roots(x, o, obs, ctx):
    """sums of Gaussian integers times roots of unity of order n; compared as interleaved real and imaginary parts"""
    T = np.asarray(x["t"], float)
    z = ((T[:, :, 0] + 1j * T[:, :, 1]) * np.exp(2j * math.pi * T[:, :, 2] / x["n"])).sum(axis=1) / float(x["den"])
    v = np.empty(2 * len(z))
    v[0::2], v[1::2] = z.real, z.imag
    return close(o, v, 1e-8 / float(x["den"]))


@mode("exactq")
def exactq(x, o, obs, ctx):
    """values that survive unchanged: the double nearest to numerator / denominator, exactly"""
    return close(o, [float(t) / float(x["den"]) for t in x["v"]], 0.0)


@mode("relq")
def relq(x, o, obs, ctx):
    v = [math.ldexp(float(t) / float(x["den"]), x["ex"]) for t in x["v"]]
    if len(o) != len(v):
        return "expected %d values, observed %d" % (len(v), len(o))
    for a, b in zip(v, o):
        if not abs(a - b) <= fnum(x["tol"]) * abs(a):
            return "expected %.17g, observed %.17g (relative tolerance %s)" % (a, b, x["tol"])
    return None


@mode("pow10")
def pow10(x, o, obs, ctx):
    v = [10.0 ** (float(t) / float(x["den"])) for t in x["v"]]
    if len(o) != len(v):
        return "expected %d values, observed %d" % (len(v), len(o))
    for a, b in zip(v, o):
        if not abs(a - b) <= 1e-12 * a:
            return "expected %.17g, observed %.17g" % (a, b)
    return None


def trig_d2(n, h):
    """second-derivative matrix of the trigonometric interpolant on n uniform nodes of spacing h"""
    nd = h * np.arange(n)
    dp = 2 * math.pi / (n * h)
    p = dp * np.arange(n) - dp * n / 2.0
    return np.array([[-np.sum(np.cos((nd[j] - nd[l]) * p) * p * p) * h * dp / (2 * math.pi) for l in range(n)] for j in range(n)])


@mode("trig2")
def trig2(x, o, obs, ctx):
    """sum over the listed dimensions (all, when none is listed) of the periodic second derivative"""
    n = x["n"]
    T = _vec(x).reshape(n)
    tot = np.zeros_like(T)
    big = 1.0
    for k in (x["dims"] or range(len(n))):
        L = trig_d2(n[k], float(x["h"][k]))
        big = max(big, np.abs(L).sum(axis=1).max())
        tot = tot + np.moveaxis(np.tensordot(L, T, axes=(1, k)), 0, k)
    return close(o, tot, 1e-8 * _scale(x) * big * len(n))


def _dmrg_reach(P, Z):
    """one left-right-left pass of two-site projections of P with the right spaces of Z: the tensor it can represent,
    or None when a singular value is too close to the noise to tell"""
    n, d = P.shape, P.ndim
    top = np.linalg.norm(P)

    def basis(M, rows):     # orthonormal basis of the column (row) space, None when its dimension is not clear-cut
        u, s, vt = np.linalg.svd(M, full_matrices=False)
        t = s[0] if len(s) and s[0] > 0 else 1.0
        if np.any((s > 1e-11 * t) & (s < 1e-5 * t)) or t < 1e-6 * top:
            return None
        k = int(np.sum(s > 1e-8 * t))
        return vt[:k] if rows else u[:, :k]
    R = {}
    for k in range(1, d):   # right space of Z at bond k
        R[k] = basis(Z.reshape(int(np.prod(n[:k])), -1), True)
        if R[k] is None:
            return None
    R[d] = np.ones((1, 1))
    U = {0: np.ones((1, 1))}
    for i in range(d - 1):  # bond i: dims 0..i | i+1..
        L = np.kron(U[i], np.eye(n[i]))
        V = np.kron(np.eye(n[i + 1]), R[i + 2])
        M = L.T @ P.reshape(int(np.prod(n[:i + 1])), -1) @ V.T
        b = basis(M, False)
        if b is None:
            return None
        U[i + 1] = L @ b
    V = {d: np.ones((1, 1))}
    for i in range(d - 2, -1, -1):
        L = np.kron(U[i], np.eye(n[i]))
        W = np.kron(np.eye(n[i + 1]), V[i + 2])
        M = L.T @ P.reshape(int(np.prod(n[:i + 1])), -1) @ W.T
        b = basis(M, True)
        if b is None:
            return None
        V[i + 1] = b @ W
    Q = P.reshape(n[0], -1) @ V[1].T @ V[1]
    return Q.reshape(n)


@mode("dmrg")
def dmrg(x, o, obs, ctx):
    n = x["n"]
    v = _vec(x)
    if len(v) != len(o):
        return "expected %d values, observed %d" % (len(v), len(o))
    if not np.all(np.isfinite(o)):
        return "non-finite values"
    W = np.array([1.0])
    for w in x["w"]:
        W = np.kron(W, np.array(w, float) / 2)
    q = np.sqrt(W)
    P = (v * q).reshape(n)
    nrm = np.linalg.norm(P)
    err = np.linalg.norm((o * q).reshape(n) - P)
    eps = math.sqrt(fnum(x["eps"]))
    if len(n) > 2:
        Z = (np.asarray(x["gv"], float) / x["gden"] * q).reshape(n)
        Q = _dmrg_reach(P, Z)
        if Q is None or np.linalg.norm(Q - P) > 1e-9 * nrm:
            return None
    if not err <= eps * (1 + 1e-7) * 2 * (len(n) - 1) + 1e-7 * _scale(x) * math.sqrt(float(np.sum(W))):
        return "error %.6g of the compressed result (norm %.6g, tolerance sqrt(%s))" % (err, nrm, x["eps"])
    return None


# --------------------------------------------------------------------------- discrete tensor trains
@mode("ttl2")
def ttl2(x, o, obs, ctx):
    v = np.array(x["v"], float)
    if len(o) != len(v):
        return "expected %d values, observed %d" % (len(v), len(o))
    e, nrm = np.linalg.norm(o - v), np.linalg.norm(v)
    lim = fnum(x["eps"]) * nrm * (1 + 1e-9) + 1e-12 * (nrm + x.get("sc", 0))
    return None if e <= lim else "relative error %.3g, allowed %s" % (e / nrm if nrm else e, x["eps"])


@mode("ttrank")
def ttrank(x, o, obs, ctx):
    """no rank beyond what the singular values of the unfolding (of the exact tensor) require"""
    n = x["n"]
    d = len(n)
    v = np.array(x["v"], float).reshape(n)
    nrm = np.linalg.norm(v)
    delta = fnum(x["eps"]) * nrm / math.sqrt(d - 1)
    lim = [1]
    for k in range(1, d):
        sv = np.linalg.svd(v.reshape(int(np.prod(n[:k])), -1), compute_uv=False)
        r = len(sv)
        while r > 1 and np.linalg.norm(sv[r - 1:]) < delta * (1 - 1e-6) - 1e-13 * nrm:
            r -= 1
        lim.append(r)
    lim.append(1)
    lim = [min(a, b) for a, b in zip(lim, x.get("r", lim))]
    if len(o) != d + 1 or o[0] != 1 or o[d] != 1 or any(not 1 <= a <= b for a, b in zip(o, lim)):
        return "ranks %s, needed at most %s" % (obs, lim)
    return None


@mode("ttgram")
def ttgram(x, o, obs, ctx):
    """consecutive Gram matrices, each of a size not above the rank, must be identities"""
    def fits(i, r):
        if not r:
            return i == len(o)
        return any(i + q * q <= len(o) and np.abs(o[i:i + q * q].reshape(q, q) - np.eye(q)).max() < 1e-10 and fits(i + q * q, r[1:]) for q in range(r[0], 0, -1))
    return None if fits(0, list(x["r"])) else "cores are not orthonormal"


@mode("ttnorm")
def ttnorm(x, o, obs, ctx):
    v = math.sqrt(x["v"])
    # the square is accumulated: cancellation down to roundoff of the intermediate scale
    return None if len(o) == 1 and abs(o[0] - v) <= 1e-11 * x["sc"] + (1e-7 * x["sc"] if v == 0 else 1e-12 * x["sc"] ** 2 / v) else "norm %s, expected %.12g" % (obs, v)


# ---- Gaussian kernel expansions (Kern.tla): kernels given one by one as exact data ----
def _ks(ks):
    return (np.array([float(k["s"]) for k in ks]), np.array([k["w"] / 2.0 for k in ks]), np.array([k["c"] / float(k["cd"]) for k in ks]))


def _kbasis(ks, x):
    s, w, c = _ks(ks)
    return s * np.exp(-((x - c) / w) ** 2)


def _kint(ks, b):
    s, w, c = _ks(ks)
    if not b:
        return s * w * math.sqrt(math.pi)
    return s * w * math.sqrt(math.pi) / 2 * (vt._erf((b[1] - c) / w) - vt._erf((b[0] - c) / w))


def _kinner(ka, kb, b):
    """integrals of products of two Gaussians over [b0, b1] (or the whole line)"""
    s1, w1, c1 = _ks(ka)
    s2, w2, c2 = _ks(kb)
    W1, W2 = w1[:, None] ** 2, w2[None, :] ** 2
    S = W1 + W2
    pre = s1[:, None] * s2[None, :] * np.exp(-(c1[:, None] - c2[None, :]) ** 2 / S)
    w = np.sqrt(W1 * W2 / S)
    m = (c1[:, None] * W2 + c2[None, :] * W1) / S
    if not b:
        return pre * w * math.sqrt(math.pi)
    return pre * w * math.sqrt(math.pi) / 2 * (vt._erf((b[1] - m) / w) - vt._erf((b[0] - m) / w))


def _q(b):
    return [z / 4.0 for z in b]


def _meet(a, b):
    a, b = _q(a), _q(b)
    return b if not a else a if not b else [max(a[0], b[0]), min(a[1], b[1])]


@mode("kbounds")
def kbounds(x, o, obs, ctx):
    return close(o, _q(x["b"]) if x["b"] else [-1.7976931348623157e308, 1.7976931348623157e308], 1e-12)


@mode("kx")
def kx(x, o, obs, ctx):
    ks, v = x["ks"], np.array(x["v"], float) / x["den"]
    s, w, c = _ks(ks)
    pts = [p / 4.0 for p in x["pts"]]
    big = 1 + np.abs(v).sum() * np.abs(s).max()
    wh = x["what"]
    if wh == "params":
        return close(o, np.concatenate([v, c]) if x["mc"] else v, 1e-12 * (1 + np.abs(v).max() + np.abs(c).max()))
    if wh == "eval":
        return close(o, [_kbasis(ks, p) @ v for p in pts], 1e-11 * big)
    if wh == "deriv":
        return close(o, [(_kbasis(ks, p) * (-2 * (p - c) / w ** 2)) @ v for p in pts], 1e-10 * big / w.min())
    if wh == "pgrad":
        return close(o, np.concatenate([np.concatenate([_kbasis(ks, p), v * _kbasis(ks, p) * 2 * (p - c) / w ** 2] if x["mc"] else [_kbasis(ks, p)]) for p in pts]), 1e-10 * big / w.min())
    if wh == "int":
        return close(o, [_kint(ks, _q(x["b"])) @ v], 1e-10 * big * w.max())
    if wh == "norm":
        q = v @ _kinner(ks, ks, _q(x["b"])) @ v
        tol = 1e-12 * big * big * w.max()
        return close(np.array(o) ** 2, [max(q, 0)], 10 * tol + 1e-10 * abs(q)) if q > 100 * tol else None
    if wh == "inner":
        v2 = np.array(x["v2"], float) / x["den2"]
        big2 = 1 + np.abs(v2).sum() * max(abs(k["s"]) for k in x["ks2"])
        return close(o, [v @ _kinner(ks, x["ks2"], _meet(x["b"], x["b2"])) @ v2], 1e-10 * big * big2 * w.max())
    if wh == "sng":
        return close(o, np.array(x["z"], float) + 2 * x["scale"] * (_kinner(ks, ks, _q(x["b"])) @ v), 1e-10 * (4 + big * np.abs(s).max() * w.max() * 6))
    if wh == "amax":
        f = [abs(float(_kbasis(ks, p) @ v)) for p in pts]
        if len(o) != 2 or not abs(o[0] - max(f)) <= 1e-11 * big:
            return "largest absolute value %.12g, observed %s" % (max(f), obs)
        if not any(o[1] == p and abs(z - max(f)) <= 1e-11 * big for p, z in zip(pts, f)):
            return "largest absolute value reported at %s" % obs[1]
        return None
    raise KeyError(wh)


@mode("kfit")
def kfit(x, o, obs, ctx):
    """least-squares fit of a line over the practical interval: no coefficients do better"""
    ks = x["ks"]
    n = len(ks)
    s, w, c = _ks(ks)
    if len(o) != (2 * n if x["mc"] else n):
        return "%d parameters observed" % len(o)
    if x["mc"] and (m := close(o[n:], c, 1e-12 * 10)):
        return "centres: " + m
    z = np.linspace(x["lo"] / 4.0, x["hi"] / 4.0, 100 * n)
    A = np.array([_kbasis(ks, p) for p in z])
    y = x["a"] * z + x["f"]
    if np.linalg.cond(A) > 1e9:
        return None          # (nearly) coinciding kernels: the fit is not determined
    best = np.linalg.lstsq(A, y, rcond=None)[0]
    r0, r1 = np.linalg.norm(A @ best - y), np.linalg.norm(A @ np.array(o[:n]) - y)
    if not r1 <= r0 * (1 + 1e-6) + 1e-6 * (1 + np.linalg.norm(y)):
        return "residual of the fit %.9g, attainable %.9g" % (r1, r0)
    return None


@mode("kraw")
def kraw(x, o, obs, ctx):
    """the formulas on plain numbers; the second argument is the squared width"""
    ks = [dict(s=x["s"][i], w=2 * math.sqrt(x["w"][i] / 2.0), c=x["c"][i], cd=4) for i in (0, 1)]
    b, p = _q(x["b"]), x["x"] / 4.0
    e = _kbasis(ks[:1], p)[0]
    d = e * -2 * (p - x["c"][0] / 4.0) / (x["w"][0] / 2.0)
    return close(o, [e, d, _kint(ks[:1], b)[0], _kinner(ks[:1], ks[1:], b)[0, 0]], 1e-10 * 40)


# --------------------------------------------------------------------------- probability
@mode("rat")
def rat(x, o, obs, ctx):
    """exact rationals; x.p: power of the cancellation (scale of f and its derivatives over |f(z)|) they went through"""
    v = [a / b for a, b in x["v"]]
    sc = max([1.0] + [a / b for a, b in x["rs"]])
    amp = sc if x["p"] == 0 else (1 + sc / abs(x["fz"][0] / x["fz"][1])) ** x["p"]
    return close(o, v, 1e-11 * amp * max([1.0] + [abs(t) for t in v]))


@mode("gauss")
def gauss(x, o, obs, ctx):
    """the normal density with mean b and covariance M M^T at M z/4 + b, its log-gradient and log-Hessian (the library
    represents the density by adaptively refined linear elements of accuracy 1e-5)"""
    M = np.array(x["M"], float)
    z = np.array(x["z"], float) / 4
    d = len(z)
    I = np.linalg.inv(M)
    if x["what"] == "pdev":
        det = abs(np.linalg.det(M))
        return close(o, [math.exp(-0.5 * z @ z) * (2 * math.pi) ** (-d / 2) / det], 1e-5 / det)
    if x["what"] == "pdlg":
        return close(o, -I.T @ z, 1e-3 * (1 + np.abs(I).sum()))
    return close(o, (-I.T @ I).T, 1e-2 * (1 + np.abs(I).sum() ** 2))


@mode("gmom")
def gmom(x, o, obs, ctx):
    """sample moments, eight standard errors"""
    M = np.array(x["M"], float)
    C = M @ M.T
    n = x["cnt"]
    o = np.array(o, float)
    if x["k"] == "mean":
        e, s = np.array(x["b"], float), np.sqrt(np.diag(C) / n)
    else:
        e, s = C.T.reshape(-1), np.sqrt((np.outer(np.diag(C), np.diag(C)) + C * C).reshape(-1) / n)
    bad = np.abs(o - e) > 8 * s
    return None if not bad.any() else "sample %s %s, expected %s +- %s" % (x["k"], o.tolist(), e.tolist(), s.tolist())


@mode("norm1")
def norm1(x, o, obs, ctx):
    from statistics import NormalDist
    N = NormalDist()
    mean, sd, q, t = x["mean"], x["sd"] / 2.0, x["q"] / 1024.0, 2.0 ** -x["e"]
    z = x["z"] / 8.0
    c = 0.5 * math.erfc(-z / math.sqrt(2))
    back = mean + sd * (N.inv_cdf(q) if c < 1e-12 or c > 1 - 1e-9 else z)
    v = [c, mean + sd * N.inv_cdf(q), mean + sd * N.inv_cdf(t), mean + sd * N.inv_cdf(1 - t), q, back, N.inv_cdf(q)]
    # a rounding error of the probability moves the quantile of the composition by that much over the density
    tol = [1e-12, 1e-9 * sd, 1e-9 * sd, 1e-9 * sd, 1e-12, 1e-9 * sd + 1e-15 * sd / max(1e-12, math.exp(-z * z / 2) / 2.6), 1e-9]
    for i in range(7):
        r = close([o[i]], [v[i]], tol[i] + 1e-12 * abs(mean))
        if r:
            return ["cdf", "quantile", "lower tail quantile", "upper tail quantile", "cdf of quantile", "quantile of cdf", "standard quantile"][i] + ": " + r
    return None
