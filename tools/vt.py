"""Machinery shared by all checks: build the library and the replay driver from /repo's working tree, run TLC,
replay specification behaviours through the driver, compare what was observed with what the specification says."""
import os, sys, json, math, hashlib, subprocess, shutil, time, fcntl, random, re
from concurrent.futures import ThreadPoolExecutor
import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
TLAJAR = "/opt/veriftools/tla/tla2tools.jar"
NCPU = min(8, os.cpu_count() or 4)


class ModelError(Exception):
    """the machinery itself failed (TLC error, driver misuse): never a verdict about the code"""


def log(*a):
    print(*a, flush=True)


# --------------------------------------------------------------------------- build
def _tree_hash(dirs, exts):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(exts):
                    p = os.path.join(root, f)
                    h.update(os.path.relpath(p, d).encode() + b"\0")
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    return h.hexdigest()[:16]


def build(flavor=None):
    """returns the path of the driver built from the current tree"""
    flavor = flavor or os.environ.get("VT_FLAVOR", "asan")
    os.makedirs(BUILD, exist_ok=True)
    hh = os.path.join(VERIF, "harness")
    key = flavor + "-" + _tree_hash([os.path.join(REPO, "c3"), os.path.join(REPO, "include"), hh], (".c", ".h", "Makefile"))
    out = os.path.join(BUILD, key)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv = os.path.join(out, "driver")
        if not os.path.exists(drv):
            for old in os.listdir(BUILD):
                if old.startswith(flavor + "-") and old != key:
                    shutil.rmtree(os.path.join(BUILD, old), ignore_errors=True)
            san = {"asan": "-fsanitize=address -fno-omit-frame-pointer", "plain": "", "cov": "--coverage -DVT_COV"}[flavor]
            r = subprocess.run(["make", "-C", hh, "-j%d" % NCPU, "REPO=" + REPO, "OUT=" + out, "SAN=" + san],
                               capture_output=True, text=True)
            if r.returncode != 0:
                shutil.rmtree(out, ignore_errors=True)
                raise ModelError("build failed:\n" + r.stdout[-2000:] + r.stderr[-4000:])
    return drv


# --------------------------------------------------------------------------- TLC
def cfg_text(consts, inv=("Emit",), extra="", nxt="Next", init="Init"):
    def val(v):
        if isinstance(v, (set, frozenset, list, tuple)):
            return "{" + ", ".join(val(x) for x in sorted(v, key=str)) + "}"
        if isinstance(v, bool):
            return "TRUE" if v else "FALSE"
        if isinstance(v, int):
            return str(v)
        return '"%s"' % v
    t = "INIT %s\nNEXT %s\nCHECK_DEADLOCK FALSE\n" % (init, nxt)
    if inv:
        t += "INVARIANT " + " ".join(inv) + "\n"
    t += "CONSTANTS\n" + "".join("  %s = %s\n" % (k, val(v)) for k, v in consts.items()) + extra
    return t


def run_tlc(module, work, name, consts, mode, seed, inv=("Emit",), num=100, depth=30, workers=1, timeout=800, extra="", view=None, heap="2g", nxt="Next", init="Init", retry=0):
    """mode 'sim' or 'bfs'. Returns dict(states, distinct, traces, out) ; raises ModelError when TLC fails."""
    os.makedirs(work, exist_ok=True)
    out = os.path.join(work, name + ".jsonl")
    if os.path.exists(out):
        os.remove(out)
    consts = dict(consts)
    if "OutFile" in consts or consts.get("OutFile", None) is None:
        consts["OutFile"] = out
    cfg = os.path.join(work, name + ".cfg")
    with open(cfg, "w") as f:
        f.write(cfg_text(consts, inv, extra, nxt, init))
    md = os.path.join(work, name + ".md")
    os.makedirs(md, exist_ok=True)
    cmd = ["java", "-Djava.io.tmpdir=" + md, "-Xmx" + heap, "-Xss64m", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=4", "-cp",
           TLAJAR + ":" + os.path.join(os.path.dirname(TLAJAR), "CommunityModules-deps.jar"), "tlc2.TLC",
           "-noGenerateSpecTE", "-metadir", md, "-config", cfg, "-workers", str(workers)]
    if mode == "sim":
        cmd += ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)]
    cmd += [os.path.join(SPEC, module + ".tla")]
    t0 = time.time()
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=SPEC)
    except subprocess.TimeoutExpired:
        raise ModelError("TLC timed out: %s %s" % (module, name))
    shutil.rmtree(md, ignore_errors=True)
    txt = r.stdout
    with open(os.path.join(work, name + ".tlc.log"), "w") as f:
        f.write(txt + r.stderr)
    if (r.returncode != 0 or "Error:" in txt) and mode == "sim" and "Overflow when computing" in txt and retry < 3:
        # a random walk of the specification left TLC's 32-bit integers: a limit of the tool, nothing about the code; walk again
        return run_tlc(module, work, name, consts, mode, seed + 7919, inv, num, depth, workers, timeout, extra, view, heap, nxt, init, retry + 1)
    if r.returncode != 0 or "Error:" in txt:
        i = txt.find("Error:")
        raise ModelError("TLC failed on %s (%s), exit %d:\n%s" % (module, name, r.returncode, txt[i:i + 1500] if i >= 0 else txt[-1500:] + r.stderr[-500:]))
    res = dict(out=out, wall=time.time() - t0, module=module, name=name, mode=mode)
    if mode == "sim":
        m = re.findall(r"The number of states generated: ([\d,]+)", txt)
        res["states"] = int(m[-1].replace(",", "")) if m else 0
        res["transitions"] = res["states"]
    else:
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", txt)
        if not m:
            raise ModelError("no TLC statistics for " + name)
        res["transitions"] = int(m[-1][0].replace(",", ""))
        res["states"] = int(m[-1][1].replace(",", ""))
    return res


def check_traces(module, traces, work, timeout=800):
    """trace validation: every trace must be a behaviour of the module. Returns [(trace number, text)] rejected, and statistics."""
    if not traces:
        return [], dict(traces=0)
    rejected, states, left = [], 0, list(range(len(traces)))
    while left and len(rejected) < 3:
        f = os.path.join(work, module + ".traces.json")
        with open(f, "w") as fh:
            json.dump([traces[i] for i in left], fh)
        cfg = os.path.join(work, module + ".cfg")
        with open(cfg, "w") as fh:
            fh.write('INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT Conforms\nCONSTANTS TraceFile = "%s"\n' % f)
        md = os.path.join(work, module + ".md")
        cmd = ["java", "-Xmx4g", "-Xss64m", "-XX:+UseParallelGC", "-cp", TLAJAR + ":" + os.path.join(os.path.dirname(TLAJAR), "CommunityModules-deps.jar"), "tlc2.TLC",
               "-noGenerateSpecTE", "-metadir", md, "-config", cfg, "-workers", "4", os.path.join(SPEC, module + ".tla")]
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=SPEC)
        except subprocess.TimeoutExpired:
            raise ModelError("TLC timed out on traces of " + module)
        shutil.rmtree(md, ignore_errors=True)
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", r.stdout)
        states += int(m[-1][1].replace(",", "")) if m else 0
        rej = re.search(r'"REJECTED",\s*(\d+),\s*(\d+),\s*(.*?)>>', r.stdout, re.S)
        if r.returncode == 0 and not rej:
            break
        if r.returncode == 12 and rej:
            k = int(rej.group(1)) - 1
            rejected.append((left[k], "event %s: %s" % (rej.group(2), " ".join(rej.group(3).split())[:200])))
            left.pop(k)
            continue
        raise ModelError("TLC failed on the traces of %s: exit %d\n%s" % (module, r.returncode, r.stdout[-1500:]))
    return rejected, dict(traces=len(traces), trace_states=states)


def load_behaviours(path):
    if not os.path.exists(path):
        return
    with open(path) as f:
        for ln in f:
            ln = ln.strip()
            if ln:
                v = json.loads(ln)
                yield json.loads(v) if isinstance(v, str) else v


# --------------------------------------------------------------------------- replay
def fmt(a):
    if isinstance(a, bool):
        return "1" if a else "0"
    return str(a)


def script_of(beh):
    return [st["op"] + "".join(" " + fmt(a) for a in st["a"]) for st in beh]


class Obs:
    """observations of one executed step"""
    __slots__ = ("items", "events", "done")

    def __init__(self):
        self.items, self.events, self.done = [], [], False


def run_driver(driver, chunk, work, tag, env=None, timeout=600):
    """chunk: list of (id, behaviour). Returns {id: (list of Obs, crash or None)}; restarts after a crash."""
    res = {}
    todo = list(chunk)
    part = hangs = 0
    while todo and hangs < 2 and part < 60:      # after that many failures the verdict is settled: skip the rest
        part += 1
        sc = os.path.join(work, "%s.%d.scr" % (tag, part))
        ou = os.path.join(work, "%s.%d.out" % (tag, part))
        er = os.path.join(work, "%s.%d.err" % (tag, part))
        sd = os.path.join(work, "%s.scratch" % tag)
        os.makedirs(sd, exist_ok=True)
        with open(sc, "w") as f:
            for bid, beh in todo:
                f.write("B %s\n" % bid)
                f.write("\n".join(script_of(beh)) + "\n")
        e = dict(os.environ)
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:detect_stack_use_after_return=0:symbolize=1:malloc_fill_byte=202:max_malloc_fill_size=4096:free_fill_byte=221:max_free_fill_size=4096"
        e["LC_ALL"] = "C"
        if env:
            e.update(env)
        with open(er, "wb") as ef:
            try:
                r = subprocess.run([driver, sc, ou, sd], stdout=subprocess.DEVNULL, stderr=ef, env=e, timeout=timeout, cwd=sd)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = -999
        cur, obs = None, None
        ended = False
        try:
            fh = open(ou, errors="replace")
        except FileNotFoundError:
            raise ModelError("driver wrote nothing (rc %s)" % rc)
        with fh:
            for ln in fh:
                ln = ln.rstrip("\n")
                if ln.startswith("B "):
                    cur = ln[2:]
                    res[cur] = ([Obs()], None)
                elif ln == ".":
                    res[cur][0][-1].done = True
                    res[cur][0].append(Obs())
                elif ln.startswith(">"):
                    p = ln[1:].split(" ")
                    res[cur][0][-1].items.append((p[0], p[1:]))
                elif ln.startswith("!"):
                    res[cur][0][-1].events.append(ln[1:])
                elif ln == "END":
                    ended = True
        with open(er, errors="replace") as f:
            err = f.read()
        if rc == 96 or (rc == 97 and cur is None):
            raise ModelError("driver error in %s: %s" % (tag, err[-600:]))
        if ended:
            break
        if cur is None:
            raise ModelError("driver died before the first behaviour (rc %s): %s" % (rc, err[-800:]))
        # rc 97: the driver could not make sense of a line; that is an error of the machinery unless the library already
        # disagreed earlier in the same behaviour (an object of a different size, say), which judge() finds first
        res[cur] = (res[cur][0], DRIVER_ERROR + err[-400:] if rc == 97 else crash_text(rc, err))
        hangs += rc in (-14, -999)
        idx = [i for i, (b, _) in enumerate(todo) if b == cur][0]
        todo = todo[idx + 1:]
    return res


# the replay could not go on: an object the specification holds does not exist or has another size in the code. On the
# unchanged tree this would be a mistake in the harness; it never happens there
DRIVER_ERROR = "the code holds no object as the specification has it: "


def crash_text(rc, err):
    m = re.search(r"ERROR: AddressSanitizer: ([^\n]*)", err)
    where = re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+) ([^\n]*)", err)
    w = ""
    for fn, loc in where:
        if "/c3/" in loc:
            w = " in %s %s" % (fn, loc.split("/")[-1])
            break
    if m:
        return "memory error: " + re.sub(r"0x[0-9a-f]+", "0x..", m.group(1))[:160] + w
    a = re.findall(r"[^\n]*Assertion[^\n]*", err)
    if a:
        return "assertion failed: " + a[-1][-200:]
    if rc == -14 or rc == -999:
        return "did not terminate within the time limit"
    last = [x for x in err.strip().split("\n") if x][-1:] or [""]
    return "process ended with code %d: %s" % (rc, last[0][-200:])


# --------------------------------------------------------------------------- comparison
RTOL = 1e-9


def fnum(s):
    if isinstance(s, (int, float)):
        return float(s)
    if "/" in s:
        a, b = s.split("/")
        return float(a) / float(b)
    return float(s)


def _vec(x, key="v", dkey="den"):
    v = np.array([fnum(t) for t in x[key]], dtype=float)
    d = x.get(dkey, 1)
    if isinstance(d, list):
        d = np.array([float(t) for t in d])
    return v / d


def _scale(x):
    d = x.get("den", 1)
    dm = min(d) if isinstance(d, list) and d else (1 if isinstance(d, list) else d)
    return max(1.0, float(x.get("sc", 0)) / dm)


def kern_basis(g):
    c = np.array(g["x"], dtype=float)
    return c, g["sc"], g["w"] / 2.0, ((c[0] - 1, c[-1] + 2) if g["b"] == 1 else None)


def kern_eval_w(g, x):
    c, sc, w, _ = kern_basis(g)
    return sc * np.exp(-((x - c) / w) ** 2)


def kern_der_w(g, x):
    c, sc, w, _ = kern_basis(g)
    return sc * np.exp(-((x - c) / w) ** 2) * (-2 * (x - c) / w ** 2)


_erf = np.vectorize(math.erf)


def kern_int_w(g):
    c, sc, w, b = kern_basis(g)
    if b is None:
        return sc * w * math.sqrt(math.pi) * np.ones_like(c)
    return sc * w * math.sqrt(math.pi) / 2 * (_erf((b[1] - c) / w) - _erf((b[0] - c) / w))


def kern_gram(g):
    c, sc, w, b = kern_basis(g)
    m = (c[:, None] + c[None, :]) / 2
    q = np.exp(-(c[:, None] - c[None, :]) ** 2 / (2 * w * w)) * sc * sc
    ws = w / math.sqrt(2)
    if b is None:
        return q * ws * math.sqrt(math.pi)
    return q * ws * math.sqrt(math.pi) / 2 * (_erf((b[1] - m) / ws) - _erf((b[0] - m) / ws))


def contract(T, shape, ws):
    T = np.asarray(T, float).reshape(shape)
    for w in ws:
        T = np.tensordot(w, T, axes=(0, 0))
    return float(T)


def compare(x, obs, ctx):
    """None when the observation satisfies the expectation, otherwise a short description"""
    m = x["m"]
    if m == "int":
        if [str(int(t)) for t in x["v"]] != [t for t in obs]:
            return "expected %s, observed %s" % (x["v"], " ".join(obs[:12]))
        return None
    if m == "str":
        if x["v"] != obs:
            return "expected %s, observed %s" % (x["v"], obs[:12])
        return None
    if m == "any":
        return None
    try:
        o = np.array([float(t) for t in obs])
    except ValueError:
        return "unreadable observation %s" % obs[:5]
    ex = 0 if m == "relq" else x.get("ex", 0)      # "relq" compares in the original units
    if m == "kerns":
        ex = [f.get("ex", 0) for f in x["fs"]]
    if isinstance(ex, list) and len(ex) != len(o):
        return "expected %d values, observed %d" % (len(ex), len(o))
    if ex:
        o = np.ldexp(o, -np.array(ex))      # in the units of the specification
        obs = ["%.17g" % t for t in o]
    if m == "le":
        v = np.array(x["v"], float)
        if len(v) != len(o) or np.any(~(o <= v)):
            return "expected at most %s, observed %s" % (x["v"], " ".join(obs[:12]))
        return None
    if m == "ge":
        v = np.array(x["v"], float)
        if len(v) != len(o) or np.any(~(o >= v)):
            return "expected at least %s, observed %s" % (x["v"], " ".join(obs[:12]))
        return None
    if m == "lenum":
        v = _vec(x)
        if len(v) != len(o) or np.any(~(o <= v)):
            return "expected at most %s, observed %s" % (list(v), " ".join(obs[:12]))
        return None
    if m == "in":       # one of the listed integers
        if len(o) != 1 or obs[0] not in [str(t) for t in x["v"]]:
            return "expected one of %s, observed %s" % (x["v"], obs[:3])
        return None
    if m in ("eq", "near"):
        v = _vec(x)
        if len(v) != len(o):
            return "expected %d values, observed %d" % (len(v), len(o))
        tol = (fnum(x["tol"]) if "tol" in x else RTOL * _scale(x))
        bad = ~(np.abs(o - v) <= tol)
        if bad.any():
            i = int(np.argmax(bad))
            return "entry %d: expected %.12g, observed %s (tolerance %.1e; %d of %d entries differ)" % (i, v[i], obs[i], tol, int(bad.sum()), len(v))
        return None
    if m == "sq":
        v = _vec(x)[0]
        sc = _scale(x)
        if len(o) != 1 or not (abs(o[0] ** 2 - v) <= RTOL * sc) or o[0] < 0:
            return "expected sqrt(%.12g), observed %s" % (v, obs[:1])
        return None
    if m == "sqratio":
        num, den = _vec(x)[0], _vec(x, "v2", "den2")[0]
        sc = max(1.0, _scale(x))
        if len(o) != 1 or not (abs(o[0] ** 2 * den - num) <= RTOL * max(sc, den) * 10):
            return "expected sqrt(%.12g/%.12g), observed %s" % (num, den, obs[:1])
        return None
    if m in ("l2rel", "l2svd"):
        v = _vec(x)
        if len(v) != len(o):
            return "expected %d values, observed %d" % (len(v), len(o))
        W = np.array([1.0])
        for w in x["w"]:
            W = np.kron(W, np.array(w, float) / 2)
        err = math.sqrt(float(np.sum(W * (o - v) ** 2)))
        nrm = math.sqrt(float(np.sum(W * v ** 2)))
        if not np.all(np.isfinite(o)):
            return "non-finite values"
        if m == "l2rel":
            b = fnum(x["eps"]) * nrm
        else:
            T = (v * np.sqrt(W)).reshape(x["n"])
            tot = 0.0
            for k in range(1, len(x["n"])):
                s = np.linalg.svd(T.reshape(int(np.prod(x["n"][:k])), -1), compute_uv=False)
                tot += float(np.sum(s[x["mr"]:] ** 2))
            b = math.sqrt(tot)
        if not err <= b * (1 + 1e-7) + 1e-8 * _scale(x) * math.sqrt(float(np.sum(W))):
            return "error %.6g exceeds the allowed %.6g (norm %.6g)" % (err, b, nrm)
        return None
    if m in ("kern", "kerns"):
        gs = ctx["g"]
        shape = [len(g["x"]) for g in gs]
        if m == "kerns":
            exp, sc = [], 1.0
            for f in x["fs"]:
                pt = [t / 4.0 for t in x["pts"][0]]
                exp.append(contract(f["v"], shape, [kern_eval_w(g, p) for g, p in zip(gs, pt)]) / f["den"])
                sc = max(sc, f["sc"] / f["den"])
        elif x["what"] == "eval":
            exp = [contract(x["v"], shape, [kern_eval_w(g, p / 4.0) for g, p in zip(gs, pt)]) / x["den"] for pt in x["pts"]]
            sc = _scale(x)
        elif x["what"] == "grad":
            pt = x["pts"][0]
            exp = [contract(x["v"], shape, [(kern_der_w if j == k else kern_eval_w)(g, p / 4.0) for j, (g, p) in enumerate(zip(gs, pt))]) / x["den"] for k in range(len(gs))]
            sc = _scale(x)
        elif x["what"] == "subset":
            T = np.asarray(x["v"], float).reshape(shape) / x["den"]
            sc = _scale(x) * np.prod([g["sc"] * g["w"] * 2 for g in gs])
            for k in sorted(x["pts"], reverse=True):
                T = np.tensordot(T, kern_int_w(gs[k - 1]), axes=(k - 1, 0))
            exp = T.reshape(-1)
        elif x["what"] == "int":
            exp = [contract(x["v"], shape, [kern_int_w(g) for g in gs]) / x["den"]]
            sc = _scale(x) * np.prod([g["sc"] * g["w"] * 2 for g in gs])
        else:
            a = np.asarray(x["v"], float).reshape(shape) / x["den"]
            b = np.asarray(x["v2"], float).reshape(shape) / x["den2"]
            t = a
            for g in gs:
                t = np.moveaxis(np.tensordot(kern_gram(g), t, axes=(1, 0)), 0, -1)
            exp = [float(np.sum(t * b))]
            sc = max(1.0, x["sc"] / x["den"] * max(1.0, x["sc2"] / x["den2"])) * np.prod([(g["sc"] ** 2 * g["w"] + 1) * len(g["x"]) for g in gs])
            if x["what"] == "norm":
                if not (len(o) == 1 and o[0] >= 0 and abs(o[0] ** 2 - exp[0]) <= RTOL * sc):
                    return "expected sqrt(%.12g), observed %s" % (exp[0], obs[:1])
                return None
        exp = np.array(exp)
        sc = sc * max(1.0, np.prod([g["sc"] for g in gs]))
        if len(exp) != len(o):
            return "expected %d values, observed %d" % (len(exp), len(o))
        bad = ~(np.abs(exp - o) <= 1e-9 * sc * 10)
        if bad.any():
            i = int(np.argmax(bad))
            return "entry %d: expected %.12g, observed %s" % (i, exp[i], obs[i])
        return None
    fn = EXTRA_MODES.get(m)
    if fn:
        try:
            return fn(x, o, obs, ctx)
        except ModelError:
            raise
        except Exception as e:                      # sizes that do not fit and the like
            return "observation cannot be interpreted (%s: %s)" % (type(e).__name__, str(e)[:80])
    raise ModelError("unknown comparison mode " + m)


EXTRA_MODES = {}


def judge(beh, result, idx=None):
    """first disagreement of a replayed behaviour: (step index, description) or None; plus number of comparisons"""
    obs, crash = result
    ctx = {"g": []}
    ncmp = 0
    for i, st in enumerate(beh):
        if "g" in st:
            ctx["g"] = st["g"]
        if i >= len(obs) or not obs[i].done:
            return (i, "%s: %s" % (st["op"], crash or "no answer")), ncmp
        have = {}
        for lab, vals in obs[i].items:
            have.setdefault(lab, []).append(vals)
        ctx["out"] = {lab: v[0] for lab, v in have.items()}
        for x in st["x"]:
            lst = have.get(x["k"])
            if not lst:
                return (i, "%s: nothing observed for '%s'" % (st["op"], x["k"])), ncmp
            ctx["at"] = (idx, i)
            d = compare(x, lst.pop(0), ctx)
            ncmp += 1
            if d:
                return (i, "%s (%s): %s" % (st["op"], x["k"], d)), ncmp
    if crash:
        return (len(beh) - 1, crash), ncmp
    return None, ncmp


def replay(driver, behs, work, tag="r", jobs=NCPU, timeout=700, env=None):
    """replays all behaviours; returns list of (index, step, description) and statistics"""
    os.makedirs(work, exist_ok=True)
    n = len(behs)
    chunks = [[] for _ in range(max(1, min(jobs, n)))]
    for i, b in enumerate(behs):
        chunks[i % len(chunks)].append((str(i), b))
    results = {}
    with ThreadPoolExecutor(max_workers=max(1, len(chunks))) as ex:
        for r in ex.map(lambda t: run_driver(driver, t[1], work, "%s%d" % (tag, t[0]), env=env, timeout=timeout), enumerate(chunks)):
            results.update(r)
    bad, ncmp, skipped = [], 0, 0
    for i, b in enumerate(behs):
        if str(i) not in results:
            skipped += 1
            continue
        d, c = judge(b, results[str(i)], i)
        ncmp += c
        if d:
            bad.append((i, d[0], d[1]))
    if skipped and not bad:
        raise ModelError("%d behaviours were not executed" % skipped)
    return bad, ncmp, results


def confirm(driver, beh, work):
    """run one behaviour alone, twice; the description if it fails both times"""
    out = []
    for k in range(2):
        res = run_driver(driver, [("0", beh)], work, "c%d" % k)
        d, _ = judge(beh, res["0"])
        if d is None:
            return None
        out.append(d)
    return out[0]
