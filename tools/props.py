"""What each property's check explores: specification modules, constants, bounds. One entry per property."""
import modes


def ft(ops, spaces=("LC", "K"), n=1600, nt=40000, length=12, dim=4, mn=5, size=100, rank=60):
    return dict(kind="replay", module="FT", mode="sim", inv=("Emit", "TypeOK"), num=dict(quick=n, thorough=nt), depth=length + 3, split=8,
                consts=dict(Ops=set(ops) | {"wide", "units"}, Spaces=set(spaces), MaxLen=length, MaxDim=dim, MaxN=mn, MaxSize=size, MaxRank=rank))


def fn(ops, fams=("L", "C", "K"), n=1600, nt=60000, length=14, mn=7):
    return dict(kind="replay", module="Fn", mode="sim", inv=("Emit", "TypeOK"), num=dict(quick=n, thorough=nt), depth=length + 3, split=8,
                consts=dict(Ops=set(ops) | {"units"}, Fams=set(fams), MaxLen=length, MaxN=mn))


def learn(ops, spaces=("LC", "K", "L"), n=1200, nt=30000, length=12, dim=4, mn=4):
    return dict(kind="replay", module="Learn", mode="sim", inv=("Emit", "TypeOK", "Euler"), num=dict(quick=n, thorough=nt), depth=length + 3, split=8,
                consts=dict(Ops=set(ops), Spaces=set(spaces), MaxLen=length, MaxDim=dim, MaxN=mn))


def optim(ops, n=1600, nt=40000, length=14, d=4):
    return dict(kind="replay", module="Opt", mode="sim", inv=("Emit", "TypeOK", "RingOK"), num=dict(quick=n, thorough=nt), depth=length + 3, split=8,
                consts=dict(Ops=set(ops), MaxLen=length, MaxD=d))


def ftall(no, q=4, t=5):
    return dict(kind="replay", module="FTAll", mode="bfs", next="XNext", inv=("Emit", "TypeOK"), quick=dict(MaxLen=q), thorough=dict(MaxLen=t), heap="6g",
                consts=dict(Ops={"alldump"}, Spaces={"LC"}, MaxLen=q, MaxDim=3, MaxN=3, MaxSize=100, MaxRank=60, SpaceNo=no))


def cross(ops, n=1000, nt=12000, length=5, dim=4, mn=5, size=150):
    return dict(kind="replay", module="Cross", mode="sim", init="XInit", next="XNext", inv=("Emit",), num=dict(quick=n, thorough=nt), depth=length + 3, split=8,
                consts=dict(Ops=set(ops), Spaces={"LC"}, MaxLen=length, MaxDim=dim, MaxN=mn, MaxSize=size, MaxRank=60))


def wrap(ops, n=1600, nt=60000, length=16):
    return dict(kind="replay", module="Wrap", mode="sim", inv=("Emit", "TypeOK"), num=dict(quick=n, thorough=nt), depth=length + 3, split=8,
                consts=dict(Ops=set(ops.split()), MaxLen=length))


def mat(ops, n=1600, nt=60000, length=14):
    return dict(kind="replay", module="Mat", mode="sim", inv=("Emit", "TypeOK"), num=dict(quick=n, thorough=nt), depth=length + 3, split=8,
                consts=dict(Ops=set(ops.split()), MaxLen=length))


def qm(ops, n=1200, nt=60000, length=14, fams=("L", "C"), mn=5):
    return dict(kind="replay", module="Qm", mode="sim", inv=("Emit", "TypeOK"), num=dict(quick=n, thorough=nt), depth=length + 3, split=8,
                consts=dict(Ops=set(ops.split()), Fams=set(fams), MaxLen=length, MaxN=mn))


def dft(ops, n=600, nt=20000, length=10, log=4):
    return dict(kind="replay", module="Dft", mode="sim", inv=("Emit", "TypeOK"), num=dict(quick=n, thorough=nt), depth=length + 3, split=8,
                consts=dict(Ops=set(ops.split()), MaxLen=length, MaxLog=log))


def quad(kinds, lo, hi):
    return dict(kind="replay", module="Quad", mode="bfs", inv=("Emit", "TypeOK", "WeightSum"), quick=dict(), thorough=dict(Sizes=list(range(lo, (400 if hi > 60 else 60) + 1))), heap="4g",
                consts=dict(Kinds=set(kinds.split()), Sizes=list(range(lo, hi + 1)), MaxLen=3))


def strs(ops, n=1200, nt=60000, length=16):
    return dict(kind="replay", module="Str", mode="sim", inv=("Emit", "TypeOK"), num=dict(quick=n, thorough=nt), depth=length + 3, split=8,
                consts=dict(Ops=set(ops.split()), MaxLen=length))


def pde(ops, n=1200, nt=30000, length=12, dim=4, mn=6):
    return dict(kind="replay", module="Pde", mode="sim", next="PNext", inv=("Emit", "TypeOK"), num=dict(quick=n, thorough=nt), depth=length + 3, split=8,
                consts=dict(Ops=set(ops.split()), Spaces={"LC"}, MaxLen=length, MaxDim=dim, MaxN=mn, MaxSize=100, MaxRank=60))


def tt(ops, n=1200, nt=40000, length=14, dim=4, mn=4, size=81, rank=24):
    return dict(kind="replay", module="Tt", mode="sim", inv=("Emit", "TypeOK"), num=dict(quick=n, thorough=nt), depth=length + 3, split=8,
                consts=dict(Ops=set(ops.split()), MaxLen=length, MaxDim=dim, MaxN=mn, MaxSize=size, MaxRank=rank))


def kern(ops, n=800, nt=40000, length=16, mn=6):
    return dict(kind="replay", module="Kern", mode="sim", inv=("Emit", "TypeOK"), num=dict(quick=n, thorough=nt), depth=length + 3, split=8,
                consts=dict(Ops=set(ops.split()), MaxLen=length, MaxN=mn))


def prob(ops, n=800, nt=30000, length=14, dim=3, mn=4):
    return dict(kind="replay", module="Prob", mode="sim", init="PInit", next="PNext", inv=("Emit", "POK"), num=dict(quick=n, thorough=nt), depth=length + 3, split=8,
                consts=dict(Ops=set(ops.split()), Spaces={"LC"}, MaxLen=length, MaxDim=dim, MaxN=mn, MaxSize=36, MaxRank=40))


CONS = ["mk", "zeros", "const", "linear", "rankone", "fromtab"]
ARITH = ["cp", "free", "sum", "prod", "scale", "axpy"]
ARR = ["amk", "acp", "afree", "aget", "ascale", "vaxpy", "vaxpya", "vprodsum", "gemv", "vgemv", "vgemva"]
EVAL = ["ev", "evs", "upto", "cop", "evi", "copi", "fib", "aev", "nodal"]
INTG = ["int", "inner", "norm", "ndiff", "rdiff", "subset"]
DERV = ["agrad", "ajac", "ahess", "ahessd", "grade"]
ROUND = ["round", "roundc", "roundm", "orthor", "maxrank"]
PAR = ["mkp", "upd", "getp", "coreupd", "corepar", "uniupd"]
STORE = ["ser", "save", "txt", "aser", "asave"]

FNBASE = "fmk fzero fconst flin fcp ffree fupd fnodal fdaxpby faxpy flc fprod fscale fflip fevs fei fser ftxt".split()
FNCALC = "fde fderiv fdd fdp fint finner fnorm fn2d finsum fmax".split()
FNARR = "farray fkron fkron2 fsp farr famax fcand flc finsum".split()

PROPS = {
    "C01": [ft(CONS + ARITH + ARR + PAR + ["check"], n=2000)],
    "C02": [ft(["mk", "mkp", "upd", "sum", "prod", "scale", "axpy", "round", "cp", "amk", "agrad"] + EVAL)],
    "C03": [ft(["mk", "linear", "const", "sum", "prod", "scale", "axpy", "round"] + INTG)],
    "C04": [ft(["mk", "linear", "const", "sum", "prod", "amk", "aev", "aget", "scale"] + DERV, mn=7)],
    "C05": [ft(["mk", "linear", "const", "sum", "prod", "scale", "axpy", "zeros"] + ROUND, spaces=("LC",))],
    "C06": [ft(["mk", "mkp", "linear", "sum", "prod", "scale", "round", "amk", "agrad"] + STORE)],
    "C07": [ft(CONS + ARITH + ARR + ["ev", "evs", "int", "inner", "norm", "ndiff", "agrad", "grade", "round", "ser", "txt", "upd", "mkp", "coreupd", "alldump"], n=800, nt=20000, length=14, size=60)]
           + [ftall(k) for k in (1, 2, 3, 4)],
    "C08": [cross(["xapi", "xraw"]), cross(["xapi", "xraw"], n=120, length=4, dim=6, mn=3, size=300), cross(["xapi", "xraw"], n=160, length=4, dim=3, mn=14, size=300), dict(kind="trace", module="CrossTrace", collect=lambda: modes.CTRACES)],
    "C09": [wrap("wnew wset wwhich weval wfib wfree"), wrap("inew iaddn inest inesti icp ilast imerge iarr"),
            wrap("mnew mev mprint mfree hnew hadd hget lpush lidx vpush", n=2400, length=24)],
    "C10": [learn("pmk pcp pfree pupd pcore prest pgrad plin psweep phess psq pconst plsl".split()),
            learn("pmk pcp pfree pupd pcore prest pgrad psweep psq".split(), spaces=("M",), n=300, length=10, dim=3),
            learn("pmk pcp pupd prest pgrad plin psweep phess psq".split(), spaces=("L", "LC", "K"), n=300, length=10, dim=5, mn=2)],
    "C11": [learn("pmk pupd pobj pgrad".split(), n=600), learn("pmk pupd prun pcv psgd".split(), spaces=("L", "K", "LC"), n=400, nt=6000, length=8),
            learn("pmk pupd prun psgd".split(), spaces=("M",), n=120, nt=3000, length=8, dim=3, mn=3)],
    "C12": [optim("onew ocp ofree obnd ostore otol ols ovec omin oderiv".split()), optim("obrute oline oold osgd rnew rins rfree".split(), n=600),
            dict(kind="trace", module="OptTrace", collect=lambda: modes.TRACES)],
    "C13": [fn([o for o in FNBASE + FNCALC + FNARR if o != "farray"], fams=("L", "C"), n=112, nt=8000, length=10, mn=16), fn(FNBASE + FNCALC + FNARR, n=500), fn(["fmk", "fcp", "fupd", "fscale", "flc", "faxpy", "fser", "ftxt"] + FNCALC, n=500),
            fn(["fmk", "fcp", "fscale", "fprod"] + FNARR, n=500),
            kern("kopt kad kbnd knp kmk kzero kadd kupd kcp kser kscale kaxpy ksetb kint kamax kraw")],
    "C14": [qm("qmk qcp qupd qlm qpr qst qev qint zz"), qm("qmk qvk qblk qst qint qpg qpr"), qm("qlow qqr qsvd qlu qmv zz unit", n=1600, length=16), qm("qmk qcp qlm qpr qst qev qint qlow qqr qsvd qlu qmv zz", n=150, nt=4000, mn=16)],
    "C15": [mat("bvec bnew bhcat bkron bblk", n=600), mat("kroncol veckron multi stat fl", n=1200), mat("qr rq svd tsvd pinv lls maxvol skel", n=1600, length=20)],
    "C16": [dft("xset xft xcheb xlong"), dft("xset xft xcheb", n=64, nt=3000, length=5, log=7)],
    "C17": [quad("cc fejer legendre hermite chebyshev trap simpson", 1, 60), quad("legendre trap simpson cc fejer chebyshev", 61, 230)],
    "C18": [strs("sset sbite sbite2 sparse scat sstrip itoa"), strs("buf text read ctor", n=800), strs("vec", n=400)],
    "C19": [fn("fmk fcp fupd fscale fpg fsng fapx fone flin fconst forth faone freg ffit fevs".split(), fams=("L", "C"), n=112, length=8, mn=16),
            fn("fmk fcp fupd fscale flc fpg fsng fapx fone flin fconst forth faone freg ffit fadapt fcut fevs".split(), n=1200, length=10),
            kern("kopt kad kbnd knp kmk kzero klin kadd kupd kcp kscale kpg ksng")],
    "C20": [pde("mk linear fromtab const sum prod scale diff lap lapp hessp lapo", n=1200), pde("mk linear fromtab sum cp dprod ddmrg", n=800)],
    "C21": [learn("pmk pupd pcv padapt pgrid".split(), spaces=("L", "L", "K"), n=400, nt=8000, length=8, dim=3, mn=3)],
    "C23": [prob("mk linear fromtab const sum scale pdmk pdfree pdser pdsave pdev pdlg pdlh pdbnd"), prob("const lt ltx norm1", n=300), prob("const gmk gev gsamp pdser pdfree", n=200, nt=4000, length=12)],
    "C22": [tt("new ones x cd cp add mul scal dot int round", n=1000), tt("new full round orth cp add dot scal", n=1000), tt("cross new", n=600, length=6), tt("cores", n=400),
            tt("new ones x cd cp add mul scal dot int round full orth", n=300, length=10, dim=3, mn=16, size=320, rank=40), tt("new ones cp add scal dot int round orth", n=200, length=10, dim=7, mn=3, size=300, rank=24)],
}
