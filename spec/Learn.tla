-------------------------------- MODULE Learn --------------------------------
(* The parameterised function train and the learning problem on top of it. The abstract state of a
   parameterisation is its ranks r and the vector p of its parameters (core by core, column by column, row by
   row). The represented function, its derivative and second derivative with respect to the parameters, the
   least-squares objective with and without regularisation, and every route by which the library computes
   them (whole train, precomputed bases, left/right sweeps around one core) are defined here from r and p. *)
EXTENDS Grid, FiniteSets, Json, CSV, IOUtils, TLCExt

CONSTANTS Ops, Spaces, MaxLen, MaxDim, MaxN, OutFile
VARIABLES sp, P, hist, left
vars == <<sp, P, hist, left>>
NP == 4
Dead == [live |-> FALSE]
Rnd(set) == IF left < -1 THEN 0 ELSE RandomElement(set)
RndSeq(m, set) == TLCEval([i \in 1..m |-> IF left < -1 THEN 0 ELSE RandomElement(set)])
On(o) == o \in Ops
Ready(o) == On(o) /\ sp # <<>> /\ left > 0
D == Len(sp)
\* moving kernel centres are parameters: every function has its coefficients, then its centres
Moving(g) == IF "mv" \in DOMAIN g THEN g.mv ELSE FALSE
n == [k \in 1..D |-> IF Moving(sp[k]) THEN 2 * NN(sp[k]) ELSE NN(sp[k])]
Fixed == \A k \in 1..D : ~Moving(sp[k])
AllL == \A k \in 1..D : sp[k].fam = "L"
NoC == \A k \in 1..D : sp[k].fam # "C"
IsK == D > 0 /\ sp[1].fam = "K"
Live == {s \in 0..(NP - 1) : P[s].live}
AnyS == Rnd(0..(NP - 1))
LiveS == Rnd(Live)

Eq(k, v, den, sc) == [k |-> k, m |-> "eq", v |-> v, den |-> den, sc |-> sc]
IntO(k, v) == [k |-> k, m |-> "int", v |-> <<v>>]
St(op, a, x) == [op |-> op, a |-> a, x |-> x]
RECURSIVE Cat(_)
Cat(t) == IF t = <<>> THEN <<>> ELSE Head(t) \o Cat(Tail(t))

(*************************** structure of parameters ************************)
CLen(r, k) == r[k] * r[k + 1] * n[k]
COff(r, k) == SumSeq([j \in 1..(k - 1) |-> CLen(r, j)])
NPar(r) == COff(r, D + 1)
Core(r, p, k) == SubSeq(p, COff(r, k) + 1, COff(r, k) + CLen(r, k))
Split(p, r) == TLCEval([k \in 1..D |-> Core(r, p, k)])
RndRanks(m) == LET q == RndSeq(D + 1, 1..m) IN [k \in 1..(D + 1) |-> IF k = 1 \/ k = D + 1 THEN 1 ELSE q[k]]
PSc(f) == Pow(Max2(MaxAbs(f.p), 1), D) * ProdSeq(f.r)
Mk(r, p) == [live |-> TRUE, r |-> r, p |-> p]
\* does the parameter at position q (1-based) lie inside the leading block of ranks b[1..D] ?
\* core k entry (i,j), 0-based: rows are bounded by b[k-1] (not at all in the first core), columns by b[k]
Where(r, q) == LET k == CHOOSE k \in 1..D : COff(r, k) < q /\ q <= COff(r, k) + CLen(r, k)
                   e == (q - COff(r, k) - 1) \div n[k]
               IN [k |-> k, i |-> e % r[k], j |-> e \div r[k]]
InBlock(r, b, q) == LET w == Where(r, q) IN w.j < b[w.k] /\ (w.k = 1 \/ w.i < b[w.k - 1])
\* positions of the parameters outside (inside) the block, in order
Pos(r, b, inside) == SelectSeq([q \in 1..NPar(r) |-> q], LAMBDA q : InBlock(r, b, q) = inside)
Scatter(p, pos, v) == TLCEval([q \in 1..Len(p) |-> IF \E i \in 1..Len(pos) : pos[i] = q THEN v[CHOOSE i \in 1..Len(pos) : pos[i] = q] ELSE p[q]])

(****************************** projections *********************************)
Obs(f, ask) == <<IntO("nparams", Len(f.p)), [k |-> "percore", m |-> "eq", v |-> [k \in 1..D |-> CLen(f.r, k)], den |-> 1, sc |-> 1],
                 IntO("got", Min2(ask, Len(f.p))), Eq("params", SubSeq(f.p, 1, Min2(ask, Len(f.p))), 1, 1), Eq("single", f.p, 1, 1), Eq("ref", f.p, 1, 1), Eq("train", f.p, 1, 1),
                 Eq("ranks", f.r, 1, 1), Eq("vals", Train(n, f.r, Split(f.p, f.r)), 1, PSc(f))>>
Dump(s, f, ask) == St("pdump", <<s, ask>>, Obs(f, ask))
Do(steps) == hist' = hist \o steps /\ left' = left - 1 /\ UNCHANGED sp
Ok(f) == PSc(f) <= 2000
Ask(f) == Len(f.p) + Rnd({-1, 0, 0, 0, 2})
Set(s, f, op, args, x) == Ok(f) /\ P' = [P EXCEPT ![s] = f] /\ \E ask \in {Ask(f)} : Do(<<St(op, args, x), Dump(s, f, ask)>>)
Look(op, args, x) == UNCHANGED P /\ Do(<<St(op, args, x)>>)

(********************************* set-up ***********************************)
RndGrid(fam, len, mv) ==
  LET uni == Rnd({TRUE, FALSE})  h == Rnd({1, 2})  x0 == Rnd(-3..3)
      st == IF uni THEN [i \in 1..len |-> h] ELSE RndSeq(len, {1, 2})
      x == TLCEval([i \in 1..len |-> x0 + SumSeq(SubSeq(st, 1, i - 1))])
  IN IF fam = "K" THEN [fam |-> fam, x |-> x, sc |-> Rnd({1, 2}), w |-> Rnd({2, 3, 5}), b |-> Rnd({0, 1}), mv |-> mv]
     ELSE [fam |-> fam, x |-> x]
GridArgs(g) == IF g.fam = "K"
  THEN <<2, Len(g.x)>> \o g.x \o <<g.sc, ToString(g.w) \o "/2", IF Moving(g) THEN 10 + g.b ELSE g.b>> \o (IF g.b = 1 THEN <<g.x[1] - 1, g.x[Len(g.x)] + 2>> ELSE <<>>)
  ELSE <<IF g.fam = "L" THEN 0 ELSE 1, Len(g.x)>> \o g.x
Setup == sp = <<>> /\ \E kind \in {Rnd(Spaces)}, d \in {Rnd(2..MaxDim)} :
   \E fams \in {RndSeq(d, IF kind \in {"K", "M"} THEN {"K"} ELSE IF kind = "L" THEN {"L"} ELSE {"L", "L", "C"})}, lens \in {RndSeq(d, 2..MaxN)} :
   \E mv \in {IF kind = "M" THEN RndSeq(d, 1..2) ELSE RndSeq(d, {3})} :
   \E s \in {TLCEval([k \in 1..d |-> RndGrid(fams[k], lens[k], mv[k] = 1 \/ (k = 1 /\ mv[k] < 3))])} :
     /\ sp' = s /\ UNCHANGED P /\ left' = left
     /\ hist' = <<St("heap0", <<>>, <<>>), St("grid", <<d>> \o Cat([k \in 1..d |-> GridArgs(s[k])]), <<>>) @@ [g |-> s]>>
Init == sp = <<>> /\ P = [s \in 0..(NP - 1) |-> Dead] /\ hist = <<>> /\ left = MaxLen

(************************* construction and updates *************************)
PVals == Rnd({-1..1, -2..2, {-1, 0, 0, 2}})
\* the zero train: all coefficients zero, centres those of the options
ZeroP(r) == TLCEval([q \in 1..NPar(r) |-> LET w == Where(r, q)  k == w.k  u == (q - COff(r, k) - 1) % n[k] IN IF u < NN(sp[k]) THEN 0 ELSE sp[k].x[u + 1 - NN(sp[k])]])
ActMk == Ready("pmk") /\ \E r \in {RndRanks(3)}, s \in {AnyS}, w \in {Rnd(0..3)} :
   IF w = 0 THEN Set(s, Mk(r, ZeroP(r)), "pmk", <<s, 0>> \o r, <<>>)
   ELSE \E p \in {RndSeq(NPar(r), PVals)} : Set(s, Mk(r, p), IF w = 1 THEN "pft" ELSE "pmk", (IF w = 1 THEN <<s>> ELSE <<s, 1>>) \o r \o p, <<>>)
ActCp == Ready("pcp") /\ Live # {} /\ \E a \in {LiveS}, s \in {AnyS} : a # s /\ Set(s, P[a], "pcp", <<s, a>>, <<>>)
ActFree == Ready("pfree") /\ Cardinality(Live) > 1 /\ \E s \in {LiveS} : P' = [P EXCEPT ![s] = Dead] /\ Do(<<St("pfree", <<s>>, <<>>)>>)
ActUpd == Ready("pupd") /\ Live # {} /\ \E s \in {LiveS}, how \in {Rnd(0..1)} : \E p \in {RndSeq(Len(P[s].p), PVals)} :
   Set(s, Mk(P[s].r, p), "pupd", <<s, how>> \o p, <<>>)
ActCore == Ready("pcore") /\ Live # {} /\ \E s \in {LiveS}, k \in {Rnd(1..D)} : \E c \in {RndSeq(CLen(P[s].r, k), PVals)} :
   Set(s, Mk(P[s].r, Scatter(P[s].p, [i \in 1..Len(c) |-> COff(P[s].r, k) + i], c)), "pcore", <<s, k - 1>> \o c, <<>>)
RndBlock(r) == TLCEval([k \in 1..D |-> Rnd(0..r[k + 1])])
ActRest == Ready("prest") /\ Live # {} /\ \E s \in {LiveS}, ins \in {Rnd({TRUE, FALSE})} : \E b \in {RndBlock(P[s].r)} :
   LET pos == TLCEval(Pos(P[s].r, b, ins)) IN Len(pos) > 0 /\ \E v \in {RndSeq(Len(pos), PVals)} :
   Set(s, Mk(P[s].r, Scatter(P[s].p, pos, v)), IF ins THEN "pin" ELSE "prest", <<s>> \o b \o <<Len(v)>> \o v, <<IntO("outside", Len(Pos(P[s].r, b, FALSE)))>>)

(****************************** derivatives *********************************)
RndPt(g) == IF g.fam = "K" THEN [i |-> Rnd(1..NN(g)), w |-> Rnd(0..3)] ELSE Rnd(PtsIn(g))
RndX == TLCEval([k \in 1..D |-> RndPt(sp[k])])
XS(x) == [k \in 1..D |-> PtStr(sp[k], x[k])]
XN(x) == [k \in 1..D |-> PtNum(sp[k], x[k])]
Wt(x) == TLCEval([k \in 1..D |-> PtW(sp[k], x[k])])      \* denominator 4 each
\* core k evaluated at the point: entry (i,j); denominator 4
CoreAt(r, p, k, W) == TLCEval([i \in 1..r[k] |-> [j \in 1..r[k + 1] |-> SumSeq([u \in 1..n[k] |-> W[k][u] * p[COff(r, k) + ((j - 1) * r[k] + i - 1) * n[k] + u]])]])
Cores(r, p, W) == TLCEval([k \in 1..D |-> CoreAt(r, p, k, W)])
VM(v, M) == TLCEval([j \in 1..Len(M[1]) |-> SumSeq([i \in 1..Len(M) |-> v[i] * M[i][j]])])
MV(M, v) == TLCEval([i \in 1..Len(M) |-> SumSeq([j \in 1..Len(v) |-> M[i][j] * v[j]])])
Plus(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] + b[i]])
RECURSIVE LeftTo(_, _)       \* product of the cores 1..k (row vector), denominator 4^k
LeftTo(M, k) == IF k = 0 THEN <<1>> ELSE VM(LeftTo(M, k - 1), M[k])
RECURSIVE RightFrom(_, _)    \* product of the cores k..D (column vector), denominator 4^(D-k+1)
RightFrom(M, k) == IF k = D + 1 THEN <<1>> ELSE MV(M[k], RightFrom(M, k + 1))
RECURSIVE DLeft(_, _, _)     \* its derivative in the direction V
DLeft(M, V, k) == IF k = 0 THEN <<0>> ELSE Plus(VM(DLeft(M, V, k - 1), M[k]), VM(LeftTo(M, k - 1), V[k]))
RECURSIVE DRight(_, _, _)
DRight(M, V, k) == IF k = D + 1 THEN <<0>> ELSE Plus(MV(V[k], RightFrom(M, k + 1)), MV(M[k], DRight(M, V, k + 1)))
CoreGrad(r, k, W, L, R) == TLCEval([q \in 1..CLen(r, k) |-> LET e == (q - 1) \div n[k]  u == ((q - 1) % n[k]) + 1 IN L[(e % r[k]) + 1] * W[k][u] * R[(e \div r[k]) + 1]])
GradV(r, M, W) == Cat([k \in 1..D |-> CoreGrad(r, k, W, LeftTo(M, k - 1), RightFrom(M, k + 1))])
ValV(M) == LeftTo(M, D)[1]
HessV(r, M, V, W) == Cat([k \in 1..D |-> Plus(CoreGrad(r, k, W, DLeft(M, V, k - 1), RightFrom(M, k + 1)), CoreGrad(r, k, W, LeftTo(M, k - 1), DRight(M, V, k + 1)))])
Den == Pow(4, D)
\* kernel spaces: the same definitions evaluated with Gaussian basis values (comparison mode "ktrain")
KT(k, what, f, xs, extra) == [k |-> k, m |-> "ktrain", what |-> what, r |-> f.r, p |-> f.p, xs |-> xs] @@ extra
None == [none |-> 0]
Val(f, x) == ValV(Cores(f.r, f.p, Wt(x)))
Gr(f, x) == GradV(f.r, Cores(f.r, f.p, Wt(x)), Wt(x))
ObsVal(k, f, X) == IF IsK THEN KT(k, "val", f, [i \in 1..Len(X) |-> XN(X[i])], None) ELSE Eq(k, [i \in 1..Len(X) |-> Val(f, X[i])], Den, PSc(f) * Den)
ObsGr(k, f, X) == IF IsK THEN KT(k, "grad", f, [i \in 1..Len(X) |-> XN(X[i])], None) ELSE Eq(k, Cat([i \in 1..Len(X) |-> Gr(f, X[i])]), Den, PSc(f) * Den)
RndXs(m) == TLCEval([i \in 1..m |-> RndX])
CatX(X) == Cat([i \in 1..Len(X) |-> XS(X[i])])
ActGrad == Ready("pgrad") /\ Live # {} /\ \E s \in {LiveS}, m \in {Rnd(1..3)} : \E X \in {RndXs(m)} :
   Look("pgrad", <<s, m>> \o CatX(X), <<ObsVal("val", P[s], X), ObsGr("grad", P[s], X), ObsGr("grads", P[s], X)>>)
ActLin == Ready("plin") /\ Fixed /\ Live # {} /\ \E s \in {LiveS}, m \in {Rnd(1..2)} : \E X \in {RndXs(m)} :
   Look("plin", <<s, m>> \o CatX(X), <<IntO("linear", IF IsK THEN 1 ELSE 1), ObsVal("eval", P[s], X), ObsVal("val", P[s], X), ObsGr("grad", P[s], X)>>)
ActSweep == Ready("psweep") /\ Live # {} /\ \E s \in {LiveS}, k \in {Rnd(1..D)}, lin \in {IF Fixed THEN Rnd(0..1) ELSE 0} : \E x \in {RndX} :
   LET f == P[s]  W == Wt(x)  M == Cores(f.r, f.p, W)  L == LeftTo(M, k - 1)  R == RightFrom(M, k + 1)  e == [core |-> k] IN
   Look("psweep", <<s, k - 1, lin>> \o XS(x),
     IF IsK THEN <<KT("lr", "lr", f, <<XN(x)>>, e), KT("rl", "rl", f, <<XN(x)>>, e), KT("val", "val", f, <<XN(x)>>, e), KT("grad", "cgrad", f, <<XN(x)>>, e)>>
     ELSE <<Eq("lr", L, Pow(4, k - 1), PSc(f) * Den), Eq("rl", R, Pow(4, D - k), PSc(f) * Den), Eq("val", <<ValV(M)>>, Den, PSc(f) * Den), Eq("grad", CoreGrad(f.r, k, W, L, R), Den, PSc(f) * Den)>>
          \o (IF lin = 1 THEN <<Eq("eval", <<ValV(M)>>, Den, PSc(f) * Den)>> ELSE <<>>))
ActHess == Ready("phess") /\ Fixed /\ Live # {} /\ \E s \in {LiveS} : Len(P[s].p) <= 80 /\ \E x \in {RndX}, v \in {RndSeq(Len(P[s].p), -1..1)} :
   LET f == P[s]  W == Wt(x) IN
   Look("phess", <<s>> \o XS(x) \o v,
     <<IF IsK THEN KT("hv", "hess", f, <<XN(x)>>, [v |-> v]) ELSE Eq("hv", HessV(f.r, Cores(f.r, f.p, W), Cores(f.r, v, W), W), Den, PSc(f) * Den)>>)
\* weighted sum over the cores of the squared norms of all univariate functions, and its gradient added to g0
SqV(f, w) == SumSeq([k \in 1..D |-> w[k] * SumSeq([q \in 1..CLen(f.r, k) |-> IntW(sp[k])[((q - 1) % n[k]) + 1] * Core(f.r, f.p, k)[q] * Core(f.r, f.p, k)[q]])])   \* over 2
SqG(f, w, g0) == Cat([k \in 1..D |-> [q \in 1..CLen(f.r, k) |-> g0 + w[k] * IntW(sp[k])[((q - 1) % n[k]) + 1] * Core(f.r, f.p, k)[q]]])
ActSq == Ready("psq") /\ Live # {} /\ \E s \in {LiveS}, w \in {RndSeq(D, 0..3)}, g0 \in {Rnd(-2..2)}, g \in {IF NoC /\ Fixed THEN Rnd(0..1) ELSE 0} :
   LET f == P[s] IN Look("psq", <<s, g, g0>> \o w, IF IsK THEN <<KT("val", "sqn", f, <<>>, [w |-> w])>> \o (IF g = 1 THEN <<KT("grad", "sqg", f, <<>>, [w |-> w, g0 |-> g0])>> ELSE <<>>)
      ELSE <<Eq("val", <<SqV(f, w)>>, 2, SqV(f, w) + 1)>> \o (IF g = 1 THEN <<Eq("grad", SqG(f, w, g0), 1, 100)>> ELSE <<>>))
\* a constant (no perturbation): the represented function is that constant; parameters and train agree
ActConst == Ready("pconst") /\ ~IsK /\ Live # {} /\ \E s \in {LiveS}, c \in {Rnd(-3..3)}, q \in {Rnd({0, 1})} :
   Look("pconst", <<s, c, IF q = 0 THEN "0" ELSE "1/8">>, IF q = 0 THEN <<IntO("differ", 0), Eq("ranks", P[s].r, 1, 1), Eq("vals", [z \in 1..Size(n) |-> c], 1, 3), Eq("moved", <<0>>, 1, 1)>>
         ELSE <<IntO("differ", 0), Eq("ranks", P[s].r, 1, 1), [k |-> "moved", m |-> "lenum", v |-> <<1>>, den |-> 8]>>)
\* initialisation from the linear least-squares fit: data of an affine function are fitted exactly
ActLs == Ready("plsl") /\ AllL /\ \E s \in {z \in Live : \A k \in 2..D : P[z].r[k] >= 2} : \E c \in {RndSeq(D + 1, -3..3)}, m \in {Rnd(1..3)} :
   LET base == [k \in 1..D |-> [i |-> 1, w |-> 0]]
       X == [i \in 1..(D + 1) |-> IF i = 1 THEN base ELSE [base EXCEPT ![i - 1] = [i |-> NN(sp[i - 1]), w |-> 0]]]
       Aff(x4) == c[D + 1] * 4 + SumSeq([k \in 1..D |-> c[k] * x4[k]]) IN
   \E E \in {RndXs(m)} : LET Y == X \o E IN
   Look("plsl", <<s, Len(Y)>> \o CatX(Y) \o [i \in 1..Len(Y) |-> ToString(Aff(XN(Y[i]))) \o "/4"],
        <<IntO("differ", 0), Eq("ranks", P[s].r, 1, 1), Eq("vals", FromIdx(n, LAMBDA ix : c[D + 1] + SumSeq([k \in 1..D |-> c[k] * sp[k].x[ix[k] + 1]])), 1, 1000)>>)

(************************** learning problems *******************************)
\* data: N points, integer responses, optional integer sample weights, optional index subset
Small(f) == MaxAbs(f.p) <= 2 /\ MaxSeq(f.r) <= 3 /\ PSc(f) <= 150
Resid(f, x, y) == y * Den - Val(f, x)       \* denominator 4^D
RECURSIVE SumVec(_, _)
SumVec(vs, m) == IF vs = <<>> THEN [i \in 1..m |-> 0] ELSE Plus(Head(vs), SumVec(Tail(vs), m))
DoObj(s, m, X, y, w, idx) ==
  LET f == P[s]  N == Len(idx)
      e == TLCEval([i \in 1..N |-> Resid(f, X[idx[i]], y[idx[i]])])
      J == SumSeq([i \in 1..N |-> w[idx[i]] * e[i] * e[i]])
      G == SumVec([i \in 1..N |-> LET gr == Gr(f, X[idx[i]]) IN TLCEval([q \in 1..Len(f.p) |-> -2 * w[idx[i]] * e[i] * gr[q]])], Len(f.p))
      sc == (8 * Den + PSc(f) * Den) IN
  <<Eq("val", <<J>>, N * Den * Den, sc * sc), Eq("val2", <<J>>, N * Den * Den, sc * sc), Eq("grad", G, N * Den * Den, sc * sc)>>
ObjArgs(m, X, y, w, idx, uw, ui) == <<m>> \o CatX(X) \o y \o <<uw>> \o (IF uw = 1 THEN w ELSE <<>>) \o <<IF ui = 1 THEN Len(idx) ELSE 0>> \o (IF ui = 1 THEN [i \in 1..Len(idx) |-> idx[i] - 1] ELSE <<>>)
ActObj == Ready("pobj") /\ ~IsK /\ D <= 3 /\ \E s \in {z \in Live : PSc(P[z]) * Den <= 4000} : \E m \in {Rnd(1..5)}, uw \in {Rnd(0..1)}, ui \in {Rnd(0..1)} :
   \E X \in {RndXs(m)}, y \in {RndSeq(m, -5..5)}, w0 \in {RndSeq(m, 0..3)}, nn \in {Rnd(1..5)} : \E idx0 \in {RndSeq(nn, 1..m)} :
   LET w == IF uw = 1 THEN w0 ELSE [i \in 1..m |-> 1]  idx == IF ui = 1 THEN idx0 ELSE [i \in 1..m |-> i] IN
   Look("pobj", <<s>> \o ObjArgs(m, X, y, w, idx, uw, ui), DoObj(s, m, X, y, w, idx))
\* A regression run from the parameters of slot s; the oracle (mode "regress") knows the objective exactly and, for the
\* alternating scheme with regularisation, the unique minimiser of every core subproblem.
ActRun == Ready("prun") /\ \E s \in {z \in Live : Small(P[z]) /\ Len(P[z].p) <= 60 /\ MaxAbs(P[z].p) > 0} :
   \E typ \in {IF Fixed THEN Rnd({"aio", "als"}) ELSE "aio"}, reg \in {IF Fixed /\ NoC THEN Rnd({0, 1}) ELSE 0}, lam \in {Rnd(1..4)}, N \in {Rnd(3..12)}, alg \in {Rnd({"bfgs", "lbfgs"})}, swp \in {Rnd(1..2)}, ls \in {Rnd({0, 2})}, uw \in {Rnd({0, 0, 1})} :
   \E X \in {RndXs(N)}, y \in {RndSeq(N, -4..4)}, w \in {RndSeq(N, 1..3)} :
   Look("prun", <<s, typ, reg, ToString(lam) \o "/4", alg, ls, swp, N>> \o CatX(X) \o y \o <<uw>> \o (IF uw = 1 THEN w ELSE <<>>),
        <<[k |-> "run", m |-> "regress", r |-> P[s].r, p |-> P[s].p, xs |-> [i \in 1..N |-> XN(X[i])], y |-> y, typ |-> typ, reg |-> reg, lam |-> lam, swp |-> swp, w |-> IF uw = 1 THEN w ELSE <<>>],
          IntO("differ", 0)>>)
\* Stochastic descent over the samples: per epoch every (training) sample once, in an unknown order; the oracle (mode "sgdreg") follows
\* every order. With equal samples the order does not matter and the later epochs (with momentum) are determined as well.
ActSgd == Ready("psgd") /\ \E s \in {z \in Live : Small(P[z]) /\ Len(P[z].p) <= 60 /\ MaxAbs(P[z].p) > 0} :
   \E reg \in {IF Fixed /\ NoC THEN Rnd({0, 1}) ELSE 0}, lam \in {Rnd(1..4)}, how \in {Rnd(1..5)}, uw \in {Rnd(0..1)}, rate0 \in {Rnd({64, 256, 1024})}, ne \in {Rnd(1..14)} :
   \E N \in {IF how = 1 THEN 2 ELSE IF how = 2 THEN 3 ELSE IF how = 3 THEN 4 ELSE IF how = 4 THEN 6 ELSE Rnd(2..6)} :
   \E X0 \in {RndXs(N)}, y0 \in {RndSeq(N, -4..4)}, w0 \in {RndSeq(N, 1..3)} :
   LET X == IF how = 5 THEN [i \in 1..N |-> X0[1]] ELSE X0  y == IF how = 5 THEN [i \in 1..N |-> y0[1]] ELSE y0  w == IF how = 5 THEN [i \in 1..N |-> w0[1]] ELSE w0
       \* small enough a rate for the multilinear objective not to run away
       rate == rate0 * PSc(P[s]) * PSc(P[s]) * (IF IsK THEN 81 ELSE 1)
       ep == IF how = 5 THEN ne ELSE IF N = 2 THEN 1 + (ne % 5) ELSE IF N = 3 THEN 1 + (ne % 2) ELSE 1
   IN Look("psgd", <<s, reg, ToString(lam) \o "/4", ep, "1/" \o ToString(rate), N>> \o CatX(X) \o y \o <<uw>> \o (IF uw = 1 THEN w ELSE <<>>),
        <<[k |-> "run", m |-> "sgdreg", r |-> P[s].r, p |-> P[s].p, xs |-> [i \in 1..N |-> XN(X[i])], y |-> y, reg |-> reg, lam |-> lam, w |-> IF uw = 1 THEN w ELSE <<>>, ne |-> ep, rate |-> rate, same |-> IF how = 5 THEN 1 ELSE 0],
          IntO("differ", 0)>>)
\* k-fold cross-validation of the alternating scheme, one sweep, regularised
ActCv == Ready("pcv") /\ NoC /\ Fixed /\ \E s \in {z \in Live : Small(P[z]) /\ Len(P[z].p) <= 40 /\ MaxAbs(P[z].p) > 0} :
   \E lam \in {Rnd(1..4)}, N \in {Rnd(4..11)} : \E kf \in {Rnd(2..Min2(N, 5))} : \E X \in {RndXs(N)}, y \in {RndSeq(N, 1..4)} :
   Look("pcv", <<s, ToString(lam) \o "/4", kf, N>> \o CatX(X) \o y,
        <<[k |-> "err", m |-> "cv", r |-> P[s].r, p |-> P[s].p, xs |-> [i \in 1..N |-> XN(X[i])], y |-> y, lam |-> lam, kf |-> kf], Eq("params", P[s].p, 1, 1)>>)

(************************* choice of the model ******************************)
\* Rank adaptation. Ranks grow by the kick but never beyond the bound; the model handed back is the regressor's own. When
\* every rank is at the bound already there is nothing to adapt: the fixed-rank fit comes back, or a better one after the final run.
RankRange(k, r, m) == [k |-> k, m |-> "between", lo |-> [i \in 1..(D + 1) |-> 1], hi |-> [i \in 1..(D + 1) |-> IF i = 1 \/ i = D + 1 THEN 1 ELSE Max2(m, r[i])]]
ActAdapt == Ready("padapt") /\ AllL /\ \E s \in {z \in Live : Small(P[z]) /\ Len(P[z].p) <= 60 /\ MaxAbs(P[z].p) > 0} :
   \E typ \in {Rnd({"aio", "als"})}, lam \in {Rnd(0..2)}, N \in {Rnd(4..14)}, m \in {Rnd(1..4)}, kick \in {Rnd(1..2)}, kf \in {Rnd(2..4)}, fin \in {Rnd(0..1)}, res \in {Rnd(0..1)} :
   \E X \in {RndXs(N)}, y \in {RndSeq(N, -4..4)} :
   LET r == P[s].r  full == \A k \in 2..D : r[k] >= m IN
   Look("padapt", <<s, typ, ToString(lam) \o "/8", m, kick, kf, fin, res, "1/1000000000", N>> \o CatX(X) \o y,
        <<RankRange("ranks", r, m), RankRange("ranks2", r, m), IntO("differ", 0), IntO("differ2", 0)>> \o
        (IF full /\ fin = 0 THEN <<[k |-> "gap", m |-> "relsmall", tol |-> "1e-9"]>> ELSE IF full /\ lam = 0 THEN <<[k |-> "adapt", m |-> "leobs", than |-> "plain", tol |-> "1e-9"]>>
         ELSE IF res = 1 /\ lam = 0 /\ (\A k \in 2..D : r[k] <= m) THEN <<[k |-> "adapt", m |-> "leobs", than |-> "plain", tol |-> "0.02"]>> ELSE <<>>))     \* the fit so far is kept while ranks grow
\* data of an affine function that depends on every variable, from rank one: rank one cannot fit them, rank two can
Affine(c, x4) == c[D + 1] * 4 + SumSeq([k \in 1..D |-> c[k] * x4[k]])
RndAff == LET c == RndSeq(D + 1, -3..3) IN TLCEval([i \in 1..(D + 1) |-> IF i <= D /\ c[i] = 0 THEN 2 ELSE c[i]])
Corners == LET base == [k \in 1..D |-> [i |-> 1, w |-> 0]] IN [i \in 1..(D + 1) |-> IF i = 1 THEN base ELSE [base EXCEPT ![i - 1] = [i |-> NN(sp[i - 1]), w |-> 0]]]
AffData(X, c) == [i \in 1..Len(X) |-> ToString(Affine(c, XN(X[i]))) \o "/4"]
ActGrow == Ready("padapt") /\ AllL /\ D <= 3 /\ \E N \in {Rnd(30..45)}, kick \in {Rnd(1..2)}, m \in {Rnd(2..3)}, kf \in {Rnd(3..5)}, fin \in {Rnd(0..1)}, res \in {0}, c \in {RndAff} :
   \E X \in {RndXs(N)} :
   Look("padapt", <<-1, "aio", 0, m, kick, kf, fin, res, "1/100000000", N>> \o CatX(X) \o AffData(X, c),
        <<[k |-> "ranks", m |-> "between", lo |-> [i \in 1..(D + 1) |-> IF i = 1 \/ i = D + 1 THEN 1 ELSE Min2(1 + kick, m)], hi |-> [i \in 1..(D + 1) |-> IF i = 1 \/ i = D + 1 THEN 1 ELSE m]],
          IntO("differ", 0), IntO("differ2", 0), [k |-> "adapt", m |-> "lenum", v |-> <<1>>, den |-> 1000]>>)
\* Grid search: one combination of the grid is clearly the best; the regressor and the optimiser are left configured with it
ActGrid == Ready("pgrid") /\ AllL /\ D <= 3 /\ \E N \in {Rnd(30..45)}, kf \in {Rnd(3..5)}, c \in {RndAff}, which \in {Rnd(1..6)}, rk \in {Rnd({<<1, 2>>, <<2, 1>>, <<1, 1, 3>>, <<2>>, <<3, 1>>})},
      rw \in {Rnd({<<"4", "1@-33">>, <<"1@-33", "4">>, <<"2", "1@-33", "8">>})}, mi \in {Rnd({<<321>>, <<222, 222>>})}, useReg \in {Rnd(0..1)} :
   \E X \in {RndXs(N)} :
   LET nR == <<"rank", Len(rk)>> \o rk  nW == <<"reg_weight", Len(rw)>> \o rw  nM == <<"opt_maxiter", Len(mi)>> \o mi
       parts == IF useReg = 0 THEN (IF which <= 2 THEN <<nR>> ELSE IF which <= 4 THEN <<nM, nR>> ELSE <<nR, nM>>)
                ELSE (IF which = 1 THEN <<nR, nW>> ELSE IF which = 2 THEN <<nW, nR>> ELSE IF which = 3 THEN <<nR, nW, nM>> ELSE IF which = 4 THEN <<nM, nR, nW>> ELSE IF which = 5 THEN <<nW, nM, nR>> ELSE <<nW, nR, nM>>)
       hasM == \E i \in 1..Len(parts) : parts[i][1] = "opt_maxiter"
       best == MaxSeq(rk)
   IN Look("pgrid", <<"aio", IF useReg = 1 THEN 1 ELSE 0, kf, N>> \o CatX(X) \o AffData(X, c) \o <<Len(parts)>> \o Cat(parts),
        <<Eq("ranks", [i \in 1..(D + 1) |-> IF i = 1 \/ i = D + 1 THEN 1 ELSE best], 1, 1), IntO("maxiter", IF hasM THEN mi[1] ELSE 123), IntO("differ", 0), [k |-> "fit", m |-> "lenum", v |-> <<1>>, den |-> 1000]>> \o
        (IF useReg = 1 THEN <<[k |-> "reg", m |-> "lenum", v |-> <<1>>, den |-> 100000000]>> ELSE <<>>))

(********************************* the end **********************************)
RECURSIVE DumpAll(_)
DumpAll(set) == IF set = {} THEN <<>> ELSE LET s == CHOOSE z \in set : TRUE IN <<Dump(s, P[s], Len(P[s].p))>> \o DumpAll(set \ {s})
Finish == sp # <<>> /\ left = 0 /\ hist' = hist \o DumpAll(Live) \o <<St("heapcheck", <<>>, <<IntO("heap", 0)>>)>> /\ left' = -1 /\ UNCHANGED <<sp, P>>
Next == Setup \/ ActMk \/ ActCp \/ ActFree \/ ActUpd \/ ActCore \/ ActRest \/ ActGrad \/ ActLin \/ ActSweep \/ ActHess \/ ActSq \/ ActConst \/ ActLs \/ ActObj \/ ActRun \/ ActSgd \/ ActCv \/ ActAdapt \/ ActGrow \/ ActGrid \/ Finish
Spec == Init /\ [][Next]_vars
Emit == left = -1 => CSVWrite("%1$s", <<ToJson(hist)>>, OutFile)
TypeOK == left \in -1..MaxLen /\ \A s \in 0..(NP - 1) : P[s].live => Len(P[s].p) = NPar(P[s].r)
(* sanity of the definitions: the gradient contracted with the parameters is D times the value (homogeneity) *)
Euler == (left = MaxLen - 1 /\ ~IsK) => \A s \in Live : LET x == [k \in 1..D |-> [i |-> 1, w |-> 0]] IN SumSeq([q \in 1..Len(P[s].p) |-> P[s].p[q] * Gr(P[s], x)[q]]) = D * Val(P[s], x)
=============================================================================
