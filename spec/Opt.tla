-------------------------------- MODULE Opt ---------------------------------
(* The optimiser machine. A client holds optimiser objects (algorithm, bounds, tolerances, line-search options, storage
   options) and L-BFGS histories, configures and copies them in any order, and minimises strictly convex quadratics
   f(x) = x'Ax/2 - b'x with integer data. Configuration is tracked exactly; line searches with dyadic parameters are
   computed exactly; the ring of stored pairs is a sequence of the newest m pairs. A minimisation is observed as the
   sequence of accepted iterates; its protocol (feasible, consistent, monotone, stopping rule) is the business of OptTrace.tla. *)
EXTENDS Tensor, FiniteSets, Json, CSV, IOUtils, TLCExt
CONSTANTS Ops, MaxLen, MaxD, OutFile
VARIABLES O, R, hist, left
vars == <<O, R, hist, left>>
NO == 3
NR == 2
Dead == [live |-> FALSE]
Rnd(set) == IF left < -1 THEN 0 ELSE RandomElement(set)
RndSeq(m, set) == TLCEval([i \in 1..m |-> IF left < -1 THEN 0 ELSE RandomElement(set)])
On(o) == o \in Ops
Ready(o) == On(o) /\ left > 0
Live == {s \in 0..(NO - 1) : O[s].live}
LiveR == {s \in 0..(NR - 1) : R[s].live}
Eq(k, v, den, sc) == [k |-> k, m |-> "eq", v |-> v, den |-> den, sc |-> sc]
IntO(k, v) == [k |-> k, m |-> "int", v |-> <<v>>]
St(op, a, x) == [op |-> op, a |-> a, x |-> x]
RECURSIVE Cat(_)
Cat(t) == IF t = <<>> THEN <<>> ELSE Head(t) \o Cat(Tail(t))
Rat(q) == ToString(q[1]) \o "/" \o ToString(q[2])

(******************************* configuration ******************************)
Algs == {"bfgs", "lbfgs", "grad"}
Tols == {"1e-12", "1e-8", "1e-5", "1e-3"}
New(alg, d) == [live |-> TRUE, alg |-> alg, d |-> d, bnd |-> FALSE, lb |-> <<>>, ub |-> <<>>, mi |-> 50000, nv |-> 40, scl |-> 0, lsa |-> "weak",
                al |-> <<3, 10>>, be |-> <<9, 10>>, lsm |-> 500, sf |-> 0, sg |-> 0, sx |-> 0, gt |-> "1e-12", ft |-> "1e-8", xt |-> "1e-8"]
Bnd(o, v) == IF o.bnd THEN v ELSE <<>>
Dump(s, o) == St("odump", <<s>>,
   <<IntO("maxiter", o.mi), IntO("nvec", o.nv), IntO("scale", o.scl), IntO("kind", 0), IntO("store", o.sf), [k |-> "lsalg", m |-> "str", v |-> <<o.lsa>>],
     Eq("alpha", <<o.al[1]>>, o.al[2], 1), Eq("beta", <<o.be[1]>>, o.be[2], 1), IntO("lsmax", o.lsm)>>
   \o (IF o.bnd THEN <<Eq("lb", o.lb, 1, 1), Eq("ub", o.ub, 1, 1)>> ELSE <<>>))
Do(steps) == hist' = hist \o steps /\ left' = left - 1
Set(s, o, op, args) == O' = [O EXCEPT ![s] = o] /\ UNCHANGED R /\ Do(<<St(op, args, <<>>), Dump(s, o)>>)
Look(op, args, x) == UNCHANGED <<O, R>> /\ Do(<<St(op, args, x)>>)
LiveS == Rnd(Live)

ActNew == Ready("onew") /\ \E s \in {Rnd(0..(NO - 1))}, alg \in {Rnd(Algs)}, d \in {Rnd(1..MaxD)}, how \in {Rnd({0, 0, 1})}, mi \in {Rnd({0, 2, 5, 300, 300, 300})}, sx \in {Rnd({0, 1, 1, 1})}, sg \in {Rnd(0..1)} :
   LET o == New(alg, d)
       \* c3opt_create + c3opt_set_nvars: other defaults
       p == IF how = 0 THEN o ELSE [o EXCEPT !.mi = 1000, !.lsa = IF alg = "grad" THEN "strong" ELSE "weak", !.al = IF alg = "grad" THEN <<1, 10000>> ELSE <<3, 10>>]
       r == [p EXCEPT !.mi = mi, !.sf = 1, !.sg = sg, !.sx = sx]
   IN IF mi = 0 THEN Set(s, p, "onew", <<s, alg, d, how>>)
      ELSE O' = [O EXCEPT ![s] = r] /\ UNCHANGED R /\ Do(<<St("onew", <<s, alg, d, how>>, <<>>), Dump(s, p), St("ostore", <<s, mi, 1, sg, sx>>, <<>>), Dump(s, r)>>)
ActCp == Ready("ocp") /\ Live # {} /\ \E a \in {LiveS}, s \in {Rnd(0..(NO - 1))} : a # s /\ O' = [O EXCEPT ![s] = O[a]] /\ UNCHANGED R /\
   Do(<<St("ocp", <<s, a>>, <<>>), St("ocmp", <<s, a>>, <<IntO("differ", 0)>>), Dump(s, O[a])>>)
ActFree == Ready("ofree") /\ Cardinality(Live) > 1 /\ \E s \in {LiveS} : O' = [O EXCEPT ![s] = Dead] /\ UNCHANGED R /\ Do(<<St("ofree", <<s>>, <<>>)>>)
ActBnd == Ready("obnd") /\ Live # {} /\ \E s \in {LiveS} : \E l \in {RndSeq(O[s].d, -3..1)}, w \in {RndSeq(O[s].d, 1..4)} :
   LET u == [i \in 1..O[s].d |-> l[i] + w[i]] IN Set(s, [O[s] EXCEPT !.bnd = TRUE, !.lb = l, !.ub = u], "obnd", <<s>> \o l \o u)
ActStore == Ready("ostore") /\ Live # {} /\ \E s \in {LiveS}, mi \in {Rnd({1, 2, 3, 8, 300, 300, 300})}, f \in {Rnd({1, 1, 1, 0})}, q \in {Rnd(0..1)}, x \in {Rnd({0, 1, 1, 1})} :
   Set(s, [O[s] EXCEPT !.mi = mi, !.sf = f, !.sg = q, !.sx = x], "ostore", <<s, mi, f, q, x>>)
ActTol == Ready("otol") /\ Live # {} /\ \E s \in {LiveS}, g \in {Rnd(Tols)}, f \in {Rnd(Tols)}, x \in {Rnd(Tols)} : Set(s, [O[s] EXCEPT !.gt = g, !.ft = f, !.xt = x], "otol", <<s, g, f, x>>)
ActLs == Ready("ols") /\ Live # {} /\ \E s \in {LiveS}, lsa \in {Rnd({"back", "strong", "weak"})}, a \in {Rnd(1..3)}, b \in {Rnd(4..7)}, mx \in {Rnd({40, 100, 500})} :
   Set(s, [O[s] EXCEPT !.lsa = lsa, !.al = <<a, 8>>, !.be = <<b, 8>>, !.lsm = mx], "ols", <<s, lsa, Rat(<<a, 8>>), Rat(<<b, 8>>), mx>>)
ActVec == Ready("ovec") /\ Live # {} /\ \E s \in {LiveS}, v \in {Rnd(1..6)}, c \in {Rnd(0..1)} : Set(s, [O[s] EXCEPT !.nv = v, !.scl = c], "ovec", <<s, v, c>>)

(******************************* quadratics *********************************)
\* A = M'M + I
RndA(d) == LET M == RndSeq(d * d, -1..1) IN TLCEval([q \in 1..(d * d) |-> LET i == (q - 1) \div d  j == (q - 1) % d IN
   SumSeq([k \in 1..d |-> M[(k - 1) * d + i + 1] * M[(k - 1) * d + j + 1]]) + (IF i = j THEN 1 ELSE 0)])
Row(A, d, i) == SubSeq(A, (i - 1) * d + 1, i * d)
AX(A, d, x) == TLCEval([i \in 1..d |-> Dot(Row(A, d, i), x)])
F2(A, b, d, x, e) == Dot(AX(A, d, x), x) - 2 * e * Dot(b, x)           \* f(x/e) * 2 * e^2
G1(A, b, d, x, e) == TLCEval([i \in 1..d |-> AX(A, d, x)[i] - e * b[i]])    \* gradient at x/e, times e
Start(o) == IF o.bnd THEN TLCEval([i \in 1..o.d |-> Rnd(o.lb[i]..o.ub[i])]) ELSE RndSeq(o.d, -4..4)
ActMin == Ready("omin") /\ Live # {} /\ \E s \in {LiveS} : O[s].mi <= 300 /\ \E A \in {RndA(O[s].d)}, b \in {RndSeq(O[s].d, -4..4)}, x0 \in {Start(O[s])} :
   Look("omin", <<s>> \o A \o b \o x0, <<[k |-> "run", m |-> "opt", o |-> O[s], A |-> A, b |-> b, x0 |-> x0], IntO("outside", 0), IntO("miscount", 0)>>)
ActMinA == ActMin
ActMinB == ActMin
ActDeriv == Ready("oderiv") /\ Live # {} /\ \E s \in {LiveS} : \E A \in {RndA(O[s].d)}, b \in {RndSeq(O[s].d, -4..4)}, x \in {RndSeq(O[s].d, -3..3)}, e \in {RndSeq(O[s].d, -1..1)} :
   LET G == G1(A, b, O[s].d, x, 1)  N2 == Dot(G, G)  E2 == Dot(e, e) IN      \* the gradient handed out is off by e
   Look("oderiv", <<s>> \o A \o b \o x \o e,
        <<[k |-> "err", m |-> "sq", v |-> <<E2>>, den |-> IF N2 > 1 THEN N2 ELSE 1, sc |-> 10000000], [k |-> "err2", m |-> "sq", v |-> <<E2>>, den |-> IF N2 > 1 THEN N2 ELSE 1, sc |-> 10000000],
          [k |-> "each", m |-> "near", v |-> [i \in 1..O[s].d |-> -e[i]], den |-> 1, sc |-> 1, tol |-> "1e-5"], IntO("miscount", 0)>>)
ActBrute == Ready("obrute") /\ \E d \in {Rnd(1..MaxD)}, m \in {Rnd(1..6)}, cp \in {Rnd(0..1)} : \E A \in {RndA(d)}, b \in {RndSeq(d, -4..4)}, X \in {RndSeq(d * m, -3..3)} :
   LET P == [i \in 1..m |-> SubSeq(X, (i - 1) * d + 1, i * d)]
       w == CHOOSE i \in 1..m : (\A j \in 1..m : F2(A, b, d, P[i], 1) <= F2(A, b, d, P[j], 1)) /\ (\A j \in 1..(i - 1) : F2(A, b, d, P[j], 1) > F2(A, b, d, P[i], 1)) IN
   Look("obrute", <<d, m, cp>> \o X \o A \o b, <<Eq("minf", <<F2(A, b, d, P[w], 1)>>, 2, 1), Eq("at", P[w], 1, 1), IntO("ret", 0), IntO("miscount", 0)>>)

(******************************* line searches ******************************)
\* t in units 1/E; points in units 1/E; all decisions exact
E == 64
Clip(v, l, u) == IF v <= l THEN l ELSE IF v >= u THEN u ELSE v
Move(x, p, t, bnd, lb, ub) == TLCEval([i \in 1..Len(x) |-> LET v == E * x[i] + t * p[i] IN IF bnd THEN Clip(v, E * lb[i], E * ub[i]) ELSE v])
FE(A, b, x) == F2(A, b, Len(x), x, E)           \* units 1/(2 E^2)
\* sufficient decrease: f(new) <= f(x) + a/8 * t/E * dg
Armijo(A, b, x, p, t, nx, dg, a) == FE(A, b, nx) <= FE(A, b, [i \in 1..Len(x) |-> E * x[i]]) + ((a * t * dg * E) \div 4)
RECURSIVE BackT(_, _, _, _, _, _, _, _, _, _)
BackT(A, b, x, p, t, dg, a, bnd, lb, ub) ==      \* -1: out of the exact range
  IF Armijo(A, b, x, p, t, Move(x, p, t, bnd, lb, ub), dg, a) THEN t ELSE IF t % 2 = 1 THEN -1 ELSE BackT(A, b, x, p, t \div 2, dg, a, bnd, lb, ub)
RECURSIVE WeakT(_, _, _, _, _, _, _, _, _, _, _, _, _)
WeakT(A, b, x, p, t, tmin, tmax, dg, a, be, bnd, lb, ub) ==
  IF t > E * 16 THEN -1
  ELSE LET nx == Move(x, p, t, bnd, lb, ub) IN
  IF ~Armijo(A, b, x, p, t, nx, dg, a) THEN (IF (tmin + t) % 2 = 1 THEN -1 ELSE WeakT(A, b, x, p, (tmin + t) \div 2, tmin, t, dg, a, be, bnd, lb, ub))
  ELSE IF 8 * Dot(G1(A, b, Len(x), nx, E), p) < be * dg * E
       THEN (IF tmax = 0 THEN WeakT(A, b, x, p, 2 * t, t, 0, dg, a, be, bnd, lb, ub)
             ELSE IF (t + tmax) % 2 = 1 THEN -1 ELSE WeakT(A, b, x, p, (t + tmax) \div 2, t, tmax, dg, a, be, bnd, lb, ub))
       ELSE t
ActLine == Ready("oline") /\ \E d \in {Rnd(1..2)}, kind \in {Rnd({"bt", "btbc", "weak", "strong"})}, a \in {Rnd(1..3)}, be \in {Rnd(4..7)}, bnd \in {Rnd({TRUE, FALSE})} :
   \E A \in {RndA(d)}, b \in {RndSeq(d, -3..3)}, x \in {RndSeq(d, -3..3)}, p \in {RndSeq(d, -4..4)}, wl \in {RndSeq(d, 0..3)}, wu \in {RndSeq(d, 0..3)} :
   LET lb == [i \in 1..d |-> x[i] - wl[i]]  ub == [i \in 1..d |-> x[i] + wu[i] + 1]
       g == G1(A, b, d, x, 1)  dg == Dot(g, p)  box == bnd /\ kind # "bt"
       t == IF kind = "weak" THEN WeakT(A, b, x, p, E, 0, 0, dg, a, be, box, lb, ub) ELSE BackT(A, b, x, p, E, dg, a, box, lb, ub)
       nx == Move(x, p, t, box, lb, ub)
       args == <<kind, d, Rat(<<a, 8>>), IF kind \in {"bt", "btbc"} THEN "1/2" ELSE Rat(<<be, 8>>), IF box THEN 1 ELSE 0>> \o (IF box THEN lb \o ub ELSE <<>>) \o A \o b \o x \o p IN
   IF kind = "strong" THEN dg < 0 /\ Look("oline", args, <<[k |-> "line", m |-> "wolfe", A |-> A, b |-> b, x |-> x, p |-> p, al |-> a, be |-> be, box |-> box, lb |-> lb, ub |-> ub], IntO("miscount", 0)>>)
   ELSE IF dg > 0 /\ kind = "weak" THEN Look("oline", args, <<Eq("step", <<0>>, 1, 1), Eq("newx", x, 1, 1), Eq("newf", <<F2(A, b, d, x, 1)>>, 2, 1), IntO("info", -4), IntO("miscount", 0)>>)
   ELSE dg < 0 /\ t > 0 /\ Look("oline", args, <<Eq("step", <<IF kind = "bt" THEN t ELSE t * a>>, IF kind = "bt" THEN E ELSE 8 * E, 1), Eq("newx", nx, E, 1), Eq("newf", <<FE(A, b, nx)>>, 2 * E * E, 1), IntO("info", 0), IntO("miscount", 0)>>
            \o (IF kind = "weak" THEN <<Eq("newg", G1(A, b, d, nx, E), E, 1)>> ELSE <<>>))

(************************** older entry points ******************************)
\* newton on a quadratic: exact minimiser, Cramer's rule is avoided by stating A x = b
ActOld == Ready("oold") /\ \E d \in {Rnd(1..MaxD)}, kind \in {Rnd({"newton", "gd", "pg", "bnewton", "bbfgs"})}, mi \in {Rnd({1, 2, 3, 5, 5000, 5000, 5000, 5000})} : \E A \in {RndA(d)}, b \in {RndSeq(d, -4..4)}, x0 \in {RndSeq(d, -3..3)}, w \in {RndSeq(2 * d, 0..4)} :
   LET lb == [i \in 1..d |-> x0[i] - w[i] - (IF kind = "bbfgs" THEN 1000 ELSE 0)]  ub == [i \in 1..d |-> x0[i] + w[d + i] + 1 + (IF kind = "bbfgs" THEN 1000 ELSE 0)] IN
   Look("oold", <<kind, mi, d>> \o A \o b \o x0 \o lb \o ub, <<[k |-> "old", m |-> "optold", kind |-> kind, mi |-> mi, A |-> A, b |-> b, x0 |-> x0, lb |-> lb, ub |-> ub], IntO("outside", 0)>>)
\* stochastic descent: n samples (a_i'x - y_i)^2/2
ActSgd == Ready("osgd") /\ \E d \in {Rnd(1..3)}, n \in {Rnd(2..14)}, mi \in {Rnd({1, 3, 8, 14})}, sf \in {Rnd(0..1)}, cp \in {Rnd(0..1)} : \E A \in {RndSeq(n * d, -2..2)}, y \in {RndSeq(n, -3..3)}, x0 \in {RndSeq(d, -2..2)} :
   Look("osgd", <<d, n, mi, sf, cp>> \o A \o y \o x0, <<[k |-> "sgd", m |-> "sgd", d |-> d, n |-> n, mi |-> mi, sf |-> sf, A |-> A, y |-> y, x0 |-> x0], IntO("miscount", 0)>>)

(**************************** L-BFGS histories ******************************)
\* newest first; each pair has the iteration number, s, y
Pair(q, d) == <<q.it>> \o q.s \o q.y \o <<Dot(q.s, q.y)>>
ActRNew == Ready("rnew") /\ \E s \in {Rnd(0..(NR - 1))}, m \in {Rnd(1..5)}, d \in {Rnd(1..3)} : UNCHANGED O /\ R' = [R EXCEPT ![s] = [live |-> TRUE, m |-> m, d |-> d, q |-> <<>>, it |-> 0]] /\ Do(<<St("rnew", <<s, m, d>>, <<>>)>>)
ActRIns == Ready("rins") /\ LiveR # {} /\ \E s \in {Rnd(LiveR)} : \E v \in {RndSeq(4 * R[s].d, -5..5)} :
   LET r == R[s]  d == r.d  xn == SubSeq(v, 1, d)  xc == SubSeq(v, d + 1, 2 * d)  gn == SubSeq(v, 2 * d + 1, 3 * d)  gc == SubSeq(v, 3 * d + 1, 4 * d)
       p == [it |-> r.it, s |-> [i \in 1..d |-> xn[i] - xc[i]], y |-> [i \in 1..d |-> gn[i] - gc[i]]]
       q == TLCEval(SubSeq(<<p>> \o r.q, 1, Min2(r.m, Len(r.q) + 1)))
       n == Len(q) IN
   \E c \in {IF n = 1 THEN 1 ELSE Rnd(1..(2 * n))}, e \in {IF n = 1 THEN 1 ELSE Rnd(1..(2 * n))} :
   UNCHANGED O /\ R' = [R EXCEPT ![s].q = q, ![s].it = r.it + 1] /\
   Do(<<St("rins", <<s, r.it>> \o v, <<>>),
        St("rwalk", <<s, 0, c>>, <<Eq("pairs", Cat([i \in 1..c |-> Pair(q[((i - 1) % n) + 1], d)]), 1, 1)>>),
        St("rwalk", <<s, 1, e>>, <<Eq("pairs", Cat([i \in 1..e |-> Pair(q[n - ((i - 1) % n)], d)]), 1, 1)>>)>>)
ActRInsA == ActRIns
ActRFree == Ready("rfree") /\ LiveR # {} /\ \E s \in {Rnd(LiveR)} : UNCHANGED O /\ R' = [R EXCEPT ![s] = Dead] /\ Do(<<St("rfree", <<s>>, <<>>)>>)

Init == O = [s \in 0..(NO - 1) |-> Dead] /\ R = [s \in 0..(NR - 1) |-> Dead] /\ hist = <<St("heap0", <<>>, <<>>)>> /\ left = MaxLen
RECURSIVE DumpAll(_)
DumpAll(set) == IF set = {} THEN <<>> ELSE LET s == CHOOSE z \in set : TRUE IN <<Dump(s, O[s])>> \o DumpAll(set \ {s})
Finish == left = 0 /\ hist' = hist \o DumpAll(Live) \o <<St("heapcheck", <<>>, <<IntO("heap", 0)>>)>> /\ left' = -1 /\ UNCHANGED <<O, R>>
Next == ActNew \/ ActCp \/ ActFree \/ ActBnd \/ ActStore \/ ActTol \/ ActLs \/ ActVec \/ ActMin \/ ActMinA \/ ActMinB \/ ActDeriv \/ ActBrute \/ ActLine \/ ActOld \/ ActSgd \/ ActRNew \/ ActRIns \/ ActRFree \/ ActRInsA \/ Finish
Spec == Init /\ [][Next]_vars
Emit == left = -1 => CSVWrite("%1$s", <<ToJson(hist)>>, OutFile)
TypeOK == left \in -1..MaxLen /\ \A s \in 0..(NR - 1) : R[s].live => Len(R[s].q) <= R[s].m
\* the ring holds consecutive iterations, newest first
RingOK == \A s \in 0..(NR - 1) : R[s].live => \A i \in 1..Len(R[s].q) : R[s].q[i].it = R[s].it - i
=============================================================================
