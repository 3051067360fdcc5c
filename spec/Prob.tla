-------------------------------- MODULE Prob --------------------------------
(* The probability layer: a density is a function train f on a box, optionally pushed forward by the affine map
   x = A z + b (A lower triangular). Then
     p(x)            = f(z) / |det A|   for z = A^-1 (x - b) in the box, 0 outside;
     grad log p (x)  = A^-T grad f(z) / f(z);
     hess log p (x)  = A^-T (hess f(z) / f(z)) A^-1 - grad log p grad log p^T,
   and copies, serialised and saved densities are the same density. Gaussian densities are the special case f = standard
   normal, A the Cholesky factor of the covariance, b the mean. All points are A z + b for points z of the grid, so every
   expected value is an exact rational. *)
EXTENDS FT
VARIABLE dn            \* densities held by the client
PVars == <<sp, S, A, hist, left, dn>>
ND == 3
DLive == {s \in 0..(ND - 1) : dn[s].live}
TDens == {s \in DLive : dn[s].t = "train"}
GDens == {s \in DLive : dn[s].t = "gauss"}

(************************ partial rational arithmetic ************************)
QU == <<0, 0>>                                  \* undefined (too large, or division by zero)
Big == 1000000000
Fits(x, y) == y = 0 \/ Abs(x) <= Big \div Abs(y)
QR(x, y) == IF y = 0 THEN QU ELSE LET g == Gcd(Abs(x), Abs(y))  s == IF y < 0 THEN -1 ELSE 1 IN <<s * (x \div g), (s * y) \div g>>
QMul(p, q) == IF p[2] = 0 \/ q[2] = 0 THEN QU
  ELSE LET g == Gcd(Abs(p[1]), q[2])  h == Gcd(Abs(q[1]), p[2])  a == p[1] \div g  d == q[2] \div g  c == q[1] \div h  b == p[2] \div h
       IN IF Fits(a, c) /\ Fits(b, d) THEN QR(a * c, b * d) ELSE QU
QAdd(p, q) == IF p[2] = 0 \/ q[2] = 0 THEN QU
  ELSE LET g == Gcd(p[2], q[2])  u == q[2] \div g  w == p[2] \div g
       IN IF Fits(p[1], u) /\ Fits(q[1], w) /\ Fits(p[2], u) THEN QR(p[1] * u + q[1] * w, p[2] * u) ELSE QU
QInv(p) == IF p[1] = 0 THEN QU ELSE QR(p[2], p[1])
QNeg(p) == <<-p[1], p[2]>>
QSum(s) == FoldLeft(LAMBDA x, y : QAdd(x, y), <<0, 1>>, s)
QAbs(p) == <<Abs(p[1]), p[2]>>
Rats(k, v, p, sc, fz) == [k |-> k, m |-> "rat", v |-> v, p |-> p, rs |-> sc, fz |-> fz]
Defd(s) == \A i \in 1..Len(s) : s[i][2] > 0

(***************************** affine transforms *****************************)
\* m x m, lower triangular with diagonal from dg (M[i][j], zero above the diagonal)
RndLow(m, dg, lo, hi) == LET q == RndSeq(m * m, lo..hi)  d == RndSeq(m, dg)
                         IN TLCEval([i \in 1..m |-> [j \in 1..m |-> IF j < i THEN q[(i - 1) * m + j] ELSE IF j = i THEN d[i] ELSE 0]])
Det(M) == ProdSeq([i \in 1..Len(M) |-> M[i][i]])
\* column-major entries, as the library stores them
ColMaj(M, r, c) == [q \in 1..(r * c) |-> M[((q - 1) % r) + 1][((q - 1) \div r) + 1]]
\* the inverse of a lower triangular matrix, by forward substitution
RECURSIVE InvRows(_, _)
InvRows(M, i) == IF i = 0 THEN <<>> ELSE LET R == InvRows(M, i - 1) IN
  Append(R, TLCEval([j \in 1..Len(M) |-> QMul(QR(1, M[i][i]), QAdd(IF i = j THEN <<1, 1>> ELSE <<0, 1>>, QNeg(QSum([k \in 1..(i - 1) |-> QMul(<<M[i][k], 1>>, R[k][j])]))))]))
InvOf(M) == TLCEval(InvRows(M, Len(M)))
\* A z + b for z in quarters
XOf(M, b, z4) == [i \in 1..Len(M) |-> ToString(SumSeq([j \in 1..Len(M) |-> M[i][j] * z4[j]]) + 4 * b[i]) \o "/4"]

Keep == UNCHANGED <<S, A>>
PLook(op, a, x) == Keep /\ UNCHANGED dn /\ Do(<<St(op, a, x)>>)
\* a transform taken through copies (c), serialisation (s), inversion (i); what it is at the end
ActLt == Ready("lt") /\ \E m \in {Rnd(1..4)} : \E M \in {RndLow(m, {1, -1, 2, -2, 4}, -2, 2)}, b \in {RndSeq(m, -3..3)}, l \in {Rnd(0..5)} :
   \E w \in {RndSeq(l, {"c", "s", "i"})} :
   LET inv == \E i \in 1..l : w[i] = "i"
       I == InvOf(M)
       bi == [i \in 1..m |-> QNeg(QSum([j \in 1..m |-> QMul(I[i][j], <<b[j], 1>>)]))]
   IN PLook("lt", <<m, l>> \o w \o ColMaj(M, m, m) \o b \o <<Det(M)>>,
        <<IntO("dimin", m), IntO("dimout", m), Eq("A", ColMaj(M, m, m), 1, 4), Eq("b", b, 1, 4), Eq("det", <<Det(M)>>, 1, 4), IntO("inv", IF inv THEN 1 ELSE 0)>> \o
        (IF inv THEN <<Rats("Ainv", ColMaj(I, m, m), 0, <<>>, <<1, 1>>), Rats("binv", bi, 0, <<>>, <<1, 1>>), Rats("detinv", <<QR(1, Det(M))>>, 0, <<>>, <<1, 1>>)>> ELSE <<>>))
\* any matrix: out = M x + b
ActLtx == Ready("ltx") /\ \E mi \in {Rnd(1..4)}, mo \in {Rnd(1..4)} : \E q \in {RndSeq(mi * mo, -3..3)}, x \in {RndSeq(mi, -3..3)}, b \in {RndSeq(mo, -3..3)} :
   LET M == [i \in 1..mo |-> [j \in 1..mi |-> q[(i - 1) * mi + j]]]
   IN PLook("ltx", <<mi, mo>> \o ColMaj(M, mo, mi) \o x \o b, <<Eq("v", [i \in 1..mo |-> SumSeq([j \in 1..mi |-> M[i][j] * x[j]]) + b[i]], 1, 4)>>)

(********************************* densities *********************************)
PutD(s, d, op, a, x) == Keep /\ dn' = [dn EXCEPT ![s] = d] /\ Do(<<St(op, a, x)>>)
AnyD == Rnd(0..(ND - 1))
ActPmk == Ready("pdmk") /\ ~IsK /\ Live # {} /\ \E s \in {LiveS}, d \in {AnyD}, lt \in {Rnd(1..3) > 1} :
   \E M \in {IF lt THEN RndLow(D, {1, -1, 2, -2, 4}, -2, 2) ELSE <<>>}, b \in {IF lt THEN RndSeq(D, -3..3) ELSE <<>>} :
   PutD(d, [live |-> TRUE, t |-> "train", f |-> S[s], lt |-> lt, M |-> M, b |-> b], "pdmk", <<d, s, IF lt THEN 1 ELSE 0>> \o (IF lt THEN ColMaj(M, D, D) \o b \o <<Det(M)>> ELSE <<>>), <<>>)
ActPfree == Ready("pdfree") /\ DLive # {} /\ \E d \in {Rnd(DLive)} : PutD(d, Dead, "pdfree", <<d>>, <<>>)
ActPser == Ready("pdser") /\ DLive # {} /\ \E s \in {Rnd(DLive)}, d \in {AnyD} : s # d /\ PutD(d, dn[s], "pdser", <<d, s>>, <<IntO("wrote", 0), IntO("read", 0)>>)
ActPsave == Ready("pdsave") /\ DLive # {} /\ \E s \in {Rnd(DLive)}, d \in {AnyD} : s # d /\ PutD(d, dn[s], "pdsave", <<d, s>>, <<IntO("ok", 1), IntO("missing", 0)>>)
Inside(P) == \A k \in 1..D : P[k].i >= 1 /\ (P[k].i = NN(sp[k]) => P[k].w = 0)
XStr(d, P) == IF d.lt THEN XOf(d.M, d.b, PN(P)) ELSE PS(P)
FzQ(f, P) == QR(EvNum(f, P), EvDen(f))
ScQ(f) == QR(f.sc, f.den)
ActPev == Ready("pdev") /\ \E s \in {z \in TDens : EvOk(dn[z].f)} : \E P \in {IF Rnd(1..3) = 1 THEN [RndPts EXCEPT ![Rnd(1..D)] = Rnd(PtsOut(sp[1]))] ELSE RndPts} :
   (\A k \in 1..D : P[k].i <= NN(sp[k])) /\
   LET d == dn[s]  v == IF Inside(P) THEN QMul(FzQ(d.f, P), QR(1, IF d.lt THEN Abs(Det(d.M)) ELSE 1)) ELSE <<0, 1>>
   IN v[2] > 0 /\ PLook("pdev", <<s>> \o XStr(d, P), <<Rats("v", <<v>>, 0, <<ScQ(d.f)>>, <<1, 1>>)>>)
\* gradients: f must not (nearly) vanish at z
DerQ(f, P) == TLCEval([k \in 1..D |-> FzQ(Der(f, k), P)])
Der2Q(f, P) == TLCEval([i \in 1..D |-> [j \in 1..D |-> FzQ(Der2(f, i, j), P)]])
Away(f, P) == LET e == EvNum(f, P) IN e # 0 /\ Abs(e) >= (f.sc * Pow(4, D)) \div 1000
LogGrad(d, P) == LET g == DerQ(d.f, P)  r == QInv(FzQ(d.f, P))
                     I == IF d.lt THEN InvOf(d.M) ELSE [i \in 1..D |-> [j \in 1..D |-> IF i = j THEN <<1, 1>> ELSE <<0, 1>>]]
                 IN TLCEval([i \in 1..D |-> QMul(r, QSum([k \in 1..D |-> QMul(I[k][i], g[k])]))])
LogHess(d, P) == LET g == LogGrad(d, P)  h == Der2Q(d.f, P)  r == QInv(FzQ(d.f, P))
                     I == IF d.lt THEN InvOf(d.M) ELSE [i \in 1..D |-> [j \in 1..D |-> IF i = j THEN <<1, 1>> ELSE <<0, 1>>]]
                     hI == TLCEval([k \in 1..D |-> [j \in 1..D |-> QSum([l \in 1..D |-> QMul(h[k][l], I[l][j])])]])
                 IN TLCEval([q \in 1..(D * D) |-> LET i == ((q - 1) % D) + 1  j == ((q - 1) \div D) + 1
                       IN QAdd(QMul(r, QSum([k \in 1..D |-> QMul(I[k][i], hI[k][j])])), QNeg(QMul(g[i], g[j])))])
SmallP(f) == f.sc <= 600 /\ f.den <= 24 /\ EvOk(f)
InPts == TLCEval([k \in 1..D |-> Rnd(PtsIn(sp[k]))])
ActPlg == Ready("pdlg") /\ \E s \in {z \in TDens : SmallP(dn[z].f) /\ AllDer(dn[z].f) /\ \A k \in 1..D : EvOk(Der(dn[z].f, k))} : \E P \in {InPts} :
   LET d == dn[s] IN /\ Away(d.f, P)
   /\ LET v == LogGrad(d, P) IN Defd(v) /\ PLook("pdlg", <<s>> \o XStr(d, P), <<Rats("v", v, 1, <<ScQ(d.f)>> \o [k \in 1..D |-> ScQ(Der(d.f, k))], FzQ(d.f, P))>>)
ActPlh == Ready("pdlh") /\ D <= 3 /\ \E s \in {z \in TDens : SmallP(dn[z].f) /\ D2Ok(dn[z].f) /\ \A k \in 1..D : EvOk(Der(dn[z].f, k)) /\ \A j \in 1..D : EvOk(Der2(dn[z].f, k, j))} : \E P \in {InPts} :
   LET d == dn[s] IN /\ Away(d.f, P)
   /\ LET v == LogHess(d, P) IN Defd(v) /\ PLook("pdlh", <<s>> \o XStr(d, P), <<Rats("v", v, 2, <<ScQ(d.f)>> \o [k \in 1..D |-> ScQ(Der(d.f, k))] \o [k \in 1..D |-> ScQ(Der2(d.f, k, k))], FzQ(d.f, P))>>)
ActPbnd == Ready("pdbnd") /\ TDens # {} /\ \E s \in {Rnd(TDens)} : PLook("pdbnd", <<s>>, <<Eq("lb", [k \in 1..D |-> sp[k].x[1]], 1, 4), Eq("ub", [k \in 1..D |-> sp[k].x[n[k]]], 1, 4)>>)

(****************************** normal densities *****************************)
\* standard normal (std), N(b, M M^T) by covariance (mvn), Laplace approximation of a quadratic with Hessian (M M^T)^-1 (lap)
Cov(M) == LET m == Len(M) IN TLCEval([i \in 1..m |-> [j \in 1..m |-> SumSeq([k \in 1..m |-> M[i][k] * M[j][k]])]])
Ident(m) == [i \in 1..m |-> [j \in 1..m |-> IF i = j THEN 1 ELSE 0]]
ActGmk == Ready("gmk") /\ \E how \in {Rnd({"std", "mvn", "mvn", "lap"})}, m \in {Rnd(1..3)}, d \in {AnyD} :
   \E M \in {IF how = "std" THEN Ident(m) ELSE RndLow(m, IF how = "lap" THEN {1} ELSE {1, 2, 3}, -2, 2)}, b \in {IF how = "std" THEN RndSeq(m, {0}) ELSE RndSeq(m, -3..3)} :
   LET I == InvOf(M)
       H == [i \in 1..m |-> [j \in 1..m |-> SumSeq([k \in 1..m |-> I[k][i][1] * I[k][j][1]])]]
   IN PutD(d, [live |-> TRUE, t |-> "gauss", m |-> m, M |-> M, b |-> b],
           "gmk", <<how, d, m>> \o (IF how = "std" THEN <<>> ELSE ColMaj(IF how = "lap" THEN H ELSE Cov(M), m, m) \o b \o (IF how = "lap" THEN RndSeq(m, -2..2) ELSE <<>>)), <<>>)
Gau(k, d, z, what) == [k |-> k, m |-> "gauss", what |-> what, M |-> d.M, b |-> d.b, z |-> z]
ActGev == Ready("gev") /\ GDens # {} /\ \E s \in {Rnd(GDens)} : \E z \in {RndSeq(dn[s].m, -10..10)}, what \in {Rnd({"pdev", "pdev", "pdlg", "pdlh"})} :
   LET d == dn[s] IN PLook(what, <<s>> \o XOf(d.M, d.b, z), <<Gau("v", d, z, what)>>)
\* ten standard deviations from the mean and beyond the density is zero
ActGfar == Ready("gev") /\ GDens # {} /\ \E s \in {Rnd(GDens)} : \E z \in {[RndSeq(dn[s].m, -10..10) EXCEPT ![Rnd(1..dn[s].m)] = Rnd({-41, 43, 100})]} :
   LET d == dn[s] IN PLook("pdev", <<s>> \o XOf(d.M, d.b, z), <<Rats("v", <<<<0, 1>>>>, 0, <<>>, <<1, 1>>)>>)
ActGsamp == Ready("gsamp") /\ GDens # {} /\ \E s \in {Rnd(GDens)}, cnt \in {Rnd({2000, 5000})}, sd \in {Rnd(1..1000)} :
   LET d == dn[s] IN PLook("gsamp", <<s, cnt, sd>>, <<[k |-> "mean", m |-> "gmom", M |-> d.M, b |-> d.b, cnt |-> cnt], [k |-> "cov", m |-> "gmom", M |-> d.M, b |-> d.b, cnt |-> cnt]>>)
\* the scalar normal distribution: cdf at mean + std z/8, quantile of q/1024 or of 2^-e, 1 - 2^-e, and the two composed
ActNorm1 == Ready("norm1") /\ \E mean \in {Rnd(-5..5)}, sd \in {Rnd(1..6)}, z \in {Rnd(-45..45)}, q \in {IF Rnd(1..3) = 1 THEN Rnd({1, 2, 24, 25, 26, 999, 1000, 1022, 1023, 512}) ELSE Rnd(1..1023)}, e \in {Rnd(2..25)} :
   PLook("norm1", <<mean, ToString(sd) \o "/2", ToString(16 * mean + sd * z) \o "/16", ToString(q) \o "/1024", e>>,
         <<[k |-> "v", m |-> "norm1", mean |-> mean, sd |-> sd, z |-> z, q |-> q, e |-> e]>>)

(********************************* the end **********************************)
PFinish == /\ sp # <<>> /\ left = 0 /\ UNCHANGED <<sp, S, A, dn>> /\ left' = -1
           /\ hist' = hist \o DumpAll(S, Live) \o <<St("heapcheck", <<>>, <<IntO("heap", 0)>>)>>
PInit == Init /\ dn = [s \in 0..(ND - 1) |-> Dead]
FTMoves == (Setup \/ ActMk \/ ActLinear \/ ActTab \/ ActConst \/ ActSum \/ ActProd \/ ActScale) /\ UNCHANGED dn
PNext == FTMoves \/ ActLt \/ ActLtx \/ ActPmk \/ ActPmk \/ ActPfree \/ ActPser \/ ActPsave \/ ActPev \/ ActPev \/ ActPlg \/ ActPlh \/ ActPbnd
         \/ ActGmk \/ ActGev \/ ActGfar \/ ActGsamp \/ ActNorm1 \/ PFinish
POK == TypeOK /\ \A s \in DLive : dn[s].t = "train" => Len(dn[s].f.v) = Size(n)
=============================================================================
