--------------------------------- MODULE Qm ---------------------------------
(* Matrices whose entries are univariate functions (Qmarray) and rows of functions (Quasimatrix), over one piecewise
   linear or piecewise constant grid. The abstract value of an entry is the sequence of its integer nodal values. A client
   builds, combines, updates and stores such objects in any order; every object it holds is compared after every change.
   Algebra is exact. Factorisations are checked by their defining equations in the inner product of the grid. *)
EXTENDS Grid, FiniteSets, Json, CSV, IOUtils, TLCExt
CONSTANTS Ops, Fams, MaxLen, MaxN, OutFile
VARIABLES g, Q, Z, hist, left
vars == <<g, Q, Z, hist, left>>
NQ == 5
NZ == 3
LIM == 4000
Dead == [live |-> FALSE]
Rnd(set) == IF left < -1 THEN 0 ELSE RandomElement(set)
RndSeq(m, set) == TLCEval([i \in 1..m |-> IF left < -1 THEN 0 ELSE RandomElement(set)])
Ready(o) == o \in Ops /\ g.fam # "none" /\ left > 0
n == Len(g.x)
Live == {s \in 0..(NQ - 1) : Q[s].live}
ZLive == {s \in 0..(NZ - 1) : Z[s].live}
RECURSIVE Cat(_)
Cat(t) == IF t = <<>> THEN <<>> ELSE Head(t) \o Cat(Tail(t))
Eq(k, v, den, sc) == [k |-> k, m |-> "eq", v |-> v, den |-> den, sc |-> sc]
IntO(k, v) == [k |-> k, m |-> "int", v |-> <<v>>]
St(op, a, x) == [op |-> op, a |-> a, x |-> x]
(* with "unit" all values are integers times 2^UE *)
UE == g.u
XQ(o, e) == IF e = 0 THEN o ELSE o @@ [ex |-> e]
XQL(o, e) == IF e = 0 THEN o ELSE o @@ [ex |-> <<e, 0, 0>>]

(* function values *)
VMul(a, b) == [u \in 1..n |-> a[u] * b[u]]
VLin(al, a, be, b) == [u \in 1..n |-> al * a[u] + be * b[u]]
VSum(m, F(_)) == [u \in 1..n |-> SumSeq([k \in 1..m |-> F(k)[u]])]
Zero == [u \in 1..n |-> 0]
(* matrices of functions; entries by columns *)
Mk(r, c, v) == [live |-> TRUE, r |-> r, c |-> c, v |-> v]
Tab(r, c, F(_, _)) == Mk(r, c, TLCEval([e \in 1..(r * c) |-> F(((e - 1) % r) + 1, ((e - 1) \div r) + 1)]))
En(a, i, j) == a.v[(j - 1) * a.r + i]
Flat(a) == Cat(a.v)
Big(a) == MaxAbs(<<0>> \o [e \in 1..Len(a.v) |-> MaxAbs(a.v[e])])
T(a) == Tab(a.c, a.r, LAMBDA i, j : En(a, j, i))
PM(a, b) == Tab(a.r, b.c, LAMBDA i, j : VSum(a.c, LAMBDA k : VMul(En(a, i, k), En(b, k, j))))
Kron(a, b) == Tab(a.r * b.r, a.c * b.c, LAMBDA i, j : VMul(En(a, ((i - 1) \div b.r) + 1, ((j - 1) \div b.c) + 1), En(b, ((i - 1) % b.r) + 1, ((j - 1) % b.c) + 1)))
StackH(a, b) == Mk(a.r, a.c + b.c, a.v \o b.v)
StackV(a, b) == Tab(a.r + b.r, a.c, LAMBDA i, j : IF i <= a.r THEN En(a, i, j) ELSE En(b, i - a.r, j))
BDiag(a, b) == Tab(a.r + b.r, a.c + b.c, LAMBDA i, j : IF i <= a.r /\ j <= a.c THEN En(a, i, j) ELSE IF i > a.r /\ j > a.c THEN En(b, i - a.r, j - a.c) ELSE Zero)
RECURSIVE FoldM(_, _)
FoldM(how, s) == IF Len(s) = 1 THEN s[1] ELSE LET p == FoldM(how, SubSeq(s, 1, Len(s) - 1))  q == s[Len(s)]
                 IN CASE how = "R" -> StackH(p, q) [] how = "C" -> StackV(p, q) [] OTHER -> BDiag(p, q)
(* numbers: R given by columns, rr rows *)
RE(R, rr, i, j) == R[(j - 1) * rr + i]
MulR(a, R, b) == Tab(a.r, b, LAMBDA i, j : VSum(a.c, LAMBDA k : [u \in 1..n |-> RE(R, a.c, k, j) * En(a, i, k)[u]]))
MulL(R, a, b) == Tab(b, a.c, LAMBDA i, j : VSum(a.r, LAMBDA k : [u \in 1..n |-> RE(R, b, i, k) * En(a, k, j)[u]]))
Fit(a, b, m) == Big(a) * Big(b) < LIM /\ Big(a) * Big(b) * m < LIM
SumsOk(a, k) == Big(a) * k * 3 < LIM
RndQ(r, c) == Mk(r, c, TLCEval([e \in 1..(r * c) |-> RndSeq(n, -3..3)]))

(* the client *)
QDump(s, a) == St("qdump", <<s>>, <<IntO("r", a.r), IntO("c", a.c), XQ(Eq("v", Flat(a), 1, 1 + Big(a)), UE)>>)
ZDump(s, a) == St("zdump", <<s>>, <<IntO("c", a.c), XQ(Eq("v", Flat(a), 1, 1 + Big(a)), UE)>>)
RECURSIVE QAll(_, _)
QAll(set, QQ) == IF set = {} THEN <<>> ELSE LET s == CHOOSE t \in set : TRUE IN <<QDump(s, QQ[s])>> \o QAll(set \ {s}, QQ)
RECURSIVE ZAll(_, _)
ZAll(set, ZZ) == IF set = {} THEN <<>> ELSE LET s == CHOOSE t \in set : TRUE IN <<ZDump(s, ZZ[s])>> \o ZAll(set \ {s}, ZZ)
Do(steps) == hist' = hist \o steps /\ left' = left - 1
Look(steps) == UNCHANGED <<g, Q, Z>> /\ Do(steps)
QSet(s, a, steps) == /\ a.r * a.c <= 16 /\ Big(a) < LIM /\ Q' = [Q EXCEPT ![s] = a] /\ UNCHANGED <<g, Z>>
                     /\ Do(steps \o QAll(Live \cup {s}, [Q EXCEPT ![s] = a]) \o ZAll(ZLive, Z))
ZSet(s, a, steps) == /\ a.c <= 6 /\ Big(a) < LIM /\ Z' = [Z EXCEPT ![s] = a] /\ UNCHANGED <<g, Q>>
                     /\ Do(steps \o ZAll(ZLive \cup {s}, [Z EXCEPT ![s] = a]) \o QAll(Live, Q))
AnyS == Rnd(0..(NQ - 1))
LiveS == Rnd(Live)

Setup == g.fam = "none" /\ left > 0 /\ \E f \in {Rnd(Fams)}, m \in {IF MaxN > 10 /\ Rnd(1..3) = 1 THEN Rnd({24, 33, 65}) ELSE Rnd(2..MaxN)}, u \in {IF "unit" \in Ops THEN Rnd({-24, -10, 0, 0, 12, 24}) ELSE 0} : \E st \in {RndSeq(m, 1..2)}, x0 \in {Rnd(-3..1)} :
   LET x == TLCEval([i \in 1..m |-> x0 + (IF f = "C" THEN 2 * (i - 1) ELSE SumSeq([k \in 1..(i - 1) |-> st[k]]))]) IN
   /\ g' = [fam |-> f, x |-> x, u |-> u] /\ UNCHANGED <<Q, Z>> /\ Do(<<St("qgrid", <<IF f = "L" THEN 0 ELSE 1, m>> \o x, <<>>)>>)

ActMk == Ready("qmk") /\ \E s \in {AnyS}, r \in {Rnd(1..3)}, c \in {Rnd(1..3)} : \E a \in {RndQ(r, c)}, k \in {Rnd({"qmk", "qmk", "qapx"})} : QSet(s, a, <<St(k, <<s, r, c>> \o Flat(a), <<>>)>>)
ActMkA == ActMk
ActZeros == Ready("qmk") /\ \E s \in {AnyS}, r \in {Rnd(1..3)}, c \in {Rnd(1..3)}, go \in {Rnd(1..3)} : go = 1 /\ QSet(s, Tab(r, c, LAMBDA i, j : Zero), <<St("qzeros", <<s, r, c>>, <<>>)>>)
ActCp == Ready("qcp") /\ Live # {} /\ \E s \in {AnyS}, a \in {LiveS}, k \in {Rnd({"qcp", "qop", "qser", "qtxt"})} : QSet(s, Q[a], <<St(k, <<s, a>>, <<>>)>>)
ActFirst == Ready("qcp") /\ Live # {} /\ \E s \in {AnyS}, a \in {LiveS} : \E k \in {Rnd(1..Q[a].c)} : QSet(s, Mk(Q[a].r, k, SubSeq(Q[a].v, 1, k * Q[a].r)), <<St("qfirst", <<s, a, k>>, <<>>)>>)
ActFree == Ready("qcp") /\ Cardinality(Live) > 2 /\ \E s \in {LiveS} : Q' = [Q EXCEPT ![s] = Dead] /\ UNCHANGED <<g, Z>> /\ Do(<<St("qfree", <<s>>, <<>>)>> \o QAll(Live \ {s}, Q))
ActUpd == Ready("qupd") /\ Live # {} /\ \E s \in {LiveS} : \E a \in {RndQ(Q[s].r, Q[s].c)} : QSet(s, a, <<St("qupd", <<s>> \o Flat(a), <<>>)>>)
ActUni == Ready("qupd") /\ Live # {} /\ \E s \in {LiveS}, v \in {RndSeq(n, -3..3)} : \E i \in {Rnd(1..Q[s].r)}, j \in {Rnd(1..Q[s].c)} :
   QSet(s, [Q[s] EXCEPT !.v[(j - 1) * Q[s].r + i] = v], <<St("quni", <<s, i - 1, j - 1>> \o v, <<IntO("n", n)>>)>>)
ActLm == Ready("qlm") /\ Live # {} /\ \E s \in {AnyS}, a \in {LiveS}, b \in {Rnd(1..3)}, k \in {Rnd({"qmam", "qmatm", "mqma"})} : LET A == Q[a] IN
   \E R \in {RndSeq(b * (IF k = "qmam" THEN A.c ELSE A.r), -2..2)} : SumsOk(A, Max2(A.r, A.c)) /\
   QSet(s, CASE k = "qmam" -> MulR(A, R, b) [] k = "qmatm" -> MulR(T(A), R, b) [] OTHER -> MulL(R, A, b), <<St("qlm", <<k, s, a, b>> \o R, <<>>)>>)
ActPr == Ready("qpr") /\ Live # {} /\ \E s \in {AnyS}, a \in {LiveS}, k \in {Rnd({"nn", "tn", "nt", "tt", "kr"})} : LET A == Q[a]
     ok == {b \in Live : CASE k = "nn" -> Q[b].r = A.c [] k = "tn" -> Q[b].r = A.r [] k = "nt" -> Q[b].c = A.c [] k = "tt" -> Q[b].c = A.r [] OTHER -> TRUE}
   IN ok # {} /\ \E b \in {Rnd(ok)} : LET B == Q[b] IN Fit(A, B, Max2(A.r, A.c)) /\
      QSet(s, CASE k = "nn" -> PM(A, B) [] k = "tn" -> PM(T(A), B) [] k = "nt" -> PM(A, T(B)) [] k = "tt" -> PM(T(A), T(B)) [] OTHER -> Kron(A, B), <<St("qpr", <<k, s, a, b>>, <<>>)>>)
ActPrA == ActPr
\* vector times Kronecker product: the vector runs fastest over the rows of the first factor, the result is laid out columns of the first by columns of the second
VecKron(v, A, B) == Tab(A.c, B.c, LAMBDA i, j : VSum(A.r * B.r, LAMBDA k : LET ka == ((k - 1) % A.r) + 1  kb == ((k - 1) \div A.r) + 1 IN [u \in 1..n |-> v[k] * En(A, ka, i)[u] * En(B, kb, j)[u]]))
VkOk(A, B) == Fit(A, B, A.r * B.r * 2)
ActVk == Ready("qvk") /\ Live # {} /\ \E s \in {AnyS}, a \in {LiveS}, b \in {LiveS} : \E v \in {RndSeq(Q[a].r * Q[b].r, -2..2)} : VkOk(Q[a], Q[b]) /\
   QSet(s, VecKron(v, Q[a], Q[b]), <<St("qvk", <<s, a, b>> \o v, <<>>)>>)
ActMatk == Ready("qvk") /\ Live # {} /\ \E s \in {AnyS}, a \in {LiveS}, b \in {LiveS}, r \in {Rnd(1..3)} : \E m \in {RndSeq(r * Q[a].r * Q[b].r, -2..2)} : VkOk(Q[a], Q[b]) /\
   r * Q[a].c * Q[b].c <= 16 /\ QSet(s, MulL(m, Kron(Q[a], Q[b]), r), <<St("qmatk", <<s, r, a, b>> \o m, <<>>)>>)
ActKmat == Ready("qvk") /\ Live # {} /\ \E s \in {AnyS}, a \in {LiveS}, b \in {LiveS}, r \in {Rnd(1..3)} : \E m \in {RndSeq(r * Q[a].c * Q[b].c, -2..2)} : Fit(Q[a], Q[b], Q[a].c * Q[b].c * 2) /\
   r * Q[a].r * Q[b].r <= 16 /\ QSet(s, MulR(Kron(Q[a], Q[b]), m, r), <<St("qkmat", <<s, r, a, b>> \o m, <<>>)>>)
ActBlk == Ready("qblk") /\ Live # {} /\ \E s \in {AnyS}, t \in {Rnd({"D", "R", "C"})}, lf \in {Rnd({0, 1})}, nb \in {Rnd(1..3)}, a \in {LiveS}, c \in {LiveS}, r \in {Rnd(1..2)} :
   LET ok == {b \in Live : CASE t = "R" -> Q[b].r = Q[a].r [] t = "C" -> Q[b].c = Q[a].c [] OTHER -> TRUE} IN
   \E w \in {<<a>> \o RndSeq(nb - 1, ok)} : LET L == FoldM(t, [i \in 1..nb |-> Q[w[i]]])  K == Q[c]  nm == IF lf = 1 THEN L.r * K.r ELSE L.c * K.c IN
   /\ L.r * L.c <= 20 /\ Fit(L, K, nm * 2)
   /\ \E m \in {RndSeq(r * nm, -2..2)} : LET o == IF lf = 1 THEN MulL(m, Kron(L, K), r) ELSE MulR(Kron(L, K), m, r) IN
      QSet(s, o, <<St("qblk", <<s, t, lf, nb>> \o w \o <<c, r, r * nm>> \o m \o <<o.r, o.c>>, <<>>)>>)
ActAxpy == Ready("qst") /\ Live # {} /\ \E s \in {LiveS}, al \in {Rnd(-2..3)} : LET ok == {b \in Live \ {s} : Q[b].r = Q[s].r /\ Q[b].c = Q[s].c} IN ok # {} /\ \E b \in {Rnd(ok)} :
   QSet(s, Tab(Q[s].r, Q[s].c, LAMBDA i, j : VLin(al, En(Q[b], i, j), 1, En(Q[s], i, j))), <<St("qaxpy", <<al, b, s>>, <<>>)>>)
ActTr == Ready("qst") /\ Live # {} /\ \E s \in {AnyS}, a \in {LiveS} : QSet(s, T(Q[a]), <<St("qtr", <<s, a>>, <<>>)>>)
ActSt == Ready("qst") /\ Live # {} /\ \E s \in {AnyS}, a \in {LiveS}, k \in {Rnd({"h", "v", "d"})} :
   LET ok == {b \in Live : CASE k = "h" -> Q[b].r = Q[a].r [] k = "v" -> Q[b].c = Q[a].c [] OTHER -> TRUE} IN \E b \in {Rnd(ok)} :
   QSet(s, CASE k = "h" -> StackH(Q[a], Q[b]) [] k = "v" -> StackV(Q[a], Q[b]) [] OTHER -> BDiag(Q[a], Q[b]), <<St("qst", <<k, s, a, b>>, <<>>)>>)

(* observations *)
Pt == Rnd(PtsIn(g))
PVal(f, p) == Dot(PtW(g, p), f)     \* four times the value
AllE(a) == 1..(a.r * a.c)
ActEv == Ready("qev") /\ Live # {} /\ \E a \in {LiveS}, p \in {Pt} : LET A == Q[a]  sl == SlopeAt(g, p) IN
   Look(<<St("qev", <<a, PtStr(g, p)>>, <<Eq("v", [e \in AllE(A) |-> PVal(A.v[e], p)], 4, 4 * Big(A))>>),
          St("qde", <<a, PtStr(g, p)>>, <<Eq("v", [e \in AllE(A) |-> Dot(sl.row, A.v[e])], sl.den, sl.den * (1 + 4 * Big(A)))>>)>>)
ActDer == Ready("qev") /\ Live # {} /\ \E a \in {LiveS} : LET A == Q[a]  D == DerMat(g)  de == DerDen(g) IN Big(A) < 1000 /\ de < 500 /\
   Look(<<St("qder", <<a>>, <<IntO("r", A.r), IntO("c", A.c), Eq("v", Cat([e \in AllE(A) |-> [i \in 1..n |-> Dot(D[i], A.v[e])]]), de, de * (1 + 20 * Big(A)))>>)>>)
W == IntW(g)
IP(a, b) == SumSeq([u \in 1..n |-> W[u] * a[u] * b[u]])      \* twice the inner product
IM(a, b) == Tab(a.r, b.c, LAMBDA i, j : SumSeq([k \in 1..a.c |-> IP(En(a, i, k), En(b, k, j))])).v
IKron(a, b) == Tab(a.r * b.r, a.c * b.c, LAMBDA i, j : IP(En(a, ((i - 1) \div b.r) + 1, ((j - 1) \div b.c) + 1), En(b, ((i - 1) % b.r) + 1, ((j - 1) % b.c) + 1))).v
ActInt == Ready("qint") /\ Live # {} /\ \E a \in {LiveS} : LET A == Q[a] IN Look(<<St("qint", <<a>>, <<Eq("v", [e \in AllE(A) |-> Dot(W, A.v[e])], 2, 20 * Big(A))>>)>>)
ActPint == Ready("qint") /\ Live # {} /\ \E a \in {LiveS}, k \in {Rnd({"nn", "tn", "nt", "kr"})} : LET A == Q[a]
     ok == {b \in Live : CASE k = "nn" -> Q[b].r = A.c [] k = "tn" -> Q[b].r = A.r [] k = "nt" -> Q[b].c = A.c [] OTHER -> TRUE}
   IN ok # {} /\ \E b \in {Rnd(ok)} : LET B == Q[b] IN Big(A) * Big(B) < 300000 /\
      Look(<<St("qpint", <<k, a, b>>, <<Eq("v", CASE k = "nn" -> IM(A, B) [] k = "tn" -> IM(T(A), B) [] k = "nt" -> IM(A, T(B)) [] OTHER -> IKron(A, B), 2, 100 * Big(A) * Big(B))>>)>>)
ActVkint == Ready("qint") /\ Live # {} /\ \E a \in {LiveS}, b \in {LiveS} : \E v \in {RndSeq(Q[a].r * Q[b].r, -2..2)} : LET A == Q[a]  B == Q[b] IN VkOk(A, B) /\
   Look(<<St("qvkint", <<a, b>> \o v, <<Eq("v", LET V == VecKron(v, A, B) IN [e \in AllE(V) |-> Dot(W, V.v[e])], 2, 200 * Big(A) * Big(B))>>)>>)
Sqn(A) == SumSeq([e \in AllE(A) |-> IP(A.v[e], A.v[e])])
ActNorm == Ready("qint") /\ Live # {} /\ \E a \in {LiveS} : LET A == Q[a] IN Big(A) < 1000 /\ Look(<<St("qnorm", <<a>>, <<[k |-> "v", m |-> "sqrtof", v |-> Sqn(A), den |-> 2]>>)>>)
ActNd == Ready("qint") /\ Live # {} /\ \E a \in {LiveS} : LET ok == {b \in Live : Q[b].r = Q[a].r /\ Q[b].c = Q[a].c} IN \E b \in {Rnd(ok)} :
   LET D == Tab(Q[a].r, Q[a].c, LAMBDA i, j : VLin(1, En(Q[a], i, j), -1, En(Q[b], i, j))) IN Big(D) < 1000 /\ Look(<<St("qndiff", <<a, b>>, <<[k |-> "v", m |-> "sqrtof", v |-> Sqn(D), den |-> 2]>>)>>)
Locs(v, mx) == SetToSeq({<<e - 1, g.x[u]>> : <<e, u>> \in {w \in (1..Len(v)) \X (1..n) : Abs(v[w[1]][w[2]]) = mx}})
ActAbs == Ready("qint") /\ Live # {} /\ \E a \in {LiveS} : LET mx == Big(Q[a]) IN mx > 0 /\ Look(<<St("qabs", <<a>>, <<[k |-> "v", m |-> "argmax", v |-> <<mx>>, den |-> 1, sc |-> mx, locs |-> Locs(Q[a].v, mx)]>>)>>)
PSeq(N) == TLCEval([i \in 1..N |-> IF left < -1 THEN [i |-> 1, w |-> 0] ELSE RandomElement(PtsIn(g))])
ActPg == Ready("qpg") /\ Live # {} /\ \E a \in {LiveS}, N \in {Rnd(1..3)} : \E ps \in {PSeq(N)}, o \in {<<Rnd(1..2), Rnd(0..2), Rnd(0..2)>>} : LET A == Q[a]  sz == A.r * A.c IN sz <= 6 /\
   Look(<<St("qpg", <<a, N>> \o o \o [i \in 1..N |-> PtStr(g, ps[i])],
      <<Eq("v", Cat([i \in 1..N |-> [e \in AllE(A) |-> PVal(A.v[e], ps[i])]]), 4, 4 * (1 + Big(A))),
        Eq("g", Cat([i \in 1..N |-> LET w == PtW(g, ps[i]) IN [q \in 1..(sz * n * sz) |-> LET pa == (q - 1) \div sz  e == (q - 1) % sz IN IF pa \div n = e THEN w[(pa % n) + 1] ELSE 0]]), 4, 4)>>)>>)
ActPgs == Ready("qpg") /\ Live # {} /\ \E a \in {LiveS}, N \in {Rnd(1..3)}, lf \in {Rnd({0, 1})} : \E ps \in {PSeq(N)}, o \in {<<Rnd(1..2), Rnd(0..2), Rnd(0..2)>>} : LET A == Q[a]  sz == A.r * A.c IN sz <= 6 /\
   \E l \in {RndSeq(N * A.r, -3..3)} :
   LET vs == Cat([i \in 1..N |-> [e \in AllE(A) |-> PVal(A.v[e], ps[i])]]) IN
   Look(<<St("qpgs", <<a, N>> \o o \o <<lf>> \o [i \in 1..N |-> PtStr(g, ps[i])] \o (IF lf = 1 THEN l ELSE <<>>),
      <<Eq("v", vs, 4, 4 * (1 + Big(A))), Eq("lin", vs, 4, 4 * (1 + Big(A))),
        Eq("g", Cat([i \in 1..N |-> LET w == PtW(g, ps[i]) IN [q \in 1..(sz * n) |-> w[((q - 1) % n) + 1]]]), 4, 4)>>
      \o (IF lf = 0 THEN <<>> ELSE <<Eq("mult", Cat([i \in 1..N |-> LET w == PtW(g, ps[i]) IN
           [q \in 1..(sz * n * A.c) |-> LET pa == (q - 1) \div A.c  col == (q - 1) % A.c  e == pa \div n IN IF e \div A.r = col THEN w[(pa % n) + 1] * l[(i - 1) * A.r + (e % A.r) + 1] ELSE 0]]), 4, 12)>>))>>)
ActSqn == Ready("qpg") /\ g.fam = "L" /\ Live # {} /\ \E a \in {LiveS}, sc \in {Rnd(1..3)} : LET A == Q[a] IN Big(A) < 300 /\ \E g0 \in {RndSeq(A.r * A.c * n, -3..3)} :
   Look(<<St("qsqn", <<a, sc>> \o g0, <<Eq("v0", <<sc * Sqn(A)>>, 2, 2 * sc * (1 + Sqn(A))), Eq("v", <<sc * Sqn(A)>>, 2, 2 * sc * (1 + Sqn(A))),
      Eq("g", Cat([e \in AllE(A) |-> [u \in 1..n |-> g0[(e - 1) * n + u] + sc * W[u] * A.v[e][u]]]), 1, 10 + 20 * Big(A))>>)>>)

(* factorisations *)
Keep(k) == [k |-> k, m |-> "stash"]
QF(k, what, A, more) == [k |-> k, m |-> "qfac", what |-> what, r |-> A.r, c |-> A.c, v |-> A.v, w |-> W, x |-> g.x, fam |-> g.fam, more |-> more]
LowQ(r, c) == LET kk == Rnd(1..c) IN IF kk = c THEN RndQ(r, c) ELSE LET a == RndQ(r, kk) IN MulR(a, RndSeq(kk * c, -2..2), c)
ActLow == Ready("qlow") /\ \E s \in {AnyS}, r \in {Rnd(1..3)}, c \in {Rnd(1..Min2(n, 4))} : \E a \in {LowQ(r, c)} : QSet(s, a, <<St("qmk", <<s, r, c>> \o Nums(Flat(a), UE), <<>>)>>)
ActLowA == ActLow
\* full column rank of up to three columns: some minor of the nodal values does not vanish
RowAt(A, q) == [j \in 1..A.c |-> En(A, ((q - 1) \div n) + 1, j)[((q - 1) % n) + 1]]
Det3(a, b, c) == a[1] * (b[2] * c[3] - b[3] * c[2]) - a[2] * (b[1] * c[3] - b[3] * c[1]) + a[3] * (b[1] * c[2] - b[2] * c[1])
FullRank(A) == LET m == A.r * n  R == TLCEval([q \in 1..m |-> RowAt(A, q)]) IN
   IF m > 60 THEN FALSE ELSE CASE A.c = 1 -> \E q \in 1..m : R[q][1] # 0
     [] A.c = 2 -> \E p \in 1..m, q \in 1..m : p < q /\ R[p][1] * R[q][2] # R[p][2] * R[q][1]
     [] A.c = 3 -> \E p \in 1..m, q \in 1..m, z \in 1..m : p < q /\ q < z /\ Det3(R[p], R[q], R[z]) # 0
     [] OTHER -> FALSE
FOk(A) == Big(A) < 60
ActQr == Ready("qqr") /\ Live # {} /\ \E a \in {LiveS}, k \in {Rnd({"qr", "hq", "qr", "gs"})} : LET A == Q[a] IN A.c <= n /\ FOk(A) /\
   (k # "gs" \/ FullRank(A) = TRUE) = TRUE /\ Look(<<St("qqr", <<k, a>>, <<IntO("ret", 0), XQ(Keep("R"), UE), QF("Q", k, A, <<>>)>>)>>)
ActLq == Ready("qqr") /\ Live # {} /\ \E a \in {LiveS}, k \in {Rnd({"lq", "hl", "lq"})} : LET A == Q[a] IN A.r <= n /\ FOk(A) /\
   Look(<<St("qqr", <<k, a>>, <<IntO("ret", 0), XQ(Keep("R"), UE), QF("Q", k, A, <<>>)>>)>>)
ActLgs == Ready("qqr") /\ Live # {} /\ \E a \in {LiveS} : LET A == Q[a] IN A.r <= n /\ FOk(A) /\ (FullRank(T(A)) = TRUE) /\
   Look(<<St("qqr", <<"lgs", a>>, <<IntO("ret", 0), XQ(Keep("R"), UE), QF("Q", "lq", A, <<>>)>>)>>)
ActSvd == Ready("qsvd") /\ Live # {} /\ \E a \in {LiveS}, tr \in {Rnd({0, 1})}, dl \in {Rnd({"1e-6", "0.5", "3", "20", "100", "1000"})} : LET A == Q[a] IN A.c <= n /\ FOk(A) /\
   Look(<<St("qsvd", <<tr, a, dl \o Sfx(2 * UE)>>, <<Keep("rank"), XQ(Keep("S"), UE), Keep("VT"), QF("U", IF tr = 1 THEN "tsvd" ELSE "svd", A, <<dl>>)>>)>>)
ActLu == Ready("qlu") /\ Live # {} /\ \E a \in {LiveS} : LET A == Q[a] IN A.c < n /\ FOk(A) /\ Look(<<St("qlu", <<a>>, <<Keep("ret"), XQ(Keep("U"), UE), Keep("pi"), Keep("px"), QF("L", "lu", A, <<>>)>>)>>)
ActMv == Ready("qmv") /\ Live # {} /\ \E a \in {LiveS} : LET A == Q[a] IN A.c < n /\ FOk(A) /\ Look(<<St("qmv", <<a>>, <<Keep("ret"), Keep("pi"), Keep("px"), XQ(QF("inv", "mv", A, <<>>), -UE)>>)>>)

(* rows of functions *)
ZVal(c, v) == Mk(1, c, v)
ZAny == Rnd(0..(NZ - 1))
ZS == Rnd(ZLive)
ActZex == Ready("zz") /\ Live # {} /\ \E s \in {ZAny}, a \in {LiveS}, k \in {Rnd({"r", "c"})} : LET A == Q[a] IN \E i \in {Rnd(1..(IF k = "r" THEN A.r ELSE A.c))} :
   ZSet(s, IF k = "r" THEN ZVal(A.c, [j \in 1..A.c |-> En(A, i, j)]) ELSE ZVal(A.r, [j \in 1..A.r |-> En(A, j, i)]), <<St("zex", <<k, s, a, i - 1>>, <<>>)>>)
ActZexA == ActZex
ActZput == Ready("zz") /\ Live # {} /\ ZLive # {} /\ \E b \in {ZS}, k \in {Rnd({"r", "c", "g"})} : LET ok == {a \in Live : (IF k = "r" THEN Q[a].c ELSE Q[a].r) = Z[b].c} IN ok # {} /\ \E a \in {Rnd(ok)} : LET A == Q[a] IN
   \E i \in {Rnd(1..(IF k = "r" THEN A.r ELSE A.c))} : QSet(a, Tab(A.r, A.c, LAMBDA p, q : IF k = "r" /\ p = i THEN Z[b].v[q] ELSE IF k # "r" /\ q = i THEN Z[b].v[p] ELSE En(A, p, q)), <<St("zput", <<k, a, i - 1, b>>, <<>>)>>)
ActZapx == Ready("zz") /\ \E s \in {ZAny}, c \in {Rnd(1..3)} : \E a \in {RndQ(1, c)} : ZSet(s, a, <<St("zapx", <<s, c>> \o Nums(Flat(a), UE), <<>>)>>)
ActZcp == Ready("zz") /\ ZLive # {} /\ \E s \in {ZAny}, b \in {ZS}, k \in {Rnd({"zcp", "zser"})} : ZSet(s, Z[b], <<St(k, <<s, b>>, <<>>)>>)
ActZset == Ready("zz") /\ ZLive # {} /\ Live # {} /\ \E b \in {ZS}, a \in {LiveS} : \E i \in {Rnd(1..Z[b].c)}, p \in {Rnd(1..Q[a].r)}, q \in {Rnd(1..Q[a].c)} :
   ZSet(b, [Z[b] EXCEPT !.v[i] = En(Q[a], p, q)], <<St("zset", <<b, i - 1, a, p - 1, q - 1>>, <<>>)>>)
ActZmm == Ready("zz") /\ ZLive # {} /\ \E s \in {ZAny}, b \in {ZS}, t \in {Rnd({0, 1})}, m \in {Rnd(1..3)} : \E R \in {RndSeq(m * Z[b].c, -2..2)} : SumsOk(Z[b], Z[b].c) /\
   ZSet(s, MulR(Z[b], IF t = 0 THEN R ELSE [q \in 1..(m * Z[b].c) |-> R[((q - 1) % Z[b].c) * m + ((q - 1) \div Z[b].c) + 1]], m), <<St("zmm", <<t, s, b, m>> \o R, <<>>)>>)
ActZdax == Ready("zz") /\ ZLive # {} /\ \E s \in {ZAny}, b \in {ZS}, w \in {Rnd(0..2)}, al \in {Rnd(-2..2)}, be \in {Rnd(-2..2)} : LET ok == {d \in ZLive : Z[d].c = Z[b].c} IN \E d \in {Rnd(ok)} : Big(Z[b]) + Big(Z[d]) < LIM \div 4 /\
   LET A == IF w = 2 THEN 0 ELSE al  B == IF w = 1 THEN 0 ELSE be IN
   ZSet(s, ZVal(Z[b].c, [i \in 1..Z[b].c |-> VLin(A, Z[b].v[i], B, Z[d].v[i])]), <<St("zdax", <<s, w, al>> \o (IF w = 2 THEN <<>> ELSE <<b>>) \o <<be>> \o (IF w = 1 THEN <<>> ELSE <<d>>), <<>>)>>)
ActZfree == Ready("zz") /\ Cardinality(ZLive) > 1 /\ \E s \in {ZS} : Z' = [Z EXCEPT ![s] = Dead] /\ UNCHANGED <<g, Q>> /\ Do(<<St("zfree", <<s>>, <<>>)>> \o ZAll(ZLive \ {s}, Z))
ActZmv == Ready("zz") /\ ZLive # {} /\ \E b \in {ZS} : \E v \in {RndSeq(Z[b].c, -3..3)} : Look(<<St("zmv", <<b>> \o v, <<XQ(Eq("v", MulR(Z[b], v, 1).v[1], 1, 1 + 20 * Big(Z[b])), UE)>>)>>)
ActZin == Ready("zz") /\ ZLive # {} /\ \E b \in {ZS} : LET ok == {d \in ZLive : Z[d].c = Z[b].c} IN \E d \in {Rnd(ok)} : Big(Z[b]) * Big(Z[d]) < 100000 /\ Big(Z[b]) < 1000 /\
   Look(<<St("zin", <<b, d>>, <<XQ(Eq("v", <<SumSeq([i \in 1..Z[b].c |-> IP(Z[b].v[i], Z[d].v[i])])>>, 2, 40 * n * (1 + Big(Z[b]) * Big(Z[d]))), 2 * UE), XQ([k |-> "n", m |-> "sqrtof", v |-> Sqn(Z[b]), den |-> 2], UE)>>)>>)
ActZabs == Ready("zz") /\ ZLive # {} /\ \E b \in {ZS} : LET mx == Big(Z[b]) IN mx > 0 /\ Look(<<St("zabs", <<b>>, <<XQL([k |-> "v", m |-> "argmax", v |-> <<mx>>, den |-> 1, sc |-> mx, locs |-> Locs(Z[b].v, mx)], UE)>>)>>)
ActZqr == Ready("zz") /\ ZLive # {} /\ \E b \in {ZS} : Z[b].c <= n /\ FOk(Z[b]) /\ (FullRank(Z[b]) = TRUE) /\ Look(<<St("zqr", <<b>>, <<IntO("ret", 0), XQ(Keep("R"), UE), QF("Q", "zqr", Z[b], <<>>)>>)>>)

Init == g = [fam |-> "none", u |-> 0] /\ Q = [s \in 0..(NQ - 1) |-> Dead] /\ Z = [s \in 0..(NZ - 1) |-> Dead] /\ hist = <<St("heap0", <<>>, <<>>)>> /\ left = MaxLen
Finish == left = 0 /\ hist' = hist \o QAll(Live, Q) \o ZAll(ZLive, Z) \o <<St("heapcheck", <<>>, <<IntO("heap", 0)>>)>> /\ left' = -1 /\ UNCHANGED <<g, Q, Z>>
Next == Setup \/ ActMk \/ ActMkA \/ ActZeros \/ ActCp \/ ActFirst \/ ActFree \/ ActUpd \/ ActUni \/ ActLm \/ ActPr \/ ActPrA \/ ActVk \/ ActMatk \/ ActKmat \/ ActBlk \/ ActAxpy \/ ActTr \/ ActSt
        \/ ActEv \/ ActDer \/ ActInt \/ ActPint \/ ActVkint \/ ActNorm \/ ActNd \/ ActAbs \/ ActPg \/ ActPgs \/ ActSqn \/ ActLow \/ ActLowA \/ ActQr \/ ActLq \/ ActLgs \/ ActSvd \/ ActLu \/ ActMv
        \/ ActZex \/ ActZexA \/ ActZput \/ ActZapx \/ ActZcp \/ ActZset \/ ActZmm \/ ActZdax \/ ActZfree \/ ActZmv \/ ActZin \/ ActZabs \/ ActZqr \/ Finish
Emit == left = -1 => CSVWrite("%1$s", <<ToJson(hist)>>, OutFile)
TypeOK == left \in -1..MaxLen /\ (\A s \in Live : Len(Q[s].v) = Q[s].r * Q[s].c) /\ \A s \in ZLive : Len(Z[s].v) = Z[s].c
=============================================================================
