-------------------------------- MODULE Mat ---------------------------------
(* Dense linear algebra. The state holds matrix objects (kept exactly, row by row) built from vectors, concatenated,
   block-diagonalised and multiplied by Kronecker, and a fiber list. Products with strides and leading dimensions are
   exact. Factorisations are specified by what defines them: the specification hands out an integer matrix (often of a
   prescribed rank, as a product of two thin ones) and the defining equations are checked on what comes back. *)
EXTENDS Tensor, FiniteSets, Json, CSV, IOUtils, TLCExt
CONSTANTS Ops, MaxLen, OutFile
VARIABLES B, F, hist, left
vars == <<B, F, hist, left>>
NB == 5
Dead == [live |-> FALSE]
Rnd(set) == IF left < -1 THEN 0 ELSE RandomElement(set)
RndSeq(m, set) == TLCEval([i \in 1..m |-> IF left < -1 THEN 0 ELSE RandomElement(set)])
Sz(lo, hi, big) == IF Rnd(1..6) = 1 THEN Rnd(lo..big) ELSE Rnd(lo..hi)
Ready(o) == o \in Ops /\ left > 0
Eq(k, v) == [k |-> k, m |-> "eq", v |-> v, den |-> 1, sc |-> 1 + MaxAbs(v)]
EqD(k, v, den) == [k |-> k, m |-> "eq", v |-> v, den |-> den, sc |-> 1]
IntO(k, v) == [k |-> k, m |-> "int", v |-> <<v>>]
St(op, a, x) == [op |-> op, a |-> a, x |-> x]
RECURSIVE Cat(_)
Cat(t) == IF t = <<>> THEN <<>> ELSE Head(t) \o Cat(Tail(t))
Do(steps) == hist' = hist \o steps /\ left' = left - 1
Look(steps) == UNCHANGED <<B, F>> /\ Do(steps)

(* matrices: [r, c, v] with v row by row *)
El(a, i, j) == a.v[(i - 1) * a.c + j]
Mk(r, c, v) == [live |-> TRUE, r |-> r, c |-> c, v |-> v]
Tab(r, c, G(_, _)) == TLCEval([q \in 1..(r * c) |-> G(((q - 1) \div c) + 1, ((q - 1) % c) + 1)])
MatMul(a, b) == Mk(a.r, b.c, Tab(a.r, b.c, LAMBDA i, j : SumSeq([k \in 1..a.c |-> El(a, i, k) * El(b, k, j)])))
Kron(a, b) == Mk(a.r * b.r, a.c * b.c, Tab(a.r * b.r, a.c * b.c, LAMBDA i, j : El(a, ((i - 1) \div b.r) + 1, ((j - 1) \div b.c) + 1) * El(b, ((i - 1) % b.r) + 1, ((j - 1) % b.c) + 1)))
HCat(a, b) == Mk(a.r, a.c + b.c, Tab(a.r, a.c + b.c, LAMBDA i, j : IF j <= a.c THEN El(a, i, j) ELSE El(b, i, j - a.c)))
Blk2(a, b) == Mk(a.r + b.r, a.c + b.c, Tab(a.r + b.r, a.c + b.c, LAMBDA i, j : IF i <= a.r /\ j <= a.c THEN El(a, i, j) ELSE IF i > a.r /\ j > a.c THEN El(b, i - a.r, j - a.c) ELSE 0))
RECURSIVE BlkAll(_)
BlkAll(s) == IF Len(s) = 1 THEN s[1] ELSE Blk2(BlkAll(SubSeq(s, 1, Len(s) - 1)), s[Len(s)])
RM(r, c, set) == Mk(r, c, RndSeq(r * c, set))
Live == {s \in 0..(NB - 1) : B[s].live}
BDump(s, b) == St("bdump", <<s>>, <<IntO("r", b.r), IntO("c", b.c), Eq("v", b.v)>>)
RECURSIVE DumpAll(_, _)
DumpAll(set, BB) == IF set = {} THEN <<>> ELSE LET s == CHOOSE z \in set : TRUE IN <<BDump(s, BB[s])>> \o DumpAll(set \ {s}, BB)
BSet(s, b, steps) == MaxAbs(b.v) < 100000 /\ b.r * b.c <= 500 /\ B' = [B EXCEPT ![s] = b] /\ UNCHANGED F /\ Do(steps \o DumpAll(Live \cup {s}, [B EXCEPT ![s] = b]))
ActBVec == Ready("bvec") /\ \E s \in {Rnd(0..(NB - 1))}, k \in {Rnd({"r", "c", "d"})}, n \in {Sz(1, 4, 14)} : \E v \in {RndSeq(n, -5..5)} :
   BSet(s, CASE k = "r" -> Mk(1, n, v) [] k = "c" -> Mk(n, 1, v) [] OTHER -> Mk(n, n, Tab(n, n, LAMBDA i, j : IF i = j THEN v[i] ELSE 0)), <<St("bvec", <<s, k, n>> \o v, <<>>)>>)
ActBNew == Ready("bnew") /\ \E s \in {Rnd(0..(NB - 1))}, r \in {Sz(1, 4, 14)}, c \in {Sz(1, 4, 14)}, fill \in {Rnd({0, 1, 1, 1})} : \E m \in {RM(r, c, -5..5)} :
   BSet(s, IF fill = 0 THEN Mk(r, c, [q \in 1..(r * c) |-> 1]) ELSE m, <<St("bones", <<s, r, c>>, <<>>)>> \o (IF fill = 0 THEN <<>> ELSE <<St("bset", <<s>> \o m.v, <<>>)>>))
ActBNewA == ActBNew
ActBHCat == Ready("bhcat") /\ Live # {} /\ \E s \in {Rnd(0..(NB - 1))}, a \in {Rnd(Live)} : LET c == {z \in Live : B[z].r = B[a].r} IN \E b \in {Rnd(c)} : BSet(s, HCat(B[a], B[b]), <<St("bhcat", <<s, a, b>>, <<>>)>>)
ActBKron == Ready("bkron") /\ Live # {} /\ \E s \in {Rnd(0..(NB - 1))}, a \in {Rnd(Live)}, b \in {Rnd(Live)} : BSet(s, Kron(B[a], B[b]), <<St("bkron", <<s, a, b>>, <<>>)>>)
ActBBlk == Ready("bblk") /\ Live # {} /\ \E s \in {Rnd(0..(NB - 1))}, n \in {Rnd(1..4)} : \E w \in {RndSeq(n, Live)} : BSet(s, BlkAll([i \in 1..n |-> B[w[i]]]), <<St("bblk", <<s, n>> \o w, <<>>)>>)
ActKronCol == Ready("kroncol") /\ \E a \in {RM(Sz(1, 4, 8), Sz(1, 4, 8), -5..5)}, b \in {RM(Sz(1, 4, 8), Sz(1, 4, 8), -5..5)}, p \in {RndSeq(3, 0..2)} :
   Look(<<St("kroncol", <<a.r, a.c, b.r, b.c>> \o p \o a.v \o b.v, <<Eq("v", Kron(a, b).v)>>)>>)
ActVecKron == Ready("veckron") /\ \E a \in {RM(Sz(1, 4, 8), Sz(1, 4, 8), -4..4)}, b \in {RM(Sz(1, 4, 8), Sz(1, 4, 8), -4..4)}, p \in {RndSeq(2, 0..2)}, sc \in {Rnd({0, 1, -2})} :
   \E v \in {RndSeq(a.r * b.r, -3..3)}, o \in {RndSeq(a.c * b.c, -9..9)} : LET w == MatMul(Mk(1, a.r * b.r, v), Kron(a, b)).v IN
   Look(<<St("veckron", <<a.r, a.c, b.r, b.c>> \o p \o a.v \o b.v \o v \o <<sc>> \o o, <<Eq("v", [q \in 1..Len(o) |-> w[q] + sc * o[q]])>>)>>)
ActMulti == Ready("multi") /\ \E vm \in {Rnd({0, 1})}, N \in {Sz(1, 5, 20)}, r1 \in {Sz(1, 4, 9)}, r2 \in {Sz(1, 4, 9)}, p \in {RndSeq(3, 0..2)} :
   LET na == IF vm = 1 THEN r1 ELSE r2 IN \E x \in {RndSeq(N * na, -5..5)}, y \in {RndSeq(N * r1 * r2, -5..5)} :
   LET V(q) == SubSeq(x, (q - 1) * na + 1, q * na)
       M(q) == Mk(r1, r2, SubSeq(y, (q - 1) * r1 * r2 + 1, q * r1 * r2))
       R(q) == IF vm = 1 THEN MatMul(Mk(1, r1, V(q)), M(q)).v ELSE MatMul(M(q), Mk(r2, 1, V(q))).v
   IN Look(<<St("multi", <<vm, N, r1, r2>> \o p \o Cat([q \in 1..N |-> V(q) \o M(q).v]), <<Eq("v", Cat([q \in 1..N |-> R(q)]))>>)>>)
ActStat == Ready("stat") /\ \E n \in {Sz(1, 7, 60)} : \E a \in {RndSeq(n, -9..9)}, b \in {RndSeq(n, -9..9)}, z \in {RndSeq(n, 0..12)} :
   Look(<<St("stat", <<n>> \o a \o b \o z, <<EqD("mean", <<SumSeq(a)>>, n), EqD("meanz", <<SumSeq(z)>>, n), [k |-> "norm", m |-> "sqrtof", v |-> Dot(a, a)],
        [k |-> "ndiff", m |-> "sqrtof", v |-> SumSeq([i \in 1..n |-> (a[i] - b[i]) * (a[i] - b[i])])]>>)>>)

(* factorisations *)
Low(m, n, rk) == MatMul(RM(m, rk, -3..3), RM(rk, n, -3..3))
RndM(m, n) == IF Rnd(1..3) = 1 THEN Low(m, n, Rnd(1..Min2(m, n))) ELSE RM(m, n, -6..6)
Fac(k, what, a, more) == [k |-> k, m |-> "fac", what |-> what, r |-> a.r, c |-> a.c, v |-> a.v, more |-> more]
Keep(k) == [k |-> k, m |-> "stash"]
ActQr == Ready("qr") /\ \E n \in {Sz(1, 4, 16)} : \E m \in {Sz(n, n + 3, n + 14)}, p \in {Rnd(0..2)} : \E a \in {RM(m, n, -6..6)} :
   Look(<<St("qr", <<m, n, p>> \o a.v, <<IntO("ret", 0), Fac("Q", "qr", a, <<>>)>>)>>)
ActRq == Ready("rq") /\ \E m \in {Sz(1, 4, 16)} : \E n \in {Sz(m, m + 3, m + 14)}, bm \in {Rnd(1..5)}, p \in {Rnd(0..2)} : \E a \in {RM(m, n, -6..6)} : \E b \in {RM(bm, m, -6..6)} :
   Look(<<St("rq", <<m, n, bm, p>> \o a.v \o b.v, <<Keep("Q"), Fac("B", "rq", a, b.v)>>)>>)
ActSvd == Ready("svd") /\ \E m \in {Sz(1, 5, 20)}, n \in {Sz(1, 5, 20)} : \E a \in {RndM(m, n)} :
   Look(<<St("svd", <<m, n>> \o a.v, <<Keep("U"), Keep("S"), Fac("VT", "svd", a, <<>>)>>)>>)
ActTSvd == Ready("tsvd") /\ \E m \in {Sz(1, 5, 20)}, n \in {Sz(1, 5, 20)}, dl \in {Rnd({"1e-12", "1e-6", "0.5", "3", "20", "100", "1000"})} : \E a \in {RndM(m, n)} :
   Look(<<St("tsvd", <<m, n>> \o a.v \o <<dl>>, <<Keep("rank"), Keep("U"), Keep("S"), Fac("VT", "tsvd", a, <<dl>>)>>)>>)
ActPinv == Ready("pinv") /\ \E m \in {Sz(1, 5, 20)}, n \in {Sz(1, 5, 20)} : \E a \in {RndM(m, n)} :
   Look(<<St("pinv", <<m, n>> \o a.v \o <<"1e-8">>, <<Keep("rank"), Fac("P", "pinv", a, <<>>)>>)>>)
ActLls == Ready("lls") /\ \E m \in {Sz(1, 7, 25)}, n \in {Sz(1, 4, 14)} : \E a \in {RndM(m, n)}, y \in {RndSeq(m, -9..9)} :
   Look(<<St("lls", <<m, n>> \o a.v \o y, <<Fac("x", "lls", a, y), Eq("y", y)>>)>>)
ActMaxvol == Ready("maxvol") /\ \E r \in {Sz(1, 4, 9)} : \E n \in {Sz(r, r + 5, r + 20)} : \E a \in {RM(n, r, -6..6)} :
   Look(<<St("maxvol", <<n, r>> \o a.v, <<Keep("ret"), Keep("rows"), Fac("inv", "maxvol", a, <<>>)>>)>>)
ActSkel == Ready("skel") /\ \E r \in {Sz(1, 3, 6)}, how \in {Rnd(0..2)} : \E n \in {Sz(r + 1, r + 4, r + 18)}, m \in {Sz(r + 1, r + 4, r + 18)} : \E a \in {Low(n, m, r)} : \E c \in {RndSeq(r, 0..(m - 1))} :
   Look(<<St("skel", <<how, n, m, r>> \o a.v \o c, (IF how = 2 THEN <<Keep("full"), Keep("crank"), IntO("stored", 0), IntO("counted", 0), IntO("wrong", 0)>> ELSE <<>>) \o <<IntO("bad", 0), Keep("ret"), Keep("rows"), Fac("cols", "skel", a, c)>>)>>)

(* fiber list, newest first *)
FSet(f, steps) == F' = f /\ UNCHANGED B /\ Do(steps)
ActFlAdd == Ready("fl") /\ Len(F) < 15 /\ \E i \in {Rnd(0..4)}, v \in {RndSeq(3, -5..5)} : FSet(<<[i |-> i, v |-> v]>> \o F, <<St("fladd", <<i, 3>> \o v, <<>>)>>)
ActFlGet == Ready("fl") /\ \E i \in {Rnd(0..4)} : LET at == {p \in 1..Len(F) : F[p].i = i} IN
   FSet(F, <<St("flget", <<i>>, IF at = {} THEN <<IntO("at", -1), Eq("v", <<>>)>> ELSE LET p == CHOOSE q \in at : \A z \in at : q <= z IN <<IntO("at", p - 1), Eq("v", F[p].v)>>)>>)
ActFlDel == Ready("fl") /\ F # <<>> /\ Rnd(1..4) = 1 /\ FSet(<<>>, <<St("fldel", <<>>, <<IntO("null", 1)>>)>>)

Init == B = [s \in 0..(NB - 1) |-> Dead] /\ F = <<>> /\ hist = <<St("heap0", <<>>, <<>>)>> /\ left = MaxLen
Finish == left = 0 /\ hist' = Append(hist, St("heapcheck", <<>>, <<IntO("heap", 0)>>)) /\ left' = -1 /\ UNCHANGED <<B, F>>
Next == ActBVec \/ ActBNew \/ ActBNewA \/ ActBHCat \/ ActBKron \/ ActBBlk \/ ActKronCol \/ ActVecKron \/ ActMulti \/ ActStat \/ ActQr \/ ActRq \/ ActSvd \/ ActTSvd \/ ActPinv \/ ActLls \/ ActMaxvol \/ ActSkel
        \/ ActFlAdd \/ ActFlGet \/ ActFlDel \/ Finish
Emit == left = -1 => CSVWrite("%1$s", <<ToJson(hist)>>, OutFile)
TypeOK == left \in -1..MaxLen /\ \A s \in Live : Len(B[s].v) = B[s].r * B[s].c
=============================================================================
