--------------------------------- MODULE FT ---------------------------------
(* The function-train machine: a client holds function trains (slots) and arrays of trains over one product
   space and calls the public operations in any order. The abstract value of a train is the exact rational
   tensor v/den of its nodal values (kernel coefficients) -- never its cores. Every action appends to `hist`
   the call it stands for together with everything the specification says the caller must observe. *)
EXTENDS Grid, FiniteSets, Json, CSV, IOUtils, TLCExt

CONSTANTS Ops,       \* names of the enabled operations
          Spaces,    \* "LC" | "K" : kinds of spaces to draw
          MaxLen,    \* number of client calls in a behaviour
          MaxDim, MaxN, MaxSize, MaxRank,
          OutFile    \* emitted behaviours

VARIABLES sp,        \* the space: sequence of grids (<<>> before Setup)
          S,         \* slots
          A,         \* arrays
          hist, left

vars == <<sp, S, A, hist, left>>
NS == 5  NA == 3
LIM == 40000
Dead == [live |-> FALSE]

\* (the reference to a variable keeps TLC from evaluating a draw once and caching it as a constant)
Rnd(set) == IF left < -1 THEN 0 ELSE RandomElement(set)
RndSeq(m, set) == TLCEval([i \in 1..m |-> IF left < -1 THEN 0 ELSE RandomElement(set)])
On(o) == o \in Ops
D == Len(sp)
n == [k \in 1..D |-> NN(sp[k])]
AllL == \A k \in 1..D : sp[k].fam = "L"
IsK == D > 0 /\ sp[1].fam = "K"
Live == {s \in 0..(NS - 1) : S[s].live}
ALive == {a \in 0..(NA - 1) : A[a].live}

(******************************* trains *************************************)
\* binary exponents of the units in which parameters and coordinates are given to the library (zero in most behaviours)
HE == HOf(sp[1])
UE == IF "u" \in DOMAIN sp[1] THEN sp[1].u ELSE 0
VE == D * UE               \* the unit of the values of a train: one parameter per core
\* 2^ex v/den: value; sc: bound on the magnitude the floating-point computation went through; r: rank bound
MkE(v, den, sc, r, ex) == [live |-> TRUE, v |-> v, den |-> den, sc |-> sc, r |-> r, ex |-> ex]
Mk(v, den, sc, r) == MkE(v, den, sc, r, VE)
NoP(f) == MkE(f.v, f.den, f.sc, f.r, f.ex)
Norml(f) == LET g == FoldLeft(LAMBDA a, b : Gcd(a, b), f.den, f.v)
            IN IF g <= 1 THEN f ELSE [f EXCEPT !.v = TLCEval([q \in DOMAIN f.v |-> f.v[q] \div g]), !.den = f.den \div g,
                                               !.sc = f.sc \div g + 1]
Ok(f) == f.sc <= LIM /\ f.den <= 2000 /\ MaxSeq(f.r) <= MaxRank /\ f.ex \in (IF UE = 0 /\ HE = 0 THEN {0} ELSE -40..60)
One == [k \in 1..(D + 1) |-> 1]
AddR(r1, r2) == [k \in 1..(D + 1) |-> IF k = 1 \/ k = D + 1 THEN 1 ELSE r1[k] + r2[k]]
MulR(r1, r2) == [k \in 1..(D + 1) |-> r1[k] * r2[k]]
\* al*f + be*g with integer al, be; the ranks of the two parts add
Lin(al, f, be, g, r) ==
  LET L == Lcm(f.den, g.den)  a == al * (L \div f.den)  b == be * (L \div g.den)
  IN Norml(MkE(TLCEval([q \in DOMAIN f.v |-> a * f.v[q] + b * g.v[q]]), L, Abs(a) * f.sc + Abs(b) * g.sc + 1, r, f.ex))
LinOk(al, f, be, g) == f.ex = g.ex /\ LET L == Lcm(f.den, g.den) IN L <= 2000 /\ Abs(al) * (L \div f.den) * f.sc + Abs(be) * (L \div g.den) * g.sc <= LIM
ScaleF(f, p, q) == Norml(MkE(TLCEval([i \in DOMAIN f.v |-> p * f.v[i]]), q * f.den, Abs(p) * f.sc + 1, f.r, f.ex))
Mult(f, g) == Norml(MkE(TLCEval([q \in DOMAIN f.v |-> f.v[q] * g.v[q]]), f.den * g.den, f.sc * g.sc, MulR(f.r, g.r), f.ex + g.ex))
Zero == Mk([q \in 1..Size(n) |-> 0], 1, 0, One)

(***************************** observations *********************************)
\* everything numeric is v/den (entrywise when `den` is a sequence), compared relative to max(1, sc/den)
Eq(k, v, den, sc) == [k |-> k, m |-> "eq", v |-> v, den |-> den, sc |-> sc]
\* the same observation in other units: the observed numbers are multiplied by 2^-e before they are compared
XQ(o, e) == IF e = 0 THEN o ELSE o @@ [ex |-> e]
IntO(k, v) == [k |-> k, m |-> "int", v |-> <<v>>]
LeS(k, v) == [k |-> k, m |-> "le", v |-> v]
Kern(k, what, f, pts) == [k |-> k, m |-> "kern", what |-> what, v |-> f.v, den |-> f.den, sc |-> f.sc, pts |-> pts]
Kern2(k, what, f, g) == [k |-> k, m |-> "kern", what |-> what, v |-> f.v, den |-> f.den, sc |-> f.sc, v2 |-> g.v, den2 |-> g.den, sc2 |-> g.sc]
St(op, a, x) == [op |-> op, a |-> a, x |-> x]
ObsF(pre, f) == <<LeS(pre \o "ranks", f.r), XQ(Eq(pre \o "vals", f.v, f.den, f.sc), f.ex)>>
Dump(s, f) == St("dump", <<s>>, ObsF("", f))
RECURSIVE CatObs(_, _)
CatObs(e, i) == IF i > Len(e) THEN <<>> ELSE ObsF(ToString(i - 1) \o ".", e[i]) \o CatObs(e, i + 1)
ADump(a, e) == St("adump", <<a>>, <<IntO("size", Len(e))>> \o CatObs(e, 1))

RECURSIVE DumpAll(_, _)
DumpAll(T, set) == IF set = {} THEN <<>> ELSE LET s == CHOOSE z \in set : TRUE IN <<Dump(s, T[s])>> \o DumpAll(T, set \ {s})
RECURSIVE DumpArr(_, _)
DumpArr(T, set) == IF set = {} THEN <<>> ELSE LET s == CHOOSE z \in set : TRUE IN <<ADump(s, T[s].e)>> \o DumpArr(T, set \ {s})
\* with "alldump" every object the client holds is observed after every call, not only the result
SeeAll == IF "alldump" \in Ops THEN DumpAll(S', {s \in 0..(NS - 1) : S'[s].live}) \o DumpArr(A', {a \in 0..(NA - 1) : A'[a].live}) ELSE <<>>
Do(steps) == hist' = hist \o steps \o SeeAll /\ left' = left - 1 /\ UNCHANGED sp
Set(s, f, op, args, x) ==      \* a call that (re)binds slot s to f
  /\ Ok(f) /\ S' = [S EXCEPT ![s] = f] /\ UNCHANGED A
  /\ Do(<<St(op, args, x), Dump(s, f)>>)
SetA(a, e, op, args, x) ==
  /\ \A i \in 1..Len(e) : Ok(e[i])
  /\ A' = [A EXCEPT ![a] = [live |-> TRUE, e |-> e]] /\ UNCHANGED S
  /\ Do(<<St(op, args, x), ADump(a, e)>>)
Look(op, args, x) == UNCHANGED <<S, A>> /\ Do(<<St(op, args, x)>>)

(******************************** set-up ************************************)
RndGrid(fam, len) ==
  LET uni == Rnd({TRUE, FALSE})  h == Rnd({1, 2})  x0 == Rnd(-3..3)
      st == IF uni THEN [i \in 1..len |-> h] ELSE RndSeq(len, {1, 2})
      x == TLCEval([i \in 1..len |-> x0 + SumSeq(SubSeq(st, 1, i - 1))])
  IN IF fam = "K" THEN [fam |-> fam, x |-> x, sc |-> Rnd({1, 2}), w |-> Rnd({2, 3, 5}), b |-> Rnd({0, 1})]
     ELSE [fam |-> fam, x |-> x]
GridArgs(g) == IF g.fam = "K"
  THEN <<2, Len(g.x)>> \o Nums(g.x, HOf(g)) \o <<g.sc, ToString(g.w) \o "/2" \o Sfx(HOf(g)), g.b>> \o (IF g.b = 1 THEN Nums(<<g.x[1] - 1, g.x[Len(g.x)] + 2>>, HOf(g)) ELSE <<>>)
  ELSE <<IF g.fam = "L" THEN 0 ELSE 1, Len(g.x)>> \o Nums(g.x, HOf(g))
RECURSIVE GA(_, _)
GA(s, k) == IF k > Len(s) THEN <<>> ELSE GridArgs(s[k]) \o GA(s, k + 1)
SetSpace(s) ==
  /\ sp' = TLCEval([k \in 1..Len(s) |-> WithDer(s[k])]) /\ UNCHANGED <<S, A>> /\ left' = left
  /\ hist' = <<St("heap0", <<>>, <<>>), [St("grid", <<Len(s)>> \o GA(s, 1), <<>>) EXCEPT !.x = <<>>] @@ [g |-> s]>>
\* with "wide", one space in eight has many short dimensions and one in eight has few long ones
RndSpace ==
  LET kind == Rnd(Spaces)
      shape == IF "wide" \in Ops THEN Rnd(1..8) ELSE 8
      d == IF shape = 1 THEN Rnd(5..7) ELSE IF shape = 2 THEN Rnd({2, 2, 3}) ELSE Rnd(2..MaxDim)
      fams == RndSeq(d, IF kind = "K" THEN {"K"} ELSE {"L", "L", "C"})
      allsame == Rnd(1..3) = 1
      lens == RndSeq(d, IF shape = 1 THEN {2, 2, 3} ELSE IF shape = 2 THEN (IF kind = "K" THEN {3, 6, 9} ELSE IF d = 2 THEN {2, 3, 11, 16, 18, 40, 90} ELSE {2, 4, 11, 13, 16, 18}) ELSE 2..MaxN)
      units == IF "units" \in Ops /\ Rnd(1..4) = 1 THEN [h |-> Rnd({-6, 0, 6}), u |-> Rnd(IF d <= 3 THEN {-12, -6, -3, 0, 8} ELSE {-6, -2, 0, 3})] ELSE [h |-> 0, u |-> 0]
  IN TLCEval([k \in 1..d |-> RndGrid(IF allsame THEN fams[1] ELSE fams[k], lens[k]) @@ units])
SpSize(s) == Size([k \in 1..Len(s) |-> NN(s[k])])
MaxSz(s) == IF "wide" \in Ops THEN (IF Len(s) > MaxDim \/ \E k \in 1..Len(s) : NN(s[k]) > MaxN THEN 2 * MaxSize + 60 ELSE MaxSize) ELSE MaxSize
RECURSIVE Trim(_)
Trim(s) == IF SpSize(s) <= MaxSz(s) THEN s   \* shorten the longest grid until the space is small enough
  ELSE LET k == CHOOSE k \in 1..Len(s) : \A j \in 1..Len(s) : NN(s[j]) <= NN(s[k])
       IN Trim(TLCEval([s EXCEPT ![k].x = SubSeq(s[k].x, 1, NN(s[k]) - 1)]))
Setup == /\ sp = <<>> /\ \E s \in {Trim(RndSpace)} : SetSpace(s)

Init == sp = <<>> /\ S = [s \in 0..(NS - 1) |-> Dead] /\ A = [a \in 0..(NA - 1) |-> Dead] /\ hist = <<>> /\ left = MaxLen

Ready(o) == On(o) /\ sp # <<>> /\ left > 0
AnyS == Rnd(0..(NS - 1))
LiveS == Rnd(Live)
LiveA == Rnd(ALive)

(****************************** constructors ********************************)
NPar(r) == SumSeq([k \in 1..D |-> r[k] * r[k + 1] * n[k]])
Split(p, r) == LET off(k) == SumSeq([j \in 1..(k - 1) |-> r[j] * r[j + 1] * n[j]])
               IN TLCEval([k \in 1..D |-> SubSeq(p, off(k) + 1, off(k) + r[k] * r[k + 1] * n[k])])
\* magnitude the contraction can go through
TrainSc(r, p) == LET m == MaxAbs(p) IN Pow(Max2(m, 1), D) * ProdSeq(r)
MkFT(s, r, p) == LET f == Mk(Train(n, r, Split(p, r)), 1, TrainSc(r, p), r)
                 IN Set(s, f, "mk", <<s>> \o r \o Nums(p, UE), <<IntO("used", Len(p))>>)
RndRanks(m) == LET q == RndSeq(D + 1, 1..m) IN [k \in 1..(D + 1) |-> IF k = 1 \/ k = D + 1 THEN 1 ELSE q[k]]
\* (many dimensions: small ranks and values; sometimes a few large ranks with sparse small values)
ActMk == Ready("mk") /\ \E big \in {IF D <= 3 THEN Rnd(1..8) = 1 ELSE FALSE} :
           \E r \in {IF big THEN RndRanks(9) ELSE RndRanks(IF D > 4 THEN 2 ELSE IF Rnd(1..4) = 1 THEN 5 ELSE 3)} : \E s \in {AnyS} :
           \E p \in {RndSeq(NPar(r), IF D > 4 \/ big THEN -1..1 ELSE Rnd({-1..1, -2..2, {-1, 0, 0, 2}, -1..1}))} : MkFT(s, r, p)
ActZeros == Ready("zeros") /\ \E r \in {RndRanks(3)} : \E s \in {AnyS} : Set(s, [Zero EXCEPT !.r = r], "zeros", <<s>> \o r, <<>>)
ActConst == Ready("const") /\ ~IsK /\ \E s \in {AnyS} : \E c \in {Rnd(-5..5)} : \E q \in {Rnd({1, 2, 4})} :
              Set(s, Norml(Mk([i \in 1..Size(n) |-> c], q, Abs(c) + 1, One)), "const", <<s, ToString(c) \o "/" \o ToString(q) \o Sfx(VE)>>, <<>>)
X(k, i) == sp[k].x[i + 1]
LinF(c, a) == LET v == FromIdx(n, LAMBDA ix : SumSeq([k \in 1..D |-> c[k] * X(k, ix[k]) + a[k]]))
              IN Mk(v, 1, SumSeq([k \in 1..D |-> Max2(60, 3 * MaxAbs(sp[k].x) + 10)]), [k \in 1..(D + 1) |-> IF k = 1 \/ k = D + 1 THEN 1 ELSE 2])
ActLinear == Ready("linear") /\ AllL /\ \E s \in {AnyS}, c \in {RndSeq(D, -3..3)}, a \in {RndSeq(D, -3..3)}, l1 \in {Rnd(1..2)}, l2 \in {Rnd(1..2)} :
               Set(s, LinF(c, a), "linear", <<s, l1, l2>> \o Nums(c, VE - HE) \o Nums(a, VE), <<>>)
ActRankOne == Ready("rankone") /\ AllL /\ \E s \in {AnyS}, c \in {RndSeq(D, -2..2)} :
               Set(s, LET v == FromIdx(n, LAMBDA ix : ProdSeq([k \in 1..D |-> c[k] * X(k, ix[k])])) IN Mk(v, 1, MaxAbs(v) + 1, One), "rankone", <<s>> \o Nums(c, UE - HE), <<>>)
RECURSIVE Flat(_, _)
Flat(t, k) == IF k > Len(t) THEN <<>> ELSE t[k] \o Flat(t, k + 1)
ActTab == Ready("fromtab") /\ ~IsK /\ \E s \in {AnyS}, kind \in {Rnd({"prod", "sum"})}, t \in {TLCEval([k \in 1..D |-> RndSeq(n[k], -3..3)])} :
            \E v \in {IF kind = "prod" THEN FromIdx(n, LAMBDA ix : ProdSeq([k \in 1..D |-> t[k][ix[k] + 1]]))
                      ELSE FromIdx(n, LAMBDA ix : SumSeq([k \in 1..D |-> t[k][ix[k] + 1]]))} :
              Set(s, Mk(v, 1, MaxAbs(v) + 10, [k \in 1..(D + 1) |-> 2]), "fromtab", <<kind, s>> \o Nums(Flat(t, 1), IF kind = "prod" THEN UE ELSE VE), <<>>)

(******************************* arithmetic *********************************)
ActCopy == Ready("cp") /\ Live # {} /\ \E s \in {LiveS} : \E d \in {AnyS} : d # s /\ Set(d, S[s], "cp", <<d, s>>, <<>>)
ActFree == Ready("free") /\ Cardinality(Live) > 1 /\ \E s \in {LiveS} :
             S' = [S EXCEPT ![s] = Dead] /\ UNCHANGED A /\ Do(<<St("free", <<s>>, <<>>)>>)
ActSum == Ready("sum") /\ Live # {} /\ \E a \in {LiveS}, b \in {LiveS}, d \in {AnyS} : d # a /\ d # b /\ LinOk(1, S[a], 1, S[b]) /\
            Set(d, Lin(1, S[a], 1, S[b], AddR(S[a].r, S[b].r)), "sum", <<d, a, b>>, <<>>)
ActProd == Ready("prod") /\ ~IsK /\ Live # {} /\ \E a \in {LiveS}, b \in {LiveS}, d \in {AnyS} : d # a /\ d # b /\ S[a].sc * S[b].sc <= LIM /\
            Set(d, Mult(S[a], S[b]), "prod", <<d, a, b>>, <<>>)
ActScale == Ready("scale") /\ Live # {} /\ \E a \in {LiveS}, p \in {Rnd(-3..3)}, q \in {Rnd({1, 1, 2, 4})} : S[a].sc <= 8000 /\
            Set(a, ScaleF(S[a], p, q), "scale", <<a, ToString(p) \o "/" \o ToString(q)>>, <<>>)
Epss == {"0", "-1", "1e-12"}
\* what rounding must reach: a rank never exceeds the size of either unfolding
CapR(r) == [i \in 1..(D + 1) |-> Min2(r[i], Min2(ProdSeq(SubSeq(n, 1, i - 1)), ProdSeq(SubSeq(n, i, D))))]
\* ... unless cancellation left nothing but floating-point noise to be rounded
Clean(f) == MaxAbs(f.v) * 1000 >= f.sc
Cap(f) == IF Clean(f) THEN CapR(f.r) ELSE f.r
\* eps > 0 : the ranks the documented rounding may keep
Rounded(f, eps) == IF eps = "1e-12" THEN [f EXCEPT !.r = Cap(f)] ELSE f
\* (a train whose norm is below machine precision is rounded to zero)
RndOk(f) == f.ex + (D * HE) \div 2 >= -40
EpsOk(e, f) == e # "1e-12" \/ RndOk(f)
EpsOf == IF IsK THEN Rnd({"0", "-1"}) ELSE Rnd(Epss)
ActAxpy == Ready("axpy") /\ Live # {} /\ \E x \in {LiveS}, y \in {LiveS}, al \in {Rnd(-3..3)}, e \in {EpsOf} : EpsOk(e, S[y]) /\ LinOk(al, S[x], 1, S[y]) /\
            Set(y, Rounded(Lin(al, S[x], 1, S[y], AddR(S[x].r, S[y].r)), e), "axpy", <<al, x, y, e>>, <<>>)

(********************************* arrays ***********************************)
ActAmk == Ready("amk") /\ Live # {} /\ \E a \in {Rnd(0..(NA - 1))}, m \in {Rnd(1..4)} : \E ix \in {RndSeq(m, Live)} :
            SetA(a, TLCEval([i \in 1..m |-> S[ix[i]]]), "amk", <<a, m>> \o ix, <<>>)
ActAcp == Ready("acp") /\ ALive # {} /\ \E a \in {LiveA}, b \in {Rnd(0..(NA - 1))} : a # b /\ SetA(b, A[a].e, "acp", <<b, a>>, <<>>)
ActAfree == Ready("afree") /\ ALive # {} /\ \E a \in {LiveA} : A' = [A EXCEPT ![a] = Dead] /\ UNCHANGED S /\ Do(<<St("afree", <<a>>, <<>>)>>)
ActAget == Ready("aget") /\ ALive # {} /\ \E a \in {LiveA} : \E i \in {Rnd(1..Len(A[a].e))}, d \in {AnyS} :
            Set(d, A[a].e[i], "aget", <<d, a, i - 1>>, <<>>)
ActAscale == Ready("ascale") /\ ALive # {} /\ \E a \in {LiveA}, p \in {Rnd(-3..3)}, inc \in {Rnd(1..2)} :
              LET cnt == (Len(A[a].e) + inc - 1) \div inc IN
              SetA(a, TLCEval([i \in 1..Len(A[a].e) |-> IF (i - 1) % inc = 0 THEN ScaleF(A[a].e[i], p, 1) ELSE A[a].e[i]]), "ascale", <<a, cnt, inc, p>>, <<>>)
ActVaxpy == Ready("vaxpy") /\ Cardinality(ALive) > 1 /\ \E x \in {LiveA}, y \in {LiveA}, al \in {Rnd(-2..2)}, ix \in {Rnd(1..2)}, iy \in {Rnd(1..2)}, e \in {EpsOf} : x # y /\ (\A i \in 1..Len(A[y].e) : EpsOk(e, A[y].e[i])) /\
   LET cnt == Min2((Len(A[x].e) + ix - 1) \div ix, (Len(A[y].e) + iy - 1) \div iy) IN
   /\ \A i \in 0..(cnt - 1) : LinOk(al, A[x].e[i * ix + 1], 1, A[y].e[i * iy + 1])
   /\ SetA(y, TLCEval([j \in 1..Len(A[y].e) |-> IF (j - 1) % iy = 0 /\ (j - 1) \div iy < cnt
              THEN LET f == A[x].e[((j - 1) \div iy) * ix + 1]  g == A[y].e[j] IN Rounded(Lin(al, f, 1, g, AddR(f.r, g.r)), e) ELSE A[y].e[j]]),
           "vaxpy", <<cnt, al, x, ix, y, iy, e>>, <<>>)
\* z <- beta z + alpha sum_i y_i x_i
RECURSIVE FoldAx(_, _, _, _, _)
FoldAx(z, e, ix, ys, i) == IF i > Len(ys) THEN z
  ELSE FoldAx(Lin(ys[i], e[(i - 1) * ix + 1], 1, z, AddR(z.r, e[(i - 1) * ix + 1].r)), e, ix, ys, i + 1)
SumSc(e, L) == SumSeq([i \in 1..Len(e) |-> e[i].sc * (L \div e[i].den)])
ActVaxpyA == Ready("vaxpya") /\ ALive # {} /\ Live # {} /\ \E x \in {LiveA}, z \in {LiveS}, al \in {Rnd(-2..2)}, be \in {Rnd(-2..2)}, ix \in {Rnd(1..2)}, iy \in {Rnd(1..2)}, e \in {EpsOf} :
   LET cnt == (Len(A[x].e) + ix - 1) \div ix
       L == FoldLeft(LAMBDA q, f : Lcm(q, f.den), S[z].den, A[x].e) IN
   /\ EpsOk(e, S[z]) /\ L <= 500 /\ S[z].sc * (L \div S[z].den) * 2 + 6 * SumSc(A[x].e, L) <= LIM /\ (\A i \in 1..Len(A[x].e) : A[x].e[i].ex = S[z].ex)
   /\ \E ys \in {RndSeq(cnt, -2..2)} :
      LET f == FoldAx(ScaleF(S[z], be, 1), A[x].e, ix, [i \in 1..cnt |-> al * ys[i]], 1)
      IN Set(z, Rounded(f, e), "vaxpya", <<cnt, al, x, ix, iy>> \o ys \o <<be, z, e>>, <<>>)
\* z <- beta z + alpha sum_i x_i y_i
RECURSIVE FoldPr(_, _, _, _, _, _, _, _)
FoldPr(z, al, ex, ix, ey, iy, cnt, i) == IF i > cnt THEN z
  ELSE LET p == Mult(ex[(i - 1) * ix + 1], ey[(i - 1) * iy + 1]) IN FoldPr(Lin(al, p, 1, z, AddR(z.r, p.r)), al, ex, ix, ey, iy, cnt, i + 1)
ActVprod == Ready("vprodsum") /\ ~IsK /\ ALive # {} /\ Live # {} /\ \E x \in {LiveA}, y \in {LiveA}, z \in {LiveS}, al \in {Rnd(-2..2)}, be \in {Rnd(-2..2)}, ix \in {Rnd(1..2)}, iy \in {Rnd(1..2)}, e \in {EpsOf} :
   LET cnt == Min2((Len(A[x].e) + ix - 1) \div ix, (Len(A[y].e) + iy - 1) \div iy)
       Lx == FoldLeft(LAMBDA q, f : Lcm(q, f.den), 1, A[x].e)  Ly == FoldLeft(LAMBDA q, f : Lcm(q, f.den), 1, A[y].e)
       mx == SumSc(A[x].e, Lx)  my == SumSc(A[y].e, Ly)  L == Lcm(Lx * Ly, S[z].den) IN
   /\ (\A i \in 0..(cnt - 1) : A[x].e[i * ix + 1].ex + A[y].e[i * iy + 1].ex = S[z].ex) /\ EpsOk(e, S[z]) /\ Lx <= 100 /\ Ly <= 100 /\ L <= 500 /\ mx <= 4000 /\ my <= 4000 /\ mx * my <= 20000
   /\ S[z].sc * (L \div S[z].den) * 2 + 2 * mx * my * (L \div (Lx * Ly)) <= LIM
   /\ LET f == FoldPr(ScaleF(S[z], be, 1), al, A[x].e, ix, A[y].e, iy, cnt, 1)
      IN Set(z, Rounded(f, e), "vprodsum", <<cnt, al, x, ix, y, iy, be, z, e>>, <<>>)

\* z <- beta z + alpha (sum_i A_i) x
ActGemv == Ready("gemv") /\ ~IsK /\ ALive # {} /\ Cardinality(Live) > 1 /\ \E a \in {LiveA}, x \in {LiveS}, z \in {LiveS}, al \in {Rnd(-2..2)}, be \in {Rnd(-2..2)}, ia \in {Rnd(1..2)}, e \in {EpsOf} : x # z /\
   LET cnt == (Len(A[a].e) + ia - 1) \div ia
       La == FoldLeft(LAMBDA q, f : Lcm(q, f.den), 1, A[a].e)  ma == SumSc(A[a].e, La)  mx == S[x].sc  L == Lcm(La * S[x].den, S[z].den) IN
   /\ (\A i \in 1..Len(A[a].e) : A[a].e[i].ex + S[x].ex = S[z].ex) /\ EpsOk(e, S[z]) /\ La <= 100 /\ S[x].den <= 100 /\ L <= 500 /\ ma <= 4000 /\ mx <= 4000 /\ ma * mx <= 20000
   /\ S[z].sc * (L \div S[z].den) * 2 + 2 * ma * mx * (L \div (La * S[x].den)) <= LIM
   /\ Set(z, Rounded(FoldPr(ScaleF(S[z], be, 1), al, A[a].e, ia, [i \in 1..cnt |-> S[x]], 1, cnt, 1), e), "gemv", <<cnt, al, a, ia, x, be, z, e>>, <<>>)
\* y_i <- beta y_i + alpha sum_j M_ij B_j, M an array of numbers (stored by columns, or by rows when transposed)
ArrSc(e) == LET L == FoldLeft(LAMBDA q, f : Lcm(q, f.den), 1, e) IN [L |-> L, m |-> SumSc(e, L)]
ActVgemvA == Ready("vgemva") /\ Cardinality(ALive) > 1 /\ \E b \in {LiveA}, y \in {LiveA}, al \in {Rnd(-2..2)}, be \in {Rnd(-2..2)}, ib \in {Rnd(1..2)}, iy \in {Rnd(1..2)}, pad \in {Rnd(0..1)}, tr \in {Rnd(0..1)}, e \in {EpsOf} : b # y /\
   LET nn == (Len(A[b].e) + ib - 1) \div ib  m == (Len(A[y].e) + iy - 1) \div iy  ld == (IF tr = 0 THEN m ELSE nn) + pad
       qb == ArrSc(A[b].e)  qy == ArrSc(A[y].e)  L == Lcm(qb.L, qy.L)
       M == RndSeq(ld * (IF tr = 0 THEN nn ELSE m), -2..2) IN
   /\ qb.L <= 200 /\ qy.L <= 200 /\ L <= 500 /\ qy.m * (L \div qy.L) * 2 + 6 * qb.m * (L \div qb.L) <= LIM
   /\ (\A i \in 1..Len(A[y].e) : A[y].e[i].ex = A[b].e[1].ex /\ EpsOk(e, A[y].e[i])) /\ (\A i \in 1..Len(A[b].e) : A[b].e[i].ex = A[b].e[1].ex)
   /\ \E mat \in {M} :
      SetA(y, TLCEval([j \in 1..Len(A[y].e) |-> IF (j - 1) % iy # 0 THEN A[y].e[j] ELSE LET i == (j - 1) \div iy IN
              Rounded(FoldAx(ScaleF(A[y].e[j], be, 1), A[b].e, ib, [k \in 1..nn |-> al * mat[IF tr = 0 THEN i + (k - 1) * ld + 1 ELSE i * ld + k]], 1), e)]),
           "vgemva", <<tr, m, nn, al, ld, Len(mat)>> \o mat \o <<b, ib, be, y, iy, e>>, <<>>)
\* y_i <- beta y_i + alpha sum_j M_ij x_j, M an array of trains stored by columns
ActVgemv == Ready("vgemv") /\ ~IsK /\ Cardinality(ALive) > 1 /\ \E a \in {LiveA}, x \in {LiveA}, y \in {LiveA}, al \in {Rnd(-2..2)}, be \in {Rnd(-2..2)}, m0 \in {Rnd(1..3)}, ix \in {Rnd(1..2)}, iy \in {Rnd(1..2)}, pad \in {Rnd(0..1)}, e \in {EpsOf} : y # a /\ y # x /\
   LET m == Min2(Min2(m0, (Len(A[y].e) + iy - 1) \div iy), Len(A[a].e))  ld == m + pad
       nn == Min2((Len(A[x].e) + ix - 1) \div ix, ((Len(A[a].e) - m) \div ld) + 1)
       qa == ArrSc(A[a].e)  qx == ArrSc(A[x].e)  qy == ArrSc(A[y].e)  L == Lcm(qa.L * qx.L, qy.L) IN
   /\ qa.L <= 20 /\ qx.L <= 20 /\ qy.L <= 100 /\ L <= 500 /\ qa.m <= 4000 /\ qx.m <= 4000 /\ qa.m * qx.m <= 20000
   /\ qy.m * (L \div qy.L) * 2 + 2 * qa.m * qx.m * (L \div (qa.L * qx.L)) <= LIM
   /\ (\A i \in 1..Len(A[y].e) : A[y].e[i].ex = A[y].e[1].ex /\ EpsOk(e, A[y].e[i]))
   /\ (\A i \in 1..Len(A[a].e), j \in 1..Len(A[x].e) : A[a].e[i].ex + A[x].e[j].ex = A[y].e[1].ex)
   /\ SetA(y, TLCEval([j \in 1..Len(A[y].e) |-> IF (j - 1) % iy # 0 \/ (j - 1) \div iy >= m THEN A[y].e[j] ELSE LET i == (j - 1) \div iy IN
              Rounded(FoldPr(ScaleF(A[y].e[j], be, 1), al, SubSeq(A[a].e, i + 1, Len(A[a].e)), ld, A[x].e, ix, nn, 1), e)]),
           "vgemv", <<m, nn, al, a, ld, x, ix, be, y, iy, e>>, <<>>)

(******************************* evaluation *********************************)
RndPt(g) == IF g.fam = "K" THEN [i |-> Rnd(1..NN(g)), w |-> Rnd(0..3)] ELSE IF Rnd(1..12) = 1 THEN Rnd(PtsOut(g)) ELSE Rnd(PtsIn(g))
RndPts == TLCEval([k \in 1..D |-> RndPt(sp[k])])
PS(P) == [k \in 1..D |-> PtStr(sp[k], P[k])]
PN(P) == [k \in 1..D |-> PtNum(sp[k], P[k])]
EvNum(f, P) == Eval(f.v, n, [k \in 1..D |-> PtW(sp[k], P[k])])
EvDen(f) == f.den * Pow(4, D)
EvSc(f) == f.sc * Pow(4, D)
EvOk(f) == f.sc <= 1000000000 \div Pow(4, D)
EvObs(k, f, Ps) == XQ(IF IsK THEN Kern(k, "eval", f, [i \in 1..Len(Ps) |-> PN(Ps[i])])
                      ELSE Eq(k, [i \in 1..Len(Ps) |-> EvNum(f, Ps[i])], EvDen(f), EvSc(f)), f.ex)
RECURSIVE CatPS(_, _)
CatPS(Ps, i) == IF i > Len(Ps) THEN <<>> ELSE PS(Ps[i]) \o CatPS(Ps, i + 1)
ActEv == Ready("ev") /\ \E s \in {z \in Live : EvOk(S[z])} : \E P \in {RndPts} : Look("ev", <<s>> \o PS(P), <<EvObs("v", S[s], <<P>>)>>)
ActEvs == Ready("evs") /\ \E s \in {z \in Live : EvOk(S[z])} : \E m \in {Rnd({1, 2, 3, 5, 8})} : \E Ps \in {TLCEval([i \in 1..m |-> RndPts])} :
            Look("evs", <<s, m>> \o CatPS(Ps, 1), <<EvObs("v", S[s], Ps)>>)
\* the product of the first cores, as a row vector
RECURSIVE RowTo(_, _, _, _)
RowTo(r, c, W, k) == IF k = 0 THEN <<1>> ELSE LET v == RowTo(r, c, W, k - 1) IN
   TLCEval([j \in 1..r[k + 1] |-> SumSeq([i \in 1..r[k] |-> v[i] * SumSeq([u \in 1..n[k] |-> W[k][u] * c[k][((j - 1) * r[k] + i - 1) * n[k] + u]])])])
ActUpto == Ready("upto") /\ ~IsK /\ \E s \in {z \in Live : "p" \in DOMAIN S[z] /\ EvOk(S[z]) /\ S[z].ex = 0} : \E P \in {RndPts}, k \in {Rnd(1..D)} :
   LET f == S[s]  W == [j \in 1..D |-> PtW(sp[j], P[j])]  v == RowTo(f.r, Split(f.p, f.r), W, k) IN
   Look("upto", <<s, k - 1>> \o PS(P), <<IntO("n", f.r[k + 1]), Eq("v", v, Pow(4, k), f.sc * Pow(4, k))>>)
\* the central point and, for each dimension, two points that differ from it in that coordinate only
ActCop == Ready("cop") /\ \E s \in {z \in Live : EvOk(S[z])} : \E P \in {RndPts}, Q \in {RndPts}, R \in {RndPts} :
            LET pk(k) == [P EXCEPT ![k] = Q[k]]  qk(k) == [P EXCEPT ![k] = R[k]]
                per == [i \in 1..(2 * D) |-> IF i % 2 = 1 THEN pk((i + 1) \div 2) ELSE qk(i \div 2)]
            IN Look("cop", <<s>> \o PS(P) \o [i \in 1..(2 * D) |-> IF i % 2 = 1 THEN PtStr(sp[(i + 1) \div 2], Q[(i + 1) \div 2]) ELSE PtStr(sp[i \div 2], R[i \div 2])],
                    <<EvObs("c", S[s], <<P>>), EvObs("v", S[s], per)>>)
RndIdx == TLCEval([k \in 1..D |-> Rnd(0..(n[k] - 1))])
ActEvi == Ready("evi") /\ ~IsK /\ Live # {} /\ \E s \in {LiveS}, ix \in {RndIdx} : Look("evi", <<s>> \o ix, <<XQ(Eq("v", <<At(S[s].v, n, ix)>>, S[s].den, S[s].sc), S[s].ex)>>)
ActCopi == Ready("copi") /\ ~IsK /\ Live # {} /\ \E s \in {LiveS}, P \in {RndIdx}, Q \in {RndIdx}, R \in {RndIdx} :
            LET val(z) == At(S[s].v, n, z) IN
            Look("copi", <<s>> \o P \o [i \in 1..(2 * D) |-> IF i % 2 = 1 THEN Q[(i + 1) \div 2] ELSE R[i \div 2]],
                 <<XQ(Eq("c", <<val(P)>>, S[s].den, S[s].sc), S[s].ex),
                   XQ(Eq("v", [i \in 1..(2 * D) |-> IF i % 2 = 1 THEN val([P EXCEPT ![(i + 1) \div 2] = Q[(i + 1) \div 2]]) ELSE val([P EXCEPT ![i \div 2] = R[i \div 2]])], S[s].den, S[s].sc), S[s].ex)>>)
ActFib == Ready("fib") /\ ~IsK /\ Live # {} /\ \E s \in {LiveS}, P \in {RndIdx}, k \in {Rnd(1..D)}, m \in {Rnd(1..4)} : \E ix \in {RndSeq(m, 0..(n[k] - 1))} :
            Look("fib", <<s>> \o P \o <<k - 1, m>> \o ix, <<XQ(Eq("v", [i \in 1..m |-> At(S[s].v, n, [P EXCEPT ![k] = ix[i]])], S[s].den, S[s].sc), S[s].ex)>>)
ActAev == Ready("aev") /\ ALive # {} /\ \E a \in {LiveA} : (\A i \in 1..Len(A[a].e) : EvOk(A[a].e[i])) /\ \E P \in {RndPts} :
            LET m == Len(A[a].e) IN
            IF IsK THEN Look("aev", <<a>> \o PS(P), <<[k |-> "v", m |-> "kerns", fs |-> A[a].e, pts |-> <<PN(P)>>], [k |-> "v2", m |-> "kerns", fs |-> A[a].e, pts |-> <<PN(P)>>]>>)
            ELSE LET v == [i \in 1..m |-> EvNum(A[a].e[i], P)]  dn == [i \in 1..m |-> EvDen(A[a].e[i])]  sc == MaxSeq([i \in 1..m |-> EvSc(A[a].e[i])])
                 xe == [i \in 1..m |-> A[a].e[i].ex] IN Look("aev", <<a>> \o PS(P), <<Eq("v", v, dn, sc) @@ [ex |-> xe], Eq("v2", v, dn, sc) @@ [ex |-> xe]>>)
ActNodal == Ready("nodal") /\ ~IsK /\ (\A k \in 1..D : sp[k].fam = "L") /\ \E s \in {z \in Live : EvOk(S[z])} :
   \E m \in {RndSeq(D, 3..5)} : \E off \in {RndSeq(D, 0..1)} :
   \* a refinement or coarsening: the points with index off, off+st, ... of the quarter grid inside [lb, ub]
   LET pts(k) == LET q == NN(sp[k]) - 1  tot == 4 * q
                 IN [j \in 1..m[k] |-> LET z == ((j - 1) * tot) \div (m[k] - 1) IN IF z = tot THEN [i |-> q + 1, w |-> 0] ELSE [i |-> (z \div 4) + 1, w |-> z % 4]]
       P == TLCEval([k \in 1..D |-> pts(k)])
       T == ApplyAll(S[s].v, n, [k \in 1..D |-> [j \in 1..m[k] |-> PtW(sp[k], P[k][j])]])
       ga == [k \in 1..D |-> <<m[k]>> \o [j \in 1..m[k] |-> PtStr(sp[k], P[k][j])]]
   IN Look("nodal", <<s>> \o Flat(ga, 1), <<LeS("ranks", S[s].r), XQ(Eq("vals", T, EvDen(S[s]), EvSc(S[s])), S[s].ex)>>)

(***************************** integration **********************************)
IW == [k \in 1..D |-> IntW(sp[k])]
WSum == ProdSeq([k \in 1..D |-> SumSeq(IW[k])])      \* 2^D times the volume
IntOk(f) == f.sc <= 1000000000 \div Max2(WSum, 1)
ActInt == Ready("int") /\ \E s \in {z \in Live : IsK \/ IntOk(S[z])} : \E op \in {IF IsK THEN Rnd({"int", "intw"}) ELSE "int"} :
            Look(op, <<s>>, <<XQ(IF IsK THEN Kern("v", "int", S[s], <<>>) ELSE Eq("v", <<Eval(S[s].v, n, IW)>>, S[s].den * Pow(2, D), S[s].sc * WSum), S[s].ex + D * HE)>>)
InOk(f, g) == f.sc <= 30000 /\ g.sc <= 30000 /\ f.sc * g.sc <= 1000000000 \div Max2(WSum, 1)
InNum(f, g) == Eval(TLCEval([q \in DOMAIN f.v |-> f.v[q] * g.v[q]]), n, IW)
InSc(f, g) == f.sc * g.sc * WSum
ActInner == Ready("inner") /\ Live # {} /\ \E a \in {LiveS}, b \in {LiveS}, w \in {Rnd({"1", "2", "rl", "dot"})} : (IsK \/ InOk(S[a], S[b])) /\
            Look("inner", <<w, a, b>>, <<XQ(IF IsK THEN Kern2("v", "inner", S[a], S[b])
                 ELSE Eq("v", <<InNum(S[a], S[b])>>, S[a].den * S[b].den * Pow(2, D), InSc(S[a], S[b])), S[a].ex + S[b].ex + D * HE)>>)
\* norms: the observation squared is rational (mode sq)
Sq(k, v, den, sc) == [k |-> k, m |-> "sq", v |-> <<v>>, den |-> den, sc |-> sc]
ActNorm == Ready("norm") /\ \E s \in {z \in Live : IsK \/ InOk(S[z], S[z])} :
            Look("norm", <<s>>, <<XQ(IF IsK THEN Kern2("v", "norm", S[s], S[s])
                 ELSE Sq("v", InNum(S[s], S[s]), S[s].den * S[s].den * Pow(2, D), InSc(S[s], S[s])), S[s].ex + (D * HE) \div 2)>>)
Diff(a, b) == Lin(1, S[a], -1, S[b], One)
ActNdiff == Ready("ndiff") /\ Live # {} /\ \E a \in {LiveS}, b \in {LiveS} : LinOk(1, S[a], 1, S[b]) /\ LET f == Diff(a, b) IN (IsK \/ InOk(f, f)) /\
            Look("ndiff", <<a, b>>, <<XQ(IF IsK THEN Kern2("v", "norm", f, f) ELSE Sq("v", InNum(f, f), f.den * f.den * Pow(2, D), InSc(f, f)), f.ex + (D * HE) \div 2)>>)
\* (the library compares absolutely when the squared norm of the reference is below machine precision)
ActRdiff == Ready("rdiff") /\ ~IsK /\ Live # {} /\ \E a \in {LiveS}, b \in {LiveS} : LinOk(1, S[a], 1, S[b]) /\ LET f == Diff(a, b) IN InOk(f, f) /\ InOk(S[b], S[b]) /\ InNum(S[b], S[b]) > 0 /\ 2 * S[b].ex + D * HE >= -28 /\
            Look("rdiff", <<a, b>>, <<[k |-> "v", m |-> "sqratio", v |-> <<InNum(f, f)>>, den |-> f.den * f.den, sc |-> InSc(f, f), v2 |-> <<InNum(S[b], S[b])>>, den2 |-> S[b].den * S[b].den]>>)
\* integrate out a proper subset of the dimensions (only the kernel family implements the weighted integral)
ActSubset == Ready("subset") /\ IsK /\ Live # {} /\ \E s \in {LiveS} : \E set \in {Rnd({z \in SUBSET (1..D) : z # {} /\ z # 1..D})} :
            LET ds == SetToSortSeq(set, LAMBDA x, y : x < y)
            IN Look("subset", <<s, Len(ds)>> \o [i \in 1..Len(ds) |-> ds[i] - 1],
                 <<IntO("dim", D - Len(ds)), XQ(Kern("vals", "subset", S[s], ds), S[s].ex + Len(ds) * HE)>>)

(***************************** differentiation ******************************)
Nice(k) == NN(sp[k]) <= 5 \/ Uniform(sp[k])
DDen(k) == DerDen(sp[k])
DMax(k) == DerMax(sp[k])
Der(f, k) == Norml(MkE(ModeK(f.v, n, k, DerMat(sp[k])), f.den * DDen(k), f.sc * DMax(k) + 1, f.r, f.ex - HE))
DerOk(f, k) == Nice(k) /\ f.sc <= 8000 /\ f.den <= 200 /\ f.sc * DMax(k) <= LIM
AllDer(f) == \A k \in 1..D : DerOk(f, k)
ActGrad == Ready("agrad") /\ ~IsK /\ \E s \in {z \in Live : AllDer(S[z])} : \E a \in {Rnd(0..(NA - 1))} :
            SetA(a, TLCEval([k \in 1..D |-> Der(S[s], k)]), "agrad", <<a, s>>, <<>>)
ActJac == Ready("ajac") /\ ~IsK /\ \E a \in {z \in ALive : Len(A[z].e) <= 3 /\ \A i \in 1..Len(A[z].e) : AllDer(A[z].e[i])} : \E b \in {Rnd(0..(NA - 1))} : a # b /\
            LET m == Len(A[a].e) IN SetA(b, TLCEval([q \in 1..(m * D) |-> Der(A[a].e[((q - 1) % m) + 1], ((q - 1) \div m) + 1)]), "ajac", <<b, a>>, <<>>)
Der2(f, k1, k2) == Der(Der(f, k1), k2)
D2Ok(f) == AllDer(f) /\ \A k \in 1..D : AllDer(Der(f, k))
ActHess == Ready("ahess") /\ ~IsK /\ D <= 3 /\ \E s \in {z \in Live : D2Ok(S[z])} : \E a \in {Rnd(0..(NA - 1))} :
            SetA(a, TLCEval([q \in 1..(D * D) |-> Der2(S[s], ((q - 1) % D) + 1, ((q - 1) \div D) + 1)]), "ahess", <<a, s>>, <<>>)
ActHessD == Ready("ahessd") /\ AllL /\ \E s \in {z \in Live : D2Ok(S[z])} : \E a \in {Rnd(0..(NA - 1))} :
            SetA(a, TLCEval([k \in 1..D |-> Der2(S[s], k, k)]), "ahessd", <<a, s>>, <<>>)
\* pointwise gradient: slope of the interpolant in one coordinate, values in the others
GradeNum(f, P, k) == Eval(f.v, n, [j \in 1..D |-> IF j = k THEN SlopeAt(sp[j], P[j]).row ELSE PtW(sp[j], P[j])])
ActGradE == Ready("grade") /\ (\A k \in 1..D : sp[k].fam # "C") /\ \E s \in {z \in Live : EvOk(S[z])} : \E P \in {RndPts} :
            IF IsK THEN Look("grade", <<s>> \o PS(P), <<XQ(Kern("v", "grad", S[s], <<PN(P)>>), S[s].ex - HE)>>)
            ELSE Look("grade", <<s>> \o PS(P), <<XQ(Eq("v", [k \in 1..D |-> GradeNum(S[s], P, k)], [k \in 1..D |-> S[s].den * Pow(4, D - 1) * SlopeAt(sp[k], P[k]).den], EvSc(S[s])), S[s].ex - HE)>>)

(******************************* rounding ***********************************)
IntV(f) == Eval(f.v, n, IW)
ActRound == Ready("round") /\ ~IsK /\ Live # {} /\ \E s \in {LiveS}, d \in {AnyS} : d # s /\ RndOk(S[s]) /\
            \E e \in {Rnd({"1e-12", "1e-11"})} : Set(d, MkE(S[s].v, S[s].den, S[s].sc, Cap(S[s]), S[s].ex), "round", <<d, s, e>>, <<>>)
\* a coarse rounding: relative error in the (discrete) L2 norm of the space at most eps, ranks never grow; result dropped
L2(k, f, eps) == [k |-> k, m |-> "l2rel", v |-> f.v, den |-> f.den, sc |-> f.sc, w |-> IW, eps |-> eps, ex |-> f.ex]
ActRoundC == Ready("roundc") /\ ~IsK /\ Live # {} /\ \E s \in {LiveS}, d \in {AnyS} : d # s /\ RndOk(S[s]) /\ \E e \in {Rnd({"0.5", "0.2", "0.1", "0.03", "1e-2", "1e-3", "1e-5"})} :
            /\ S' = [S EXCEPT ![d] = Dead] /\ UNCHANGED A
            /\ Do(<<St("round", <<d, s, e>>, <<>>), St("dump", <<d>>, <<LeS("ranks", Cap(S[s])), L2("vals", S[s], e)>>), St("free", <<d>>, <<>>), Dump(s, S[s])>>)
ActRoundM == Ready("roundm") /\ ~IsK /\ Live # {} /\ \E s \in {LiveS}, d \in {AnyS}, m \in {Rnd(1..5)} : d # s /\ RndOk(S[s]) /\
            LET cap == Cap(S[s])  full == MaxSeq(cap) <= m IN
            /\ S' = [S EXCEPT ![d] = Dead] /\ UNCHANGED A
            /\ Do(<<St("roundm", <<d, s, "1e-12", m>>, <<>>),
                   St("dump", <<d>>, <<LeS("ranks", [k \in 1..(D + 1) |-> Min2(cap[k], m)])>> \o
                     (IF full THEN <<XQ(Eq("vals", S[s].v, S[s].den, S[s].sc), S[s].ex)>> ELSE <<[L2("vals", S[s], "1") EXCEPT !.m = "l2svd"] @@ [mr |-> m, n |-> n]>>)),
                   St("free", <<d>>, <<>>), Dump(s, S[s])>>)
ActOrth == Ready("orthor") /\ ~IsK /\ (\A k \in 1..D : NN(sp[k]) >= 2) /\ \E s \in {z \in Live : \A k \in 2..D : S[z].r[k] <= S[z].r[k + 1] * n[k]} : \E d \in {AnyS} : d # s /\
            /\ S' = [S EXCEPT ![d] = NoP(S[s]), ![s] = Dead] /\ UNCHANGED A    \* the argument is documented to be overwritten
            /\ Do(<<St("orthor", <<d, s>>, <<>>), St("free", <<s>>, <<>>), Dump(d, S[s]), St("orthchk", <<d>>, <<[k |-> "worst", m |-> "lenum", v |-> <<1>>, den |-> 100000000]>>)>>)
ActMaxRank == Ready("maxrank") /\ \E s \in Live : UNCHANGED <<S, A>> /\ Do(<<St("maxrank", <<s>>, <<[k |-> "max", m |-> "le", v |-> <<MaxSeq(S[s].r)>>]>>)>>)

(**************************** parameters, storage ***************************)
ExactR(f, p) == TRUE
ActUpd == Ready("upd") /\ \E s \in {z \in Live : "p" \in DOMAIN S[z]} : \E p \in {RndSeq(Len(S[s].p), -2..2)} :
            LET f == Mk(Train(n, S[s].r, Split(p, S[s].r)), 1, TrainSc(S[s].r, p), S[s].r) @@ [p |-> p]
            IN Set(s, f, "upd", <<s>> \o Nums(p, UE), <<IntO("nparams", Len(p)), IntO("used", Len(p))>>)
ActMkP == Ready("mkp") /\ \E r \in {RndRanks(3)} : \E s \in {AnyS} : \E p \in {RndSeq(NPar(r), -2..2)} :
            LET f == Mk(Train(n, r, Split(p, r)), 1, TrainSc(r, p), r) @@ [p |-> p]
            IN Set(s, f, "mk", <<s>> \o r \o Nums(p, UE), <<IntO("used", Len(p))>>)
ActGetP == Ready("getp") /\ \E s \in {z \in Live : "p" \in DOMAIN S[z]} : Look("getp", <<s>>, <<IntO("np", Len(S[s].p)), XQ(Eq("params", S[s].p, 1, 1), UE)>>)
COff(r, c) == SumSeq([j \in 1..(c - 1) |-> r[j] * r[j + 1] * n[j]])
CLen(r, c) == r[c] * r[c + 1] * n[c]
ActCoreUpd == Ready("coreupd") /\ \E s \in {z \in Live : "p" \in DOMAIN S[z]} : \E c \in {Rnd(1..D)} : \E q \in {RndSeq(CLen(S[s].r, c), -2..2)} :
            LET r == S[s].r  o == COff(r, c)
                p == TLCEval([i \in 1..Len(S[s].p) |-> IF i > o /\ i <= o + Len(q) THEN q[i - o] ELSE S[s].p[i]])
            IN Set(s, Mk(Train(n, r, Split(p, r)), 1, TrainSc(r, p), r) @@ [p |-> p], "coreupd", <<s, c - 1>> \o Nums(q, UE), <<IntO("nparams", Len(q))>>)
ActCorePar == Ready("corepar") /\ \E s \in {z \in Live : "p" \in DOMAIN S[z]} : \E c \in {Rnd(1..D)} : LET r == S[s].r  o == COff(r, c)  m == CLen(r, c) IN
            Look("corepar", <<s, c - 1>>, <<IntO("np", m), IntO("maxp", n[c]), XQ(Eq("params", SubSeq(S[s].p, o + 1, o + m), 1, 1), UE)>>)
ActUniUpd == Ready("uniupd") /\ \E s \in {z \in Live : "p" \in DOMAIN S[z]} : \E c \in {Rnd(1..D)} : \E i \in {Rnd(0..(S[s].r[c] - 1))}, j \in {Rnd(0..(S[s].r[c + 1] - 1))}, q \in {RndSeq(n[c], -2..2)} :
            LET r == S[s].r  o == COff(r, c) + (j * r[c] + i) * n[c]
                p == TLCEval([z \in 1..Len(S[s].p) |-> IF z > o /\ z <= o + n[c] THEN q[z - o] ELSE S[s].p[z]])
            IN Set(s, Mk(Train(n, r, Split(p, r)), 1, TrainSc(r, p), r) @@ [p |-> p], "uniupd", <<s, c - 1, i, j>> \o Nums(q, UE), <<IntO("nparams", n[c])>>)
ActSer == Ready("ser") /\ Live # {} /\ \E s \in {LiveS}, d \in {AnyS} : d # s /\
            Set(d, S[s], "ser", <<d, s>>, <<IntO("wrote", 0), IntO("read", 0), IntO("size2", 0), IntO("same", 0)>>)
ActSave == Ready("save") /\ Live # {} /\ \E s \in {LiveS}, d \in {AnyS} : d # s /\ Set(d, S[s], "save", <<d, s>>, <<IntO("ok", 1), IntO("loaded", 1)>>)
ActTxt == Ready("txt") /\ ~IsK /\ Live # {} /\ \E s \in {LiveS}, d \in {AnyS}, pr \in {Rnd({15, 17, 21})} : d # s /\ Set(d, S[s], "txt", <<d, s, pr>>, <<>>)
ActASer == Ready("aser") /\ ALive # {} /\ \E a \in {LiveA}, b \in {Rnd(0..(NA - 1))} : a # b /\ SetA(b, A[a].e, "aser", <<b, a>>, <<IntO("wrote", 0), IntO("read", 0), IntO("size2", 0)>>)
ActASave == Ready("asave") /\ ALive # {} /\ \E a \in {LiveA}, b \in {Rnd(0..(NA - 1))} : a # b /\ SetA(b, A[a].e, "asave", <<b, a>>, <<IntO("ok", 1)>>)

(********************************* the end **********************************)
Finish == /\ sp # <<>> /\ left = 0
          /\ hist' = hist \o DumpAll(S, Live) \o DumpArr(A, ALive) \o <<St("heapcheck", <<>>, <<IntO("heap", 0)>>)>>
          /\ left' = -1 /\ UNCHANGED <<sp, S, A>>
Check == Ready("check") /\ Live # {} /\ UNCHANGED <<S, A, sp>> /\ hist' = hist \o DumpAll(S, Live) \o DumpArr(A, ALive) /\ left' = left - 1

Next == \/ Setup \/ ActMk \/ ActZeros \/ ActConst \/ ActLinear \/ ActRankOne \/ ActTab
        \/ ActCopy \/ ActFree \/ ActSum \/ ActProd \/ ActScale \/ ActAxpy
        \/ ActAmk \/ ActAcp \/ ActAfree \/ ActAget \/ ActAscale \/ ActVaxpy \/ ActVaxpyA \/ ActVprod \/ ActVaxpy \/ ActVaxpy \/ ActVprod
        \/ ActGemv \/ ActVgemvA \/ ActVgemv \/ ActUpto \/ ActEv \/ ActEvs \/ ActCop \/ ActEvi \/ ActCopi \/ ActFib \/ ActAev \/ ActNodal
        \/ ActInt \/ ActInner \/ ActNorm \/ ActNdiff \/ ActRdiff \/ ActSubset
        \/ ActGrad \/ ActJac \/ ActHess \/ ActHessD \/ ActGradE
        \/ ActRound \/ ActRoundC \/ ActRoundM \/ ActOrth \/ ActMaxRank
        \/ ActMkP \/ ActUpd \/ ActGetP \/ ActCoreUpd \/ ActCorePar \/ ActUniUpd
        \/ ActSer \/ ActSave \/ ActTxt \/ ActASer \/ ActASave \/ Check \/ Finish
Spec == Init /\ [][Next]_vars

Emit == left = -1 => CSVWrite("%1$s", <<ToJson(hist)>>, OutFile)
(* model-level invariants: the abstract state is well formed *)
TypeOK == /\ left \in -1..MaxLen
          /\ \A s \in 0..(NS - 1) : S[s].live => (Len(S[s].v) = Size(n) /\ S[s].den > 0 /\ MaxAbs(S[s].v) <= S[s].sc)
=============================================================================
