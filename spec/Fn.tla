--------------------------------- MODULE Fn ---------------------------------
(* The univariate machine: a client holds one-dimensional functions of one family -- piecewise linear ("L"),
   piecewise constant ("C") or Gaussian kernels ("K") -- and calls the generic_function layer in any order.
   The abstract value of a function is its node sequence and the exact rational coefficients v/den there
   (piecewise linear functions may live on two different grids with common end points and on their unions). *)
EXTENDS Grid, FiniteSets, Json, CSV, IOUtils, TLCExt
CONSTANTS Ops, Fams, MaxLen, MaxN, OutFile
VARIABLES g,      \* base grid record ([fam |-> "none"] before set-up)
          g2,     \* second grid (L only), same end points
          F,      \* slots
          hist, left
vars == <<g, g2, F, hist, left>>
NF == 6
LIM == 40000
Dead == [live |-> FALSE]
Rnd(set) == IF left < -1 THEN 0 ELSE RandomElement(set)
RndSeq(m, set) == TLCEval([i \in 1..m |-> IF left < -1 THEN 0 ELSE RandomElement(set)])
On(o) == o \in Ops
Live == {s \in 0..(NF - 1) : F[s].live}
L == g.fam = "L"  C == g.fam = "C"  K == g.fam = "K"
Ready(o) == On(o) /\ g.fam # "none" /\ left > 0
AnyS == Rnd(0..(NF - 1))
LiveS == Rnd(Live)
n == Len(g.x)
lo == g.x[1]  hi == g.x[n]

\* units: coordinates are integers times 2^HE, created values integers times 2^UE; a function's values carry 2^ex
HE == HOf(g)
UE == IF "u" \in DOMAIN g THEN g.u ELSE 0
MkE(x, v, den, sc, e) == [live |-> TRUE, x |-> x, v |-> v, den |-> den, sc |-> sc, ex |-> e]
Mk(x, v, den, sc) == MkE(x, v, den, sc, UE)
Ok(f) == f.sc <= LIM /\ f.den <= 2000 /\ Abs(f.ex) <= 60
Span == hi - lo
Norml(f) == LET q == FoldLeft(LAMBDA a, b : Gcd(a, b), f.den, f.v)
            IN IF q <= 1 THEN f ELSE [f EXCEPT !.v = TLCEval([i \in DOMAIN f.v |-> f.v[i] \div q]), !.den = f.den \div q, !.sc = f.sc \div q + 1]
Gr(f) == [fam |-> g.fam, x |-> f.x]
(* values: P is four times the coordinate. Weights over 4*h of the cell *)
CellOf(x, P) == CHOOSE i \in 1..(Len(x) - 1) : 4 * x[i] <= P /\ P <= 4 * x[i + 1]
Inside(x, P) == 4 * x[1] <= P /\ P <= 4 * x[Len(x)]
Near(x, P) == CHOOSE i \in 1..Len(x) : \A j \in 1..Len(x) : Abs(P - 4 * x[i]) <= Abs(P - 4 * x[j])
Tie(x, P) == \E i \in 1..(Len(x) - 1) : P - 4 * x[i] = 4 * x[i + 1] - P
\* numerator and denominator of f(P/4)
EvD(f, P) == IF L /\ Inside(f.x, P) THEN LET i == CellOf(f.x, P) IN 4 * (f.x[i + 1] - f.x[i]) ELSE 1
EvN(f, P) == IF ~Inside(f.x, P) THEN 0
             ELSE IF C THEN f.v[Near(f.x, P)]
             ELSE LET i == CellOf(f.x, P) IN f.v[i] * (4 * f.x[i + 1] - P) + f.v[i + 1] * (P - 4 * f.x[i])
\* coefficients of f on the finer node sequence x: integers over den 4*Lcm(steps)
ReDen(f, x) == LET D == FoldLeft(LAMBDA a, b : Lcm(a, b), 1, [i \in 1..Len(x) |-> EvD(f, 4 * x[i])]) IN D
ReGrid(f, x) == IF x = f.x THEN f
  ELSE LET D == ReDen(f, x) IN Norml(MkE(x, TLCEval([i \in 1..Len(x) |-> EvN(f, 4 * x[i]) * (D \div EvD(f, 4 * x[i]))]), f.den * D, f.sc * D, f.ex))
Union(x, y) == IF x = y THEN x ELSE SetToSortSeq({x[i] : i \in 1..Len(x)} \cup {y[i] : i \in 1..Len(y)}, LAMBDA a, b : a < b)
LinO(al, f, be, h) ==   \* al f + be h on the union grid
  LET x == Union(f.x, h.x)  a == ReGrid(f, x)  b == ReGrid(h, x)  M == Lcm(a.den, b.den)
  IN Norml(MkE(x, TLCEval([i \in 1..Len(x) |-> al * (M \div a.den) * a.v[i] + be * (M \div b.den) * b.v[i]]), M, Abs(al) * (M \div a.den) * a.sc + Abs(be) * (M \div b.den) * b.sc + 1, f.ex))
ReOk(f, x) == f.x = x \/ (f.sc <= 400 /\ f.den <= 24 /\ ReDen(f, x) * f.den <= 20000)
LinOk(al, f, be, h) == f.ex = h.ex /\ LET x == Union(f.x, h.x) IN ReOk(f, x) /\ ReOk(h, x) /\
  LET a == ReGrid(f, x)  b == ReGrid(h, x)  M == Lcm(a.den, b.den) IN M <= 2000 /\ Abs(al) * (M \div a.den) * a.sc + Abs(be) * (M \div b.den) * b.sc <= LIM
Sc(f, p, q) == Norml(MkE(f.x, TLCEval([i \in DOMAIN f.v |-> p * f.v[i]]), q * f.den, Abs(p) * f.sc + 1, f.ex))
ProdO(f, h) == Norml(MkE(f.x, TLCEval([i \in DOMAIN f.v |-> f.v[i] * h.v[i]]), f.den * h.den, f.sc * h.sc, f.ex + h.ex))
ProdOk(f, h) == f.x = h.x /\ f.sc * h.sc <= LIM /\ f.den * h.den <= 2000

(******************************* observations *******************************)
XQ(o, e) == IF e = 0 THEN o ELSE o @@ [ex |-> e]
Eq(k, v, den, sc) == [k |-> k, m |-> "eq", v |-> v, den |-> den, sc |-> sc]
IntO(k, v) == [k |-> k, m |-> "int", v |-> <<v>>]
Kern(k, what, f, pts) == [k |-> k, m |-> "kern", what |-> what, v |-> f.v, den |-> f.den, sc |-> f.sc, pts |-> pts]
Kern2(k, what, f, h) == [k |-> k, m |-> "kern", what |-> what, v |-> f.v, den |-> f.den, sc |-> f.sc, v2 |-> h.v, den2 |-> h.den, sc2 |-> h.sc]
Sq(k, v, den, sc) == [k |-> k, m |-> "sq", v |-> <<v>>, den |-> den, sc |-> sc]
St(op, a, x) == [op |-> op, a |-> a, x |-> x]
Q4(P) == ToString(P) \o "/4"
Q4h(P) == Q4(P) \o Sfx(HE)
Qs(Ps) == [i \in 1..Len(Ps) |-> Q4h(Ps[i])]
EvO(k, f, Ps) == XQ(IF K THEN Kern(k, "eval", f, [i \in 1..Len(Ps) |-> <<Ps[i]>>])
                 ELSE Eq(k, [i \in 1..Len(Ps) |-> EvN(f, Ps[i])], [i \in 1..Len(Ps) |-> f.den * EvD(f, Ps[i])], f.sc), f.ex)
Pts(f) == IF K THEN 4 * lo - 3 .. 4 * hi + 6 ELSE {P \in (4 * lo - 3)..(4 * hi + 3) : ~(C /\ Tie(f.x, P))}
\* the probe of every dump: all nodes of the unit grid, a quarter point of each unit cell, both sides outside
Probe(f) == SelectSeq([j \in 1..(2 * (hi - lo) + 1) |-> IF j % 2 = 1 THEN 4 * lo + 2 * (j - 1) ELSE 4 * lo + 2 * (j - 2) + 1] \o <<4 * lo - 2, 4 * hi + 5>>,
                      LAMBDA P : ~(C /\ Tie(f.x, P)))
ObsF(f) == <<IntO("np", Len(f.v)), XQ(Eq("params", f.v, f.den, f.sc), f.ex), XQ(Eq("ref", f.v, f.den, f.sc), f.ex), IntO("fc", 1)>> \o
           (IF K THEN <<>> ELSE <<XQ(Eq("bounds", <<lo, hi>>, 1, 10), HE)>>) \o <<EvO("vals", f, Probe(f))>>
Dump(s, f) == St("fdump", <<s>> \o Qs(Probe(f)), ObsF(f))
Do(steps) == hist' = hist \o steps /\ left' = left - 1 /\ UNCHANGED <<g, g2>>
Set(s, f, op, args, x) == Ok(f) /\ F' = [F EXCEPT ![s] = f] /\ Do(<<St(op, args, x), Dump(s, f)>>)
Look(op, args, x) == UNCHANGED F /\ Do(<<St(op, args, x)>>)
Frac(p, q) == ToString(p) \o "/" \o ToString(q)

(********************************* set-up ***********************************)
RndX(len, x0) == LET st == IF Rnd({TRUE, FALSE}) THEN LET h == Rnd({1, 2}) IN [i \in 1..len |-> h] ELSE RndSeq(len, {1, 2, 3})
                 IN TLCEval([i \in 1..len |-> x0 + SumSeq(SubSeq(st, 1, i - 1))])
RndSub(x) == \* another grid with the same end points
  LET a == x[1]  b == x[Len(x)]  X == {x[i] : i \in 1..Len(x)}  S == {z \in (a + 1)..(b - 1) : IF b - a <= 14 THEN Rnd(1..2) = 1 ELSE IF z \in X THEN Rnd(1..5) > 1 ELSE Rnd(1..6) = 1}
  IN SetToSortSeq(S \cup {a, b}, LAMBDA p, q : p < q)
KArgs(r) == <<r.sc, ToString(r.w) \o "/2" \o Sfx(HOf(r)), r.b>> \o (IF r.b = 1 THEN Nums(<<r.x[1] - 1, r.x[Len(r.x)] + 2>>, HOf(r)) ELSE <<>>)
Setup == /\ g.fam = "none"
  /\ \E fam \in {Rnd(Fams)} : \E x \in {RndX(IF MaxN > 10 /\ Rnd(1..3) = 1 THEN Rnd({20, 24, 33, 50}) ELSE Rnd(2..MaxN), Rnd(-3..3))} :
     \E un \in {On("units") /\ Rnd(1..3) = 1} : \E uh \in {IF un THEN Rnd({-6, 0, 6}) ELSE 0}, uu \in {IF un THEN Rnd({-20, -7, 0, 9, 17}) ELSE 0} :
     \E r \in {(IF fam = "K" THEN [fam |-> fam, x |-> x, sc |-> Rnd({1, 2}), w |-> Rnd({2, 3, 5}), b |-> Rnd({0, 1})] ELSE [fam |-> fam, x |-> x]) @@ [h |-> uh, u |-> uu]} :
     \E x2 \in {IF fam = "L" THEN RndSub(x) ELSE x} :
       /\ g' = r /\ g2' = x2 /\ UNCHANGED <<F, left>>
       /\ hist' = <<St("heap0", <<>>, <<>>), St("fgrid", <<IF fam = "L" THEN 0 ELSE IF fam = "C" THEN 1 ELSE 2, Len(x)>> \o Nums(x, uh) \o (IF fam = "K" THEN KArgs(r) ELSE <<>>), <<>>) @@ [g |-> <<r>>]>>
                  \o (IF fam = "L" THEN <<St("fgrid2", <<Len(x2)>> \o Nums(x2, uh), <<>>)>> ELSE <<>>)
Init == g = [fam |-> "none"] /\ g2 = <<>> /\ F = [s \in 0..(NF - 1) |-> Dead] /\ hist = <<>> /\ left = MaxLen

(****************************** constructors ********************************)
ActMk == Ready("fmk") /\ \E s \in {AnyS}, w \in {IF L THEN Rnd({0, 0, 1}) ELSE 0} : LET x == IF w = 1 THEN g2 ELSE g.x IN
           \E p \in {RndSeq(Len(x), Rnd({-3..3, {-1, 0, 1}, {0, 0, 5}}))} : Set(s, Mk(x, p, 1, 5), "fmk", <<s, w>> \o Nums(p, UE), <<>>)
ActZero == Ready("fzero") /\ \E s \in {AnyS}, w \in {Rnd({0, 1})} : Set(s, Mk(g.x, [i \in 1..n |-> 0], 1, 0), "fzero", <<s, w>>, <<>>)
ActConst == Ready("fconst") /\ ~K /\ \E s \in {AnyS}, p \in {Rnd(-5..5)}, q \in {Rnd({1, 2, 4})} : Set(s, Norml(Mk(g.x, [i \in 1..n |-> p], q, 5)), "fconst", <<s, Frac(p, q) \o Sfx(UE)>>, <<>>)
ActLin == Ready("flin") /\ L /\ \E s \in {AnyS}, a \in {Rnd(-3..3)}, b \in {Rnd(-3..3)} : LET v == TLCEval([i \in 1..n |-> a * g.x[i] + b]) IN Set(s, Mk(g.x, v, 1, MaxAbs(v) + 30), "flin", <<s, Num(a, UE - HE), Num(b, UE)>>, <<>>)
ActApx == Ready("fapx") /\ ~K /\ \E s \in {AnyS}, c \in {RndSeq(3, -2..2)} :
           LET v == TLCEval([i \in 1..n |-> c[1] + c[2] * g.x[i] + c[3] * g.x[i] * g.x[i]]) IN Set(s, Mk(g.x, v, 1, MaxAbs(v) + 300), "fapx", <<s, Num(c[1], UE), Num(c[2], UE - HE), Num(c[3], UE - 2 * HE)>>, <<IntO("calls", n)>>)
\* value one at one point and zero at the others and at the ends
ActOne == Ready("fone") /\ ~K /\ hi - lo >= 3 /\ \E s \in {AnyS} : \E one \in {Rnd((lo + 1)..(hi - 1))} : \E zs \in {{z \in (lo + 1)..(hi - 1) : Rnd(1..2) = 1}} :
           LET z == SetToSortSeq(zs \ {one}, LAMBDA a, b : a < b)  x == SetToSortSeq(zs \cup {one, lo, hi}, LAMBDA a, b : a < b)
           IN Set(s, MkE(x, [i \in 1..Len(x) |-> IF x[i] = one THEN 1 ELSE 0], 1, 1, 0), "fone", <<s>> \o Nums(<<one, lo, hi>>, HE) \o <<Len(z)>> \o Nums(z, HE), <<>>)
ActCp == Ready("fcp") /\ Live # {} /\ \E a \in {LiveS}, s \in {AnyS}, o \in {Rnd({"fcp", "fcppa"})} : a # s /\ Set(s, F[a], o, <<s, a>>, <<>>)
ActFree == Ready("ffree") /\ Live # {} /\ \E s \in {LiveS} : F' = [F EXCEPT ![s] = Dead] /\ Do(<<St("ffree", <<s>>, <<>>)>>)
ActUpd == Ready("fupd") /\ Live # {} /\ \E s \in {LiveS} : \E p \in {RndSeq(Len(F[s].v), -4..4)} : Set(s, Mk(F[s].x, p, 1, 4), "fupd", <<s>> \o Nums(p, UE), <<>>)
\* parameters passed on to the result of a re-expression on other nodes
ActNodal == Ready("fnodal") /\ L /\ \E s \in {AnyS} : \E a \in {z \in Live : F[z].sc <= 400 /\ F[z].den <= 24} : s # a /\ \E x \in {RndSub(g.x)} : ReOk(F[a], x) /\
           Set(s, ReGrid(F[a], x), "fnodal", <<s, a>> \o Nums(x, HE), <<>>)

(******************************** arithmetic ********************************)
Same(f, h) == L \/ f.x = h.x      \* operands the family can combine
Cf == Rnd({-2, -1, 0, 1, 2, 3})
ActDaxpby == Ready("fdaxpby") /\ Live # {} /\ \E s \in {AnyS}, a \in {LiveS}, b \in {LiveS}, al \in {Cf}, be \in {Cf} : s # a /\ s # b /\ Same(F[a], F[b]) /\ LinOk(al, F[a], be, F[b]) /\
           \E w \in {Rnd(1..6)} :
             IF w = 1 THEN Set(s, Sc(F[a], al, 1), "fdaxpby", <<s, al, a, 0, -1>>, <<>>)
             ELSE IF w = 2 THEN Set(s, Sc(F[b], be, 1), "fdaxpby", <<s, 0, -1, be, b>>, <<>>)
             ELSE IF w = 3 THEN Set(s, LinO(al, F[a], be, F[b]), "fwsum", <<s, al, a, be, b>>, <<>>)
             ELSE Set(s, LinO(al, F[a], be, F[b]), "fdaxpby", <<s, al, a, be, b>>, <<>>)
ActAxpy == Ready("faxpy") /\ Live # {} /\ \E a \in {LiveS}, b \in {LiveS}, al \in {Cf} : a # b /\ Same(F[a], F[b]) /\ LinOk(al, F[a], 1, F[b]) /\
           Set(b, LinO(al, F[a], 1, F[b]), "faxpy", <<al, a, b>>, <<IntO("ret", 0)>>)
RECURSIVE Comb(_, _, _)
\* sum c[i] F[a[i]] ; a record with sc above LIM when it does not fit
Comb(a, c, k) == IF k = 1 THEN Sc(F[a[1]], c[1], 1) ELSE LET h == Comb(a, c, k - 1) IN IF ~Ok(h) \/ ~LinOk(c[k], F[a[k]], 1, h) THEN [F[a[1]] EXCEPT !.sc = LIM + 1] ELSE LinO(c[k], F[a[k]], 1, h)
Compat(a) == \A i \in 1..Len(a) : Same(F[a[1]], F[a[i]])
ActLc == Ready("flc") /\ Live # {} /\ \E m \in {Rnd(1..5)} : \E a \in {RndSeq(m, Live)}, c \in {RndSeq(m, -2..3)}, s \in {AnyS}, w \in {Rnd(0..1)}, p \in {Rnd(1..3)}, q \in {Rnd(1..3)} :
           s \notin {a[i] : i \in 1..m} /\ Compat(a) /\ LET f == Comb(a, c, m) IN
           IF w = 0 THEN Set(s, f, "flc", <<s, m>> \o a \o c, <<>>) ELSE Set(s, f, "flc2", <<s, m, p, q>> \o a \o c, <<>>)
ActProd == Ready("fprod") /\ ~K /\ Live # {} /\ \E s \in {AnyS}, a \in {LiveS}, b \in {LiveS} : s # a /\ s # b /\ ProdOk(F[a], F[b]) /\ Set(s, ProdO(F[a], F[b]), "fprod", <<s, a, b>>, <<>>)
RECURSIVE SumProd(_, _, _)
SumProd(a, b, k) == LET p == IF ProdOk(F[a[k]], F[b[k]]) THEN ProdO(F[a[k]], F[b[k]]) ELSE [F[a[1]] EXCEPT !.sc = LIM + 1]
  IN IF k = 1 THEN p ELSE LET h == SumProd(a, b, k - 1) IN IF ~Ok(h) \/ ~Ok(p) \/ h.x # p.x \/ h.ex # p.ex \/ ~LinOk(1, p, 1, h) THEN [h EXCEPT !.sc = LIM + 1] ELSE LinO(1, p, 1, h)
ActSp == Ready("fsp") /\ ~K /\ Live # {} /\ \E m \in {Rnd(1..4)} : \E a \in {RndSeq(m, Live)}, b \in {RndSeq(m, Live)}, s \in {AnyS}, p \in {Rnd(1..3)}, q \in {Rnd(1..3)} :
           s \notin ({a[i] : i \in 1..m} \cup {b[i] : i \in 1..m}) /\ Set(s, SumProd(a, b, m), "fsp", <<s, m, p, q>> \o a \o b, <<>>)
ActScale == Ready("fscale") /\ Live # {} /\ \E s \in {LiveS}, p \in {Rnd(-3..3)}, q \in {Rnd({1, 2})} : Set(s, Sc(F[s], p, q), "fscale", <<Frac(p, q), s>>, <<>>)
ActFlip == Ready("fflip") /\ Live # {} /\ \E s \in {LiveS} : Set(s, Sc(F[s], -1, 1), "fflip", <<s>>, <<>>)
\* operations on several functions at once; the targets are pairwise different
RECURSIVE Dumps(_, _)
Dumps(d, H) == IF d = <<>> THEN <<>> ELSE <<Dump(d[1], H[d[1]])>> \o Dumps(Tail(d), H)
SetM(d, fs, op, args, x) == (\A i \in 1..Len(d) : Ok(fs[i])) /\
  LET H == [s \in 0..(NF - 1) |-> IF \E i \in 1..Len(d) : d[i] = s THEN fs[CHOOSE i \in 1..Len(d) : d[i] = s] ELSE F[s]]
  IN F' = H /\ Do(<<St(op, args, x)>> \o Dumps(d, H))
RndPick(set, m) == \* m different elements, in random order
  LET base == SetToSortSeq(set, LAMBDA a, b : a < b)  k == Len(base)  r == Rnd(0..(k - 1))
  IN TLCEval([i \in 1..m |-> base[((i - 1 + r) % k) + 1]])
ActAr == Ready("farray") /\ Live # {} /\ \E m \in {Rnd(1..Min2(3, Cardinality(Live)))} : \E d \in {RndPick(Live, m)}, w \in {Rnd(1..3)}, ld \in {Rnd(1..3)}, c \in {Rnd(-2..3)} :
   \/ w = 1 /\ SetM(d, TLCEval([i \in 1..m |-> Sc(F[d[i]], -1, 1)]), "faflip", <<m, ld>> \o d, <<>>)
   \/ w = 2 /\ SetM(d, TLCEval([i \in 1..m |-> Sc(F[d[i]], c, 1)]), "fascale", <<c, m>> \o d, <<>>)
   \/ w = 3 /\ Live \ {d[i] : i \in 1..m} # {} /\ \E a \in {RndSeq(m, Live \ {d[i] : i \in 1..m})} : (\A i \in 1..m : Same(F[a[i]], F[d[i]]) /\ LinOk(c, F[a[i]], 1, F[d[i]])) /\
        SetM(d, TLCEval([i \in 1..m |-> LinO(c, F[a[i]], 1, F[d[i]])]), "faaxpy", <<m, c>> \o a \o d, <<IntO("ret", 0)>>)
ActAdax == Ready("farray") /\ Live # {} /\ \E m \in {Rnd(1..3)} : \E a \in {RndSeq(m, Live)}, b \in {RndSeq(m, Live)} :
   LET used == {a[i] : i \in 1..m} \cup {b[i] : i \in 1..m}  rest == (0..(NF - 1)) \ used IN
   Cardinality(rest) >= m /\ \E d \in {RndPick(rest, m)}, al \in {Cf}, be \in {Cf}, w \in {Rnd(0..2)}, two \in {Rnd(0..1)}, la \in {Rnd(1..2)}, lb \in {Rnd(1..2)}, lz \in {Rnd(1..2)} :
   (w = 2 => \A i \in 1..m : Same(F[a[i]], F[b[i]]) /\ LinOk(al, F[a[i]], be, F[b[i]])) /\
   SetM(d, TLCEval([i \in 1..m |-> IF w = 0 THEN Sc(F[b[i]], be, 1) ELSE IF w = 1 THEN Sc(F[a[i]], al, 1) ELSE LinO(al, F[a[i]], be, F[b[i]])]),
        "fadax", <<two, m, la, lb, lz, al, be, w>> \o d \o (IF w = 0 THEN <<>> ELSE a) \o (IF w = 1 THEN <<>> ELSE b), <<>>)
\* Kronecker-type contractions of an array of functions with a matrix / another array
Par(f, M, i) == f.v[i] * (M \div f.den)
ActKron == Ready("fkron") /\ \E base \in {z \in Live : F[z].den <= 10} : LET Lv == {z \in Live : F[z].x = F[base].x /\ F[z].ex = F[base].ex /\ F[z].sc <= 600 /\ F[z].den <= 10} IN Lv # {} /\
   \E left_ \in {Rnd({0, 1})}, r \in {Rnd(1..3)}, m \in {Rnd(1..3)}, nn \in {Rnd(1..3)}, l \in {Rnd(1..3)} :
   \E cs \in {RndSeq(nn * l, Lv)}, a \in {RndSeq(IF left_ = 1 THEN r * m * nn ELSE l * m * r, -2..2)} :
   LET M == FoldLeft(LAMBDA u, w : Lcm(u, F[w].den), 1, cs)  np == Len(F[base].v)
       \* entry e (0-based position in the output) for coefficient i
       Lf(e, i) == LET ii == e % r  jj == (e \div r) % m  kk == e \div (r * m)
                   IN SumSeq([q \in 1..nn |-> a[ii + jj * nn * r + (q - 1) * r + 1] * Par(F[cs[nn * kk + q]], M, i)])
       Rf(e, i) == LET jj == e % nn  kk == (e \div nn) % m  ii == e \div (nn * m)
                   IN SumSeq([q \in 1..l |-> a[kk * l + ii * l * m + q] * Par(F[cs[jj + 1 + (q - 1) * nn]], M, i)])
       k == IF left_ = 1 THEN l * m * r ELSE r * nn * m
   IN M <= 200 /\ Look("fkron", <<left_, r, m, nn, l>> \o a \o cs, <<XQ(Eq("v", [z \in 1..(k * np) |-> IF left_ = 1 THEN Lf((z - 1) \div np, ((z - 1) % np) + 1) ELSE Rf((z - 1) \div np, ((z - 1) % np) + 1)], M, 2000 * M), F[base].ex)>>)
ActKron2 == Ready("fkron2") /\ ~K /\ \E base \in {z \in Live : F[z].den <= 4} : LET Lv == {z \in Live : F[z].x = F[base].x /\ F[z].ex = F[base].ex /\ F[z].sc <= 600 /\ F[z].den <= 4} IN Lv # {} /\
   \E left_ \in {Rnd({0, 1})}, r \in {Rnd(1..2)}, m \in {Rnd(1..3)}, nn \in {Rnd(1..2)}, l \in {Rnd(1..3)} :
   \E b \in {RndSeq(nn * l, Lv)}, t \in {RndSeq(IF left_ = 1 THEN r * m * nn ELSE r * m * l, Lv)} :
   LET M == FoldLeft(LAMBDA u, w : Lcm(u, F[w].den), 1, b)  N == FoldLeft(LAMBDA u, w : Lcm(u, F[w].den), 1, t)  np == Len(F[base].v)
       Lf(e, i) == LET ii == e % r  kk == (e \div r) % m  jj == e \div (r * m)
                   IN SumSeq([q \in 1..nn |-> Par(F[b[jj * nn + q]], M, i) * Par(F[t[ii + kk * r * nn + (q - 1) * r + 1]], N, i)])
       Rf(e, i) == LET kk == e % m  jj == (e \div m) % nn  ii == e \div (nn * m)
                   IN SumSeq([q \in 1..l |-> Par(F[b[jj + 1 + (q - 1) * nn]], M, i) * Par(F[t[kk + ii * l * m + (q - 1) * m + 1]], N, i)])
       k == IF left_ = 1 THEN l * m * r ELSE r * nn * m
   IN Look("fkron2", <<left_, r, m, nn, l>> \o b \o t, <<XQ(Eq("v", [z \in 1..(k * np) |-> IF left_ = 1 THEN Lf((z - 1) \div np, ((z - 1) % np) + 1) ELSE Rf((z - 1) \div np, ((z - 1) % np) + 1)], M * N, 1000000), 2 * F[base].ex)>>)

(******************************** evaluation ********************************)
RndP(f, m) == TLCEval([i \in 1..m |-> Rnd(Pts(f))])
ActEvs == Ready("fevs") /\ Live # {} /\ \E s \in {LiveS}, m \in {Rnd(1..5)}, ix \in {Rnd(1..3)}, iy \in {Rnd(1..3)} : \E P \in {RndP(F[s], m)} :
           Look("fevs", <<s, ix, iy>> \o Qs(P), <<EvO("v", F[s], P), IntO("touched", 0)>>)
ActEi == Ready("fei") /\ ~K /\ Live # {} /\ \E s \in {LiveS} : \E i \in {Rnd(1..Len(F[s].v))} : Look("fei", <<s, i - 1>>, <<XQ(Eq("v", <<F[s].v[i]>>, F[s].den, F[s].sc), F[s].ex)>>)
\* slope of the interpolant: quarter points inside a cell, centred at interior nodes
SlopeR(f, P) ==
  LET m == Len(f.x)  x == f.x
      Two(a, b) == [den |-> f.den * (x[b] - x[a]), num |-> f.v[b] - f.v[a]]
  IN IF C \/ ~Inside(x, P) THEN [den |-> 1, num |-> 0]
     ELSE IF \E i \in 1..m : 4 * x[i] = P THEN LET i == CHOOSE i \in 1..m : 4 * x[i] = P IN IF i = 1 THEN Two(1, 2) ELSE IF i = m THEN Two(m - 1, m) ELSE Two(i - 1, i + 1)
     ELSE LET i == CellOf(x, P) IN Two(i, i + 1)
ActDe == Ready("fde") /\ Live # {} /\ \E s \in {LiveS} : \E P \in {Rnd(Pts(F[s]))} :
           IF K THEN Look("fde", <<s, Q4h(P)>>, <<XQ(Kern("v", "grad", F[s], <<<<P>>>>), F[s].ex - HE)>>) ELSE LET r == SlopeR(F[s], P) IN Look("fde", <<s, Q4h(P)>>, <<XQ(Eq("v", <<r.num>>, r.den, F[s].sc), F[s].ex - HE)>>)
\* several functions at several points, every array form
ActArr == Ready("farr") /\ Live # {} /\ \E m \in {Rnd(1..4)}, np \in {Rnd(1..3)} : \E a \in {RndSeq(m, Live)} : \E P \in {RndP(F[a[1]], np)}, ind \in {Rnd(1..2)} :
   (\A i \in 1..m : F[a[i]].ex = F[a[1]].ex) /\ (C => \A i \in 1..m, j \in 1..np : ~Tie(F[a[i]].x, P[j])) /\
   LET col(j) == [i \in 1..m |-> EvN(F[a[i]], P[j])]  den(j) == [i \in 1..m |-> F[a[i]].den * EvD(F[a[i]], P[j])]  sc == MaxSeq([i \in 1..m |-> F[a[i]].sc])
       all == [q \in 1..(m * np) |-> col(((q - 1) \div m) + 1)[((q - 1) % m) + 1]]  alld == [q \in 1..(m * np) |-> den(((q - 1) \div m) + 1)[((q - 1) % m) + 1]]
       fs == [i \in 1..m |-> F[a[i]]]
   IN IF K THEN Look("farr", <<m, np>> \o a \o <<ind - 1>> \o Qs(P), <<[k |-> "one", m |-> "kerns", fs |-> fs, pts |-> <<<<P[1]>>>>], [k |-> "two", m |-> "kerns", fs |-> fs, pts |-> <<<<P[1]>>>>]>>)
      ELSE Look("farr", <<m, np>> \o a \o <<ind - 1>> \o Qs(P), <<XQ(Eq("one", col(1), den(1), sc), F[a[1]].ex), XQ(Eq("two", col(1), den(1), sc), F[a[1]].ex), XQ(Eq("many", all, alld, sc), F[a[1]].ex),
                 XQ(Eq("ind", [i \in 1..m |-> F[a[i]].v[ind]], [i \in 1..m |-> F[a[i]].den], sc), F[a[1]].ex)>>)

(************************* calculus, norms, extrema *************************)
NiceG(f) == Len(f.x) <= 5 \/ Uniform(Gr(f))
DMax(f) == LET D == DerMat(Gr(f)) IN MaxSeq([i \in 1..Len(f.x) |-> SumSeq([u \in 1..Len(f.x) |-> Abs(D[i][u])])])
DerOk(f) == NiceG(f) /\ f.sc <= 3000 /\ f.den <= 60 /\ DerDen(Gr(f)) <= 60 /\ f.sc * DMax(f) <= LIM
DerO(f) == LET D == DerMat(Gr(f)) IN Norml(MkE(f.x, TLCEval([i \in 1..Len(f.x) |-> Dot(D[i], f.v)]), f.den * DerDen(Gr(f)), f.sc * DMax(f) + 1, f.ex - HE))
ActDeriv == Ready("fderiv") /\ ~K /\ \E a \in {z \in Live : DerOk(F[z])} : \E s \in {AnyS} : s # a /\ Set(s, DerO(F[a]), "fderiv", <<s, a>>, <<>>)
ActDd == Ready("fdd") /\ L /\ \E a \in {z \in Live : DerOk(F[z]) /\ DerOk(DerO(F[z]))} : \E s \in {AnyS} : s # a /\ Set(s, DerO(DerO(F[a])), "fdd", <<s, a>>, <<>>)
\* spectral second derivative of a periodic function on a uniform grid: the result is only looked at, then dropped
ActDp == Ready("fdp") /\ L /\ \E a \in {z \in Live : Uniform(Gr(F[z]))} : \E s \in {AnyS} : s # a /\ F' = [F EXCEPT ![s] = Dead] /\
           Do(<<St("fdp", <<s, a>>, <<>>), St("fdump", <<s>>, <<IntO("np", Len(F[a].v)), XQ([k |-> "params", m |-> "fourier2", v |-> F[a].v, den |-> F[a].den, sc |-> F[a].sc, h |-> F[a].x[2] - F[a].x[1]], F[a].ex - 2 * HE)>>), St("ffree", <<s>>, <<>>), Dump(a, F[a])>>)
IW(f) == IntW(Gr(f))
ActInt == Ready("fint") /\ Live # {} /\ \E s \in {LiveS} : IF K THEN Look("fint", <<s>>, <<XQ(Kern("v", "int", F[s], <<>>), F[s].ex + HE)>>) ELSE Look("fint", <<s>>, <<XQ(Eq("v", <<Dot(IW(F[s]), F[s].v)>>, 2 * F[s].den, F[s].sc * (2 * Span)), F[s].ex + HE)>>)
InOk(f, h) == f.sc <= 3000 /\ h.sc <= 3000 /\ f.den * h.den <= 4000 /\ ReOk(f, Union(f.x, h.x)) /\ ReOk(h, Union(f.x, h.x))
\* trapezoid on the union of the two grids
InN(f, h) == LET x == Union(f.x, h.x)  a == ReGrid(f, x)  b == ReGrid(h, x)  w == IntW([fam |-> "L", x |-> x])
                 fits == a.sc <= 6000 /\ b.sc <= 6000 /\ a.sc * b.sc <= 1000000000 \div (2 * Span) /\ a.den * b.den <= 100000
             IN IF ~fits THEN [num |-> 0, den |-> 1, sc |-> 0, ok |-> FALSE] ELSE [num |-> SumSeq([i \in 1..Len(x) |-> w[i] * a.v[i] * b.v[i]]), den |-> 2 * a.den * b.den, sc |-> 2 * Span * a.sc * b.sc, ok |-> TRUE]
ActInner == Ready("finner") /\ Live # {} /\ \E a \in {LiveS}, b \in {LiveS} : Same(F[a], F[b]) /\
            IF K THEN Look("finner", <<a, b>>, <<XQ(Kern2("v", "inner", F[a], F[b]), F[a].ex + F[b].ex + HE)>>)
            ELSE InOk(F[a], F[b]) /\ LET r == InN(F[a], F[b]) IN r.ok /\ Look("finner", <<a, b>>, <<XQ(Eq("v", <<r.num>>, r.den, r.sc), F[a].ex + F[b].ex + HE)>>)
ActNorm == Ready("fnorm") /\ Live # {} /\ \E a \in {LiveS} :
            IF K THEN Look("fnorm", <<a>>, <<XQ(Kern2("v", "norm", F[a], F[a]), F[a].ex + (HE \div 2))>>)
            ELSE InOk(F[a], F[a]) /\ LET r == InN(F[a], F[a]) IN r.ok /\ Look("fnorm", <<a>>, <<XQ(Sq("v", r.num, r.den, r.sc), F[a].ex + (HE \div 2))>>)
ActN2d == Ready("fn2d") /\ Live # {} /\ \E a \in {LiveS}, b \in {LiveS} : Same(F[a], F[b]) /\ LinOk(1, F[a], 1, F[b]) /\ LET f == LinO(1, F[a], -1, F[b]) IN
            IF K THEN Look("fn2d", <<a, b>>, <<XQ(Kern2("v", "norm", f, f), f.ex + (HE \div 2))>>)
            ELSE InOk(f, f) /\ LET r == InN(f, f) IN r.ok /\ Look("fn2d", <<a, b>>, <<XQ(Sq("v", r.num, r.den, r.sc), f.ex + (HE \div 2))>>)
Small(f) == f.den = 1 /\ f.sc <= 700 /\ (Span > 40 => f.sc <= 400)
ActInsum == Ready("finsum") /\ ~K /\ \E base \in {z \in Live : Small(F[z])} : LET Lv == {z \in Live : F[z].x = F[base].x /\ F[z].ex = F[base].ex /\ Small(F[z])} IN
   \E m \in {Rnd(1..4)} : \E a \in {RndSeq(m, Lv)}, b \in {RndSeq(m, Lv)}, p \in {Rnd(1..3)}, q \in {Rnd(1..3)}, w \in {Rnd(1..3)} :
   LET pr(f, h) == InN(f, h).num
       df(i) == Mk(F[base].x, [j \in 1..Len(F[base].v) |-> F[a[i]].v[j] - F[b[i]].v[j]], 1, 1400)
   IN \/ w = 1 /\ Look("finsum", <<m, p, q>> \o a \o b, <<XQ(Eq("v", <<SumSeq([i \in 1..m |-> pr(F[a[i]], F[b[i]])])>>, 2, 2000000 * Span), 2 * F[base].ex + HE)>>)
      \/ w = 2 /\ Look("fan2d", <<m, p, q>> \o a \o b, <<XQ(Sq("v", SumSeq([i \in 1..m |-> pr(df(i), df(i))]), 2, 8000000 * Span), F[base].ex + (HE \div 2))>>)
      \/ w = 3 /\ Look("fintarr", <<m, p>> \o a, <<XQ(Eq("v", [i \in 1..m |-> Dot(IW(F[a[i]]), F[a[i]].v)], 2, 2000 * Span), F[base].ex + HE), XQ(Sq("norm", SumSeq([i \in 1..m |-> pr(F[a[i]], F[a[i]])]), 2, 2000000 * Span), F[base].ex + (HE \div 2))>>)
XQL(e, o) == IF \A i \in 1..Len(e) : e[i] = 0 THEN o ELSE o @@ [ex |-> e]
FirstBy(f, Better(_, _)) == CHOOSE i \in 1..Len(f.v) : (\A j \in 1..(i - 1) : Better(f.v[i], f.v[j])) /\ (\A j \in (i + 1)..Len(f.v) : ~Better(f.v[j], f.v[i]))
\* extreme value and where it is attained (the nodes of several equal extremes are all legal: first one expected to be reported)
ExtO(k, f, i, av) == XQL(<<f.ex, HE>>, [k |-> k, m |-> "extreme", v |-> <<IF av THEN Abs(f.v[i]) ELSE f.v[i]>>, den |-> f.den, sc |-> f.sc, locs |-> SetToSeq({f.x[j] : j \in {j \in 1..Len(f.v) : IF av THEN Abs(f.v[j]) = Abs(f.v[i]) ELSE f.v[j] = f.v[i]}})])
ActMax == Ready("fmax") /\ ~K /\ \E s \in {z \in Live : F[z].den = 1} : LET f == F[s] IN
   Look("fmax", <<s>>, <<ExtO("max", f, FirstBy(f, LAMBDA a, b : a > b), FALSE), ExtO("min", f, FirstBy(f, LAMBDA a, b : a < b), FALSE), ExtO("abs", f, FirstBy(f, LAMBDA a, b : Abs(a) > Abs(b)), TRUE)>>)
ActAmax == Ready("famax") /\ ~K /\ \E Lv \in {{z \in Live : F[z].den = 1}} : Lv # {} /\ \E m \in {Rnd(1..4)} : \E a \in {RndSeq(m, Lv)}, ld \in {Rnd(1..3)} : (\A i \in 1..m : F[a[i]].ex = F[a[1]].ex) /\
   LET mx == MaxSeq([i \in 1..m |-> MaxAbs(F[a[i]].v)])
       locs == {<<i, j>> \in (1..m) \X (1..400) : j <= Len(F[a[i]].v) /\ Abs(F[a[i]].v[j]) = mx}
       enc == SetToSeq({<<p[1] - 1, F[a[p[1]]].x[p[2]]>> : p \in locs})
   IN Look("famax", <<m, ld>> \o a, <<XQL(<<F[a[1]].ex, 0, HE>>, [k |-> "v", m |-> "argmax", v |-> <<mx>>, den |-> 1, sc |-> mx, locs |-> enc]), XQL(<<F[a[1]].ex, 0, HE>>, [k |-> "piv", m |-> "argmax", v |-> <<mx>>, den |-> 1, sc |-> mx, locs |-> enc]),
                                      XQ([k |-> "at", m |-> "absval", v |-> <<mx>>, den |-> 1, sc |-> mx], F[a[1]].ex)>>)
ActCand == Ready("fcand") /\ ~K /\ Live # {} /\ \E s \in {LiveS}, m \in {Rnd(1..5)} : \E P \in {RndP(F[s], m)} : F[s].den = 1 /\
   LET D == FoldLeft(LAMBDA u, w : Lcm(u, EvD(F[s], w)), 1, P)
       val == [i \in 1..m |-> Abs(EvN(F[s], P[i]) * (D \div EvD(F[s], P[i])))]
       mx == MaxSeq(val)
   IN F[s].sc * D <= 1000000 /\ Look("fcand", <<s>> \o Qs(P), <<XQL(<<F[s].ex, HE>>, [k |-> "v", m |-> "extreme", v |-> <<mx>>, den |-> D, sc |-> F[s].sc * D, locs |-> SetToSeq({Q4(P[i]) : i \in {i \in 1..m : val[i] = mx}})])>>)
(*************************** parameters, storage ****************************)
InPts(f) == {P \in Pts(f) : K \/ Inside(f.x, P)}
Wt(f, P) == IF C THEN [i \in 1..Len(f.x) |-> IF i = Near(f.x, P) THEN 1 ELSE 0]
            ELSE LET c == CellOf(f.x, P) IN [i \in 1..Len(f.x) |-> IF i = c THEN 4 * f.x[c + 1] - P ELSE IF i = c + 1 THEN P - 4 * f.x[c] ELSE 0]
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Cat(Tail(ss))
ActPg == Ready("fpg") /\ Live # {} /\ \E s \in {LiveS}, m \in {Rnd(1..3)} : \E P \in {TLCEval([i \in 1..m |-> Rnd(InPts(F[s]))])} : LET f == F[s]  np == Len(f.v) IN
   IF K THEN Look("fpg", <<s>> \o Qs(P), <<[k |-> "grad", m |-> "kernbasis", pts |-> P], [k |-> "grad2", m |-> "kernbasis", pts |-> <<P[1]>>], EvO("val", f, <<P[1]>>)>>)
   ELSE Look("fpg", <<s>> \o Qs(P), <<Eq("grad", Cat([i \in 1..m |-> Wt(f, P[i])]), Cat([i \in 1..m |-> [j \in 1..np |-> IF C THEN 1 ELSE EvD(f, P[i])]]), 1),
             Eq("grad2", Wt(f, P[1]), IF C THEN 1 ELSE EvD(f, P[1]), 1), EvO("val", f, <<P[1]>>)>>)
ActSng == Ready("fsng") /\ ~C /\ Live # {} /\ \E s \in {LiveS}, sc \in {Rnd(1..3)}, i0 \in {IF UE = 0 /\ HE = 0 THEN Rnd(-2..2) ELSE 0} : LET f == F[s] IN
   IF K THEN Look("fsng", <<s, sc, i0>>, <<XQ([k |-> "grad", m |-> "kernsng", v |-> f.v, den |-> f.den, sc |-> f.sc, scale |-> sc, init |-> i0], f.ex + HE)>>)
   ELSE f.sc <= LIM \div 40 /\ Look("fsng", <<s, sc, i0>>, <<XQ(Eq("grad", [i \in 1..Len(f.v) |-> i0 * f.den + sc * IW(f)[i] * f.v[i]], f.den, f.sc * 40), f.ex + HE)>>)
ActSer == Ready("fser") /\ Live # {} /\ \E a \in {LiveS}, s \in {AnyS} : a # s /\ Set(s, F[a], "fser", <<s, a>>, <<IntO("wrote", 0), IntO("read", 0)>>)
ActTxt == Ready("ftxt") /\ ~K /\ Live # {} /\ \E a \in {LiveS}, s \in {AnyS}, pr \in {Rnd({16, 17, 21})} : a # s /\ Set(s, F[a], "ftxt", <<s, a, pr>>, <<>>)
(************************ orthonormal and pivot bases ***********************)
\* for n no larger than the number of nodes, an orthonormal set (only looked at)
ActOrth == Ready("forth") /\ (K => n <= 3) /\ \E m \in {Rnd(1..n)} : Look("forth", <<m>>, <<[k |-> "gram", m |-> "identity", d |-> m, tol |-> IF K THEN "1e-5" ELSE "1e-10"], XQ([k |-> "coef", m |-> "gram", d |-> m, w |-> IF K THEN <<>> ELSE IntW(g)], -(HE \div 2))>>)
\* functions that vanish at the given pivots, and a new pivot where one of them does not
ActAone == Ready("faone") /\ ~K /\ \E m \in {Rnd(1..3)} : \E up \in {Rnd(0..Min2(3, m * (n - 1)))} : \E ps \in {RndPick({q \in 0..(m * n - 1) : TRUE}, Max2(up, 1))} :
   LET P == SubSeq(ps, 1, up)  fi(q) == q % m  nd(q) == q \div m
       cnt(f) == Cardinality({i \in 1..up : fi(P[i]) = f})
       \* the functions must have fewer zeros than nodes
   IN (\A f \in 0..(m - 1) : cnt(f) < n) /\
      Look("faone", <<m, up>> \o Cat([i \in 1..up |-> <<fi(P[i]), Num(g.x[nd(P[i]) + 1], HE)>>]), <<Eq("at", <<1>>, 1, 1), Eq("zeros", [i \in 1..up |-> 0], 1, 1)>>)
(******************************** regression ********************************)
\* data at quarter points; residual sums over the common denominator
ActReg == Ready("freg") /\ ~K /\ \E t \in {IF L /\ HE = 0 THEN Rnd({0, 1}) ELSE 0}, m \in {Rnd(1..4)}, lam \in {Rnd(1..3)} : \E p \in {RndSeq(n, -2..2)}, y \in {RndSeq(m, -2..2)} :
   LET f == Mk(g.x, p, 1, 2) IN \E P \in {TLCEval([i \in 1..m |-> Rnd(InPts(f))])} :
   LET D == FoldLeft(LAMBDA u, w : Lcm(u, EvD(f, w)), 1, P)
       mul(i) == D \div EvD(f, P[i])
       r(i) == y[i] * D - EvN(f, P[i]) * mul(i)                    \* residual times D
       w == IntW(g)
       cost == SumSeq([i \in 1..m |-> r(i) * r(i)]) * 2 + (IF t = 1 THEN lam * D * D * SumSeq([j \in 1..n |-> w[j] * p[j] * p[j]]) ELSE 0)    \* over 4 D^2
       gr(j) == 2 * SumSeq([i \in 1..m |-> -(r(i)) * Wt(f, P[i])[j] * mul(i)]) + (IF t = 1 THEN lam * D * D * w[j] * p[j] ELSE 0)                  \* over 2 D^2
   IN D <= 48 /\ Look("freg", <<t, lam, m>> \o Qs(P) \o Nums(y, UE) \o Nums(p, UE), <<XQ(Eq("nograd", <<cost>>, 4 * D * D, 4000 * D * D), 2 * UE), XQ(Eq("cost", <<cost>>, 4 * D * D, 4000 * D * D), 2 * UE), XQ(Eq("grad", [j \in 1..n |-> gr(j)], 2 * D * D, 4000 * D * D), UE)>>)
\* a fit of data with at least one sample at every node minimises the objective: the gradient there vanishes
ActFit == Ready("ffit") /\ ~K /\ UE = 0 /\ \E t \in {IF L /\ HE = 0 THEN Rnd({0, 1}) ELSE 0}, lam \in {Rnd(1..3)} : \E ex \in {Rnd(0..3)} : LET m == n + ex IN \E y \in {RndSeq(m, -3..3)} :
   LET f == Mk(g.x, [i \in 1..n |-> 0], 1, 2) IN \E Q \in {TLCEval([i \in 1..ex |-> Rnd(InPts(f))])} :
   LET P == [i \in 1..m |-> IF i <= n THEN 4 * g.x[i] ELSE Q[i - n]] IN
   Look("ffit", <<t, lam, m>> \o Qs(P) \o y, <<[k |-> "params", m |-> "lsq", A |-> [i \in 1..m |-> Wt(f, P[i])], D |-> [i \in 1..m |-> IF C THEN 1 ELSE EvD(f, P[i])], y |-> y, w |-> IntW(g), lam |-> IF t = 1 THEN lam ELSE 0]>>)
(*********************** adaptive approximation (L) *************************)
\* table on equal cells; the rule of bisection: stop at width hmin, or when the midpoint is
\* close to the chord relative to its own size
RECURSIVE Adapt(_, _, _, _, _)
Adapt(T, a, b, dn, hm) ==   \* node indices of [a, b]
  IF b - a <= hm THEN <<a, b>>
  ELSE LET m == (a + b) \div 2  ch == Abs(T[a + 1] + T[b + 1] - 2 * T[m + 1]) IN
       IF T[m + 1] # 0 /\ ch * dn < 2 * Abs(T[m + 1]) THEN <<a, m, b>>
       ELSE Adapt(T, a, m, dn, hm) \o Tail(Adapt(T, m, b, dn, hm))
RECURSIVE AdaptC(_, _, _, _)
AdaptC(T, s, dn, hm) == LET q == Adapt(T, s[1], s[2], dn, hm) IN IF Len(s) = 2 THEN q ELSE q \o Tail(AdaptC(T, Tail(s), dn, hm))
\* started from the ends or from given nodes (cells of different widths)
ActAdapt == Ready("fadapt") /\ L /\ \E c \in {Rnd({1, 1, 2, 3, 4, 6})}, hm \in {Rnd({1, 2})}, dn \in {Rnd({2, 5, 50})} :
   \E wd \in {RndSeq(c, IF c = 1 THEN {4, 8, 16} ELSE {1, 2, 4, 4, 8})} : LET m == SumSeq(wd)  s == [i \in 1..(c + 1) |-> SumSeq(SubSeq(wd, 1, i - 1))] IN
   \E T \in {RndSeq(m + 1, Rnd({-3..3, 1..3, {2}, {2, 2, 2, 3}}))} :
   LET nd == TLCEval(AdaptC(T, s, dn, hm))
   IN Look("fadapt", <<0, Num(m, HE), Frac(1, dn), Num(hm, HE)>> \o (IF c = 1 THEN <<0>> ELSE <<c + 1>> \o Nums(s, HE)) \o <<m>> \o Nums(T, UE),
           <<XQ(Eq("nodes", nd, 1, 50), HE), XQ(Eq("coeff", [i \in 1..Len(nd) |-> T[nd[i] + 1]], 1, 3), UE)>>)
ActCut == Ready("fcut") /\ \E c \in {RndSeq(4, -3..3)}, dm \in {Rnd(0..1)}, m \in {Rnd(1..3)}, t \in {Rnd(-3..3)}, d3 \in {Rnd(0..2)} : \E v \in {RndSeq(m, -3..3)}, w \in {RndSeq(3 * m, -3..3)} :
   LET f2(x, y) == c[1] + c[2] * x + c[3] * y + c[4] * x * y
       pt(i) == [j \in 1..3 |-> IF j = d3 + 1 THEN t ELSE w[3 * (i - 1) + j]]
       f3(p) == c[1] + c[2] * p[1] + 2 * c[3] * p[2] + 3 * c[4] * p[3] + p[1] * p[2] * p[3]
   IN Look("fcut", c \o <<dm, m>> \o v \o <<t, d3>> \o w, <<Eq("two", [i \in 1..m |-> IF dm = 0 THEN f2(t, v[i]) ELSE f2(v[i], t)], 1, 50), Eq("nd", [i \in 1..m |-> f3(pt(i))], 1, 100)>>)

RECURSIVE DumpAll(_)
DumpAll(set) == IF set = {} THEN <<>> ELSE LET s == CHOOSE z \in set : TRUE IN <<Dump(s, F[s])>> \o DumpAll(set \ {s})
Finish == /\ g.fam # "none" /\ left = 0 /\ hist' = hist \o DumpAll(Live) \o <<St("heapcheck", <<>>, <<IntO("heap", 0)>>)>> /\ left' = -1 /\ UNCHANGED <<g, g2, F>>
Next == \/ Setup \/ ActMk \/ ActZero \/ ActConst \/ ActLin \/ ActApx \/ ActOne \/ ActCp \/ ActFree \/ ActUpd \/ ActNodal
        \/ ActDaxpby \/ ActAxpy \/ ActLc \/ ActProd \/ ActSp \/ ActScale \/ ActFlip \/ ActAr \/ ActAdax \/ ActKron \/ ActKron2
        \/ ActEvs \/ ActEi \/ ActDe \/ ActArr \/ ActDeriv \/ ActDd \/ ActDp \/ ActInt \/ ActInner \/ ActNorm \/ ActN2d \/ ActInsum \/ ActMax \/ ActAmax \/ ActCand
        \/ ActPg \/ ActSng \/ ActSer \/ ActTxt \/ ActOrth \/ ActAone \/ ActReg \/ ActFit \/ ActAdapt \/ ActCut \/ Finish
Emit == left = -1 => CSVWrite("%1$s", <<ToJson(hist)>>, OutFile)
TypeOK == left \in -1..MaxLen /\ \A s \in 0..(NF - 1) : F[s].live => (Len(F[s].v) = Len(F[s].x) /\ F[s].den > 0 /\ MaxAbs(F[s].v) <= F[s].sc /\ F[s].x[1] = lo /\ F[s].x[Len(F[s].x)] = hi)
=============================================================================
