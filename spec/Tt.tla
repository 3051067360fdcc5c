--------------------------------- MODULE Tt ---------------------------------
(* Discrete tensors and tensor trains. The abstract value of a tensor train is the full tensor it stands for (integers times
   a power of two); its ranks are bounded by what the operations that built it need. A client builds trains from cores,
   constants, coordinates, canonical factors, full tensors or by cross approximation of a black box, combines, scales,
   orthogonalises, compresses, contracts and integrates them in any order; every train it holds is compared, element by
   element, after every change. Three-dimensional tensors (the cores) have their own slots. *)
EXTENDS Tensor, FiniteSets, Json, CSV, IOUtils, TLCExt
CONSTANTS Ops, MaxLen, MaxDim, MaxN, MaxSize, MaxRank, OutFile
VARIABLES n, U, S, C, hist, left
vars == <<n, U, S, C, hist, left>>
NT == 5
NC == 4
LIM == 20000
Dead == [live |-> FALSE]
Rnd(set) == IF left < -1 THEN 0 ELSE RandomElement(set)
RndSeq(m, set) == TLCEval([i \in 1..m |-> IF left < -1 THEN 0 ELSE RandomElement(set)])
Ready(o) == o \in Ops /\ n # <<>> /\ left > 0
D == Len(n)
Num(v, e) == IF e = 0 THEN ToString(v) ELSE ToString(v) \o "@" \o ToString(e)
Nums(s, e) == IF e = 0 THEN s ELSE [i \in 1..Len(s) |-> Num(s[i], e)]
RECURSIVE Cat(_)
Cat(t) == IF t = <<>> THEN <<>> ELSE Head(t) \o Cat(Tail(t))
XQ(o, e) == IF e = 0 THEN o ELSE o @@ [ex |-> e]
Eq(k, v, sc) == [k |-> k, m |-> "eq", v |-> v, den |-> 1, sc |-> sc]
IntO(k, v) == [k |-> k, m |-> "int", v |-> <<v>>]
IntS(k, v) == [k |-> k, m |-> "int", v |-> v]
LeS(k, v) == [k |-> k, m |-> "le", v |-> v]
St(op, a, x) == [op |-> op, a |-> a, x |-> x]
Live == {s \in 0..(NT - 1) : S[s].live}
CLive == {s \in 0..(NC - 1) : C[s].live}
AnyT == Rnd(0..(NT - 1))
LiveT == Rnd(Live)
One == [k \in 1..(D + 1) |-> 1]
\* no unfolding has a rank above the smaller of its two sides
Cap(r) == [k \in 1..(D + 1) |-> Min2(r[k], Min2(ProdSeq(SubSeq(n, 1, k - 1)), ProdSeq(SubSeq(n, k, D))))]
Mk(v, r, e, sc) == [live |-> TRUE, v |-> v, r |-> r, ex |-> e, sc |-> sc]
Ok(f) == f.sc <= LIM /\ MaxSeq(f.r) <= MaxRank /\ f.ex \in -200..200
Dump(s, f) == St("ttdump", <<s>>, <<IntS("n", n), LeS("ranks", f.r), XQ(Eq("vals", f.v, f.sc), f.ex)>>)
RECURSIVE TAll(_, _)
TAll(set, SS) == IF set = {} THEN <<>> ELSE LET s == CHOOSE t \in set : TRUE IN <<Dump(s, SS[s])>> \o TAll(set \ {s}, SS)
Do(steps) == hist' = hist \o steps /\ left' = left - 1 /\ UNCHANGED <<n, U>>
Set(s, f, steps) == Ok(f) /\ S' = [S EXCEPT ![s] = f] /\ UNCHANGED C /\ Do(steps \o TAll(Live \cup {s}, [S EXCEPT ![s] = f]))
Look(steps) == UNCHANGED <<S, C>> /\ Do(steps \o TAll(Live, S))

Setup == n = <<>> /\ \E d \in {Rnd(2..MaxDim)} : \E q \in {RndSeq(d, 1..MaxN)} : \E u \in {Rnd({0, 0, -50, -20, 30})} :
   Size(q) <= MaxSize /\ n' = q /\ U' = u /\ UNCHANGED <<S, C, left>> /\ hist' = hist

RndRanks(m) == LET q == RndSeq(D + 1, 1..m) IN [k \in 1..(D + 1) |-> IF k = 1 \/ k = D + 1 THEN 1 ELSE q[k]]
ActNew == Ready("new") /\ \E s \in {AnyT}, r \in {RndRanks(IF D > 3 THEN 2 ELSE Rnd({2, 3, 4}))} :
   \E c \in {[k \in 1..D |-> RndSeq(r[k] * n[k] * r[k + 1], IF D > 3 THEN -1..1 ELSE -2..2)]} : \E v \in {Train(n, r, c)} :
   Set(s, Mk(v, r, U, 1 + 2 * ProdSeq([k \in 1..D |-> r[k] * Max2(1, MaxAbs(c[k]))])), <<St("ttnew", <<s, D>> \o n \o r \o Cat([k \in 1..D |-> IF k = D THEN Nums(c[k], U) ELSE c[k]]), <<>>)>>)
ActOnes == Ready("ones") /\ \E s \in {AnyT} : Set(s, Mk([q \in 1..Size(n) |-> 1], One, 0, 2), <<St("ttones", <<s, D>> \o n, <<>>)>>)
ActX == Ready("x") /\ \E s \in {AnyT}, k \in {Rnd(1..D)} : \E x \in {RndSeq(n[k], -9..9)} :
   Set(s, Mk(FromIdx(n, LAMBDA ix : x[ix[k] + 1]), One, U, 10), <<St("ttx", <<s, k - 1, D>> \o n \o Nums(x, U), <<>>)>>)
ActCd == Ready("cd") /\ \E s \in {AnyT}, rk \in {Rnd(1..3)} : \E c \in {[k \in 1..D |-> RndSeq(rk * n[k], -2..2)]} :
   LET v == FromIdx(n, LAMBDA ix : SumSeq([j \in 1..rk |-> ProdSeq([k \in 1..D |-> c[k][ix[k] * rk + j]])]))
       sc == 1 + rk * Pow(2, D)
   IN Set(s, Mk(v, [k \in 1..(D + 1) |-> IF k = 1 \/ k = D + 1 THEN 1 ELSE rk], U, sc),
          <<St("ttcd", <<s, D, rk>> \o n \o Cat([k \in 1..D |-> IF k = 1 THEN Nums(c[k], U) ELSE c[k]]), <<XQ(Eq("cd", v, sc), U), XQ(Eq("kept", v, sc), U)>>)>>)
(* compression: the relative error is at most eps and no rank exceeds what the singular values of the unfolding demand *)
TR(k, v, e, eps) == [k |-> k, m |-> "ttrank", v |-> v, n |-> n, eps |-> eps]
TL(k, v, e, eps, sc) == XQ([k |-> k, m |-> "ttl2", v |-> v, den |-> 1, eps |-> eps, sc |-> sc], e)
Tiny == "1e-10"
Coarse == {"0.5", "0.2", "0.05", "0.01", "1e-3", "0.9"}
LowV == LET r == RndRanks(2)  c == [k \in 1..D |-> RndSeq(r[k] * n[k] * r[k + 1], -1..2)] IN Train(n, r, c)
ActFull == Ready("full") /\ \E s \in {AnyT}, e \in {Rnd(Coarse \cup {Tiny})} : \E v \in {IF Rnd(1..2) = 1 THEN LowV ELSE RndSeq(Size(n), Rnd({-9..9, {0, 0, 0, 1}, {0}, -1..1}))} :
   LET f == Mk(v, Cap([k \in 1..(D + 1) |-> MaxSize]), U, 1 + MaxAbs(v) * Size(n))
       st(x) == St("ttfull", <<x, e, D>> \o n \o Nums(v, U), <<XQ(Eq("full", v, 1 + MaxAbs(v)), U), XQ(Eq("kept", v, 1 + MaxAbs(v)), U)>>)
   IN IF e = Tiny THEN Set(s, f, <<st(s), St("ttdump", <<s>>, <<IntS("n", n), TR("ranks", v, U, e), TL("vals", v, U, e, f.sc)>>)>>)
      ELSE UNCHANGED C /\ S' = [S EXCEPT ![s] = Dead] /\ Do(<<st(s), St("ttdump", <<s>>, <<IntS("n", n), TR("ranks", v, U, e), TL("vals", v, U, e, f.sc)>>), St("ttfree", <<s>>, <<>>)>>)
ActRound == Ready("round") /\ Live # {} /\ \E a \in {LiveT}, d \in {AnyT}, e \in {Rnd(Coarse \cup {Tiny, Tiny})} :
   LET f == S[a]  lo == St("ttdump", <<d>>, <<IntS("n", n), TR("ranks", f.v, f.ex, e) @@ [r |-> f.r], TL("vals", f.v, f.ex, e, f.sc)>>) IN
   IF e = Tiny THEN /\ S' = [S EXCEPT ![a] = Dead, ![d] = [f EXCEPT !.r = Cap(f.r)]] /\ UNCHANGED C
                    /\ Do(<<St("ttround", <<d, a, e>>, <<>>), lo>> \o TAll((Live \ {a}) \cup {d}, [S EXCEPT ![d] = [f EXCEPT !.r = Cap(f.r)]]))
   ELSE d # a /\ S' = [S EXCEPT ![d] = Dead] /\ UNCHANGED C
        /\ \E w \in {Rnd((0..(NT - 1)) \ {a, d})} : ~S[w].live /\ Do(<<St("ttcp", <<w, a>>, <<>>), St("ttround", <<d, w, e>>, <<>>), lo, St("ttfree", <<d>>, <<>>)>> \o TAll(Live \ {d}, S))
ActOrth == Ready("orth") /\ Live # {} /\ \E s \in {LiveT} : LET f == S[s] IN
   Set(s, f, <<St("ttorth", <<s>>, <<[k |-> "gram", m |-> "ttgram", r |-> SubSeq(f.r, 2, D)]>>)>>)
ActCp == Ready("cp") /\ Live # {} /\ \E a \in {LiveT}, d \in {AnyT} : d # a /\ Set(d, S[a], <<St("ttcp", <<d, a>>, <<>>)>>)
ActFree == Ready("cp") /\ Cardinality(Live) > 3 /\ \E a \in {LiveT} : S' = [S EXCEPT ![a] = Dead] /\ UNCHANGED C /\ Do(<<St("ttfree", <<a>>, <<>>)>> \o TAll(Live \ {a}, S))
AddR(r, q) == [k \in 1..(D + 1) |-> IF k = 1 \/ k = D + 1 THEN 1 ELSE r[k] + q[k]]
ActAdd == Ready("add") /\ Live # {} /\ \E a \in {LiveT} : \E b \in {Rnd({z \in Live : S[z].ex = S[a].ex})}, d \in {AnyT} :
   LET f == S[a]  g == S[b] IN Set(d, Mk([q \in 1..Size(n) |-> f.v[q] + g.v[q]], AddR(f.r, g.r), f.ex, f.sc + g.sc), <<St("ttadd", <<d, a, b>>, <<>>)>>)
ActMul == Ready("mul") /\ Live # {} /\ \E a \in {LiveT}, b \in {LiveT}, d \in {AnyT} :
   LET f == S[a]  g == S[b] IN f.sc * g.sc <= LIM /\
   Set(d, Mk([q \in 1..Size(n) |-> f.v[q] * g.v[q]], [k \in 1..(D + 1) |-> f.r[k] * g.r[k]], f.ex + g.ex, f.sc * g.sc), <<St("ttmul", <<d, a, b>>, <<>>)>>)
ActScal == Ready("scal") /\ Live # {} /\ \E a \in {LiveT}, c \in {Rnd({-2, -1, 0, 2, 3})}, e \in {Rnd({0, 0, -3, 10})} :
   LET f == S[a] IN Set(a, [f EXCEPT !.v = [q \in 1..Size(n) |-> c * f.v[q]], !.ex = f.ex + e, !.sc = Max2(1, Abs(c)) * f.sc], <<St("ttscal", <<a, Num(c, e)>>, <<>>)>>)
ActDot == Ready("dot") /\ Live # {} /\ \E a \in {LiveT}, b \in {LiveT} : LET f == S[a]  g == S[b] IN f.sc * g.sc <= 2000000 /\
   Look(<<St("ttdot", <<a, b>>, <<XQ(Eq("v", <<Dot(f.v, g.v)>>, f.sc * g.sc * Size(n)), f.ex + g.ex)>>)>>)
ActNorm == Ready("dot") /\ Live # {} /\ \E a \in {LiveT} : LET f == S[a] IN MaxAbs(f.v) <= 3000 /\
   Look(<<St("ttnorm", <<a>>, <<XQ([k |-> "v", m |-> "ttnorm", v |-> Dot(f.v, f.v), sc |-> f.sc], f.ex)>>)>>)
ActInt == Ready("int") /\ Live # {} /\ \E a \in {LiveT}, w \in {[k \in 1..D |-> RndSeq(n[k], -2..3)]} : LET f == S[a] IN
   f.sc * Pow(3, D) * Size(n) < 400000000 /\ Look(<<St("ttint", <<a>> \o Cat(w), <<XQ(Eq("v", <<Eval(f.v, n, w)>>, f.sc * Pow(3, D) * Size(n)), f.ex)>>)>>)

(* Cross approximation. The black box is a product over blocks of consecutive dimensions of 1 + b prod_k p_k^(i_k), p_k distinct
   primes: inside a block every unfolding has rank two and any two of its rows (columns) are independent, so whatever pivots
   are chosen the interpolation is exact; between blocks the rank is one. *)
Primes == <<2, 3, 5, 7, 11, 13>>
CrossV(cut, b) ==   \* cut[k] = 1: dimensions k and k + 1 belong together
   LET start(k) == k = 1 \/ cut[k - 1] = 0
       last(k) == CHOOSE j \in k..D : (j = D \/ cut[j] = 0) /\ \A i \in k..(j - 1) : cut[i] = 1
   IN FromIdx(n, LAMBDA ix : ProdSeq([k \in 1..D |-> IF start(k) THEN 1 + b[k] * ProdSeq([j \in 1..D |-> IF j >= k /\ j <= last(k) THEN Pow(Primes[j], ix[j]) ELSE 1]) ELSE 1]))
CrossBound(b) == ProdSeq([k \in 1..D |-> 1 + b[k] * Pow(Primes[k], n[k] - 1)])
ActCross == Ready("cross") /\ (\A k \in 1..D : n[k] >= 2) /\ \E s \in {AnyT}, cut \in {RndSeq(D - 1, {0, 1, 1})}, b \in {RndSeq(D, 1..3)}, how \in {Rnd({"t", "f"})}, ad \in {Rnd({0, 0, 1, 2})}, over \in {Rnd({0, 0, 1})} :
   CrossBound(b) < 5000000 /\
   LET v == CrossV(cut, b)
       r == [k \in 1..(D + 1) |-> IF k = 1 \/ k = D + 1 THEN 1 ELSE 1 + cut[k - 1]]
       q == IF ad > 0 THEN One ELSE IF over = 1 THEN [k \in 1..(D + 1) |-> IF k = 1 \/ k = D + 1 THEN 1 ELSE 2] ELSE r
       f == Mk(v, IF ad > 0 THEN r ELSE q, 0, 1 + MaxAbs(v))
   IN /\ UNCHANGED C /\ S' = [S EXCEPT ![s] = Dead]
      /\ Do(<<St("ttcross", <<s, how, D>> \o n \o q \o <<ad, 6, "1e-8">> \o Nums(v, U), <<IntO("again", 0), IntO("calls", 1)>>),
              St("ttdump", <<s>>, <<IntS("n", n), LeS("ranks", f.r), XQ([k |-> "vals", m |-> "eq", v |-> v, den |-> 1, sc |-> f.sc, tol |-> "1e-5"], U)>>), St("ttfree", <<s>>, <<>>)>> \o TAll(Live \ {s}, S))

(* three-dimensional tensors, last index fastest *)
CAt(c, i, j, k) == c.v[((i - 1) * c.n[2] + j - 1) * c.n[3] + k]
CTab(m, F(_, _, _)) == [live |-> TRUE, n |-> m, v |-> TLCEval([q \in 1..Size(m) |-> F(IdxAt(m, 1, q) + 1, IdxAt(m, 2, q) + 1, IdxAt(m, 3, q) + 1)])]
CDump(s, c) == St("dcdump", <<s>>, <<IntS("n", c.n), Eq("vals", c.v, 1 + MaxAbs(c.v))>>)
RECURSIVE CAll(_, _)
CAll(set, CC) == IF set = {} THEN <<>> ELSE LET s == CHOOSE t \in set : TRUE IN <<CDump(s, CC[s])>> \o CAll(set \ {s}, CC)
CSet(s, c, steps) == Size(c.n) <= 300 /\ MaxAbs(c.v) < 10000 /\ C' = [C EXCEPT ![s] = c] /\ UNCHANGED S /\ Do(steps \o CAll(CLive \cup {s}, [C EXCEPT ![s] = c]))
AnyC == Rnd(0..(NC - 1))
ActCNew == Ready("cores") /\ \E s \in {AnyC}, m \in {RndSeq(3, 1..4)} : \E c \in {CTab(m, LAMBDA i, j, k : Rnd(-9..9))} : CSet(s, c, <<St("dcnew", <<s>> \o m \o c.v, <<>>)>>)
ActCOnes == Ready("cores") /\ \E s \in {AnyC}, m \in {RndSeq(3, 1..4)} : CSet(s, CTab(m, LAMBDA i, j, k : 1), <<St("dcones", <<s>> \o m, <<>>)>>)
ActCX == Ready("cores") /\ \E s \in {AnyC}, m \in {Rnd(1..5)} : \E x \in {RndSeq(m, -9..9)} : CSet(s, CTab(<<1, m, 1>>, LAMBDA i, j, k : x[j]), <<St("dcx", <<s, m>> \o x, <<>>)>>)
ActCCp == Ready("cores") /\ CLive # {} /\ \E s \in {AnyC}, a \in {Rnd(CLive)}, t \in {Rnd({0, 1, 1})} : LET A == C[a] IN
   CSet(s, IF t = 0 THEN A ELSE CTab(<<A.n[3], A.n[2], A.n[1]>>, LAMBDA i, j, k : CAt(A, k, j, i)), <<St("dccp", <<s, a, t>>, <<>>)>>)
ActCBin == Ready("cores") /\ CLive # {} /\ \E s \in {AnyC}, a \in {Rnd(CLive)}, o \in {Rnd({"h", "v", "d", "k"})} :
   LET A == C[a]  P == {z \in CLive : C[z].n[2] = A.n[2] /\ (o = "h" => C[z].n[1] = A.n[1]) /\ (o = "v" => C[z].n[3] = A.n[3])} IN \E b \in {Rnd(P)} :
   LET B == C[b]  m == A.n[2] IN
   CSet(s, CASE o = "h" -> CTab(<<A.n[1], m, A.n[3] + B.n[3]>>, LAMBDA i, j, k : IF k <= A.n[3] THEN CAt(A, i, j, k) ELSE CAt(B, i, j, k - A.n[3]))
            [] o = "v" -> CTab(<<A.n[1] + B.n[1], m, A.n[3]>>, LAMBDA i, j, k : IF i <= A.n[1] THEN CAt(A, i, j, k) ELSE CAt(B, i - A.n[1], j, k))
            [] o = "d" -> CTab(<<A.n[1] + B.n[1], m, A.n[3] + B.n[3]>>, LAMBDA i, j, k : IF i <= A.n[1] /\ k <= A.n[3] THEN CAt(A, i, j, k) ELSE IF i > A.n[1] /\ k > A.n[3] THEN CAt(B, i - A.n[1], j, k - A.n[3]) ELSE 0)
            [] OTHER -> CTab(<<A.n[1] * B.n[1], m, A.n[3] * B.n[3]>>, LAMBDA i, j, k : CAt(A, ((i - 1) \div B.n[1]) + 1, j, ((k - 1) \div B.n[3]) + 1) * CAt(B, ((i - 1) % B.n[1]) + 1, j, ((k - 1) % B.n[3]) + 1)),
        <<St("dcbin", <<s, o, a, b>>, <<>>)>>)
ActCBinA == ActCBin
ActCSum == Ready("cores") /\ CLive # {} /\ \E a \in {Rnd(CLive)} : LET A == C[a] IN \E b \in {RndSeq(A.n[2], -3..3)} :
   UNCHANGED <<S, C>> /\ Do(<<St("dcsum", <<a>> \o b, <<Eq("v", Contract(A.v, A.n, 2, b), 1 + 3 * A.n[2] * MaxAbs(A.v))>>)>> \o CAll(CLive, C))

Init == n = <<>> /\ U = 0 /\ S = [s \in 0..(NT - 1) |-> Dead] /\ C = [s \in 0..(NC - 1) |-> Dead] /\ hist = <<St("heap0", <<>>, <<>>)>> /\ left = MaxLen
Finish == n # <<>> /\ left = 0 /\ hist' = Append(hist, St("heapcheck", <<>>, <<IntO("heap", 0)>>)) /\ left' = -1 /\ UNCHANGED <<n, U, S, C>>
Next == Setup \/ ActNew \/ ActNew \/ ActOnes \/ ActX \/ ActCd \/ ActFull \/ ActRound \/ ActRound \/ ActOrth \/ ActCp \/ ActFree \/ ActAdd \/ ActAdd \/ ActMul \/ ActScal \/ ActDot \/ ActNorm \/ ActInt
        \/ ActCross \/ ActCNew \/ ActCNew \/ ActCOnes \/ ActCX \/ ActCCp \/ ActCBin \/ ActCBinA \/ ActCSum \/ Finish
Emit == left = -1 => CSVWrite("%1$s", <<ToJson(hist)>>, OutFile)
TypeOK == left \in -1..MaxLen /\ (\A s \in Live : Len(S[s].v) = Size(n) /\ Len(S[s].r) = D + 1) /\ \A s \in CLive : Len(C[s].v) = Size(C[s].n)
=============================================================================
