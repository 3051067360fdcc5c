-------------------------------- MODULE Dft ---------------------------------
(* Discrete Fourier transforms. Every value is an element of the group ring Z[C_L]: a sequence of L integers, entry m
   weighting exp(2 pi i m / L), with one denominator per vector. The ring is exact, so forward, inverse, strided and
   repeated transforms and the Chebyshev transform built on them all have exact expected values; only the final
   comparison turns roots of unity into floating point numbers. *)
EXTENDS Tensor, Json, CSV, IOUtils, TLCExt
CONSTANTS Ops, MaxLen, OutFile, MaxLog
VARIABLES V, hist, left
vars == <<V, hist, left>>
NV == 3
Dead == [live |-> FALSE]
Rnd(set) == IF left < -1 THEN 0 ELSE RandomElement(set)
RndSeq(m, set) == TLCEval([i \in 1..m |-> IF left < -1 THEN 0 ELSE RandomElement(set)])
Ready(o) == o \in Ops /\ left > 0
St(op, a, x) == [op |-> op, a |-> a, x |-> x]
IntO(k, v) == [k |-> k, m |-> "int", v |-> <<v>>]
Do(steps) == hist' = hist \o steps /\ left' = left - 1
Big(x) == FoldLeft(LAMBDA a, e : Max2(a, MaxAbs(e)), 0, x.e)
Cyc(k, x) == [k |-> k, m |-> "cyc", e |-> x.e, den |-> x.den]
Dump(s, VV) == St("xdump", <<s>>, <<IntO("n", VV[s].n), Cyc("v", VV[s])>>)
Live == {s \in 0..(NV - 1) : V[s].live}
RECURSIVE DumpAll(_, _)
DumpAll(set, VV) == IF set = {} THEN <<>> ELSE LET s == CHOOSE z \in set : TRUE IN <<Dump(s, VV)>> \o DumpAll(set \ {s}, VV)
Set(s, x, steps) == Big(x) <= 100000 /\ x.den <= 5000 /\ V' = [V EXCEPT ![s] = x] /\ Do(steps \o DumpAll(Live \cup {s}, [V EXCEPT ![s] = x]))
Order(n) == Lcm(n, 4)
Rot(e, k) == LET L == Len(e) IN [m \in 1..L |-> e[((m - 1 - k) % L) + 1]]
AddE(a, b) == [m \in 1..Len(a) |-> a[m] + b[m]]
(* sum over j of x_j times the root of unity of order n to the power sg * j * k *)
Xf(x, sg) == LET n == x.n  L == Order(n) IN
   [live |-> TRUE, n |-> n, den |-> IF sg = 1 THEN x.den * n ELSE x.den,
    e |-> TLCEval([k \in 1..n |-> LET sh == TLCEval([j \in 1..n |-> sg * (((j - 1) * (k - 1)) % n) * (L \div n)]) IN
            TLCEval([m \in 1..L |-> SumSeq([j \in 1..n |-> x.e[j][((m - 1 - sh[j]) % L) + 1]])])])]
Gauss(re, im, L) == [m \in 1..L |-> (IF m = 1 THEN re ELSE 0) + (IF m = (L \div 4) + 1 THEN im ELSE 0)]
Mk(n, re, im) == [live |-> TRUE, n |-> n, den |-> 1, e |-> TLCEval([j \in 1..n |-> Gauss(re[j], im[j], Order(n))])]
Pow2(n) == n \in {1, 2, 4, 8, 16, 32, 64, 128}
PickN == IF Rnd(1..3) = 1 THEN Rnd(1..(3 * Pow(2, MaxLog - 2))) ELSE Pow(2, Rnd(0..MaxLog))
Inter(re, im) == [i \in 1..(2 * Len(re)) |-> IF i % 2 = 1 THEN re[(i + 1) \div 2] ELSE im[i \div 2]]
ActSet == Ready("xset") /\ \E s \in {Rnd(0..(NV - 1))}, n \in {PickN}, z \in {Rnd(0..3)} : \E re \in {RndSeq(n, IF z = 0 THEN {0, 0, 1} ELSE -9..9)}, im \in {RndSeq(n, IF z = 1 THEN {0} ELSE -9..9)} :
   Set(s, Mk(n, re, im), <<St("xset", <<s, n>> \o Inter(re, im), <<>>)>>)
ActSetA == ActSet
(* which: 0 fft/ifft, 1 the direct sums, 2 the recursive transforms with strides *)
ActFt == Ready("xft") /\ Live # {} /\ \E a \in {Rnd(Live)}, b \in {Rnd(0..(NV - 1))}, sg \in {Rnd({-1, 1})}, w \in {Rnd(0..2)}, sx \in {Rnd(1..3)}, so \in {Rnd(1..3)} :
   /\ a # b
   /\ IF w # 1 /\ ~Pow2(V[a].n)
      THEN \* not a power of two: refused, nothing written
           w = 0 /\ UNCHANGED V /\ Do(<<St("xft", <<b, a, sg, 0, 1, 1>>, <<[k |-> "ret", m |-> "int", v |-> <<1>>], IntO("touched", 0)>>)>> \o DumpAll(Live, V))
      ELSE LET st == IF w = 0 THEN <<1, 1>> ELSE <<sx, so>> IN Set(b, Xf(V[a], sg), <<St("xft", <<b, a, sg, w>> \o st, <<IntO("ret", 0), IntO("touched", V[a].n)>>)>>)
ActFtA == ActFt
ActFtB == ActFt
(* Chebyshev transform: coefficients, highest degree first, of the interpolant at cos(pi j / N) *)
Cheb(v) == LET N == Len(v) - 1  L == Order(2 * N)
               \* entry q of the sum for degree m: the values v_j, weighted, whose angle +-jm is q
               S(m) == [q \in 1..L |-> SumSeq([j1 \in 1..(N + 1) |-> LET j == j1 - 1  k == ((j * m) % (2 * N)) * (L \div (2 * N))  t == IF j = 0 \/ j = N THEN 1 ELSE 2
                          IN v[j1] * t * ((IF q = 1 + k THEN 1 ELSE 0) + (IF q = 1 + ((L - k) % L) THEN 1 ELSE 0))])]
           IN [e |-> TLCEval([i \in 1..(N + 1) |-> LET m == N - (i - 1)  h == IF m = 0 \/ m = N THEN 1 ELSE 2  s == TLCEval(S(m)) IN [q \in 1..L |-> h * s[q]]]), den |-> 4 * N]
ActCheb == Ready("xcheb") /\ \E lg \in {Rnd(0..MaxLog)} : \E v \in {RndSeq(Pow(2, lg) + 1, -9..9)} :
   UNCHANGED V /\ Do(<<St("xcheb", <<Len(v)>> \o v, <<IntO("ret", 0), Cyc("c", Cheb(v))>>)>>)
(* long transforms: a few impulses, so that any single output is a short sum of roots of unity; the transform is observed at a few
   outputs and transformed back, where only the impulses may remain *)
LongN(w) == IF w = 1 THEN Rnd(129..900) ELSE Pow(2, Rnd(8..12))
ActLong == Ready("xlong") /\ \E w \in {Rnd(0..2)}, sg \in {Rnd({-1, 1})}, sx \in {Rnd(1..3)}, so \in {Rnd(1..3)}, m \in {Rnd(1..5)}, q \in {Rnd(8..20)} : \E n \in {LongN(w)} :
   \E pos \in {RndSeq(m, 0..(n - 1))}, re \in {RndSeq(m, -9..9)}, im \in {RndSeq(m, -9..9)}, ks \in {RndSeq(q, 0..(n - 1))} :
   LET st == IF w = 0 THEN <<1, 1>> ELSE <<sx, so>>
       imps == FoldLeft(LAMBDA acc, i : acc \o <<pos[i], re[i], im[i]>>, <<>>, [i \in 1..m |-> i])
       fwd == [j \in 1..q |-> [i \in 1..m |-> <<re[i], im[i], (sg * pos[i] * ks[j]) % n>>]]
       back == [j \in 1..m |-> [i \in 1..m |-> IF pos[i] = pos[j] THEN <<re[i], im[i], 0>> ELSE <<0, 0, 0>>]]
   IN UNCHANGED V /\ Do(<<St("xlong", <<n, sg, w>> \o st \o <<m>> \o imps \o <<q>> \o ks,
        <<IntO("ret", 0), [k |-> "v", m |-> "roots", n |-> n, den |-> IF sg = 1 THEN n ELSE 1, t |-> fwd],
          [k |-> "back", m |-> "roots", n |-> n, den |-> 1, t |-> back], IntO("other", 0)>>)>>)
Init == V = [s \in 0..(NV - 1) |-> Dead] /\ hist = <<St("heap0", <<>>, <<>>)>> /\ left = MaxLen
Finish == left = 0 /\ hist' = Append(hist, St("heapcheck", <<>>, <<IntO("heap", 0)>>)) /\ left' = -1 /\ UNCHANGED V
Next == ActSet \/ ActSetA \/ ActFt \/ ActFtA \/ ActFtB \/ ActCheb \/ ActLong \/ Finish
Emit == left = -1 => CSVWrite("%1$s", <<ToJson(hist)>>, OutFile)
TypeOK == left \in -1..MaxLen /\ \A s \in Live : Len(V[s].e) = V[s].n
=============================================================================
