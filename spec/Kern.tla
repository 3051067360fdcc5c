-------------------------------- MODULE Kern --------------------------------
(* Gaussian kernel expansions. The state holds one option object (centres, scale, width, bounds, whether centres move) and
   several expansions; an expansion is a sequence of kernels (scale, half width, centre c/cd), exact rational coefficients,
   bounds (or none) and whether its centres are parameters. Kernels are added one by one, parameters replaced (coefficients
   only, or coefficients and centres), expansions copied, combined and stored. The real-arithmetic values of the Gaussians
   are computed from these exact data by the comparison. *)
EXTENDS Tensor, Json, CSV, IOUtils, TLCExt
CONSTANTS Ops, MaxLen, MaxN, OutFile
VARIABLES o, E, hist, left
vars == <<o, E, hist, left>>
NE == 5
Rnd(set) == IF left < -1 THEN 0 ELSE RandomElement(set)
RndSeq(m, set) == TLCEval([i \in 1..m |-> IF left < -1 THEN 0 ELSE RandomElement(set)])
Ready(p) == p \in Ops /\ left > 0 /\ o.live
St(op, a, x) == [op |-> op, a |-> a, x |-> x]
IntO(k, v) == [k |-> k, m |-> "int", v |-> <<v>>]
Q(p, q) == ToString(p) \o "/" \o ToString(q)
Dead == [live |-> FALSE]
None == <<>>
Bnd(k, b) == [k |-> k, m |-> "kbounds", b |-> b]      \* quarters, or none: the largest doubles
Kx(k, what, e, pts) == [k |-> k, m |-> "kx", what |-> what, ks |-> e.k, v |-> e.v, den |-> e.den, b |-> e.b, mc |-> e.mc, pts |-> pts]
Kx2(k, e, h) == Kx(k, "inner", e, <<>>) @@ [ks2 |-> h.k, v2 |-> h.v, den2 |-> h.den, b2 |-> h.b]
Nk(e) == Len(e.k)
Np(e) == IF e.mc THEN 2 * Nk(e) ELSE Nk(e)
Pts(e) == LET C == {(4 * e.k[i].c) \div e.k[i].cd : i \in 1..Nk(e)} \cup {0} IN {z \in -44..44 : \E c \in C : Abs(z - c) <= 14}
DumpSt(s, e, ps) == St("kdump", <<s>> \o [i \in 1..Len(ps) |-> Q(ps[i], 4)],
   <<IntO("np", Np(e)), Kx("params", "params", e, <<>>), IntO("nk", Nk(e)), Bnd("b", e.b), Kx("vals", "eval", e, ps), Kx("ders", "deriv", e, ps)>>)
Do(steps) == hist' = hist \o steps /\ left' = left - 1
Fine(e) == e.den <= 64 /\ \A i \in 1..Len(e.v) : Abs(e.v[i]) <= 20000
\* every expansion is shown after every change, so that a change of one that shows in another is seen
Set(s, e, steps) == Fine(e) /\ E' = [E EXCEPT ![s] = e] /\ UNCHANGED o /\
   \E ps \in {[t \in 0..(NE - 1) |-> IF E'[t].live THEN RndSeq(3, Pts(E'[t])) ELSE <<>>]} :
     Do(steps \o SelectSeq([t \in 1..NE |-> IF E'[t - 1].live /\ Nk(E'[t - 1]) > 0 THEN DumpSt(t - 1, E'[t - 1], ps[t - 1]) ELSE St("skip", <<>>, <<>>)], LAMBDA z : z.op # "skip"))
Look(steps) == UNCHANGED <<o, E>> /\ Do(steps)
Live == {s \in 0..(NE - 1) : E[s].live /\ Nk(E[s]) > 0}
AnyS == Rnd(0..(NE - 1))

(* options *)
OShow(p) == <<IntO("np", IF p.ad THEN 2 * Len(p.c) ELSE Len(p.c)), IntO("lin", IF p.ad THEN 0 ELSE 1), Bnd("b", p.b)>>
MinC(c) == CHOOSE z \in {c[i] : i \in 1..Len(c)} : \A i \in 1..Len(c) : z <= c[i]
MaxC(c) == CHOOSE z \in {c[i] : i \in 1..Len(c)} : \A i \in 1..Len(c) : z >= c[i]
NewO(sc, w, c) == [live |-> TRUE, sc |-> sc, w |-> w, c |-> c, cd |-> 4, plo |-> MinC(c), phi |-> MaxC(c), b |-> None, ad |-> FALSE]
SetO(p, steps) == o' = p /\ UNCHANGED E /\ Do(steps)
ActOpt == "kopt" \in Ops /\ left > 0 /\ (o.live => Rnd(1..4) = 1) /\ \E n \in {Rnd(1..MaxN)}, sc \in {Rnd({-2, 1, 2, 3})}, w \in {Rnd(1..6)} : \E c \in {RndSeq(n, -20..20)} :
   SetO(NewO(sc, w, c), <<St("kopt", <<sc, Q(w, 2), n>> \o [i \in 1..n |-> Q(c[i], 4)], OShow(NewO(sc, w, c)))>>)
ActAd == Ready("kad") /\ \E a \in {Rnd({0, 1, 1})} : LET p == [o EXCEPT !.ad = (a = 1)] IN SetO(p, <<St("kad", <<a>>, OShow(p))>>)
ActBnd == Ready("kbnd") /\ \E a \in {Rnd(-24..8)}, d \in {Rnd(1..30)} : LET p == [o EXCEPT !.b = <<a, a + d>>, !.plo = a, !.phi = a + d] IN SetO(p, <<St("kbnd", <<Q(a, 4), Q(a + d, 4)>>, OShow(p))>>)
\* a new number of parameters spreads the centres evenly over the practical interval
ActNp == Ready("knp") /\ \E n \in {Rnd(1..MaxN)} :
   LET p == [o EXCEPT !.c = TLCEval(IF n = 1 THEN <<o.phi>> ELSE [i \in 1..n |-> o.plo * (n - 1) + (i - 1) * (o.phi - o.plo)]), !.cd = IF n = 1 THEN 4 ELSE 4 * (n - 1)]
   IN SetO(p, <<St("knp", <<IF o.ad THEN 2 * n ELSE n>>, OShow(p))>>)
OKern == [i \in 1..Len(o.c) |-> [s |-> o.sc, w |-> o.w, c |-> o.c[i], cd |-> o.cd]]
FromO(v) == [live |-> TRUE, k |-> OKern, v |-> v, den |-> 1, b |-> o.b, mc |-> o.ad]

(* constructors *)
WithC(e, c) == [e EXCEPT !.k = [i \in 1..Nk(e) |-> [e.k[i] EXCEPT !.c = c[i], !.cd = 4]]]
ActMk == Ready("kmk") /\ \E s \in {AnyS}, v \in {RndSeq(Len(o.c), -9..9)}, c \in {RndSeq(Len(o.c), -20..20)} :
   Set(s, IF o.ad THEN WithC(FromO(v), c) ELSE FromO(v), <<St("kmk", <<s, IF o.ad THEN 2 * Len(v) ELSE Len(v)>> \o v \o (IF o.ad THEN [i \in 1..Len(c) |-> Q(c[i], 4)] ELSE <<>>), <<>>)>>)
ActMkA == ActMk
ActZero == Ready("kzero") /\ \E s \in {AnyS}, f \in {Rnd({0, 1})} : Set(s, FromO([i \in 1..Len(o.c) |-> 0]), <<St("kzero", <<s, f>>, <<>>)>>)
ActLin == Ready("klin") /\ \E d \in {Rnd({0, 1})}, a \in {Rnd(-3..3)}, f \in {Rnd(-5..5)} :
   Look(<<St("klin", <<NE, d, a, f>>, <<[k |-> "p", m |-> "kfit", ks |-> OKern, mc |-> o.ad, a |-> IF d = 0 THEN a ELSE 0, f |-> f, lo |-> o.plo, hi |-> o.phi]>>)>>)
ActAlloc == Ready("kadd") /\ \E s \in {AnyS}, n \in {Rnd(1..3)}, sc \in {Rnd({-1, 1, 2})}, w \in {Rnd(1..6)}, c \in {Rnd(-20..20)}, v \in {Rnd(-5..5)} :
   Set(s, [live |-> TRUE, k |-> <<[s |-> sc, w |-> w, c |-> c, cd |-> 4]>>, v |-> <<v>>, den |-> 1, b |-> None, mc |-> FALSE], <<St("kalloc", <<s, n>>, <<>>), St("kadd", <<s, v, sc, Q(w, 2), Q(c, 4)>>, <<>>)>>)
ActAdd == Ready("kadd") /\ Live # {} /\ \E s \in {Rnd(Live)}, sc \in {Rnd({-1, 1, 2})}, w \in {Rnd(1..6)}, c \in {Rnd(-20..20)}, v \in {Rnd(-5..5)} :
   Nk(E[s]) <= 12 /\ Set(s, [E[s] EXCEPT !.k = Append(@, [s |-> sc, w |-> w, c |-> c, cd |-> 4]), !.v = Append(@, v * E[s].den)], <<St("kadd", <<s, v, sc, Q(w, 2), Q(c, 4)>>, <<>>)>>)
ActAddA == ActAdd
ActAddB == ActAdd

(* changes *)
ActUpd == Ready("kupd") /\ Live # {} /\ \E s \in {Rnd(Live)} : \E v \in {RndSeq(Nk(E[s]), -9..9)}, c \in {RndSeq(Nk(E[s]), -20..20)}, full \in {E[s].mc /\ Rnd(1..4) > 1} :
   Set(s, LET e == [E[s] EXCEPT !.v = v, !.den = 1] IN IF full THEN WithC(e, c) ELSE e,
       <<St("kupd", <<s, IF full THEN 2 * Len(v) ELSE Len(v)>> \o v \o (IF full THEN [i \in 1..Len(c) |-> Q(c[i], 4)] ELSE <<>>), <<IntO("ret", 0)>>)>>)
ActUpdA == ActUpd
ActCp == Ready("kcp") /\ Live # {} /\ \E a \in {Rnd(Live)}, s \in {AnyS} : a # s /\ Set(s, E[a], <<St("kcp", <<s, a>>, <<>>)>>)
ActCpA == ActCp
ActFree == Ready("kcp") /\ Live # {} /\ Rnd(1..3) = 1 /\ \E s \in {Rnd(Live)} : E' = [E EXCEPT ![s] = Dead] /\ UNCHANGED o /\ Do(<<St("kfree", <<s>>, <<>>)>>)
ActSer == Ready("kser") /\ Live # {} /\ \E a \in {Rnd(Live)}, s \in {AnyS} : a # s /\ Set(s, E[a], <<St("kser", <<s, a>>, <<IntO("used", 1)>>)>>)
ActScale == Ready("kscale") /\ Live # {} /\ \E s \in {Rnd(Live)}, p \in {Rnd(-3..3)}, q \in {Rnd({1, 2})} : Set(s, [E[s] EXCEPT !.v = [i \in DOMAIN @ |-> p * @[i]], !.den = q * @], <<St("kscale", <<Q(p, q), s>>, <<>>)>>)
ActFlip == Ready("kscale") /\ Live # {} /\ \E s \in {Rnd(Live)} : Set(s, [E[s] EXCEPT !.v = [i \in DOMAIN @ |-> -@[i]]], <<St("kflip", <<s>>, <<>>)>>)
Same == {t \in Live \X Live : t[1] # t[2] /\ E[t[1]].k = E[t[2]].k /\ \A i \in 1..Nk(E[t[1]]) : E[t[1]].k[i].cd = 4}
Lin(a, x, b, y) == LET M == Lcm(x.den, y.den) IN [y EXCEPT !.v = [i \in DOMAIN @ |-> a * (M \div x.den) * x.v[i] + b * (M \div y.den) * y.v[i]], !.den = M]
ActAxpy == Ready("kaxpy") /\ Same # {} /\ \E t \in {Rnd(Same)}, a \in {Rnd(-3..3)} : Set(t[2], Lin(a, E[t[1]], 1, E[t[2]]), <<St("kaxpy", <<a, t[1], t[2]>>, <<IntO("ret", 0)>>)>>)
ActAxpyA == ActAxpy
ActSetB == Ready("ksetb") /\ Live # {} /\ \E s \in {Rnd(Live)}, a \in {Rnd(-24..8)}, d \in {Rnd(1..30)} : Set(s, [E[s] EXCEPT !.b = <<a, a + d>>], <<St("ksetb", <<s, Q(a, 4), Q(a + d, 4)>>, <<>>)>>)

(* observations *)
ActPg == Ready("kpg") /\ Live # {} /\ \E s \in {Rnd(Live)}, n \in {Rnd(1..3)} : \E ps \in {RndSeq(n, Pts(E[s]))} :
   Look(<<St("kpg", <<s, n>> \o [i \in 1..n |-> Q(ps[i], 4)], <<Kx("g", "pgrad", E[s], ps), Kx("e", "eval", E[s], ps), Kx("g2", "pgrad", E[s], ps)>>)>>)
ActPgA == ActPg
ActSng == Ready("ksng") /\ Live # {} /\ \E s \in {Rnd(Live)}, sc \in {Rnd(-2..3)} : ~E[s].mc /\ \E z \in {RndSeq(Nk(E[s]), -3..3)} :
   Look(<<St("ksng", <<s, sc>> \o z, <<IntO("ret", 0), Kx("g", "sng", E[s], <<>>) @@ [z |-> z, scale |-> sc]>>)>>)
ActInt == Ready("kint") /\ Live # {} /\ \E s \in {Rnd(Live)} : Look(<<St("kint", <<s>>, <<Kx("v", "int", E[s], <<>>), Kx("w", "int", E[s], <<>>), Kx("n", "norm", E[s], <<>>)>>)>>)
Olap(a, b) == IF a = None THEN TRUE ELSE IF b = None THEN TRUE ELSE Max2(a[1], b[1]) <= Min2(a[2], b[2])
ActInner == Ready("kint") /\ Live # {} /\ \E s \in {Rnd(Live)}, t \in {Rnd(Live)} : Olap(E[s].b, E[t].b) /\ Look(<<St("kinner", <<s, t>>, <<Kx2("v", E[s], E[t])>>)>>)
ActInnerA == ActInner
ActMax == Ready("kamax") /\ Live # {} /\ \E s \in {Rnd(Live)}, n \in {Rnd(1..5)} : \E ps \in {RndSeq(n, Pts(E[s]))} : Look(<<St("kamax", <<s, n>> \o [i \in 1..n |-> Q(ps[i], 4)], <<Kx("m", "amax", E[s], ps)>>)>>)
ActRaw == Ready("kraw") /\ \E a \in {RndSeq(2, {-2, 1, 3})}, w \in {RndSeq(2, 1..9)}, c \in {RndSeq(2, -12..12)}, lb \in {Rnd(-16..8)}, d \in {Rnd(0..24)}, x \in {Rnd(-20..20)} :
   Look(<<St("kraw", <<a[1], Q(w[1], 2), Q(c[1], 4), a[2], Q(w[2], 2), Q(c[2], 4), Q(lb, 4), Q(lb + d, 4), Q(x, 4)>>, <<[k |-> "o", m |-> "kraw", s |-> a, w |-> w, c |-> c, b |-> <<lb, lb + d>>, x |-> x]>>)>>)

Init == o = Dead /\ E = [s \in 0..(NE - 1) |-> Dead] /\ hist = <<St("heap0", <<>>, <<>>)>> /\ left = MaxLen
Finish == left = 0 /\ hist' = Append(hist, St("heapcheck", <<>>, <<IntO("heap", 0)>>)) /\ left' = -1 /\ UNCHANGED <<o, E>>
Next == ActOpt \/ ActAd \/ ActBnd \/ ActNp \/ ActMk \/ ActMkA \/ ActZero \/ ActLin \/ ActAlloc \/ ActAdd \/ ActAddA \/ ActAddB \/ ActUpd \/ ActUpdA \/ ActCp \/ ActCpA \/ ActFree \/ ActSer \/ ActScale \/ ActFlip
        \/ ActAxpy \/ ActAxpyA \/ ActSetB \/ ActPg \/ ActPgA \/ ActSng \/ ActInt \/ ActInner \/ ActInnerA \/ ActMax \/ ActRaw \/ Finish
Emit == left = -1 => CSVWrite("%1$s", <<ToJson(hist)>>, OutFile)
TypeOK == left \in -1..MaxLen /\ \A s \in Live : Len(E[s].v) = Nk(E[s])
=============================================================================
