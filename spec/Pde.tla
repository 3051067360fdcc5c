--------------------------------- MODULE Pde ---------------------------------
(* Differential operators on function trains and the compressed (DMRG) ways of computing products and diffusion:
     exact_diffusion a f     = sum_k  D_k a * D_k f  +  a * D_k D_k f      (nodal products, nodal derivatives)
     exact_laplace f         = sum_k  D_k D_k f
     ..._periodic, Lp        = the same sum with the second derivative of the trigonometric interpolant
     exact_laplace_op f op   = sum_k  op_k(f)
     dmrg_product, dmrg_diffusion: within the truncation tolerance equal to the product / the exact diffusion whenever the
     directions offered by the guess can represent it (always, in two dimensions). *)
EXTENDS FT

(* spaces: half of them uniform and of one length in every dimension, where the periodic operators make sense *)
USpace == LET d == Rnd(2..MaxDim)  m == Rnd(3..MaxN)  h == Rnd({1, 2})
          IN TLCEval([k \in 1..d |-> LET x0 == Rnd(-3..3) IN [fam |-> "L", x |-> [i \in 1..m |-> x0 + h * (i - 1)]]])
PSetup == sp = <<>> /\ \E s \in {IF Rnd(1..2) = 1 THEN USpace ELSE Trim(RndSpace)} : SpSize(s) <= MaxSize /\ SetSpace(s)

SmallF(f) == f.sc <= 400 /\ f.den <= 24
SumF(seq) == FoldLeft(LAMBDA a, b : Lin(1, a, 1, b, One), Zero, seq)
\* room for a sum of functions
SumOk(seq) == LET L == FoldLeft(LAMBDA a, f : Lcm(a, f.den), 1, seq) IN L <= 1500 /\ SumSeq([i \in 1..Len(seq) |-> seq[i].sc * (L \div seq[i].den)]) <= LIM
TwoR(r) == [k \in 1..(D + 1) |-> IF k = 1 \/ k = D + 1 THEN 1 ELSE 2 * r[k]]
D2Small(f) == SmallF(f) /\ \A k \in 1..D : DerOk(f, k) /\ DerOk(Der(f, k), k)
DiffTerms(a, f) == TLCEval([i \in 1..(2 * D) |-> LET k == (i + 1) \div 2 IN IF i % 2 = 1 THEN Mult(Der(a, k), Der(f, k)) ELSE Mult(a, Der2(f, k, k))])
MulOk(a, f) == a.sc <= 6000 /\ f.sc <= 6000 /\ a.sc * f.sc <= LIM /\ a.den * f.den <= 1500
DiffOk(a, f) == \A k \in 1..D : MulOk(Der(a, k), Der(f, k)) /\ MulOk(a, Der2(f, k, k))
Diffu(a, f) == [SumF(DiffTerms(a, f)) EXCEPT !.r = TwoR(MulR(a.r, f.r))]
ActDiff == Ready("diff") /\ ~IsK /\ \E a \in {z \in Live : D2Small(S[z])} : \E f \in {Rnd({z \in Live : D2Small(S[z])})}, d \in {AnyS} : d # a /\ d # f /\ DiffOk(S[a], S[f]) /\ SumOk(DiffTerms(S[a], S[f])) /\
             Set(d, Diffu(S[a], S[f]), "ddiff", <<d, a, f>>, <<>>)
LapTerms(f) == TLCEval([k \in 1..D |-> Der2(f, k, k)])
ActLap == Ready("lap") /\ AllL /\ \E f \in {z \in Live : D2Ok(S[z])} : \E d \in {AnyS} : d # f /\ SumOk(LapTerms(S[f])) /\
             Set(d, [SumF(LapTerms(S[f])) EXCEPT !.r = TwoR(S[f].r)], "dlap", <<d, f, Rnd({0, 1})>>, <<>>)
(* trigonometric second derivatives: the expected values need real arithmetic, the result is not kept *)
AllUni == \A k \in 1..D : Uniform(sp[k])
SameN == \A k \in 1..D : n[k] = n[1] /\ Step(sp[k], 1) = Step(sp[1], 1)
Trig(what, f) == [k |-> what, m |-> "trig2", v |-> f.v, den |-> f.den, sc |-> f.sc, n |-> n, h |-> [k \in 1..D |-> Step(sp[k], 1)], dims |-> <<>>]
Drop1(d, f, st, x) == S' = [S EXCEPT ![d] = Dead] /\ UNCHANGED A /\ Do(<<st, St("dump", <<d>>, x), St("free", <<d>>, <<>>), Dump(f, S[f])>>)
ActLapP == Ready("lapp") /\ AllL /\ AllUni /\ Live # {} /\ \E f \in {LiveS}, d \in {AnyS}, w \in {IF SameN THEN Rnd({"per", "lp"}) ELSE "per"} : d # f /\
             Drop1(d, f, St("dlapp", <<w, d, f>>, <<>>), <<LeS("ranks", TwoR(S[f].r)), Trig("vals", S[f])>>)
ActHessP == Ready("hessp") /\ AllL /\ AllUni /\ Live # {} /\ \E f \in {LiveS}, a \in {Rnd(0..(NA - 1))} :
             /\ A' = [A EXCEPT ![a] = Dead] /\ UNCHANGED S
             /\ Do(<<St("ahessp", <<a, f>>, <<>>), St("adump", <<a>>, <<IntO("size", D)>> \o [k \in 1..D |-> [Trig(ToString(k - 1) \o ".vals", S[f]) EXCEPT !.dims = <<k - 1>>]]),
                     St("afree", <<a>>, <<>>), Dump(f, S[f])>>)
(* user-supplied operators, one per dimension: 0 none (identity), 1 derivative, 2 times three, 3 reversal of the nodal values *)
OpOk(f, k, o) == IF o = 1 THEN DerOk(f, k) ELSE f.sc <= 10000
Rev(f, k) == [f EXCEPT !.v = ModeK(f.v, n, k, [i \in 1..n[k] |-> Unit(n[k], n[k] - i)])]
OpF(f, k, o) == IF o = 1 THEN Der(f, k) ELSE IF o = 2 THEN ScaleF(f, 3, 1) ELSE IF o = 3 THEN Rev(f, k) ELSE f
RndOps == RndSeq(D, 0..3)
ActLapO == Ready("lapo") /\ ~IsK /\ \E f \in {z \in Live : SmallF(S[z])} : \E d \in {AnyS}, os \in {RndOps} : d # f /\ (\A k \in 1..D : OpOk(S[f], k, os[k])) /\
             LET t == TLCEval([k \in 1..D |-> OpF(NoP(S[f]), k, os[k])]) IN SumOk(t) /\ Set(d, [SumF(t) EXCEPT !.r = TwoR(S[f].r)], "dlapo", <<d, f>> \o os, <<>>)

(* DMRG *)
DM(k, f, g, eps, sw) == [k |-> k, m |-> "dmrg", v |-> f.v, den |-> f.den, sc |-> f.sc, w |-> IW, n |-> n, eps |-> eps, sw |-> sw, gv |-> g.v, gden |-> g.den]
\* the superblock bases must exist: no more columns than unknowns in any core, for the product and for the guess
Tall(r, f) == \A k \in 1..D : r[k] <= f * n[k] * r[k + 1] /\ r[k + 1] <= f * n[k] * r[k]
EpsD == IF D = 2 THEN Rnd({"1e-24", "1e-2", "1", "1e-6"}) ELSE "1e-24"
ActDprod == Ready("dprod") /\ ~IsK /\ Live # {} /\ \E a \in {LiveS}, b \in {LiveS}, g \in {LiveS}, d \in {AnyS}, how \in {Rnd({"null", "slot", "full"})}, sw \in {Rnd(1..3)}, e \in {EpsD} :
   d # a /\ d # b /\ d # g /\ S[a].sc * S[b].sc <= LIM /\
   LET f == Mult(S[a], S[b]) IN
   /\ Ok(f) /\ MaxAbs(f.v) > 0 /\ (how = "full" => (LinOk(1, f, 1, S[g]) /\ MaxSeq(AddR(f.r, S[g].r)) <= MaxRank))
   /\ LET z == IF how = "null" THEN S[a] ELSE IF how = "slot" THEN S[g] ELSE f IN
      /\ MaxAbs(z.v) > 0
      /\ Drop1(d, a, St("dprod", <<how, d, a, b, g, "1e-10", sw, e>>, <<>>), <<DM("vals", f, z, e, sw)>>)
ActDdiff == Ready("ddmrg") /\ ~IsK /\ \E a \in {z \in Live : D2Small(S[z])} : \E f \in {Rnd({z \in Live : D2Small(S[z])})}, d \in {AnyS}, sw \in {Rnd(1..3)}, e \in {EpsD} :
   d # a /\ d # f /\ DiffOk(S[a], S[f]) /\ SumOk(DiffTerms(S[a], S[f])) /\ MaxAbs(S[f].v) > 0 /\
   LET g == Diffu(S[a], S[f]) IN /\ MaxAbs(g.v) > 0
      /\ Drop1(d, f, St("ddmrg", <<d, a, f, "1e-10", sw, e>>, <<>>), <<DM("vals", g, S[f], e, sw)>>)

PNext == \/ PSetup \/ ActMk \/ ActMk \/ ActLinear \/ ActTab \/ ActConst \/ ActSum \/ ActProd \/ ActScale \/ ActRound \/ ActCopy
         \/ ActDiff \/ ActLap \/ ActLapP \/ ActHessP \/ ActLapO \/ ActDprod \/ ActDdiff \/ Finish
=============================================================================
