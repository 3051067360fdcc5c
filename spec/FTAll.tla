-------------------------------- MODULE FTAll --------------------------------
(* The same client machine, explored exhaustively: three slots, one array, a small catalogue of trains and scalars, every
   choice of operands and result slot (a result may replace one of its own operands' neighbours, an object may be used
   again after having been an operand any number of times). TLC enumerates every history of MaxLen calls breadth first;
   the whole client state is observed after every call. *)
EXTENDS FT
\* how many of the catalogue spaces; 1..4
CONSTANTS SpaceNo

Cat == << << [fam |-> "L", x |-> <<0, 1, 3>>], [fam |-> "C", x |-> <<-1, 1>>] >>,
          << [fam |-> "L", x |-> <<0, 2>>], [fam |-> "L", x |-> <<-2, -1, 1>>], [fam |-> "L", x |-> <<0, 1>>] >>,
          << [fam |-> "K", x |-> <<0, 2>>, sc |-> 1, w |-> 3, b |-> 1], [fam |-> "K", x |-> <<-1, 0, 1>>, sc |-> 2, w |-> 2, b |-> 0] >>,
          << [fam |-> "C", x |-> <<0, 1, 2>>], [fam |-> "L", x |-> <<1, 2>>], [fam |-> "C", x |-> <<0, 3>>] >> >>
Sl == 0..2
LiveX == Live
\* two fixed trains of the space: ranks 2 and ranks 1, distinct small integer parameters
Pr(m, a, b) == [i \in 1..m |-> ((a * i + b) % 5) - 2]
R2 == [k \in 1..(D + 1) |-> IF k = 1 \/ k = D + 1 THEN 1 ELSE 2]
MkX(s, r, p) == LET f == Mk(Train(n, r, Split(p, r)), 1, TrainSc(r, p), r) @@ [p |-> p] IN Set(s, f, "mk", <<s>> \o r \o p, <<IntO("used", Len(p))>>)
SetupX == sp = <<>> /\ SetSpace(Cat[SpaceNo])
\* the first two calls always build the two trains
Built == left <= MaxLen - 2
Build == /\ sp # <<>> /\ ~Built
         /\ IF left = MaxLen THEN MkX(0, R2, Pr(NPar(R2), 3, 1)) ELSE MkX(1, One, Pr(NPar(One), 2, 2))
Rdy == sp # <<>> /\ Built /\ left > 0

XCopy == \E s \in LiveX, d \in Sl : d # s /\ Set(d, S[s], "cp", <<d, s>>, <<>>)
XFree == \E s \in LiveX : S' = [S EXCEPT ![s] = Dead] /\ UNCHANGED A /\ Do(<<St("free", <<s>>, <<>>)>>)
XSum == \E a \in LiveX, b \in LiveX, d \in Sl : d # a /\ d # b /\ LinOk(1, S[a], 1, S[b]) /\ Set(d, Lin(1, S[a], 1, S[b], AddR(S[a].r, S[b].r)), "sum", <<d, a, b>>, <<>>)
XProd == ~IsK /\ \E a \in LiveX, b \in LiveX, d \in Sl : d # a /\ d # b /\ S[a].sc * S[b].sc <= LIM /\ Set(d, Mult(S[a], S[b]), "prod", <<d, a, b>>, <<>>)
XScale == \E a \in LiveX, p \in {-2, 0} : S[a].sc <= 8000 /\ Set(a, ScaleF(S[a], p, 1), "scale", <<a, p>>, <<>>)
XAxpy == \E x \in LiveX, y \in LiveX, e \in (IF IsK THEN {"0"} ELSE {"0", "1e-12"}) : x # y /\ LinOk(2, S[x], 1, S[y]) /\
            Set(y, Rounded(Lin(2, S[x], 1, S[y], AddR(S[x].r, S[y].r)), e), "axpy", <<2, x, y, e>>, <<>>)
XRound == ~IsK /\ \E s \in LiveX, d \in Sl : d # s /\ Set(d, MkE(S[s].v, S[s].den, S[s].sc, Cap(S[s]), S[s].ex), "round", <<d, s, "1e-12">>, <<>>)
XSer == \E s \in LiveX, d \in Sl : d # s /\ Set(d, S[s], "ser", <<d, s>>, <<IntO("wrote", 0), IntO("read", 0), IntO("size2", 0), IntO("same", 0)>>)
XUpd == \E s \in {z \in LiveX : "p" \in DOMAIN S[z]} : LET p == Pr(Len(S[s].p), 4, left)  r == S[s].r
            IN Set(s, Mk(Train(n, r, Split(p, r)), 1, TrainSc(r, p), r) @@ [p |-> p], "upd", <<s>> \o p, <<IntO("nparams", Len(p)), IntO("used", Len(p))>>)
XArr == \E a \in LiveX, b \in LiveX : SetA(0, <<S[a], S[b]>>, "amk", <<0, 2, a, b>>, <<>>)
XAget == 0 \in ALive /\ \E d \in Sl : Set(d, A[0].e[1], "aget", <<d, 0, 0>>, <<>>)
XAfree == 0 \in ALive /\ A' = [A EXCEPT ![0] = Dead] /\ UNCHANGED S /\ Do(<<St("afree", <<0>>, <<>>)>>)
XVaxpyA == 0 \in ALive /\ Len(A[0].e) = 2 /\ \E z \in LiveX :
           LET L == FoldLeft(LAMBDA q, f : Lcm(q, f.den), S[z].den, A[0].e) IN
           /\ L <= 500 /\ S[z].sc * (L \div S[z].den) * 2 + 6 * SumSc(A[0].e, L) <= LIM
           /\ Set(z, FoldAx(ScaleF(S[z], -1, 1), A[0].e, 1, <<2, -1>>, 1), "vaxpya", <<2, 1, 0, 1, 1, 2, -1, -1, z, "0">>, <<>>)
XGrad == ~IsK /\ \E s \in {z \in LiveX : AllDer(S[z])} : SetA(0, TLCEval([k \in 1..D |-> Der(S[s], k)]), "agrad", <<0, s>>, <<>>)
P0 == [k \in 1..D |-> [i |-> 1, w |-> 1]]
XEv == \E s \in {z \in LiveX : EvOk(S[z])} : Look("ev", <<s>> \o PS(P0), <<EvObs("v", S[s], <<P0>>)>>)
XInt == \E s \in {z \in LiveX : IsK \/ IntOk(S[z])} : Look("int", <<s>>, IF IsK THEN <<Kern("v", "int", S[s], <<>>)>> ELSE <<Eq("v", <<Eval(S[s].v, n, IW)>>, S[s].den * Pow(2, D), S[s].sc * WSum)>>)
XNext == \/ SetupX \/ Build
         \/ (Rdy /\ (XCopy \/ XFree \/ XSum \/ XProd \/ XScale \/ XAxpy \/ XRound \/ XSer \/ XUpd \/ XArr \/ XAget \/ XAfree \/ XVaxpyA \/ XGrad \/ XEv \/ XInt))
         \/ Finish
=============================================================================
