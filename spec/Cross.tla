-------------------------------- MODULE Cross --------------------------------
(* Cross approximation of a function that lies in the approximation space: the function is the interpolant of an integer
   table given by a train of small ranks. The client configures an approximation object (c3approx, or the cross arguments
   and index sets below it), runs it, possibly runs it again on another function or after re-initialising it.
   The specification says which right index sets a fresh run starts from, which ranks may come out, and hands the whole
   record of evaluated points to the trace specification CrossTrace.tla. *)
EXTENDS FT
VARIABLES C        \* the approximation objects: [api |-> ..., raw |-> ...]
xvars == <<vars, C>>

\* coordinates are exchanged in twelfths
Lb(k) == sp[k].x[1]
Ub(k) == sp[k].x[NN(sp[k])]
Lin12(k, r) == [i \in 1..r |-> IF r = 1 THEN 12 * Ub(k) ELSE 12 * Lb(k) + (12 * (Ub(k) - Lb(k)) * (i - 1)) \div (r - 1)]
Str12(s) == [i \in 1..Len(s) |-> ToString(s[i]) \o "/12"]
RndStart(k, m) == TLCEval([i \in 1..m |-> 3 * PtNum(sp[k], Rnd(PtsIn(sp[k])))])
\* right index set of core k (dimensions k+1..D), from the start values v of each dimension and the ranks
RECURSIVE Right0(_, _, _)
Right0(v, r, k) ==
  IF k = D - 1 THEN [j \in 1..r[D] |-> <<v[D][j]>>]
  ELSE LET old == Right0(v, r, k + 1) IN [j \in 1..r[k + 1] |-> <<v[k + 1][j]>> \o old[IF j <= Len(old) THEN j ELSE 1]]
Rights(v, r) == [k \in 1..(D - 1) |-> Right0(v, r, k)]
Fits(r) == \A k \in 1..D : r[k + 1] <= r[k] * n[k] /\ r[k] <= n[k] * r[k + 1]
\* ... and stays so whichever bonds are kicked
FitsUpTo(r, mr) == \A k \in 1..D : mr[k + 1] <= r[k] * n[k] /\ mr[k] <= n[k] * r[k + 1]

ROpt == [ct |-> Rnd({"1e-6", "1e-10", "1e-3"}), rt |-> Rnd({"1e-12", "1e-10", "1e-6"}), mi |-> Rnd({1, 2, 3, 4, 5}), kick |-> Rnd(1..3)]
\* the table
Funs == {f \in {[r |-> r, p |-> RndSeq(NPar(r), Rnd({-1..2, -2..2}))] : r \in {RndRanks(3)}} : TrainSc(f.r, f.p) <= LIM}
Val(f) == Train(n, f.r, Split(f.p, f.r))
XO(o, T, R0, r, mr, adapt, api, sc) ==
  <<[k |-> "rk", m |-> "xrk"], [k |-> "pts", m |-> "xpts"], [k |-> "ranks", m |-> "xranks", le |-> adapt = 1, v |-> IF adapt = 0 THEN r ELSE mr, den |-> 1, sc |-> 1],
    [k |-> "vals", m |-> "xvals", v |-> T, den |-> 1, sc |-> sc, n |-> n, R0 |-> R0, r |-> r, mr |-> mr, adapt |-> adapt, api |-> api,
     mi |-> o.mi, ct |-> o.ct, rt |-> o.rt, kick |-> o.kick]>>
XDo(c, steps) == C' = c /\ UNCHANGED <<S, A, sp>> /\ hist' = hist \o steps /\ left' = left - 1
None == <<>>

(* c3approx: create / initialise (uniform or per-bond ranks, given or default starts) / options / run *)
UniR == {r \in 1..4 : r <= n[1] /\ r <= n[D] /\ \A k \in 2..(D - 1) : r <= r * n[k]}
HetRanks == {r \in {RndRanks(4)} : Fits(r)}
MaxAll == Min2(n[1], n[D])
ApiRun(c0, o, f, w, adapt, pre) ==
  LET T == Val(f)
      mr == [k \in 1..(D + 1) |-> IF k = 1 \/ k = D + 1 THEN 1 ELSE Max2(c0.r[k], c0.mr)]
      st == St("xrun", <<0, w, adapt>>, XO(o, T, c0.R0, c0.r, mr, adapt, "api", TrainSc(f.r, f.p)))
      c1 == [c0 EXCEPT !.R0 = None, !.init = (adapt = 0)]
  IN (adapt = 1 => FitsUpTo(c0.r, mr)) /\ XDo([C EXCEPT !.api = c1], pre \o <<St("xfun", T, <<>>), St("xopt", <<o.ct, o.rt, o.mi, o.kick, c0.mr>>, <<>>), st, St("free", <<0>>, <<>>)>>)
New == <<St("xnew", <<Rnd({0, 1})>>, <<IntO("dim", D)>>)>>
ActApi == Ready("xapi") /\ \E f \in Funs, o \in {ROpt}, w \in {Rnd({"general", "general-vec"})}, adapt \in {Rnd({0, 0, 1})}, fresh \in {Rnd({0, 0, 1})}, how \in {Rnd({"same", "uni", "uni0", "het", "het0"})} :
   LET mk == IF C.api.live = 0 \/ fresh = 1 THEN New ELSE <<>>
       inited == mk = <<>> /\ C.api.init IN
   /\ MaxAbs(Val(f)) > 0
   /\ \/ how = "same" /\ inited /\ ApiRun(C.api, o, f, w, adapt, <<>>)
      \/ how \in {"uni", "uni0"} /\ \E r \in {Rnd(UniR)} : \E v \in {TLCEval([k \in 1..D |-> IF how = "uni" THEN RndStart(k, r) ELSE Lin12(k, r)])} :
           LET rr == [k \in 1..(D + 1) |-> IF k = 1 \/ k = D + 1 THEN 1 ELSE r] IN
           ApiRun([live |-> 1, init |-> TRUE, r |-> rr, mr |-> Rnd({r, MaxAll}), R0 |-> Rights(v, rr)], o, f, w, adapt,
                  mk \o <<St("xinit", IF how = "uni" THEN <<r, 1>> \o Str12(Flat(v, 1)) ELSE <<r, 0>>, <<>>)>>)
      \/ how \in {"het", "het0"} /\ \E r \in HetRanks : \E v \in {TLCEval([k \in 1..D |-> IF how = "het" THEN RndStart(k, Max2(r[k], r[k + 1])) ELSE Lin12(k, Max2(r[k], r[k + 1]))])} :
           ApiRun([live |-> 1, init |-> TRUE, r |-> r, mr |-> MaxSeq(r), R0 |-> Rights(v, r)], o, f, w, 0,
                  mk \o <<St("xinith", r \o (IF how = "het" THEN <<1>> \o Str12(Flat(v, 1)) ELSE <<0>>), <<>>)>>)

(* the cross arguments and index sets themselves; rank adaptation with one bound per bond *)
CapAt(k) == Min2(ProdSeq(SubSeq(n, 1, k - 1)), ProdSeq(SubSeq(n, k, D)))
RawRun(c0, o, f, w, adapt, mx, pre) ==
  LET T == Val(f)
      mr == [k \in 1..(D + 1) |-> IF k = 1 \/ k = D + 1 THEN 1 ELSE Max2(c0.r[k], mx[k])]
      st == St("xrrun", <<0, w, adapt>>, XO(o, T, c0.R0, c0.r, mr, adapt, "raw", TrainSc(f.r, f.p)))
  IN (adapt = 1 => FitsUpTo(c0.r, mr)) /\ XDo([C EXCEPT !.raw = [c0 EXCEPT !.R0 = None, !.init = (adapt = 0)]],
         pre \o <<St("xfun", T, <<>>), St("xropt", <<o.ct, o.rt, o.mi, o.kick>> \o SubSeq(mx, 2, D) \o <<Rnd({0, 1})>>, <<>>), st, St("free", <<0>>, <<>>)>>)
ActRaw == Ready("xraw") /\ \E f \in Funs, o \in {ROpt}, w \in {Rnd({"general", "general-vec"})}, adapt \in {Rnd({0, 1, 1})}, fresh \in {Rnd({0, 1})}, r \in HetRanks :
   \E mx \in {TLCEval([k \in 1..(D + 1) |-> Rnd(1..Min2(n[1], n[D]))])} : \E v \in {TLCEval([k \in 1..D |-> RndStart(k, Max2(r[k], r[k + 1]))])} :
   /\ MaxAbs(Val(f)) > 0
   /\ IF C.raw.live = 1 /\ C.raw.init /\ fresh = 0 THEN RawRun(C.raw, o, f, w, adapt, mx, <<>>)
      ELSE RawRun([live |-> 1, init |-> TRUE, r |-> r, R0 |-> Rights(v, r)], o, f, w, adapt, mx, <<St("xraw", r \o Str12(Flat(v, 1)), <<>>)>>)

Off == [live |-> 0, init |-> FALSE]
XInit == Init /\ C = [api |-> Off, raw |-> Off]
XNext == \/ (Setup /\ UNCHANGED C) \/ ActApi \/ ActRaw \/ (Finish /\ UNCHANGED C)
=============================================================================
