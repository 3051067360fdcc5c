------------------------------ MODULE CrossTrace -----------------------------
(* Which sequences of function evaluations a cross approximation may make. A recorded run is cut, by the ranks in force,
   into visits of one core each; a visit is the set of evaluated points, coordinates coded as integers (-1: outside the
   domain). The machine keeps the left and right index sets: a visit to core k must evaluate exactly the fibers
   Left[k] x nodes x Right[k]; on the way right the next left set is nested in Left[k] x dimension k, on the way back
   the previous right set is nested in dimension k x Right[k]. Sweeps are complete, at most `mi` iterations are made per
   rank setting, and the ranks move from one setting to the next only by the documented kick, only while the rounded rank
   is still as large as the rank, never above the bound. *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
CONSTANTS TraceFile
Traces == JsonDeserialize(TraceFile)
VARIABLES tr, i, pc, L, R
vars == <<tr, i, pc, L, R>>
T == Traces[tr]
D == T.d
Range(s) == {s[j] : j \in DOMAIN s}
None == {}   \* index sets are never empty

\* visit number i (1-based) within its segment: position in the iteration
Pos(v) == (v.no - 1) % (2 * D)
CoreOf(v) == IF Pos(v) < D THEN Pos(v) + 1 ELSE 2 * D - Pos(v)
Sub(p, a, b) == SubSeq(p, a, b)
Lefts(v) == LET k == CoreOf(v) IN {Sub(p, 1, k - 1) : p \in Range(v.pts)}
Rights(v) == LET k == CoreOf(v) IN {Sub(p, k + 1, D) : p \in Range(v.pts)}
Mids(v) == LET k == CoreOf(v) IN {p[k] : p \in Range(v.pts)}
Product(v) == /\ Range(v.pts) = {l \o <<x>> \o r : l \in Lefts(v), x \in Mids(v), r \in Rights(v)}
              /\ Mids(v) = Range(T.nodes[CoreOf(v)])
              /\ Cardinality(Lefts(v)) <= v.r[CoreOf(v)] /\ Cardinality(Rights(v)) <= v.r[CoreOf(v) + 1]
              /\ \A p \in Range(v.pts) : \A j \in 1..D : p[j] >= 0

Init == tr \in 1..Len(Traces) /\ i = 0 /\ pc = "run" /\ L = [k \in 1..10 |-> None]
        /\ R = [k \in 1..10 |-> IF k < Traces[tr].d /\ Traces[tr].R0 # <<>> THEN Range(Traces[tr].R0[k]) ELSE None]
\* ranks of consecutive settings
Grow(a, b) == /\ \A k \in 1..(D + 1) : b[k] = a[k] \/ (b[k] = a[k] + (IF a[k] + T.kick <= T.mr[k] THEN T.kick ELSE T.mr[k] - a[k]) /\ a[k] < T.mr[k])
              /\ a # b
Next1 == /\ pc = "run" /\ i < Len(T.v)
         /\ LET v == T.v[i + 1]  k == CoreOf(v)  right == Pos(v) < D
                l == Lefts(v)  r == Rights(v) IN
            /\ Product(v)
            \* a new rank setting starts a new iteration, after complete sweeps
            /\ IF i = 0 THEN v.no = 1 /\ v.seg = 1
               ELSE LET u == T.v[i] IN IF v.seg = u.seg THEN v.no = u.no + 1 /\ v.r = u.r ELSE v.no = 1 /\ u.no % (2 * D) = 0 /\ v.seg = u.seg + 1 /\ Grow(u.r, v.r)
            /\ v.no <= 2 * D * T.mi
            /\ IF R[k] = None THEN TRUE ELSE r = R[k]
            /\ IF right THEN IF k = 1 THEN TRUE ELSE \A z \in l : Sub(z, 1, k - 2) \in L[k - 1]
               ELSE IF k = D THEN TRUE ELSE \A z \in r : Sub(z, 2, D - k) \in R[k + 1]
            /\ (~right => l = L[k])
            /\ L' = [L EXCEPT ![k] = l]
            \* going left, the right set of the core before is still open until it is visited
            /\ R' = IF right THEN [R EXCEPT ![k] = r] ELSE [R EXCEPT ![k] = r, ![IF k > 1 THEN k - 1 ELSE 10] = None]
            \* the last core on the way right is where the way back starts
         /\ i' = i + 1 /\ UNCHANGED <<tr, pc>>
End == /\ pc = "run" /\ i = Len(T.v) /\ i > 0
       /\ T.v[i].no % (2 * D) = 0
       \* adaptation ends only when no bond can or needs to grow
       /\ (T.adapt = 1 => \A k \in 2..D : T.got[k] < T.v[i].r[k] \/ T.v[i].r[k] >= T.mr[k])
       /\ (T.exact = 1 => \A j \in 1..Len(T.v) : T.v[j].no <= 6 * D)
       /\ pc' = "done" /\ UNCHANGED <<tr, i, L, R>>
Next == Next1 \/ End
Conforms == ~(pc # "done" /\ ~ENABLED Next) \/ (PrintT(<<"REJECTED", tr, i, IF i < Len(T.v) THEN T.v[i + 1].no ELSE -1, T.got>>) /\ FALSE)
=============================================================================
