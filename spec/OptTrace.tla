------------------------------ MODULE OptTrace -------------------------------
(* Which sequences of accepted iterates an optimiser may produce. Every recorded minimisation of the real code is turned
   into a trace of facts about its stored iterates -- inside the box, stored value = objective there, not above the previous
   value, relative change below the tolerance, step below the tolerance, on the boundary, gradient below the tolerance,
   each "y", "n" or "u" (not observable or within rounding of the threshold) -- and must be a behaviour of this machine:
   iterate until the documented stopping rule fires, report the reason that fired, never iterate past it.
   Stochastic runs are traces of sample indices: per epoch a permutation prefix for training, then every sample once. *)
EXTENDS Integers, Sequences, Json, TLC, FiniteSets
CONSTANTS TraceFile
Traces == JsonDeserialize(TraceFile)
VARIABLES tr, i, pc
vars == <<tr, i, pc>>
T == Traces[tr]
N == Len(T.ev)
May(f) == f # "n"     \* the fact is not refuted
Mayn(f) == f # "y"    \* its negation is not refuted

\* stopping rule after accepted step k (k >= 2; iteration number k - 2), as the set of verdicts the facts allow
Reasons(e, k) ==
  LET early == T.alg = "bfgs" /\ k - 2 <= 3       \* small steps do not stop the first iterations of BFGS
      x(onb) == IF onb THEN May(e.xt) /\ Mayn(e.ft) ELSE May(e.xt) /\ Mayn(e.ft) /\ Mayn(e.gt) /\ ~early
  IN (IF May(e.onb) THEN (IF May(e.ft) THEN {1} ELSE {}) \cup (IF x(TRUE) THEN {2} ELSE {}) \cup (IF Mayn(e.ft) /\ Mayn(e.xt) THEN {0} ELSE {}) ELSE {})
     \cup (IF Mayn(e.onb) THEN (IF May(e.gt) THEN {3} ELSE {}) \cup (IF May(e.ft) /\ Mayn(e.gt) THEN {1} ELSE {}) \cup (IF x(FALSE) THEN {2} ELSE {})
                              \cup (IF Mayn(e.ft) /\ Mayn(e.gt) /\ (Mayn(e.xt) \/ early) THEN {0} ELSE {}) ELSE {})
Cap == IF T.alg = "grad" THEN T.mi + 1 ELSE T.mi + 2     \* number of stored iterates at the iteration limit
Sound(e) == May(e.feas) /\ May(e.same) /\ May(e.mono)

Init == tr \in 1..Len(Traces) /\ i = 0 /\ pc = IF Traces[tr].kind = "det" THEN "run" ELSE "sgd"
Accept == pc = "run" /\ i < N /\ Sound(T.ev[i + 1]) /\ (i >= 2 => 0 \in Reasons(T.ev[i], i)) /\ N <= Cap
          /\ i' = i + 1 /\ pc' = "run" /\ UNCHANGED tr
\* gradient descent answers at once when it starts at a point of small gradient
Stop == pc = "run" /\ i = N /\ UNCHANGED <<tr, i>>
        /\ \/ T.ret = -1 /\ N = Cap
           \/ T.ret \in {1, 2, 3} /\ N >= 2 /\ T.ret \in Reasons(T.ev[N], N) /\ ~(N = Cap)
           \/ T.ret = 3 /\ N = 1 /\ T.alg = "grad" /\ May(T.ev[1].gt)
        /\ pc' = "done"
\* stochastic: T.ev is the list of [s |-> sample, g |-> with gradient]; T.n samples, T.m of them for training
Blk(a, m) == {T.ev[j].s : j \in (a + 1)..(a + m)}
Eval == pc = "sgd" /\ i + T.n <= N /\ (\A j \in (i + 1)..(i + T.n) : ~T.ev[j].g) /\ Blk(i, T.n) = 0..(T.n - 1) /\ i' = i + T.n /\ UNCHANGED <<tr, pc>>
Epoch == pc = "sgd" /\ i + T.m + T.n <= N /\ (\A j \in (i + 1)..(i + T.m) : T.ev[j].g) /\ Cardinality(Blk(i, T.m)) = T.m
         /\ (\A j \in (i + T.m + 1)..(i + T.m + T.n) : ~T.ev[j].g) /\ Blk(i + T.m, T.n) = 0..(T.n - 1)
         \* the training error is averaged over the samples trained on
         /\ Blk(i + T.m, T.m) = Blk(i, T.m)
         /\ i' = i + T.m + T.n /\ UNCHANGED <<tr, pc>>
EndS == pc = "sgd" /\ i = N /\ T.epochs * (T.m + T.n) + (IF T.sf = 1 THEN T.n ELSE 0) = N /\ pc' = "done" /\ UNCHANGED <<tr, i>>
Next == Accept \/ Stop \/ Eval \/ Epoch \/ EndS
\* a trace the machine cannot finish
Conforms == ~(pc # "done" /\ ~ENABLED Next) \/ (PrintT(<<"REJECTED", tr, i, IF i < N THEN T.ev[i + 1] ELSE T.ret>>) /\ FALSE)
=============================================================================
