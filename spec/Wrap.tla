-------------------------------- MODULE Wrap --------------------------------
(* The containers around function evaluation, as one exact state machine:
   W  function wrappers: kind, the function(s) behind it, which output is selected, and the fiber mode (a list of points
      with one free coordinate, one of which is current);
   X  index sets: sequences of tuples, built by appending, nesting to the left or right, copying, merging;
   M  evaluation memos: each distinct point is evaluated once; every request returns the function's value;
   H  a hash table from keys to numbers (first value wins), L a pair list, V a list of stored values (newest first).
   Coordinates are quarters. Function number b at (x_1, ..., x_d) is ((3 b + x_1) 3 + x_2) 3 + ... *)
EXTENDS Tensor, FiniteSets, Json, CSV, IOUtils, TLCExt
CONSTANTS Ops, MaxLen, OutFile
VARIABLES W, X, M, H, L, V, hist, left
vars == <<W, X, M, H, L, V, hist, left>>
NW == 2
NX == 4
NM == 2
Dead == [live |-> FALSE]
Rnd(set) == IF left < -1 THEN 0 ELSE RandomElement(set)
RndSeq(m, set) == TLCEval([i \in 1..m |-> IF left < -1 THEN 0 ELSE RandomElement(set)])
Ready(o) == o \in Ops /\ left > 0
Eq(k, v, den) == [k |-> k, m |-> "eq", v |-> v, den |-> den, sc |-> 1]
Sz(lo, hi, big) == IF Rnd(1..6) = 1 THEN Rnd(lo..big) ELSE Rnd(lo..hi)
IntO(k, v) == [k |-> k, m |-> "int", v |-> <<v>>]
St(op, a, x) == [op |-> op, a |-> a, x |-> x]
RECURSIVE Cat(_)
Cat(t) == IF t = <<>> THEN <<>> ELSE Head(t) \o Cat(Tail(t))
Do(steps) == hist' = hist \o steps /\ left' = left - 1
Q4(s) == [i \in 1..Len(s) |-> ToString(s[i]) \o "/4"]

(******************************** wrappers **********************************)
Types == {"general", "general-index", "general-vec", "python", "mo-vec", "array-vec"}
Code(t) == CASE t = "general" -> 0 [] t = "general-index" -> 1 [] t \in {"general-vec", "python"} -> 2 [] t = "mo-vec" -> 3 [] OTHER -> 4
Isx(w) == w.t = "general-index"
Cof(w) == IF Isx(w) THEN {0, 4, 8, 12, 28} ELSE -7..7
Show(w, s) == IF Isx(w) THEN [i \in 1..Len(s) |-> s[i] \div 4] ELSE Q4(s)
RECURSIVE FVal(_, _)
FVal(v, x) == IF x = <<>> THEN v ELSE FVal(3 * v + Head(x), Tail(x))
Base(w) == IF w.t = "array-vec" THEN w.b[w.which + 1] ELSE IF w.t = "mo-vec" THEN w.b[1] + 10 * w.which ELSE w.b[1]
Ret(w) == IF w.t = "array-vec" THEN w.b[w.which + 1] % 3 ELSE IF w.t = "mo-vec" THEN w.which ELSE IF Code(w.t) = 2 THEN w.b[1] % 3 ELSE 0
LiveW == {s \in 0..(NW - 1) : W[s].live}
Free == {s \in 0..(NW - 1) : W[s].live => W[s].fib = <<>>}      \* not in fiber mode
WSet(s, w, steps) == W' = [W EXCEPT ![s] = w] /\ UNCHANGED <<X, M, H, L, V>> /\ Do(steps)
ActWNew == Ready("wnew") /\ Free # {} /\ \E s \in {Rnd(Free)}, t \in {Rnd(Types)}, d \in {Sz(1, 5, 11)}, nf \in {Sz(1, 4, 12)} :
   LET m == IF t = "array-vec" THEN nf ELSE 1 IN \E b \in {RndSeq(m, 0..9)} :
   WSet(s, [live |-> TRUE, t |-> t, d |-> d, b |-> b, nf |-> IF t = "mo-vec" THEN 4 ELSE m, which |-> 0, fib |-> <<>>, dim |-> 0, on |-> 0],
        <<St("wnew", <<s, t, d, m>> \o b, <<IntO("d", d), IntO("type", Code(t)), IntO("which", 0)>>)>>)
ActWSet == Ready("wset") /\ LiveW # {} /\ \E s \in {Rnd(LiveW)} : \E i \in {Rnd(1..Len(W[s].b))}, b \in {Rnd(0..9)} :
   WSet(s, [W[s] EXCEPT !.b[i] = b], <<St("wset", <<s, i - 1, b>>, <<>>)>>)
ActWWhich == Ready("wwhich") /\ LiveW # {} /\ \E s \in {Rnd(LiveW)} : W[s].nf > 1 /\ \E j \in {Rnd(0..(W[s].nf - 1))} :
   WSet(s, [W[s] EXCEPT !.which = j], <<St("wwhich", <<s, j>>, <<IntO("which", j)>>)>>)
\* the points a request stands for
Pts(w, n, m, v) == [i \in 1..n |-> IF w.fib = <<>> THEN SubSeq(v, (i - 1) * m + 1, i * m) ELSE LET f == w.fib[w.on] IN [k \in 1..w.d |-> IF k = w.dim THEN v[i] ELSE f[k]]]
WEval(s, w, direct, n, m, v) == St("weval", <<s, direct, n, m>> \o Show(w, v),
   <<Eq("vals", [i \in 1..n |-> FVal(4 * Base(w), Pts(w, n, m, v)[i])], 4), IntO("ret", Ret(w)), IntO("npts", n)>>)
ActWEval == Ready("weval") /\ LiveW # {} /\ \E s \in {Rnd(LiveW)} : LET w == W[s]  fb == w.fib # <<>> IN
   (fb => w.on > 0) /\ \E n \in {Sz(1, 4, 40)} : \E v \in {RndSeq(n * (IF fb THEN 1 ELSE w.d), Cof(w))} :
   WSet(s, w, <<WEval(s, w, IF fb THEN Rnd({0, 1}) ELSE 0, n, IF fb THEN 1 ELSE w.d, v)>>)
AddF(s, w, i, f) == St("wfadd", <<s, i - 1, w.dim - 1>> \o Show(w, SubSeq(f, 1, w.dim - 1)) \o Show(w, SubSeq(f, w.dim + 1, w.d)), <<>>)
ActWFib == Ready("wfib") /\ LiveW # {} /\ \E s \in {Rnd(LiveW)} : LET w0 == W[s] IN w0.fib = <<>> /\ \E k \in {Rnd(1..w0.d)}, n \in {Sz(1, 3, 15)} :
   LET w1 == [w0 EXCEPT !.dim = k] IN \E p \in {RndSeq(n * w0.d, Cof(w0))}, on \in {Rnd(1..n)} :
   LET f == [i \in 1..n |-> SubSeq(p, (i - 1) * w0.d + 1, i * w0.d)] IN
   WSet(s, [w1 EXCEPT !.fib = f, !.on = on], <<St("wfinit", <<s, k - 1, n>>, <<>>)>> \o [i \in 1..n |-> AddF(s, w1, i, f[i])] \o <<St("wfon", <<s, on - 1>>, <<>>)>>)
ActWOn == Ready("wfib") /\ LiveW # {} /\ \E s \in {Rnd(LiveW)} : W[s].fib # <<>> /\ \E on \in {Rnd(1..Len(W[s].fib))} : WSet(s, [W[s] EXCEPT !.on = on], <<St("wfon", <<s, on - 1>>, <<>>)>>)
ActWReadd == Ready("wfib") /\ LiveW # {} /\ \E s \in {Rnd(LiveW)} : LET w == W[s] IN w.fib # <<>> /\ \E i \in {Rnd(1..Len(w.fib))}, p \in {RndSeq(w.d, Cof(w))} :
   WSet(s, [w EXCEPT !.fib[i] = p], <<AddF(s, w, i, p)>>)
ActWClean == Ready("wfib") /\ LiveW # {} /\ \E s \in {Rnd(LiveW)} : W[s].fib # <<>> /\ WSet(s, [W[s] EXCEPT !.fib = <<>>, !.on = 0], <<St("wfclean", <<s>>, <<>>)>>)
ActWFree == Ready("wfree") /\ LiveW \cap Free # {} /\ \E s \in {Rnd(LiveW \cap Free)} : WSet(s, Dead, <<St("wfree", <<s>>, <<>>)>>)

(******************************** index sets ********************************)
LiveX == {s \in 0..(NX - 1) : X[s].live}
Full == {s \in LiveX : Len(X[s].q) > 0}
ECo(t) == IF t = "z" THEN {0, 4, 8, 12, 28} ELSE -7..7
EShow(t, s) == IF t = "z" THEN [i \in 1..Len(s) |-> s[i] \div 4] ELSE Q4(s)
IDump(s, x) == St("idump", <<s>>, <<IntO("d", x.d), IntO("n", Len(x.q)), Eq("x", Cat(x.q), 4)>>)
RECURSIVE IDumpAll(_, _)
IDumpAll(set, XX) == IF set = {} THEN <<>> ELSE LET s == CHOOSE z \in set : TRUE IN <<IDump(s, XX[s])>> \o IDumpAll(set \ {s}, XX)
XSet(s, x, steps) == X' = [X EXCEPT ![s] = x] /\ UNCHANGED <<W, M, H, L, V>> /\ Do(steps \o IDumpAll(LiveX \cup {s}, [X EXCEPT ![s] = x]))
XLook(steps) == UNCHANGED <<W, X, M, H, L, V>> /\ Do(steps)
Idx(t, d, q) == [live |-> TRUE, t |-> t, d |-> d, q |-> q]
Nest(lft, old, new) == IF lft = 1 THEN new \o old ELSE old \o new
ActINew == Ready("inew") /\ \E s \in {Rnd(0..(NX - 1))}, t \in {Rnd({"d", "d", "d", "z", "f"})}, d \in {Sz(1, 3, 6)}, n \in {Sz(0, 3, 14)} : \E v \in {RndSeq(n * d, ECo(t))} :
   LET q == [i \in 1..n |-> SubSeq(v, (i - 1) * d + 1, i * d)] IN
   XSet(s, Idx(t, d, q), <<St("inew", <<s, t, d>>, <<>>)>> \o [i \in 1..n |-> St("iadd", <<s>> \o EShow(t, q[i]), <<>>)])
ActIAddN == Ready("iaddn") /\ LiveX # {} /\ \E s \in {Rnd(LiveX)} : LET x == X[s] IN Len(x.q) < 24 /\ \E o \in {Rnd(0..x.d)}, lft \in {Rnd({0, 1})}, v \in {RndSeq(x.d, ECo(x.t))} :
   XSet(s, [x EXCEPT !.q = Append(@, Nest(lft, SubSeq(v, 1, o), SubSeq(v, o + 1, x.d)))], <<St("iaddn", <<s, lft, o>> \o EShow(x.t, v), <<>>)>>)
\* the three orders of nesting: 0 new value outermost, 1 old index outermost, 2 in step (old index 1 once they run out)
Nested(meth, lft, sz, opts, q) == LET no == Len(opts)  n == Len(q) IN [i \in 1..sz |->
   CASE meth = 1 -> Nest(lft, q[((i - 1) \div no) + 1], <<opts[((i - 1) % no) + 1]>>)
     [] meth = 0 -> Nest(lft, q[((i - 1) % n) + 1], <<opts[((i - 1) \div n) + 1]>>)
     [] OTHER -> Nest(lft, q[IF i <= n THEN i ELSE 1], <<opts[i]>>)]
ActINest == Ready("inest") /\ Full # {} /\ \E s \in {Rnd(0..(NX - 1))}, a \in {Rnd(Full)}, meth \in {Rnd(0..2)}, lft \in {Rnd({0, 1})}, no \in {Sz(1, 4, 9)} :
   LET x == X[a]  mx == IF meth = 2 THEN no ELSE Min2(40, no * Len(x.q)) IN s # a /\ x.d < 8 /\ \E sz \in {Rnd(1..mx)}, o \in {RndSeq(no, ECo(x.t))} :
   XSet(s, Idx(x.t, x.d + 1, Nested(meth, lft, sz, o, x.q)), <<St("inest", <<s, a, meth, lft, sz, no>> \o EShow(x.t, o), <<>>)>>)
ActINestI == Ready("inesti") /\ Full # {} /\ \E s \in {Rnd(0..(NX - 1))}, a \in {Rnd(Full)}, lft \in {Rnd({0, 1})}, n \in {Sz(1, 5, 15)} :
   LET x == X[a] IN s # a /\ x.d < 8 /\ \E ind \in {RndSeq(n, 1..Len(x.q))}, o \in {RndSeq(n, ECo(x.t))} :
   XSet(s, Idx(x.t, x.d + 1, [i \in 1..n |-> Nest(lft, x.q[ind[i]], <<o[i]>>)]), <<St("inesti", <<s, a, lft, n>> \o [i \in 1..n |-> ind[i] - 1] \o EShow(x.t, o), <<>>)>>)
ActICp == Ready("icp") /\ LiveX # {} /\ \E s \in {Rnd(0..(NX - 1))}, a \in {Rnd(LiveX)} : s # a /\ XSet(s, X[a], <<St("icp", <<s, a>>, <<>>)>>)
ActILast == Ready("ilast") /\ Full # {} /\ \E s \in {Rnd(Full)}, n \in {Sz(0, 3, 9)} : LET x == X[s] IN Len(x.q) < 24 /\
   XSet(s, [x EXCEPT !.q = @ \o [i \in 1..n |-> x.q[Len(x.q)]]], <<St("ilast", <<s, n>>, <<>>)>>)
Dbl == {s \in Full : X[s].t = "d"}
ActIMerge == Ready("imerge") /\ Dbl # {} /\ \E a \in {Rnd(Dbl)}, b \in {Rnd(Dbl)}, how \in {Rnd({"both", "both", "left", "right", "pair", "pair"})} :
   LET p == X[a].q  r == X[b].q  np == Len(p)  nr == Len(r) IN
   CASE how = "both"  -> XLook(<<St("imerge", <<1, a, b>>, <<Eq("v", Cat([i \in 1..(np * nr) |-> p[((i - 1) % np) + 1] \o <<0>> \o r[((i - 1) \div np) + 1]]), 4)>>)>>)
     [] how = "left"  -> XLook(<<St("imerge", <<1, a, -1>>, <<Eq("v", Cat([i \in 1..np |-> p[i] \o <<0>>]), 4)>>)>>)
     [] how = "right" -> XLook(<<St("imerge", <<1, -1, b>>, <<Eq("v", Cat([i \in 1..nr |-> <<0>> \o r[i]]), 4)>>)>>)
     [] OTHER         -> np = nr /\ XLook(<<St("imerge", <<0, a, b>>, <<Eq("v", Cat([i \in 1..np |-> p[i] \o r[i]]), 4)>>)>>)
\* the index sets a cross approximation starts from; sizes are ranks 1, r_2, ..., r_d, 1
RECURSIVE RSet(_, _, _, _)
RSet(v, sz, d, k) == IF k = d - 1 THEN [j \in 1..sz[d] |-> <<v[d][j]>>] ELSE Nested(2, 1, sz[k + 1], SubSeq(v[k + 1], 1, sz[k + 1]), RSet(v, sz, d, k + 1))
RECURSIVE LSet(_, _, _)
LSet(v, sz, k) == IF k = 2 THEN [j \in 1..sz[2] |-> <<v[1][j]>>] ELSE Nested(2, 0, sz[k], SubSeq(v[k - 1], 1, sz[k]), LSet(v, sz, k - 1))
Sizes(q, d) == <<4 * d, 4 * Len(q)>> \o Cat(q)
ActIArr == Ready("iarr") /\ \E d \in {Sz(2, 5, 8)}, nul \in {Rnd({0, 0, 0, 0, 1})}, rev \in {Rnd({0, 1})} : \E r \in {RndSeq(d - 1, 1..Sz(4, 4, 10))} :
   LET sz == <<1>> \o r \o <<1>>  m == MaxSeq(sz) IN \E p \in {RndSeq(d * m, -7..7)} :
   LET v == [k \in 1..d |-> SubSeq(p, (k - 1) * m + 1, k * m)]
       none == <<-4000>>
       e == IF nul = 1 THEN Cat([k \in 1..d |-> none]) ELSE IF rev = 1 THEN Cat([k \in 1..d |-> IF k = d THEN none ELSE Sizes(RSet(v, sz, d, k), d - k)])
            ELSE Cat([k \in 1..d |-> IF k = 1 THEN none ELSE Sizes(LSet(v, sz, k), k - 1)])
   IN XLook(<<St("iarr", <<d, nul, rev>> \o sz \o Q4(p), <<Eq("sets", e, 4)>>)>>)

(***************************** evaluation memo ******************************)
LiveM == {s \in 0..(NM - 1) : M[s].live}
MSet(s, m, steps) == M' = [M EXCEPT ![s] = m] /\ UNCHANGED <<W, X, H, L, V>> /\ Do(steps)
ActMNew == Ready("mnew") /\ \E s \in {Rnd(0..(NM - 1))}, d \in {Rnd(1..3)}, t \in {Rnd({1, 2, 7, 1000})}, b0 \in {Rnd(0..9)}, o \in {Rnd({0, 0, 1, -1})}, e \in {Rnd({-2, -2, -60, 40})} : LET b == IF e = -2 THEN b0 ELSE 0 IN
   MSet(s, [live |-> TRUE, d |-> d, b |-> b, o |-> o * 67108864, e |-> e, seen |-> {}], <<St("mnew", <<s, d, t, b>>, <<>>)>>)
ActMEv == Ready("mev") /\ LiveM # {} /\ \E s \in {Rnd(LiveM)} : LET m == M[s] IN \E x \in {IF m.seen # {} /\ Rnd({0, 1}) = 1 THEN Rnd(m.seen) ELSE LET j == RndSeq(m.d, -6..6) IN [k \in 1..m.d |-> m.o + j[k]]} :
   MSet(s, [m EXCEPT !.seen = @ \cup {x}], <<St("mev", <<s>> \o [k \in 1..m.d |-> ToString(x[k]) \o "@" \o ToString(m.e)], <<Eq("val", <<FVal(4 * m.b, x)>>, 1) @@ [ex |-> m.e], IntO("calls", IF x \in m.seen THEN 0 ELSE 1), IntO("stored", Cardinality(m.seen \cup {x}))>>)>>)
ActMEvA == ActMEv
RECURSIVE Rows(_, _)
Rows(set, b) == IF set = {} THEN <<>> ELSE LET x == CHOOSE z \in set : TRUE IN <<x \o <<FVal(4 * b, x)>>>> \o Rows(set \ {x}, b)
ActMPrint == Ready("mprint") /\ LiveM # {} /\ \E s \in {Rnd(LiveM)} : LET m == M[s] IN m.e = -2 /\ m.o = 0 /\
   MSet(s, m, <<St("mprint", <<s>>, <<IntO("lines", Cardinality(m.seen)), [k |-> "rows", m |-> "rowset", v |-> Rows(m.seen, m.b), w |-> m.d + 1, den |-> 4]>>)>>)
ActMFree == Ready("mfree") /\ Cardinality(LiveM) > 1 /\ \E s \in {Rnd(LiveM)} : MSet(s, Dead, <<St("mfree", <<s>>, <<>>)>>)

(************************** hash table, lists *******************************)
Keys == {"a", "b", "A", "10", "01", "ab", "ba", "aab", "x:1", "x:2", "1.5,2", "1.5,2.0", "zzzzzzzzzzzzzzzzzzzz"}
KeyAt(q, k) == {i \in 1..Len(q) : q[i][1] = k}
HSet(h, steps) == H' = h /\ UNCHANGED <<W, X, M, L, V>> /\ Do(steps)
ActHNew == Ready("hnew") /\ \E n \in {Rnd({0, 1, 1, 2, 3, 10, 997})} : HSet([live |-> n > 0, q |-> <<>>], <<St("hnew", <<n>>, <<IntO("null", IF n = 0 THEN 1 ELSE 0)>>)>>)
Key == LET h == Rnd(1..4) IN IF h = 1 /\ H.q # <<>> THEN H.q[Rnd(1..Len(H.q))][1] ELSE IF h = 2 THEN Rnd(Keys) \o Rnd(Keys) ELSE IF h = 3 THEN Rnd(Keys) \o "," \o ToString(Rnd(-400..400)) ELSE Rnd(Keys)
ActHAdd == Ready("hadd") /\ H.live /\ \E k \in {Key}, v \in {Rnd(-20..20)} : LET old == KeyAt(H.q, k) # {}  q == IF old THEN H.q ELSE Append(H.q, <<k, v>>) IN
   HSet([H EXCEPT !.q = q], <<St("hadd", <<k, ToString(v) \o "/4">>, <<IntO("ret", IF old THEN 2 ELSE 0), IntO("stored", Len(q))>>)>>)
ActHAddA == ActHAdd
ActHGet == Ready("hget") /\ H.live /\ \E k \in {Key} : HSet(H, <<St("hget", <<k>>, <<Eq("val", IF KeyAt(H.q, k) = {} THEN <<>> ELSE <<H.q[CHOOSE i \in KeyAt(H.q, k) : TRUE][2]>>, 4)>>), St("hhash", <<Rnd(1..50), k>>, <<IntO("ok", 1)>>)>>)
LSet1(l, steps) == L' = l /\ UNCHANGED <<W, X, M, H, V>> /\ Do(steps)
ActLPush == Ready("lpush") /\ Len(L) < 20 /\ \E k \in {Rnd(Keys)}, v \in {Rnd(-2..2)} : LSet1(<<<<k, v>>>> \o L, <<St("lpush", <<k, ToString(v) \o "/4">>, <<IntO("len", Len(L) + 1)>>)>>)
ActLIdx == Ready("lidx") /\ \E k \in {IF L # <<>> /\ Rnd({0, 1, 2}) > 0 THEN L[Rnd(1..Len(L))] ELSE <<Rnd(Keys), Rnd(-2..2)>>} :
   LET at == {i \in 1..Len(L) : L[i] = k} IN LSet1(L, <<St("lidx", <<k[1], ToString(k[2]) \o "/4">>, <<IntO("same", 1), IntO("index", IF at = {} THEN 0 ELSE CHOOSE i \in at : \A j \in at : i <= j)>>)>>)
ActLDel == Ready("lidx") /\ L # <<>> /\ Rnd(1..4) = 1 /\ LSet1(<<>>, <<St("ldel", <<>>, <<IntO("len", 0)>>)>>)
VSet(v, steps) == V' = v /\ UNCHANGED <<W, X, M, H, L>> /\ Do(steps)
ActVPush == Ready("vpush") /\ Len(V) < 20 /\ \E d \in {IF V = <<>> THEN Rnd(1..3) ELSE Len(V[1]) - 1} : \E x \in {RndSeq(d + 1, -7..7)} :
   LET v == <<x>> \o V IN VSet(v, <<St("vpush", <<d>> \o Q4(x), <<>>), St("vdump", <<>>, <<Eq("list", Cat(v), 4)>> \o (IF d = 2 THEN <<Eq("printed", Cat(v), 4)>> ELSE <<>>))>>)
ActVDel == Ready("vpush") /\ V # <<>> /\ Rnd(1..3) = 1 /\ VSet(<<>>, <<St("vdel", <<>>, <<IntO("null", 1)>>)>>)

ActWEvalA == ActWEval
ActWEvalB == ActWEval
ActIMergeA == ActIMerge
ActINestA == ActINest
ActWWhichA == ActWWhich
Init == /\ W = [s \in 0..(NW - 1) |-> Dead] /\ X = [s \in 0..(NX - 1) |-> Dead] /\ M = [s \in 0..(NM - 1) |-> Dead]
        /\ H = [live |-> FALSE, q |-> <<>>] /\ L = <<>> /\ V = <<>> /\ hist = <<St("heap0", <<>>, <<>>)>> /\ left = MaxLen
Finish == left = 0 /\ hist' = Append(hist, St("heapcheck", <<>>, <<IntO("heap", 0)>>)) /\ left' = -1 /\ UNCHANGED <<W, X, M, H, L, V>>
Next == \/ ActWEvalA \/ ActWEvalB \/ ActWWhichA \/ ActIMergeA \/ ActINestA \/ ActWNew \/ ActWSet \/ ActWWhich \/ ActWEval \/ ActWFib \/ ActWOn \/ ActWReadd \/ ActWClean \/ ActWFree
        \/ ActINew \/ ActIAddN \/ ActINest \/ ActINestI \/ ActICp \/ ActILast \/ ActIMerge \/ ActIArr
        \/ ActMNew \/ ActMEv \/ ActMEvA \/ ActMPrint \/ ActMFree \/ ActHNew \/ ActHAdd \/ ActHAddA \/ ActHGet \/ ActLPush \/ ActLIdx \/ ActLDel \/ ActVPush \/ ActVDel \/ Finish
Emit == left = -1 => CSVWrite("%1$s", <<ToJson(hist)>>, OutFile)
\* every index of a set has the set's dimension; keys are distinct; a current fiber exists in fiber mode
TypeOK == /\ left \in -1..MaxLen
          /\ \A s \in LiveX : \A i \in 1..Len(X[s].q) : Len(X[s].q[i]) = X[s].d
          /\ \A i, j \in 1..Len(H.q) : H.q[i][1] = H.q[j][1] => i = j
          /\ \A s \in LiveW : W[s].fib # <<>> => W[s].on \in 1..Len(W[s].fib) /\ W[s].dim \in 1..W[s].d
=============================================================================
