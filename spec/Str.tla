-------------------------------- MODULE Str ---------------------------------
(* Strings, byte buffers, text and file forms of arrays, and the small array constructors. Strings are sequences of
   character codes; the state holds several strings (or no string), which calls consume, split and join, and several lists
   of optional vectors, which calls copy and a client overwrites, so that sharing between copies would show. *)
EXTENDS Tensor, Json, CSV, IOUtils, TLCExt
CONSTANTS Ops, MaxLen, OutFile
VARIABLES S, C, hist, left
vars == <<S, C, hist, left>>
NS == 4
Rnd(set) == IF left < -1 THEN 0 ELSE RandomElement(set)
RndSeq(m, set) == TLCEval([i \in 1..m |-> IF left < -1 THEN 0 ELSE RandomElement(set)])
\* mostly small, now and then large
Sz(lo, hi, big) == IF left < -1 THEN 0 ELSE IF RandomElement(1..7) = 1 THEN RandomElement(lo..big) ELSE RandomElement(lo..hi)
Ready(o) == o \in Ops /\ left > 0
St(op, a, x) == [op |-> op, a |-> a, x |-> x]
IntS(k, v) == [k |-> k, m |-> "int", v |-> v]
IntO(k, v) == IntS(k, <<v>>)
Eq(k, v, den) == [k |-> k, m |-> "eq", v |-> v, den |-> den, sc |-> 1 + MaxAbs(v)]
Exact(k, v, den) == [k |-> k, m |-> "exactq", v |-> v, den |-> den]
Do(steps) == hist' = hist \o steps /\ left' = left - 1
RECURSIVE Cat(_)
Cat(t) == IF t = <<>> THEN <<>> ELSE Head(t) \o Cat(Tail(t))
None == [live |-> FALSE]
Str(t) == [live |-> TRUE, t |-> t]
(* what a slot shows: -1 for no string, otherwise its codes *)
Show(x) == IF x.live THEN <<Len(x.t)>> \o x.t ELSE <<-1>>
DumpS(SS) == <<St("sdump", <<>>, <<IntS("s", Cat([i \in 1..NS |-> Show(SS[i - 1])]))>>)>>
SetS(SS, steps) == S' = SS /\ UNCHANGED C /\ (\A i \in 0..(NS - 1) : SS[i].live => Len(SS[i].t) <= 400) /\ Do(steps \o DumpS(SS))
LiveS == {i \in 0..(NS - 1) : S[i].live}
Sp == 32
Alpha == {97, 97, 98, 58, Sp}
ActSet == Ready("sset") /\ \E s \in {Rnd(0..(NS - 1))}, n \in {Sz(0, 9, 150)}, wide \in {Rnd(0..3)}, lead \in {Rnd(0..3)}, tail \in {Rnd(0..3)}, c \in {Rnd(Alpha)} : \E t \in {[i \in 1..lead |-> c] \o RndSeq(n, IF wide = 0 THEN 1..127 ELSE Alpha) \o [i \in 1..tail |-> Sp]} :
   SetS([S EXCEPT ![s] = Str(t)], <<St("sset", <<s, Len(t)>> \o t, <<>>)>>)
ActSetA == ActSet
ActSetB == ActSet
First(t, w) == LET P == {i \in 1..(Len(t) - Len(w) + 1) : SubSeq(t, i, i + Len(w) - 1) = w} IN IF P = {} THEN 0 ELSE CHOOSE i \in P : \A j \in P : i <= j
Bite(op, s, d, w) == LET t == S[s].t  i == First(t, w) IN
   SetS(IF i = 0 THEN [S EXCEPT ![d] = None] ELSE [S EXCEPT ![d] = Str(SubSeq(t, 1, i - 1)), ![s] = Str(SubSeq(t, i + Len(w), Len(t)))], <<St(op, <<s, d, Len(w)>> \o w, <<>>)>>)
ActBite == Ready("sbite") /\ LiveS # {} /\ \E s \in {Rnd(LiveS)}, d \in {Rnd(0..(NS - 1))}, c \in {Rnd(Alpha)} : s # d /\ Bite("sbite", s, d, <<c>>)
ActBiteA == ActBite
ActBite2 == Ready("sbite2") /\ LiveS # {} /\ \E s \in {Rnd(LiveS)}, d \in {Rnd(0..(NS - 1))}, n \in {Rnd(1..3)}, at \in {Rnd(1..8)} : s # d /\
   \E w \in {IF Rnd(0..2) > 0 /\ at + n - 1 <= Len(S[s].t) THEN SubSeq(S[s].t, at, at + n - 1) ELSE RndSeq(n, Alpha)} : Bite("sbite2", s, d, w)
ActBite2A == ActBite2
RECURSIVE Split(_, _)
Split(t, c) == LET i == First(t, <<c>>) IN IF i = 0 THEN <<t>> ELSE <<SubSeq(t, 1, i - 1)>> \o Split(SubSeq(t, i + 1, Len(t)), c)
ActParse == Ready("sparse") /\ LiveS # {} /\ \E s \in {Rnd(LiveS)}, c \in {Rnd(Alpha)} : LET p == Split(S[s].t, c) IN
   SetS(S, <<St("sparse", <<s, c>>, <<IntO("n", Len(p)), IntS("p", Cat([i \in 1..Len(p) |-> <<Len(p[i])>> \o p[i]]))>>)>>)
Txt(x) == IF x.live THEN x.t ELSE <<>>
ActCat == Ready("scat") /\ \E a \in {Rnd(0..(NS - 1))}, b \in {Rnd(0..(NS - 1))}, d \in {Rnd(0..(NS - 1))} : d # a /\ d # b /\ SetS([S EXCEPT ![d] = Str(Txt(S[a]) \o Txt(S[b]))], <<St("scat", <<d, a, b>>, <<>>)>>)
ActCatOw == Ready("scat") /\ \E a \in {Rnd(0..(NS - 1))}, b \in {Rnd(0..(NS - 1))} : SetS([S EXCEPT ![a] = Str(Txt(S[a]) \o Txt(S[b]))], <<St("scatow", <<a, b>>, <<>>)>>)
RECURSIVE StripL(_, _)
StripL(t, c) == IF t # <<>> /\ Head(t) = c THEN StripL(Tail(t), c) ELSE t
RECURSIVE StripR(_, _)
StripR(t, c) == IF t # <<>> /\ t[Len(t)] = c THEN StripR(SubSeq(t, 1, Len(t) - 1), c) ELSE t
ActStripB == Ready("sstrip") /\ LiveS # {} /\ \E s \in {Rnd(LiveS)} : SetS([S EXCEPT ![s] = Str(StripR(StripL(S[s].t, Sp), Sp))], <<St("sstripb", <<s>>, <<>>)>>)
ActStrip == Ready("sstrip") /\ LiveS # {} /\ \E s \in {Rnd(LiveS)}, l \in {Rnd(Alpha)}, r \in {Rnd(Alpha)} : SetS([S EXCEPT ![s] = Str(StripR(StripL(S[s].t, l), r))], <<St("sstrip", <<s, l, r>>, <<>>)>>)
RECURSIVE Digits(_, _)
Digits(v, b) == LET d == v % b  c == IF d < 10 THEN 48 + d ELSE 87 + d IN IF v < b THEN <<c>> ELSE Digits(v \div b, b) \o <<c>>
Num(v, b) == IF b < 2 \/ b > 36 THEN <<>> ELSE IF v < 0 THEN <<45>> \o Digits(-v, b) ELSE Digits(v, b)
ActItoa == Ready("itoa") /\ \E v \in {Rnd({-2147483647, -1000000, -255, -37, -36, -10, -1, 0, 1, 7, 9, 10, 35, 36, 99, 100, 1000, 65535, 2147483647}) + 0}, o \in {Rnd(0..40)}, b \in {Rnd({2, 3, 7, 8, 10, 10, 10, 16, 35, 36, 1, 37})} :
   LET x == IF Abs(v) < 2000000 THEN v + o ELSE v IN UNCHANGED <<S, C>> /\ Do(<<St("itoa", <<x, b>>, <<IntS("t", Num(x, b))>>)>>)

(* byte buffers: items written one after the other and read back *)
Item(k) == CASE k = 0 -> [t |-> "c", v |-> <<Rnd(-128..127)>>, q |-> 1] [] k = 1 -> [t |-> "i", v |-> <<Rnd({-2147483647, -1, 0, 1, 255, 256, 65536, 2147483647})>>, q |-> 1]
          [] k = 2 -> [t |-> "z", v |-> <<Rnd({0, 1, 255, 256, 65536, 2147483647})>>, q |-> 1] [] k = 3 -> [t |-> "d", v |-> <<Rnd(-2000000..2000000)>>, q |-> Rnd({1, 3, 7, 1024})]
          [] OTHER -> [t |-> "p", v |-> RndSeq(Sz(0, 5, 70), -2000000..2000000), q |-> Rnd({1, 3, 10})]
ActBuf == Ready("buf") /\ \E n \in {Sz(1, 7, 25)} : \E it \in {TLCEval([i \in 1..n |-> Item(Rnd(0..4))])} :
   UNCHANGED <<S, C>> /\ Do(<<St("buf", <<n>> \o Cat([i \in 1..n |-> <<it[i].t, Len(it[i].v), it[i].q>> \o it[i].v]),
       <<IntO("wrote", 0), IntO("read", 0)>> \o [i \in 1..n |-> IF it[i].t = "c" THEN IntS("c", it[i].v) ELSE Exact(it[i].t, it[i].v, it[i].q)])>>)
Rel(k, v, den, ex, tol) == [k |-> k, m |-> "relq", v |-> v, den |-> den, ex |-> ex, tol |-> tol]
Nums == {-2000000, -12345, -7, -1, 0, 1, 3, 10, 511, 99999, 1999999}
ActText == Ready("text") /\ \E n \in {Sz(1, 6, 60)}, q \in {Rnd({1, 3, 7, 10, 1024})}, ex \in {Rnd({-1000, -300, -40, -1, 0, 1, 40, 300, 1000})}, how \in {Rnd({"one", "arr", "pack", "packarr"})} : \E v \in {RndSeq(n, Nums)} :
   UNCHANGED <<S, C>> /\ Do(<<St("text", <<how, n, q, ex>> \o v, <<Rel("v", v, q, ex, IF how \in {"one", "arr"} THEN "2e-14" ELSE "4e-16")>>)>>)
(* matrices as text: separators between entries of a row *)
ActRead == Ready("read") /\ \E r \in {Sz(1, 4, 20)}, c \in {Sz(1, 4, 30)}, sep \in {Rnd(0..4)}, fin \in {Rnd({0, 1})}, file \in {Rnd({0, 1})}, den \in {Rnd({1, 4, 100})} : \E v \in {RndSeq(r * c, -9999..9999)} :
   UNCHANGED <<S, C>> /\ Do(<<St("read", <<file, sep, fin, r, c, den>> \o v, <<IntO("r", r), IntO("c", c), Eq("v", v, den)>>)>>)
ActReadA == ActRead
ActSave == Ready("read") /\ \E r \in {Sz(1, 4, 20)}, c \in {Sz(1, 4, 30)}, ty \in {Rnd({0, 1})}, den \in {Rnd({1, 3, 100})} : \E v \in {RndSeq(r * c, -9999..9999)} :
   UNCHANGED <<S, C>> /\ Do(<<St("asave2", <<ty, r, c, den>> \o v, <<IntO("ret", 1), Eq("v", v, den)>>)>>)

(* constructors *)
ActLin == Ready("ctor") /\ \E n \in {Sz(2, 12, 200)}, a \in {Rnd(-20..20)}, w \in {Rnd(-20..30)} : UNCHANGED <<S, C>> /\ Do(<<St("linsp", <<a, a + w, n>>, <<Eq("v", [i \in 1..n |-> a * (n - 1) + (i - 1) * w], n - 1), Exact("ends", <<a, a + w>>, 1)>>)>>)
ActLog == Ready("ctor") /\ \E n \in {Sz(2, 9, 60)}, a \in {Rnd(-6..6)}, w \in {Rnd(-4..8)} : UNCHANGED <<S, C>> /\ Do(<<St("logsp", <<a, a + w, n>>, <<[k |-> "v", m |-> "pow10", v |-> [i \in 1..n |-> a * (n - 1) + (i - 1) * w], den |-> n - 1]>>)>>)
ActRange == Ready("ctor") /\ \E a \in {Rnd(-20..20)}, w \in {Sz(0, 40, 400)}, st \in {Rnd(1..9)}, den \in {Rnd({1, 2, 4, 8})} : LET n == (w \div st) + 1 IN
   UNCHANGED <<S, C>> /\ Do(<<St("arng", <<a, a + w, st, den>>, <<IntO("n", n), Exact("v", [i \in 1..n |-> a + (i - 1) * st], den)>>)>>)
ActDiag == Ready("ctor") /\ \E n \in {Sz(1, 5, 16)} : \E v \in {RndSeq(n, -9..9)} : UNCHANGED <<S, C>> /\ Do(<<St("diagm", <<n>> \o v, <<Exact("v", [q \in 1..(n * n) |-> IF (q - 1) \div n = (q - 1) % n THEN v[((q - 1) % n) + 1] ELSE 0], 1)>>)>>)
ActCols == Ready("ctor") /\ \E r \in {Sz(1, 4, 20)}, a \in {Sz(0, 3, 10)}, b \in {Sz(0, 3, 10)} : \E x \in {RndSeq(r * a, -9..9)}, y \in {RndSeq(r * b, -9..9)} : a + b > 0 /\ UNCHANGED <<S, C>> /\ Do(<<St("cols", <<r, a, b>> \o x \o y, <<Exact("v", x \o y, 1)>>)>>)
ActProd == Ready("ctor") /\ \E n \in {Rnd(0..6)} : \E v \in {RndSeq(n, -6..6)}, z \in {RndSeq(n, 0..9)} : UNCHANGED <<S, C>> /\ Do(<<St("prods", <<n>> \o v \o z, <<Exact("d", <<ProdSeq(v)>>, 1), IntO("i", ProdSeq(v)), IntO("z", ProdSeq(z))>>)>>)
ActFill == Ready("ctor") /\ \E n \in {Sz(1, 6, 100)}, v \in {Rnd(-9..9)} : UNCHANGED <<S, C>> /\ Do(<<St("fills", <<n, v>>, <<Exact("o", [i \in 1..n |-> 1], 1), Exact("z", [i \in 1..n |-> 0], 1), IntS("iz", [i \in 1..n |-> 0]), Exact("v", [i \in 1..n |-> v], 1), IntO("randok", 1)>>)>>)
ActDD == Ready("ctor") /\ \E n \in {Sz(1, 4, 15)}, d \in {Sz(1, 4, 15)}, row \in {Sz(1, 4, 15)} : \E v \in {RndSeq(n * d, -9..9)} : row <= n /\ d > 1 /\ UNCHANGED <<S, C>> /\
   Do(<<St("ddcopy", <<n, d, row - 1>> \o v, <<Exact("v", v, 1), Exact("src", [q \in 1..(n * d) |-> IF ((q - 1) \div d) + 1 = row THEN (q - 1) % d ELSE v[q]], 1)>>)>>)

(* lists of optional vectors *)
NC == 3
CDump(CC) == <<St("cdump", <<>>, <<IntS("c", Cat([i \in 1..NC |-> IF CC[i - 1].live THEN <<Len(CC[i - 1].e)>> \o Cat([j \in 1..Len(CC[i - 1].e) |-> Show(CC[i - 1].e[j])]) ELSE <<-2>>]))>>)>>
SetC(CC, steps) == C' = CC /\ UNCHANGED S /\ Do(steps \o CDump(CC))
LiveC == {i \in 0..(NC - 1) : C[i].live}
Vec(v) == [live |-> TRUE, t |-> v]
ActCNew == Ready("vec") /\ \E s \in {Rnd(0..(NC - 1))}, n \in {Sz(1, 3, 9)} : SetC([C EXCEPT ![s] = [live |-> TRUE, e |-> [i \in 1..n |-> None]]], <<St("cnew", <<s, n>>, <<>>)>>)
ActCPut == Ready("vec") /\ LiveC # {} /\ \E s \in {Rnd(LiveC)}, m \in {Sz(1, 4, 30)} : \E j \in {Rnd(1..Len(C[s].e))}, v \in {RndSeq(m, -9..9)} : SetC([C EXCEPT ![s].e[j] = Vec(v)], <<St("cput", <<s, j - 1, m>> \o v, <<>>)>>)
ActCPutA == ActCPut
ActCCopy == Ready("vec") /\ LiveC # {} /\ \E s \in {Rnd(LiveC)}, d \in {Rnd(0..(NC - 1))} : s # d /\ SetC([C EXCEPT ![d] = C[s]], <<St("ccopy", <<d, s>>, <<>>)>>)
ActCCopy1 == Ready("vec") /\ LiveC # {} /\ \E s \in {Rnd(LiveC)}, d \in {Rnd(LiveC)} : \E i \in {Rnd(1..Len(C[s].e))}, j \in {Rnd(1..Len(C[d].e))} : (s # d \/ i # j) /\ SetC([C EXCEPT ![d].e[j] = C[s].e[i]], <<St("ccopy1", <<d, j - 1, s, i - 1>>, <<>>)>>)
ActCPoke == Ready("vec") /\ \E s \in {Rnd(LiveC \cup {-1})} : s >= 0 /\ \E j \in {Rnd(1..Len(C[s].e))} : C[s].e[j].live /\ \E i \in {Rnd(1..Len(C[s].e[j].t))}, v \in {Rnd(10..19)} : SetC([C EXCEPT ![s].e[j].t[i] = v], <<St("cpoke", <<s, j - 1, i - 1, v>>, <<>>)>>)
ActCPokeA == ActCPoke
ActCFree == Ready("vec") /\ LiveC # {} /\ Rnd(1..3) = 1 /\ \E s \in {Rnd(LiveC)} : SetC([C EXCEPT ![s] = None], <<St("cfree", <<s>>, <<>>)>>)

Init == S = [s \in 0..(NS - 1) |-> None] /\ C = [s \in 0..(NC - 1) |-> None] /\ hist = <<St("heap0", <<>>, <<>>)>> /\ left = MaxLen
Finish == left = 0 /\ hist' = Append(hist, St("heapcheck", <<>>, <<IntO("heap", 0)>>)) /\ left' = -1 /\ UNCHANGED <<S, C>>
Next == ActSet \/ ActSetA \/ ActSetB \/ ActBite \/ ActBiteA \/ ActBite2 \/ ActBite2A \/ ActParse \/ ActCat \/ ActCatOw \/ ActStripB \/ ActStrip \/ ActItoa \/ ActBuf \/ ActText \/ ActRead \/ ActReadA \/ ActSave
        \/ ActLin \/ ActLog \/ ActRange \/ ActDiag \/ ActCols \/ ActProd \/ ActFill \/ ActDD \/ ActCNew \/ ActCPut \/ ActCPutA \/ ActCCopy \/ ActCCopy1 \/ ActCPoke \/ ActCPokeA \/ ActCFree \/ Finish
Emit == left = -1 => CSVWrite("%1$s", <<ToJson(hist)>>, OutFile)
TypeOK == left \in -1..MaxLen
=============================================================================
