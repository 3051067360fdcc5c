-------------------------------- MODULE Quad --------------------------------
(* Quadrature rules. A state is a rule under construction: its kind, its number of points and the affine maps applied to
   it. What a rule must do is stated through exact rational moments: the integral of every Chebyshev polynomial up to the
   rule's degree (interpolatory rules), the Gram matrix of the orthonormal polynomials (Gauss rules), exact weights
   (trapezoid, Simpson), nestedness, ordering and symmetry of the nodes. All kinds and sizes are enumerated. *)
EXTENDS Tensor, Json, CSV, IOUtils, TLCExt
CONSTANTS Kinds, Sizes, MaxLen, OutFile
Maps == {<<0, 1>>, <<-2, 3>>, <<2, 6>>, <<-3, -1>>}
VARIABLES q, hist, left
vars == <<q, hist, left>>
St(op, a, x) == [op |-> op, a |-> a, x |-> x]
IntO(k, v) == [k |-> k, m |-> "int", v |-> <<v>>]
EqD(k, v, den) == [k |-> k, m |-> "near", v |-> v, den |-> den, tol |-> "1e-11"]
EqS(k, v, den, sc) == [k |-> k, m |-> "eq", v |-> v, den |-> den, sc |-> sc]
(* integral of T_k over [-1,1], as <<numerator, denominator>> *)
TInt(k) == IF k % 2 = 1 THEN <<0, 1>> ELSE <<2, 1 - k * k>>
Num(s) == [i \in 1..Len(s) |-> s[i][1]]
Den(s) == [i \in 1..Len(s) |-> s[i][2]]
(* exact for polynomials up to this degree: symmetric interpolatory rules gain one when the number of points is odd *)
Deg(n) == IF n % 2 = 1 THEN n ELSE n - 1
Moments(n, scale) == LET t == [k \in 1..(Deg(n) + 1) |-> TInt(k - 1)] IN [k |-> "t", m |-> "near", v |-> [i \in 1..Len(t) |-> t[i][1] * scale], den |-> [i \in 1..Len(t) |-> t[i][2] * 2], tol |-> "2e-12"]
(* total weight: only rounding of the weights themselves *)
Total(v) == [k |-> "sum", m |-> "near", v |-> <<v>>, den |-> 1, tol |-> "5e-14"]
(* unnormalised rules have total weight 2, normalised ones 1 *)
Shape(n, tot) == <<Total(tot), IntO("inside", 1), IntO("sorted", 1), IntO("symmetric", 1), IntO("positive", 1)>>
Gram(n) == [k |-> "g", m |-> "near", v |-> TLCEval([p \in 1..(n * n) |-> IF (p - 1) \div n = (p - 1) % n THEN 1 ELSE 0]), den |-> 1, tol |-> "1e-9"]
Root(n) == [k |-> "r", m |-> "near", v |-> [i \in 1..n |-> 0], den |-> 1, tol |-> "1e-8"]
GGram(n) == IF n <= 24 THEN <<Gram(n)>> ELSE <<[k |-> "gerr", m |-> "near", v |-> <<0, 0>>, den |-> 1, tol |-> "1e-8"]>>
TrapW(n) == [i \in 1..n |-> IF i = 1 \/ i = n THEN 3 ELSE 6]
SimpW(n) == LET odd == IF n % 2 = 1 THEN n ELSE n - 1 IN [i \in 1..n |-> (IF i > odd \/ odd = 1 THEN 0 ELSE IF i = 1 \/ i = odd THEN 2 ELSE IF i % 2 = 0 THEN 8 ELSE 4) + (IF n % 2 = 0 /\ i >= n - 1 THEN 3 ELSE 0)]
Steps(k, n) ==
   CASE k = "cc" -> <<St("qumk", <<k, n>>, Shape(n, 2)), St("qumom", <<Deg(n)>>, <<Moments(n, 2)>>), St("qunest", <<k, n, 2 * n - 1, 0>>, <<IntO("nested", 1)>>)>>
     [] k = "fejer" -> <<St("qumk", <<k, n>>, Shape(n, 2)), St("qumom", <<Deg(n)>>, <<Moments(n, 2)>>), St("qunest", <<k, n, 2 * n + 1, 1>>, <<IntO("nested", 1)>>)>>
     [] k = "legendre" -> <<St("qumk", <<k, n>>, Shape(n, 1)), St("qumom", <<2 * n - 1>>, <<Moments(2 * n, 1)>>), St("qugram", <<"leg", n>>, GGram(n) \o <<Root(n)>>)>>
     [] k = "hermite" -> <<St("qumk", <<k, n>>, <<Total(1), IntO("inside", -1), IntO("sorted", 1), IntO("symmetric", 1), IntO("positive", 1)>>), St("qugram", <<"her", n>>, GGram(n) \o <<Root(n)>>)>>
     [] k = "chebyshev" -> <<St("qumk", <<k, n>>, <<IntO("inside", 1), IntO("sorted", -1), IntO("symmetric", 1), IntO("positive", 1)>>), St("qugram", <<"che", n>>, GGram(n) \o <<Root(n)>>)>>
     [] k = "trap" -> <<St("quw", <<k, n, 1, 2>>, <<EqS("w", TrapW(n), 12, 6)>>), St("quw", <<k, n, 3, 1>>, <<EqS("w", TrapW(n), 2, 6)>>)>>
     [] OTHER -> <<St("quw", <<k, n, 1, 2>>, <<EqS("w", SimpW(n), 12, 8)>>), St("quw", <<k, n, 3, 1>>, <<EqS("w", SimpW(n), 2, 8)>>)>>
Ok(k, n) == n >= (IF k = "trap" \/ k = "simpson" THEN 2 ELSE 1) /\ (k \in {"hermite"} => n <= 60) /\ (k \in {"chebyshev", "cc", "fejer"} => n <= 130)
Init == q = [k |-> "none"] /\ hist = <<St("heap0", <<>>, <<>>)>> /\ left = MaxLen
Pick == /\ left = MaxLen
        /\ \E k \in Kinds, n \in Sizes : Ok(k, n) /\ q' = [k |-> k, n |-> n, a |-> -1, b |-> 1] /\ hist' = hist \o Steps(k, n)
        /\ left' = IF q'.k \in {"cc", "fejer"} /\ q'.n <= 12 THEN MaxLen - 1 ELSE 0
(* rescale_cc maps the rule on [-1,1] to [a,b]; applied to an already mapped rule it maps again, as the formula says:
   x in [c - h, c + h] becomes (a + b)/2 + x (b - a)/2 *)
Rescale == /\ left > 0 /\ left < MaxLen
           /\ \E m \in Maps : LET a == m[1]  b == m[2]  lo == (a + b) + q.a * (b - a)  hi == (a + b) + q.b * (b - a) IN
              /\ q.a = -1 /\ q.b = 1
              /\ q' = [q EXCEPT !.a = a, !.b = b]
              \* monomial moments on [a,b]: integral of x^k = (b^(k+1) - a^(k+1))/(k+1)
              /\ hist' = hist \o <<St("quscale", <<a, b>>, <<>>), St("qumono", <<Min2(Deg(q.n), 5)>>,
                     <<EqS("t", [k \in 1..(Min2(Deg(q.n), 5) + 1) |-> Pow(b, k) - Pow(a, k)], [k \in 1..(Min2(Deg(q.n), 5) + 1) |-> k], 4096)>>), St("quends", <<a, b>>, <<IntO("inside", 1)>>)>>
              /\ left' = left - 1
Skip == left > 0 /\ left < MaxLen /\ q.a # -1 /\ left' = 0 /\ UNCHANGED <<q, hist>>
Finish == left = 0 /\ hist' = Append(hist, St("heapcheck", <<>>, <<IntO("heap", 0)>>)) /\ left' = -1 /\ UNCHANGED q
Next == Pick \/ Rescale \/ Skip \/ Finish
Emit == left = -1 => CSVWrite("%1$s", <<ToJson(hist)>>, OutFile)
TypeOK == left \in -1..MaxLen
(* the weights the specification gives sum to the length of the interval *)
WeightSum == q.k \in {"trap", "simpson"} => SumSeq(IF q.k = "trap" THEN TrapW(q.n) ELSE SimpW(q.n)) = 6 * (q.n - 1)
=============================================================================
