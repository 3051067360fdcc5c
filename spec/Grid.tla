-------------------------------- MODULE Grid --------------------------------
(* One-dimensional discretisations: fam "L" piecewise linear, "C" piecewise constant, "K" Gaussian kernels.
   x: integer node (centre) coordinates, increasing. All weights are integers over a common denominator. *)
EXTENDS Tensor

NN(g) == Len(g.x)
Step(g, i) == g.x[i + 1] - g.x[i]
Uniform(g) == \A i \in 1..(NN(g) - 1) : Step(g, i) = Step(g, 1)

(* quarter point: cell i (1-based), w quarters into it: x = x_i + h w/4; i = 0: below, i = n: above or last node *)
PtNum(g, p) == IF p.i = 0 THEN 4 * (g.x[1] - 1) - p.w
               ELSE IF p.i = NN(g) THEN 4 * g.x[NN(g)] + p.w
               ELSE 4 * g.x[p.i] + Step(g, p.i) * p.w
\* binary exponent of the unit of length of the grid (coordinates are integers times 2^h)
HOf(g) == IF "h" \in DOMAIN g THEN g.h ELSE 0
Sfx(e) == IF e = 0 THEN "" ELSE "@" \o ToString(e)
Num(x, e) == IF e = 0 THEN x ELSE ToString(x) \o Sfx(e)
Nums(s, e) == IF e = 0 THEN s ELSE [i \in 1..Len(s) |-> Num(s[i], e)]
PtStr(g, p) == ToString(PtNum(g, p)) \o "/4" \o Sfx(HOf(g))
(* interpolation weights, denominator 4 *)
PtW(g, p) ==
  LET n == NN(g) IN
  IF p.i = 0 \/ (p.i = n /\ p.w > 0) THEN [u \in 1..n |-> 0]
  ELSE IF p.w = 0 THEN [u \in 1..n |-> IF u = p.i THEN 4 ELSE 0]
  ELSE IF g.fam = "L" THEN [u \in 1..n |-> IF u = p.i THEN 4 - p.w ELSE IF u = p.i + 1 THEN p.w ELSE 0]
  ELSE [u \in 1..n |-> IF u = (IF p.w < 2 THEN p.i ELSE p.i + 1) THEN 4 ELSE 0]
(* points that are legal to ask about: no ties between two nearest nodes *)
PtsIn(g) == {[i |-> i, w |-> 0] : i \in 1..NN(g)} \cup
            {[i |-> i, w |-> w] : i \in 1..(NN(g) - 1), w \in (IF g.fam = "C" THEN {1, 3} ELSE {1, 2, 3})}
PtsOut(g) == {[i |-> 0, w |-> 1], [i |-> NN(g), w |-> 3]}
(* integration weights (trapezoid), denominator 2 *)
IntW(g) == [u \in 1..NN(g) |-> (IF u > 1 THEN Step(g, u - 1) ELSE 0) + (IF u < NN(g) THEN Step(g, u) ELSE 0)]

(* derivative matrix: rows of integers with one denominator per row *)
DerRow(g, i) ==
  LET n == NN(g)
      E(a, ca, b, cb) == [u \in 1..n |-> (IF u = a THEN ca ELSE 0) + (IF u = b THEN cb ELSE 0)]
      Two(a, b) == [den |-> g.x[b] - g.x[a], row |-> E(a, -1, b, 1)]
  IN IF g.fam = "C" THEN (IF i < n THEN Two(i, i + 1) ELSE Two(n - 1, n))
     ELSE IF i = 1 THEN Two(1, 2)
     ELSE IF i = n THEN Two(n - 1, n)
     ELSE IF n <= 5 \/ i = 2 \/ i = n - 1 THEN Two(i - 1, i + 1)
     ELSE LET cube(z) == z * z * z
              rn == cube(g.x[i + 2] - g.x[i]) + cube(g.x[i] - g.x[i - 2])
              rd == cube(g.x[i + 1] - g.x[i]) + cube(g.x[i] - g.x[i - 1])
          IN [den |-> rn * (g.x[i + 1] - g.x[i - 1]) - rd * (g.x[i + 2] - g.x[i - 2]),
              row |-> [u \in 1..n |-> IF u = i + 1 THEN rn ELSE IF u = i - 1 THEN -rn
                                      ELSE IF u = i + 2 THEN -rd ELSE IF u = i - 2 THEN rd ELSE 0]]
DerRaw(g) == [i \in 1..NN(g) |-> DerRow(g, i)]
\* (computed once per space: WithDer stores the matrix, its denominator and its norm in the grid)
DerDen0(g) == FoldLeft(LAMBDA a, r : Lcm(a, r.den), 1, DerRaw(g))
DerMat0(g) == LET R == DerRaw(g)  D == DerDen0(g)
             IN TLCEval([i \in 1..NN(g) |-> [u \in 1..NN(g) |-> R[i].row[u] * (D \div R[i].den)]])
RowMax(M) == MaxSeq([i \in 1..Len(M) |-> SumSeq([u \in 1..Len(M[i]) |-> Abs(M[i][u])])])
DerDen(g) == IF "dd" \in DOMAIN g THEN g.dd ELSE DerDen0(g)
DerMat(g) == IF "dm" \in DOMAIN g THEN g.dm ELSE DerMat0(g)
DerMax(g) == IF "dx" \in DOMAIN g THEN g.dx ELSE RowMax(DerMat0(g))
NiceD(g) == NN(g) >= 2 /\ (NN(g) <= 5 \/ Uniform(g))
WithDer(g) == IF g.fam = "K" \/ ~NiceD(g) THEN g ELSE LET M == DerMat0(g) IN TLCEval(g @@ [dm |-> M, dd |-> DerDen0(g), dx |-> RowMax(M)])
(* pointwise slope inside a cell (linear elements), at a node the centred slope; denominator DerDen-like *)
SlopeAt(g, p) ==  \* record den,row for the derivative evaluated at an interior or nodal quarter point
  LET n == NN(g)
      Two(a, b) == [den |-> g.x[b] - g.x[a], row |-> [u \in 1..n |-> IF u = b THEN 1 ELSE IF u = a THEN -1 ELSE 0]]
  IN IF g.fam = "C" \/ p.i = 0 \/ (p.i = n /\ p.w > 0) THEN [den |-> 1, row |-> [u \in 1..n |-> 0]]
     ELSE IF p.w > 0 THEN Two(p.i, p.i + 1)
     ELSE IF p.i = 1 THEN Two(1, 2) ELSE IF p.i = n THEN Two(n - 1, n) ELSE Two(p.i - 1, p.i + 1)
MatMul(A, B) == [i \in 1..Len(A) |-> [j \in 1..Len(B[1]) |-> SumSeq([k \in 1..Len(B) |-> A[i][k] * B[k][j]])]]
=============================================================================
