------------------------------- MODULE Tensor -------------------------------
(* Exact integer tensor algebra. A tensor with extents n = <<n1,...,nd>> is a flat sequence, last index
   fastest. It is the abstract value of a function train: the values of the represented function on the
   product grid (coefficients, in a kernel dimension). Every linear observable of the library (point
   evaluation, interpolation, integration, differentiation, contraction) is a product of one small matrix
   per dimension with that tensor. *)
EXTENDS Integers, Sequences, SequencesExt, TLC

SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
ProdSeq(s) == FoldLeft(LAMBDA a, b : a * b, 1, s)
Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
MaxAbs(s) == FoldLeft(LAMBDA a, b : Max2(a, Abs(b)), 0, s)
MaxSeq(s) == FoldLeft(LAMBDA a, b : Max2(a, b), 0, s)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN Abs(a) ELSE Gcd(Abs(b), Abs(a) % Abs(b))
Lcm(a, b) == (a \div Gcd(a, b)) * b
Pow(b, e) == ProdSeq([i \in 1..e |-> b])
Size(n) == ProdSeq(n)

Dot(a, b) == SumSeq([i \in 1..Len(a) |-> a[i] * b[i]])

(* product over the dimensions before / after k *)
Before(n, k) == ProdSeq(SubSeq(n, 1, k - 1))
After(n, k) == ProdSeq(SubSeq(n, k + 1, Len(n)))

(* index of dimension k (0-based) of the flat position q (1-based) *)
IdxAt(n, k, q) == ((q - 1) \div After(n, k)) % n[k]

(* mode-k product with the matrix M (sequence of rows, each of length n[k]) *)
ModeK(T, n, k, M) ==
  LET A == Before(n, k)  B == After(n, k)  m == Len(M)  nk == n[k]
  IN TLCEval([q \in 1..(A * m * B) |->
       LET a == (q - 1) \div (m * B)
           r == ((q - 1) \div B) % m
           b == (q - 1) % B
           row == M[r + 1]
       IN SumSeq([u \in 1..nk |-> IF row[u] = 0 THEN 0 ELSE row[u] * T[(a * nk + u - 1) * B + b + 1]])])

(* contract dimension k with one weight vector *)
Contract(T, n, k, w) == ModeK(T, n, k, <<w>>)
Drop(n, k) == SubSeq(n, 1, k - 1) \o SubSeq(n, k + 1, Len(n))

(* apply one matrix per dimension: Ms[k] *)
RECURSIVE ApplyFrom(_, _, _, _)
ApplyFrom(T, n, Ms, k) ==
  IF k > Len(n) THEN T
  ELSE ApplyFrom(ModeK(T, n, k, Ms[k]), [n EXCEPT ![k] = Len(Ms[k])], Ms, k + 1)
ApplyAll(T, n, Ms) == ApplyFrom(T, n, Ms, 1)
(* full contraction with one vector per dimension *)
Eval(T, n, ws) == ApplyAll(T, n, [k \in 1..Len(n) |-> <<ws[k]>>])[1]
Unit(n, i) == [u \in 1..n |-> IF u = i + 1 THEN 1 ELSE 0]
At(T, n, idx) == T[1 + SumSeq([k \in 1..Len(n) |-> idx[k] * After(n, k)])]

(* tensor of a train: cores[k] lists, column by column, row by row, the n[k] values of each entry *)
RECURSIVE TrainFrom(_, _, _, _, _, _)
TrainFrom(T, P, n, r, cores, k) ==
  IF k > Len(n) THEN T
  ELSE LET nk == n[k]  a == r[k]  b == r[k + 1]  C == cores[k]
           N == TLCEval([q \in 1..(P * nk * b) |->
                  LET p == (q - 1) \div (nk * b)
                      u == ((q - 1) \div b) % nk
                      j == (q - 1) % b
                  IN SumSeq([i \in 1..a |-> T[p * a + i] * C[(j * a + i - 1) * nk + u + 1]])])
       IN TrainFrom(N, P * nk, n, r, cores, k + 1)
Train(n, r, cores) == TrainFrom(<<1>>, 1, n, r, cores, 1)

(* tensor of a separable table: value at (i1,...,id) computed from the d-tuple of 0-based indices *)
FromIdx(n, F(_)) == TLCEval([q \in 1..Size(n) |-> F([k \in 1..Len(n) |-> IdxAt(n, k, q)])])
=============================================================================
