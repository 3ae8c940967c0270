------------------------------ MODULE FreqMap ------------------------------
(* Delay-and-sum maps in the frequency domain, exactly.

   Lengths are whole numbers of quarter wavelengths (times the number of the frequency), so every phase is a
   power of the imaginary unit; cross spectral matrices have Gaussian integers.  All values are fractions.

   A steering vector is fixed by magnitudes g and a squared scale A = <<num, den>>:  |w_m|^2 = A g_m^2.     *)
EXTENDS Integers, Sequences, FiniteSets

\* ---- Gaussian integers <<re, im>> --------------------------------------------------------------
Mul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
Conj(a) == <<a[1], 0 - a[2]>>
Plus(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Scale(n, a) == <<n * a[1], n * a[2]>>
Abs2(a) == a[1] * a[1] + a[2] * a[2]
\* exp(-i pi/2 n)
Ph(n) == CASE n % 4 = 0 -> <<1, 0>> [] n % 4 = 1 -> <<0, 0 - 1>> [] n % 4 = 2 -> <<0 - 1, 0>> [] n % 4 = 3 -> <<0, 1>>
RECURSIVE CSum(_)
CSum(s) == IF s = <<>> THEN <<0, 0>> ELSE Plus(Head(s), CSum(Tail(s)))
RECURSIVE ISum(_)
ISum(s) == IF s = <<>> THEN 0 ELSE Head(s) + ISum(Tail(s))
RECURSIVE IPow(_, _)
IPow(a, n) == IF n = 0 THEN 1 ELSE a * IPow(a, n - 1)

\* ---- steering vectors: r = distances to the microphones, r0 = reference, LL = common multiple of all distances
Types == {"classic", "inverse", "true level", "true location"}
G(type, LL, r) == [m \in 1..Len(r) |-> CASE type = "classic" -> 1 [] type = "inverse" -> r[m] [] OTHER -> LL \div r[m]]
T2(g) == ISum([m \in 1..Len(g) |-> g[m] * g[m]])
A(type, LL, r, r0) ==
  LET M == Len(r) T == T2(G(type, LL, r))
  IN CASE type = "classic" -> <<1, M * M>>
       [] type = "inverse" -> <<1, M * M * r0 * r0>>
       [] type = "true level" -> <<LL * LL, r0 * r0 * T * T>>
       [] type = "true location" -> <<1, M * T>>
\* squared norm of the steering vector
Norm2(type, LL, r, r0) == <<A(type, LL, r, r0)[1] * T2(G(type, LL, r)), A(type, LL, r, r0)[2]>>

\* ---- quadratic forms ---------------------------------------------------------------------------
\* sum over i, j of g_i g_j conj(p_i) C_ij p_j, with p = phases of the propagation at frequency k
Quad(g, r, k, C, diag) ==
  LET M == Len(r)
      term(i, j) == IF i = j /\ ~diag THEN 0 ELSE g[i] * g[j] * Mul(Ph(k * (r[j] - r[i])), C[i][j])[1]
  IN ISum([i \in 1..M |-> ISum([j \in 1..M |-> term(i, j)])])
Outer(u) == [i \in 1..Len(u) |-> [j \in 1..Len(u) |-> Mul(u[i], Conj(u[j]))]]
\* the field of a source at distances s (reference s0), times LL / s0
Field(LL, s, k) == [m \in 1..Len(s) |-> Scale(LL \div s[m], Ph(k * s[m]))]

Frac(a, n) == <<a[1] * n[1], a[2] * n[2]>>
Clip(f) == IF f[1] < 0 THEN <<0, 1>> ELSE f
\* value of the map; norm = <<num, den>> signal loss
Map(type, LL, r, r0, k, C, rdiag, norm) ==
  LET v == <<A(type, LL, r, r0)[1] * Quad(G(type, LL, r), r, k, C, ~rdiag) * norm[1], A(type, LL, r, r0)[2] * norm[2]>>
  IN IF rdiag THEN Clip(v) ELSE v
\* point spread function: response of the focus (r, r0) to a source of unit strength (s, s0)
Psf(type, LL, r, r0, s, s0, k) ==
  <<A(type, LL, r, r0)[1] * Quad(G(type, LL, r), r, k, Outer(Field(LL, s, k)), TRUE) * s0 * s0, A(type, LL, r, r0)[2] * LL * LL>>
\* signal loss: without diagonal M / (M - 1) or what the user says
Loss(M, rdiag, user) == IF ~rdiag THEN <<1, 1>> ELSE IF user[1] = 0 THEN <<M, M - 1>> ELSE user

\* ---- decompositions: orthogonal vectors u_k with squared norms nn_k in {1, 2, 4}, eigenvalues ev_k
EigMap(type, LL, r, r0, k, u, nn, ev, rdiag, norm) ==
  LET f == Map(type, LL, r, r0, k, Outer(u), rdiag, norm) IN <<f[1] * ev, f[2] * nn>>
\* 4 times the sum of roots t_n over the components
Mix(g, r, k, us, nn, t) == ISum([n \in 1..Len(us) |-> (4 \div nn[n]) * t[n] * Quad(g, r, k, Outer(us[n]), TRUE)])
Functional(type, LL, r, r0, k, us, nn, t, gamma) ==
  LET g == G(type, LL, r)
      X == Mix(g, r, k, us, nn, t)
      a == A(type, LL, r, r0)
  IN <<IPow(X, gamma) * a[1], IPow(4, gamma) * IPow(T2(g), gamma - 1) * a[2]>>
\* inverse of the eigenvalues with 12 as a common multiple
Capon(type, LL, r, r0, k, us, nn, ev) ==
  LET g == G(type, LL, r)
      X == Mix(g, r, k, us, nn, [n \in 1..Len(ev) |-> 12 \div ev[n]])
      a == A(type, LL, r, r0)
  IN <<48 * a[2], Len(r) * Len(r) * a[1] * X>>
\* number of the eigenvalue that is meant by n
EigNo(n, M) == LET v == IF n < 0 THEN (IF M + n < 0 THEN 0 ELSE M + n) ELSE n IN IF v < M - 1 THEN v ELSE M - 1

\* ---- reading rows: what a key selects from n rows -----------------------------------------------
Wrap(i, n) == IF i < 0 THEN n + i ELSE i
Cut(i, n) == LET v == Wrap(i, n) IN IF v < 0 THEN 0 ELSE IF v > n THEN n ELSE v
Rows(key, n) == CASE key.k = "int" -> <<Wrap(key.i[1], n)>>
                  [] key.k = "list" -> [j \in 1..Len(key.i) |-> Wrap(key.i[j], n)]
                  [] key.k = "all" -> [j \in 1..n |-> j - 1]
                  [] key.k = "slice" -> LET a == Cut(key.i[1], n) b == Cut(key.i[2], n) IN
                                        [j \in 1..(IF b > a THEN b - a ELSE 0) |-> a + j - 1]
\* ---- decimals: num/den * 10^d by long division (den < 2 * 10^8) ---------------------------------
RECURSIVE Digits(_, _, _, _)
Digits(q, rest, den, d) == IF d = 0 THEN q ELSE Digits(10 * q + (10 * rest) \div den, (10 * rest) % den, den, d - 1)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Red(f) == LET d == Gcd(f[1], f[2]) IN <<f[1] \div d, f[2] \div d>>
DecP(n0, d0, d) == LET f == Red(<<n0, d0>>)
                      num == IF f[2] < 200000000 THEN f[1] ELSE f[1] \div 16       \* far below the precision that is asked for
                      den == IF f[2] < 200000000 THEN f[2] ELSE f[2] \div 16 IN Digits(num \div den, num % den, den, d)
Dec(f, d) == IF f[1] < 0 THEN 0 - DecP(0 - f[1], f[2], d) ELSE DecP(f[1], f[2], d)
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Close(x, y) == Abs(x - y) <= 2 + Abs(y) \div 20000
=============================================================================
