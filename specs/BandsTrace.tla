----------------------------- MODULE BandsTrace -----------------------------
EXTENDS Bands, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, bad, s, F, V
T == Traces[t]
E == T.ev[l]
TraceInit == /\ t \in 1..Len(Traces) /\ l = 1 /\ bad = "" /\ F = <<>> /\ V = <<>>
             /\ s = Traces[t].init
\* V[k][p]: value of line k at point p
RECURSIVE Sum(_, _)
Sum(K, p) == IF K = {} THEN 0 ELSE LET k == CHOOSE k \in K : TRUE IN V[k][p] + Sum(K \ {k}, p)
RECURSIVE SumP(_, _)
SumP(K, P) == IF P = {} THEN 0 ELSE LET p == CHOOSE p \in P : TRUE IN Sum(K, p) + SumP(K, P \ {p})
Near(a, b, n) == Abs(a - b) <= n + 2 + Abs(b) \div 100000
Lines(f, num) == IF num = <<0>> THEN Line(F, f)
                 ELSE IF Len(num) = 2 THEN Interval(F, num[1], num[2])
                 ELSE Octave(F, f, num[1])
\* warnings: nothing in the band, or not exactly at a line
Warn(f, num) == IF Lines(f, num) = {} THEN 1 ELSE IF num = <<0>> /\ \A k \in 1..Len(F) : F[k] # f THEN 1 ELSE 0
Syn(f, num, out, w) ==
  IF Len(out) # Len(V[1]) THEN "one value for each point"
  ELSE IF \E p \in 1..Len(out) : ~Near(out[p], Sum(Lines(f, num), p), Len(F)) THEN "sum of the lines in the band"
  ELSE IF w # Warn(f, num) THEN "warns if no line fits" ELSE ""
P == {E.points[i] : i \in 1..Len(E.points)}
Tol(K) == 2 + (Cardinality(K) * Cardinality(P))
IntAll ==      \* spectrum of the chosen lines, all others zero
  IF Len(E.out) # Len(F) THEN "one value for each line"
  ELSE IF \E k \in 1..Len(F) : ~Near(E.out[k], IF (k - 1) \in Chosen(s, F) THEN SumP({k}, P) ELSE 0, Tol({k})) THEN "integrates the chosen lines"
  ELSE ""
IntRange ==    \* frequencies and spectrum of the lines in the range
  LET K == Interval(F, E.lo, E.hi) IN
  IF Len(E.f) # Cardinality(K) \/ Len(E.out) # Cardinality(K) THEN "lines in the range"
  ELSE IF \E i \in 1..Len(E.f) : LET k == CHOOSE k \in K : Cardinality({j \in K : j < k}) = i - 1
                                 IN E.f[i] # F[k] \/ ~Near(E.out[i], SumP({k}, P), Tol({k})) THEN "lines in the range"
  ELSE ""
IntBands == IF Len(E.out) # Len(E.f) THEN "one value for each band"
            ELSE IF \E i \in 1..Len(E.f) : ~Near(E.out[i], SumP(Lines(E.f[i], E.num), P), Tol(Lines(E.f[i], E.num))) THEN "sum of the lines in the band" ELSE ""
Look == IF E.il # Low(s, F) \/ E.ih # High(s, F) THEN "what was set last decides"
        ELSE IF {E.ind[i] : i \in 1..Len(E.ind)} # Chosen(s, F) \/ Len(E.ind) # Cardinality(Chosen(s, F)) THEN "chosen lines"
        ELSE IF E.fr # <<F[Norm(Low(s, F), F) + 1], IF High(s, F) = NIL THEN NIL ELSE F[Norm(High(s, F), F) + 1]>> THEN "range of frequencies"
        ELSE IF E.freqs # F THEN "frequencies" ELSE ""
\* eigenvalues: as the map, but the next line if the band is empty
Ev == LET K == IF Lines(E.f, E.num) = {} THEN {MinOf({k \in 1..Len(F) : F[k] >= E.f})} ELSE Lines(E.f, E.num)
      IN IF \E p \in 1..Len(E.out) : ~Near(E.out[p], Sum(K, p), Len(F)) THEN "sum of the lines in the band" ELSE ""
\* lists of bands
Many == IF Len(E.out) # Len(E.f) THEN "one value for each band"
        ELSE IF \E i \in 1..Len(E.f) : Syn(E.f[i], E.num, E.out[i], Warn(E.f[i], E.num)) # "" THEN "sum of the lines in the band"
        ELSE IF E.warn # Cardinality({i \in 1..Len(E.f) : Warn(E.f[i], E.num) = 1}) THEN "warns if no line fits" ELSE ""
\* standard bands: all that lie within the spectrum, without gaps
Std == <<315, 400, 500, 630, 800, 1000, 1250, 1600, 2000, 2500, 3150, 4000, 5000, 6300, 8000, 10000, 12500, 16000, 20000, 25000>>
Centres(num) == IF num = <<3>> THEN Std ELSE [i \in 1..7 |-> Std[3 * i - 2]]
Bar ==
  LET C == Centres(E.num)
      within == {i \in 1..Len(C) : /\ Less(F[2], 1000000, C[i], Down(E.num[1]) - 50)         \* lower edge above the first line
                                   /\ Less(C[i], Up(E.num[1]) + 50, F[Len(F)], 1000000)}      \* upper edge below the last
      got == {i \in 1..Len(C) : \E j \in 1..Len(E.f) : E.f[j] = C[i]}
  IN IF ~(within \subseteq got) \/ Cardinality(got) # Len(E.f) THEN "standard bands"
     ELSE IF \E a, b \in got : \E k \in a..b : k \notin got THEN "standard bands"
     ELSE IF Len(E.out) # Len(E.f) THEN "one value for each band"
     ELSE IF \E i \in 1..Len(E.f) : ~Near(E.out[i], Sum(Lines(E.f[i], E.num), 1), Len(F)) THEN "sum of the lines in the band"
     ELSE IF E.twice # [i \in 1..(2 * Len(E.out)) |-> E.out[(i + 1) \div 2]] THEN "bars" ELSE ""
Clause == IF E.x # "" THEN "no exception"
          ELSE CASE E.op \in {"low", "high", "range", "freqs", "lines"} -> ""
                 [] E.op = "look" -> Look
                 [] E.op = "syn" -> Syn(E.f, E.num, E.out, E.warn)
                 [] E.op = "intall" -> IntAll
                 [] E.op = "intrange" -> IntRange
                 [] E.op = "intbands" -> IntBands
                 [] E.op = "ev" -> Ev
                 [] E.op = "many" -> Many
                 [] E.op = "bar" -> Bar
Effect == /\ s' = CASE E.op = "low" -> SetLow(s, E.v) [] E.op = "high" -> SetHigh(s, E.v) [] E.op = "range" -> SetRange(s, E.lo, E.hi) [] OTHER -> s
          /\ F' = IF E.op = "freqs" THEN E.f ELSE F
          /\ V' = IF E.op = "lines" THEN E.v ELSE V
TraceNext ==
  /\ l <= Len(T.ev) /\ bad = "" /\ UNCHANGED t
  /\ IF Clause = "" THEN /\ l' = l + 1 /\ bad' = "" /\ Effect
                         /\ (l = Len(T.ev) => PrintT(<<"VERDICT", t, l, "ok">>))
     ELSE /\ bad' = Clause /\ UNCHANGED <<l, s, F, V>> /\ PrintT(<<"VERDICT", t, l, Clause>>)
TraceSpec == TraceInit /\ [][TraceNext]_<<t, l, bad, s, F, V>>
=============================================================================
