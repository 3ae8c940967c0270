-------------------------- MODULE FocusTimesTrace --------------------------
EXTENDS FocusTimes, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, bad
T == Traces[t]
E == T.ev[l]
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ bad = ""
q == E.q
NM == Len(q.mics)
NG == Len(q.grid)
Rows == 1..Len(E.delay)
\* E.delay[n][g][m], E.amp[n][g][m]
Delays == \A n \in Rows, g \in 1..NG, m \in 1..NM : DelayOK(E.delay[n][g][m], Dist2(FocusAt(q, g, n - 1), q.mics[m]))
\* distance that the amplitude laws see: with convective amplification times (1 - M cos)^2
Eff(n, g, m) ==
  LET D == E.delay[n][g][m] IN
  IF ~q.conv THEN D
  ELSE LET tau == 64 * (n - 1)
           v == [k \in 1..3 |-> 64 * q.path[k][2] + (2 * q.path[k][3] * tau) \div 64]      \* mm per sample
           p == FocusAt(q, g, n - 1)
           dot == (v[1] * (p[1] - q.mics[m][1]) + v[2] * (p[2] - q.mics[m][2]) + v[3] * (p[3] - q.mics[m][3])) \div 64
           mc == (1000 * dot) \div (C * ((D * 1024) \div 1000))
       IN (D * (Sq(1000 - mc) \div 1000)) \div 1000
\* 1/1000 samples to the reference: given, or the distance to the origin
Ref(n, g) == IF q.ref > 0 THEN q.ref ELSE E.r0[n][g]
RefOK == q.ref > 0 \/ \A n \in Rows, g \in 1..NG : DelayOK(E.r0[n][g], Dist2(FocusAt(q, g, n - 1), q.refpos))
Amps == \A n \in Rows, g \in 1..NG :
          AmpOK(q.type, E.amp[n][g], [m \in 1..NM |-> Eff(n, g, m)], Ref(n, g))
Term(n, g, m) == (E.amp[n][g][m] * Interp(q.x[m], n - 1, E.delay[n][g][m])) \div 1000      \* times 10000
Phi(n, g) == SumSeq([m \in 1..NM |-> Term(n, g, m)])
Loud(n, g) == SumSeq([m \in 1..NM |-> Abs(E.amp[n][g][m])])
\* rounding of amplitudes and delays
Tol(n, g) == 30 * NM + Loud(n, g) \div 60
Sums == \A n \in 1..Len(E.out), g \in 1..NG : Near(E.out[n][g], Phi(n, g), Tol(n, g))
\* squares, in 1/160000: recorded values are E.out
Sq3(x) == Sq(x \div 25)
Squares == \A n \in 1..Len(E.out), g \in 1..NG :
             LET full == Sq3(Phi(n, g))
                 auto == SumSeq([m \in 1..NM |-> Sq3(Term(n, g, m))])
                 want == IF q.rdiag THEN (IF full > auto THEN full - auto ELSE 0) ELSE full
                 tol == (Tol(n, g) \div 25 + 2) * 2 * (Abs(Phi(n, g)) \div 25 + SumSeq([m \in 1..NM |-> Abs(Term(n, g, m)) \div 25]) + Tol(n, g) \div 25 + 2)
             IN Near(E.out[n][g], want, tol)
\* as many rows as the longest delay leaves
NRows == LET dm == CHOOSE d \in {E.delay[n][g][m] : n \in Rows, g \in 1..NG, m \in 1..NM} :
                       \A n \in Rows, g \in 1..NG, m \in 1..NM : E.delay[n][g][m] <= d
         IN Len(E.out) >= Len(q.x[1]) - (dm \div 1000) - q.slack
Focus ==
  IF ~Assert(Frame(q), "frame") THEN ""
  ELSE IF Len(E.delay) = 0 \/ Len(E.delay) # Len(E.out) THEN "output for every sample"
  ELSE IF ~NRows THEN "output for every sample"
  ELSE IF ~Delays THEN "delays are those of the focus point"
  ELSE IF ~RefOK THEN "reference distance"
  ELSE IF q.type # "any" /\ ~Amps THEN "normalisation of the steering vector"
  ELSE IF q.sq THEN (IF Squares THEN "" ELSE "squared output") ELSE IF Sums THEN "" ELSE "sum of the delayed signals"
\* focusing on the source gives its signal (times r0)
Undo == IF \A n \in 1..Len(E.out) : Near(E.out[n], 1000 * E.s[n], 5) /\ Len(E.out) >= E.least THEN "" ELSE "focusing undoes the propagation"
\* one iteration of CLEAN in the time domain: the damped signal of the strongest focus point, or nothing
RECURSIVE Pow(_, _)
Pow(g, n) == IF n = 0 THEN 0 ELSE Sq(E.phi[n][g] \div 10) + Pow(g, n - 1)
Clean1 ==
  LET G == 1..Len(E.phi[1])
      N == Len(E.phi)
      zero(g) == \A n \in 1..N : Abs(E.gamma[n][g]) <= 1
      big(g) == \A h \in G : Pow(h, N) <= Pow(g, N) + Pow(g, N) \div 100 + 10 IN
  IF Len(E.gamma) # N THEN "as many samples as delay and sum"
  ELSE IF \A g \in G : zero(g) THEN (IF E.must THEN "takes the strongest focus point" ELSE "")
  ELSE IF \E g \in G : /\ big(g) /\ (\A h \in G \ {g} : zero(h))
                       /\ \A n \in 1..N : Near(E.gamma[n][g], (E.phi[n][g] * E.damp) \div 100, 2) THEN ""
  ELSE "takes the strongest focus point"
\* focus points that hear a smooth signal: each iteration of CLEAN takes the damped share of what the
\* one before left over, so after k iterations 1 - (1 - damp)^k of the signal; the ends of the signal
\* (skip samples) are left out.  damp in percent
RECURSIVE Left(_, _)
Left(d, k) == IF k = 0 THEN 10000 ELSE (Left(d, k - 1) * (100 - d)) \div 100
CleanK ==
  IF Len(E.gamma) # Len(E.phi) \/ Len(E.phi) < 2 * E.skip + 1 THEN "as many samples as delay and sum"
  ELSE IF \A n \in (E.skip + 1)..(Len(E.phi) - E.skip) :
            Near(E.gamma[n][1], ((E.phi[n][1] \div 4) * (10000 - Left(E.damp, E.k))) \div 2500, Abs(E.phi[n][1]) \div E.rel + 3) THEN ""
  ELSE "iterations take what is left over"
Clause == IF E.x # "" THEN "no exception"
          ELSE CASE E.op = "focus" -> Focus
                 [] E.op = "undo" -> Undo
                 [] E.op = "clean1" -> Clean1
                 [] E.op = "cleank" -> CleanK
TraceNext ==
  /\ l <= Len(T.ev) /\ bad = "" /\ UNCHANGED t
  /\ IF Clause = "" THEN /\ l' = l + 1 /\ bad' = ""
                         /\ (l = Len(T.ev) => PrintT(<<"VERDICT", t, l, "ok">>))
     ELSE /\ bad' = Clause /\ UNCHANGED l /\ PrintT(<<"VERDICT", t, l, Clause>>)
TraceSpec == TraceInit /\ [][TraceNext]_<<t, l, bad>>
=============================================================================
