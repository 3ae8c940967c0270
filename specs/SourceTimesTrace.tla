-------------------------- MODULE SourceTimesTrace --------------------------
EXTENDS SourceTimes, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, bad
T == Traces[t]
E == T.ev[l]
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ bad = ""
SILENT == -99999
NotHeard == -99998      \* the amplitude is that of no step
q == E.q
Len2 == q.n * q.up
Mod(i) == IF q.wrap THEN i % Len2 ELSE i
\* steps that may be heard at row k by microphone m: those of the list that fit
Fits(m, k, i, early) == Heard(q, m, i, SoundTime(q, k - 1 + early))
\* recorded step i (0..Len2 - 1): in a looped signal any step of the same place in the loop
Cands(i) == IF q.wrap THEN {i + (j * Len2) : j \in -3..3} ELSE {i, i - Len2}
CellOK(k, mi, early) ==
  LET c == E.cell[k][mi]
      m == q.mics[mi]
  IN IF c[1] = SILENT THEN q.zeros /\ Silent(q, m, SoundTime(q, k - 1))
     ELSE \E i \in Cands(c[1]) : /\ (q.zeros => i >= 0)
                                 /\ Fits(m, k, i, early)
                                 /\ (q.amp => DistOK(q, m, i, c[2], q.d))
\* negative times of emission rounded towards zero: one step late
LateOK(k, mi, early) ==
  LET c == E.cell[k][mi]
  IN \E i \in Cands(c[1]) : i <= 0 /\ Fits(q.mics[mi], k, i - 1, early) /\ (q.amp => DistOK(q, q.mics[mi], i - 1, c[2], q.d))
Rows == 1..Len(E.cell)
Chans == 1..Len(q.mics)
Propagation ==
  IF \A k \in Rows, mi \in Chans : CellOK(k, mi, 0) THEN
       \* ends when the signal ends: the step after the last row would be beyond it
       IF Len(E.cell) = q.n THEN ""
       ELSE IF Len(E.cell) < q.n /\ \E mi \in Chans : Heard(q, q.mics[mi], Len2, SoundTime(q, Len(E.cell)))
                                                  \/ Arrived(q.path, q.mics[mi], Hi(q, Len2 - 1), SoundTime(q, Len(E.cell))) THEN ""
       ELSE "delivers until the signal ends"
  ELSE IF ~q.zeros /\ \A k \in Rows, mi \in Chans : CellOK(k, mi, 0) \/ LateOK(k, mi, 0) THEN "negative times are rounded to the nearest step"
  ELSE IF \A k \in Rows, mi \in Chans : CellOK(k, mi, 1) \/ LateOK(k, mi, 1) THEN "one sample ahead of time"
  ELSE "microphones hear the front that just arrived"

\* superposition ------------------------------------------------------------------------------------
RECURSIVE Sum(_, _, _)
Sum(k, mi, n) == IF n = 0 THEN 0 ELSE E.w[n] * E.terms[n][k][mi] + Sum(k, mi, n - 1)
RECURSIVE SumAbs(_, _, _)
SumAbs(k, mi, n) == IF n = 0 THEN 0 ELSE Abs(E.w[n] * E.terms[n][k][mi]) + SumAbs(k, mi, n - 1)
Superposition ==
  IF E.parts # E.places THEN "parts"
  ELSE IF \E n \in 1..Len(E.terms) : Len(E.terms[n]) # Len(E.whole) THEN "as many samples as the parts"
  ELSE IF \A k \in 1..Len(E.whole) : \A mi \in 1..Len(E.whole[k]) :
            Abs(E.whole[k][mi] - Sum(k, mi, Len(E.terms))) <= E.tol + SumAbs(k, mi, Len(E.terms)) \div E.rel THEN "" ELSE "sum of the parts"
\* distance in a flow along x with Mach number mach/64: the front emitted at s is carried along while it travels
Flow == IF \A k \in 1..Len(E.r) :
             LET dx == 64 * (E.m[k][1] - E.s[k][1]) - E.mach * E.r[k]      \* 64 times the components
                 lhs == Sq(dx \div 64) + Sq(E.m[k][2] - E.s[k][2]) + Sq(E.m[k][3] - E.s[k][3])
             IN /\ Sq(E.r[k] + 2) >= lhs - 2 * Abs(dx \div 64) - 1
                /\ Sq(IF E.r[k] > 2 THEN E.r[k] - 2 ELSE 0) <= lhs + 2 * Abs(dx \div 64) + 1
        THEN "" ELSE "travel time in a flow"
Clause == IF E.x # "" THEN "no exception"
          ELSE CASE E.op = "prop" -> Propagation
                 [] E.op = "sum" -> Superposition
                 [] E.op = "flow" -> Flow
TraceNext ==
  /\ l <= Len(T.ev) /\ bad = "" /\ UNCHANGED t
  /\ IF Clause = "" THEN /\ l' = l + 1 /\ bad' = ""
                         /\ (l = Len(T.ev) => PrintT(<<"VERDICT", t, l, "ok">>))
     ELSE /\ bad' = Clause /\ UNCHANGED l /\ PrintT(<<"VERDICT", t, l, Clause>>)
TraceSpec == TraceInit /\ [][TraceNext]_<<t, l, bad>>
=============================================================================
