--------------------------- MODULE RotationTrace ---------------------------
EXTENDS Rotation, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, bad, s
T == Traces[t]
E == T.ev[l]
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ bad = "" /\ s = Traces[t].init
Near(a, b, e) == Abs(a - b) <= e
\* s: [P, K, A, D, S] with the start angle S in units of a revolution / (P K); angles come in thousandths of a unit
Circle == 1000 * s.P * s.K
AngleOk == IF Len(E.out) # E.n THEN "an angle for every sample"
           ELSE IF \E i \in 1..E.n : E.out[i] < 0 \/ E.out[i] > Circle THEN "angles within a revolution"
           ELSE IF \E i \in 1..E.n : LET d == (E.out[i] - 1000 * (s.S + Angle(s.D, s.K, s.A, i - 1))) % Circle IN ~(d <= 2 \/ d >= Circle - 2) THEN "turns with the wheel" ELSE ""
RpmOk == IF Len(E.out) # E.n THEN "a speed for every sample"
         ELSE IF \E i \in 1..E.n : ~Near(E.out[i] * s.P * s.K, Rpm(E.fs) * 1000, s.P * s.K) THEN "speed of the wheel"
         ELSE IF ~Near(E.avg * s.P * s.K, Rpm(E.fs) * 1000, s.P * s.K) THEN "average speed of the wheel" ELSE ""
\* E.at[i]: place of virtual microphone i at rest, E.turn[k]: what is added to it for sample k (both of E.m parts from one microphone to the next)
RingOk == IF Len(E.out) # Len(E.rows) THEN "a sample for each sample"
          ELSE IF \E k \in 1..Len(E.rows) : Len(E.out[k]) # Len(E.at) \/ \E i \in 1..Len(E.at) :
                 ~Near(E.out[k][i] * E.m, 1000 * Ring(E.rows[k], E.at[i] + (IF E.wheel THEN Round((s.S + Angle(s.D, s.K, s.A, k - 1)) * Len(E.rows[k]) * E.m, s.P * s.K) ELSE E.turn * (k - 1)), E.m), 2 * E.m) THEN "interpolated between neighbours" ELSE ""
\* a wheel of varying speed, signals at the samples E.pk; angles in thousandths of the way between signals, speeds in revolutions per minute
Off(k, j) == (s.D * (E.out[E.pk[j] + k + 1] - E.S) - 1000 * (j - 1)) % (1000 * s.P)
Within(d, lo, hi) == d <= hi \/ d - 1000 * s.P >= lo
UnevenOk == IF Len(E.out) # E.n \/ Len(E.rpm) # E.n THEN "an angle for every sample"
            ELSE IF \E j \in 1..Len(E.pk) : ~Within(Off(0, j), -2, 2) THEN "at the angle of each signal"
            ELSE IF E.smooth /\ \E j \in 1..(Len(E.pk) - 1) : \E k \in 1..(E.pk[j + 1] - E.pk[j] - 1) : ~Within(Off(k, j), -50, 1050) THEN "between the angles of the signals"
            ELSE IF E.smooth /\ \E j \in 1..(Len(E.pk) - 1) : LET d == E.pk[j + 1] - E.pk[j] IN \E k \in 0..(d - 1) :
                    ~Near(E.rpm[E.pk[j] + k + 1] * s.P * d, 60 * E.fs, (60 * E.fs) \div 8 + s.P * d) THEN "speed between the signals" ELSE ""
Clause == IF E.x # "" THEN "no exception"
          ELSE CASE E.op = "set" -> "" [] E.op = "angle" -> AngleOk [] E.op = "rpm" -> RpmOk [] E.op = "ring" -> RingOk [] E.op = "uneven" -> UnevenOk
TraceNext ==
  /\ l <= Len(T.ev) /\ bad = "" /\ UNCHANGED t
  /\ IF Clause = "" THEN /\ l' = l + 1 /\ bad' = "" /\ s' = (IF E.op = "set" THEN E.s ELSE s)
                         /\ (l = Len(T.ev) => PrintT(<<"VERDICT", t, l, "ok">>))
     ELSE /\ bad' = Clause /\ UNCHANGED <<l, s>> /\ PrintT(<<"VERDICT", t, l, Clause>>)
TraceSpec == TraceInit /\ [][TraceNext]_<<t, l, bad, s>>
=============================================================================
