---------------------------- MODULE WindowsTrace ----------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
W == INSTANCE Windows
VARIABLES t, done
T == Traces[t]
E == T.ev[1]
Abs(a) == IF a < 0 THEN -a ELSE a
Near(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Abs(a[i] - b[i]) <= tol
Clause ==
  IF E.x # "" THEN "no-exception" ELSE
  CASE E.op = "rfft"  -> IF Len(E.out) # W!Count(Len(E.d), E.bs, E.ov) THEN "one spectrum per full window"
                         ELSE IF E.out # W!Spectra(E.d, E.bs, E.ov, E.sided) THEN "spectrum of the window" ELSE "ok"
    [] E.op = "cross" -> LET s == W!Spectra(E.d, E.bs, E.ov, FALSE) IN
                         IF Len(E.out) # Len(s) THEN "one spectrum per full window"
                         ELSE IF E.out # [k \in 1..Len(s) |-> W!CrossFlat(s[k], E.mode)] THEN "cross spectrum of the window" ELSE "ok"
    [] E.op = "power" -> LET s == W!Spectra(E.d, E.bs, E.ov, FALSE) IN
                         IF Len(E.out) # Len(s) THEN "one spectrum per full window"
                         ELSE IF E.out # [k \in 1..Len(s) |-> W!Power(s[k])] THEN "power spectrum of the window" ELSE "ok"
    [] E.op = "csm"   -> IF E.out # W!CSMSum(E.d, E.bs, E.ov) THEN "csm sums over all full windows"
                         ELSE IF ~E.flags.hermitian THEN "csm is Hermitian"
                         ELSE IF ~E.flags.eigen THEN "eigenvalues and eigenvectors are those of the csm" ELSE "ok"
    [] E.op = "blocks" -> IF E.nb # W!Count(E.n, E.bs, E.ov) \/ ~E.whole THEN "num_blocks is the number of averaged windows" ELSE "ok"
    [] E.op = "impulse" -> IF ~Near(E.out, W!Impulse(E.n, E.r, E.w, E.bs, E.ov), 2) THEN "window function weights the rows of the window" ELSE "ok"
    [] E.op = "impulsecsm" -> LET s == W!Impulse(E.n, E.r, E.w, E.bs, E.ov) IN
                         IF Abs(E.out - W!Sum(s)) > 2 + Len(s) THEN "window function weights the rows of the window" ELSE "ok"
    [] E.op = "back"  -> IF E.out # W!Back(E.d, E.bs, E.ov) THEN "inverse transform gives the windows back" ELSE "ok"
    [] E.op = "buffer" -> IF E.out # W!Blocks(E.n, E.rnum, E.shift) THEN "blocks of the buffer" ELSE "ok"
TraceInit == t \in 1..Len(Traces) /\ done = FALSE
TraceNext == /\ ~done /\ done' = TRUE /\ UNCHANGED t /\ PrintT(<<"VERDICT", t, 1, Clause>>)
TraceSpec == TraceInit /\ [][TraceNext]_<<t, done>>
=============================================================================
