----------------------------- MODULE FlowsTrace -----------------------------
EXTENDS Flows, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, bad
T == Traces[t]
E == T.ev[l]
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ bad = ""
Near(a, b, e) == Abs(a - b) <= e
Ray == IF Len(E.r) # Len(E.g) THEN "one distance for each point"
       ELSE IF \E i \in 1..Len(E.g) : \E j \in 1..Len(E.r[i]) : E.r[i][j] < 0 \/ E.r[i][j] > 10000 THEN "every point is reached"
       ELSE IF \E i \in 1..Len(E.g) : \E j \in 1..Len(E.p) : Len(E.r[i]) # Len(E.p) \/ ~Heard(E.f, E.g[i], E.p[j], E.r[i][j], E.tol) THEN "travels with the air" ELSE ""
\* E.dv[i][k]: derivative of component i in direction k times the step
\* (at the edge of a core or shear layer it is one of the one-sided derivatives)
Field == IF \E i, k \in 1..3 : \A d \in {E.ahead[k][i] - E.back[k][i], 2 * E.ahead[k][i], -2 * E.back[k][i]} : ~Near(E.dv[i][k], d, 30 + Abs(E.dv[i][k]) \div 50) THEN "gradient of the flow" ELSE ""
SpinOk == IF \E i \in 1..3 : ~Near(E.v[i], Spin(E.w, E.v0, E.p)[i], 1) THEN "turns around the centre" ELSE ""
\* speeds at growing distances from the axis
Jet == IF E.u[1] > E.v0 + 1 \/ E.u[Len(E.u)] < 0 THEN "not faster than at the exit"
       ELSE IF \E i \in 1..(Len(E.u) - 1) : E.u[i + 1] > E.u[i] + 1 THEN "slower away from the axis"
       ELSE IF E.u[Len(E.u)] > E.v0 \div 20 THEN "at rest outside"
       ELSE IF E.core /\ ~Near(E.u[1], E.v0, 1) THEN "exit velocity in the core"
       ELSE IF \E k \in 1..Len(E.vs) : \E i \in 1..3 : ~Near(E.vs[k][i] * E.len, E.u[k] * E.dir[i], 2 * E.len + 2) THEN "blows along the axis"
       ELSE ""
\* the jet has the width of the exit in front of it, spreads and slows down from there, the same on both sides
Mouth == IF \E i \in 1..Len(E.inner) : ~Near(E.inner[i], E.v0, 1) THEN "exit velocity in front of the exit"
         ELSE IF \E i \in 1..Len(E.outer) : E.outer[i] > E.v0 \div 20 THEN "at rest beside the exit"
         ELSE IF \E i \in 1..(Len(E.axis) - 1) : E.axis[i + 1] > E.axis[i] + 1 THEN "slower downstream"
         ELSE IF ~Near(E.axis[2], E.v0, 1) \/ E.axis[3] > E.v0 - (E.v0 \div 1000) THEN "length of the core"
         ELSE IF \E i \in 1..Len(E.left) : ~Near(E.left[i], E.right[i], 1) THEN "symmetric"
         ELSE IF \E i \in 1..(Len(E.wide) - 1) : E.wide[i + 1] < E.wide[i] THEN "spreads" ELSE ""
Clause == IF E.x # "" THEN "no exception"
          ELSE CASE E.op = "ray" -> Ray [] E.op = "field" -> Field [] E.op = "spin" -> SpinOk [] E.op = "jet" -> Jet [] E.op = "mouth" -> Mouth
                 [] E.op = "same" -> IF E.got = E.want THEN "" ELSE "same for all microphones"
TraceNext ==
  /\ l <= Len(T.ev) /\ bad = "" /\ UNCHANGED t
  /\ IF Clause = "" THEN /\ l' = l + 1 /\ bad' = ""
                         /\ (l = Len(T.ev) => PrintT(<<"VERDICT", t, l, "ok">>))
     ELSE /\ bad' = Clause /\ UNCHANGED l /\ PrintT(<<"VERDICT", t, l, Clause>>)
TraceSpec == TraceInit /\ [][TraceNext]_<<t, l, bad>>
=============================================================================
