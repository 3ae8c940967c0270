---------------------------- MODULE RegionsTrace ----------------------------
EXTENDS Regions, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, bad
T == Traces[t]
E == T.ev[l]
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ bad = ""
\* multi-index <<i, j, ...>> (from 0) to the number of the point (from 1)
RECURSIVE Flat(_, _)
Flat(sh, ix) == IF ix = <<>> THEN 0 ELSE Flat(SubSeq(sh, 1, Len(sh) - 1), SubSeq(ix, 1, Len(ix) - 1)) * sh[Len(sh)] + ix[Len(ix)]
Numbers(sh, idx) == {Flat(sh, idx[k]) + 1 : k \in 1..Len(idx)}
Axes == E.axes
Want == IF Len(Axes) = 2 THEN [p \in 1..(Steps(Axes[1]) * Steps(Axes[2])) |-> Append(Rect(Axes[1], Axes[2])[p], E.z)]
        ELSE Rect3(Axes[1], Axes[2], Axes[3])
RectClause ==
  IF E.shape # [k \in 1..Len(Axes) |-> Steps(Axes[k])] THEN "shape"
  ELSE IF E.size # Len(Want) THEN "size is the number of points"
  ELSE IF E.pos # Want THEN "positions in row-major order"
  ELSE IF \E k \in 1..Len(E.q) : E.ix[k] # [a \in 1..Len(Axes) |-> Nearest(Axes[a], E.q[k][a])] THEN "index gives the nearest point"
  ELSE IF E.self # [p \in 1..Len(Want) |-> p] THEN "index of the position of a point is the point"
  ELSE IF E.raised # [k \in 1..Len(E.out) |-> TRUE] THEN "coordinates outside raise"
  ELSE ""
LineClause == IF E.shape # <<E.n>> \/ E.size # E.n THEN "shape and size"
              ELSE IF E.pos # Line(E.loc, E.dir, E.step, E.n) THEN "points of the line" ELSE ""
MergeClause ==
  LET all == UNION {Elems(E.parts[g]) : g \in 1..Len(E.parts)} IN
  IF E.shape # <<Len(E.pos)>> \/ E.size # Len(E.pos) THEN "shape and size"
  ELSE IF Elems(E.pos) # all \/ Cardinality(all) # Len(E.pos) THEN "every point once"
  ELSE IF ~Ordered(E.pos) THEN "points in order"
  ELSE IF \E k \in 1..Len(E.pos) : E.sub[k] \notin 1..Len(E.parts) \/ E.pos[k] \notin Elems(E.parts[E.sub[k]]) THEN "subgrids belong to the points"
  ELSE ""
RECURSIVE Total(_, _)
Total(d, n) == IF n = 0 THEN 0 ELSE (IF E.sel[n] THEN d[n] ELSE 0) + Total(d, n - 1)
SectorClause ==
  IF E.sel \notin {[i \in 1..Len(E.pts) |-> i \in u] : u \in Unions(E.s, E.pts)} THEN "selects the points inside"
  ELSE IF Numbers(E.shape, E.sub) # {i \in 1..Len(E.pts) : E.sel[i]} THEN "subdomain is the selection"
  ELSE IF E.total # Total(E.data, Len(E.pts)) THEN "integral is the sum over the selection"
  ELSE ""
\* indices(): circle, rectangle, polygon or box given by numbers, on a rectangular grid; nearest if empty
IndicesClause ==
  LET in == In(E.s, E.pts) IN
  IF in = {} THEN (IF Len(E.idx) = 1 THEN "" ELSE "one point if none is inside")
  ELSE IF Numbers(E.shape, E.idx) # in \/ Len(E.idx) # Cardinality(in) THEN "indices of the points inside" ELSE ""
\* a span between two corners: everything between the points nearest to them
SpanClause ==
  LET lo == [a \in 1..Len(Axes) |-> Nearest(Axes[a], E.lo[a])]
      hi == [a \in 1..Len(Axes) |-> Nearest(Axes[a], E.hi[a])]
      in == {k \in 1..Len(E.all) : \A a \in 1..Len(Axes) : lo[a] <= E.all[k][a] /\ E.all[k][a] <= hi[a]}
  IN IF Numbers(E.shape, E.idx) # {Flat(E.shape, E.all[k]) + 1 : k \in in} THEN "indices between the corners" ELSE ""
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
\* extents that are no multiple of the increment
FreeClause == IF E.size # Prod(E.shape) \/ E.npos # E.size THEN "size is the number of points"
              ELSE IF E.self # [p \in 1..E.size |-> p] THEN "index of the position of a point is the point"
              ELSE IF ~E.corners THEN "from the first to the last corner"
              ELSE IF \E a \in 1..Len(Axes) : Abs((E.shape[a] - 1) * Axes[a].inc - (Axes[a].hi - Axes[a].lo)) * 2 > Axes[a].inc THEN "as many steps as fit"
              ELSE ""
Clause == IF E.x # "" THEN "no exception"
          ELSE CASE E.op = "rect" -> RectClause
                 [] E.op = "free" -> FreeClause
                 [] E.op = "span" -> SpanClause
                 [] E.op = "line" -> LineClause
                 [] E.op = "merge" -> MergeClause
                 [] E.op = "sector" -> SectorClause
                 [] E.op = "indices" -> IndicesClause
TraceNext ==
  /\ l <= Len(T.ev) /\ bad = "" /\ UNCHANGED t
  /\ IF Clause = "" THEN /\ l' = l + 1 /\ bad' = ""
                         /\ (l = Len(T.ev) => PrintT(<<"VERDICT", t, l, "ok">>))
     ELSE /\ bad' = Clause /\ UNCHANGED l /\ PrintT(<<"VERDICT", t, l, Clause>>)
TraceSpec == TraceInit /\ [][TraceNext]_<<t, l, bad>>
=============================================================================
