---------------------------- MODULE OverlayTrace ----------------------------
(* Overlay meshes: points and boxes to cells. Maps of degrees of freedom to   *)
(* the numbering of somebody else. Quadrature points: values that are set or  *)
(* computed where a point is owned are those got where it was added.          *)
(* Numbers of meshes are multiples of the unit in use: exact when E.exact,    *)
(* otherwise rounded, and compared with one unit of tolerance.                *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TraceIO
VARIABLES nranks, ov, perm, pts, vals, l
vars == <<nranks, ov, perm, pts, vals, l>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.ev = e
Step == l' = l + 1
Keep == UNCHANGED <<nranks, ov, perm, pts, vals>>
None == [nd |-> 0]
Unknown == -1000000
TInit == l = 1 /\ nranks = 0 /\ ov = None /\ perm = <<>> /\ pts = <<>> /\ vals = <<>>
TEnd == Is("end") /\ Step /\ Keep
TWorld == /\ Is("init") /\ Step /\ nranks' = E.ranks /\ ov' = None
          /\ perm' = <<>> /\ pts' = <<>> /\ vals' = <<>>
Ranks == 1 .. nranks
\* ------------------------------------------------------------ overlay meshes
Dims == 1 .. ov.nd
RECURSIVE Prod(_, _)
Prod(s, n) == IF n = 0 THEN 1 ELSE s[n] * Prod(s, n - 1)
TOverlay ==
  /\ Is("overlay") /\ Step /\ UNCHANGED <<nranks, perm, pts, vals>>
  /\ ov' = [nd |-> E.nd, o |-> E.origin, e |-> E.extent, n |-> E.counts,
            exact |-> E.exact]
  /\ Must(l, "the number of cells", E.total = Prod(E.counts, E.nd))
  /\ Must(l, "as many cells as asked for, less than twice as many",
       E.want > 0 => E.total >= E.want /\ E.total < 2 * E.want)
\* times the number of cells, to stay with integers
Lower(d, c) == ov.o[d] * ov.n[d] + c * ov.e[d]
Upper(d, c) == Lower(d, c + 1)
Slack(d) == IF ov.exact THEN 0 ELSE 2 * ov.n[d]
At(d, x) == x * ov.n[d]
Cells(d) == 0 .. ov.n[d] - 1
\* c is a cell with x in its closure or, if there is none, the nearest
Nearest(d, x, c) ==
  /\ c \in Cells(d)
  /\ c > 0 => Lower(d, c) - Slack(d) <= At(d, x)
  /\ c < ov.n[d] - 1 => At(d, x) <= Upper(d, c) + Slack(d)
Linear(t) == FoldLeft(LAMBDA a, k : LET d == ov.nd + 1 - k IN a * ov.n[d] + t[d],
                      0, [k \in Dims |-> k])
TMap ==
  /\ Is("map") /\ Step /\ Keep
  /\ Must(l, "a point is in its cell, or outside and next to it",
       \A d \in Dims : Nearest(d, E.at[d], E.device[d]))
  /\ Must(l, "the host has the same answer",
       /\ E.host = E.device /\ (E.inside => E.method = E.device))
  /\ Must(l, "the index of a cell",
       /\ E.linear = Linear(E.device) /\ E.linear_host = E.linear
       /\ E.linear_method = E.linear)
  /\ Must(l, "cells of points are cells", E.valid)
TValid == /\ Is("valid") /\ Step /\ Keep
          /\ Must(l, "what is no cell is not valid",
               E.valid = \A d \in Dims : E.tuple[d] \in Cells(d))
Close(d, a, b) == a - b <= Slack(d) /\ b - a <= Slack(d)
TBounds == /\ Is("bounds") /\ Step /\ Keep
           /\ Must(l, "the bounds of a cell", \A d \in Dims :
                /\ Close(d, At(d, E.lo[d]), Lower(d, E.tuple[d]))
                /\ Close(d, At(d, E.hi[d]), Upper(d, E.tuple[d])))
\* cells that touch the interval by at least s, those outside being the nearest
Touch(d, lo, hi, s) ==
  {c \in Cells(d) : /\ c < ov.n[d] - 1 => At(d, lo) <= Upper(d, c) - s
                    /\ c > 0 => At(d, hi) >= Lower(d, c) + s}
\* linear indices of the cells of a product of ranges
RECURSIVE Box(_, _)
Box(ranges, d) ==
  IF d > ov.nd THEN {0}
  ELSE {c + ov.n[d] * k : c \in ranges[d], k \in Box(ranges, d + 1)}
Has(s) == {s[i] : i \in DOMAIN s}
TIntersect ==
  /\ Is("intersect") /\ Step /\ Keep
  /\ LET must == Box([d \in Dims |-> Touch(d, E.lo[d], E.hi[d], Slack(d))], 1)
         may == Box([d \in Dims |-> Touch(d, E.lo[d], E.hi[d], -Slack(d))], 1)
     IN /\ Must(l, "every cell that intersects is reported", must \subseteq Has(E.cells))
        /\ Must(l, "only cells that intersect are reported", Has(E.cells) \subseteq may)
        /\ Must(l, "no cell is reported twice", Cardinality(Has(E.cells)) = Len(E.cells))
        /\ Must(l, "the cells of the points of a box are among those reported",
             Has(E.hit) \subseteq Has(E.cells))
Low(a, b) == IF a < b THEN a ELSE b
High(a, b) == IF a < b THEN b ELSE a
TExpand ==
  /\ Is("expand") /\ Step /\ Keep
  /\ LET both == [d \in 1 .. 6 |-> IF d < 4 THEN Low(E.a[d], E.b[d])
                                   ELSE High(E.a[d], E.b[d])]
     IN Must(l, "the smallest box with both", E.x = both /\ E.z = both /\ E.y = E.b)
  /\ Must(l, "a box contains its points",
       E.has = \A d \in DOMAIN E.p : E.b[d] <= E.p[d] /\ E.p[d] <= E.b[d + 3])
\* -------------------------------------------------------- degrees of freedom
TDofSet == /\ Is("dofset") /\ Step /\ perm' = E.perm
           /\ UNCHANGED <<nranks, ov, pts, vals>>
TDofCopy ==
  /\ Is("dofcopy") /\ Step /\ Keep
  /\ \A r \in Ranks :
       LET p == perm[r]
           cells == E.all[r][1]
           ext == E.all[r][2]
           cells2 == E.all[r][3]
           ext2 == E.all[r][4]
           n == Len(p)
       IN /\ Must(l, "the map is what was set", E.all[r][5] = p)
          /\ Must(l, "nothing after the last is written", ext2[n + 1] = -77)
          /\ Must(l, "each value at the place of its degree of freedom",
               IF E.out
               THEN cells2 = cells /\ \A i \in 1 .. n : ext2[p[i] + 1] = cells[i]
               ELSE /\ SubSeq(ext2, 1, n) = ext
                    /\ \A i \in 1 .. n : cells2[i] = ext[p[i] + 1])
\* --------------------------------------------------------- quadrature points
TPoints ==
  /\ Is("points") /\ Step /\ pts' = E.at /\ vals' = <<>>
  /\ UNCHANGED <<nranks, ov, perm>>
  /\ Must(l, "points_added", ~E.before /\ E.after)
  /\ LET keys == UNION {{<<E.rows[r][i][1], E.rows[r][i][2]>> : i \in DOMAIN E.rows[r]} : r \in Ranks}
         want == UNION {{<<r - 1, i - 1>> : i \in DOMAIN E.at[r]} : r \in Ranks}
     IN /\ Must(l, "every point has one owner",
             /\ keys = want
             /\ FoldLeft(LAMBDA a, r : a + Len(E.rows[r]), 0, [r \in Ranks |-> r])
                  = Cardinality(want))
        /\ Must(l, "points are where they were added",
             \A r \in Ranks : \A i \in DOMAIN E.rows[r] :
               LET p == E.rows[r][i] IN p[5] = E.at[p[1] + 1][p[2] + 1])
  /\ Must(l, "the points of a cell that were added by its owner are numbered",
       \A r \in Ranks :
         LET own == {i \in DOMAIN E.rows[r] : E.rows[r][i][1] = r - 1}
             in(c) == {i \in own : E.rows[r][i][3] = c}
         IN /\ \A i \in DOMAIN E.rows[r] \ own : E.rows[r][i][4] = -1
            /\ \A c \in {E.rows[r][i][3] : i \in own} :
                 {E.rows[r][i][4] : i \in in(c)} = 0 .. Cardinality(in(c)) - 1)
Old(nc) == IF nc \in DOMAIN vals THEN vals[nc]
           ELSE [r \in Ranks |-> [i \in 1 .. nc * Len(pts[r]) |-> Unknown]]
Store(nc, v) == vals' = [k \in DOMAIN vals \cup {nc} |-> IF k = nc THEN v ELSE vals[k]]
TQset == /\ Is("qset") /\ Step /\ UNCHANGED <<nranks, ov, perm, pts>>
         /\ Store(E.nc, E.values)
TQwrite == /\ Is("qwrite") /\ Step /\ UNCHANGED <<nranks, ov, perm, pts>>
           /\ Store(E.nc, [r \in Ranks |-> [i \in 1 .. E.nc * Len(pts[r]) |->
                E.salt + 10000 * (r - 1) + 100 * ((i - 1) \div E.nc) + ((i - 1) % E.nc)]])
RECURSIVE Horner(_, _)
Horner(p, k) == IF k > Len(p) THEN 0 ELSE p[k] + 3 * Horner(p, k + 1)
F(p) == 5 + Horner(p, 1)
TInterp ==
  /\ Is("interp") /\ Step /\ UNCHANGED <<nranks, ov, perm, pts>>
  /\ Store(E.nc, [r \in Ranks |-> [i \in 1 .. E.nc * Len(pts[r]) |->
       LET c == (i - 1) % E.nc
           p == pts[r][((i - 1) \div E.nc) + 1]
       IN IF E.comp = -1 THEN (IF c = 1 THEN 2 * F(p) ELSE F(p))
          ELSE IF c = E.comp THEN F(p)
          ELSE Old(E.nc)[r][i]]])
TQget ==
  /\ Is("qget") /\ Step /\ Keep
  /\ LET v == Old(E.nc)
     IN \A r \in Ranks :
          /\ Must(l, "one value per point and component", Len(E.got[r]) = Len(v[r]))
          /\ Must(l, "the values of the points", \A i \in DOMAIN v[r] :
               v[r][i] # Unknown => E.got[r][i] = v[r][i])
TNext == \/ TEnd \/ TWorld \/ TOverlay \/ TMap \/ TValid \/ TBounds \/ TIntersect
         \/ TExpand \/ TDofSet \/ TDofCopy \/ TPoints \/ TQset \/ TQwrite
         \/ TInterp \/ TQget
TSpec == TInit /\ [][TNext]_vars
TraceAccepted ==
  /\ TLCGet("stats").diameter - 1 = Len(Trace)
  /\ Trace[Len(Trace)].ev = "end"
=============================================================================
