------------------------------- MODULE Arrays -------------------------------
(* Containers that the particles of a loop read, write and contribute to.     *)
(*   st[r][c]  particles <<id, x>> of cell c-1 of rank r-1, x: what was read   *)
(*   la, lr    local arrays of each rank,  nd  a 2 x 3 x 2 array of each rank  *)
(*   ga, gr    global arrays (one value, held by all ranks)                    *)
(*   cc, cr    NR x NC entries for each cell (row after row)                   *)
(*   cd        rows of two entries for each cell                               *)
(* A loop visits the particles Mem(e, r, c); what it leaves in a container is  *)
(* the value before combined with the contributions of exactly these.          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
VARIABLES st, la, lr, ga, gr, nd, cc, cr, cd
L == 5  G == 4  NR == 3  NC == 2  DC == 2

Mem(e, r, c) ==
  IF \E x \in ToSet(e.rs[r]) : x[1] <= c - 1 /\ c - 1 < x[2]
    THEN SelectSeq(st[r][c], LAMBDA p : p[1] % e.m = e.k) ELSE <<>>
RankMem(e, r) == FlattenSeq([c \in DOMAIN st[r] |-> Mem(e, r, c)])
AllMem(e) == FlattenSeq([r \in DOMAIN st |-> RankMem(e, r)])

\* contributions V(p) to entry I(p), combined with Op
Contrib(arr, mem, I(_), V(_), Op(_, _)) ==
  FoldLeft(LAMBDA acc, p : [acc EXCEPT ![I(p)] = Op(@, V(p))], arr, mem)
Plus(a, b) == a + b
Least(a, b) == IF a < b THEN a ELSE b
Most(a, b) == IF a < b THEN b ELSE a
Put(a, b) == b

LI(p) == (p[1] % L) + 1
LJ(p) == ((p[1] + 1) % L) + 1
NI(p) == (((p[1] % 2)) * 3 + (p[1] % 3)) * 2 + ((p[1] \div 2) % 2) + 1
GI(p) == (p[1] % G) + 1
GJ(p) == ((p[1] + 1) % G) + 1
CI(p) == ((p[1] % NR)) * NC + ((p[1] \div 2) % NC) + 1
CJ(p) == (((p[1] + 1) % NR)) * NC + (p[1] % NC) + 1
Up(e, p) == e.a + (p[1] % 3)
Down(e, p) == -e.a - (p[1] % 4)
MA(e, p) == e.a * (((p[1] * 7) % 11) - 5)
MB(e, p) == e.a * (((p[1] * 5) % 13) - 6)

Upd(arrs, e, I(_), V(_), Op(_, _)) ==  \* one array for each rank
  [r \in DOMAIN arrs |-> Contrib(arrs[r], RankMem(e, r), I, V, Op)]
CUpd(arrs, e, I(_), V(_), Op(_, _)) ==  \* one array for each cell
  [r \in DOMAIN arrs |-> [c \in DOMAIN arrs[r] |->
     Contrib(arrs[r][c], Mem(e, r, c), I, V, Op)]]

LaNew(e) ==
  CASE e.op = "ladd" ->
         [r \in DOMAIN la |-> Contrib(
            Contrib(la[r], RankMem(e, r), LI, LAMBDA p : Up(e, p), Plus),
            RankMem(e, r), LAMBDA p : 1, LAMBDA p : 2, Plus)]
    [] e.op = "lwrite" -> Upd(la, e, LI, LAMBDA p : e.a, Put)
    [] e.op = "ticket" -> Upd(la, e, LAMBDA p : 3, LAMBDA p : 1, Plus)
    [] OTHER -> la
LrNew(e) ==
  CASE e.op = "ladd" -> Upd(lr, e, LJ, LAMBDA p : Down(e, p), Plus)
    [] e.op = "lwrite" -> Upd(lr, e, LJ, LAMBDA p : e.a + 1, Put)
    [] OTHER -> lr
NdNew(e) ==
  CASE e.op = "ladd" -> Upd(nd, e, NI, LAMBDA p : e.a, Plus)
    [] e.op = "lwrite" -> Upd(nd, e, NI, LAMBDA p : e.a + 2, Put)
    [] OTHER -> nd
GaNew(e) ==
  IF e.op = "gadd"
    THEN Contrib(Contrib(ga, AllMem(e), GI, LAMBDA p : Up(e, p), Plus),
                 AllMem(e), LAMBDA p : 2, LAMBDA p : 1, Plus)
    ELSE ga
GrNew(e) == IF e.op = "gadd" THEN Contrib(gr, AllMem(e), GJ, LAMBDA p : Down(e, p), Plus)
            ELSE gr
CcNew(e) ==
  CASE e.op = "cadd" -> CUpd(cc, e, CI, LAMBDA p : Up(e, p), Plus)
    [] e.op = "rplus" -> CUpd(cc, e, CI, LAMBDA p : MA(e, p), Plus)
    [] e.op \in {"cmin", "rmin"} -> CUpd(cc, e, CI, LAMBDA p : MA(e, p), Least)
    [] e.op \in {"cmax", "rmax"} -> CUpd(cc, e, CI, LAMBDA p : MA(e, p), Most)
    [] e.op = "cwrite" -> CUpd(cc, e, CI, LAMBDA p : e.a, Put)
    [] OTHER -> cc
CrNew(e) ==
  CASE e.op = "cadd" -> CUpd(cr, e, CJ, LAMBDA p : Down(e, p), Plus)
    [] e.op = "rplus" -> CUpd(cr, e, CJ, LAMBDA p : MB(e, p), Plus)
    [] e.op \in {"cmin", "rmin"} -> CUpd(cr, e, CJ, LAMBDA p : MB(e, p), Least)
    [] e.op \in {"cmax", "rmax"} -> CUpd(cr, e, CJ, LAMBDA p : MB(e, p), Most)
    [] e.op = "cwrite" -> CUpd(cr, e, CJ, LAMBDA p : e.a + 1, Put)
    [] OTHER -> cr
CdCell(e, d, mem, V(_), Op(_, _)) ==
  IF d = <<>> THEN d
  ELSE FoldLeft(LAMBDA acc, p : [acc EXCEPT ![(p[1] % Len(d)) + 1][(p[1] % DC) + 1] =
                                   Op(@, V(p))], d, mem)
CdNew(e) ==
  CASE e.op = "dadd" -> [r \in DOMAIN cd |-> [c \in DOMAIN cd[r] |->
          CdCell(e, cd[r][c], Mem(e, r, c), LAMBDA p : Up(e, p), Plus)]]
    [] e.op = "dwrite" -> [r \in DOMAIN cd |-> [c \in DOMAIN cd[r] |->
          CdCell(e, cd[r][c], Mem(e, r, c), LAMBDA p : e.a, Put)]]
    [] OTHER -> cd

\* what particle p of cell c of rank r reads
ReadX(e, r, c, p) ==
  CASE e.op = "lread" -> la[r][LI(p)] + 3 * lr[r][LJ(p)] + 7 * nd[r][NI(p)]
    [] e.op = "gread" -> ga[GI(p)] + 3 * gr[GJ(p)]
    [] e.op = "cread" -> cc[r][c][CI(p)] + 3 * cr[r][c][CJ(p)]
    [] e.op = "dread" -> IF cd[r][c] = <<>> THEN p[2]
                         ELSE cd[r][c][(p[1] % Len(cd[r][c])) + 1][(p[1] % DC) + 1]
    [] OTHER -> p[2]

\* the particles after the loop: same places, x as read
Reads(e, new) ==
  /\ DOMAIN new = DOMAIN st
  /\ \A r \in DOMAIN st :
       /\ DOMAIN new[r] = DOMAIN st[r]
       /\ \A c \in DOMAIN st[r] :
            LET mem == ToSet(Mem(e, r, c))
            IN /\ Len(new[r][c]) = Len(st[r][c])
               /\ \A i \in DOMAIN st[r][c] :
                    LET p == st[r][c][i]  q == new[r][c][i]
                    IN IF p \in mem
                         THEN IF e.op = "ticket" THEN q[1] = p[1]
                              ELSE q = <<p[1], ReadX(e, r, c, p)>>
                         ELSE q = p
\* each visited particle of a rank drew its own ticket, counting on from la[3]
Tickets(e, new) ==
  \A r \in DOMAIN st :
    LET ids == {p[1] : p \in ToSet(RankMem(e, r))}
        drawn == UNION {{q[2] : q \in {x \in ToSet(new[r][c]) : x[1] \in ids}}
                         : c \in DOMAIN new[r]}
        n == Cardinality(ids)
    IN drawn = {la[r][3] + i : i \in 0 .. (n - 1)}

\* ------------------------------------------------------------- host writes
HostLa(e) == CASE e.what = "lafill" -> [r \in DOMAIN la |-> [i \in 1 .. L |-> e.a]]
               [] e.what = "laset" -> [r \in DOMAIN la |->
                    [i \in 1 .. L |-> e.a + i - 1 + 10 * (r - 1)]]
               [] OTHER -> la
HostNd(e) == CASE e.what = "ndset" -> [r \in DOMAIN nd |->
                    [i \in 1 .. 12 |-> e.a + i - 1 + 10 * (r - 1)]]
               [] e.what = "ndfill" -> [r \in DOMAIN nd |-> [i \in 1 .. 12 |-> e.a]]
               [] OTHER -> nd
HostGa(e) == IF e.what = "gafill" THEN [i \in 1 .. G |-> e.a] ELSE ga
CellHost(e, nm, arrs) ==
  CASE e.what = nm \o "fill" -> [r \in DOMAIN arrs |-> [c \in DOMAIN arrs[r] |->
          [i \in 1 .. NR * NC |-> e.a]]]
    [] e.what = nm \o "all" -> [r \in DOMAIN arrs |-> [c \in DOMAIN arrs[r] |->
          [i \in 1 .. NR * NC |-> e.a + c - 1 + i - 1]]]
    [] e.what = nm \o "cell" -> [r \in DOMAIN arrs |->
          [arrs[r] EXCEPT ![e.at[r][1] + 1] = [i \in 1 .. NR * NC |-> e.a + i - 1]]]
    [] e.what = nm \o "value" -> [r \in DOMAIN arrs |->
          [arrs[r] EXCEPT ![e.at[r][1] + 1][e.at[r][2] * NC + e.at[r][3] + 1] = e.a]]
    [] OTHER -> arrs
HostCd(e) ==
  IF e.what \notin {"cdvalue", "cdcell", "cdrows"} THEN cd
  ELSE [r \in DOMAIN cd |->
    LET c == e.at[r][1] + 1  x == e.at[r][2]
    IN IF c = 0 THEN cd[r]
       ELSE [cd[r] EXCEPT ![c] =
         CASE e.what = "cdvalue" -> [@ EXCEPT ![x + 1][e.at[r][3] + 1] = e.a]
           [] e.what = "cdcell" -> [i \in DOMAIN @ |->
                [j \in 1 .. DC |-> e.a + (i - 1) * DC + j - 1]]
           [] OTHER -> [i \in 1 .. x |-> IF i <= Len(@) THEN @[i] ELSE
                [j \in 1 .. DC |-> 100 + (i - 1) * DC + j - 1]]]]
\* every rank holds the value of a global array
Same(e, f) == \A r \in DOMAIN e : e[r] = f
=============================================================================
