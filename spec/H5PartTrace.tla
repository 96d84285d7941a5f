---------------------------- MODULE H5PartTrace -----------------------------
(* Particle trajectory files. A file is a sequence of steps; a step is the    *)
(* bag of the particles that existed when it was written, each a row of the   *)
(* position and of the selected properties.                                   *)
EXTENDS TraceIO, Integers
VARIABLES ndim, files, l
vars == <<ndim, files, l>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.ev = e
Step == l' = l + 1
TInit == l = 1 /\ ndim = 0 /\ files = <<>>
TEnd == Is("end") /\ Step /\ UNCHANGED <<ndim, files>>
---------------------------------------------------------------------------
RECURSIVE Cat(_, _)
Cat(s, n) == IF n = 0 THEN <<>> ELSE Cat(s, n - 1) \o s[n]
CatSeq(s) == Cat(s, Len(s))
Bag(s) == [x \in ToSet(s) |-> Cardinality({i \in DOMAIN s : s[i] = x})]
Pos(s, x) == CHOOSE i \in DOMAIN s : s[i] = x
XYZ == <<"x", "y", "z">>
\* the columns of a file that stores the properties syms = <<name, ncomp, type>>
Names(syms) ==
  SubSeq(XYZ, 1, ndim) \o
  CatSeq([k \in DOMAIN syms |->
     [c \in 1 .. syms[k][2] |-> syms[k][1] \o "_" \o ToString(c - 1)]])
Types(syms) ==
  [d \in 1 .. ndim |-> "d"] \o
  CatSeq([k \in DOMAIN syms |-> [c \in 1 .. syms[k][2] |-> syms[k][3]]])
TFiles ==
  /\ Is("init") /\ Step /\ ndim' = E.ndim
  /\ files' = [f \in DOMAIN E.files |->
                 [syms |-> E.files[f], next |-> 0, steps |-> <<>>]]
\* one more step, which holds the rows of all ranks
TWrite ==
  /\ Is("write") /\ Step /\ UNCHANGED ndim
  /\ LET F == files[E.f]
         s == IF E.arg >= 0 THEN E.arg ELSE F.next
     IN files' = [files EXCEPT ![E.f].next = s + 1,
                    ![E.f].steps = Append(@, [step |-> s,
                                              rows |-> CatSeq(E.rows)])]
\* what is in the file, seen by a program that knows only HDF5
TRaw ==
  /\ Is("raw") /\ Step /\ UNCHANGED <<ndim, files>>
  /\ LET F == files[E.f]
         names == Names(F.syms)  types == Types(F.syms)
     IN /\ Must(l, "the file has one group for each step that was written",
             Bag([k \in DOMAIN E.steps |-> E.steps[k].step]) =
             Bag([k \in DOMAIN F.steps |-> "Step#" \o ToString(F.steps[k].step)]))
        /\ \A k \in DOMAIN F.steps :
             LET S == F.steps[k]
                 R == E.steps[CHOOSE q \in DOMAIN E.steps :
                        E.steps[q].step = "Step#" \o ToString(S.step)]
             IN IF S.rows = <<>>
                THEN Must(l, "an empty step holds no particle",
                       \A c \in DOMAIN R.cols : R.cols[c] = <<>>)
                ELSE /\ Must(l, "a step has one column for each component",
                          ToSet(R.names) = ToSet(names) /\ Len(R.names) = Len(names))
                     /\ Must(l, "a column has the type of its property",
                          \A c \in DOMAIN names :
                            R.types[Pos(R.names, names[c])] = types[c])
                     /\ Must(l, "every column has one entry for each particle",
                          \A c \in DOMAIN R.cols : Len(R.cols[c]) = Len(S.rows))
                     /\ Must(l, "a step holds every particle exactly once",
                          Bag([i \in DOMAIN S.rows |->
                                 [c \in DOMAIN names |->
                                    R.cols[Pos(R.names, names[c])][i]]])
                          = Bag(S.rows))
TRead ==
  /\ Is("read") /\ Step /\ UNCHANGED <<ndim, files>>
  /\ LET F == files[E.f]
         names == Names(F.syms)
         S == F.steps[CHOOSE k \in DOMAIN F.steps : F.steps[k].step = E.step]
         n == [r \in DOMAIN E.rows |-> Len(E.rows[r])]
     IN /\ Must(l, "reading a step gives the particles that were written",
             Bag(CatSeq(E.rows)) =
             Bag([i \in DOMAIN S.rows |->
                    [c \in DOMAIN E.names |->
                       S.rows[i][Pos(names, E.names[c])]]]))
        /\ Must(l, "the particles that are read are shared evenly by the ranks",
             \A a, b \in DOMAIN n : n[a] - n[b] <= 1)
---------------------------------------------------------------------------
TNext == TFiles \/ TWrite \/ TRaw \/ TRead \/ TEnd
TSpec == TInit /\ [][TNext]_vars
TraceAccepted ==
  /\ TLCGet("stats").diameter - 1 = Len(Trace)
  /\ Trace[Len(Trace)].ev = "end"
=============================================================================
