----------------------------- MODULE LoopBlocks -----------------------------
(* How a loop is cut into device kernels: cells are trimmed to the occupied   *)
(* range, one kernel covers the part that every cell fills completely, and    *)
(* one kernel for each bin of cells covers the rest, with a bounds check.     *)
(* Whatever the occupancies, sizes and order of the kernels, every particle   *)
(* of the range is visited exactly once and nothing else is.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization
CONSTANTS NCell, MaxOcc, LocalSizes, NBins, Strides, NGen
VARIABLES occ, ls0, nbin0, stride, cs, ce,   \* the question
          todo, seen                          \* kernels left, visits so far
vars == <<occ, ls0, nbin0, stride, cs, ce, todo, seen>>

Cells == 0 .. (NCell - 1)
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y
RECURSIVE PrevPow2(_)
PrevPow2(n) == IF n <= 1 THEN 1 ELSE 2 * PrevPow2(n \div 2)
CeilDiv(a, b) == (a + b - 1) \div b
\* contiguous split of N over n bins, the first N % n bins one larger
Start(n, N, i) == i * (N \div n) + Min2(i, N % n)

Occupied == {c \in cs .. (ce - 1) : occ[c] > 0}
Lo == SetMin(Occupied)
Hi == SetMax(Occupied) + 1
Width == Hi - Lo
MinOcc == SetMin({occ[c] : c \in Lo .. (Hi - 1)})
MaxO == SetMax({occ[c] : c \in Lo .. (Hi - 1)})
LS == Min2(ls0, 2 * PrevPow2(MaxO))
Full == (MinOcc \div (LS * stride)) * (LS * stride)
\* a kernel is a set of work items <<cell, first layer group>> in units of
\* stride layers; item (c, b) visits layers b*stride .. b*stride+stride-1
Block(c0, c1, b0, n, checked) ==
  [cells |-> c0 .. (c1 - 1), groups |-> b0 .. (b0 + n - 1), checked |-> checked]
Blocks ==
  IF Occupied = {} THEN {}
  ELSE (IF Full > 0 THEN {Block(Lo, Hi, 0, Full \div stride, FALSE)} ELSE {})
       \cup LET nb == Min2(nbin0, Width)
            IN {b \in {LET s == Lo + Start(nb, Width, i)
                           e == Lo + Start(nb, Width, i + 1)
                           m == SetMax({occ[c] : c \in s .. (e - 1)}) - Full
                       IN Block(s, e, Full \div stride,
                                IF m > 0 THEN CeilDiv(CeilDiv(m, stride), LS) * LS ELSE 0,
                                TRUE)
                       : i \in 0 .. (nb - 1)} : b.groups # {}}
Visits(b) ==
  {<<c, g * stride + i>> : c \in b.cells, g \in b.groups, i \in 0 .. (stride - 1)}
Kept(b) == IF b.checked THEN {v \in Visits(b) : v[2] < occ[v[1]]} ELSE Visits(b)

Init == /\ occ \in [Cells -> 0 .. MaxOcc]
        /\ ls0 \in LocalSizes /\ nbin0 \in NBins /\ stride \in Strides
        /\ cs \in 0 .. NCell /\ ce \in cs .. NCell
        /\ todo = Blocks /\ seen = {}
\* kernels run in any order; a visit that was made before would be a repetition
Run(b) == /\ b \in todo
          /\ Assert(Kept(b) \cap seen = {}, "visited twice")
          /\ seen' = seen \cup Kept(b) /\ todo' = todo \ {b}
          /\ UNCHANGED <<occ, ls0, nbin0, stride, cs, ce>>
Next == \E b \in todo : Run(b)
Spec == Init /\ [][Next]_vars
Wanted == {<<c, l>> \in (cs .. (ce - 1)) \X (0 .. (MaxOcc - 1)) : l < occ[c]}
OnlyWanted == seen \subseteq Wanted
AllAtEnd == todo = {} => seen = Wanted

(* Questions for the implementation. *)
Ask(o, l, b, s, e, m) ==
  PrintT("BEHAVIOUR " \o ToJson([a |-> <<b, l, s, e, m>>, o |-> o]))
GenOccs == RandomSubset(NGen, [1 .. NCell -> 0 .. MaxOcc])
           \cup {[c \in 1 .. NCell |-> n] : n \in 0 .. MaxOcc}
GInit == /\ \A o \in GenOccs :
              LET l == RandomElement(LocalSizes)  b == RandomElement(NBins)
                  s == RandomElement(0 .. (NCell - 1))
                  e == RandomElement((s + 1) .. NCell)
              IN Ask(o, l, b, s, e, RandomElement({1, 2, 3}))
         /\ occ = <<>> /\ ls0 = 1 /\ nbin0 = 1 /\ stride = 1 /\ cs = 0 /\ ce = 0
         /\ todo = {} /\ seen = {}
GSpec == GInit /\ [][FALSE]_vars
=============================================================================
