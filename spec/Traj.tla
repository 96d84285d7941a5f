-------------------------------- MODULE Traj --------------------------------
(* Trajectories that leave a box. Positions are integers in small units; the  *)
(* box is 0 .. n[d] in each dimension d. Faces: 0 is y = 0, 1 is x = n, 2 is  *)
(* y = n, 3 is x = 0, 4 is z = 0, 5 is z = n. a is the start of a step        *)
(* (inside), b its end.                                                       *)
EXTENDS Integers, Sequences, FiniteSets
Axis(f) == IF f \in {0, 2} THEN 2 ELSE IF f \in {1, 3} THEN 1 ELSE 3
Upper(f) == f \in {1, 2, 5}
Plane(n, f) == IF Upper(f) THEN n[Axis(f)] ELSE 0
Inward(n, f) == [d \in DOMAIN n |-> IF d # Axis(f) THEN 0
                                    ELSE IF Upper(f) THEN -1 ELSE 1]
Faces(n) == {f \in 0 .. 5 : Axis(f) \in DOMAIN n}
Abs(x) == IF x < 0 THEN -x ELSE x
Leaves(n, b) == \E d \in DOMAIN n : b[d] <= 0 \/ b[d] >= n[d]
\* faces beyond which (or on which) a step ends
Reached(n, b, f) == IF Upper(f) THEN b[Axis(f)] >= n[Axis(f)] ELSE b[Axis(f)] <= 0
\* the fraction of the step at which it meets the plane of a face
Num(n, a, f) == Abs(a[Axis(f)] - Plane(n, f))
Den(a, b, f) == Abs(b[Axis(f)] - a[Axis(f)])
\* no other reached face is met earlier; a tie has several first faces
First(n, a, b) ==
  {f \in Faces(n) : Reached(n, b, f) /\
     \A k \in Faces(n) : Reached(n, b, k) =>
        Num(n, a, f) * Den(a, b, k) <= Num(n, a, k) * Den(a, b, f)}
\* p is the point where the step meets the plane of face f, up to one unit
Meets(n, a, b, f, p) ==
  \A d \in DOMAIN n :
     IF d = Axis(f) THEN p[d] = Plane(n, f)
     ELSE LET w == Den(a, b, f)
          IN Abs((p[d] - a[d]) * w - Num(n, a, f) * (b[d] - a[d])) <= w
\* p is between x and y, up to one unit
Between(p, x, y) == \/ x - 1 <= p /\ p <= y + 1
                    \/ y - 1 <= p /\ p <= x + 1
\* the step is cut at point i, the particle put back by at most r from there
RECURSIVE Dist2(_, _, _)
Dist2(p, i, d) == IF d = 0 THEN 0
                  ELSE (p[d] - i[d]) * (p[d] - i[d]) + Dist2(p, i, d - 1)
CutAt(p, i, a, r, nd) ==
  /\ \A d \in 1 .. nd : Between(p[d], i[d], a[d]) /\ Abs(p[d] - i[d]) <= r + 1
  /\ Dist2(p, i, nd) <= (r + 2) * (r + 2)
\* the time of the step is scaled by num / den
TimeCut(t0, t1, s0, s1, num, den) ==
  /\ Abs(s1 * den - t1 * num) <= 2 * den
  /\ Abs(s0 - (t0 - t1 + s1)) <= 2
=============================================================================
