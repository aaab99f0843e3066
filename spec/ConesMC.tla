------------------------------- MODULE ConesMC ------------------------------
(* The intersection of cones with a common apex as an algorithm on lists of     *)
(* arcs: intersecting the parts left so far with the next cone, part by part.   *)
(* TLC establishes, for every sequence of cones between N directions, that the  *)
(* parts are exactly the common sectors, do not overlap, and are at most one    *)
(* more with every cone; and that the region of the module Cg (InSector) is the *)
(* one of the arcs.                                                            *)
EXTENDS Cg, SequencesExt
CONSTANTS N, Depth
VARIABLES parts, all, n
vars == <<parts, all, n>>

\* Sector i lies between the directions i and i + 1 (mod N); a cone is <<first, second>> direction
Arcs == {a \in (0..N-1) \X (0..N-1) : a[1] # a[2]}
Len0(a) == (a[2] - a[1]) % N
Sectors(a) == {(a[1] + k) % N : k \in 0..Len0(a) - 1}
\* Angle from the first direction of a
Ang(a, d) == (d - a[1]) % N
\* Intersection as a sequence of at most two arcs: cut the other arc at the first direction of a, then at its end
Cut(a, s, e) == LET end == Len0(a)
                    e1 == Min2(e, end)
                IN IF e1 > s THEN << <<(a[1] + s) % N, (a[1] + e1) % N>> >> ELSE <<>>
Inter(a, b) == LET s == Ang(a, b[1])
                   e == Ang(a, b[2])
               IN IF e > s THEN Cut(a, s, e) ELSE Cut(a, 0, e) \o Cut(a, s, N)

Init == /\ \E a \in Arcs : parts = <<a>> /\ all = Sectors(a)
        /\ n = 1
Next == /\ n < Depth
        /\ \E b \in Arcs : /\ parts' = FlattenSeq([i \in 1..Len(parts) |-> Inter(parts[i], b)])
                           /\ all' = all \cap Sectors(b)
        /\ n' = n + 1
Spec == Init /\ [][Next]_vars

PartsAreAll == UNION {Sectors(parts[i]) : i \in 1..Len(parts)} = all
PartsDisjoint == \A i, j \in 1..Len(parts) : i < j => Sectors(parts[i]) \cap Sectors(parts[j]) = {}
PartsFew == Len(parts) <= n

\* The directions of the compass, and bisectors
Dir == << <<2, 0>>, <<2, 2>>, <<0, 2>>, <<-2, 2>>, <<-2, 0>>, <<-2, -2>>, <<0, -2>>, <<2, -2>> >>
Bis(i) == Add(Dir[i + 1], Dir[((i + 1) % 8) + 1])
ASSUME N # 8 \/ \A a \in Arcs : \A i \in 0..7 :
   /\ (InSector(Bis(i), Dir[a[1] + 1], Dir[a[2] + 1]) = 1) = (i \in Sectors(a))
   /\ JustAfter(Dir[i + 1], << <<0, 0>>, Dir[a[1] + 1], Dir[a[2] + 1]>>) = (i \in Sectors(a))
ASSUME N # 8 \/ \A a, b \in Arcs :
   LET C(c) == << <<0, 0>>, Dir[c[1] + 1], Dir[c[2] + 1]>>
   IN EmptySameApex(<<C(a), C(b)>>) = (Sectors(a) \cap Sectors(b) = {})
=============================================================================
