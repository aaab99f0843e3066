------------------------------- MODULE Cluster -------------------------------
(* Clustering of intersecting things: partitions of obstacles and the steps     *)
(* that merge the parts which intersect, directly or through others.            *)
EXTENDS Naturals, Sequences, FiniteSets

\* Connected components of a relation on 1..n (pairs)
RECURSIVE Reach(_, _)
Reach(A, E) == LET B == A \cup {p[1] : p \in {q \in E : q[2] \in A}} \cup {p[2] : p \in {q \in E : q[1] \in A}}
               IN IF B = A THEN A ELSE Reach(B, E)
Components(n, E) == {Reach({i}, E) : i \in 1..n}
\* One step: C is a sequence of blocks (sequences of obstacles), E pairs of positions in C which intersect
Members(s) == {s[i] : i \in 1..Len(s)}
MergeOf(C, E) == {UNION {Members(C[i]) : i \in comp} : comp \in Components(Len(C), E)}
\* Partitions as sets of sets
IsPartitionOf(P, S) == UNION P = S /\ (\A a, b \in P : a = b \/ a \cap b = {}) /\ {} \notin P
Refines(P, Q) == \A a \in P : \E b \in Q : a \subseteq b
=============================================================================
