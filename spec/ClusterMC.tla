------------------------------ MODULE ClusterMC ------------------------------
(* The clustering algorithm as a whole, for every intersection relation its     *)
(* geometry could produce.  One iteration computes the star-shaped obstacle of  *)
(* every cluster (which may turn out impossible), finds the intersections, and  *)
(* merges intersecting clusters, one pair at a time in any order.  Clusters     *)
(* which did not change keep their obstacle, so two clusters found apart stay   *)
(* apart.  The budgets of iterations and of time may end it at each check.      *)
EXTENDS Cluster
CONSTANTS N, MaxIt        \* obstacles, iteration limit (0: none)
VARIABLES pc,             \* "hull", "meet", "merge", "convex", "done"
          part,           \* the clusters
          apart,          \* pairs {a, b} of clusters known to be apart
          edges,          \* pairs {a, b} of clusters which intersect
          groups,         \* groups of clusters merged so far
          todo, convexed, \* clusters still to be convexified, those which have been
          nit, flag, hist
vars == <<pc, part, apart, edges, groups, todo, convexed, nit, flag, hist>>
Singles == {{i} : i \in 1..N}
Pairs(P) == {{a, b} : a, b \in P} \ {{a} : a \in P}
Init == /\ pc = "hull" /\ part = Singles /\ apart = {} /\ edges = {} /\ groups = {} /\ todo = {} /\ convexed = {}
        /\ nit = 0 /\ flag = 0 /\ hist = <<>>
GiveUp == /\ pc' = "done" /\ flag' = 0 /\ part' = Singles
          /\ UNCHANGED <<apart, edges, groups, todo, convexed, nit, hist>>
\* A cluster has no admissible kernel, or the budget is used up
NoHull == pc = "hull" /\ part # {} /\ GiveUp
Hulls == /\ pc = "hull"
         /\ pc' = "meet" /\ hist' = Append(hist, part)
         /\ UNCHANGED <<part, apart, edges, groups, todo, convexed, nit, flag>>
Meet == /\ pc = "meet"
        /\ \E E \in SUBSET (Pairs(part) \ apart) :
             /\ edges' = E
             /\ nit' = nit + 1
             /\ IF E = {} THEN pc' = "convex" /\ groups' = {} /\ todo' = part
                ELSE pc' = "merge" /\ groups' = {{b} : b \in part} /\ todo' = {}
        /\ UNCHANGED <<part, apart, convexed, flag, hist>>
Joined(g, h) == g # h /\ \E a \in g, b \in h : {a, b} \in edges
Merge == /\ pc = "merge"
         /\ \E g, h \in groups : Joined(g, h) /\ groups' = (groups \ {g, h}) \cup {g \cup h}
         /\ UNCHANGED <<pc, part, apart, edges, todo, convexed, nit, flag, hist>>
Merged == pc = "merge" /\ \A g, h \in groups : ~ Joined(g, h)
Again == /\ Merged /\ (MaxIt = 0 \/ nit < MaxIt)
         /\ part' = {UNION g : g \in groups}
         /\ apart' = {p \in Pairs(part \cap part') : p \notin edges}
         /\ edges' = {} /\ pc' = "hull"
         /\ UNCHANGED <<groups, todo, convexed, nit, flag, hist>>
Limit == Merged /\ MaxIt # 0 /\ nit >= MaxIt /\ GiveUp
\* Convexify cluster by cluster, as long as the time suffices
Convex == /\ pc = "convex" /\ todo # {}
          /\ \E b \in todo : todo' = todo \ {b} /\ convexed' \in {convexed, convexed \cup {b}}
          /\ UNCHANGED <<pc, part, apart, edges, groups, nit, flag, hist>>
Late == /\ pc = "convex" /\ todo # {} /\ pc' = "done" /\ flag' = 2
        /\ UNCHANGED <<part, apart, edges, groups, todo, convexed, nit, hist>>
Finish == /\ pc = "convex" /\ pc' = "done" /\ flag' = 1    \* convexification is optional
          /\ UNCHANGED <<part, apart, edges, groups, todo, convexed, nit, hist>>
Next == NoHull \/ Hulls \/ Meet \/ Merge \/ Again \/ Limit \/ Convex \/ Late \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* What is claimed of results (P02, P05, P06)
Partition == IsPartitionOf(part, 1..N)
Bounded == nit <= (IF N = 0 THEN 1 ELSE N) /\ (MaxIt # 0 => nit <= MaxIt)
Complete == pc = "done" /\ flag # 0 => edges = {} /\ Len(hist) = nit /\ part = hist[Len(hist)]
Incomplete == pc = "done" /\ flag = 0 => part = Singles
\* However the groups are merged, they end up as the components
Numbered == LET f == CHOOSE f \in [1..Cardinality(part) -> part] : \A i, j \in DOMAIN f : i # j => f[i] # f[j] IN f
Confluent == Merged => LET f == Numbered
                           E == {<<i, j>> \in (DOMAIN f) \X (DOMAIN f) : {f[i], f[j]} \in edges}
                       IN groups = {{f[i] : i \in c} : c \in Components(Cardinality(part), E)}
\* No step goes too far
Sound == pc = "merge" => \A g \in groups : \A a, b \in g :
           b \in Reach({a}, {<<p, q>> \in part \X part : {p, q} \in edges})
Shrinks == \A i \in 1..Len(hist) - 1 : /\ Cardinality(hist[i + 1]) < Cardinality(hist[i])
                                       /\ Refines(hist[i], hist[i + 1])
Ends == <>(pc = "done")
=============================================================================
