------------------------------- MODULE Chains -------------------------------
(* C28.  A graph of objects is built reference by reference; a search from  *)
(* one of them proceeds layer by layer, in the direction of references      *)
(* (parents) or against it (children), around the ignored objects, to the   *)
(* depth limit.  The layer at which an object of the sought type first      *)
(* appears fixes the length of the chain that must be reported.             *)
EXTENDS VT, Randomization, Naturals, Sequences, FiniteSets
CONSTANTS N, Kinds, Targets, MaxEdges, MaxDepth, Ignores, Ordered,
          Random   \* draw graphs at random instead of enumerating them
Nodes == 1..N
VARIABLES kind, edges, start, goal, dir, limit, ignore, seen, layer, dist, phase
vars == <<kind, edges, start, goal, dir, limit, ignore, seen, layer, dist, phase>>
Init == IF Random THEN /\ kind = <<>> /\ edges = {} /\ start = 1 /\ goal = "" /\ dir = "" /\ limit = 0 /\ ignore = {}
                       /\ seen = {} /\ layer = {} /\ dist = 0 /\ phase = "pick"
        ELSE
        /\ kind \in [Nodes -> Kinds] /\ (Ordered => kind[1] = "list") /\ edges = {} /\ start = 1 /\ goal \in Targets /\ dir \in {"parents", "children"}
        /\ limit \in 0..MaxDepth /\ ignore \in {s \in SUBSET (2..N) : Cardinality(s) \in Ignores} /\ seen = {} /\ layer = {} /\ dist = 0 /\ phase = "build"
Pick == /\ phase = "pick" /\ phase' = "build"
        /\ \E k \in {[n \in Nodes |-> RandomElement(Kinds)]} :
           \E e \in {RandomSubset(RandomElement(0..MaxEdges), Nodes \X Nodes)} :
             /\ kind' = k /\ edges' = {x \in e : k[x[1]] = "cell" => \A y \in e : y[1] = x[1] => y[2] <= x[2]}
        /\ start' = RandomElement(Nodes) /\ goal' = RandomElement(Targets) /\ dir' = RandomElement({"parents", "children"})
        /\ limit' = RandomElement(0..MaxDepth) /\ ignore' = RandomSubset(RandomElement(Ignores), Nodes \ {start'})
        /\ UNCHANGED <<seen, layer, dist>>
Key(e) == e[1] * 100 + e[2]
Link == /\ phase = "build" /\ ~Random /\ Cardinality(edges) < MaxEdges
        /\ \E a \in Nodes, b \in Nodes :
             /\ <<a, b>> \notin edges /\ (kind[a] = "cell" => \A e \in edges : e[1] # a)
             /\ (Ordered => \A e \in edges : Key(e) < Key(<<a, b>>))
             /\ edges' = edges \cup {<<a, b>>}
        /\ UNCHANGED <<kind, start, goal, dir, limit, ignore, seen, layer, dist, phase>>
Begin == /\ phase = "build" /\ (~Ordered /\ ~Random => Cardinality(edges) = MaxEdges)
         /\ phase' = "search" /\ seen' = {start} /\ layer' = {start} /\ dist' = 0
         /\ UNCHANGED <<kind, edges, start, goal, dir, limit, ignore>>
Step(e, n) == IF dir = "parents" THEN e[1] = n ELSE e[2] = n
To(e) == IF dir = "parents" THEN e[2] ELSE e[1]
\* K1 is a class of lists, K3 one of dictionaries
Is(n) == kind[n] = goal \/ (kind[n] = "K1" /\ goal = "list") \/ (kind[n] = "K3" /\ goal = "dict")
Hit == {n \in layer : Is(n)}
Next1 == {To(e) : e \in {e \in edges : \E n \in layer : Step(e, n)}} \ (seen \cup ignore)
Search == /\ phase = "search"
          /\ IF Hit # {} THEN phase' = "found" /\ UNCHANGED <<seen, layer, dist>>
             ELSE IF dist = limit \/ Next1 = {} THEN phase' = "none" /\ UNCHANGED <<seen, layer, dist>>
             ELSE phase' = "search" /\ layer' = Next1 /\ seen' = seen \cup Next1 /\ dist' = dist + 1
          /\ UNCHANGED <<kind, edges, start, goal, dir, limit, ignore>>
Next == Pick \/ Link \/ Begin \/ Search
Spec == Init /\ [][Next]_vars
\* the result against the definition: the shortest path, by its own recursion
RECURSIVE Reach(_, _)
Reach(s, d) == IF d = 0 THEN {s} ELSE LET r == Reach(s, d - 1) IN
  r \cup ({To(e) : e \in {e \in edges : \E n \in r : Step(e, n)}} \ ignore)
Shortest == /\ phase = "found" => dist <= limit /\ (\E n \in Reach(start, dist) : Is(n)) /\ (dist > 0 => \A n \in Reach(start, dist - 1) : ~Is(n))
            /\ phase = "none" => \A n \in Reach(start, limit) : ~Is(n)
Emit == phase \in {"found", "none"} => EmitRec([kind |-> kind, edges |-> edges, start |-> start, goal |-> goal, dir |-> dir, limit |-> limit,
         ignore |-> ignore, dist |-> IF phase = "found" THEN dist ELSE 99, ends |-> IF phase = "found" THEN Hit ELSE {}])
=============================================================================
