---- MODULE SccAlgo ----
(* Strongly connected components as computed by spasm_scc.c: one depth-first search, lowlinks that are raised to
   "infinity" when a node leaves in a component, blocks emitted in reverse order.  All digraphs on N vertices
   (a successor set per vertex; the order of exploration is nondeterministic).                                 *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N,
          NoRaise,      \* lowlinks of finished nodes are not raised
          NoReturn,     \* the lowlink is not propagated to the caller
          TreeOnly      \* already numbered successors are ignored
V == 1 .. N
Inf == N + 1
VARIABLES adj, index, mark, low, prev, stack, todo, cur, out, bounds
vars == <<adj, index, mark, low, prev, stack, todo, cur, out, bounds>>
Min(a, b) == IF a < b THEN a ELSE b

Init == /\ adj \in [V -> SUBSET V]
        /\ index = 1 /\ mark = [v \in V |-> 0] /\ low = [v \in V |-> 0] /\ prev = [v \in V |-> 0]
        /\ stack = <<>> /\ todo = adj /\ cur = 0 /\ out = <<>> /\ bounds = <<0>>

Enter(v) == /\ mark' = [mark EXCEPT ![v] = index]
            /\ low' = [low EXCEPT ![v] = index]
            /\ index' = index + 1
            /\ cur' = v
            /\ stack' = Append(stack, v)
Start == /\ cur = 0
         /\ \E v \in V : /\ mark[v] = 0 /\ \A w \in 1 .. v - 1 : mark[w] /= 0
                         /\ Enter(v)
         /\ UNCHANGED <<adj, prev, todo, out, bounds>>
(* examine one more successor of the current node *)
Edge == /\ cur /= 0
        /\ \E k \in todo[cur] :
              /\ todo' = [todo EXCEPT ![cur] = @ \ {k}]
              /\ IF mark[k] /= 0
                 THEN /\ low' = IF TreeOnly THEN low ELSE [low EXCEPT ![cur] = Min(@, low[k])]
                      /\ UNCHANGED <<mark, index, cur, stack, prev>>
                 ELSE /\ Enter(k) /\ prev' = [prev EXCEPT ![k] = cur]
        /\ UNCHANGED <<adj, out, bounds>>
Pos(v) == CHOOSE h \in DOMAIN stack : stack[h] = v
Rev(s) == [k \in DOMAIN s |-> s[Len(s) + 1 - k]]
Leave == /\ cur /= 0 /\ todo[cur] = {}
         /\ LET root == low[cur] = mark[cur]
                h == Pos(cur)
                comp == SubSeq(stack, h, Len(stack))
                low1 == IF root /\ ~NoRaise THEN [v \in V |-> IF \E k \in DOMAIN comp : comp[k] = v THEN Inf ELSE low[v]] ELSE low
                up == prev[cur] IN
            /\ IF root THEN /\ out' = out \o Rev(comp) /\ bounds' = Append(bounds, Len(out'))
                            /\ stack' = SubSeq(stack, 1, h - 1)
               ELSE UNCHANGED <<out, bounds, stack>>
            /\ low' = IF up = 0 \/ NoReturn THEN low1 ELSE [low1 EXCEPT ![up] = Min(@, low1[cur])]
            /\ cur' = up
         /\ UNCHANGED <<adj, index, mark, prev, todo>>
Finished == cur = 0 /\ \A v \in V : mark[v] /= 0
Stop == Finished /\ UNCHANGED vars
Next == Start \/ Edge \/ Leave \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Start \/ Edge \/ Leave)

RECURSIVE Close(_, _)
Close(a, S) == LET T == S \cup UNION {a[v] : v \in S} IN IF T = S THEN S ELSE Close(a, T)
Reach(v) == Close(adj, {v})
Same(v, w) == w \in Reach(v) /\ v \in Reach(w)
Block(v) == CHOOSE b \in 1 .. Len(bounds) - 1 : \E k \in bounds[b] + 1 .. bounds[b + 1] : out[k] = v
(* every emitted block is a component, blocks come out in reverse topological order, nothing twice *)
Emitted == {out[k] : k \in DOMAIN out}
Components == /\ Cardinality(Emitted) = Len(out)
              /\ \A v, w \in Emitted : (Block(v) = Block(w)) <=> Same(v, w)
              /\ \A v \in Emitted : \A w \in adj[v] : w \in Emitted /\ Block(w) <= Block(v)
(* the path of the search and the nodes waiting for a component are on the stack *)
OnStack == {stack[k] : k \in DOMAIN stack}
Stacked == /\ Cardinality(OnStack) = Len(stack)
           /\ OnStack = {v \in V : mark[v] /= 0 /\ v \notin Emitted}
           /\ cur /= 0 => cur \in OnStack
Complete == Finished => Emitted = V /\ stack = <<>>
Terminates == <>Finished
====
