--------------------------------- MODULE Ident ---------------------------------
(* Identity and causality (C03): ids handed out once; a root transaction is its *)
(* own root; a chained transaction names its parent and its parent's root, and  *)
(* the parent's profile names the child; a propagating call puts root, caller    *)
(* and callee into the request it sends.  Processes draw their ids from streams  *)
(* that share nothing, modelled as disjoint sets.                                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Procs, MaxTx
VARIABLES used, tx, next
vars == <<used, tx, next>>
Id(p, n) == <<p, n>>
Init == used = {} /\ tx = << >> /\ next = [p \in Procs |-> 1]
Fresh(p) == Id(p, next[p])
Total == Cardinality(DOMAIN tx)
Node(p, x, root, caller) == [proc |-> p, root |-> root, caller |-> caller, kids |-> {}, calls |-> {}, sent |-> {}]
Start == /\ Total < MaxTx
         /\ \E p \in Procs : LET x == Fresh(p) IN
              /\ tx' = (x :> Node(p, x, x, <<>>)) @@ tx /\ used' = used \cup {x} /\ next' = [next EXCEPT ![p] = @ + 1]
Chain == /\ Total < MaxTx
         /\ \E a \in DOMAIN tx : LET p == tx[a].proc
                                     x == Fresh(p) IN
              /\ tx' = (x :> Node(p, x, tx[a].root, a)) @@ [tx EXCEPT ![a].kids = @ \cup {x}]
              /\ used' = used \cup {x} /\ next' = [next EXCEPT ![p] = @ + 1]
Call == \E a \in DOMAIN tx : LET p == tx[a].proc
                                 x == Fresh(p) IN
              /\ Cardinality(tx[a].calls) < 1
              /\ tx' = [tx EXCEPT ![a].calls = @ \cup {x}, ![a].sent = @ \cup {<<tx[a].root, a, x>>}]
              /\ used' = used \cup {x} /\ next' = [next EXCEPT ![p] = @ + 1]
Next == Start \/ Chain \/ Call
Spec == Init /\ [][Next]_vars

All == DOMAIN tx
NeverReused == [][\A x \in All' \ All : x \notin used]_vars
Rooted == \A x \in All : /\ tx[x].caller = <<>> <=> tx[x].root = x
                         /\ tx[x].caller # <<>> => tx[x].caller \in All /\ tx[x].root = tx[tx[x].caller].root /\ x \in tx[tx[x].caller].kids
Kids == \A a \in All : \A x \in tx[a].kids : x \in All /\ tx[x].caller = a
Headers == \A a \in All : \A h \in tx[a].sent : h[1] = tx[a].root /\ h[2] = a /\ h[3] \in tx[a].calls
Apart == \A a, b \in All : a # b => tx[a].calls \cap tx[b].calls = {} /\ a \notin tx[b].calls
=============================================================================
