---------------------------------- MODULE Dict ----------------------------------
(* One text dictionary of the agent (C05): a text that is used is offered to     *)
(* the send queue unless it is remembered as sent; it is remembered only when    *)
(* the queue has taken it; a reset forgets everything; remembering is bounded.   *)
(* Threads look (unlocked), then under the lock look again, offer and remember.  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Threads, Words, Bound, QCap, MaxUse, MaxReset,
          Locked,        \* offering and remembering are one critical section, which a reset waits for
          OnlyAccepted   \* a refused text is not remembered
VARIABLES sent, queue, epoch, wire, pc, arg, took, lock, uses, resets
vars == <<sent, queue, epoch, wire, pc, arg, took, lock, uses, resets>>
(* wire: texts accepted, with the epoch (number of resets) of their acceptance *)
Init == /\ sent = <<>> /\ queue = 0 /\ epoch = 0 /\ wire = {} /\ lock = FALSE
        /\ pc = [t \in Threads |-> "idle"] /\ arg = [t \in Threads |-> CHOOSE w \in Words : TRUE] /\ took = [t \in Threads |-> FALSE]
        /\ uses = 0 /\ resets = 0
In(w) == \E i \in DOMAIN sent : sent[i] = w
Goto(t, l) == pc' = [pc EXCEPT ![t] = l]
Use(t) == /\ pc[t] = "idle" /\ uses < MaxUse /\ uses' = uses + 1
          /\ \E w \in Words : arg' = [arg EXCEPT ![t] = w] /\ Goto(t, IF In(w) THEN "idle" ELSE "enter")
          /\ UNCHANGED <<sent, queue, epoch, wire, took, lock, resets>>
Enter(t) == /\ pc[t] = "enter" /\ (Locked => ~lock) /\ lock' = (lock \/ Locked) /\ Goto(t, "offer")
            /\ UNCHANGED <<sent, queue, epoch, wire, arg, took, uses, resets>>
Offer(t) == /\ pc[t] = "offer"
            /\ IF In(arg[t]) THEN Goto(t, "leave") /\ UNCHANGED <<queue, wire, took>>
               ELSE /\ Goto(t, "remember") /\ took' = [took EXCEPT ![t] = queue < QCap]
                    /\ IF queue < QCap THEN queue' = queue + 1 /\ wire' = wire \cup {<<arg[t], epoch>>} ELSE UNCHANGED <<queue, wire>>
            /\ UNCHANGED <<sent, epoch, arg, lock, uses, resets>>
Remember(t) == /\ pc[t] = "remember" /\ Goto(t, "leave")
               /\ sent' = IF (OnlyAccepted /\ ~took[t]) \/ In(arg[t]) THEN sent
                          ELSE IF Len(sent) < Bound THEN Append(sent, arg[t]) ELSE Append(Tail(sent), arg[t])
               /\ UNCHANGED <<queue, epoch, wire, arg, took, lock, uses, resets>>
Leave(t) == /\ pc[t] = "leave" /\ Goto(t, "idle") /\ lock' = (lock /\ ~Locked)
            /\ UNCHANGED <<sent, queue, epoch, wire, arg, took, uses, resets>>
Drain == queue > 0 /\ queue' = queue - 1 /\ UNCHANGED <<sent, epoch, wire, pc, arg, took, lock, uses, resets>>
Reset == /\ resets < MaxReset /\ ~lock /\ sent' = <<>> /\ epoch' = epoch + 1 /\ resets' = resets + 1
         /\ UNCHANGED <<queue, wire, pc, arg, took, lock, uses>>
Next == Drain \/ Reset \/ \E t \in Threads : Use(t) \/ Enter(t) \/ Offer(t) \/ Remember(t) \/ Leave(t)
Spec == Init /\ [][Next]_vars

(* what is remembered was accepted since the last reset: it can be resolved    *)
Resolvable == \A i \in DOMAIN sent : <<sent[i], epoch>> \in wire
Bounded == Len(sent) <= Bound /\ \A i, j \in DOMAIN sent : i # j => sent[i] # sent[j]
=============================================================================
