----------------------------------- MODULE Udp -----------------------------------
(* The way of a pack to the collector (C06): a bounded queue that refuses and     *)
(* never blocks, a sender that takes what is queued and groups it below its       *)
(* limit LS, and a client that writes single packs, batches and fragments with    *)
(* its limit LC (the two differ for a moment when the limit is reconfigured).     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS N, Sizes, Q, LS, LC, FlushFirst
VARIABLES n, queue, acc, refused, taken, group, gsize, wire, pc
vars == <<n, queue, acc, refused, taken, group, gsize, wire, pc>>
(* a pack is [id, size]; wire: datagrams [kind, parts]; a part is <<id, from, to>> *)
Init == n = 0 /\ queue = <<>> /\ acc = <<>> /\ refused = <<>> /\ taken = 0 /\ group = <<>> /\ gsize = 0 /\ wire = <<>> /\ pc = "idle"
Offer == /\ n < N /\ n' = n + 1
         /\ \E s \in Sizes : LET p == [id |-> n + 1, size |-> s] IN
              IF Len(queue) < Q THEN queue' = Append(queue, p) /\ acc' = Append(acc, p) /\ UNCHANGED refused
                                ELSE refused' = Append(refused, [p |-> p, full |-> Len(queue) = Q]) /\ UNCHANGED <<queue, acc>>
         /\ UNCHANGED <<taken, group, gsize, wire, pc>>
Whole(p) == <<p.id, 1, p.size>>
RECURSIVE Frags(_, _)
Frags(p, at) == IF at > p.size THEN <<>>
                ELSE LET to == IF at + LC - 1 < p.size THEN at + LC - 1 ELSE p.size IN
                     <<[kind |-> "frag", parts |-> <<<<p.id, at, to>>>>]>> \o Frags(p, to + 1)
One(p) == IF p.size > LC THEN Frags(p, 1) ELSE <<[kind |-> "one", parts |-> <<Whole(p)>>]>>
Batch(b) == IF b = <<>> THEN <<>> ELSE <<[kind |-> "batch", parts |-> [i \in DOMAIN b |-> Whole(b[i])]]>>
Total(b) == LET RECURSIVE S(_) S(x) == IF x = <<>> THEN 0 ELSE Head(x).size + S(Tail(x)) IN S(b)
(* writing a list: packs gather in out while they fit                           *)
RECURSIVE WriteList(_, _)
WriteList(lst, out) ==
    IF lst = <<>> THEN Batch(out)
    ELSE LET p == Head(lst) IN
         IF p.size > LC THEN (IF FlushFirst THEN Batch(out) \o Frags(p, 1) \o WriteList(Tail(lst), <<>>)
                                            ELSE Frags(p, 1) \o WriteList(Tail(lst), out))
         ELSE IF p.size + Total(out) > LC THEN Batch(out) \o WriteList(Tail(lst), <<p>>)
         ELSE WriteList(Tail(lst), Append(out, p))
SendList(g) == IF g = <<>> THEN <<>> ELSE IF Len(g) = 1 THEN One(g[1]) ELSE WriteList(g, <<>>)
(* the sender looks at the queue and then takes that many, one at a time        *)
Look == /\ pc = "idle" /\ queue # <<>>
        /\ IF Len(queue) = 1 THEN wire' = wire \o One(queue[1]) /\ queue' = Tail(queue) /\ UNCHANGED <<taken, pc>>
                             ELSE taken' = Len(queue) /\ pc' = "take" /\ UNCHANGED <<wire, queue>>
        /\ UNCHANGED <<n, acc, refused, group, gsize>>
Take == /\ pc = "take" /\ taken > 0
        /\ LET p == Head(queue) IN
             /\ queue' = Tail(queue) /\ taken' = taken - 1
             /\ IF gsize + p.size >= LS THEN wire' = wire \o SendList(group) /\ group' = <<p>> /\ gsize' = p.size
                                        ELSE group' = Append(group, p) /\ gsize' = gsize + p.size /\ UNCHANGED wire
        /\ UNCHANGED <<n, acc, refused, pc>>
Flush == /\ pc = "take" /\ taken = 0 /\ wire' = wire \o WriteList(group, <<>>) /\ group' = <<>> /\ gsize' = 0 /\ pc' = "idle"
         /\ UNCHANGED <<n, queue, acc, refused, taken>>
Next == Offer \/ Look \/ Take \/ Flush
Spec == Init /\ [][Next]_vars /\ WF_vars(Look \/ Take \/ Flush)

RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s).parts \o Flat(Tail(s))
Joined == LET f == Flat(wire) IN f
(* the parts on the wire are the accepted packs in order, each byte once        *)
RECURSIVE Explains(_, _, _)
Explains(f, a, at) == IF f = <<>> THEN at = 1
                      ELSE /\ a # <<>> /\ Head(f)[1] = Head(a).id /\ Head(f)[2] = at
                           /\ IF Head(f)[3] = Head(a).size THEN Explains(Tail(f), Tail(a), 1) ELSE Explains(Tail(f), a, Head(f)[3] + 1)
InOrder == Explains(Joined, acc, 1)
PartSize(x) == x[3] - x[2] + 1
Bounded == \A i \in DOMAIN wire : LET RECURSIVE S(_) S(x) == IF x = <<>> THEN 0 ELSE PartSize(Head(x)) + S(Tail(x)) IN S(wire[i].parts) <= LC
DroppedOnlyWhenFull == \A i \in DOMAIN refused : refused[i].full
AllSent == <>[](n = N => Len(queue) = 0 /\ pc = "idle")
Complete == pc = "idle" /\ queue = <<>> => LET RECURSIVE S(_) S(x) == IF x = <<>> THEN 0 ELSE PartSize(Head(x)) + S(Tail(x)) IN S(Joined) = Total(acc)
=============================================================================
