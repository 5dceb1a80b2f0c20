---------------------------------- MODULE Txn ----------------------------------
(* The life of transactions (C01), step by step as the agent takes them:       *)
(*   an ender (explicit end, a chained goroutine's deferred end, the reaper)   *)
(*   sees the transaction open, claims its end, leaves the active set, decides *)
(*   about sampling, meters, and sends the record.                             *)
(* The reaper scans a snapshot of the active set and ends what is too old,     *)
(* marking it as in error first.                                               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Tx,          \* transactions
          Threads,     \* threads calling the API
          Claims,      \* whether an ender claims the end atomically (the design) or not
          Removes,     \* stuck-transaction removal enabled
          Drops        \* transactions that the sampler drops when they are not in error
VARIABLES phase,   \* Tx -> "none" | "open" | "closed"
          active,  \* the active set
          claimed, \* Tx -> whether somebody owns the end
          err,     \* Tx -> in error
          old,     \* Tx -> older than the stuck limit
          meter, meterErr, records, \* Tx -> counts
          recErr,  \* Tx -> the record says error
          asked,   \* Tx -> an end was asked for
          pc, at, dec, scan
vars == <<phase, active, claimed, err, old, meter, meterErr, records, recErr, asked, pc, at, dec, scan>>
R == "reaper"
Procs == Threads \cup {R}
None == "-"

Init == /\ phase = [x \in Tx |-> "none"] /\ active = {} /\ claimed = [x \in Tx |-> FALSE]
        /\ err = [x \in Tx |-> FALSE] /\ old = [x \in Tx |-> FALSE]
        /\ meter = [x \in Tx |-> 0] /\ meterErr = [x \in Tx |-> 0] /\ records = [x \in Tx |-> 0]
        /\ recErr = [x \in Tx |-> FALSE] /\ asked = [x \in Tx |-> FALSE]
        /\ pc = [p \in Procs |-> "idle"] /\ at = [p \in Procs |-> None]
        /\ dec = [p \in Procs |-> [drop |-> FALSE, e |-> FALSE]] /\ scan = {}

Start(x) == /\ phase[x] = "none" /\ phase' = [phase EXCEPT ![x] = "open"] /\ active' = active \cup {x}
            /\ UNCHANGED <<claimed, err, old, meter, meterErr, records, recErr, asked, pc, at, dec, scan>>
MarkError(x) == /\ phase[x] # "none" /\ ~err[x] /\ err' = [err EXCEPT ![x] = TRUE]
                /\ UNCHANGED <<phase, active, claimed, old, meter, meterErr, records, recErr, asked, pc, at, dec, scan>>
Age(x) == /\ phase[x] = "open" /\ ~old[x] /\ old' = [old EXCEPT ![x] = TRUE]
          /\ UNCHANGED <<phase, active, claimed, err, meter, meterErr, records, recErr, asked, pc, at, dec, scan>>
(* a thread asks for the end of x (any number of times, from any thread) *)
Ask(p, x) == /\ p \in Threads /\ pc[p] = "idle" /\ phase[x] # "none"
             /\ asked' = [asked EXCEPT ![x] = TRUE]
             /\ at' = [at EXCEPT ![p] = x]
             /\ pc' = [pc EXCEPT ![p] = IF phase[x] = "closed" THEN "idle" ELSE "claim"]
             /\ UNCHANGED <<phase, active, claimed, err, old, meter, meterErr, records, recErr, dec, scan>>
Scan == /\ pc[R] = "idle" /\ active # {} /\ scan' = active /\ pc' = [pc EXCEPT ![R] = "scan"]
        /\ UNCHANGED <<phase, active, claimed, err, old, meter, meterErr, records, recErr, asked, at, dec>>
ScanNext == /\ pc[R] = "scan"
            /\ IF scan = {} THEN /\ pc' = [pc EXCEPT ![R] = "idle"] /\ UNCHANGED <<at, scan, asked, err>>
               ELSE \E x \in scan :
                 /\ scan' = scan \ {x}
                 /\ IF old[x] /\ Removes
                    THEN /\ at' = [at EXCEPT ![R] = x] /\ pc' = [pc EXCEPT ![R] = "claim"]
                         /\ asked' = [asked EXCEPT ![x] = TRUE]
                         /\ err' = [err EXCEPT ![x] = TRUE]
                    ELSE UNCHANGED <<pc, at, asked, err>>
            /\ UNCHANGED <<phase, active, claimed, old, meter, meterErr, records, recErr, dec>>
Done(p) == IF p = R THEN "scan" ELSE "idle"
Claim(p) == /\ pc[p] = "claim"
            /\ IF Claims /\ claimed[at[p]]
               THEN pc' = [pc EXCEPT ![p] = Done(p)] /\ UNCHANGED claimed
               ELSE pc' = [pc EXCEPT ![p] = "close"] /\ claimed' = [claimed EXCEPT ![at[p]] = TRUE]
            /\ UNCHANGED <<phase, active, err, old, meter, meterErr, records, recErr, asked, at, dec, scan>>
Close(p) == /\ pc[p] = "close" /\ phase' = [phase EXCEPT ![at[p]] = "closed"] /\ pc' = [pc EXCEPT ![p] = "leave"]
            /\ UNCHANGED <<active, claimed, err, old, meter, meterErr, records, recErr, asked, at, dec, scan>>
Leave(p) == /\ pc[p] = "leave" /\ active' = active \ {at[p]} /\ pc' = [pc EXCEPT ![p] = "decide"]
            /\ UNCHANGED <<phase, claimed, err, old, meter, meterErr, records, recErr, asked, at, dec, scan>>
(* sampling looks at the error; the record is made from a later look *)
Decide(p) == /\ pc[p] = "decide"
             /\ dec' = [dec EXCEPT ![p] = [drop |-> at[p] \in Drops /\ ~err[at[p]], e |-> FALSE]]
             /\ pc' = [pc EXCEPT ![p] = "make"]
             /\ UNCHANGED <<phase, active, claimed, err, old, meter, meterErr, records, recErr, asked, at, scan>>
Make(p) == /\ pc[p] = "make" /\ dec' = [dec EXCEPT ![p].e = err[at[p]]] /\ pc' = [pc EXCEPT ![p] = "meter"]
           /\ UNCHANGED <<phase, active, claimed, err, old, meter, meterErr, records, recErr, asked, at, scan>>
Meter(p) == /\ pc[p] = "meter"
            /\ meter' = [meter EXCEPT ![at[p]] = @ + 1]
            /\ meterErr' = [meterErr EXCEPT ![at[p]] = @ + (IF dec[p].e THEN 1 ELSE 0)]
            /\ pc' = [pc EXCEPT ![p] = "send"]
            /\ UNCHANGED <<phase, active, claimed, err, old, records, recErr, asked, at, dec, scan>>
Send(p) == /\ pc[p] = "send"
           /\ IF dec[p].drop THEN UNCHANGED <<records, recErr>>
              ELSE records' = [records EXCEPT ![at[p]] = @ + 1] /\ recErr' = [recErr EXCEPT ![at[p]] = dec[p].e]
           /\ pc' = [pc EXCEPT ![p] = Done(p)]
           /\ UNCHANGED <<phase, active, claimed, err, old, meter, meterErr, asked, at, dec, scan>>

Next == \/ \E x \in Tx : Start(x) \/ MarkError(x) \/ Age(x)
        \/ \E p \in Threads, x \in Tx : Ask(p, x)
        \/ Scan \/ ScanNext
        \/ \E p \in Procs : Claim(p) \/ Close(p) \/ Leave(p) \/ Decide(p) \/ Make(p) \/ Meter(p) \/ Send(p)
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars(Claim(p) \/ Close(p) \/ Leave(p) \/ Decide(p) \/ Make(p) \/ Meter(p) \/ Send(p))
                               /\ WF_vars(ScanNext)

AtMostOnce == \A x \in Tx : records[x] <= 1 /\ meter[x] <= 1 /\ meterErr[x] <= meter[x]
OnlyEnded == \A x \in Tx : (records[x] > 0 \/ meter[x] > 0) => asked[x] /\ phase[x] = "closed"
StaysActive == \A x \in Tx : phase[x] = "open" => x \in active
Busy(x) == \E p \in Procs : at[p] = x /\ pc[p] \notin {"idle", "scan"}
ExactlyOnce == \A x \in Tx : asked[x] /\ ~Busy(x) =>
                  /\ phase[x] = "closed" /\ x \notin active /\ meter[x] = 1
                  /\ (x \notin Drops => records[x] = 1)
                  /\ (records[x] = 0 => x \in Drops)
                  /\ (records[x] = 1 => (recErr[x] <=> meterErr[x] = 1))
YoungStay == Threads = {} => \A x \in Tx : ~old[x] => phase[x] # "closed"
Inv == AtMostOnce /\ OnlyEnded /\ StaysActive /\ ExactlyOnce /\ YoungStay
(* every transaction whose end was asked for is finished *)
Finishes == \A x \in Tx : asked[x] ~> meter[x] = 1
=============================================================================
