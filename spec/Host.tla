--------------------------------- MODULE Host ---------------------------------
(* The host program and the tracing API it calls.  A call looks its context up, *)
(* may create a transaction, works on the transaction under its lock, offers    *)
(* what it made to the bounded send queue and returns.  Any stage may fail      *)
(* inside (a context that cannot be asked, a step that is none, a request       *)
(* without its parts); the queue may be full and its sender may have stopped.   *)
(* Whatever happens, the host only ever sees: the call returns, with a context  *)
(* it can use; the function of a traced goroutine runs once; what its own code  *)
(* throws is what it sees.                                                      *)
(*                                                                              *)
(* The five constants are the points of the design; with any of them wrong one  *)
(* of the properties fails (HostMC_*.cfg):                                      *)
(*   Early   - the result is the given context before anything can fail         *)
(*   Guarded - a failure while a goroutine's transaction is made does not keep  *)
(*             the goroutine from being started                                 *)
(*   Frees   - a failure inside the lock releases it                            *)
(*   Offers  - a full queue refuses, it does not make the caller wait           *)
(*   Lets    - the end of a goroutine's transaction does not recover            *)
EXTENDS Naturals, FiniteSets
CONSTANTS Threads, MaxCalls, QCap, Early, Guarded, Frees, Offers, Lets
VARIABLES pc, op, ctx, res,       \* per thread: where it is, in which call, its context, the result so far
          calls, gone,            \* calls made; goroutines asked for
          due, runs,              \* goroutines about to run; runs of their functions
          lock, q, sender,        \* the transaction's lock, queue length, whether the sender moves
          lost                     \* a panic of the host's own code that it did not see
vars == <<pc, op, ctx, res, calls, gone, due, runs, lock, q, sender, lost>>
Ops == {"start", "step", "go"}
Ctxs == {"none", "open", "ended", "broken"}
Init == /\ pc = [t \in Threads |-> "host"] /\ op = [t \in Threads |-> "-"] /\ ctx = [t \in Threads |-> "none"]
        /\ res = [t \in Threads |-> "-"] /\ calls = [t \in Threads |-> 0] /\ gone = [t \in Threads |-> 0]
        /\ due = [t \in Threads |-> 0] /\ runs = [t \in Threads |-> 0]
        /\ lock = "free" /\ q = 0 /\ sender = TRUE /\ lost = FALSE
At(t, p) == pc' = [pc EXCEPT ![t] = p]
Call(t) == /\ pc[t] = "host" /\ calls[t] < MaxCalls
           /\ \E o \in Ops, c \in Ctxs : op' = [op EXCEPT ![t] = o] /\ ctx' = [ctx EXCEPT ![t] = c]
           /\ res' = [res EXCEPT ![t] = IF Early THEN "given" ELSE "nil"]
           /\ calls' = [calls EXCEPT ![t] = @ + 1]
           /\ gone' = [gone EXCEPT ![t] = @ + (IF op'[t] = "go" THEN 1 ELSE 0)]
           /\ At(t, "look") /\ UNCHANGED <<due, runs, lock, q, sender, lost>>
(* a failure inside the agent, caught before the host sees it                   *)
Fail(t) == /\ lock' = IF lock = t /\ Frees THEN "free" ELSE lock
           /\ At(t, IF op[t] = "go" /\ Guarded THEN "launch" ELSE "ret")
Look(t) == /\ pc[t] = "look"
           /\ CASE ctx[t] = "broken" -> Fail(t) /\ UNCHANGED res
                [] op[t] = "start" -> IF ctx[t] = "none" THEN At(t, "new") /\ UNCHANGED <<lock, res>>
                                      ELSE At(t, "ret") /\ res' = [res EXCEPT ![t] = "given"] /\ UNCHANGED lock
                [] op[t] = "go" -> At(t, IF ctx[t] = "none" THEN "launch" ELSE "new") /\ UNCHANGED <<lock, res>>
                [] OTHER -> At(t, IF ctx[t] = "none" THEN "ret" ELSE "lock") /\ UNCHANGED <<lock, res>>
           /\ UNCHANGED <<op, ctx, calls, gone, due, runs, q, sender, lost>>
New(t) == /\ pc[t] = "new"
          /\ \/ Fail(t) /\ UNCHANGED res
             \/ res' = [res EXCEPT ![t] = "new"] /\ At(t, "lock") /\ UNCHANGED lock
          /\ UNCHANGED <<op, ctx, calls, gone, due, runs, q, sender, lost>>
Lock(t) == /\ pc[t] = "lock" /\ lock = "free" /\ lock' = t /\ At(t, "work")
           /\ UNCHANGED <<op, ctx, res, calls, gone, due, runs, q, sender, lost>>
Work(t) == /\ pc[t] = "work"
           /\ \/ Fail(t)
              \/ At(t, "queue") /\ UNCHANGED lock
           /\ UNCHANGED <<op, ctx, res, calls, gone, due, runs, q, sender, lost>>
Queue(t) == /\ pc[t] = "queue"
            /\ IF q < QCap THEN q' = q + 1 ELSE Offers /\ q' = q
            /\ lock' = "free" /\ At(t, IF op[t] = "go" THEN "launch" ELSE "ret")
            /\ UNCHANGED <<op, ctx, res, calls, gone, due, runs, sender, lost>>
Launch(t) == /\ pc[t] = "launch" /\ due' = [due EXCEPT ![t] = @ + 1] /\ At(t, "ret")
             /\ UNCHANGED <<op, ctx, res, calls, gone, runs, lock, q, sender, lost>>
Ret(t) == /\ pc[t] = "ret" /\ At(t, "host") /\ UNCHANGED <<op, ctx, res, calls, gone, due, runs, lock, q, sender, lost>>
(* the goroutine: its function returns, or throws                               *)
Run(t) == /\ due[t] > 0 /\ due' = [due EXCEPT ![t] = @ - 1] /\ runs' = [runs EXCEPT ![t] = @ + 1]
          /\ \/ UNCHANGED lost
             \/ lost' = ~Lets
          /\ UNCHANGED <<pc, op, ctx, res, calls, gone, lock, q, sender>>
Send == sender /\ q > 0 /\ q' = q - 1 /\ UNCHANGED <<pc, op, ctx, res, calls, gone, due, runs, lock, sender, lost>>
Stop == sender /\ sender' = FALSE /\ UNCHANGED <<pc, op, ctx, res, calls, gone, due, runs, lock, q, lost>>
Agent(t) == Look(t) \/ New(t) \/ Lock(t) \/ Work(t) \/ Queue(t) \/ Launch(t) \/ Ret(t) \/ Run(t)
Next == (\E t \in Threads : Call(t) \/ Look(t) \/ New(t) \/ Lock(t) \/ Work(t) \/ Queue(t) \/ Launch(t) \/ Ret(t) \/ Run(t)) \/ Send \/ Stop
Fair == \A t \in Threads : SF_vars(Lock(t)) /\ WF_vars(Agent(t)) /\ WF_vars(Run(t))
Spec == Init /\ [][Next]_vars /\ Fair
-------------------------------------------------------------------------------
TypeOK == /\ pc \in [Threads -> {"host", "look", "new", "lock", "work", "queue", "launch", "ret"}]
          /\ lock \in {"free"} \cup Threads /\ q \in 0..QCap
(* what a call gives back can be used                                            *)
Usable == \A t \in Threads : pc[t] = "ret" /\ op[t] = "start" => res[t] # "nil"
(* every goroutine asked for has run once or is about to, when the call is over  *)
Once == \A t \in Threads : /\ runs[t] + due[t] <= gone[t]
                           /\ pc[t] = "host" => runs[t] + due[t] = gone[t]
Through == ~lost
Returns == \A t \in Threads : (pc[t] # "host") ~> (pc[t] = "host")
RunsIt == \A t \in Threads : \A n \in 1..MaxCalls : (gone[t] = n) ~> (runs[t] >= n)
=============================================================================
