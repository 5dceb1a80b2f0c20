------------------------------- MODULE HostGen -------------------------------
(* Host programs: contexts of every kind, made, traced, ended and derived, and   *)
(* calls of the API with them in any order - before the start, after the end,    *)
(* with steps that are open, closed, of another transaction or missing.          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANT Len0
VARIABLES kind, step, hist, fin
vars == <<kind, step, hist, fin>>
Names == {"c1", "c2", "c3", "c4", "c5", "c6", "c7", "c8"}
Steps == {"s1", "s2", "s3"}
(* "nil" is also what a name stands for that was never made *)
Init == /\ kind = [c \in Names |-> "none"] /\ step = [s \in Steps |-> "none"] /\ hist = <<>> /\ fin = FALSE
Fresh == {c \in Names : kind[c] = "none"}
New == IF Fresh = {} THEN Names ELSE {CHOOSE c \in Fresh : TRUE}
Good == {c \in Names : kind[c] \in {"plain", "traced"}}
More == Len(hist) < Len0 /\ ~fin
Emit(o) == hist' = Append(hist, o)
Every == Names
Make == /\ More
        /\ \E k \in New, d \in {"nil", "bg", "todo", "value", "deadline", "cancel", "cancelled", "broken", "typednil"} :
             /\ Emit([o |-> "ctx", k |-> k, kind |-> d])
             /\ kind' = [kind EXCEPT ![k] = CASE d = "nil" -> "none" [] d \in {"broken", "typednil"} -> "broken" [] OTHER -> "plain"]
        /\ UNCHANGED <<step, fin>>
Derive == /\ More
          /\ \E k \in New, p \in Good, d \in {"value", "deadline", "cancel", "cancelled"} :
               /\ Emit([o |-> "ctx", k |-> k, kind |-> d, p |-> p]) /\ kind' = [kind EXCEPT ![k] = kind[p]]
          /\ UNCHANGED <<step, fin>>
Start == /\ More
         /\ \E k \in New, c \in Every, o \in {"start", "starthttp", "start"} :
              /\ Emit([o |-> o, c |-> c, k |-> k]) /\ kind' = [kind EXCEPT ![k] = IF kind[c] = "broken" THEN "broken" ELSE "traced"]
         /\ UNCHANGED <<step, fin>>
Inherit == /\ More
           /\ \E k \in New, c \in Every, p \in Every :
                /\ Emit([o |-> "inherit", c |-> c, k |-> k, p |-> p]) /\ kind' = [kind EXCEPT ![k] = IF kind[c] = "broken" THEN "broken" ELSE "traced"]
           /\ UNCHANGED <<step, fin>>
End == /\ More
       /\ \E c \in Every, o \in {"end", "endhttp"} : Emit([o |-> o, c |-> c])
       /\ UNCHANGED <<kind, step, fin>>
Use == /\ More
       /\ \E c \in Every, o \in {"err", "errf", "name", "msg", "hmsg", "pmsg", "addstep", "stream", "isstream", "fallback", "lookup"} : Emit([o |-> o, c |-> c])
       /\ UNCHANGED <<kind, step, fin>>
Open == /\ More
        /\ \E c \in Every, s \in Steps, o \in {"method", "method0", "methodp", "api", "apiprop"} :
             /\ Emit([o |-> o, c |-> c, s |-> s]) /\ step' = [step EXCEPT ![s] = IF o \in {"api", "apiprop"} THEN "api" ELSE "method"]
        /\ UNCHANGED <<kind, fin>>
Close == /\ More
         /\ \E c \in Every, s \in Steps : \E o \in IF step[s] = "none" THEN {"endmethod", "endapi"} ELSE {"end" \o step[s]} : Emit([o |-> o, c |-> c, s |-> s])
         /\ UNCHANGED <<kind, step, fin>>
Go == /\ More
      /\ \E k \in New, c \in Every, w \in {"return", "return", "goexit"} :
           /\ Emit([o |-> "go", c |-> c, k |-> k, how |-> w]) /\ kind' = [kind EXCEPT ![k] = IF kind[c] = "broken" THEN "broken" ELSE "traced"]
      /\ UNCHANGED <<step, fin>>
Guard == /\ More
         /\ \E c \in Every, w \in {"panic", "error", "goexit", "return"} : Emit([o |-> "guard", c |-> c, how |-> w])
         /\ UNCHANGED <<kind, step, fin>>
Finish == /\ Len(hist) = Len0 /\ ~fin /\ fin' = TRUE /\ PrintT(<<"GEN", ToJson(hist)>>) /\ UNCHANGED <<kind, step, hist>>
Next == Make \/ Derive \/ Start \/ Inherit \/ End \/ Use \/ Open \/ Close \/ Go \/ Guard \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
