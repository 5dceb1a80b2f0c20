-------------------------------- MODULE ProgGen --------------------------------
(* Programs over the tracing API, generated by simulating the abstract API:    *)
(* contexts are started (as roots, nested, chained, inherited), used and       *)
(* ended - also after their end, twice, and through contexts derived from      *)
(* them.  Arguments (names, texts, requests) are chosen by the harness.        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Len0, Focus
VARIABLES st, open, ns, hist, fin
vars == <<st, open, ns, hist, fin>>
Ctx == {"c1", "c2", "c3", "c4", "c5", "c6"}
(* "none", "live", "ended", "alias" (the same transaction as another context), "off" (untraced) *)
Init == /\ st = [c \in Ctx |-> "none"] /\ open = [c \in Ctx |-> <<>>] /\ ns = 0 /\ hist = <<>> /\ fin = FALSE
Fresh == {c \in Ctx : st[c] = "none"}
Live == {c \in Ctx : st[c] = "live"}
Used == {c \in Ctx : st[c] # "none"}
New == IF Fresh = {} THEN {} ELSE {CHOOSE c \in Fresh : TRUE}
Emit(op) == hist' = Append(hist, op)
More == Len(hist) < Len0 /\ ~fin
Simple == CASE Focus = "end" -> {"end", "endhttp", "err", "errf", "msg", "end", "list", "active"}
            [] Focus = "rec" -> {"end", "endhttp", "err", "errf", "name", "msg", "set", "advance", "hmsg", "pmsg"}
            [] Focus = "prof" -> {"end", "msg", "hmsg", "pmsg", "err", "addstep", "advance", "msg", "hmsg"}
            [] Focus = "ident" -> {"end", "endhttp", "msg"}
            [] OTHER -> {"end", "endhttp", "err", "errf", "name", "msg", "hmsg", "pmsg", "set", "advance", "list", "active", "stream", "isstream", "addnilstep"}

Start == /\ More /\ Focus # "none"
         /\ \E c \in New, o \in {"start", "starthttp"} :
              /\ Emit([o |-> o, c |-> c]) /\ st' = [st EXCEPT ![c] = "live"]
         /\ UNCHANGED <<open, ns, fin>>
Nested == /\ More
          /\ \E c \in New, p \in Live, o \in {"start", "starthttp"} :
               /\ Emit([o |-> o, c |-> c, p |-> p]) /\ st' = [st EXCEPT ![c] = "alias"]
          /\ UNCHANGED <<open, ns, fin>>
Inherit == /\ More
           /\ \E c \in New, p \in Live : /\ Emit([o |-> "inherit", c |-> c, p |-> p]) /\ st' = [st EXCEPT ![c] = "live"]
           /\ UNCHANGED <<open, ns, fin>>
Go == /\ More
      /\ \E c \in New, p \in Live : /\ Emit([o |-> "go", c |-> p, k |-> c]) /\ st' = [st EXCEPT ![c] = "ended"]
      /\ UNCHANGED <<open, ns, fin>>
Op == /\ More
      /\ \E c \in Used, o \in Simple :
           /\ Emit([o |-> o, c |-> c])
           /\ st' = [st EXCEPT ![c] = IF o \in {"end", "endhttp"} /\ @ = "live" THEN "ended" ELSE @]
      /\ UNCHANGED <<open, ns, fin>>
Open == /\ More /\ Focus \in {"prof", "rec", "ident", "any"}
        /\ \E c \in Live, o \in {"method", "api", "apiprop"} :
             /\ Len(open[c]) < 5
             /\ Emit([o |-> o, c |-> c, s |-> "s" \o ToString(ns)])
             /\ open' = [open EXCEPT ![c] = Append(@, [s |-> "s" \o ToString(ns), o |-> o])]
        /\ ns' = ns + 1 /\ UNCHANGED <<st, fin>>
CloseOp(o) == IF o = "method" THEN "endmethod" ELSE "endapi"
Close == /\ More
         /\ \E c \in Ctx : /\ open[c] # <<>>
              /\ \E i \in {Len(open[c])} :
                   /\ Emit([o |-> CloseOp(open[c][i].o), c |-> c, s |-> open[c][i].s])
                   /\ open' = [open EXCEPT ![c] = SubSeq(@, 1, Len(@) - 1)]
         /\ UNCHANGED <<st, ns, fin>>
(* a step closed out of order, or one never closed: open steps at the end *)
CloseAny == /\ More /\ Focus = "any"
            /\ \E c \in Ctx : \E i \in DOMAIN open[c] :
                 /\ Emit([o |-> CloseOp(open[c][i].o), c |-> c, s |-> open[c][i].s])
                 /\ open' = [open EXCEPT ![c] = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))]
            /\ UNCHANGED <<st, ns, fin>>
Finish == /\ Len(hist) = Len0 /\ ~fin /\ fin' = TRUE
          /\ PrintT(<<"GEN", ToJson(hist)>>)
          /\ UNCHANGED <<st, open, ns, hist>>
Next == Start \/ Nested \/ Inherit \/ Go \/ Op \/ Open \/ Close \/ CloseAny \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
