---------------------------------- MODULE FollowMC ----------------------------------
(* Whom the agent talks to, and as whom (C17).  The configuration changes at any time; *)
(* the datagram client is exchanged by a task that looks now and then; records are      *)
(* handed to goroutines that have got hold of the client of that moment; the command    *)
(* connection is dialled, greeted and served by a loop that looks at the configuration  *)
(* between requests; collectors go away and come back, and cut the connection.          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Cols, Names, MaxChanges, MaxCuts, MaxBeats, Fair, Variant
VARIABLES conf,      \* [col, name] in force
          changes, cuts, up,
          cli, shut,  \* the datagram client in use [col, gen]; generations that are closed
          seen,       \* the collector the reload task has seen
          flight,     \* records handed to goroutines: [gen, col, name]
          pc, tgt, conns,   \* the command loop; what it dials; connections open at collectors: [col, name, id]
          nid, told, beats, beatname, bpc,
          stale,      \* records that arrived elsewhere although the client had been exchanged since the last change
          fresh       \* the client was exchanged (or need not be) since the last change
vars == <<conf, changes, cuts, up, cli, shut, seen, flight, pc, tgt, conns, nid, told, beats, beatname, bpc, stale, fresh>>
Confs == [col : Cols, name : Names]
First == CHOOSE c \in Confs : TRUE
Init == /\ conf \in Confs /\ changes = 0 /\ cuts = 0 /\ up \in [Cols -> BOOLEAN]
        /\ cli = [col |-> conf.col, gen |-> 0] /\ shut = {} /\ seen = conf.col
        /\ flight = {} /\ pc = "sleep" /\ tgt = conf /\ conns = {} /\ nid = 0
        /\ told = {conf.name} /\ beats = 0 /\ beatname = "" /\ bpc = "sleep" /\ stale = FALSE /\ fresh = TRUE
udp == <<cli, shut, seen, flight, stale, fresh>>
tcp == <<pc, tgt, conns, nid>>
beat == <<beats, beatname, bpc>>
(* -------------------------------------------------------------- the surroundings   *)
Change(c) == /\ changes < MaxChanges /\ c # conf /\ changes' = changes + 1 /\ conf' = c
             /\ told' = told \cup (IF c.name # conf.name /\ Variant # "unannounced" THEN {c.name} ELSE {})
             /\ fresh' = (cli.col = c.col)
             /\ UNCHANGED <<cuts, up, cli, shut, seen, flight, stale, tcp, beat>>
Down(c) == /\ cuts < MaxCuts /\ up[c] /\ cuts' = cuts + 1 /\ up' = [up EXCEPT ![c] = FALSE]
           /\ conns' = {k \in conns : k.col # c}
           /\ UNCHANGED <<conf, changes, udp, pc, tgt, nid, told, beat>>
Up(c) == /\ ~up[c] /\ up' = [up EXCEPT ![c] = TRUE] /\ UNCHANGED <<conf, changes, cuts, udp, tcp, told, beat>>
Cut == /\ cuts < MaxCuts /\ conns # {} /\ cuts' = cuts + 1 /\ \E k \in conns : conns' = conns \ {k}
       /\ UNCHANGED <<conf, changes, up, udp, pc, tgt, nid, told, beat>>
(* -------------------------------------------------------------- datagrams          *)
Reload == /\ seen # conf.col \/ (cli.col = "none" /\ Variant # "once")
          /\ seen' = conf.col
          /\ IF Variant = "keepsclient" /\ changes > 1 THEN UNCHANGED <<cli, shut>>
             ELSE /\ cli' = [col |-> conf.col, gen |-> cli.gen + 1]
                  /\ shut' = IF Variant = "leftopen" THEN shut ELSE shut \cup {cli.gen}
          /\ fresh' = TRUE
          /\ UNCHANGED <<conf, changes, cuts, up, flight, stale, tcp, told, beat>>
(* no descriptor is left, or the collector's name cannot be resolved                  *)
ReloadFails == /\ cuts < MaxCuts /\ seen # conf.col /\ cuts' = cuts + 1 /\ seen' = conf.col
               /\ cli' = [col |-> "none", gen |-> cli.gen + 1] /\ shut' = shut \cup {cli.gen} /\ fresh' = FALSE
               /\ UNCHANGED <<conf, changes, up, flight, stale, tcp, told, beat>>
(* a record takes its identity and then the client; it is written later             *)
Take == /\ bpc = "sleep" /\ beats < MaxBeats /\ beats' = beats + 1 /\ bpc' = "made" /\ beatname' = (IF Variant = "hashonce" /\ beats > 0 THEN beatname ELSE conf.name)
        /\ UNCHANGED <<conf, changes, cuts, up, udp, tcp, told>>
Hand == /\ bpc = "made" /\ bpc' = "sleep" /\ flight' = flight \cup IF cli.col = "none" THEN {} ELSE {[gen |-> cli.gen, col |-> cli.col, name |-> beatname]}
        /\ UNCHANGED <<conf, changes, cuts, up, cli, shut, seen, stale, fresh, tcp, told, beats, beatname>>
Write == /\ \E r \in flight :
              /\ flight' = flight \ {r}
              /\ stale' = (stale \/ (r.gen \notin shut /\ fresh /\ r.col # conf.col))
         /\ UNCHANGED <<conf, changes, cuts, up, cli, shut, seen, fresh, tcp, told, beat>>
(* -------------------------------------------------------------- the command loop   *)
Wake == /\ pc = "sleep" /\ pc' = "dial" /\ tgt' = conf
        /\ UNCHANGED <<conf, changes, cuts, up, udp, conns, nid, told, beat>>
Dial == /\ pc = "dial"
        /\ IF up[tgt.col] THEN /\ pc' = "greet" /\ nid' = nid + 1 /\ conns' = conns \cup {[col |-> tgt.col, name |-> "", id |-> nid + 1]}
           ELSE /\ pc' = (IF Variant = "givesup" THEN "dead" ELSE "sleep") /\ UNCHANGED <<nid, conns>>
        /\ UNCHANGED <<conf, changes, cuts, up, udp, tgt, told, beat>>
Mine == {k \in conns : k.id = nid}
Greet == /\ pc = "greet" /\ pc' = "serve"
         /\ conns' = (conns \ Mine) \cup {[k EXCEPT !.name = tgt.name] : k \in Mine}
         /\ tgt' = IF Variant = "late" THEN [tgt EXCEPT !.col = conf.col] ELSE tgt      \* compares with what is configured now, not with what it dialled
         /\ UNCHANGED <<conf, changes, cuts, up, udp, nid, told, beat>>
(* between requests: go on while nothing changed and the connection stands            *)
Same == /\ tgt.col = conf.col /\ (Variant = "colonly" \/ tgt.name = conf.name)
Leave == /\ pc = "serve" /\ (~Same \/ Mine = {})
         /\ conns' = IF Variant = "twice" THEN conns ELSE conns \ Mine
         /\ pc' = "sleep"
         /\ UNCHANGED <<conf, changes, cuts, up, udp, tgt, nid, told, beat>>
Env == (\E c \in Confs : Change(c)) \/ (\E c \in Cols : Down(c) \/ Up(c)) \/ Cut
Next == Env \/ Reload \/ ReloadFails \/ Take \/ Hand \/ Write \/ Wake \/ Dial \/ Greet \/ Leave
Fairness == /\ WF_vars(Reload) /\ WF_vars(Wake) /\ WF_vars(Dial) /\ WF_vars(Greet) /\ WF_vars(Leave) /\ WF_vars(Hand) /\ WF_vars(Write)
            /\ WF_vars(\E c \in Cols : Up(c))
Spec == Init /\ [][Next]_vars /\ (IF Fair THEN Fairness ELSE TRUE)
(* -------------------------------------------------------------- properties         *)
OneConnection == Cardinality(conns) <= 1
NothingOld == ~stale
Current == [][bpc = "sleep" /\ bpc' = "made" => beatname' = conf.name]_vars
Announced == conf.name \in told
Honest == \A r \in flight : r.name \in told        \* no record under a name that was not announced
(* once nothing changes any more, everything is where and as it should be            *)
Follows == <>[](cli.col = conf.col /\ \E k \in conns : k.col = conf.col /\ k.name = conf.name)
=============================================================================
