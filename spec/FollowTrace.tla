---------------------------------- MODULE FollowTrace ----------------------------------
(* What collectors received from the agent while its configuration changed (C17).        *)
(* Between a change (or a fault) and the point where the agent has come to rest again,    *)
(* it may still be where and who it was; at rest it must be everywhere what the             *)
(* configuration says, and nothing else.                                                      *)
EXTENDS TraceLib
VARIABLES tr, l, want, past, rest, told, conns, good, beat, probe, lossy, up, n
vars == <<tr, l, want, past, rest, told, conns, good, beat, probe, lossy, up, n>>
T == Traces[tr]
E == T.ev
e == E[l]
Progress == ProgressOf(tr, l)
Done == Report
ASSUME InitProgress
Period == 100       \* of heartbeats, as shortened by the harness
H(name) == T.hash[name]
Init == /\ tr \in 1..NTraces /\ l = 1
        /\ want = T.first /\ past = {T.first} /\ rest = FALSE /\ told = SetOf(T.told)
        /\ conns = {} /\ good = {} /\ beat = FALSE /\ probe = FALSE /\ lossy = FALSE
        /\ up = SetOf(T.up) /\ n = 0
Is(k) == l <= Len(E) /\ e.k = k /\ l' = l + 1 /\ UNCHANGED tr
(* addresses are put together of parts that change one after the other             *)
Ats == {[p |-> "u", ip |-> c.udp.ip, port |-> d.udp.port] : c, d \in past}
Tcps == {[p |-> "t", ip |-> c.tcp.ip, port |-> d.tcp.port] : c, d \in past}
Hashes == {H(c.name) : c \in past}
(* the configuration changes                                                          *)
Conf == /\ Is("conf") /\ want' = e.conf /\ past' = past \cup {e.conf} /\ rest' = FALSE
        /\ lossy' = (lossy \/ ~rest \/ e.conf.udp # want.udp \/ e.conf.max # want.max \/ want.udp \notin up)
        /\ beat' = FALSE /\ probe' = FALSE /\ good' = {}
        /\ UNCHANGED <<told, conns, up, n>>
(* ------------------------------------------------------------ what arrives         *)
Beat == /\ Is("beat") /\ e.at \in Ats
        /\ \E c \in past : c.name = e.name
        /\ \E c \in past : c.type = e.type
        /\ e.hash = H(e.name)
        /\ beat' = (beat \/ (e.at = want.udp /\ e.name = want.name /\ e.type = want.type))
        /\ n' = n + 1
        /\ UNCHANGED <<want, past, rest, told, conns, good, probe, lossy, up>>
Rec == /\ Is("rec") /\ e.at \in Ats /\ e.hash \in Hashes
       /\ (e.type # "" => \E c \in past : c.type = e.type)
       /\ UNCHANGED <<want, past, rest, told, conns, good, beat, probe, lossy, up, n>>
Text == /\ Is("text") /\ e.at \in Ats
        /\ \E c \in past : c.name = e.name
        /\ e.hash = H(e.name) /\ told' = told \cup {e.name}
        /\ UNCHANGED <<want, past, rest, conns, good, beat, probe, lossy, up, n>>
Other == /\ Is("any") /\ e.at \in Ats /\ UNCHANGED <<want, past, rest, told, conns, good, beat, probe, lossy, up, n>>
Probe == /\ Is("probe") /\ e.at \in Ats /\ probe' = (probe \/ e.at = want.udp)
         /\ UNCHANGED <<want, past, rest, told, conns, good, beat, lossy, up, n>>
(* ------------------------------------------------------------ the command channel  *)
Conn == /\ Is("conn") /\ conns = {}                          \* one at a time
        /\ e.at \in Tcps
        /\ e.hash \in Hashes
        /\ e.at \in up
        /\ conns' = {[id |-> e.id, at |-> e.at, hash |-> e.hash]}
        /\ UNCHANGED <<want, past, rest, told, good, beat, probe, lossy, up, n>>
Served == /\ Is("served") /\ (\E k \in conns : k.id = e.id) /\ good' = good \cup {e.id}
          /\ UNCHANGED <<want, past, rest, told, conns, beat, probe, lossy, up, n>>
Mine(k) == k.at = want.tcp /\ k.hash = H(want.name)
Close == /\ Is("close") /\ \E k \in conns : k.id = e.id /\ conns' = conns \ {k} /\ (rest /\ Mine(k) => T.impatient)
         /\ UNCHANGED <<want, past, rest, told, good, beat, probe, lossy, up, n>>
(* faults: of ours                                                                    *)
Cut == /\ Is("cut") /\ conns' = {k \in conns : k.id # e.id} /\ rest' = FALSE
       /\ UNCHANGED <<want, past, told, good, beat, probe, lossy, up, n>>
Down == /\ Is("down") /\ up' = up \ {e.at} /\ rest' = FALSE /\ beat' = (beat /\ e.at # want.udp) /\ probe' = (probe /\ e.at # want.udp)
        /\ lossy' = (lossy \/ (~rest /\ \E c \in past : e.at = c.udp))
        /\ UNCHANGED <<want, past, told, conns, good, n>>
Up == /\ Is("up") /\ up' = up \cup {e.at} /\ rest' = FALSE
      /\ UNCHANGED <<want, past, told, conns, good, beat, probe, lossy, n>>
(* it lacked what it needs (descriptors) for a while                                *)
Fault == /\ Is("fault") /\ rest' = FALSE /\ lossy' = TRUE
         /\ UNCHANGED <<want, past, told, conns, good, beat, probe, up, n>>
(* ------------------------------------------------------------ at rest              *)
Rest == /\ Is("rest") /\ rest' = TRUE /\ lossy' = FALSE
        /\ past' = IF {want.udp, want.tcp} \subseteq up THEN {want} ELSE past     \* nobody tells us yet that it has arrived
        /\ (want.udp \in up => beat /\ probe)
        /\ (want.tcp \in up => \E k \in conns : Mine(k) /\ k.id \in good)
        /\ \A k \in conns : Mine(k)
        /\ (want.name \in told \/ lossy)
        /\ told' = told \cup {want.name}                   \* lost on its way: it is told once
        /\ UNCHANGED <<want, conns, good, beat, probe, up, n>>
Watch == /\ Is("watch") /\ n' = 0 /\ UNCHANGED <<want, past, rest, told, conns, good, beat, probe, lossy, up>>
Watched == /\ Is("watched") /\ (want.udp \in up => n <= e.ms \div Period + 3 /\ n >= e.want)
           /\ UNCHANGED <<want, past, rest, told, conns, good, beat, probe, lossy, up, n>>
Next == Conf \/ Beat \/ Rec \/ Other \/ Text \/ Probe \/ Conn \/ Served \/ Close \/ Cut \/ Down \/ Up \/ Fault \/ Rest \/ Watch \/ Watched
Spec == Init /\ [][Next]_vars
=============================================================================
