---------------------------------- MODULE DumpMC ----------------------------------
(* The design: how the agent works through its dump directory, step by step, while *)
(* the program writes, removes and replaces files there, with every name a          *)
(* collector can send.  Names are resolved lexically and guarded by the directory   *)
(* and its separator; a stream holds the file it opened; a listing skips what is    *)
(* gone when it looks; a goroutine dump is confirmed when all of it is written.     *)
EXTENDS Dump
CONSTANTS Comps,      \* components of names
          MaxComps, MaxIno, MaxSize, MaxEnv, MaxOps, Variant
VARIABLES fs,         \* path -> inode (0: none)
          data,       \* inode -> units written
          next,       \* next inode
          pc, cmd, name, todo, found, handle, pos, out, answer,
          was,        \* path -> states since the call began
          touched,    \* paths removed by the agent
          env, ops, disk
vars == <<fs, data, next, pc, cmd, name, todo, found, handle, pos, out, answer, was, touched, env, ops, disk>>
call == <<pc, cmd, name, todo, found, handle, pos, out, answer, touched>>
Dir == <<"home", "dump">>
Paths == {<<"home", "dump", "a">>, <<"home", "dump", "a..b">>, <<"home", "dump2", "a">>, <<"home", "a">>, <<"home", "dump", "new">>}
Mine == {p \in Paths : Below(Dir, p)}
Names == UNION {[1..k -> Comps] : k \in 0..MaxComps}
State(p) == IF fs[p] = 0 THEN Gone ELSE [v |-> ToString(fs[p]), n |-> data[fs[p]]]
Init == /\ fs = [p \in Paths |-> IF p[Len(p)] = "new" THEN 0 ELSE IF p = <<"home", "dump", "a">> THEN 1 ELSE IF p = <<"home", "dump", "a..b">> THEN 2 ELSE 3]
        /\ data = [i \in 1..MaxIno |-> IF i <= 3 THEN 1 ELSE 0] /\ next = 4
        /\ pc = "idle" /\ cmd = "" /\ name = << >> /\ todo = {} /\ found = << >> /\ handle = 0 /\ pos = 0 /\ out = << >> /\ answer = "none"
        /\ was = [p \in Paths |-> {}] /\ touched = {} /\ env = 0 /\ ops = 0 /\ disk \in 0..2
Saw == was' = [p \in Paths |-> was[p] \cup {IF fs'[p] = 0 THEN Gone ELSE [v |-> ToString(fs'[p]), n |-> data'[fs'[p]]]}]
(* ---------------------------------------------------------- the program       *)
Env == env < MaxEnv /\ env' = env + 1 /\ UNCHANGED <<call, ops, disk>>
Grow(p) == Env /\ fs[p] # 0 /\ data[fs[p]] < MaxSize /\ p # <<"home", "dump", "new">> /\ data' = [data EXCEPT ![fs[p]] = @ + 1] /\ UNCHANGED <<fs, next>> /\ Saw
Unlink(p) == Env /\ fs[p] # 0 /\ fs' = [fs EXCEPT ![p] = 0] /\ UNCHANGED <<data, next>> /\ Saw
Replace(p) == Env /\ next <= MaxIno /\ fs' = [fs EXCEPT ![p] = next] /\ next' = next + 1 /\ data' = [data EXCEPT ![next] = MaxSize] /\ Saw
Others == \E p \in Mine \ {<<"home", "dump", "new">>} : Grow(p) \/ Unlink(p) \/ Replace(p)
(* ---------------------------------------------------------- where a name leads *)
Loose(p) == Below(Dir, p) \/ (Len(p) >= 2 /\ p[1] = "home" /\ p[2] \in {"dump", "dump2"} /\ Len(p) > 2)
Allowed == CASE Variant = "raw" -> TRUE
             [] Variant = "prefix" -> Loose(Lead(Dir, name))
             [] Variant = "first" -> name = << >> \/ name[1] # ".."
             [] Variant = "dotted" -> \A i \in DOMAIN name : name[i] \notin {"..", "a..b"}
             [] OTHER -> Below(Dir, Lead(Dir, name))
Goal == IF Lead(Dir, name) \in Paths THEN Lead(Dir, name) ELSE << >>
(* ---------------------------------------------------------- the agent         *)
Ask(c, s) == /\ pc = "idle" /\ ops < MaxOps /\ ops' = ops + 1 /\ cmd' = c /\ name' = s /\ pc' = c
             /\ was' = [p \in Paths |-> {State(p)}] /\ touched' = {} /\ todo' = {} /\ found' = << >> /\ handle' = 0 /\ pos' = 0 /\ out' = << >>
             /\ answer' = "none" /\ UNCHANGED <<fs, data, next, env, disk>>
Read == Ask("list", << >>) \/ Ask("dump", << >>) \/ \E s \in Names : Ask("stream", s) \/ Ask("delete", s)
Answer(a) == answer' = a /\ pc' = "done"
ListNames == /\ pc = "list" /\ todo' = {p \in Mine : fs[p] # 0} /\ pc' = "stat"
             /\ UNCHANGED <<fs, data, next, cmd, name, found, handle, pos, out, answer, was, touched, env, ops, disk>>
Stat == /\ pc = "stat" /\ todo # {}
        /\ \E p \in todo : /\ todo' = todo \ {p}
                           /\ IF fs[p] # 0 THEN found' = Append(found, [p |-> p, n |-> data[fs[p]]]) /\ UNCHANGED <<answer, pc>>
                              ELSE IF Variant = "gone" THEN Answer("fault") /\ UNCHANGED found
                              ELSE UNCHANGED <<found, answer, pc>>
        /\ UNCHANGED <<fs, data, next, cmd, name, handle, pos, out, was, touched, env, ops, disk>>
Listed == /\ pc = "stat" /\ todo = {} /\ Answer("list")
          /\ UNCHANGED <<fs, data, next, cmd, name, todo, found, handle, pos, out, was, touched, env, ops, disk>>
Open == /\ pc = "stream"
        /\ IF ~Allowed \/ Goal = << >> \/ (Goal # << >> /\ fs[Goal] = 0) THEN Answer("content") /\ UNCHANGED handle
           ELSE handle' = fs[Goal] /\ pc' = "chunk" /\ UNCHANGED answer
        /\ UNCHANGED <<fs, data, next, cmd, name, todo, found, pos, out, was, touched, env, ops, disk>>
From == IF Variant = "reopen" THEN fs[Goal] ELSE handle
Chunk == /\ pc = "chunk"
         /\ IF From # 0 /\ pos < data[From] THEN out' = Append(out, <<From, pos + 1>>) /\ pos' = pos + 1 /\ UNCHANGED <<answer, pc>>
            ELSE Answer("content") /\ UNCHANGED <<out, pos>>
         /\ UNCHANGED <<fs, data, next, cmd, name, todo, found, handle, was, touched, env, ops, disk>>
Delete == /\ pc = "delete"
          /\ IF Allowed /\ Goal # << >> /\ (Goal # << >> => fs[Goal] # 0)
             THEN fs' = [fs EXCEPT ![Goal] = 0] /\ touched' = {Goal} /\ Answer("true")
             ELSE Answer("false") /\ UNCHANGED <<fs, touched>>
          /\ UNCHANGED <<data, next, cmd, name, todo, found, handle, pos, out, env, ops, disk>> /\ Saw
New == <<"home", "dump", "new">>
Create == /\ pc = "dump"
          /\ IF next > MaxIno THEN Answer("refused") /\ UNCHANGED <<fs, next, handle, data>>
             ELSE fs' = [fs EXCEPT ![New] = next] /\ handle' = next /\ next' = next + 1 /\ pc' = "write" /\ UNCHANGED <<answer, data>>
          /\ UNCHANGED <<cmd, name, todo, found, pos, out, touched, env, ops, disk>> /\ Saw
(* a dump has two units; what is written goes to the file when it is flushed       *)
Write == /\ pc = "write" /\ pos < 2 /\ pos' = pos + 1
         /\ UNCHANGED <<fs, data, next, pc, cmd, name, todo, found, handle, out, answer, was, touched, env, ops, disk>>
Flush == /\ pc = "write" /\ pos = 2 /\ Variant # "unflushed"
         /\ data' = [data EXCEPT ![handle] = disk]
         /\ Answer(IF disk = 2 \/ Variant = "ignored" THEN "dumped" ELSE "refused")
         /\ UNCHANGED <<fs, next, cmd, name, todo, found, handle, pos, out, touched, env, ops, disk>> /\ Saw
Unflushed == /\ Variant = "unflushed" /\ pc = "write" /\ pos = 2 /\ Answer("dumped")
             /\ UNCHANGED <<fs, data, next, cmd, name, todo, found, handle, pos, out, was, touched, env, ops, disk>>
Rest == pc = "done" /\ pc' = "idle" /\ UNCHANGED <<fs, data, next, cmd, name, todo, found, handle, pos, out, answer, was, touched, env, ops, disk>>
Next == Others \/ Read \/ ListNames \/ Stat \/ Listed \/ Open \/ Chunk \/ Delete \/ Create \/ Write \/ Flush \/ Unflushed \/ Rest
Spec == Init /\ [][Next]_vars /\ WF_vars(ListNames \/ Stat \/ Listed \/ Open \/ Chunk \/ Delete \/ Create \/ Write \/ Flush \/ Unflushed)
(* ---------------------------------------------------------- the properties    *)
Ended == pc = "done"
T == Lead(Dir, name)
Confined == touched \subseteq {p \in Paths : Below(Dir, p)}
            /\ \A i \in DOMAIN out : \A p \in Paths : ~Below(Dir, p) => fs[p] # out[i][1]
Exact == Ended /\ cmd = "delete" =>
             /\ touched \subseteq {T} /\ (answer = "true" <=> touched # {})
             /\ (Plain(name) /\ T \in Paths => (~MayMiss(was[T]) => answer = "true"))
ListedOk == Ended /\ cmd = "list" =>
             /\ answer = "list"
             /\ \A p \in Mine : ~MayMiss(was[p]) => \E i \in DOMAIN found : found[i].p = p
             /\ \A i \in DOMAIN found : Sizes(was[found[i].p], found[i].n)
             /\ \A i, j \in DOMAIN found : found[i].p = found[j].p => i = j
Faithful == Ended /\ cmd = "stream" =>
             /\ \A i \in DOMAIN out : out[i] = <<out[1][1], i>>
             /\ IF T \in Mine /\ Plain(name) THEN Content(was[T], IF out = << >> THEN {} ELSE {ToString(out[1][1])}, Len(out))
                ELSE out = << >> \/ (T \in Mine /\ Content(was[T], {ToString(out[1][1])}, Len(out)))
Complete == Ended /\ cmd = "dump" /\ answer = "dumped" => handle # 0 /\ data[handle] = 2
Answers == (pc \in {"list", "stream", "delete", "dump"}) ~> Ended
=============================================================================
