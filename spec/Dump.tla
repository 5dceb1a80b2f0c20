----------------------------------- MODULE Dump -----------------------------------
(* Names, directories and what a dump command means.  A path is the sequence of    *)
(* its components below the root; a name is what the collector sends, split at     *)
(* its slashes.  Nothing here is about the code: a name leads where the lexical    *)
(* reading of directory/name leads, and a command may touch what it leads to only  *)
(* if that lies below the directory.                                               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
RECURSIVE Walk(_, _)
Walk(at, s) == IF s = << >> THEN at
               ELSE Walk(CASE Head(s) \in {"", "."} -> at
                           [] Head(s) = ".." -> IF at = << >> THEN at ELSE SubSeq(at, 1, Len(at) - 1)
                           [] OTHER -> Append(at, Head(s)), Tail(s))
Lead(dir, name) == Walk(dir, name)
Below(dir, p) == Len(p) > Len(dir) /\ SubSeq(p, 1, Len(dir)) = dir
(* a name of a file of the directory itself: it has to be served                   *)
Plain(name) == Len(name) = 1 /\ name[1] \notin {"", ".", ".."}

(* What a file was during a call: a set of [v, n], the first n units of content v; *)
(* absent is [v |-> "", n |-> 0].  Files only grow, or are replaced.               *)
Gone == [v |-> "", n |-> 0]
MayMiss(st) == Gone \in st
There(st) == st \ {Gone}
(* a size the file can have had                                                    *)
Sizes(st, n) == \E a, b \in There(st) : a.v = b.v /\ a.n <= n /\ n <= b.n
(* delivered: the first n units of any of the contents vs                          *)
Content(st, vs, n) == \/ n = 0 /\ (MayMiss(st) \/ \E a \in There(st) : a.n = 0)
                      \/ n > 0 /\ \E a, b \in There(st) : a.v = b.v /\ a.v \in vs /\ a.n <= n /\ n <= b.n
=============================================================================
