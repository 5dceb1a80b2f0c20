--------------------------------- MODULE WireMC ---------------------------------
(* The format is well defined: every value (trees over boundary leaves) reads back *)
(* as itself from its own bytes, whatever follows; no proper prefix of an encoding  *)
(* reads as anything; and every short byte string reads as nothing or as a value    *)
(* whose own encoding is no longer and reads the same.                              *)
EXTENDS Wire
CONSTANTS MaxBytes, MaxNodes
VARIABLES mode, b, v, n
vars == <<mode, b, v, n>>
Alphabet == {0, 1, 2, 3, 4, 8, 10, 20, 30, 50, 51, 60, 61, 70, 80, 127, 128, 253, 254, 255}
I8(x) == IF x >= 0 THEN Nat8(x) ELSE [i \in 1..8 |-> 255 - Nat8(-x - 1)[i]]
Decs == {I8(x) : x \in {0, 1, -1, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 2147483647, -2147483647}} \cup
        {<<0, 0, 0, 0, 128, 0, 0, 0>>, <<255, 255, 255, 255, 127, 255, 255, 255>>, <<127, 255, 255, 255, 255, 255, 255, 255>>, <<128, 0, 0, 0, 0, 0, 0, 0>>}
Run(k) == [i \in 1..k |-> 120]
Leaves == {[t |-> "null"], [t |-> "bool", d |-> <<1>>], [t |-> "text", d |-> <<>>], [t |-> "text", d |-> <<80, 0>>],
           [t |-> "hash", d |-> <<255, 0, 1, 128>>], [t |-> "ip4", d |-> <<10, 0, 0, 255>>], [t |-> "f32", d |-> <<63, 128, 0, 0>>],
           [t |-> "f64", d |-> <<63, 240, 0, 0, 0, 0, 0, 1>>], [t |-> "blob", d |-> <<70>>]}
          \cup {[t |-> "dec", d |-> d] : d \in Decs}
Long == {[t |-> "blob", d |-> Run(k)] : k \in {252, 253, 254, 255, 256, 32767, 32768, 65535, 65536}}
        \cup {[t |-> "text", d |-> Run(k)] : k \in {253, 254, 65536, 100000, 100001}}
        \cup {[t |-> "list", e |-> [i \in 1..k |-> [t |-> "null"]]] : k \in {126, 127, 128, 255, 256, 1000}}
Init == /\ n = 1
        /\ \/ mode = "bytes" /\ b = <<>> /\ v = [t |-> "null"]
           \/ mode = "tree" /\ b = <<>> /\ v \in Leaves \cup Long
Grow == mode = "bytes" /\ Len(b) < MaxBytes /\ \E x \in Alphabet : b' = Append(b, x) /\ UNCHANGED <<mode, v, n>>
Small == mode = "tree" /\ n < MaxNodes /\ v \notin Long
Wrap == Small /\ n' = n + 1 /\ UNCHANGED <<mode, b>>
        /\ \/ v' = [t |-> "list", e |-> <<v>>]
           \/ v' = [t |-> "map", kv |-> <<<<<<97>>, v>>>>]
Add == Small /\ v.t \in {"list", "map"} /\ n' = n + 1 /\ UNCHANGED <<mode, b>>
       /\ \E x \in Leaves :
          \/ v.t = "list" /\ v' = [t |-> "list", e |-> Append(v.e, x)]
          \/ v.t = "map" /\ \E k \in {<<>>, <<98>>, <<97, 0>>} : (\A i \in DOMAIN v.kv : v.kv[i][1] # k) /\ v' = [t |-> "map", kv |-> Append(v.kv, <<k, x>>)]
Next == Grow \/ Wrap \/ Add
Spec == Init /\ [][Next]_vars
RoundTrip == mode = "tree" => LET e == Enc(v)
                                  r == DecV(e \o <<70, 1, 0>>, 1) IN r.ok /\ r.v = Written(v) /\ r.p = Len(e) + 1
PrefixFree == mode = "tree" /\ v \notin Long => LET e == Enc(v) IN \A k \in 0..(Len(e) - 1) : ~DecV(SubSeq(e, 1, k), 1).ok
Total == mode = "bytes" => LET r == DecV(b, 1) IN
         r.ok => /\ r.p \in 2..(Len(b) + 1)
                 /\ Len(Enc(r.v)) <= r.p - 1
                 /\ DecV(Enc(r.v), 1) = Yes(r.v, Len(Enc(r.v)) + 1)
Records == mode = "bytes" => \A k \in {"map", "text", "perf", "message"} : LET r == DecRec(k, b, 1) IN
         r.ok => LET e == EncRec(k, r.v) IN Len(e) <= r.p - 1 /\ DecRec(k, e, 1) = Yes(r.v, Len(e) + 1)
=============================================================================
