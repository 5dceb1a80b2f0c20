-------------------------------- MODULE Cache --------------------------------
(* The bounded caches of scouterx/common/structure (C08): a map of at most     *)
(* Bound entries, ordered by first insertion.                                  *)
(*   lra         Add replaces the value of a present key, keeping its place    *)
(*   cachemap    Add of a present key changes nothing                          *)
(*   cachemap2   likewise                                                      *)
(*   cacheset    likewise, keys only                                           *)
(* An abstract cache is the sequence of its entries [k, v], oldest first.      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

KeysOf(c) == {c[i].k : i \in DOMAIN c}
EntriesOf(c) == {c[i] : i \in DOMAIN c}
PosOf(c, k) == CHOOSE i \in DOMAIN c : c[i].k = k
ValOf(c, k) == c[PosOf(c, k)].v

AddTo(variant, bound, c, k, v) ==
    IF k \in KeysOf(c)
    THEN IF variant = "lra" THEN [c EXCEPT ![PosOf(c, k)] = [k |-> k, v |-> v]] ELSE c
    ELSE LET d == IF Len(c) >= bound THEN Tail(c) ELSE c
         IN  Append(d, [k |-> k, v |-> v])

RemoveFrom(c, k) ==
    IF k \in KeysOf(c)
    THEN SubSeq(c, 1, PosOf(c, k) - 1) \o SubSeq(c, PosOf(c, k) + 1, Len(c))
    ELSE c

Nil == "nil"

(* effect and result of one atomic operation *)
After(variant, bound, c, op) ==
    CASE op.o = "add" -> AddTo(variant, bound, c, op.k, op.v)
      [] op.o = "remove" -> RemoveFrom(c, op.k)
      [] op.o = "clear" -> <<>>
      [] OTHER -> c
Result(c, op) ==
    CASE op.o = "get" -> IF op.k \in KeysOf(c) THEN ValOf(c, op.k) ELSE Nil
      [] op.o = "contains" -> IF op.k \in KeysOf(c) THEN "true" ELSE "false"
      [] op.o = "size" -> ToString(Len(c))
      [] op.o = "empty" -> IF c = <<>> THEN "true" ELSE "false"
      [] OTHER -> Nil

WellFormed(bound, c) ==
    /\ Len(c) <= bound
    /\ \A i, j \in DOMAIN c : c[i].k = c[j].k => i = j
=============================================================================
