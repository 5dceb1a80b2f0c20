---------------------------------- MODULE Wire ----------------------------------
(* The collector's byte format: how values, profile steps and packs are written   *)
(* and what a byte string means to a reader.  Bytes are 0..255; every number is   *)
(* the sequence of its big-endian bytes (64-bit numbers do not fit TLC's), texts   *)
(* and blobs are byte sequences.                                                   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANT Variant   \* "ok"; "narrow", "wide", "count": broken encoders for the model

Byte == 0..255
Zeros(n) == [i \in 1..n |-> 0]
AllEq(d, i, j, x) == \A k \in i..j : d[k] = x
(* the sign extension of a number of k bytes to n bytes *)
Extend(d, n) == LET k == Len(d) IN
    IF k = 0 THEN Zeros(n)
    ELSE [i \in 1..n |-> IF i > n - k THEN d[i - (n - k)] ELSE IF d[1] >= 128 THEN 255 ELSE 0]
Fits(d, k) == IF k = 0 THEN AllEq(d, 1, Len(d), 0) ELSE Extend(SubSeq(d, Len(d) - k + 1, Len(d)), Len(d)) = d
(* a decimal is written with the fewest of 0, 1, 2, 4 or 8 bytes *)
DecLen(d) == IF Fits(d, 0) THEN 0
             ELSE IF Fits(d, 1) \/ (Variant = "narrow" /\ AllEq(d, 1, 7, 0)) THEN 1
             ELSE IF Fits(d, 2) /\ Variant # "wide" THEN 2
             ELSE IF Fits(d, 4) THEN 4 ELSE 8
EncDec(d) == LET k == DecLen(d) IN <<k>> \o SubSeq(d, Len(d) - k + 1, Len(d))
(* a small natural number as 8 bytes *)
Nat8(n) == <<0, 0, 0, 0, n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
Be(n, k) == SubSeq(Nat8(n), 9 - k, 8)
IntOf(d) == IF Len(d) = 0 THEN 0
            ELSE LET F[i \in 0..Len(d)] == IF i = 0 THEN (IF d[1] >= 128 THEN -1 ELSE 0) ELSE F[i - 1] * 256 + d[i] IN F[Len(d)]
UIntOf(d) == LET F[i \in 0..Len(d)] == IF i = 0 THEN 0 ELSE F[i - 1] * 256 + d[i] IN F[Len(d)]

EncBlob(d) == LET n == Len(d) IN
    IF n <= 253 THEN <<n>> \o d
    ELSE IF n <= 65535 THEN <<255>> \o Be(n, 2) \o d
    ELSE <<254>> \o Be(n, 4) \o d
Huge == <<104, 117, 103, 101, 32, 115, 116, 114, 105, 110, 103, 32, 111, 109, 105, 116, 116, 101, 100, 46, 46, 46>>
(* a text beyond 100,000 bytes is replaced *)
TextOf(d) == IF Len(d) > 100000 THEN Huge ELSE d
EncStr(d) == EncBlob(TextOf(d))

(* concatenation of parts without quadratic copying *)
RECURSIVE CatFrom(_, _, _)
CatFrom(s, i, j) == IF i > j THEN <<>> ELSE IF i = j THEN s[i]
                    ELSE LET m == (i + j) \div 2 IN CatFrom(s, i, m) \o CatFrom(s, m + 1, j)
Cat(s) == CatFrom(s, 1, Len(s))

Code == ("null" :> 0) @@ ("bool" :> 10) @@ ("dec" :> 20) @@ ("f32" :> 30) @@ ("f64" :> 40) @@ ("text" :> 50) @@
        ("hash" :> 51) @@ ("blob" :> 60) @@ ("ip4" :> 61) @@ ("list" :> 70) @@ ("map" :> 80)
RECURSIVE Enc(_)
EncBody(v) ==
    CASE v.t = "null" -> <<>>
      [] v.t = "dec" -> EncDec(v.d)
      [] v.t = "text" -> EncStr(v.d)
      [] v.t = "blob" -> EncBlob(v.d)
      [] v.t \in {"bool", "f32", "f64", "hash", "ip4"} -> v.d
      [] v.t = "list" -> EncDec(Nat8(Len(v.e))) \o Cat([i \in DOMAIN v.e |-> Enc(v.e[i])])
      [] v.t = "map" -> EncDec(Nat8(IF Variant = "count" THEN Len(v.kv) + 1 ELSE Len(v.kv))) \o Cat([i \in DOMAIN v.kv |-> EncStr(v.kv[i][1]) \o Enc(v.kv[i][2])])
Enc(v) == <<Code[v.t]>> \o EncBody(v)

(* ---------------------------------------------------------------- reading      *)
(* every reader returns [ok, v, p]: the content and the position behind it        *)
No == [ok |-> FALSE, v |-> <<>>, p |-> 0]
Yes(v, p) == [ok |-> TRUE, v |-> v, p |-> p]
Take(b, p, n) == IF n < 0 \/ n > Len(b) - p + 1 THEN No ELSE Yes(SubSeq(b, p, p + n - 1), p + n)
(* lengths 3 and 5 exist for other agents' decimals; this one's reader may refuse *)
DecDec(b, p) ==
    IF p > Len(b) THEN No
    ELSE IF b[p] \in {0, 1, 2, 4, 8}
         THEN LET r == Take(b, p + 1, b[p]) IN IF r.ok THEN Yes(Extend(r.v, 8), r.p) ELSE No
         ELSE No
DecBlob(b, p) ==
    IF p > Len(b) THEN No
    ELSE IF b[p] = 255 THEN LET r == Take(b, p + 1, 2) IN IF r.ok THEN Take(b, r.p, UIntOf(r.v)) ELSE No
    ELSE IF b[p] = 254 THEN LET r == Take(b, p + 1, 4) IN IF r.ok THEN (IF r.v[1] >= 128 THEN No ELSE Take(b, r.p, IntOf(r.v))) ELSE No
    ELSE Take(b, p + 1, b[p])
(* a count of elements; one beyond the remaining bytes cannot be satisfied        *)
Count(b, p) == LET r == DecDec(b, p) IN
    IF ~r.ok THEN No
    ELSE IF r.v[1] >= 128 THEN Yes(0, r.p)
    ELSE IF ~AllEq(r.v, 1, 4, 0) \/ r.v[5] >= 128 THEN No
    ELSE IF IntOf(r.v) > Len(b) - r.p + 1 THEN No
    ELSE Yes(IntOf(r.v), r.p)
RECURSIVE DecV(_, _)
RECURSIVE DecList(_, _, _, _)
RECURSIVE DecMap(_, _, _, _)
DecList(b, p, n, acc) == IF n = 0 THEN Yes(acc, p)
                         ELSE LET r == DecV(b, p) IN IF r.ok THEN DecList(b, r.p, n - 1, Append(acc, r.v)) ELSE No
DecMap(b, p, n, acc) == IF n = 0 THEN Yes(acc, p)
                        ELSE LET k == DecBlob(b, p) IN
                             IF ~k.ok THEN No
                             ELSE LET r == DecV(b, k.p) IN IF r.ok THEN DecMap(b, r.p, n - 1, Append(acc, <<k.v, r.v>>)) ELSE No
Typed(t, r) == IF r.ok THEN Yes([t |-> t, d |-> r.v], r.p) ELSE No
DecV(b, p) ==
    IF p > Len(b) THEN No
    ELSE LET t == b[p]  q == p + 1 IN
         CASE t = 0 -> Yes([t |-> "null"], q)
           [] t = 10 -> LET r == Take(b, q, 1) IN IF r.ok THEN Yes([t |-> "bool", d |-> IF r.v[1] = 0 THEN <<0>> ELSE <<1>>], r.p) ELSE No
           [] t = 20 -> Typed("dec", DecDec(b, q))
           [] t = 30 -> Typed("f32", Take(b, q, 4))
           [] t = 40 -> Typed("f64", Take(b, q, 8))
           [] t = 50 -> Typed("text", DecBlob(b, q))
           [] t = 51 -> Typed("hash", Take(b, q, 4))
           [] t = 60 -> Typed("blob", DecBlob(b, q))
           [] t = 61 -> Typed("ip4", Take(b, q, 4))
           [] t = 70 -> LET c == Count(b, q) IN
                        IF ~c.ok THEN No ELSE LET r == DecList(b, c.p, c.v, <<>>) IN IF r.ok THEN Yes([t |-> "list", e |-> r.v], r.p) ELSE No
           [] t = 80 -> LET c == Count(b, q) IN
                        IF ~c.ok THEN No ELSE LET r == DecMap(b, c.p, c.v, <<>>) IN IF r.ok THEN Yes([t |-> "map", kv |-> r.v], r.p) ELSE No
           [] OTHER -> No

(* contents, with maps as sets of pairs (the last of equal keys counts)           *)
RECURSIVE Norm(_)
Norm(v) == IF v.t = "list" THEN [t |-> "list", e |-> [i \in DOMAIN v.e |-> Norm(v.e[i])]]
           ELSE IF v.t = "map" THEN [t |-> "map", kv |-> {<<v.kv[i][1], Norm(v.kv[i][2])>> :
                    i \in {i \in DOMAIN v.kv : \A j \in (i + 1)..Len(v.kv) : v.kv[j][1] # v.kv[i][1]}}]
           ELSE v
(* what a written value reads as *)
RECURSIVE Written(_)
Written(v) == IF v.t = "list" THEN [t |-> "list", e |-> [i \in DOMAIN v.e |-> Written(v.e[i])]]
              ELSE IF v.t = "map" THEN [t |-> "map", kv |-> [i \in DOMAIN v.kv |-> <<TextOf(v.kv[i][1]), Written(v.kv[i][2])>>]]
              ELSE IF v.t = "text" THEN [t |-> "text", d |-> TextOf(v.d)]
              ELSE IF v.t = "go" THEN [t |-> "null"]
              ELSE v

(* ---------------------------------------------------------------- records      *)
(* packs and steps are sequences of fields; "pairs" is a map's content without    *)
(* its type byte, "addr" a text present when the field before it is 1             *)
StepHead == <<"d32", "d32", "d32", "d32">>
XlogFields == <<"dec", "d32", "d32", "i64", "i64", "i64", "d32", "d32", "d32", "d32", "d32", "blob", "d32", "d32", "dec", "d32", "d32", "d32",
                "d32", "d32", "str", "d32", "u8", "d32", "d32", "d32", "d32", "u8", "d32", "str", "str", "d32", "d32", "d32", "d32",
                "str", "str", "str", "d32", "bool", "d32", "u8", "bool">>
Layout == ("map" :> <<"pairs">>)
       @@ ("text" :> <<"str", "i32", "str">>)
       @@ ("alert" :> <<"i64", "u8", "str", "i32", "str", "str", "value">>)
       @@ ("object" :> <<"str", "d32", "str", "str", "str", "bool", "dec", "value">>)
       @@ ("object2" :> <<"str", "str", "d32", "str", "str", "str", "bool", "dec", "u8", "value">>)
       @@ ("perf" :> <<"i64", "str", "u8", "value">>)
       @@ ("profile" :> <<"dec", "d32", "d32", "i64", "blob">>)
       @@ ("xlog" :> <<"xlog">>)
       @@ ("method" :> StepHead \o <<"d32", "d32", "d32">>)
       @@ ("message" :> StepHead \o <<"str">>)
       @@ ("api" :> StepHead \o <<"dec", "d32", "d32", "d32", "d32", "u8", "addr">>)
       @@ ("hashed" :> StepHead \o <<"d32", "d32", "d32">>)
       @@ ("async" :> StepHead \o <<"dec", "d32", "d32", "u8">>)
       @@ ("pmessage" :> StepHead \o <<"d32", "d32", "d32", "str">>)
RecCode == ("map" :> 10) @@ ("xlog" :> 21) @@ ("profile" :> 26) @@ ("text" :> 50) @@ ("perf" :> 60) @@ ("alert" :> 70) @@ ("object" :> 80) @@ ("object2" :> 80)
        @@ ("method" :> 1) @@ ("message" :> 3) @@ ("api" :> 6) @@ ("hashed" :> 9) @@ ("async" :> 14) @@ ("pmessage" :> 17)
StepKinds == {"method", "message", "api", "hashed", "async", "pmessage"}
Width == ("u8" :> 1) @@ ("i8" :> 1) @@ ("bool" :> 1) @@ ("i16" :> 2) @@ ("i32" :> 4) @@ ("f32" :> 4) @@ ("i64" :> 8) @@ ("u64" :> 8) @@ ("f64" :> 8)

EncPairs(kv) == EncDec(Nat8(Len(kv))) \o Cat([i \in DOMAIN kv |-> EncStr(kv[i][1]) \o Enc(kv[i][2])])
RECURSIVE EncFields(_, _)
EncField(ty, x) ==
    CASE ty \in DOMAIN Width -> x
      [] ty \in {"dec", "d32", "dec32"} -> EncDec(Extend(x, 8))
      [] ty = "str" -> EncStr(x)
      [] ty = "blob" -> EncBlob(x)
      [] ty = "intbytes" -> Be(Len(x), 4) \o x
      [] ty = "raw" -> x
      [] ty = "value" -> Enc(x)
      [] ty = "pairs" -> EncPairs(x.kv)
      [] ty = "xlog" -> EncBlob(EncFields(XlogFields, x))
EncFields(ts, xs) == Cat([i \in DOMAIN ts |-> IF ts[i] = "addr" THEN (IF xs[i - 1] = <<1>> THEN EncStr(xs[i]) ELSE <<>>)
                                              ELSE EncField(ts[i], xs[i])])
EncRec(k, xs) == <<RecCode[k]>> \o EncFields(Layout[k], xs)

RECURSIVE DecFields(_, _, _, _, _)
DecField(ty, b, p, acc) ==
    CASE ty = "bool" -> LET r == Take(b, p, 1) IN IF r.ok THEN Yes(IF r.v[1] = 0 THEN <<0>> ELSE <<1>>, r.p) ELSE No
      [] ty \in DOMAIN Width -> Take(b, p, Width[ty])
      [] ty \in {"dec", "dec32"} -> DecDec(b, p)
      [] ty = "d32" -> LET r == DecDec(b, p) IN IF r.ok THEN Yes(SubSeq(r.v, 5, 8), r.p) ELSE No
      [] ty \in {"str", "blob"} -> DecBlob(b, p)
      [] ty = "addr" -> IF acc[Len(acc)] = <<1>> THEN DecBlob(b, p) ELSE Yes(<<>>, p)
      [] ty = "intbytes" -> LET r == Take(b, p, 4) IN IF ~r.ok \/ r.v[1] >= 128 THEN No ELSE Take(b, r.p, IntOf(r.v))
      [] ty = "value" -> DecV(b, p)
      [] ty = "pairs" -> LET c == Count(b, p) IN
                         IF ~c.ok THEN No ELSE LET r == DecMap(b, c.p, c.v, <<>>) IN IF r.ok THEN Yes([t |-> "map", kv |-> r.v], r.p) ELSE No
      [] ty = "xlog" -> LET r == DecBlob(b, p) IN
                        IF ~r.ok THEN No
                        ELSE LET x == DecFields(XlogFields, r.v, 1, 1, <<>>) IN IF x.ok /\ x.p = Len(r.v) + 1 THEN Yes(x.v, r.p) ELSE No
DecFields(ts, b, p, i, acc) == IF i > Len(ts) THEN Yes(acc, p)
                               ELSE LET r == DecField(ts[i], b, p, acc) IN IF r.ok THEN DecFields(ts, b, r.p, i + 1, Append(acc, r.v)) ELSE No
DecRec(k, b, p) == IF p > Len(b) \/ b[p] # RecCode[k] THEN No ELSE DecFields(Layout[k], b, p + 1, 1, <<>>)
RECURSIVE DecSteps(_, _, _)
DecSteps(b, p, acc) == IF p > Len(b) THEN Yes(acc, p)
    ELSE LET ks == {k \in StepKinds : RecCode[k] = b[p]} IN
         IF ks = {} THEN No
         ELSE LET k == CHOOSE k \in ks : TRUE
                  r == DecRec(k, b, p) IN IF r.ok THEN DecSteps(b, r.p, Append(acc, <<k, r.v>>)) ELSE No
Values == {"value", "pairs"}
NormF(ts, xs) == [i \in DOMAIN xs |-> IF ts[i] \in Values THEN Norm(xs[i])
                                      ELSE IF ts[i] = "addr" /\ xs[i - 1] # <<1>> THEN <<>> ELSE xs[i]]
WrittenF(ts, xs) == [i \in DOMAIN xs |-> IF ts[i] \in Values THEN Written(xs[i])
                                         ELSE IF ts[i] \in {"str", "addr"} THEN TextOf(xs[i]) ELSE xs[i]]
=============================================================================
