----------------------------------- MODULE Conf -----------------------------------
(* The effective value of every option, given the configuration file and the       *)
(* environment.  A file or environment is a sequence of lines [k, v]; a value v    *)
(* is a sequence of parts: [t: "lit", s: characters], [t: "ref", k] for ${k}, or   *)
(* [t: "bad"] for an expression without end.  A value is the text of its parts.    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Strs == ("obj_name" :> "go1") @@ ("obj_type" :> "golang") @@ ("net_collector_ip" :> "127.0.0.1") @@ ("profile_http_header_keys" :> "")
        @@ ("trace_http_client_ip_header_key" :> "") @@ ("xlog_discard_service_patterns" :> "") @@ ("xlog_sampling_exclude_patterns" :> "")
        @@ ("xlog_patterned_sampling_service_patterns" :> "") @@ ("xlog_patterned2_sampling_service_patterns" :> "")
        @@ ("xlog_patterned3_sampling_service_patterns" :> "")
Off == {"trace_obj_send", "profile_http_querystring_enabled", "profile_http_header_enabled", "xlog_sampling_enabled", "xlog_sampling_only_profile",
        "xlog_patterned_sampling_enabled", "xlog_patterned_sampling_only_profile", "xlog_patterned2_sampling_enabled",
        "xlog_patterned2_sampling_only_profile", "xlog_patterned3_sampling_enabled", "xlog_patterned3_sampling_only_profile"}
On == {"stuck_service_remove_enabled", "stuck_service_alert_enabled", "xlog_discard_service_show_error"}
Sizes == ("send_queue_size" :> "3000") @@ ("udp_max_bytes" :> "60000") @@ ("profile_step_max_keep_in_memory_count" :> "2048")
         @@ ("profile_step_max_count" :> "1024")
Nums == ("net_collector_udp_port" :> "6100") @@ ("net_collector_tcp_port" :> "6100") @@ ("net_collector_tcp_so_timeout_ms" :> "60000")
        @@ ("net_collector_tcp_connection_timeout_ms" :> "3000") @@ ("stuck_service_base_time_ms" :> "300000")
        @@ ("trace_activeservice_yellow_time" :> "3000") @@ ("trace_activeservice_red_time" :> "8000")
        @@ ("xlog_sampling_step1_rate_pct" :> "2") @@ ("xlog_sampling_step2_rate_pct" :> "7") @@ ("xlog_sampling_step3_rate_pct" :> "15") @@ ("xlog_sampling_over_rate_pct" :> "3000")
        @@ ("xlog_patterned_sampling_step1_rate_pct" :> "2") @@ ("xlog_patterned_sampling_step2_rate_pct" :> "7") @@ ("xlog_patterned_sampling_step3_rate_pct" :> "15") @@ ("xlog_patterned_sampling_over_rate_pct" :> "3000")
        @@ ("xlog_patterned2_sampling_step1_rate_pct" :> "2") @@ ("xlog_patterned2_sampling_step2_rate_pct" :> "7") @@ ("xlog_patterned2_sampling_step3_rate_pct" :> "15") @@ ("xlog_patterned2_sampling_over_rate_pct" :> "3000")
        @@ ("xlog_patterned3_sampling_step1_rate_pct" :> "2") @@ ("xlog_patterned3_sampling_step2_rate_pct" :> "7") @@ ("xlog_patterned3_sampling_step3_rate_pct" :> "15") @@ ("xlog_patterned3_sampling_over_rate_pct" :> "3000")
(* times of transactions, which are 32-bit numbers                                 *)
Times == ("xlog_sampling_step1_ms" :> "100") @@ ("xlog_sampling_step2_ms" :> "500") @@ ("xlog_sampling_step3_ms" :> "1000")
         @@ ("xlog_patterned_sampling_step1_ms" :> "100") @@ ("xlog_patterned_sampling_step2_ms" :> "500") @@ ("xlog_patterned_sampling_step3_ms" :> "1000")
         @@ ("xlog_patterned2_sampling_step1_ms" :> "100") @@ ("xlog_patterned2_sampling_step2_ms" :> "500") @@ ("xlog_patterned2_sampling_step3_ms" :> "1000")
         @@ ("xlog_patterned3_sampling_step1_ms" :> "100") @@ ("xlog_patterned3_sampling_step2_ms" :> "500") @@ ("xlog_patterned3_sampling_step3_ms" :> "1000")
Options == DOMAIN Strs \cup Off \cup On \cup DOMAIN Sizes \cup DOMAIN Nums \cup DOMAIN Times
Default(o) == IF o \in DOMAIN Strs THEN Strs[o] ELSE IF o \in Off THEN "false" ELSE IF o \in On THEN "true"
              ELSE IF o \in DOMAIN Sizes THEN Sizes[o] ELSE IF o \in DOMAIN Nums THEN Nums[o] ELSE Times[o]
(* ------------------------------------------------------------ expansion        *)
Err == <<"${">>          \* not a text: an expression that is malformed or circular
(* the last line of a key counts                                                   *)
Lines(f, k) == {i \in DOMAIN f : f[i].k = k}
In(f, k) == Lines(f, k) # {}
Raw(f, k) == f[CHOOSE i \in Lines(f, k) : \A j \in Lines(f, k) : j <= i].v
RECURSIVE Expand(_, _, _, _), Parts(_, _, _, _, _)
Expand(f, env, k, seen) ==
    IF k \in seen THEN Err
    ELSE IF In(f, k) THEN Parts(f, env, Raw(f, k), 1, seen \cup {k})
    ELSE IF In(env, k) THEN Parts(f, env, Raw(env, k), 1, seen \cup {k})
    ELSE << >>
Parts(f, env, v, i, seen) ==
    IF i > Len(v) THEN << >>
    ELSE LET p == v[i]
             a == IF p.t = "lit" THEN p.s ELSE IF p.t = "bad" THEN Err ELSE Expand(f, env, p.k, seen) IN
         IF a = Err THEN Err
         ELSE LET b == Parts(f, env, v, i + 1, seen) IN IF b = Err THEN Err ELSE a \o b
(* every key of the file can be expanded                                           *)
Sound(f, env) == \A i \in DOMAIN f : Expand(f, env, f[i].k, {}) # Err
(* ------------------------------------------------------------ values           *)
RECURSIVE Str(_)
Str(s) == IF s = << >> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE LET m == Len(s) \div 2 IN Str(SubSeq(s, 1, m)) \o Str(SubSeq(s, m + 1, Len(s)))
Dig == ("0" :> 0) @@ ("1" :> 1) @@ ("2" :> 2) @@ ("3" :> 3) @@ ("4" :> 4) @@ ("5" :> 5) @@ ("6" :> 6) @@ ("7" :> 7) @@ ("8" :> 8) @@ ("9" :> 9)
Digits(s) == s # << >> /\ \A i \in DOMAIN s : s[i] \in DOMAIN Dig
RECURSIVE Strip(_)
Strip(s) == IF Len(s) > 1 /\ s[1] = "0" THEN Strip(Tail(s)) ELSE s
Signed(s) == s # << >> /\ s[1] \in {"+", "-"}
Body(s) == IF Signed(s) THEN Tail(s) ELSE s
Neg(s) == Signed(s) /\ s[1] = "-"
RECURSIVE Leq(_, _, _)
Leq(a, b, i) == IF i > Len(a) THEN TRUE ELSE IF Dig[a[i]] # Dig[b[i]] THEN Dig[a[i]] < Dig[b[i]] ELSE Leq(a, b, i + 1)
AtMost(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ Leq(a, b, 1))
Max64 == <<"9","2","2","3","3","7","2","0","3","6","8","5","4","7","7","5","8","0","7">>
Min64 == [Max64 EXCEPT ![19] = "8"]
Max32 == <<"2","1","4","7","4","8","3","6","4","7">>
Min32 == [Max32 EXCEPT ![10] = "8"]
Number(s, hi, lo) == Digits(Body(s)) /\ AtMost(Strip(Body(s)), IF Neg(s) THEN lo ELSE hi)
Zero(s) == Strip(Body(s)) = <<"0">>
Canon(s) == IF Zero(s) THEN "0" ELSE (IF Neg(s) THEN "-" ELSE "") \o Str(Strip(Body(s)))
Up == <<"T","R","U","E","Y","S","O","N">>
Low == <<"t","r","u","e","y","s","o","n">>
LowerOf(c) == IF \E i \in DOMAIN Up : Up[i] = c THEN Low[CHOOSE i \in DOMAIN Up : Up[i] = c] ELSE c
Truth(s) == IF Len(s) <= 4 THEN Str([i \in DOMAIN s |-> LowerOf(s[i])]) \in {"1", "true", "yes", "on"} ELSE FALSE
Typed(o, s) ==
    IF o \in DOMAIN Strs THEN Str(s)
    ELSE IF o \in Off \cup On THEN (IF Truth(s) THEN "true" ELSE "false")
    ELSE IF o \in DOMAIN Times THEN (IF Number(s, Max32, Min32) THEN Canon(s) ELSE Default(o))
    ELSE IF ~Number(s, Max64, Min64) THEN Default(o)
    ELSE IF o \in DOMAIN Sizes /\ (Zero(s) \/ Neg(s)) THEN Default(o) ELSE Canon(s)
(* an option the file leaves empty has its default; an empty or malformed value    *)
(* in the environment is none                                                       *)
Empty(v) == \A i \in DOMAIN v : v[i].t = "lit" /\ v[i].s = << >>
Eff(f, env, o) ==
    IF In(f, o) THEN IF Empty(Raw(f, o)) THEN Default(o) ELSE Typed(o, Expand(f, env, o, {}))
    ELSE IF ~In(env, o) THEN Default(o)
    ELSE IF Empty(Raw(env, o)) THEN Default(o)
    ELSE LET x == Expand(f, env, o, {}) IN IF x = Err THEN Default(o) ELSE Typed(o, x)
Effective(f, env) == [o \in Options |-> Eff(f, env, o)]
=============================================================================
