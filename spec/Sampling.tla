-------------------------------- MODULE Sampling --------------------------------
(* Which records and profiles are sent (C10).  A transaction is                    *)
(*   [el, err, child, excl, disc, m1, m2, m3]  (elapsed, in error, not a root,      *)
(* and which pattern lists match its name); a configuration has the general rule    *)
(* and three patterned ones; a draw is 0..D-1 and a percentage 0..D (of D).          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT D
(* ------------------------------------------------------------ what the property says *)
Pct(r, el) == IF el < r.s1 THEN r.p1 ELSE IF el < r.s2 THEN r.p2 ELSE IF el < r.s3 THEN r.p3 ELSE r.p4
Clamp(p) == IF p < 0 THEN 0 ELSE IF p > D THEN D ELSE p
(* the deciding rule: "keep", "drop" or a rule record                                   *)
Decider(c, t) ==
    IF t.disc THEN (IF t.err /\ c.showerr THEN [what |-> "keep"] ELSE [what |-> "drop"])
    ELSE IF t.err THEN [what |-> "keep"]
    ELSE IF c.g.on /\ t.excl THEN [what |-> "keep"]
    ELSE IF c.r1.on /\ t.m1 THEN [what |-> "rule", r |-> c.r1]
    ELSE IF c.r2.on /\ t.m2 THEN [what |-> "rule", r |-> c.r2]
    ELSE IF c.r3.on /\ t.m3 THEN [what |-> "rule", r |-> c.r3]
    ELSE IF c.g.on THEN [what |-> "rule", r |-> c.g]
    ELSE [what |-> "keep"]
(* how many of the D equally likely draws keep it in full, and what the others are      *)
Kept(c, t) == LET d == Decider(c, t) IN IF d.what = "keep" THEN D ELSE IF d.what = "drop" THEN 0 ELSE Clamp(Pct(d.r, t.el))
Lost(c, t) == LET d == Decider(c, t) IN
              IF d.what = "drop" THEN "nothing"
              ELSE IF d.what = "keep" THEN "full"
              ELSE IF d.r.only \/ t.child THEN "record" ELSE "nothing"
(* ------------------------------------------------------------ the design: a discard type *)
Refer(r) == IF r.only THEN "PROFILE" ELSE "ALL"
Sample(r, el, draw, strict) ==
    LET p == IF strict THEN Pct(r, el) ELSE (IF el <= r.s1 THEN r.p1 ELSE IF el <= r.s2 THEN r.p2 ELSE IF el <= r.s3 THEN r.p3 ELSE r.p4) IN
    IF draw >= p THEN Refer(r) ELSE "NONE"
Evaluate(c, t, draw, strict) ==
    IF c.g.on /\ t.excl THEN "NONE"
    ELSE IF c.r1.on /\ t.m1 THEN Sample(c.r1, t.el, draw, strict)
    ELSE IF c.r2.on /\ t.m2 THEN Sample(c.r2, t.el, draw, strict)
    ELSE IF c.r3.on /\ t.m3 THEN Sample(c.r3, t.el, draw, strict)
    ELSE IF c.g.on THEN Sample(c.g, t.el, draw, strict)
    ELSE "NONE"
Discard(c, t, draw, strict) ==
    IF t.disc THEN (IF t.err /\ c.showerr THEN "NONE" ELSE "ALL_FORCE")
    ELSE IF t.err THEN "NONE" ELSE Evaluate(c, t, draw, strict)
Sent(d, t) == IF d = "NONE" THEN "full"
              ELSE IF d = "PROFILE" \/ (d = "ALL" /\ t.child) THEN "record" ELSE "nothing"
Outcome(c, t, draw, strict) == Sent(Discard(c, t, draw, strict), t)
=============================================================================
