-------------------------------- MODULE Record --------------------------------
(* What the record of a transaction has to say (C02): the values a program     *)
(* establishes by the calls it makes before the transaction ends.  A pure       *)
(* function of the calls made on the transaction; used both by the model        *)
(* (RecordMC) and by the validation of recorded programs (RecTrace).            *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Extra == {"Login", "Desc", "Text1", "Text2", "Text3", "Text4", "Text5"}
Nums == {"Userid", "SqlCount", "SqlTime"}

(* kinds of transactions: 0 a web service, 1 an application service, 4 a      *)
(* chained goroutine                                                           *)
New(xtype, name, ip, ua, ref, now) ==
    [name |-> name, error |-> "", status |-> 0, apis |-> 0, apitime |-> 0, xtype |-> xtype, ip |-> ip, ua |-> ua, ref |-> ref,
     begin |-> now, text |-> [f \in Extra |-> ""], num |-> [f \in Nums |-> 0]]

(* the client is named by the configured header when the request has it       *)
ClientOf(addr, hdr) == IF hdr # "" THEN hdr ELSE addr

(* a chained goroutine starts anew, for the same client; an inheriting         *)
(* transaction starts with everything its parent has collected                *)
Chained(p, name, now) == New(4, name, p.ip, "", "", now)
Inherited(p, now) == [p EXCEPT !.begin = now, !.status = 0]

Rename(r, n) == [r EXCEPT !.name = n]
FirstError(r, m) == IF r.error = "" THEN [r EXCEPT !.error = m] ELSE r
ForceError(r, m) == [r EXCEPT !.error = m]
CallDone(r, took, m) == LET s == [r EXCEPT !.apis = @ + 1, !.apitime = @ + took] IN IF m = "" THEN s ELSE FirstError(s, m)
SetStatus(r, s) == [r EXCEPT !.status = s]
SetText(r, f, v) == [r EXCEPT !.text[f] = v]
SetNum(r, f, v) == [r EXCEPT !.num[f] = v]

(* the record sent when a transaction in state r ends at time now             *)
RecordOf(r, now) ==
    [name |-> r.name, error |-> r.error, status |-> r.status, apis |-> r.apis, apitime |-> r.apitime, xtype |-> r.xtype,
     ip |-> r.ip, ua |-> r.ua, ref |-> r.ref, elapsed |-> now - r.begin, text |-> r.text, num |-> r.num]

StuckError == "This stuck service currently may running, not finished!"
=============================================================================
