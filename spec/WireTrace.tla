-------------------------------- MODULE WireTrace --------------------------------
(* What the real writer wrote and the real reader read, against Wire.              *)
(* enc: content v was written as bytes b.  dec: the agent read b (written by it or  *)
(* by the specification), followed by tail, and must have read what it says.  junk: *)
(* any bytes; the answer is a refusal or what the bytes say.  cuts: answers for      *)
(* proper prefixes.  gets: the typed getters of a map.  canon: a pack of a running   *)
(* agent.                                                                            *)
EXTENDS TraceLib, Wire
VARIABLES tr, l
vars == <<tr, l>>
T == Traces[tr]
E == T.ev
e == E[l]
Init == tr \in 1..NTraces /\ l = 1
Step == l <= Len(E) /\ l' = l + 1 /\ UNCHANGED tr
Read(x, b) == CASE x.kind = "value" -> DecV(b, 1)
                [] x.kind = "rec" -> DecRec(x.p, b, 1)
                [] x.kind = "fields" -> DecFields(x.layout, b, 1, 1, <<>>)
                [] x.kind = "steps" -> DecSteps(b, 1, <<>>)
Write(x, v) == CASE x.kind = "value" -> Enc(v)
                 [] x.kind = "rec" -> EncRec(x.p, v)
                 [] x.kind = "fields" -> EncFields(x.layout, v)
                 [] x.kind = "steps" -> Cat([i \in DOMAIN v |-> EncRec(v[i][1], v[i][2])])
Nrm(x, v) == CASE x.kind = "value" -> Norm(v)
               [] x.kind = "rec" -> IF x.p = "xlog" THEN v ELSE NormF(Layout[x.p], v)
               [] x.kind = "fields" -> NormF(x.layout, v)
               [] x.kind = "steps" -> [i \in DOMAIN v |-> <<v[i][1], NormF(Layout[v[i][1]], v[i][2])>>]
Wrt(x, v) == CASE x.kind = "value" -> Written(v)
               [] x.kind = "rec" -> IF x.p = "xlog" THEN <<WrittenF(XlogFields, v[1])>> ELSE WrittenF(Layout[x.p], v)
               [] x.kind = "fields" -> WrittenF(x.layout, v)
               [] x.kind = "steps" -> [i \in DOMAIN v |-> <<v[i][1], WrittenF(Layout[v[i][1]], v[i][2])>>]
EncStep == /\ l <= Len(E) /\ e.k = "enc"
           /\ LET r == Read(e, e.b) IN
              /\ r.ok /\ r.p = Len(e.b) + 1
              /\ Nrm(e, r.v) = Nrm(e, Wrt(e, e.v))
              /\ Write(e, r.v) = e.b
           /\ e.size = Len(e.b)
           /\ Step
DecStep == /\ l <= Len(E) /\ e.k = "dec" /\ e.ok
           /\ LET r == Read(e, e.b) IN r.ok /\ Nrm(e, r.v) = Nrm(e, e.v) /\ e.rest = e.tail
           /\ Step
Junk == /\ l <= Len(E) /\ e.k = "junk"
        /\ e.ok => LET r == Read(e, e.b) IN r.ok /\ Nrm(e, r.v) = Nrm(e, e.v)
        /\ Step
Cuts == /\ l <= Len(E) /\ e.k = "cuts"
        /\ \A i \in DOMAIN e.oks : LET r == Read(e, SubSeq(e.b, 1, e.oks[i].n)) IN r.ok /\ Nrm(e, r.v) = Nrm(e, e.oks[i].v)
        /\ Step
At(kv, k) == LET I == {i \in DOMAIN kv : kv[i][1] = k} IN IF I = {} THEN [t |-> "go"] ELSE kv[CHOOSE i \in I : \A j \in I : j <= i][2]
Low(d, n) == SubSeq(d, Len(d) - n + 1, Len(d))
Gets == /\ l <= Len(E) /\ e.k = "gets"
        /\ \A i \in DOMAIN e.g : LET g == e.g[i]  x == At(e.v.kv, g[1]) IN
              /\ g[2] = (IF x.t = "text" THEN x.d ELSE <<>>)
              /\ g[3] = (x.t = "bool" /\ x.d = <<1>>)
              /\ \A q \in {<<4, 1>>, <<5, 2>>, <<6, 4>>, <<7, 8>>} : g[q[1]] = (IF x.t = "dec" THEN Low(x.d, q[2]) ELSE Zeros(q[2]))
        /\ Step
Canon == /\ l <= Len(E) /\ e.k = "canon"
         /\ \E k \in DOMAIN RecCode \ (StepKinds \cup {"object2"}) :
               LET r == DecRec(k, e.b, 1) IN
               /\ r.ok /\ r.p = Len(e.b) + 1 /\ EncRec(k, r.v) = e.b
               /\ k = "profile" => LET s == DecSteps(r.v[5], 1, <<>>) IN
                                   s.ok /\ Cat([i \in DOMAIN s.v |-> EncRec(s.v[i][1], s.v[i][2])]) = r.v[5]
         /\ Step
Next == EncStep \/ DecStep \/ Junk \/ Cuts \/ Gets \/ Canon
Spec == Init /\ [][Next]_vars
ASSUME InitProgress
Progress == ProgressOf(tr, l)
Done == Report
=============================================================================
