------------------------------ MODULE ClHistMC ------------------------------
EXTENDS ClHist
CONSTANTS MaxLen
S3 == <<"age", "height", "name">>
S2 == <<"age", "status">>
X == [k |-> 1, ms |-> 1, at |-> [age |-> 28, height |-> 175, name |-> 5]]
R == [k |-> 1, ms |-> 1, at |-> [age |-> 21, height |-> 170, name |-> 5]]
Y == [k |-> 3, ms |-> 1, at |-> [age |-> 51, status |-> 7]]
Y2 == [k |-> 3, ms |-> 2, at |-> [age |-> 28, status |-> 7]]
Q == <<[a |-> "age", t |-> "GE", v |-> 18]>>
SX == [cred |-> X, key |-> 1, schema |-> S3, rev |-> <<"name">>, preds |-> Q]
SR == [cred |-> R, key |-> 1, schema |-> S3, rev |-> <<"name">>, preds |-> Q, reg |-> 1]
SY == [cred |-> Y, key |-> 3, schema |-> S2, rev |-> <<"status">>, preds |-> <<>>]
SY2 == [cred |-> Y2, key |-> 3, schema |-> S2, rev |-> <<"status">>, preds |-> <<>>]
WX == [key |-> 1, schema |-> S3, rev |-> <<"name">>, preds |-> Q]
WR == [key |-> 1, schema |-> S3, rev |-> <<"name">>, preds |-> Q, reg |-> 1]
WY == [key |-> 3, schema |-> S2, rev |-> <<"status">>, preds |-> <<>>]
P(subs, common) == [subs |-> subs, common |-> common, nonce |-> 1]
MS == "master_secret"
Pres == { P(<<SX>>, <<>>), P(<<SX>>, <<MS>>), P(<<SX, SY>>, <<MS>>), P(<<SX, SY>>, <<>>), P(<<SX, SY2>>, <<>>), P(<<SX, SY2>>, <<"age">>), P(<<SX, SY2>>, <<MS>>),
          P(<<SR>>, <<>>), P(<<SR, SY>>, <<MS>>) }
\* e: a number of the first sub proof changed, m: of the last, drop: the last left out, hash: the challenge changed
Edits == {"none", "e", "m", "drop", "hash"}
Useful(p) == \/ Len(p.subs) <= Len(cfg.subs)
Init2 == /\ hist = <<>> /\ ev = Ev([op |-> "init"], "")
         /\ cfg \in { [subs |-> <<WX>>, common |-> <<>>], [subs |-> <<WX, WY>>, common |-> <<MS>>], [subs |-> <<WX, WY>>, common |-> <<>>],
                      [subs |-> <<WX, WY>>, common |-> <<"age">>], [subs |-> <<WR>>, common |-> <<>>], [subs |-> <<WR, WY>>, common |-> <<MS>>] }
Do(c) == /\ (c.op = "verify" => HStep(c, VerdictOf(c))) /\ (c.op # "verify" => HStep(c, "ok"))
         /\ hist' = Append(hist, c)
\* id: two presentations made apart from each other, to the same end
Verify == \E p \in Pres, e \in Edits, n, id \in 1..2 :
   /\ Useful(p) /\ (n = 2 => e = "none" /\ id = 1)
   /\ (e = "drop" => Len(p.subs) > 1)
   \* presentations with some bearing on the configuration
   /\ \/ VerdictOf([edit |-> "none", p |-> p, nonce |-> 1]) = "yes"
      \/ (e = "none" /\ n = 1 /\ id = 1)
   /\ Do([op |-> "verify", p |-> p, edit |-> e, nonce |-> n, id |-> id])
Add == \/ (Len(cfg.subs) < 2 /\ Do([op |-> "addsub", s |-> WY]))
       \/ (MS \notin Rng(cfg.common) /\ Do([op |-> "addcommon", a |-> MS]))
Next == Len(hist) < MaxLen /\ (Verify \/ Add)
Emit == EmitEdge(hvars, ev', hvars')
------------------------------------------------------------------------------
\* the verdict of any moment is the one the first moment of such a configuration would give: no trace of the past
Pure == Len(hist) > 1 /\ ev.c.op = "verify" =>
   \A i \in 1..Len(hist) - 1 : (hist[i] = hist[Len(hist)] /\ \A j \in i..Len(hist) : hist[j].op = "verify")
      => VerdictOf(hist[i]) = ev.r
Sound1 == ev.c.op = "verify" /\ ev.r = "yes" => ev.c.edit = "none" /\ ev.c.nonce = 1 /\ Len(ev.c.p.subs) = Len(cfg.subs)
=============================================================================
