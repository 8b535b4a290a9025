------------------------------- MODULE ClHist -------------------------------
(* One verifier object over its life (property C08): requests and common attributes are added, and
   presentations verified, in any order. The verdict is the one of a fresh verifier configured alike. *)
EXTENDS ClShow
VARIABLES cfg, hist
hvars == <<cfg, hist>>
RegOf(s) == "reg" \in DOMAIN s
\* edits which spoil a presentation: see ClTamper; "none" leaves it as it is
VerdictOf(c) ==
  IF /\ c.edit = "none"
     /\ \A i \in DOMAIN c.p.subs : i \in DOMAIN cfg.subs => RegOf(c.p.subs[i]) = RegOf(cfg.subs[i])
     /\ Accept([op |-> "present", p |-> c.p, v |-> [subs |-> cfg.subs, common |-> cfg.common, nonce |-> c.nonce]])
  THEN "yes" ELSE "no"
HAllowed(c, r) == CASE c.op = "verify" -> r = VerdictOf(c)
                    [] OTHER -> r = "ok"
HStep(c, r) ==
  /\ HAllowed(c, r)
  /\ ev' = Ev(c, r)
  /\ cfg' = CASE c.op = "addsub" -> [cfg EXCEPT !.subs = Append(@, c.s)]
              [] c.op = "addcommon" -> [cfg EXCEPT !.common = Append(@, c.a)]
              [] c.op = "new" -> [subs |-> <<>>, common |-> <<>>]
              [] OTHER -> cfg
HInit == Init /\ cfg = [subs |-> <<>>, common |-> <<>>]
=============================================================================
