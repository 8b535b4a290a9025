------------------------------ MODULE ClShow ------------------------------
(* Presentations of anonymous credentials without revocation (properties C02, C03, C04).
   A call: the holder builds a presentation from p, a dishonest party may then edit it (moves), and
   the verifier, configured by v, checks it.
     p = [subs : seq of [cred, key, schema, rev, preds], common, nonce]
     v = [subs : seq of [key, schema, rev, preds], common, nonce]
   cred = [k : issuer key, ms : holder, at : attribute -> value].
   A sub proof may carry a forgery: "values" presents the claimed values under the credential's
   signature, "e1" presents them under a signature the holder made up. *)
EXTENDS Kit
VARIABLES ev

Holds(q, x) == CASE q.t = "GE" -> x >= q.v
                 [] q.t = "GT" -> x > q.v
                 [] q.t = "LE" -> x <= q.v
                 [] q.t = "LT" -> x < q.v
                 [] OTHER -> FALSE
Known(q) == q.t \in {"GE", "GT", "LE", "LT"}
Forged(s) == "forge" \in DOMAIN s
\* the credential as presented
Shown(s) == IF Forged(s) THEN [k |-> s.cred.k, ms |-> s.claim.ms, at |-> s.claim.at] ELSE s.cred
Genuine(s) == ~Forged(s) \/ (s.forge = "values" /\ s.claim.ms = s.cred.ms /\ s.claim.at = s.cred.at)
Val(s, a) == IF a = "master_secret" THEN Shown(s).ms ELSE Shown(s).at[a]

\* the request makes sense for a schema
Sensible(s) == /\ Rng(s.rev) \subseteq Rng(s.schema)
               /\ \A q \in Rng(s.preds) : Known(q) /\ q.a \in Rng(s.schema) /\ q.a \notin Rng(s.rev)
SubOk(s, w) ==
  /\ Sensible(s) /\ Sensible(w)
  /\ Genuine(s)
  \* the key of the presentation is the one the credential was issued under and the verifier has
  /\ s.cred.k = s.key /\ w.key = s.key
  /\ Rng(s.schema) = DOMAIN Shown(s).at /\ Rng(w.schema) = Rng(s.schema)
  /\ Rng(w.rev) = Rng(s.rev)
  /\ Rng(w.preds) = Rng(s.preds)
  /\ \A q \in Rng(s.preds) : Holds(q, Shown(s).at[q.a])
CommonOk(p, v) ==
  /\ \A i \in DOMAIN p.subs, a \in Rng(v.common) :
        /\ a = "master_secret" \/ a \in Rng(p.subs[i].schema)
        /\ a \notin Rng(p.subs[i].rev)
  \* the holder tied them together, and they are equal
  /\ Len(p.subs) > 1 => \A a \in Rng(v.common) :
        /\ a \in Rng(p.common)
        /\ \A i, j \in DOMAIN p.subs : Val(p.subs[i], a) = Val(p.subs[j], a)
Trivial(m, p) ==
  CASE m.m = "swap" -> m.i = m.j
    [] m.m = "dup" -> m.i = m.j
    [] m.m = "reveal" -> m.a \in Rng(p.subs[m.s].rev) /\ Val(p.subs[m.s], m.a) = m.v
    [] m.m = "relabel" -> m.a = p.subs[m.s].preds[m.i].a
    [] m.m = "revalue" -> m.v = p.subs[m.s].preds[m.i].v
    [] OTHER -> FALSE
Accept(c) ==
  /\ c.p.nonce = c.v.nonce
  /\ Len(c.p.subs) = Len(c.v.subs)
  /\ \A i \in DOMAIN c.p.subs : SubOk(c.p.subs[i], c.v.subs[i])
  /\ CommonOk(c.p, c.v)
  /\ "moves" \in DOMAIN c => \A i \in DOMAIN c.moves : Trivial(c.moves[i], c.p)
\* not accepted: the holder cannot even build it, or the verifier says no
Want(c) == IF Accept(c) THEN "yes" ELSE "no"
Allowed(c, r) == r = Want(c)
Step(c, r) == Allowed(c, r) /\ ev' = Ev(c, r)
Init == ev = Ev([op |-> "init"], "")
=============================================================================
