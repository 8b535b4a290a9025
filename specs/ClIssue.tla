------------------------------ MODULE ClIssue ------------------------------
(* Issuance of an anonymous credential (property C01). A run is one holder's attempt: the key it is
   made for, the values the holder hides, those the issuer knows and those it commits to. Each run has
   its own blinding factors, correctness proof and two nonces. Objects of several runs get mixed up.
     blind:   the holder prepares its secrets for key k, given a correctness proof of key kcp
     sign:    blinded secrets of run b, proof of run p, nonce of run n, known values of run v, key k,
              revocation part of the blinded secrets of run ur, issuance nonce of run n2, index idx (0: none)
     process: the holder's values of run v, factors of run f, key k, issuance nonce of run n, proof of the
              signature (own or of another), revocation data (rev), revocation part of another signature (mix)
   edit names a number that was changed on the way. *)
EXTENDS Kit
VARIABLES ev, sig

Keys == 1..3
Attrs(k) == IF k = 3 THEN {"age", "status", "master_secret"} ELSE {"age", "height", "name", "master_secret"}
HasRev(k) == k # 3
R(id, k, hid, known, com) == [id |-> id, k |-> k, hid |-> hid, known |-> known, com |-> com]
A28 == [age |-> 28, height |-> 175, name |-> 5]
MsOf(m) == [master_secret |-> m]
Run == << R(1, 1, MsOf(1), A28, <<>>),
          R(2, 1, MsOf(1), A28, <<>>),                                            \* the same once more
          R(3, 1, MsOf(2), A28, <<>>),                                            \* another holder
          R(4, 2, MsOf(1), A28, <<>>),                                            \* another key
          R(5, 1, MsOf(1), [age |-> 38, height |-> 175, name |-> 5], <<>>),       \* another age
          R(6, 3, MsOf(1), [age |-> 28, status |-> 7], <<>>),                     \* another schema
          R(7, 1, [master_secret |-> 1, age |-> 10], [height |-> 175, name |-> 5], <<>>),   \* the age hidden, too
          R(8, 1, MsOf(1), [height |-> 175, name |-> 5], [age |-> 28]) >>         \* the age committed to
Runs == DOMAIN Run
Merge(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN f THEN f[x] ELSE g[x]]
Own(i) == Merge(Run[i].hid, Run[i].known)
Fits(i, k) == DOMAIN Run[i].hid \subseteq Attrs(k)
None == [b |-> 0]

SignOk(c) ==
  /\ c.p = c.b /\ c.n = c.b                      \* one run's proof for the nonce handed out for it
  /\ Run[c.b].k = c.k                            \* blinded for this key
  /\ c.edit \in {"none", "ur"}
  /\ DOMAIN Run[c.v].known \subseteq Attrs(c.k)
  /\ DOMAIN Run[c.v].known \cap DOMAIN Run[c.b].hid = {}   \* what the holder hides is not the issuer's to set as well
  /\ c.idx # 0 => HasRev(c.k) /\ HasRev(Run[c.ur].k)
RevPart == {"r/sigma", "r/c", "r/vr_prime_prime", "r/g_i", "r/m2", "r/w/sigma_i", "r/w/u_i", "r/w/g_i", "f/vr_prime"}
\* the holder checks the revocation part if it has all it takes
Checks(c) == sig.idx # 0 /\ HasRev(c.k) /\ HasRev(Run[c.f].k) /\ c.rev \notin {"none", "partial"}
ProcessOk(c) ==
  /\ ~sig.done
  /\ c.k = sig.k /\ c.f = sig.b /\ c.n = sig.n2 /\ c.scp = "own"
  /\ Own(c.v) = Merge(Run[sig.b].hid, sig.known)
  /\ c.edit \in RevPart \cup {"none"}
  /\ sig.idx # 0 => c.mix = "no" /\ c.edit # "r/m2"       \* both parts are for one credential context
  /\ Checks(c) => /\ c.rev = "own"
                  \* what was blinded is what the factors open; the edits of both double the value
                  /\ \/ sig.ur = c.f /\ c.edit = "none"
                     \/ sig.ur = 0 /\ c.edit = "f/vr_prime"
Blind(c) == IF c.k = c.kcp /\ Fits(c.run, c.k) /\ c.edit = "none" THEN "ok" ELSE "err"
Want(c) == CASE c.op = "blind" -> Blind(c)
             [] c.op = "sign" -> IF SignOk(c) THEN "ok" ELSE "err"
             [] c.op = "process" -> IF ProcessOk(c) THEN "ok" ELSE "err"
             \* the completed credential can be presented
             [] c.op = "use" -> "yes"
             [] OTHER -> "ok"
Allowed(c, r) == r = Want(c)
After(c, r) == CASE c.op = "sign" -> IF r = "ok" THEN [b |-> c.b, known |-> Run[c.v].known, v |-> c.v, k |-> c.k, ur |-> IF c.edit = "ur" THEN 0 ELSE c.ur, n2 |-> c.n2, idx |-> c.idx, done |-> FALSE] ELSE sig
                 [] c.op = "process" -> IF r = "ok" THEN [sig EXCEPT !.done = TRUE] ELSE sig
                 [] c.op = "start" -> None
                 [] OTHER -> sig
Step(c, r) == Allowed(c, r) /\ ev' = Ev(c, r) /\ sig' = After(c, r)
Init == ev = Ev([op |-> "init"], "") /\ sig = None
=============================================================================
