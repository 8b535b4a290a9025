------------------------------- MODULE Shamir -------------------------------
(* ursa_sharing::shamir, generic over the prime field Z_P (property C15).
   A call record c has field op; a share is a pair <<identifier, value>>. Results are strings
   (numbers in decimal, "err" for a refusal, "?" where nothing but absence of a crash is promised),
   except that split gives the sequence of shares, empty for a refusal. *)
EXTENDS Kit, Modp
VARIABLES scheme,  \* <<>> or <<threshold, limit>>
          dealt,   \* shares of the last successful split
          secret,  \* its secret
          ev       \* last call and its result (not part of the state proper)
vars == <<scheme, dealt, secret>>

SchemeOk(t, n) == n >= t /\ t >= 2

\* the points through which all shares of a correct dealing must pass: the secret at 0 and t-1 shares
OnOnePoly(t, sec, sh) ==
  LET k == IF Len(sh) < t - 1 THEN Len(sh) ELSE t - 1
      xs == <<0>> \o [i \in 1..k |-> sh[i][1]]
      ys == <<sec>> \o [i \in 1..k |-> sh[i][2]]
  IN \A i \in 1..Len(sh) : sh[i][2] = Interp(xs, ys, sh[i][1])

SplitOk(t, n, sec, r) ==
  /\ Len(r) = n
  /\ \A i \in 1..n : r[i][1] = i          \* identifiers 1..n, 0 is reserved
  /\ OnOnePoly(t, sec, r)

\* all share lists on which combine must fail
BadShares(t, sh) ==
  \/ Len(sh) < t
  \/ \E i \in DOMAIN sh : sh[i][1] = 0
  \/ \E i, j \in DOMAIN sh : i # j /\ sh[i][1] = sh[j][1]
  \/ \E i \in DOMAIN sh : sh[i][2] \notin 1..(P - 1)   \* zero and undecodable values are invalid
Consistent(t, sh) ==
  \/ Len(sh) = t
  \/ LET xs == [i \in 1..t |-> sh[i][1]]
         ys == [i \in 1..t |-> sh[i][2]]
     IN \A i \in (t + 1)..Len(sh) : sh[i][2] = Interp(xs, ys, sh[i][1])
CombineRes(t, sh) ==
  IF BadShares(t, sh) THEN "err"
  ELSE IF ~Consistent(t, sh) THEN "?"      \* not shares of one secret: no promise, but no crash
  ELSE LET s == Interp([i \in DOMAIN sh |-> sh[i][1]], [i \in DOMAIN sh |-> sh[i][2]], 0)
       IN IF s = 0 THEN "?" ELSE ToString(s)       \* a zero secret is never dealt

RECURSIVE Power(_, _)
Power(a, n) == IF n = 0 THEN 1 ELSE a * Power(a, n - 1)

\* what the property lets a call return in the current state
Allowed(c, r) ==
  CASE c.op = "new" -> r = (IF SchemeOk(c.t, c.n) THEN "ok" ELSE "err")
    [] c.op = "split" -> IF c.secret = 0 THEN r = <<>> ELSE SplitOk(scheme[1], scheme[2], c.secret, r)
    [] c.op \in {"combine", "gcombine"} ->
         LET w == CombineRes(c.t, c.sh) IN IF w = "?" THEN TRUE ELSE r = w
    \* combine some of the last dealt shares, chosen by position
    [] c.op = "recover" ->
         LET w == CombineRes(scheme[1], [i \in DOMAIN c.pick |-> dealt[c.pick[i]]])
         IN r = (IF w = "err" THEN w ELSE ToString(secret))
    \* number of different share vectors in many splits of one secret: sharing hides the secret
    [] c.op = "spread" -> r = ToString(Power(P, c.t - 1))
    [] c.op = "share_bytes" -> r = c.sh
    [] c.op = "share_from" -> r = (IF c.len < 4 THEN "err" ELSE "ok")
    [] OTHER -> FALSE
Step(c, r) ==
  /\ Allowed(c, r)
  /\ ev' = Ev(c, r)
  /\ scheme' = IF c.op = "new" /\ r = "ok" THEN <<c.t, c.n>> ELSE scheme
  /\ dealt' = IF c.op = "split" /\ r # <<>> THEN r ELSE IF c.op = "new" THEN <<>> ELSE dealt
  /\ secret' = IF c.op = "split" /\ r # <<>> THEN c.secret ELSE IF c.op = "new" THEN 0 ELSE secret

Init == scheme = <<>> /\ dealt = <<>> /\ secret = 0 /\ ev = Ev([op |-> "init"], "")
=============================================================================
