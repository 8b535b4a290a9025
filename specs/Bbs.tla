--------------------------------- MODULE Bbs ---------------------------------
(* BBS+ signatures, libzmix/bbs (property C17).
   Keys are [k |-> family, n |-> count]: "a" and "b" are made with random generators, "s" derives the generators of
   every count from one secret. Messages are numbers, 0 the zero message. A vector shorter than the key is signed as
   if completed with zero messages; verification wants it in full.
   Maps from positions 1..n to messages are sequences of length n+1, -1 for absent; the last is a position out of range. *)
EXTENDS Kit
VARIABLES ctx, bs, sig, ev
vars == <<ctx, bs, sig>>
None == [k |-> "", n |-> 0]
Pad(m, n) == [i \in 1..n |-> IF i <= Len(m) THEN m[i] ELSE 0]
Key(c) == [k |-> c.k, n |-> c.n]
Yes(b) == IF b THEN {"yes"} ELSE {"no", "err"}
Ok(b) == IF b THEN {"ok"} ELSE {"err"}
Merge(b, w) == [i \in 1..(Len(b) - 1) |-> IF b[i] # -1 THEN b[i] ELSE w[i]]

\* the holder's proof fits the signer's key, nonce and known positions
Fits(c) == /\ ctx.key = Key(c) /\ ctx.nonce = c.nonce /\ c.e = "none"
           /\ c.w[c.n + 1] = -1
           /\ \A i \in 1..c.n : (ctx.b[i] = -1) # (c.w[i] = -1)
Outs(c) ==
  CASE c.op = "key" -> Ok(c.n > 0)
    [] c.op = "sign" -> Ok(c.n > 0 /\ Len(c.m) <= c.n)
    [] c.op = "verify" -> Yes(sig.key = Key(c) /\ sig.m = c.m /\ c.e = "none")
    [] c.op = "ctx" -> Ok(c.b[c.n + 1] = -1)
    [] c.op = "bsign" -> Ok(Fits(c))
    \* the low-level signature on a commitment, whose proof is not looked at
    [] c.op = "raw" -> Ok(c.w[c.n + 1] = -1)
    [] c.op = "complete" -> Ok(bs.key = Key(c) /\ bs.m = c.m /\ c.bl = "own" /\ c.e = "none")
    \* bytes: read again; cut at i of 16ths; with bytes after the end; with one bit turned
    [] c.op = "bytes" -> CASE c.e = "none" -> {"same"} [] c.e \in {"cut", "ext", "empty"} -> {"err"}
                           [] c.e = "flip" -> {"diff", "err"} [] OTHER -> {"?"}
    [] OTHER -> {"?"}
Want(c) == LET o == Outs(c) IN IF Cardinality(o) = 1 THEN (CHOOSE x \in o : TRUE) ELSE [any |-> Tup(o)]
Allowed(c, r) == "?" \in Outs(c) \/ r \in Outs(c)
Step(c, r) ==
  /\ ev' = Ev(c, r)
  /\ ctx' = IF c.op = "ctx" /\ r = "ok" THEN [key |-> Key(c), b |-> c.b, nonce |-> c.nonce] ELSE ctx
  /\ bs' = IF c.op = "bsign" /\ r = "ok" THEN [key |-> Key(c), m |-> Merge(ctx.b, c.w)] ELSE bs
  /\ sig' = IF c.op = "sign" /\ r = "ok" THEN [key |-> Key(c), m |-> Pad(c.m, c.n)]
            ELSE IF c.op = "complete" /\ r = "ok" THEN bs ELSE sig
Init == /\ ctx = [key |-> None, b |-> <<-1>>, nonce |-> 0] /\ bs = [key |-> None, m |-> <<>>] /\ sig = [key |-> None, m |-> <<>>]
        /\ ev = Ev([op |-> "init"], "")
=============================================================================
