-------------------------------- MODULE Aead --------------------------------
(* The authenticated ciphers and their common wrapper (property C13).
   ci: the cipher. boxes: what was encrypted so far, [k, n, a, m, easy]: key, nonce, associated data, message
   [len, x], and whether the nonce is inside. Keys, nonces and associated data are names; equal names, equal bytes.
     enc: via raw | dyn (nonce n given), easy | buffer | dyneasy (random nonce inside); result "=j:length",
          equal to box j, the first such
     dec: box i altered by e (at pos) with key k, nonce n ("own": the one it was made with), associated data a.
          raw decryption of a box with its nonce inside takes the nonce out; the others put it in
     key/nonce: a key / a nonce of some length;  ser: the key written and read;  type: the name of the cipher *)
EXTENDS Kit
VARIABLES ev, ci, boxes
Ciphers == {"aes-128-cbc-hmac-256", "aes-256-cbc-hmac-512", "aes-128-gcm", "aes-256-gcm", "chacha20poly1305", "xchacha20poly1305"}
Cbc(c) == c \in {"aes-128-cbc-hmac-256", "aes-256-cbc-hmac-512"}
KeyLen(c) == CASE c = "aes-128-gcm" -> 16 [] c = "aes-256-cbc-hmac-512" -> 64 [] OTHER -> 32
NonceLen(c) == IF Cbc(c) THEN 16 ELSE IF c = "xchacha20poly1305" THEN 24 ELSE 12
TagLen(c) == CASE c = "aes-128-cbc-hmac-256" -> 32 [] c = "aes-256-cbc-hmac-512" -> 64 [] OTHER -> 16
BoxLen(m) == (IF Cbc(ci) THEN 16 * (m.len \div 16 + 1) ELSE m.len) + TagLen(ci)
Easy(via) == via \in {"easy", "buffer", "dyneasy"}
Box(c) == [k |-> c.k, n |-> IF Easy(c.via) THEN 0 - Len(boxes) - 1 ELSE c.n, a |-> c.a, m |-> c.m, easy |-> Easy(c.via)]
First(q, x) == CHOOSE j \in 1..(Len(q) + 1) : (j = Len(q) + 1 \/ q[j] = x) /\ \A i \in 1..(j - 1) : q[i] # x
Len2(c) == BoxLen(c.m) + (IF Easy(c.via) THEN NonceLen(ci) ELSE 0)
DecOk(c) == LET b == boxes[c.i] IN c.e = "none" /\ c.k = b.k /\ c.a = b.a /\ (c.own \/ c.n = b.n)
Named == Ciphers \ {"chacha20poly1305"}
Want(c) == CASE c.op = "new" -> "ok"
             [] c.op = "enc" -> "=" \o ToString(First(boxes, Box(c))) \o ":" \o ToString(Len2(c))
             [] c.op = "dec" -> IF DecOk(c) THEN "same" ELSE "err"
             [] c.op = "key" -> IF c.len = KeyLen(ci) THEN "ok" ELSE "err"
             [] c.op = "nonce" -> IF c.len = NonceLen(ci) THEN "ok" ELSE "err"
             [] c.op = "ser" -> IF c.e = "none" THEN "same" ELSE "err"
             [] c.op = "type" -> IF c.s = ci /\ ci \in Named THEN "same" ELSE IF c.s \in Named THEN "other" ELSE "err"
             \* reading the plaintext or writing the ciphertext fails
             [] c.op = "io" -> "err"
Allowed(c, r) == r = Want(c)
Step(c, r) == /\ Allowed(c, r) /\ ev' = Ev(c, r)
              /\ ci' = IF c.op = "new" THEN c.ci ELSE ci
              /\ boxes' = IF c.op = "new" THEN <<>> ELSE IF c.op = "enc" THEN Append(boxes, Box(c)) ELSE boxes
Init == ev = Ev([op |-> "init"], "") /\ ci \in Ciphers /\ boxes = <<>>
=============================================================================
