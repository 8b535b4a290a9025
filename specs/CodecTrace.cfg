CONSTANTS
  Jsons = {"blinded, with commitment", "blinded, with revocation", "blinding factors", "blinding factors, with revocation", "blinding proof", "blinding proof, with commitment", "credential", "credential, with revocation", "delta", "delta, both", "delta, first", "g1", "g2", "key", "key proof", "master secret", "nonce", "number", "other schema", "private key", "private key, with revocation", "proof", "proof, with revocation", "public key", "public key, with revocation", "registry", "registry key", "registry private key", "scalar", "schema", "secret", "session key", "signature proof", "tail", "tails generator", "witness"}
  Bytes = {"b12n possession", "b12n signature", "b12n signatures", "b12n verkey", "b12n verkeys", "b12s possession", "b12s signature", "b12s signatures", "b12s verkey", "b12s verkeys", "bn generator", "bn multi signature", "bn possession", "bn sign key", "bn signature", "bn verkey", "g1", "g2", "number", "scalar", "share", "number in hex", "number in digits"}
  Fixed = {"b12n possession", "b12n signature", "b12n signatures", "b12n verkey", "b12n verkeys", "b12s possession", "b12s signature", "b12s signatures", "b12s verkey", "b12s verkeys"}
INIT TInit
NEXT TNext
POSTCONDITION TAccepted
CHECK_DEADLOCK FALSE
