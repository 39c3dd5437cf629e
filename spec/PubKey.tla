------------------------------- MODULE PubKey -------------------------------
(* RSA, Paillier, Diffie-Hellman and modular arithmetic on BigNat.          *)
EXTENDS BigNat

\* ---- RSA.  A public key is [size, n, e]; a private key [size, n, d, p, q, dp, dq, qinv].
Bytes8(bits) == (bits + 7) \div 8
RSAValidPair(size, n, e, d, p, q, dp, dq, qinv) ==
  /\ ~BEq(p, q)
  /\ BIsPrime(p) /\ BIsPrime(q)
  /\ BBitLen(p) = size \div 2 /\ BBitLen(q) = size \div 2
  /\ BEq(BMul(p, q), n)
  /\ LET p1 == BSub(p, BOne)  q1 == BSub(q, BOne)
     IN  /\ BEq(BMod(BMul(e, d), BLcm(p1, q1)), BOne)
         /\ BEq(BMod(d, p1), dp) /\ BEq(BMod(d, q1), dq)
         /\ BEq(BMod(BMul(q, qinv), p), BOne) /\ BLess(qinv, p)
\* raw RSA operation: [s, b]
RSAOp(size, n, x, m) ==
  IF ~BLess(m, n) THEN [s |-> "E:Message_too_long", b |-> <<>>]
  ELSE [s |-> "ok", b |-> BFix(BPowMod(m, x, n), Bytes8(size))]

\* ---- Paillier
PaiValid(size, n, n2, p, q, lambda, mu, g) ==
  LET p1 == BSub(p, BOne)  q1 == BSub(q, BOne)
  IN  /\ ~BEq(p, q) /\ BIsPrime(p) /\ BIsPrime(q)
      /\ BBitLen(p) = size \div 2 /\ BBitLen(q) = size \div 2
      /\ BEq(BMul(p, q), n) /\ BEq(BMul(n, n), n2)
      /\ BGcd(n, BMul(p1, q1)) = BOne
      /\ BEq(g, BAdd(n, BOne))
      /\ BEq(lambda, BLcm(p1, q1))
      /\ BEq(BMod(BMul(lambda, mu), n), BOne)
\* decryption: L(c^lambda mod n^2) * mu mod n
PaiDec(n, n2, lambda, mu, c) ==
  BMod(BMul(BDiv(BSub(BPowMod(c, lambda, n2), BOne), n), mu), n)

\* ---- length-prefixed packing used by the driver to return several numbers
RECURSIVE Unpack(_)
Unpack(b) == IF Len(b) < 2 \/ Len(b) < 2 + 256 * b[1] + b[2] THEN <<>>
             ELSE LET n == 256 * b[1] + b[2]
                  IN  <<SubSeq(b, 3, n + 2)>> \o Unpack(SubSeq(b, n + 3, Len(b)))
=============================================================================
