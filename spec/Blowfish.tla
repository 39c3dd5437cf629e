------------------------------ MODULE Blowfish ------------------------------
(* Schneier's Blowfish; words are big-endian. *)
EXTENDS Words, SequencesExt, Tables

BFF(S, x) == LET b == UnBE(x)
             IN  Add(Xor(Add(S[1][1 + b[1]], S[2][1 + b[2]]), S[3][1 + b[3]]), S[4][1 + b[4]])
BFRun(P, S, order, l, r) ==
  LET s == FoldLeft(LAMBDA a, i : LET x == Xor(a[1], P[i])
                                  IN  <<Xor(a[2], BFF(S, x)), x>>,
                    <<l, r>>, SubSeq(order, 1, 16))
  IN  <<Xor(s[2], P[order[18]]), Xor(s[1], P[order[17]])>>
BFUp == Eager(Upto(18))
BFDown == Eager([i \in 1..18 |-> 19 - i])
BFS0 == Eager([k \in 1..4 |-> Eager(Slice(BFS, 256 * k - 255, 256))])

BFKey(key) ==
  LET kb(i) == key[1 + (i % Len(key))]
      P0 == Eager([i \in 1..18 |-> LET j == 4 * (i - 1)
                                   IN  Xor(BFP[i], BE(<<kb(j), kb(j+1), kb(j+2), kb(j+3)>>, 1))])
      a1 == FoldLeft(LAMBDA a, i :
              LET e == BFRun(a.P, BFS0, BFUp, a.x[1], a.x[2])
              IN  [P |-> [a.P EXCEPT ![2*i-1] = e[1], ![2*i] = e[2]], x |-> e],
              [P |-> P0, x |-> <<0, 0>>], Upto(9))
      a2 == FoldLeft(LAMBDA a, i :
              LET e == BFRun(a1.P, a.S, BFUp, a.x[1], a.x[2])
                  k == 1 + (i - 1) \div 128
                  j == 2 * ((i - 1) % 128)
              IN  [S |-> [a.S EXCEPT ![k] = [a.S[k] EXCEPT ![j+1] = e[1], ![j+2] = e[2]]], x |-> e],
              [S |-> BFS0, x |-> a1.x], Upto(512))
  IN  [P |-> a1.P, S |-> a2.S]
BFBlk(ck, order, b) == LET r == BFRun(ck.P, ck.S, order, BE(b, 1), BE(b, 5))
                       IN  UnBE(r[1]) \o UnBE(r[2])
BFEnc(ck, b) == BFBlk(ck, BFUp, b)
BFDec(ck, b) == BFBlk(ck, BFDown, b)
=============================================================================
