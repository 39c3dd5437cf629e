--------------------------- MODULE StreamCiphers ---------------------------
(* ChaCha20 (Bernstein / RFC 8439) and ARCfour key streams. *)
EXTENDS Words, SequencesExt

\* ---------------- ChaCha20 ----------------
QR(s, a, b, c, d) ==
  LET a1 == Add(s[a], s[b])   d1 == RotL(Xor(s[d], a1), 16)
      c1 == Add(s[c], d1)     b1 == RotL(Xor(s[b], c1), 12)
      a2 == Add(a1, b1)       d2 == RotL(Xor(d1, a2), 8)
      c2 == Add(c1, d2)       b2 == RotL(Xor(b1, c2), 7)
  IN  [s EXCEPT ![a] = a2, ![b] = b2, ![c] = c2, ![d] = d2]
DoubleRound(s) ==
  QR(QR(QR(QR(QR(QR(QR(QR(s, 1, 5, 9, 13), 2, 6, 10, 14), 3, 7, 11, 15), 4, 8, 12, 16),
     1, 6, 11, 16), 2, 7, 12, 13), 3, 8, 9, 14), 4, 5, 10, 15)
\* "expand 32-byte k" / "expand 16-byte k"
SigmaC == <<1634760805, 857760878, 2036477234, 1797285236>>
TauC   == <<1634760805, 824206446, 2036477238, 1797285236>>

\* The 16 input words.  ctr8: 8 bytes, big-endian initial block counter.
\* 8-byte nonce: words 13,14 are the 64-bit counter; 12-byte nonce: word 13 only.
ChaInit(key, iv, ctr8) ==
  LET k == IF Len(key) = 32 THEN key ELSE key \o key
  IN  (IF Len(key) = 32 THEN SigmaC ELSE TauC)
      \o Eager([i \in 1..8 |-> LE(k, 4 * i - 3)])
      \o <<BE(ctr8, 5)>>
      \o (IF Len(iv) = 12 THEN <<LE(iv, 1), LE(iv, 5), LE(iv, 9)>>
          ELSE <<BE(ctr8, 1), LE(iv, 1), LE(iv, 5)>>)
ChaBlock(s) ==
  LET r == FoldLeft(LAMBDA x, i : DoubleRound(x), s, Upto(10))
  IN  FoldLeft(LAMBDA acc, i : acc \o UnLE(Add(r[i], s[i])), <<>>, Upto(16))
\* next block: 64-bit or 32-bit counter increment
ChaNext(s, iv12) ==
  LET lo == Add(s[13], 1)
  IN  IF lo = 0 /\ ~iv12 THEN [s EXCEPT ![13] = lo, ![14] = Add(s[14], 1)]
      ELSE [s EXCEPT ![13] = lo]

\* stream object: [w: words, iv12, ks: unused key stream bytes]
\* Take n key stream bytes: <<bytes, new state>>
ChaTake(o, n) ==
  LET need == IF n > Len(o.ks) THEN (n - Len(o.ks) + 63) \div 64 ELSE 0
      r == FoldLeft(LAMBDA a, i : [w |-> ChaNext(a.w, o.iv12), ks |-> a.ks \o ChaBlock(a.w)],
                    [w |-> o.w, ks |-> o.ks], Upto(need))
  IN  <<Take(r.ks, n), [o EXCEPT !.w = r.w, !.ks = Drop(r.ks, n)]>>

\* ---------------- ARCfour ----------------
RC4Init(key) ==
  LET r == FoldLeft(LAMBDA a, i :
             LET j == (a.j + a.S[i] + key[1 + ((i - 1) % Len(key))]) % 256
             IN  [S |-> [a.S EXCEPT ![i] = a.S[j + 1], ![j + 1] = a.S[i]], j |-> j],
             [S |-> Eager([i \in 1..256 |-> i - 1]), j |-> 0], Upto(256))
  IN  [S |-> r.S, i |-> 0, j |-> 0]
RC4Take(o, n) ==
  LET r == FoldLeft(LAMBDA a, t :
             LET i == (a.i + 1) % 256
                 j == (a.j + a.S[i + 1]) % 256
                 S == [a.S EXCEPT ![i + 1] = a.S[j + 1], ![j + 1] = a.S[i + 1]]
             IN  [S |-> S, i |-> i, j |-> j, ks |-> Append(a.ks, S[1 + ((S[i+1] + S[j+1]) % 256)])],
             [S |-> o.S, i |-> o.i, j |-> o.j, ks |-> <<>>], Upto(n))
  IN  <<r.ks, [o EXCEPT !.S = r.S, !.i = r.i, !.j = r.j]>>
=============================================================================
