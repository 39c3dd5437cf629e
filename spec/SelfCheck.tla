----------------------------- MODULE SelfCheck -----------------------------
(***************************************************************************)
(* The operators that TLC evaluates by Java (WordsOv, BulkOv) agree with   *)
(* their TLA+ definitions (the operators ending in P).  Each state is one  *)
(* choice of operands.  Part selects the module.                           *)
(***************************************************************************)
EXTENDS Bulk, TLC
CONSTANT Part
VARIABLE cs   \* (a name no module binds: TLC would not precompute constants that bind it)

\* ---- operands ----
Edge == {0, 1, 2, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 16777216, 2147483647,
         -2147483647 - 1, -2147483647, -1, -2, -256, -65536, -65537, 305419896, -19088744, 1431655765, -1431655766, 252645135}
EdgeB == {0, 1, 2, 15, 16, 85, 127, 128, 170, 240, 254, 255}
Pairs64 == {<<a, b>> : a \in {0, 1, -1, -2147483647 - 1, 2147483647, 305419896}, b \in {0, 1, -1, -2147483647 - 1, 2147483647, -19088744}}
\* naturals of up to 9 bytes
Bigs == {<<>>, <<1>>, <<2>>, <<255>>, <<1, 0>>, <<1, 1>>, <<255, 255>>, <<0, 0, 7>>, <<128, 0, 0, 0>>, <<255, 255, 255, 255, 255>>,
         <<18, 52, 86, 120, 154, 188, 222, 240>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0>>, <<200, 3, 99, 0, 255, 1, 77>>}
Msgs == {0, 1, 15, 16, 17, 55, 56, 63, 64, 65, 111, 112, 127, 128, 129, 135, 136, 137, 200, 256, 300}
Key(n) == Eager([i \in 1..n |-> (37 * i + 11) % 256])
Algs == { <<"md5", 0, 0>>, <<"sha1", 0, 0>>, <<"sha224", 0, 0>>, <<"sha256", 0, 0>>, <<"sha384", 0, 0>>, <<"sha512", 0, 0>>,
          <<"ripemd160", 0, 0>>, <<"sha3", 224, 0>>, <<"sha3", 256, 0>>, <<"sha3", 384, 0>>, <<"keccak", 256, 0>>, <<"keccak", 512, 0>>,
          <<"blake2b", 512, 0>>, <<"blake2b", 160, 0>>, <<"blake2s", 256, 0>>, <<"blake2s", 128, 0>>, <<"blake3", 256, 0>>, <<"blake3", 1000, 0>>,
          <<"mac_blake2b", 256, 64>>, <<"mac_blake2s", 128, 32>>, <<"mac_blake3", 256, 32>>, <<"siphash", 0, 16>>, <<"siphash128", 0, 16>>,
          <<"aes_cmac", 0, 16>>, <<"hmac_md5", 0, 100>>, <<"hmac_sha1", 0, 5>>, <<"hmac_sha256", 0, 64>>, <<"hmac_sha384", 0, 129>>,
          <<"hmac_sha512", 0, 9>>, <<"hmac_ripemd160", 0, 65>> }

Cases == CASE Part = "words" -> {<<"w", a, b>> : a \in Edge, b \in Edge} \cup {<<"b", a>> : a \in 0..255}
                                \cup {<<"q", a, b>> : a \in Pairs64, b \in Pairs64}
           [] Part = "bignat" -> {<<"n", a, b>> : a \in Bigs, b \in Bigs}
           [] Part = "bulk" -> {<<"h", a, n>> : a \in Algs, n \in Msgs}
                               \cup {<<"h", a, n>> : a \in {z \in Algs : z[1] \in {"blake3", "mac_blake3"}}, n \in {1023, 1024, 1025, 2048, 3073, 5121}}
                               \cup {<<"a", c, d, h, n, l>> : c \in {"gcm", "chapoly"}, d \in {"enc", "dec"}, h \in {0, 1, 16, 33}, n \in {0, 1, 15, 16, 63, 64, 65, 130}, l \in {8, 12}}
                               \cup {<<"r", n>> : n \in {0, 1, 255, 256, 1000}} \cup {<<"z", n>> : n \in {0, 1, 1000, 65535, 65536, 65537, 200000}}
                               \cup {<<"s", n, k>> : n \in {0, 1, 63, 64, 65, 1000}, k \in {0, 1, 63, 64, 100}}
S20 == 0..33
Agree(c) ==
  CASE c[1] = "w" -> LET a == c[2]  b == c[3] IN
         /\ Add(a, b) = AddP(a, b) /\ Xor(a, b) = XorP(a, b) /\ And(a, b) = AndP(a, b) /\ Or(a, b) = OrP(a, b)
         /\ Not(a) = NotP(a) /\ UnBE(a) = UnBEP(a) /\ UnLE(a) = UnLEP(a)
         /\ \A k \in 0..31 : RotR(a, k) = RotRP(a, k) /\ RotL(a, k) = RotLP(a, k)
         /\ \A k \in S20 : ShR(a, k) = ShRP(a, k) /\ ShL(a, k) = ShLP(a, k)
         /\ LET s == <<9>> \o UnBEP(a) \o UnLEP(b) IN
            /\ BE(s, 2) = BEP(s, 2) /\ LE(s, 2) = LEP(s, 2) /\ BE(s, 4) = BEP(s, 4) /\ LE(s, 5) = LEP(s, 5)
            /\ BE64(s, 2) = BE64P(s, 2) /\ LE64(s, 1) = LE64P(s, 1)
            /\ XorSeq(s, UnBEP(b)) = XorSeqP(s, UnBEP(b)) /\ XorSeq(<<>>, s) = <<>>
    [] c[1] = "b" -> \A b \in EdgeB : XorB(c[2], b) = XorBP(c[2], b) /\ AndB(c[2], b) = AndBP(c[2], b)
    [] c[1] = "q" -> LET a == c[2]  b == c[3] IN
         /\ Xor64(a, b) = Xor64P(a, b) /\ And64(a, b) = And64P(a, b) /\ Add64(a, b) = Add64P(a, b) /\ Not64(a) = Not64P(a)
         /\ UnBE64(a) = UnBE64P(a) /\ UnLE64(b) = UnLE64P(b)
         /\ (b = <<0, 0>> => \A k \in 0..63 : RotR64(a, k) = RotR64P(a, k) /\ RotL64(a, k) = RotL64P(a, k)
                                               /\ ShR64(a, k) = ShR64P(a, k) /\ ShL64(a, k) = ShL64P(a, k))
    [] c[1] = "n" -> LET a == c[2]  b == c[3] IN
         /\ BNorm(a) = BNormP(a) /\ BAdd(a, b) = BAddP(a, b) /\ BMul(a, b) = BMulP(a, b) /\ (BLess(a, b) <=> BLessP(a, b))
         /\ (~BLessP(a, b) => BSub(a, b) = BSubP(a, b))
         /\ (BNormP(b) # <<>> => BDiv(a, b) = BDivP(a, b) /\ BMod(a, b) = BModP(a, b))
         /\ BGcd(a, b) = BGcdP(a, b)
         /\ \A m \in {<<7>>, <<1, 0>>, <<255, 255>>, <<1, 2, 3, 4>>} : Len(a) <= 5 /\ Len(b) <= 2 => BPowMod(a, b, m) = BPowModP(a, b, m)
    [] c[1] = "h" -> BulkDigest(c[2][1], c[2][2], Key(c[2][3]), c[3] % 256, <<0, c[3]>>) = BulkDigestP(c[2][1], c[2][2], Key(c[2][3]), c[3] % 256, <<0, c[3]>>)
    [] c[1] = "a" -> BulkSeal(c[2], c[3], Key(32), Key(c[6]), 5, <<0, c[4]>>, <<0, c[5]>>, 64) = BulkSealP(c[2], c[3], Key(32), Key(c[6]), 5, <<0, c[4]>>, <<0, c[5]>>, 64)
    [] c[1] = "r" -> LET o == RC4Init(Key(9)) IN BulkRC4(o.S, o.i, o.j, <<0, c[2]>>) = BulkRC4P(o.S, o.i, o.j, <<0, c[2]>>)
    [] c[1] = "z" -> LET e == AdlerRun(1, 0, Pat(3, 0, c[2])) IN
                     PatAdler(3, NNorm(0, c[2])) = <<e[2] \div 256, e[2] % 256, e[1] \div 256, e[1] % 256>>
    [] c[1] = "s" -> \* skipping key stream = taking and discarding it, also across a carry
                     \A iv \in {8, 12} : LET o == ChaTake([ChaObj(Key(32), Key(iv), <<0, 0, 0, 7, 255, 255, 255, 250>>) EXCEPT !.ks = <<>>], c[3])[2]
                                         IN  ChaSkip(o, <<0, c[2]>>) = ChaTake(o, c[2])[2]
\* the work is in the steps, not the initial states, so that TLC's workers share it
Init == cs \in {<<"todo", c>> : c \in Cases}
Next == cs[1] = "todo" /\ cs' = <<"done", cs[2]>>
Agrees == cs[1] = "done" => Agree(cs[2])
=============================================================================
