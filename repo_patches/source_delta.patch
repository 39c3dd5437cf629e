From da3634beabff77d18d2758741006c8226608a6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:21 +0000
Subject: [PATCH 01/20] fix: sha224 and ripemd160 announce their actual digest
 size

hash_size returned 24 and 32 instead of 28 and 20, so transform_then_hash,
transform_and_hash and auth_check_transform_string used a wrong tag size.
---
 src/cryptokit.ml | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index e061d9e..cde14df 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -1098,7 +1098,7 @@ let sha1 () = new sha1
 class sha224 =
   object(self)
     val context = sha224_init()
-    method hash_size = 24
+    method hash_size = 28
     method add_substring src ofs len =
       if ofs < 0 || len < 0 || ofs > Bytes.length src - len
       then invalid_arg "sha224#add_substring";
@@ -1220,7 +1220,7 @@ let keccak sz = new sha3 sz false
 class ripemd160 =
   object(self)
     val context = ripemd160_init()
-    method hash_size = 32
+    method hash_size = 20
     method add_substring src ofs len =
       if ofs < 0 || len < 0 || ofs > Bytes.length src - len
       then invalid_arg "ripemd160#add_substring";
-- 
2.43.0


From e1c86ea5e0f453ae96db291d431ca590c2e0498c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:21 +0000
Subject: [PATCH 02/20] fix: protect keys from the GC in the SipHash and GHASH
 initialisation stubs

The key was read after an allocation that can move it.
---
 src/stubs-ghash.c   | 5 +++--
 src/stubs-siphash.c | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/stubs-ghash.c b/src/stubs-ghash.c
index 479f0dd..08b7aaa 100644
--- a/src/stubs-ghash.c
+++ b/src/stubs-ghash.c
@@ -40,9 +40,10 @@ static struct custom_operations ghash_context_ops = {
 
 CAMLprim value caml_ghash_init(value key)
 {
+  CAMLparam1(key);
   if (pclmul_available == -1) pclmul_check_available();
   if (pclmul_available == 1) {
-    return key;
+    CAMLreturn(key);
   } else {
     struct ghash_context * ctx = caml_stat_alloc(sizeof(struct ghash_context));
     value res =
@@ -51,7 +52,7 @@ CAMLprim value caml_ghash_init(value key)
                         0, 1);
     ghash_init(ctx, &Byte_u(key, 0));
     Context_val(res) = ctx;
-    return res;
+    CAMLreturn(res);
   }
 }
 
diff --git a/src/stubs-siphash.c b/src/stubs-siphash.c
index 63278eb..d2c1cd4 100644
--- a/src/stubs-siphash.c
+++ b/src/stubs-siphash.c
@@ -23,9 +23,10 @@
 
 CAMLprim value caml_siphash_init(value key, value hashlen)
 {
+  CAMLparam1(key);
   value ctx = caml_alloc_string(sizeof(struct siphash));
   siphash_init(siphash_val(ctx), &Byte_u(key, 0), Int_val(hashlen));
-  return ctx;
+  CAMLreturn(ctx);
 }
 
 CAMLprim value caml_siphash_update(value ctx, value src, value ofs, value len)
-- 
2.43.0


From 3eb48292244531575be236aac3b1ceb50ed3e13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:21 +0000
Subject: [PATCH 03/20] fix: conversion of numbers to byte strings of arbitrary
 length

Z.to_bits returns a whole number of words, so to_bytes wrote outside the
result and raised Invalid_argument when the requested size was not a
multiple of the word size.
---
 src/cryptokitBignum.ml | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cryptokitBignum.ml b/src/cryptokitBignum.ml
index 7cb53a1..5f047b2 100644
--- a/src/cryptokitBignum.ml
+++ b/src/cryptokitBignum.ml
@@ -84,7 +84,8 @@ let to_bytes ?numbits n =
     | None -> String.length s
     | Some nb -> assert (Z.numbits n <= nb); (nb + 7) / 8 in
   let t = Bytes.make l '\000' in
-  for i = 0 to String.length s - 1 do
+  (* Z.to_bits pads with zeros to a whole number of machine words *)
+  for i = 0 to min l (String.length s) - 1 do
     Bytes.set t (l - 1 - i) s.[i]
   done;
   wipe_bytes (Bytes.unsafe_of_string s);
-- 
2.43.0


From b2840aace65598b1f10430c10625702846cce612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:21 +0000
Subject: [PATCH 04/20] fix: modular power with exponent zero or even modulus

Z.powm_sec raises Invalid_argument in these cases.  In particular the
Paillier encryption of zero failed.
---
 src/cryptokitBignum.ml | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cryptokitBignum.ml b/src/cryptokitBignum.ml
index 5f047b2..6cf6c44 100644
--- a/src/cryptokitBignum.ml
+++ b/src/cryptokitBignum.ml
@@ -36,7 +36,9 @@ let lcm = Z.lcm
 let relative_prime a b =
   Z.equal (Z.gcd a b) Z.one
 
-let mod_power = Z.powm_sec
+(* Z.powm_sec demands a positive exponent and an odd modulus *)
+let mod_power a b c =
+  if Z.sign b > 0 && Z.is_odd c then Z.powm_sec a b c else Z.powm a b c
 
 let sub_mod a b p =
   let d = Z.sub a b in
-- 
2.43.0


From dc8ac66990af6473517649a7e89733ab95d42944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:21 +0000
Subject: [PATCH 05/20] fix: CRT exponentiation for keys whose first factor is
 the smaller one

With p < q the second residue can exceed p, and adding p once was not enough
to reduce the difference, giving a wrong result.
---
 src/cryptokitBignum.ml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cryptokitBignum.ml b/src/cryptokitBignum.ml
index 6cf6c44..642aee0 100644
--- a/src/cryptokitBignum.ml
+++ b/src/cryptokitBignum.ml
@@ -41,7 +41,7 @@ let mod_power a b c =
   if Z.sign b > 0 && Z.is_odd c then Z.powm_sec a b c else Z.powm a b c
 
 let sub_mod a b p =
-  let d = Z.sub a b in
+  let d = Z.sub a (Z.rem b p) in
   if Z.sign d < 0 then Z.add d p else d
 
 (* Modular exponentiation via the Chinese Remainder Theorem.
-- 
2.43.0


From 6ffaac6b65afc655a42033343a4496ddeac05260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:12 +0000
Subject: [PATCH 06/20] fix: wipe the whole state of AES-GCM objects

Only the AES key schedule was erased: the hash key, the counter, the
encrypted initial counter, the running MAC and the last key stream block
stayed in memory.
---
 src/cryptokit.ml  | 17 +++++++++++++++--
 src/stubs-ghash.c | 10 ++++++++++
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index cde14df..64a69d3 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -124,6 +124,7 @@ external blake2s_final: bytes -> int -> string = "caml_blake2s_final"
 type ghash_context
 external ghash_init: bytes -> ghash_context = "caml_ghash_init"
 external ghash_mult: ghash_context -> bytes -> unit = "caml_ghash_mult"
+external ghash_wipe: ghash_context -> unit = "caml_ghash_wipe"
 external poly1305_init: bytes -> bytes = "caml_poly1305_init"
 external poly1305_update: bytes -> bytes -> int -> int -> unit = "caml_poly1305_update"
 external poly1305_final: bytes -> string = "caml_poly1305_final"
@@ -1636,7 +1637,13 @@ class aes_gcm_encrypt ?(header = "") ~iv key =
     let buf = Bytes.create 16 in
     object
       method blocksize = 16
-      method wipe = aes#wipe
+      method wipe =
+        aes#wipe;
+        ghash_wipe h;
+        wipe_bytes ctr;
+        wipe_bytes e0;
+        wipe_bytes mac;
+        wipe_bytes buf
       method transform src soff dst doff =
         ctr_enc_dec aes ctr buf src soff dst doff 16;
         ghash_block h mac dst doff 16;
@@ -1687,7 +1694,13 @@ class aes_gcm_decrypt ?(header = "") ~iv key =
     let buf = Bytes.create 16 in
     object
       method blocksize = 16
-      method wipe = aes#wipe
+      method wipe =
+        aes#wipe;
+        ghash_wipe h;
+        wipe_bytes ctr;
+        wipe_bytes e0;
+        wipe_bytes mac;
+        wipe_bytes buf
       method transform src soff dst doff =
         ghash_block h mac src soff 16;
         ctr_enc_dec aes ctr buf src soff dst doff 16;
diff --git a/src/stubs-ghash.c b/src/stubs-ghash.c
index 08b7aaa..2d75c82 100644
--- a/src/stubs-ghash.c
+++ b/src/stubs-ghash.c
@@ -65,3 +65,13 @@ CAMLprim value caml_ghash_mult(value ctx, value x)
   }
   return Val_unit;
 }
+
+CAMLprim value caml_ghash_wipe(value ctx)
+{
+  if (pclmul_available == 1) {
+    memset(&Byte_u(ctx, 0), 0, 16);
+  } else {
+    memset(Context_val(ctx), 0, sizeof(struct ghash_context));
+  }
+  return Val_unit;
+}
-- 
2.43.0


From b17d80326b016443a4cc56374cc1fa7e3735f35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:12 +0000
Subject: [PATCH 07/20] fix: wipe the key and counter of pseudo_rng_aes_ctr

---
 src/cryptokit.ml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index 64a69d3..4c6558b 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -1956,7 +1956,7 @@ class pseudo_rng_aes_ctr seed =
       end
 
     method wipe =
-      wipe_bytes obuf; wipe_string seed
+      cipher#wipe; wipe_bytes ctr; wipe_bytes obuf; wipe_string seed
   end
 
 let pseudo_rng_aes_ctr seed = new pseudo_rng_aes_ctr seed
-- 
2.43.0


From 9937e7060acae7283eed45dc33153029c1d443c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:12 +0000
Subject: [PATCH 08/20] fix: check the range given to
 pseudo_rng_aes_ctr#random_bytes

An illegal request wrote part of the buffer and advanced the generator
before failing.
---
 src/cryptokit.ml | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index 4c6558b..9f30e77 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -1940,6 +1940,8 @@ class pseudo_rng_aes_ctr seed =
     val mutable opos = 16
 
     method random_bytes buf ofs len =
+      if len < 0 || ofs < 0 || ofs > Bytes.length buf - len
+      then invalid_arg "pseudo_rng_aes_ctr#random_bytes";
       if len > 0 then begin
         if opos >= 16 then begin
           (* Encrypt the counter *)
-- 
2.43.0


From 2002f630eedef1636967b56a8dec4bdd524ea13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:12 +0000
Subject: [PATCH 09/20] fix: check the source range in cbc_encrypt#transform

The unchecked xor primitive read outside the source buffer.
---
 src/cryptokit.ml | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index 9f30e77..5b197cb 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -655,6 +655,8 @@ class cbc_encrypt ?iv:iv_init (cipher : block_cipher) =
     val iv = make_initial_iv blocksize iv_init
     method blocksize = blocksize
     method transform src src_off dst dst_off =
+      if src_off < 0 || src_off > Bytes.length src - blocksize
+      then invalid_arg "cbc_encrypt#transform";
       xor_bytes src src_off iv 0 blocksize;
       cipher#transform iv 0 dst dst_off;
       Bytes.blit dst dst_off iv 0 blocksize
-- 
2.43.0


From 80a69ae817f8488b93d4ecb050a8503d1814dd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:12 +0000
Subject: [PATCH 10/20] fix: check the range given to put_substring of stream
 ciphers

A huge length made the search for a buffer size loop forever, and
ChaCha20-Poly1305 decryption hashed bytes outside the buffer before failing.
---
 src/cryptokit.ml | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index 5b197cb..07a4a71 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -1045,6 +1045,8 @@ class cipher (cipher : stream_cipher) =
     method output_block_size = 1
 
     method put_substring src ofs len =
+      if len < 0 || ofs < 0 || ofs > Bytes.length src - len
+      then invalid_arg "Stream.cipher#put_substring";
       self#ensure_capacity len;
       cipher#transform src ofs obuf oend len;
       oend <- oend + len
-- 
2.43.0


From 48e0f743e6a0c5e519da79345b4e51cff6f2a5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:12 +0000
Subject: [PATCH 11/20] fix: check the range given to put_substring of Zlib
 transforms

The C stubs read outside the buffer.
---
 src/cryptokit.ml | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index 07a4a71..a2f6b23 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -2541,6 +2541,8 @@ class compress level write_zlib_header =
     method output_block_size = 1
 
     method put_substring src ofs len =
+      if len < 0 || ofs < 0 || ofs > Bytes.length src - len
+      then invalid_arg "Zlib.compress#put_substring";
       if len > 0 then begin
         self#ensure_capacity 256;
         let (_, used_in, used_out) =
@@ -2596,6 +2598,8 @@ class uncompress expect_zlib_header =
     method output_block_size = 1
 
     method put_substring src ofs len =
+      if len < 0 || ofs < 0 || ofs > Bytes.length src - len
+      then invalid_arg "Zlib.uncompress#put_substring";
       if len > 0 then begin
         self#ensure_capacity 256;
         let (finished, used_in, used_out) =
-- 
2.43.0


From 1939adf63fee1a0dd04271124ae91bf097af3491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:12 +0000
Subject: [PATCH 12/20] fix: ChaCha20 with a 12-byte nonce accepts every 32-bit
 block counter

The limit was 2^24 instead of 2^32, and negative counters went unnoticed.
---
 src/cryptokit.ml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index a2f6b23..a638ebc 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -1020,7 +1020,7 @@ class chacha20 ?iv ?(ctr = 0L) key =
         | None -> Bytes.make 8 '\000'
         | Some s ->
             if String.length s = 8
-            || String.length s = 12 && ctr < 0x1_000_000L
+            || String.length s = 12 && ctr >= 0L && ctr < 0x1_0000_0000L
             then Bytes.of_string s
             else raise (Error Wrong_IV_size) in
       chacha20_cook_key key iv ctr
-- 
2.43.0


From 42167ce9bfac6fedd99e531e71eefa0689071746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:12 +0000
Subject: [PATCH 13/20] fix: flushing a compressor that has nothing to flush

Z_BUF_ERROR is not fatal: it says that no progress was possible.
---
 src/stubs-zlib.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/stubs-zlib.c b/src/stubs-zlib.c
index 4cdf7d1..4928813 100644
--- a/src/stubs-zlib.c
+++ b/src/stubs-zlib.c
@@ -110,7 +110,9 @@ value caml_zlib_deflate(value vzs, value srcbuf, value srcpos, value srclen,
   zs->next_out = &Byte_u(dstbuf, Long_val(dstpos));
   zs->avail_out = Long_val(dstlen);
   retcode = deflate(zs, caml_zlib_flush_table[Int_val(vflush)]);
-  if (retcode < 0) caml_zlib_error("Zlib.deflate", vzs);
+  /* Z_BUF_ERROR means that there was nothing left to do */
+  if (retcode < 0 && retcode != Z_BUF_ERROR)
+    caml_zlib_error("Zlib.deflate", vzs);
   used_in = Long_val(srclen) - zs->avail_in;
   used_out = Long_val(dstlen) - zs->avail_out;
   zs->next_in = NULL;         /* not required, but cleaner */
-- 
2.43.0


From 60e037dacf5f1e577c66979b5d02dfd456421d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:12 +0000
Subject: [PATCH 14/20] fix: truncated compressed data and flush in
 Zlib.uncompress

finish fed a space character to the decompressor, which could complete a
truncated stream and silently return wrong data.  flush did not deliver the
output held back by zlib.
---
 src/cryptokit.ml | 28 +++++++++++++++++-----------
 src/stubs-zlib.c |  3 ++-
 2 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index a638ebc..0dae12a 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -2623,19 +2623,25 @@ class uncompress expect_zlib_header =
 
     method put_byte b = self#put_char (Char.chr b)
 
-    method flush = ()
+    (* Extract the output that zlib still holds.
+       Return true if the end of the compressed stream was reached. *)
+    method private drain =
+      self#ensure_capacity 256;
+      let (finished, _, used_out) =
+         inflate zs
+                 (Bytes.unsafe_of_string "") 0 0
+                 obuf oend (Bytes.length obuf - oend)
+                 Z_SYNC_FLUSH in
+      oend <- oend + used_out;
+      finished || (used_out > 0 && self#drain)
+
+    method flush = ignore self#drain
 
     method finish =
-      let rec do_finish first_finish =
-        self#ensure_capacity 256;
-        let (finished, _, used_out) =
-           inflate zs
-                   (Bytes.unsafe_of_string " ") 0 (if first_finish then 1 else 0)
-                   obuf oend (Bytes.length obuf - oend)
-                   Z_SYNC_FLUSH in
-        oend <- oend + used_out;
-        if not finished then do_finish false in
-      do_finish true; inflate_end zs
+      if not self#drain then
+        raise(Error(Compression_error("Zlib.uncompress",
+           "truncated compressed data")));
+      inflate_end zs
 
     method wipe =
       output_buffer#wipe
diff --git a/src/stubs-zlib.c b/src/stubs-zlib.c
index 4928813..822899c 100644
--- a/src/stubs-zlib.c
+++ b/src/stubs-zlib.c
@@ -157,7 +157,8 @@ value caml_zlib_inflate(value vzs, value srcbuf, value srcpos, value srclen,
   zs->next_out = &Byte_u(dstbuf, Long_val(dstpos));
   zs->avail_out = Long_val(dstlen);
   retcode = inflate(zs, caml_zlib_flush_table[Int_val(vflush)]);
-  if (retcode < 0 || retcode == Z_NEED_DICT)
+  /* Z_BUF_ERROR means that there was nothing left to do */
+  if ((retcode < 0 && retcode != Z_BUF_ERROR) || retcode == Z_NEED_DICT)
     caml_zlib_error("Zlib.inflate", vzs);
   used_in = Long_val(srclen) - zs->avail_in;
   used_out = Long_val(dstlen) - zs->avail_out;
-- 
2.43.0


From ba1a2bc2f105f27f10e3fb4d0ddca3324954b41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:12 +0000
Subject: [PATCH 15/20] fix: Zlib transforms on buffers of 4 gigabytes and more

Zlib's byte counters are 32 bits wide and lengths were truncated.
---
 src/stubs-zlib.c | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/stubs-zlib.c b/src/stubs-zlib.c
index 822899c..5d1765b 100644
--- a/src/stubs-zlib.c
+++ b/src/stubs-zlib.c
@@ -92,6 +92,13 @@ value caml_zlib_deflateInit(value vlevel, value expect_header)
   return vzs;
 }
 
+/* Zlib counts bytes with 32-bit integers.  Longer data is processed
+   in several calls. */
+static unsigned int clamp(long len)
+{
+  return (unsigned long) len > 0x40000000 ? 0x40000000 : len;
+}
+
 static int caml_zlib_flush_table[] = 
 { Z_NO_FLUSH, Z_SYNC_FLUSH, Z_FULL_FLUSH, Z_FINISH };
 
@@ -106,21 +113,21 @@ value caml_zlib_deflate(value vzs, value srcbuf, value srcpos, value srclen,
   value res;
 
   zs->next_in = &Byte_u(srcbuf, Long_val(srcpos));
-  zs->avail_in = Long_val(srclen);
+  zs->avail_in = clamp(Long_val(srclen));
   zs->next_out = &Byte_u(dstbuf, Long_val(dstpos));
-  zs->avail_out = Long_val(dstlen);
+  zs->avail_out = clamp(Long_val(dstlen));
   retcode = deflate(zs, caml_zlib_flush_table[Int_val(vflush)]);
   /* Z_BUF_ERROR means that there was nothing left to do */
   if (retcode < 0 && retcode != Z_BUF_ERROR)
     caml_zlib_error("Zlib.deflate", vzs);
-  used_in = Long_val(srclen) - zs->avail_in;
-  used_out = Long_val(dstlen) - zs->avail_out;
+  used_in = clamp(Long_val(srclen)) - zs->avail_in;
+  used_out = clamp(Long_val(dstlen)) - zs->avail_out;
   zs->next_in = NULL;         /* not required, but cleaner */
   zs->next_out = NULL;        /* (avoid dangling pointers into Caml heap) */
   res = caml_alloc_small(3, 0);
   Field(res, 0) = Val_bool(retcode == Z_STREAM_END);
-  Field(res, 1) = Val_int(used_in);
-  Field(res, 2) = Val_int(used_out);
+  Field(res, 1) = Val_long(used_in);
+  Field(res, 2) = Val_long(used_out);
   return res;
 }
 
@@ -153,21 +160,21 @@ value caml_zlib_inflate(value vzs, value srcbuf, value srcpos, value srclen,
   value res;
 
   zs->next_in = &Byte_u(srcbuf, Long_val(srcpos));
-  zs->avail_in = Long_val(srclen);
+  zs->avail_in = clamp(Long_val(srclen));
   zs->next_out = &Byte_u(dstbuf, Long_val(dstpos));
-  zs->avail_out = Long_val(dstlen);
+  zs->avail_out = clamp(Long_val(dstlen));
   retcode = inflate(zs, caml_zlib_flush_table[Int_val(vflush)]);
   /* Z_BUF_ERROR means that there was nothing left to do */
   if ((retcode < 0 && retcode != Z_BUF_ERROR) || retcode == Z_NEED_DICT)
     caml_zlib_error("Zlib.inflate", vzs);
-  used_in = Long_val(srclen) - zs->avail_in;
-  used_out = Long_val(dstlen) - zs->avail_out;
+  used_in = clamp(Long_val(srclen)) - zs->avail_in;
+  used_out = clamp(Long_val(dstlen)) - zs->avail_out;
   zs->next_in = NULL;           /* not required, but cleaner */
   zs->next_out = NULL;          /* (avoid dangling pointers into Caml heap) */
   res = caml_alloc_small(3, 0);
   Field(res, 0) = Val_bool(retcode == Z_STREAM_END);
-  Field(res, 1) = Val_int(used_in);
-  Field(res, 2) = Val_int(used_out);
+  Field(res, 1) = Val_long(used_in);
+  Field(res, 2) = Val_long(used_out);
   return res;
 }
 
-- 
2.43.0


From e88fbfb0344eb670d3d8620418b80675d56b402c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:12 +0000
Subject: [PATCH 16/20] fix: MD5 of 4 gigabytes and more given in one call

The length was truncated to 32 bits.
---
 src/stubs-md5.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/stubs-md5.c b/src/stubs-md5.c
index ceccb32..b6f24cc 100644
--- a/src/stubs-md5.c
+++ b/src/stubs-md5.c
@@ -44,7 +44,16 @@ CAMLprim value caml_md5_init(value unit)
 
 CAMLprim value caml_md5_update(value ctx, value src, value ofs, value len)
 {
-  caml_MD5Update(Context_val(ctx), &Byte_u(src, Long_val(ofs)), Long_val(len));
+  unsigned char * p = &Byte_u(src, Long_val(ofs));
+  long l = Long_val(len);
+
+  /* The length argument of caml_MD5Update is an unsigned int */
+  while (l > 0x40000000) {
+    caml_MD5Update(Context_val(ctx), p, 0x40000000);
+    p += 0x40000000;
+    l -= 0x40000000;
+  }
+  caml_MD5Update(Context_val(ctx), p, l);
   return Val_unit;
 }
 
-- 
2.43.0


From e5b9d0af01e9b3a9a1ad3af9a02699cd5beb90be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:26 +0000
Subject: [PATCH 17/20] fix: HMAC objects do not keep the caller's key

The key was read again when computing the result, so changing or wiping it
in the meantime gave a wrong MAC, and it stayed reachable from a wiped object.
---
 src/cryptokit.ml | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index 0dae12a..c3a3d3c 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -1423,21 +1423,23 @@ module HMAC(H: sig class h: hash  val blocksize: int end) =
       xor_string key 0 r 0 (String.length key);
       r
     class hmac key =
+      let ipad = hmac_pad key 0x36 in
+      let opad = hmac_pad key 0x5C in
       object(self)
         inherit H.h as super
         initializer
-          (let b = hmac_pad key 0x36 in
-           self#add_substring b 0 (Bytes.length b);
-           wipe_bytes b)
+          (self#add_substring ipad 0 (Bytes.length ipad);
+           wipe_bytes ipad)
         method result =
           let h' = new H.h in
-          let b = hmac_pad key 0x5C in
-          h'#add_substring b 0 (Bytes.length b);
-          wipe_bytes b;
+          h'#add_substring opad 0 (Bytes.length opad);
           h'#add_string (super#result);
           let r = h'#result in
           h'#wipe;
           r
+        method wipe =
+          super#wipe;
+          wipe_bytes opad
       end
   end
 
-- 
2.43.0


From b1205fd5d67361fd691aece2a791ecfc8f1013c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:25 +0000
Subject: [PATCH 18/20] fix: check the range given to put_substring of Base64
 and Hexa transforms

A length close to max_int made the loop bound wrap around, and the call was
silently ignored.
---
 src/cryptokit.ml | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index c3a3d3c..5aeefb7 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -2298,6 +2298,8 @@ class encode multiline padding =
       end
 
     method put_substring s ofs len =
+      if len < 0 || ofs < 0 || ofs > Bytes.length s - len
+      then invalid_arg "Base64.encode#put_substring";
       for i = ofs to ofs + len - 1 do self#put_char (Bytes.get s i) done
 
     method put_string s =
@@ -2387,6 +2389,8 @@ class decode =
       end
 
     method put_substring s ofs len =
+      if len < 0 || ofs < 0 || ofs > Bytes.length s - len
+      then invalid_arg "Base64.decode#put_substring";
       for i = ofs to ofs + len - 1 do self#put_char (Bytes.get s i) done
 
     method put_string s =
@@ -2441,6 +2445,8 @@ class encode =
     method put_char c = self#put_byte (Char.code c)
 
     method put_substring s ofs len =
+      if len < 0 || ofs < 0 || ofs > Bytes.length s - len
+      then invalid_arg "Hexa.encode#put_substring";
       for i = ofs to ofs + len - 1 do self#put_char (Bytes.get s i) done
 
     method put_string s =
@@ -2486,6 +2492,8 @@ class decode =
       end
 
     method put_substring s ofs len =
+      if len < 0 || ofs < 0 || ofs > Bytes.length s - len
+      then invalid_arg "Hexa.decode#put_substring";
       for i = ofs to ofs + len - 1 do self#put_char (Bytes.get s i) done
 
     method put_string s =
-- 
2.43.0


From 861edae13946b6512d960ea75af19ad4d2a3fc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:59 +0000
Subject: [PATCH 19/20] fix: Zlib streams that are not finished release zlib's
 memory when collected

---
 src/stubs-zlib.c | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/stubs-zlib.c b/src/stubs-zlib.c
index 5d1765b..f54fde2 100644
--- a/src/stubs-zlib.c
+++ b/src/stubs-zlib.c
@@ -61,13 +61,33 @@ void caml_zlib_free_stream(value vzs)
   ZStream_val(vzs) = NULL;
 }
 
-static struct custom_operations caml_zlib_stream_ops = {
-  "caml_zlib_stream_ops", &caml_zlib_free_stream, NULL, NULL, NULL, NULL
+/* A stream that was not finished still owns memory allocated by zlib.
+   Ending a stream twice is harmless. */
+static void caml_zlib_free_deflate_stream(value vzs)
+{
+  deflateEnd(ZStream_val(vzs));
+  caml_zlib_free_stream(vzs);
+}
+
+static void caml_zlib_free_inflate_stream(value vzs)
+{
+  inflateEnd(ZStream_val(vzs));
+  caml_zlib_free_stream(vzs);
+}
+
+static struct custom_operations caml_zlib_deflate_ops = {
+  "caml_zlib_deflate_ops", &caml_zlib_free_deflate_stream,
+  NULL, NULL, NULL, NULL
+};
+
+static struct custom_operations caml_zlib_inflate_ops = {
+  "caml_zlib_inflate_ops", &caml_zlib_free_inflate_stream,
+  NULL, NULL, NULL, NULL
 };
 
-static value caml_zlib_new_stream(void)
+static value caml_zlib_new_stream(struct custom_operations * ops)
 {
-  value res = caml_alloc_custom(&caml_zlib_stream_ops, sizeof(z_streamp), 0, 1);
+  value res = caml_alloc_custom(ops, sizeof(z_streamp), 0, 1);
 
   ZStream_val(res) = caml_stat_alloc(sizeof(z_stream));
   ZStream_val(res)->zalloc = NULL;
@@ -75,13 +95,14 @@ static value caml_zlib_new_stream(void)
   ZStream_val(res)->opaque = NULL;
   ZStream_val(res)->next_in = NULL;
   ZStream_val(res)->next_out = NULL;
+  ZStream_val(res)->state = NULL;
   return res;
 }
 
 CAMLprim
 value caml_zlib_deflateInit(value vlevel, value expect_header)
 {
-  value vzs = caml_zlib_new_stream();
+  value vzs = caml_zlib_new_stream(&caml_zlib_deflate_ops);
   if (deflateInit2(ZStream_val(vzs),
                    Int_val(vlevel),
                    Z_DEFLATED,
@@ -142,7 +163,7 @@ value caml_zlib_deflateEnd(value vzs)
 CAMLprim
 value caml_zlib_inflateInit(value expect_header)
 {
-  value vzs = caml_zlib_new_stream();
+  value vzs = caml_zlib_new_stream(&caml_zlib_inflate_ops);
   if (inflateInit2(ZStream_val(vzs),
                    Bool_val(expect_header) ? MAX_WBITS : -MAX_WBITS) != Z_OK)
     caml_zlib_error("Zlib.inflateInit", vzs);
-- 
2.43.0


From 5a1e87ab732c47a87894daadd16e01d862f17e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:20 +0000
Subject: [PATCH 20/20] fix: Zlib stream creation that runs out of memory no
 longer crashes at the next collection

---
 src/stubs-zlib.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/stubs-zlib.c b/src/stubs-zlib.c
index f54fde2..81d69fd 100644
--- a/src/stubs-zlib.c
+++ b/src/stubs-zlib.c
@@ -87,9 +87,12 @@ static struct custom_operations caml_zlib_inflate_ops = {
 
 static value caml_zlib_new_stream(struct custom_operations * ops)
 {
+  /* Allocate the z_stream first: should this fail, there must be no
+     custom block with an uninitialized pointer to finalize. */
+  z_streamp zs = caml_stat_alloc(sizeof(z_stream));
   value res = caml_alloc_custom(ops, sizeof(z_streamp), 0, 1);
 
-  ZStream_val(res) = caml_stat_alloc(sizeof(z_stream));
+  ZStream_val(res) = zs;
   ZStream_val(res)->zalloc = NULL;
   ZStream_val(res)->zfree = NULL;
   ZStream_val(res)->opaque = NULL;
-- 
2.43.0

