import tlc2.value.impl.*;
import tlc2.overrides.*;
import java.security.MessageDigest;
import javax.crypto.*;
import javax.crypto.spec.*;

/** TLC evaluation of the operators of Bulk.tla: functions of messages too long to be written
 *  down as TLA+ sequences.  Every function is a direct streaming implementation; SelfCheck.tla
 *  compares them with the TLA+ definitions on short messages. */
public class BulkOv {
  static int in(Value v) { return ((IntValue) v).val; }
  static byte[] by(Value v) { Value[] e = ((TupleValue) v.toTuple()).elems; byte[] r = new byte[e.length]; for (int i = 0; i < r.length; i++) r[i] = (byte) in(e[i]); return r; }
  static Value tv(byte[] b) { Value[] e = new Value[b.length]; for (int i = 0; i < b.length; i++) e[i] = IntValue.gen(b[i] & 255); return new TupleValue(e); }
  static long num(Value v) { Value[] e = ((TupleValue) v.toTuple()).elems; return ((long) in(e[0]) << 20) + in(e[1]); }
  static final int P = 65536;
  static byte[] pattern(int seed) { byte[] p = new byte[P]; for (int i = 0; i < P; i++) p[i] = (byte) (i * 131 + (i / 256) * 17 + seed); return p; }

  /** a consumer of bytes */
  interface Sink { void update(byte[] b, int o, int n) throws Exception; byte[] finish() throws Exception; }
  static void feed(Sink s, int seed, long n) throws Exception {
    byte[] p = pattern(seed);
    while (n > 0) { int k = (int) Math.min(n, P); s.update(p, 0, k); n -= k; }
  }
  /** buffering into blocks */
  static abstract class Blocks implements Sink {
    final int B; final byte[] buf; int n; long total; final boolean lazy;
    Blocks(int b, boolean lazy) { B = b; buf = new byte[b]; this.lazy = lazy; }
    abstract void block(byte[] b, int o);
    public void update(byte[] b, int o, int k) {
      total += k;
      while (k > 0) {
        if (lazy && n == B) { block(buf, 0); n = 0; }
        if (n == 0 && (lazy ? k > B : k >= B)) { block(b, o); o += B; k -= B; continue; }
        int m = Math.min(k, B - n);
        System.arraycopy(b, o, buf, n, m); n += m; o += m; k -= m;
        if (!lazy && n == B) { block(buf, 0); n = 0; }
      }
    }
  }
  static int le(byte[] b, int o) { return (b[o] & 255) | (b[o+1] & 255) << 8 | (b[o+2] & 255) << 16 | (b[o+3] & 255) << 24; }
  static void ule(int x, byte[] b, int o) { b[o] = (byte) x; b[o+1] = (byte) (x >> 8); b[o+2] = (byte) (x >> 16); b[o+3] = (byte) (x >> 24); }
  static long le8(byte[] b, int o) { return (le(b, o) & 0xffffffffL) | ((long) le(b, o + 4) << 32); }
  static void ule8(long x, byte[] b, int o) { ule((int) x, b, o); ule((int) (x >>> 32), b, o + 4); }
  static long be8(byte[] b, int o) { long r = 0; for (int i = 0; i < 8; i++) r = r << 8 | (b[o+i] & 255); return r; }
  static void ube8(long x, byte[] b, int o) { for (int i = 7; i >= 0; i--) { b[o+i] = (byte) x; x >>>= 8; } }

  static class JDigest implements Sink {
    final MessageDigest m; JDigest(String a) throws Exception { m = MessageDigest.getInstance(a); }
    public void update(byte[] b, int o, int n) { m.update(b, o, n); }
    public byte[] finish() { return m.digest(); }
  }
  static class Hmac implements Sink {
    final Sink in; final java.util.function.Supplier<Sink> mk; final byte[] k; final int B;
    Hmac(java.util.function.Supplier<Sink> mk, int B, byte[] key) throws Exception {
      this.mk = mk; this.B = B;
      if (key.length > B) { Sink s = mk.get(); s.update(key, 0, key.length); key = s.finish(); }
      k = java.util.Arrays.copyOf(key, B); in = mk.get(); in.update(x(0x36), 0, B);
    }
    byte[] x(int c) { byte[] r = k.clone(); for (int i = 0; i < B; i++) r[i] ^= c; return r; }
    public void update(byte[] b, int o, int n) throws Exception { in.update(b, o, n); }
    public byte[] finish() throws Exception { byte[] h = in.finish(); Sink s = mk.get(); s.update(x(0x5c), 0, B); s.update(h, 0, h.length); return s.finish(); }
  }
  static class Ripemd extends Blocks {
    Ripemd() { super(64, false); }
    int a = 0x67452301, b = 0xefcdab89, c = 0x98badcfe, d = 0x10325476, e = 0xc3d2e1f0;
    static final int[] R = {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,7,4,13,1,10,6,15,3,12,0,9,5,2,14,11,8,3,10,14,4,9,15,8,1,2,7,0,6,13,11,5,12,1,9,11,10,0,8,12,4,13,3,7,15,14,5,6,2,4,0,5,9,7,12,2,10,14,1,3,8,11,6,15,13};
    static final int[] RR = {5,14,7,0,9,2,11,4,13,6,15,8,1,10,3,12,6,11,3,7,0,13,5,10,14,15,8,12,4,9,1,2,15,5,1,3,7,14,6,9,11,8,12,2,10,0,4,13,8,6,4,1,3,11,15,0,5,12,2,13,9,7,10,14,12,15,10,4,1,5,8,7,6,2,13,14,0,3,9,11};
    static final int[] S = {11,14,15,12,5,8,7,9,11,13,14,15,6,7,9,8,7,6,8,13,11,9,7,15,7,12,15,9,11,7,13,12,11,13,6,7,14,9,13,15,14,8,13,6,5,12,7,5,11,12,14,15,14,15,9,8,9,14,5,6,8,6,5,12,9,15,5,11,6,8,13,12,5,12,13,14,11,8,5,6};
    static final int[] SS = {8,9,9,11,13,15,15,5,7,7,8,11,14,14,12,6,9,13,15,7,12,8,9,11,7,7,12,7,6,15,13,11,9,7,15,11,8,6,6,14,12,13,5,14,13,13,7,5,15,5,8,11,14,14,6,14,6,9,12,9,12,5,15,8,8,5,12,9,12,5,14,6,8,13,6,5,15,13,11,11};
    static final int[] K = {0, 0x5A827999, 0x6ED9EBA1, 0x8F1BBCDC, 0xA953FD4E}, KK = {0x50A28BE6, 0x5C4DD124, 0x6D703EF3, 0x7A6D76E9, 0};
    static int f(int j, int x, int y, int z) { switch (j) { case 0: return x ^ y ^ z; case 1: return (x & y) | (~x & z); case 2: return (x | ~y) ^ z; case 3: return (x & z) | (y & ~z); default: return x ^ (y | ~z); } }
    final int[] X = new int[16];
    void block(byte[] m, int o) {
      for (int i = 0; i < 16; i++) X[i] = le(m, o + 4 * i);
      int A = a, B = b, C = c, D = d, E = e, p = a, q = b, r = c, s = d, t = e;
      for (int j = 0; j < 80; j++) {
        int u = Integer.rotateLeft(A + f(j >> 4, B, C, D) + X[R[j]] + K[j >> 4], S[j]) + E; A = E; E = D; D = Integer.rotateLeft(C, 10); C = B; B = u;
        u = Integer.rotateLeft(p + f(4 - (j >> 4), q, r, s) + X[RR[j]] + KK[j >> 4], SS[j]) + t; p = t; t = s; s = Integer.rotateLeft(r, 10); r = q; q = u;
      }
      int u = b + C + s; b = c + D + t; c = d + E + p; d = e + A + q; e = a + B + r; a = u;
    }
    public byte[] finish() {
      long bits = total * 8; byte[] z = new byte[64]; z[0] = (byte) 0x80;
      update(z, 0, n < 56 ? 56 - n : 120 - n);
      byte[] l = new byte[8]; ule8(bits, l, 0); update(l, 0, 8);
      byte[] r = new byte[20]; ule(a, r, 0); ule(b, r, 4); ule(c, r, 8); ule(d, r, 12); ule(e, r, 16); return r;
    }
  }
  static class Keccak extends Blocks {
    final int size, suffix; final long[] s = new long[25];
    Keccak(int bits, int suffix) { super(200 - bits / 4, false); size = bits / 8; this.suffix = suffix; }
    static final long[] RC = new long[24];
    static {
      int r = 1;
      for (int i = 0; i < 24; i++) for (int j = 0; j < 7; j++) {
        if ((r & 1) != 0) RC[i] |= 1L << ((1 << j) - 1);
        r <<= 1; if ((r & 0x100) != 0) r ^= 0x171;
      }
    }
    static final int[] PIL = new int[24], PIR = new int[24];
    static { int x = 1, y = 0; for (int t = 0; t < 24; t++) { int z = (2 * x + 3 * y) % 5; PIL[t] = y + 5 * z; PIR[t] = ((t + 1) * (t + 2) / 2) % 64; x = y; y = z; } }
    void block(byte[] m, int o) {
      final long[] s = this.s;
      for (int i = 0; i < B / 8; i++) s[i] ^= le8(m, o + 8 * i);
      for (int rnd = 0; rnd < 24; rnd++) {
        long c0 = s[0] ^ s[5] ^ s[10] ^ s[15] ^ s[20], c1 = s[1] ^ s[6] ^ s[11] ^ s[16] ^ s[21], c2 = s[2] ^ s[7] ^ s[12] ^ s[17] ^ s[22], c3 = s[3] ^ s[8] ^ s[13] ^ s[18] ^ s[23], c4 = s[4] ^ s[9] ^ s[14] ^ s[19] ^ s[24];
        long d0 = c4 ^ Long.rotateLeft(c1, 1), d1 = c0 ^ Long.rotateLeft(c2, 1), d2 = c1 ^ Long.rotateLeft(c3, 1), d3 = c2 ^ Long.rotateLeft(c4, 1), d4 = c3 ^ Long.rotateLeft(c0, 1);
        for (int y = 0; y < 25; y += 5) { s[y] ^= d0; s[y+1] ^= d1; s[y+2] ^= d2; s[y+3] ^= d3; s[y+4] ^= d4; }
        long t = s[1];
        for (int i = 0; i < 24; i++) { int j = PIL[i]; long u = s[j]; s[j] = Long.rotateLeft(t, PIR[i]); t = u; }
        for (int y = 0; y < 25; y += 5) {
          long e0 = s[y], e1 = s[y+1], e2 = s[y+2], e3 = s[y+3], e4 = s[y+4];
          s[y] = e0 ^ (~e1 & e2); s[y+1] = e1 ^ (~e2 & e3); s[y+2] = e2 ^ (~e3 & e4); s[y+3] = e3 ^ (~e4 & e0); s[y+4] = e4 ^ (~e0 & e1);
        }
        s[0] ^= RC[rnd];
      }
    }
    public byte[] finish() {
      byte[] z = new byte[B - n]; z[0] = (byte) suffix; z[z.length - 1] |= (byte) 0x80; update(z, 0, z.length);
      byte[] r = new byte[200]; for (int i = 0; i < 25; i++) ule8(s[i], r, 8 * i);
      return java.util.Arrays.copyOf(r, size);
    }
  }
  static final byte[][] SG = {{0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15},{14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3},{11,8,12,0,5,2,15,13,10,14,3,6,7,1,9,4},{7,9,3,1,13,12,11,14,2,6,5,10,4,0,15,8},{9,0,5,7,2,4,10,15,14,1,11,12,6,8,3,13},{2,12,6,10,0,11,8,3,4,13,7,5,15,14,1,9},{12,5,1,15,14,13,4,10,0,7,6,3,9,2,8,11},{13,11,7,14,12,1,3,9,5,0,15,4,8,6,2,10},{6,15,14,9,11,3,0,8,12,2,13,7,1,4,10,5},{10,2,8,4,7,6,1,5,15,11,9,14,3,12,13,0}};
  static final int[] IVS = {0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19};
  static final long[] IVB = {0x6a09e667f3bcc908L, 0xbb67ae8584caa73bL, 0x3c6ef372fe94f82bL, 0xa54ff53a5f1d36f1L, 0x510e527fade682d1L, 0x9b05688c2b3e6c1fL, 0x1f83d9abfb41bd6bL, 0x5be0cd19137e2179L};
  static class B2b extends Blocks {
    final long[] h = IVB.clone(), v = new long[16], m = new long[16]; final int size; long done;
    B2b(int size, byte[] key) { super(128, true); this.size = size; h[0] ^= 0x01010000L ^ (key.length << 8) ^ size; if (key.length > 0) update(java.util.Arrays.copyOf(key, 128), 0, 128); }
    void g(int a, int b, int c, int d, long x, long y) {
      v[a] += v[b] + x; v[d] = Long.rotateRight(v[d] ^ v[a], 32); v[c] += v[d]; v[b] = Long.rotateRight(v[b] ^ v[c], 24);
      v[a] += v[b] + y; v[d] = Long.rotateRight(v[d] ^ v[a], 16); v[c] += v[d]; v[b] = Long.rotateRight(v[b] ^ v[c], 63);
    }
    void f(byte[] b, int o, boolean last) {
      for (int i = 0; i < 16; i++) m[i] = le8(b, o + 8 * i);
      for (int i = 0; i < 8; i++) { v[i] = h[i]; v[i+8] = IVB[i]; }
      v[12] ^= done; if (last) v[14] = ~v[14];
      for (int r = 0; r < 12; r++) { byte[] s = SG[r % 10];
        g(0,4,8,12,m[s[0]],m[s[1]]); g(1,5,9,13,m[s[2]],m[s[3]]); g(2,6,10,14,m[s[4]],m[s[5]]); g(3,7,11,15,m[s[6]],m[s[7]]);
        g(0,5,10,15,m[s[8]],m[s[9]]); g(1,6,11,12,m[s[10]],m[s[11]]); g(2,7,8,13,m[s[12]],m[s[13]]); g(3,4,9,14,m[s[14]],m[s[15]]); }
      for (int i = 0; i < 8; i++) h[i] ^= v[i] ^ v[i+8];
    }
    void block(byte[] b, int o) { done += 128; f(b, o, false); }
    public byte[] finish() { done += n; for (int i = n; i < 128; i++) buf[i] = 0; f(buf, 0, true); byte[] r = new byte[64]; for (int i = 0; i < 8; i++) ule8(h[i], r, 8 * i); return java.util.Arrays.copyOf(r, size); }
  }
  static class B2s extends Blocks {
    final int[] h = IVS.clone(), v = new int[16], m = new int[16]; final int size; long done;
    B2s(int size, byte[] key) { super(64, true); this.size = size; h[0] ^= 0x01010000 ^ (key.length << 8) ^ size; if (key.length > 0) update(java.util.Arrays.copyOf(key, 64), 0, 64); }
    void g(int a, int b, int c, int d, int x, int y) {
      v[a] += v[b] + x; v[d] = Integer.rotateRight(v[d] ^ v[a], 16); v[c] += v[d]; v[b] = Integer.rotateRight(v[b] ^ v[c], 12);
      v[a] += v[b] + y; v[d] = Integer.rotateRight(v[d] ^ v[a], 8); v[c] += v[d]; v[b] = Integer.rotateRight(v[b] ^ v[c], 7);
    }
    void f(byte[] b, int o, boolean last) {
      for (int i = 0; i < 16; i++) m[i] = le(b, o + 4 * i);
      for (int i = 0; i < 8; i++) { v[i] = h[i]; v[i+8] = IVS[i]; }
      v[12] ^= (int) done; v[13] ^= (int) (done >>> 32); if (last) v[14] = ~v[14];
      for (int r = 0; r < 10; r++) { byte[] s = SG[r];
        g(0,4,8,12,m[s[0]],m[s[1]]); g(1,5,9,13,m[s[2]],m[s[3]]); g(2,6,10,14,m[s[4]],m[s[5]]); g(3,7,11,15,m[s[6]],m[s[7]]);
        g(0,5,10,15,m[s[8]],m[s[9]]); g(1,6,11,12,m[s[10]],m[s[11]]); g(2,7,8,13,m[s[12]],m[s[13]]); g(3,4,9,14,m[s[14]],m[s[15]]); }
      for (int i = 0; i < 8; i++) h[i] ^= v[i] ^ v[i+8];
    }
    void block(byte[] b, int o) { done += 64; f(b, o, false); }
    public byte[] finish() { done += n; for (int i = n; i < 64; i++) buf[i] = 0; f(buf, 0, true); byte[] r = new byte[32]; for (int i = 0; i < 8; i++) ule(h[i], r, 4 * i); return java.util.Arrays.copyOf(r, size); }
  }
  static class B3 extends Blocks {
    static final int[] PERM = {2, 6, 3, 10, 7, 0, 4, 13, 1, 11, 12, 5, 9, 14, 15, 8};
    static final int[][] SCH = new int[7][16];
    static { for (int i = 0; i < 16; i++) SCH[0][i] = i; for (int r = 1; r < 7; r++) for (int i = 0; i < 16; i++) SCH[r][i] = SCH[r-1][PERM[i]]; }
    final int[] key; final int flags, size; int[] cv; long chunk; int blk;       // current chunk
    final java.util.ArrayList<int[]> stack = new java.util.ArrayList<>();
    B3(int size, byte[] k) {
      super(64, true); this.size = size; key = IVS.clone(); int fl = 0;
      if (k.length == 32) { for (int i = 0; i < 8; i++) key[i] = le(k, 4 * i); fl = 16; }
      flags = fl; cv = key.clone();
    }
    static int[] compress(int[] cv, int[] m, long ctr, int len, int fl) {
      int[] v = {cv[0],cv[1],cv[2],cv[3],cv[4],cv[5],cv[6],cv[7],IVS[0],IVS[1],IVS[2],IVS[3],(int) ctr,(int) (ctr >>> 32),len,fl};
      for (int r = 0; r < 7; r++) { int[] s = SCH[r];
        g(v,0,4,8,12,m[s[0]],m[s[1]]); g(v,1,5,9,13,m[s[2]],m[s[3]]); g(v,2,6,10,14,m[s[4]],m[s[5]]); g(v,3,7,11,15,m[s[6]],m[s[7]]);
        g(v,0,5,10,15,m[s[8]],m[s[9]]); g(v,1,6,11,12,m[s[10]],m[s[11]]); g(v,2,7,8,13,m[s[12]],m[s[13]]); g(v,3,4,9,14,m[s[14]],m[s[15]]); }
      for (int i = 0; i < 8; i++) { v[i] ^= v[i+8]; v[i+8] ^= cv[i]; }
      return v;
    }
    static void g(int[] v, int a, int b, int c, int d, int x, int y) {
      v[a] += v[b] + x; v[d] = Integer.rotateRight(v[d] ^ v[a], 16); v[c] += v[d]; v[b] = Integer.rotateRight(v[b] ^ v[c], 12);
      v[a] += v[b] + y; v[d] = Integer.rotateRight(v[d] ^ v[a], 8); v[c] += v[d]; v[b] = Integer.rotateRight(v[b] ^ v[c], 7);
    }
    static int[] words(byte[] b, int o) { int[] m = new int[16]; for (int i = 0; i < 16; i++) m[i] = le(b, o + 4 * i); return m; }
    static int[] cat(int[] a, int[] b) { int[] m = new int[16]; System.arraycopy(a, 0, m, 0, 8); System.arraycopy(b, 0, m, 8, 8); return m; }
    void block(byte[] b, int o) {
      int fl = flags | (blk == 0 ? 1 : 0) | (blk == 15 ? 2 : 0);
      cv = java.util.Arrays.copyOf(compress(cv, words(b, o), chunk, 64, fl), 8);
      if (++blk == 16) {        // more input follows: the chunk is not the last one
        chunk++; long t = chunk; int[] c = cv;
        while ((t & 1) == 0) { c = java.util.Arrays.copyOf(compress(key, cat(stack.remove(stack.size() - 1), c), 0, 64, flags | 4), 8); t >>= 1; }
        stack.add(c); cv = key.clone(); blk = 0;
      }
    }
    public byte[] finish() {
      for (int i = n; i < 64; i++) buf[i] = 0;
      int[] icv = cv, m = words(buf, 0); long ctr = chunk; int len = n, fl = flags | (blk == 0 ? 1 : 0) | 2;
      for (int i = stack.size() - 1; i >= 0; i--) {
        int[] c = java.util.Arrays.copyOf(compress(icv, m, ctr, len, fl), 8);
        icv = key; m = cat(stack.get(i), c); ctr = 0; len = 64; fl = flags | 4;
      }
      byte[] r = new byte[(size + 63) / 64 * 64];
      for (int j = 0; 64 * j < size; j++) { int[] v = compress(icv, m, j, len, fl | 8); for (int i = 0; i < 16; i++) ule(v[i], r, 64 * j + 4 * i); }
      return java.util.Arrays.copyOf(r, size);
    }
  }
  static class Sip extends Blocks {
    long a, b, c, d; final int size;
    Sip(int size, byte[] k) {
      super(8, false); this.size = size; long k0 = le8(k, 0), k1 = le8(k, 8);
      a = k0 ^ 0x736f6d6570736575L; b = k1 ^ 0x646f72616e646f6dL; c = k0 ^ 0x6c7967656e657261L; d = k1 ^ 0x7465646279746573L;
      if (size == 16) b ^= 0xee;
    }
    void round() {
      a += b; b = Long.rotateLeft(b, 13) ^ a; a = Long.rotateLeft(a, 32); c += d; d = Long.rotateLeft(d, 16) ^ c;
      a += d; d = Long.rotateLeft(d, 21) ^ a; c += b; b = Long.rotateLeft(b, 17) ^ c; c = Long.rotateLeft(c, 32);
    }
    void block(byte[] m, int o) { long w = le8(m, o); d ^= w; round(); round(); a ^= w; }
    public byte[] finish() {
      long t = total; byte[] z = new byte[8]; System.arraycopy(buf, 0, z, 0, n); z[7] = (byte) t; block(z, 0);
      c ^= size == 16 ? 0xee : 0xff; for (int i = 0; i < 4; i++) round();
      byte[] r = new byte[size]; ule8(a ^ b ^ c ^ d, r, 0);
      if (size == 16) { b ^= 0xdd; for (int i = 0; i < 4; i++) round(); ule8(a ^ b ^ c ^ d, r, 8); }
      return r;
    }
  }
  /** AES-CMAC with zero initial vector */
  static class Cmac extends Blocks {
    final Cipher e, cbc; byte[] k1, k2; final byte[] out = new byte[P]; final byte[] last = new byte[16];
    static byte[] dbl(byte[] x) { byte[] r = new byte[16]; for (int i = 0; i < 16; i++) r[i] = (byte) (x[i] << 1 | (i < 15 ? (x[i+1] & 255) >> 7 : 0)); if (x[0] < 0) r[15] ^= (byte) 0x87; return r; }
    Cmac(byte[] key) throws Exception {
      super(16, true); e = Cipher.getInstance("AES/ECB/NoPadding"); e.init(Cipher.ENCRYPT_MODE, new SecretKeySpec(key, "AES"));
      cbc = Cipher.getInstance("AES/CBC/NoPadding"); cbc.init(Cipher.ENCRYPT_MODE, new SecretKeySpec(key, "AES"), new IvParameterSpec(new byte[16]));
      k1 = dbl(e.doFinal(new byte[16])); k2 = dbl(k1);
    }
    void block(byte[] b, int o) { try { cbc.update(b, o, 16, last, 0); } catch (Exception x) { throw new RuntimeException(x); } }
    public void update(byte[] b, int o, int k) {        // many blocks at a time
      if (n == 16 && k > 0) { block(buf, 0); n = 0; }
      int m = n == 0 ? (k - 1) / 16 * 16 : 0;
      if (m > 0) { try { cbc.update(b, o, m, out, 0); System.arraycopy(out, m - 16, last, 0, 16); } catch (Exception x) { throw new RuntimeException(x); } }
      super.update(b, o + m, k - m);
    }
    public byte[] finish() throws Exception {
      byte[] x = new byte[16]; System.arraycopy(buf, 0, x, 0, n); if (n < 16) x[n] = (byte) 0x80;
      byte[] k = n == 16 ? k1 : k2; for (int i = 0; i < 16; i++) x[i] ^= k[i] ^ last[i];
      return e.doFinal(x);
    }
  }
  static class Poly extends Blocks {
    final long r0, r1, r2, r3, r4; long h0, h1, h2, h3, h4; final byte[] key;
    Poly(byte[] k) {
      super(16, false); key = k;
      r0 = le(k, 0) & 0x3ffffff; r1 = (le(k, 3) >>> 2) & 0x3ffff03; r2 = (le(k, 6) >>> 4) & 0x3ffc0ff; r3 = (le(k, 9) >>> 6) & 0x3f03fff; r4 = (le(k, 12) >>> 8) & 0x00fffff;
    }
    void add(byte[] m, int o, long hi) {
      h0 += le(m, o) & 0x3ffffff; h1 += (le(m, o + 3) >>> 2) & 0x3ffffff; h2 += (le(m, o + 6) >>> 4) & 0x3ffffff; h3 += (le(m, o + 9) >>> 6) & 0x3ffffff; h4 += (le(m, o + 12) >>> 8) | hi;
      long d0 = h0*r0 + 5*(h1*r4 + h2*r3 + h3*r2 + h4*r1), d1 = h0*r1 + h1*r0 + 5*(h2*r4 + h3*r3 + h4*r2), d2 = h0*r2 + h1*r1 + h2*r0 + 5*(h3*r4 + h4*r3), d3 = h0*r3 + h1*r2 + h2*r1 + h3*r0 + 5*h4*r4, d4 = h0*r4 + h1*r3 + h2*r2 + h3*r1 + h4*r0;
      long c = d0 >>> 26; h0 = d0 & 0x3ffffff; d1 += c; c = d1 >>> 26; h1 = d1 & 0x3ffffff; d2 += c; c = d2 >>> 26; h2 = d2 & 0x3ffffff; d3 += c; c = d3 >>> 26; h3 = d3 & 0x3ffffff; d4 += c; c = d4 >>> 26; h4 = d4 & 0x3ffffff;
      h0 += 5 * c; c = h0 >>> 26; h0 &= 0x3ffffff; h1 += c;
    }
    void block(byte[] m, int o) { add(m, o, 1 << 24); }
    void pad() { if (n > 0) update(new byte[16], 0, 16 - n); }
    public byte[] finish() {
      if (n > 0) { byte[] z = new byte[16]; System.arraycopy(buf, 0, z, 0, n); z[n] = 1; n = 0; add(z, 0, 0); }
      java.math.BigInteger h = java.math.BigInteger.valueOf(h4);
      for (long x : new long[] {h3, h2, h1, h0}) h = h.shiftLeft(26).add(java.math.BigInteger.valueOf(x));
      h = h.mod(java.math.BigInteger.ONE.shiftLeft(130).subtract(java.math.BigInteger.valueOf(5)));
      byte[] s = new byte[17]; for (int i = 0; i < 16; i++) s[i + 1] = key[31 - i];
      h = h.add(new java.math.BigInteger(s));
      byte[] x = h.toByteArray(), r = new byte[16]; for (int i = 0; i < 16 && i < x.length; i++) r[i] = x[x.length - 1 - i];
      return r;
    }
  }
  static class Ghash extends Blocks {
    final long[] th = new long[16 * 256], tl = new long[16 * 256]; long yh, yl;      // byte tables
    Ghash(byte[] H) {
      super(16, false);
      long vh = be8(H, 0), vl = be8(H, 8);
      for (int i = 0; i < 128; i++) {          // bit i of the operand contributes H * x^i
        int p = i >> 3, bit = 7 - (i & 7);
        for (int x = 0; x < 256; x++) if ((x >> bit & 1) != 0) { th[256 * p + x] ^= vh; tl[256 * p + x] ^= vl; }
        long c = vl & 1; vl = vl >>> 1 | vh << 63; vh = vh >>> 1 ^ (c != 0 ? 0xE1L << 56 : 0);
      }
    }
    void mul(long xh, long xl) {
      long zh = 0, zl = 0;
      for (int p = 0; p < 8; p++) { int i = 256 * p + (int) (xh >>> (56 - 8 * p) & 255), j = 256 * (p + 8) + (int) (xl >>> (56 - 8 * p) & 255); zh ^= th[i] ^ th[j]; zl ^= tl[i] ^ tl[j]; }
      yh = zh; yl = zl;
    }
    void block(byte[] m, int o) { mul(yh ^ be8(m, o), yl ^ be8(m, o + 8)); }
    void pad() { if (n > 0) update(new byte[16], 0, 16 - n); }
    public byte[] finish() { byte[] r = new byte[16]; ube8(yh, r, 0); ube8(yl, r, 8); return r; }
  }
  static class Cha {
    final int[] w = new int[16]; final boolean iv12;
    Cha(byte[] key, byte[] iv) {
      byte[] sig = (key.length == 32 ? "expand 32-byte k" : "expand 16-byte k").getBytes();
      for (int i = 0; i < 4; i++) w[i] = le(sig, 4 * i);
      for (int i = 0; i < 8; i++) w[4 + i] = le(key, (4 * i) % key.length);
      iv12 = iv.length == 12; for (int i = 0; i < iv.length / 4; i++) w[16 - iv.length / 4 + i] = le(iv, 4 * i);
    }
    void qr(int[] x, int a, int b, int c, int d) {
      x[a] += x[b]; x[d] = Integer.rotateLeft(x[d] ^ x[a], 16); x[c] += x[d]; x[b] = Integer.rotateLeft(x[b] ^ x[c], 12);
      x[a] += x[b]; x[d] = Integer.rotateLeft(x[d] ^ x[a], 8); x[c] += x[d]; x[b] = Integer.rotateLeft(x[b] ^ x[c], 7);
    }
    void block(byte[] out, int o) {
      int[] x = w.clone();
      for (int i = 0; i < 10; i++) { qr(x,0,4,8,12); qr(x,1,5,9,13); qr(x,2,6,10,14); qr(x,3,7,11,15); qr(x,0,5,10,15); qr(x,1,6,11,12); qr(x,2,7,8,13); qr(x,3,4,9,14); }
      for (int i = 0; i < 16; i++) ule(x[i] + w[i], out, o + 4 * i);
      if (++w[12] == 0 && !iv12) w[13]++;
    }
  }
  static Sink mk(String alg, int sz, byte[] key) {
    try {
      switch (alg) {
        case "md5": return new JDigest("MD5"); case "sha1": return new JDigest("SHA-1");
        case "sha224": return new JDigest("SHA-224"); case "sha256": return new JDigest("SHA-256");
        case "sha384": return new JDigest("SHA-384"); case "sha512": return new JDigest("SHA-512");
        case "sha3": return new JDigest("SHA3-" + sz); case "keccak": return new Keccak(sz, 1);
        case "ripemd160": return new Ripemd();
        case "blake2b": return new B2b(sz / 8, new byte[0]); case "blake2s": return new B2s(sz / 8, new byte[0]); case "blake3": return new B3(sz / 8, new byte[0]);
        case "mac_blake2b": return new B2b(sz / 8, key); case "mac_blake2s": return new B2s(sz / 8, key); case "mac_blake3": return new B3(sz / 8, key);
        case "siphash": return new Sip(8, key); case "siphash128": return new Sip(16, key);
        case "aes_cmac": return new Cmac(key);
        default:
          if (alg.startsWith("hmac_")) { String a = alg.substring(5); return new Hmac(() -> mk(a, 0, null), a.equals("sha384") || a.equals("sha512") ? 128 : 64, key); }
          throw new RuntimeException("BulkOv: " + alg);
      }
    } catch (Exception e) { throw new RuntimeException(e); }
  }
  @TLAPlusOperator(identifier="BulkDigest",module="Bulk",warn=false)
  public static Value digest(Value alg, Value sz, Value key, Value seed, Value n) throws Exception {
    Sink s = mk(((StringValue) alg).val.toString(), in(sz), by(key)); feed(s, in(seed), num(n)); return tv(s.finish());
  }
  /** encryption or decryption of n pattern bytes with a header of h pattern bytes: the tag, then the last bytes of output */
  @TLAPlusOperator(identifier="BulkSeal",module="Bulk",warn=false)
  public static Value seal(Value alg, Value dir, Value key_, Value iv_, Value seed, Value h_, Value n_, Value win) throws Exception {
    byte[] key = by(key_), iv = by(iv_), p = pattern(in(seed)); long h = num(h_), n = num(n_); byte[] out = new byte[P], last = new byte[P];
    boolean dec = ((StringValue) dir).val.toString().equals("dec"); byte[] tag; byte[] len = new byte[16]; long left = n; int k = 0, pk = 0;
    if (((StringValue) alg).val.toString().equals("gcm")) {
      Cipher e = Cipher.getInstance("AES/ECB/NoPadding"); e.init(Cipher.ENCRYPT_MODE, new SecretKeySpec(key, "AES"));
      byte[] H = e.doFinal(new byte[16]), j0;
      if (iv.length == 12) { j0 = java.util.Arrays.copyOf(iv, 16); j0[15] = 1; }
      else { Ghash g = new Ghash(H); g.update(iv, 0, iv.length); g.pad(); ube8(8L * iv.length, len, 8); g.update(len, 0, 16); j0 = g.finish(); }
      byte[] e0 = e.doFinal(j0); Ghash g = new Ghash(H); feed(g, in(seed), h); g.pad();
      long c = be8(j0, 8); byte[] ctr = new byte[P];
      while (left > 0) {
        k = (int) Math.min(left, P); int nb = (k + 15) / 16;
        for (int i = 0; i < nb; i++) { c = (c & 0xffffffff00000000L) | ((c + 1) & 0xffffffffL); System.arraycopy(j0, 0, ctr, 16 * i, 8); ube8(c, ctr, 16 * i + 8); }
        byte[] t = last; last = out; out = t; pk = P;
        e.update(ctr, 0, 16 * nb, out, 0); for (int i = 0; i < k; i++) out[i] ^= p[i];
        g.update(dec ? p : out, 0, k); left -= k;
      }
      g.pad(); ube8(8 * h, len, 0); ube8(8 * n, len, 8); g.update(len, 0, 16); tag = g.finish(); for (int i = 0; i < 16; i++) tag[i] ^= e0[i];
    } else {
      Cha c = new Cha(key, iv); byte[] b0 = new byte[64]; c.block(b0, 0); Poly g = new Poly(java.util.Arrays.copyOf(b0, 32)); feed(g, in(seed), h); g.pad();
      while (left > 0) {
        k = (int) Math.min(left, P); byte[] t = last; last = out; out = t; pk = P;
        for (int i = 0; i < k; i += 64) c.block(out, i);
        for (int i = 0; i < k; i++) out[i] ^= p[i];
        g.update(dec ? p : out, 0, k); left -= k;
      }
      g.pad(); ule8(h, len, 0); ule8(n, len, 8); g.update(len, 0, 16); tag = g.finish();
    }
    int w = (int) Math.min(n, in(win)); byte[] r = new byte[16 + w]; System.arraycopy(tag, 0, r, 0, 16);
    for (int i = 0; i < w; i++) { int q = k - w + i; r[16 + i] = q >= 0 ? out[q] : last[pk + q]; }
    return tv(r);
  }
  /** the ARCfour state after n bytes: the 256 entries, then i and j */
  @TLAPlusOperator(identifier="BulkRC4",module="Bulk",warn=false)
  public static Value rc4(Value S, Value i_, Value j_, Value n_) {
    int[] s = new int[256]; Value[] e = ((TupleValue) S.toTuple()).elems; for (int t = 0; t < 256; t++) s[t] = in(e[t]);
    int i = in(i_), j = in(j_);
    for (long n = num(n_); n > 0; n--) { i = (i + 1) & 255; int a = s[i]; j = (j + a) & 255; s[i] = s[j]; s[j] = a; }
    Value[] r = new Value[258]; for (int t = 0; t < 256; t++) r[t] = IntValue.gen(s[t]); r[256] = IntValue.gen(i); r[257] = IntValue.gen(j); return new TupleValue(r);
  }
}
