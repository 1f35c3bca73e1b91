package vp;

import java.security.MessageDigest;
import javax.crypto.Cipher;
import javax.crypto.spec.SecretKeySpec;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/** Fast evaluation of the hash and block-cipher operators defined in spec/*.tla. */
public class HashOv {
  // ---- Keccak ----
  private static final long[] RC = new long[24];
  private static final int[] ROT = new int[25];

  static {
    int lfsr = 1;
    for (int i = 0; i < 24; i++) {
      for (int j = 0; j < 7; j++) {
        if ((lfsr & 1) != 0) RC[i] |= 1L << ((1 << j) - 1);
        lfsr <<= 1;
        if ((lfsr & 256) != 0) lfsr ^= 0x171;
      }
    }
    int x = 1, y = 0;
    for (int t = 1; t <= 24; t++) {
      ROT[5 * y + x] = (t * (t + 1) / 2) % 64;
      int nx = y, ny = (2 * x + 3 * y) % 5;
      x = nx;
      y = ny;
    }
  }

  private static void keccakF(long[] a) {
    long[] c = new long[5], b = new long[25];
    for (int r = 0; r < 24; r++) {
      for (int x = 0; x < 5; x++) c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
      for (int x = 0; x < 5; x++) {
        long d = c[(x + 4) % 5] ^ Long.rotateLeft(c[(x + 1) % 5], 1);
        for (int y = 0; y < 5; y++) a[5 * y + x] ^= d;
      }
      for (int x = 0; x < 5; x++)
        for (int y = 0; y < 5; y++)
          b[5 * ((2 * x + 3 * y) % 5) + y] = Long.rotateLeft(a[5 * y + x], ROT[5 * y + x]);
      for (int y = 0; y < 5; y++)
        for (int x = 0; x < 5; x++)
          a[5 * y + x] = b[5 * y + x] ^ (~b[5 * y + (x + 1) % 5] & b[5 * y + (x + 2) % 5]);
      a[0] ^= RC[r];
    }
  }

  static byte[] sponge(int rate, int suffix, int outLen, byte[] m) {
    long[] a = new long[25];
    int n = m.length / rate;
    byte[] last = new byte[rate];
    System.arraycopy(m, n * rate, last, 0, m.length - n * rate);
    last[m.length - n * rate] ^= (byte) suffix;
    last[rate - 1] ^= (byte) 0x80;
    for (int k = 0; k <= n; k++) {
      byte[] src = k < n ? m : last;
      int off = k < n ? k * rate : 0;
      for (int i = 0; i < rate; i++) a[i / 8] ^= (src[off + i] & 255L) << (8 * (i % 8));
      keccakF(a);
    }
    byte[] out = new byte[outLen];
    for (int i = 0; i < outLen; i++) out[i] = (byte) (a[i / 8] >>> (8 * (i % 8)));
    return out;
  }

  @TLAPlusOperator(identifier = "Sponge", module = "Keccak", warn = false)
  public static Value spongeOp(Value rate, Value suffix, Value outLen, Value m) {
    return BigNatOv.fromBytes(
        sponge(((IntValue) rate).val, ((IntValue) suffix).val, ((IntValue) outLen).val, BigNatOv.bytes(m)));
  }

  @TLAPlusOperator(identifier = "SHA256", module = "Sha256", warn = false)
  public static Value sha256(Value m) throws Exception {
    return BigNatOv.fromBytes(MessageDigest.getInstance("SHA-256").digest(BigNatOv.bytes(m)));
  }

  // ---- RIPEMD-160 ----
  private static final int[] rl = {
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8, 3, 10,
    14, 4, 9, 15, 8, 1, 2, 7, 0, 6, 13, 11, 5, 12, 1, 9, 11, 10, 0, 8, 12, 4, 13, 3, 7, 15, 14, 5, 6, 2, 4, 0, 5, 9,
    7, 12, 2, 10, 14, 1, 3, 8, 11, 6, 15, 13
  };
  private static final int[] rr = {
    5, 14, 7, 0, 9, 2, 11, 4, 13, 6, 15, 8, 1, 10, 3, 12, 6, 11, 3, 7, 0, 13, 5, 10, 14, 15, 8, 12, 4, 9, 1, 2, 15, 5,
    1, 3, 7, 14, 6, 9, 11, 8, 12, 2, 10, 0, 4, 13, 8, 6, 4, 1, 3, 11, 15, 0, 5, 12, 2, 13, 9, 7, 10, 14, 12, 15, 10, 4,
    1, 5, 8, 7, 6, 2, 13, 14, 0, 3, 9, 11
  };
  private static final int[] sl = {
    11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8, 7, 6, 8, 13, 11, 9, 7, 15, 7, 12, 15, 9, 11, 7, 13, 12, 11,
    13, 6, 7, 14, 9, 13, 15, 14, 8, 13, 6, 5, 12, 7, 5, 11, 12, 14, 15, 14, 15, 9, 8, 9, 14, 5, 6, 8, 6, 5, 12, 9, 15,
    5, 11, 6, 8, 13, 12, 5, 12, 13, 14, 11, 8, 5, 6
  };
  private static final int[] sr = {
    8, 9, 9, 11, 13, 15, 15, 5, 7, 7, 8, 11, 14, 14, 12, 6, 9, 13, 15, 7, 12, 8, 9, 11, 7, 7, 12, 7, 6, 15, 13, 11, 9,
    7, 15, 11, 8, 6, 6, 14, 12, 13, 5, 14, 13, 13, 7, 5, 15, 5, 8, 11, 14, 14, 6, 14, 6, 9, 12, 9, 12, 5, 15, 8, 8, 5,
    12, 9, 12, 5, 14, 6, 8, 13, 6, 5, 15, 13, 11, 11
  };
  private static final int[] kl = {0, 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xa953fd4e};
  private static final int[] kr = {0x50a28be6, 0x5c4dd124, 0x6d703ef3, 0x7a6d76e9, 0};

  private static int f(int j, int x, int y, int z) {
    switch (j) {
      case 0:
        return x ^ y ^ z;
      case 1:
        return (x & y) | (~x & z);
      case 2:
        return (x | ~y) ^ z;
      case 3:
        return (x & z) | (y & ~z);
      default:
        return x ^ (y | ~z);
    }
  }

  private static int[] line(int[] h, int[] x, int[] r, int[] s, int[] k, boolean rev) {
    int a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
    for (int t = 0; t < 80; t++) {
      int j = t / 16;
      int u = Integer.rotateLeft(a + f(rev ? 4 - j : j, b, c, d) + x[r[t]] + k[j], s[t]) + e;
      a = e;
      e = d;
      d = Integer.rotateLeft(c, 10);
      c = b;
      b = u;
    }
    return new int[] {a, b, c, d, e};
  }

  static byte[] ripemd(byte[] m) {
    int n = m.length + 1;
    while (n % 64 != 56) n++;
    byte[] p = java.util.Arrays.copyOf(m, n + 8);
    p[m.length] = (byte) 0x80;
    long bits = 8L * m.length;
    for (int i = 0; i < 8; i++) p[n + i] = (byte) (bits >>> (8 * i));
    int[] h = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0};
    int[] x = new int[16];
    for (int o = 0; o < p.length; o += 64) {
      for (int i = 0; i < 16; i++)
        x[i] =
            (p[o + 4 * i] & 255)
                | (p[o + 4 * i + 1] & 255) << 8
                | (p[o + 4 * i + 2] & 255) << 16
                | (p[o + 4 * i + 3] & 255) << 24;
      int[] l = line(h, x, rl, sl, kl, false), r = line(h, x, rr, sr, kr, true);
      int t = h[1] + l[2] + r[3];
      h[1] = h[2] + l[3] + r[4];
      h[2] = h[3] + l[4] + r[0];
      h[3] = h[4] + l[0] + r[1];
      h[4] = h[0] + l[1] + r[2];
      h[0] = t;
    }
    byte[] out = new byte[20];
    for (int i = 0; i < 20; i++) out[i] = (byte) (h[i / 4] >>> (8 * (i % 4)));
    return out;
  }

  @TLAPlusOperator(identifier = "RIPEMD160", module = "Ripemd160", warn = false)
  public static Value ripemdOp(Value m) {
    return BigNatOv.fromBytes(ripemd(BigNatOv.bytes(m)));
  }

  // ---- AES-256 ----
  private static byte[] aes(int mode, byte[] k, byte[] b) throws Exception {
    Cipher c = Cipher.getInstance("AES/ECB/NoPadding");
    c.init(mode, new SecretKeySpec(k, "AES"));
    return c.doFinal(b);
  }

  @TLAPlusOperator(identifier = "AESEnc", module = "Aes256", warn = false)
  public static Value aesEnc(Value k, Value b) throws Exception {
    return BigNatOv.fromBytes(aes(Cipher.ENCRYPT_MODE, BigNatOv.bytes(k), BigNatOv.bytes(b)));
  }

  @TLAPlusOperator(identifier = "AESDec", module = "Aes256", warn = false)
  public static Value aesDec(Value k, Value b) throws Exception {
    return BigNatOv.fromBytes(aes(Cipher.DECRYPT_MODE, BigNatOv.bytes(k), BigNatOv.bytes(b)));
  }
}
