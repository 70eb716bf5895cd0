package sim;
import java.math.BigInteger;
import java.security.MessageDigest;
import java.util.*;
import java.util.concurrent.ConcurrentHashMap;
import score.Address;
/** The chain's hash and signature functions. */
public final class Crypto {
    private static final long[] RC = new long[24]; private static final int[] ROT = new int[25], PI = new int[25];
    static {
        int r = 1; for (int i = 0; i < 24; i++) { long c = 0; for (int j = 0; j < 7; j++) { if ((r & 1) != 0) c |= 1L << ((1 << j) - 1); r = (r << 1) ^ ((r >> 7) * 0x171); } RC[i] = c; }
        int x = 1, y = 0; for (int t = 0; t < 24; t++) { ROT[x + 5 * y] = ((t + 1) * (t + 2) / 2) % 64; int n = (2 * x + 3 * y) % 5; x = y; y = n; }
    }
    static void f(long[] a) {
        long[] c = new long[5], b = new long[25];
        for (int r = 0; r < 24; r++) {
            for (int x = 0; x < 5; x++) c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
            for (int x = 0; x < 5; x++) { long d = c[(x + 4) % 5] ^ Long.rotateLeft(c[(x + 1) % 5], 1); for (int y = 0; y < 25; y += 5) a[x + y] ^= d; }
            for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) b[y + 5 * ((2 * x + 3 * y) % 5)] = Long.rotateLeft(a[x + 5 * y], ROT[x + 5 * y]);
            for (int x = 0; x < 5; x++) for (int y = 0; y < 25; y += 5) a[x + y] = b[x + y] ^ (~b[(x + 1) % 5 + y] & b[(x + 2) % 5 + y]);
            a[0] ^= RC[r];
        }
    }
    static byte[] keccak(byte[] m, int pad) {
        long[] a = new long[25]; int rate = 136, n = m.length / rate * rate; byte[] last = new byte[rate];
        System.arraycopy(m, n, last, 0, m.length - n); last[m.length - n] |= pad; last[rate - 1] |= (byte) 0x80;
        for (int o = 0; o <= n; o += rate) { byte[] s = o == n ? last : m; int base = o == n ? 0 : o; for (int i = 0; i < rate; i++) a[i / 8] ^= (s[base + i] & 255L) << (8 * (i % 8)); f(a); }
        byte[] out = new byte[32]; for (int i = 0; i < 32; i++) out[i] = (byte) (a[i / 8] >> (8 * (i % 8))); return out;
    }
    public static byte[] keccak256(byte[] m) { return keccak(m, 1); }
    public static byte[] sha3(byte[] m) { return keccak(m, 6); }
    public static byte[] hash(String alg, byte[] m) {
        switch (alg) {
            case "keccak-256": return keccak256(m); case "sha3-256": return sha3(m);
            case "sha-256": try { return MessageDigest.getInstance("SHA-256").digest(m); } catch (Exception e) { throw new RuntimeException(e); }
            default: throw new IllegalArgumentException("unsupported hash " + alg);
        }
    }
    // secp256k1
    static final BigInteger P = new BigInteger("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", 16), N = new BigInteger("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16),
        GX = new BigInteger("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798", 16), GY = new BigInteger("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8", 16);
    static final BigInteger B0 = BigInteger.ZERO, B1 = BigInteger.ONE, B2 = BigInteger.TWO, B3 = BigInteger.valueOf(3), B7 = BigInteger.valueOf(7);
    static final BigInteger[] G = {GX, GY};
    // Jacobian coordinates
    static BigInteger[] dbl(BigInteger[] p) {
        if (p == null || p[1].signum() == 0) return null;
        BigInteger y2 = p[1].multiply(p[1]).mod(P), s = p[0].multiply(y2).shiftLeft(2).mod(P), m = p[0].multiply(p[0]).multiply(B3).mod(P);
        BigInteger x = m.multiply(m).subtract(s.shiftLeft(1)).mod(P), y = m.multiply(s.subtract(x)).subtract(y2.multiply(y2).shiftLeft(3)).mod(P), z = p[1].multiply(p[2]).shiftLeft(1).mod(P);
        return new BigInteger[]{x, y, z};
    }
    static BigInteger[] add(BigInteger[] p, BigInteger[] q) {
        if (p == null) return q; if (q == null) return p;
        BigInteger z1 = p[2].multiply(p[2]).mod(P), z2 = q[2].multiply(q[2]).mod(P), u1 = p[0].multiply(z2).mod(P), u2 = q[0].multiply(z1).mod(P);
        BigInteger s1 = p[1].multiply(z2).multiply(q[2]).mod(P), s2 = q[1].multiply(z1).multiply(p[2]).mod(P);
        if (u1.equals(u2)) return s1.equals(s2) ? dbl(p) : null;
        BigInteger h = u2.subtract(u1), r = s2.subtract(s1), h2 = h.multiply(h).mod(P), h3 = h2.multiply(h).mod(P), v = u1.multiply(h2).mod(P);
        BigInteger x = r.multiply(r).subtract(h3).subtract(v.shiftLeft(1)).mod(P), y = r.multiply(v.subtract(x)).subtract(s1.multiply(h3)).mod(P), z = h.multiply(p[2]).multiply(q[2]).mod(P);
        return new BigInteger[]{x, y, z};
    }
    static BigInteger[] mul(BigInteger[] a, BigInteger k) {
        BigInteger[] p = {a[0], a[1], B1}, r = null;
        for (int i = k.bitLength() - 1; i >= 0; i--) { r = dbl(r); if (k.testBit(i)) r = add(r, p); }
        if (r == null) return null; BigInteger zi = r[2].modInverse(P), z2 = zi.multiply(zi).mod(P);
        return new BigInteger[]{r[0].multiply(z2).mod(P), r[1].multiply(z2).multiply(zi).mod(P)};
    }
    static byte[] b32(BigInteger v) { byte[] b = v.toByteArray(), r = new byte[32]; int n = Math.min(32, b.length); System.arraycopy(b, b.length - n, r, 32 - n, n); return r; }
    public static byte[] pub(BigInteger key) { BigInteger[] q = mul(G, key); byte[] r = new byte[65]; r[0] = 4; System.arraycopy(b32(q[0]), 0, r, 1, 32); System.arraycopy(b32(q[1]), 0, r, 33, 32); return r; }
    /** R | S | V */
    public static byte[] sign(BigInteger key, byte[] h) {
        BigInteger z = new BigInteger(1, h), k = new BigInteger(1, keccak256(Rlp.enc(Arrays.asList(b32(key), h)))).mod(N);
        BigInteger[] q = mul(G, k); BigInteger r = q[0].mod(N), s = k.modInverse(N).multiply(z.add(r.multiply(key))).mod(N); int v = q[1].testBit(0) ? 1 : 0;
        if (s.compareTo(N.shiftRight(1)) > 0) { s = N.subtract(s); v ^= 1; }
        byte[] o = new byte[65]; System.arraycopy(b32(r), 0, o, 0, 32); System.arraycopy(b32(s), 0, o, 32, 32); o[64] = (byte) v; return o;
    }
    private static final Map<String, byte[]> memo = new ConcurrentHashMap<>();
    public static byte[] recoverKey(String alg, byte[] msg, byte[] sig, boolean compressed) {
        if (!alg.equals("ecdsa-secp256k1")) throw new IllegalArgumentException("unsupported " + alg);
        if (msg.length != 32 || sig.length != 65) throw new IllegalArgumentException("bad length");
        String id = Rlp.hex(msg) + Rlp.hex(sig); byte[] m = memo.get(id); if (m == null) { m = recover(msg, sig); memo.put(id, m == null ? new byte[0] : m); }
        if (m == null || m.length == 0) throw new IllegalArgumentException("cannot recover");
        if (!compressed) return m.clone();
        byte[] c = new byte[33]; c[0] = (byte) (2 + (m[64] & 1)); System.arraycopy(m, 1, c, 1, 32); return c;
    }
    static byte[] recover(byte[] msg, byte[] sig) {
        BigInteger r = new BigInteger(1, Arrays.copyOfRange(sig, 0, 32)), s = new BigInteger(1, Arrays.copyOfRange(sig, 32, 64)); int v = sig[64];
        if (v < 0 || v > 3 || r.signum() == 0 || s.signum() == 0 || r.compareTo(N) >= 0 || s.compareTo(N) >= 0) return null;
        BigInteger x = (v & 2) != 0 ? r.add(N) : r; if (x.compareTo(P) >= 0) return null;
        BigInteger a = x.modPow(B3, P).add(B7).mod(P), y = a.modPow(P.add(B1).shiftRight(2), P); if (!y.multiply(y).mod(P).equals(a)) return null;
        if (y.testBit(0) != ((v & 1) != 0)) y = P.subtract(y);
        BigInteger ri = r.modInverse(N), z = new BigInteger(1, msg), u1 = N.subtract(z.mod(N)).multiply(ri).mod(N), u2 = s.multiply(ri).mod(N);
        BigInteger[] p1 = u1.signum() == 0 ? null : mul(G, u1), p2 = mul(new BigInteger[]{x, y}, u2);
        BigInteger[] q = add(p1 == null ? null : new BigInteger[]{p1[0], p1[1], B1}, p2 == null ? null : new BigInteger[]{p2[0], p2[1], B1}); if (q == null) return null;
        BigInteger zi = q[2].modInverse(P), z2 = zi.multiply(zi).mod(P); byte[] o = new byte[65]; o[0] = 4;
        System.arraycopy(b32(q[0].multiply(z2).mod(P)), 0, o, 1, 32); System.arraycopy(b32(q[1].multiply(z2).multiply(zi).mod(P)), 0, o, 33, 32); return o;
    }
    public static boolean verify(String alg, byte[] msg, byte[] sig, byte[] pub) { throw new UnsupportedOperationException(); }
    public static byte[] uncompress(byte[] p) {
        if (p.length == 65) return p; BigInteger x = new BigInteger(1, Arrays.copyOfRange(p, 1, 33)), a = x.modPow(B3, P).add(B7).mod(P), y = a.modPow(P.add(B1).shiftRight(2), P);
        if (y.testBit(0) != (p[0] == 3)) y = P.subtract(y); byte[] o = new byte[65]; o[0] = 4; System.arraycopy(b32(x), 0, o, 1, 32); System.arraycopy(b32(y), 0, o, 33, 32); return o;
    }
    public static Address addressOf(byte[] pub) { byte[] u = uncompress(pub), h = sha3(Arrays.copyOfRange(u, 1, 65)), a = new byte[21]; System.arraycopy(h, 12, a, 1, 20); return new Address(a); }
    public static byte[] ethAddress(BigInteger key) { byte[] u = pub(key); return Arrays.copyOfRange(keccak256(Arrays.copyOfRange(u, 1, 65)), 12, 32); }
}
