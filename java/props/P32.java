// modules: score-util lib bmv/bridge
import java.math.BigInteger;
import java.util.*;
import score.*;
import sim.*;
/** The bridge verifier: exactly the next messages of the link, in order, whatever a relay message holds. */
public class P32 implements MC.Model {
    static final String CLS = "foundation.icon.btp.bmv.bridge.BTPMessageVerifier", SRC = "0x7.eth";
    static Address ad(String p, int n) { return Address.fromString(p + String.format("%040x", n)); }
    static final Address OWNER = ad("hx", 1), BMC = ad("cx", 2), OTHER = ad("cx", 3), BMV = ad("cx", 4);
    static final String HERE = "btp://0x2.icon/" + BMC, PREV = "btp://" + SRC + "/0x0000000000000000000000000000000000000099";
    static BigInteger bi(long v) { return BigInteger.valueOf(v); }
    final World w = new World(); long height, seq; final long maxSeq; final List<int[][]> shapes; final List<String> ops = new ArrayList<>();
    P32(int proofs, int events, long off, long maxSeq) {
        this.maxSeq = maxSeq; height = off; w.deploy(BMC, OWNER, (w, m, a) -> null); World.Result r = w.deploy(BMV, OWNER, CLS, BMC, SRC, bi(off)); if (!r.ok) throw new IllegalStateException("deploy " + r);
        // a proof is a height (relative to the verifier's) and events by seq (relative to the next)
        List<int[]> ps = new ArrayList<>(); for (int h = -1; h <= 2; h++) for (int n = 0, c = 1; n <= events; n++, c *= 4) for (int v = 0; v < c; v++) { int[] p = new int[n + 1]; p[0] = h; for (int i = 0, x = v; i < n; i++, x /= 4) p[i + 1] = x % 4 - 1; ps.add(p); }
        shapes = new ArrayList<>(); shapes.add(new int[0][]); List<int[][]> last = Collections.singletonList(new int[0][]);
        for (int k = 0; k < proofs; k++) { List<int[][]> next = new ArrayList<>(); for (int[][] s : last) for (int[] p : ps) { if (k == 2 && p.length > 2) continue; int[][] x = Arrays.copyOf(s, s.length + 1); x[s.length] = p; next.add(x); } shapes.addAll(next); last = next; }
        for (int i = 0; i < shapes.size(); i++) ops.add("m" + i); for (String s : new String[]{"caller", "bmc", "prev", "cut"}) ops.add(s);
    }
    public Object save() { return new Object[]{w.snap(), height, seq}; }
    public void load(Object o) { w.enter(); Object[] a = (Object[]) o; w.restore((World.Snap) a[0]); height = (Long) a[1]; seq = (Long) a[2]; }
    public String key() { StringBuilder b = new StringBuilder(); w.dump(b); return b + " " + height + " " + seq; }
    public List<String> ops() { return seq >= maxSeq ? List.of() : ops; }
    byte[] message(int[][] s) { List<Object> l = new ArrayList<>(); for (int i = 0; i < s.length; i++) { List<Object> ev = new ArrayList<>(); for (int j = 1; j < s[i].length; j++) ev.add(Arrays.asList((Object) HERE, bi(seq + 1 + s[i][j]), ("m" + (seq + 1 + s[i][j])).getBytes())); l.add(Rlp.enc(Arrays.asList((Object) 0, Rlp.enc(ev), bi(height + s[i][0])))); } return Rlp.enc(List.of(l)); }
    public void apply(String op, MC.Ctx c) {
        boolean bad = !op.startsWith("m"); int[][] s = bad ? new int[][]{{0, 0}} : shapes.get(Integer.parseInt(op.substring(1))); byte[] m = message(s); if (op.equals("cut")) m = Arrays.copyOf(m, m.length - 1);
        World.Result r = w.tx(op.equals("caller") ? OTHER : BMC, BMV, "handleRelayMessage", op.equals("bmc") ? "btp://0x2.icon/" + OTHER : HERE, op.equals("prev") ? PREV.replace(SRC, "0x8.eth") : PREV, bi(seq), m);
        String what = Arrays.deepToString(s) + " at height " + height + ", seq " + seq;
        if (bad) c.check(!r.ok, "accepted", () -> op + ": " + what);
        else {
            long h = height, n = seq; List<String> out = new ArrayList<>(); boolean gap = false; for (int[] p : s) { if (height + p[0] < h) continue; h = height + p[0]; for (int j = 1; j < p.length && !gap; j++) { long q = seq + 1 + p[j]; if (q > n + 1) gap = true; else if (q == n + 1) { out.add("m" + q); n++; } } if (gap) break; }
            if (gap) { c.check(!r.ok, "accepted", () -> "a gap: " + what); if (!r.ok) c.equal("code", 26, r.code, "code of the refusal of a gap: " + what); }
            else { c.check(r.ok, "refused", () -> what + ": " + r); if (r.ok) { List<String> got = new ArrayList<>(); for (byte[] b : (byte[][]) r.ret) got.add(b == null ? "null" : new String(b)); c.equal("messages", out, got, what); height = h; seq = n; } }
        }
        c.equal("height", height, ((Map<?, ?>) w.query(BMV, "getStatus")).get("height"), "height after " + what);
    }
    public static void main(String[] args) {
        MC mc = new MC("P32", args); mc.assumptions.add("RLPn and calls of java/sim; the relay is trusted by design of this verifier");
        mc.explore("two proofs", () -> new P32(2, 2, 10, 4), 10, 1_000_000);
        mc.explore("three proofs", () -> new P32(mc.thorough ? 3 : 2, mc.thorough ? 2 : 1, 0, 3), 10, 1_000_000);
        mc.explore("one proof", () -> new P32(1, mc.thorough ? 5 : 4, 10, 8), 10, 1_000_000);
        mc.finish();
    }
}
