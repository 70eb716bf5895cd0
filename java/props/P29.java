// modules: score-util lib bmv/btpblock
import java.math.BigInteger;
import java.nio.charset.StandardCharsets;
import java.util.*;
import score.*;
import sim.*;
/** The BTP block verifier on a source chain of our own: it accepts exactly the next blocks and messages. */
public class P29 {
    static final String CLS = "foundation.icon.btp.bmv.btpblock.BTPMessageVerifier", SRC = "0x1.icon";
    static final BigInteger Z = BigInteger.ZERO;
    static Address ad(String p, int n) { return Address.fromString(p + String.format("%040x", n)); }
    static final Address OWNER = ad("hx", 1), BMC = ad("cx", 2), OTHER = ad("cx", 3), BMV = ad("cx", 4);
    static final String HERE = "btp://0x2.icon/" + BMC, PREV = "btp://" + SRC + "/cx0000000000000000000000000000000000000099";
    static BigInteger bi(long v) { return BigInteger.valueOf(v); }
    static BigInteger key(int i) { return bi(1000 + i); }
    static byte[] h(byte[] m) { return Crypto.keccak256(m); }
    static byte[] cat(byte[] a, byte[] b) { byte[] r = Arrays.copyOf(a, a.length + b.length); System.arraycopy(b, 0, r, a.length, b.length); return r; }

    // ---- the source chain
    record Spec(int msgs, int[] next, int[] dirs) { } // next: validators from the next block on (null: the same)
    static final class Block { // every field of the header
        BigInteger height, round, nid, update, count; byte[] npch, prev, root, npc; List<Object> path = new ArrayList<>(); List<byte[]> msgs = new ArrayList<>(); int[] signers, next;
        Block copy() { Block b = new Block(); b.height = height; b.round = round; b.nid = nid; b.update = update; b.count = count; b.npch = npch; b.prev = prev; b.root = root; b.npc = npc; b.path = new ArrayList<>(path); b.msgs = msgs; b.signers = signers; b.next = next; return b; }
        byte[] header() { return Rlp.enc(Arrays.asList(height, round, npch, path, nid, update, prev, count, root, npc)); }
        byte[] section() { return h(Rlp.enc(Arrays.asList(nid, update, prev, count, root))); }
        byte[] decision(String src, int type) {
            byte[] x = section(); for (Object o : path) { List<?> l = (List<?>) o; byte[] v = (byte[]) l.get(1); x = h(l.get(0).equals(0) ? cat(v, x) : cat(x, v)); }
            return h(Rlp.enc(Arrays.asList(src.getBytes(StandardCharsets.UTF_8), type, height, round, h(Rlp.enc(Arrays.asList(npch, x)))))); }
        byte[] proof(int... who) { byte[] d = decision(SRC, 1); List<Object> l = new ArrayList<>(); for (int w : who) l.add(Crypto.sign(key(w), d)); return Rlp.enc(List.of(l)); }
        byte[] bu(byte[] proof) { return Rlp.enc(Arrays.asList(header(), proof)); }
    }
    static int[] set(int n, int from) { int[] r = new int[n]; for (int i = 0; i < n; i++) r[i] = from + i; return r; }
    static int quorum(int n) { return n * 2 / 3 + 1; }
    static byte[] context(int[] v) { List<Object> l = new ArrayList<>(); for (int i : v) l.add(Crypto.ethAddress(key(i))); return Rlp.enc(List.of(l)); }
    static byte[] root(List<byte[]> hs) { if (hs.isEmpty()) return null; if (hs.size() == 1) return hs.get(0); int k = Integer.highestOneBit(hs.size() - 1); return h(cat(root(hs.subList(0, k)), root(hs.subList(k, hs.size())))); }
    static List<byte[]> hashes(List<byte[]> m) { List<byte[]> r = new ArrayList<>(); for (byte[] x : m) r.add(h(x)); return r; }
    static Block make(Block p, Spec s, int no) {
        Block b = new Block(); b.height = p == null ? bi(10) : p.height.add(bi(7)); b.round = bi(no % 3); b.nid = bi(2); b.signers = p == null ? null : p.next; b.next = s.next != null ? s.next : p.next;
        BigInteger first = p == null ? Z : p.update.shiftRight(1).add(p.count); b.update = first.shiftLeft(1).add(bi(s.next != null ? 1 : 0)); b.prev = p == null ? null : p.section();
        for (int i = 0; i < s.msgs; i++) b.msgs.add(("message " + no + "." + i + (i % 2 == 0 ? "" : " of sixty-four bytes, as long as the two hashes of a branch node..").substring(0, i % 2 == 0 ? 0 : 40)).getBytes(StandardCharsets.UTF_8));
        b.count = bi(s.msgs); b.root = root(hashes(b.msgs)); b.npch = h(context(b.next)); b.npc = s.next != null ? context(b.next) : null;
        for (int i = 0; i < s.dirs.length; i++) b.path.add(Arrays.asList((Object) s.dirs[i], h(new byte[]{(byte) no, (byte) i, 5})));
        return b;
    }
    static List<Block> chain(Spec... s) { List<Block> l = new ArrayList<>(); Block p = null; for (Spec x : s) { p = make(p, x, l.size()); l.add(p); } return l; }
    // ---- proofs of messages
    record PN(int n, byte[] v) { }
    static void cover(List<byte[]> hs, int lo, int hi, int a, int b, List<PN> l, List<PN> r) { // nodes covering [lo,a) and [b,hi)
        if (lo >= a && hi <= b) return;
        if (hi <= a) { l.add(new PN(hi - lo, root(hs.subList(lo, hi)))); return; } if (lo >= b) { r.add(new PN(hi - lo, root(hs.subList(lo, hi)))); return; }
        int k = lo + Integer.highestOneBit(hi - lo - 1); cover(hs, lo, k, a, b, l, r); cover(hs, k, hi, a, b, l, r);
    }
    static byte[] mp(List<PN> l, List<byte[]> m, List<PN> r) { List<Object> x = new ArrayList<>(), y = new ArrayList<>(); for (PN p : l) x.add(Arrays.asList((Object) p.n, p.v)); for (PN p : r) y.add(Arrays.asList((Object) p.n, p.v)); return Rlp.enc(Arrays.asList(x, m, y)); }
    static byte[] mp(Block b, int from, int to) { List<PN> l = new ArrayList<>(), r = new ArrayList<>(); cover(hashes(b.msgs), 0, b.msgs.size(), from, to, l, r); return mp(l, b.msgs.subList(from, to), r); }
    static List<Object> t(int type, byte[] p) { return Arrays.asList((Object) type, p); }
    @SafeVarargs static byte[] rm(List<Object>... x) { return Rlp.enc(List.of(Arrays.asList((Object[]) x))); }

    // ---- the reference and the candidates in a state
    static final int YES = 0, NO = 1, EITHER = 2;
    static final class Cand { String name; byte[] msg; int want, code; int blk, done; List<byte[]> out; Address from = BMC; String bmc = HERE, prev = PREV; int seq = 0; }
    static final class Model implements MC.Model {
        final List<Block> ch; final int off; final World w = new World(); int blk, done; // last block, messages of it handed over
        final Map<String, List<Cand>> memo = new HashMap<>();
        Model(List<Block> ch, int off) { this.ch = ch; this.off = off; w.deploy(BMC, OWNER, (w, m, a) -> null); World.Result r = w.deploy(BMV, OWNER, CLS, SRC, 1, BMC, ch.get(0).header(), bi(off)); if (!r.ok) throw new IllegalStateException("deploy " + r); }
        public Object save() { return new Object[]{w.snap(), blk, done}; }
        public void load(Object o) { w.enter(); Object[] a = (Object[]) o; w.restore((World.Snap) a[0]); blk = (Integer) a[1]; done = (Integer) a[2]; }
        public String key() { StringBuilder b = new StringBuilder(); w.dump(b); return b + " " + blk + " " + done; }
        List<Cand> cands() { return memo.computeIfAbsent(blk + "." + done, k -> build()); }
        public List<String> ops() { List<String> r = new ArrayList<>(); for (Cand c : cands()) r.add(c.name); return r; }
        Cand add(List<Cand> l, String name, int want, byte[] msg) { Cand c = new Cand(); c.name = name + "@" + blk + "." + done; c.want = want; c.msg = msg; c.blk = blk; c.done = done; c.out = new ArrayList<>(); l.add(c); return c; }
        Cand ok(List<Cand> l, String name, byte[] msg, int b, int d, List<byte[]> out) { Cand c = add(l, name, YES, msg); c.blk = b; c.done = d; c.out = out; return c; }
        static int n(Block b) { return b.msgs.size(); }
        List<Cand> build() {
            List<Cand> l = new ArrayList<>(); Block cur = ch.get(blk); int rest = n(cur) - done; Block nx = blk + 1 < ch.size() ? ch.get(blk + 1) : null, nn = blk + 2 < ch.size() ? ch.get(blk + 2) : null;
            ok(l, "nothing", rm(), blk, done, List.of());
            for (int q = done + 1; q <= n(cur); q++) { ok(l, "proof to " + q, rm(t(2, mp(cur, done, q))), blk, q, cur.msgs.subList(done, q)); // what the relay builds writes no nodes as null
                if (q == n(cur) && done == 0) ok(l, "proof of all, null nodes", rm(t(2, Rlp.enc(Arrays.asList(null, cur.msgs, null)))), blk, q, cur.msgs); }
            if (rest > 1) ok(l, "two proofs", rm(t(2, mp(cur, done, done + 1)), t(2, mp(cur, done + 1, n(cur)))), blk, n(cur), cur.msgs.subList(done, n(cur)));
            tamperProof(l, cur);
            // calls that are not the message center's, for another network or out of sequence
            byte[] good = rest > 0 ? rm(t(2, mp(cur, done, done + 1))) : nx != null ? rm(t(1, nx.bu(nx.proof(nx.signers)))) : null;
            if (good != null) {
                add(l, "not the message center", NO, good).from = OTHER; add(l, "for another message center", NO, good).bmc = "btp://0x2.icon/" + OTHER; add(l, "of another network", NO, good).prev = PREV.replace(SRC, "0x3.icon");
                add(l, "seq+1", NO, good).seq = 1; add(l, "seq-1", NO, good).seq = -1;
                add(l, "unknown type", NO, rm(t(3, mp(cur, 0, Math.min(1, n(cur)))))); add(l, "truncated", NO, Arrays.copyOf(good, good.length - 1)); add(l, "good then unknown", NO, Rlp.enc(List.of(cat2(good, t(0, new byte[0])))));
            }
            if (nx != null) {
                List<Object> next = t(1, nx.bu(nx.proof(nx.signers)));
                if (rest > 0) { add(l, "next block too early", NO, rm(next)); List<Object> all = t(2, mp(cur, done, n(cur))); ok(l, "rest and next", rm(all, next), blk + 1, 0, cur.msgs.subList(done, n(cur))); for (int q = 1; q <= n(nx); q++) { List<byte[]> o = new ArrayList<>(cur.msgs.subList(done, n(cur))); o.addAll(nx.msgs.subList(0, q)); ok(l, "rest, next, to " + q, rm(all, next, t(2, mp(nx, 0, q))), blk + 1, q, o); } if (rest > 1) add(l, "part and next", NO, rm(t(2, mp(cur, done, n(cur) - 1)), next)); }
                else {
                    ok(l, "next", rm(next), blk + 1, 0, List.of());
                    for (int q = 1; q <= n(nx); q++) ok(l, "next with " + q, rm(next, t(2, mp(nx, 0, q))), blk + 1, q, nx.msgs.subList(0, q));
                    add(l, "twice", NO, rm(next, next)); add(l, "next with another's messages", n(nx) > 0 ? NO : EITHER, rm(next, t(2, mp(List.of(), List.of("x".getBytes()), List.of()))));
                    if (nn != null) { List<Object> b2 = t(1, nn.bu(nn.proof(nn.signers))); if (n(nx) == 0) ok(l, "next two", rm(next, b2), blk + 2, 0, List.of()); else { ok(l, "next two with messages", rm(next, t(2, mp(nx, 0, n(nx))), b2), blk + 2, 0, nx.msgs); add(l, "next two without", NO, rm(next, b2)); }
                        for (int q = 1; q <= n(nn); q++) if (n(nx) > 0) { List<byte[]> o = new ArrayList<>(nx.msgs); o.addAll(nn.msgs.subList(0, q)); ok(l, "two blocks, messages to " + q, rm(next, t(2, mp(nx, 0, n(nx))), b2, t(2, mp(nn, 0, q))), blk + 2, q, o); } }
                    tamperBlock(l, nx);
                }
            }
            for (int j = 0; j < ch.size(); j++) if (j != blk + 1 && j > 0) { Block o = ch.get(j); Cand c = add(l, "block " + j + " instead", NO, rm(t(1, o.bu(o.proof(o.signers))))); int cmp = o.update.shiftRight(1).compareTo(cur.update.shiftRight(1).add(cur.count)); c.code = cmp < 0 ? 27 : cmp > 0 ? 26 : 0; }
            return l;
        }
        static List<Object> cat2(byte[] rm, List<Object> t) { List<Object> r = new ArrayList<>((List<?>) ((List<?>) Rlp.dec(rm)).get(0)); r.add(t); return r; }
        void tamperBlock(List<Cand> l, Block b) {
            int n = b.signers.length, q = quorum(n);
            for (int mask = 0; mask < 1 << n; mask++) { // every subset of the signatures, in order and reversed
                List<Integer> s = new ArrayList<>(); for (int i = 0; i < n; i++) if ((mask >> i & 1) == 1) s.add(b.signers[i]);
                boolean e = s.size() >= q; if (s.size() < q - 1) continue; int[] a = arr(s); Collections.reverse(s); int[] z = arr(s);
                for (int[] x : Arrays.equals(a, z) ? new int[][]{a} : new int[][]{a, z}) { if (e) ok(l, "signed by " + Arrays.toString(x), rm(t(1, b.bu(b.proof(x)))), blk + 1, 0, List.of()); else { add(l, "signed by " + Arrays.toString(x), NO, rm(t(1, b.bu(b.proof(x)))));
                    if (x.length > 0) { int[] d = Arrays.copyOf(x, n + 1); for (int i = x.length; i <= n; i++) d[i] = x[0]; add(l, "signed again by " + Arrays.toString(d), NO, rm(t(1, b.bu(b.proof(d))))); }
                    int[] f = Arrays.copyOf(x, n); for (int i = x.length; i < n; i++) f[i] = 900 + i; add(l, "signed by strangers " + Arrays.toString(f), NO, rm(t(1, b.bu(b.proof(f))))); } }
            }
            add(l, "no proof", NO, rm(t(1, b.bu(null))));
            // the signatures of the block on a header that differs
            byte[] good = b.proof(b.signers); List<Block> alts = new ArrayList<>(); List<String> what = new ArrayList<>();
            alt(alts, what, b, "height", x -> x.height = x.height.add(bi(1))); alt(alts, what, b, "round", x -> x.round = x.round.add(bi(1))); alt(alts, what, b, "count", x -> x.count = x.count.add(bi(1))); alt(alts, what, b, "update number", x -> x.update = x.update.xor(bi(1))); alt(alts, what, b, "next sn", x -> x.update = x.update.add(bi(2)));
            alt(alts, what, b, "network", x -> x.nid = x.nid.add(bi(1))); alt(alts, what, b, "prev", x -> x.prev = h(new byte[]{1})); alt(alts, what, b, "no prev", x -> x.prev = null); alt(alts, what, b, "root", x -> x.root = h(new byte[]{2})); alt(alts, what, b, "context hash", x -> { x.npch = h(context(set(4, 900))); }); alt(alts, what, b, "own validators", x -> { x.npch = h(context(set(4, 900))); x.npc = context(set(4, 900)); x.update = x.update.or(bi(1)); });
            for (int i = 0; i < b.path.size(); i++) { int k = i; alt(alts, what, b, "path value " + i, x -> x.path.set(k, Arrays.asList(((List<?>) x.path.get(k)).get(0), h(new byte[]{3})))); alt(alts, what, b, "path direction " + i, x -> x.path.set(k, Arrays.asList((Object) (1 - (Integer) ((List<?>) x.path.get(k)).get(0)), ((List<?>) x.path.get(k)).get(1)))); alt(alts, what, b, "path without " + i, x -> x.path.remove(k)); }
            alt(alts, what, b, "path longer", x -> x.path.add(Arrays.asList((Object) 1, h(new byte[]{4})))); if (b.path.size() > 1) alt(alts, what, b, "path swapped", x -> Collections.swap(x.path, 0, 1));
            for (int i = 0; i < alts.size(); i++) { Block x = alts.get(i); if (Arrays.equals(x.decision(SRC, 1), b.decision(SRC, 1)) && Arrays.equals(x.section(), b.section())) continue; add(l, "unsigned change of " + what.get(i), NO, rm(t(1, x.bu(good)))); }
            if (b.npc != null) { alts.clear(); what.clear(); alt(alts, what, b, "other context", x -> x.npc = context(set(4, 900))); alt(alts, what, b, "no context", x -> x.npc = null); for (int i = 0; i < alts.size(); i++) add(l, "announced validators: " + what.get(i), NO, rm(t(1, alts.get(i).bu(good)))); }
            // properly signed blocks of something else
            alts.clear(); what.clear(); alt(alts, what, b, "prev", x -> x.prev = h(new byte[]{1})); alt(alts, what, b, "network", x -> x.nid = x.nid.add(bi(1))); alt(alts, what, b, "next sn", x -> x.update = x.update.add(bi(2))); alt(alts, what, b, "no prev", x -> x.prev = null);
            for (int i = 0; i < alts.size(); i++) { Block x = alts.get(i); add(l, "signed block of other " + what.get(i), NO, rm(t(1, x.bu(x.proof(x.signers))))); }
            for (Object[] o : new Object[][]{{"0x9.icon", 1}, {SRC, 2}}) { byte[] d = b.decision((String) o[0], (Integer) o[1]); List<Object> s = new ArrayList<>(); for (int v : b.signers) s.add(Crypto.sign(P29.key(v), d)); add(l, "decided for " + Arrays.toString(o), NO, rm(t(1, b.bu(Rlp.enc(List.of(s)))))); }
            if (b.next != b.signers && !Arrays.equals(b.next, b.signers)) { long common = Arrays.stream(b.next).filter(v -> Arrays.stream(b.signers).anyMatch(u -> u == v)).count(); if (common < q) add(l, "signed by the validators it announces", NO, rm(t(1, b.bu(b.proof(b.next))))); }
        }
        static int[] arr(List<Integer> l) { int[] r = new int[l.size()]; for (int i = 0; i < r.length; i++) r[i] = l.get(i); return r; }
        static void alt(List<Block> l, List<String> w, Block b, String name, java.util.function.Consumer<Block> f) { Block x = b.copy(); f.accept(x); l.add(x); w.add(name); }
        /** Proofs made of the nodes of the tree with the numbers of leaves, the range and the contents wrong. */
        void tamperProof(List<Cand> l, Block b) {
            int n = n(b); if (n == 0) { add(l, "proof of nothing", NO, rm(t(2, mp(List.of(), List.of("x".getBytes()), List.of())))); return; }
            for (int a = 0; a <= n; a++) for (int q = a + 1; q <= n; q++) if (a != done) add(l, "proof of [" + a + "," + q + ")", NO, rm(t(2, mp(b, a, q))));
            if (done == n) return;
            for (int q = done + 1; q <= n; q++) { List<PN> ls = new ArrayList<>(), rs = new ArrayList<>(); cover(hashes(b.msgs), 0, n, done, q, ls, rs); List<byte[]> m = b.msgs.subList(done, q);
                for (int i = 0; i < m.size(); i++) { List<byte[]> x = new ArrayList<>(m); x.set(i, "forged".getBytes()); add(l, "forged " + i + " to " + q, NO, rm(t(2, mp(ls, x, rs)))); x = new ArrayList<>(m); x.remove(i); add(l, "missing " + i + " to " + q, NO, rm(t(2, mp(ls, x, rs)))); x = new ArrayList<>(m); x.add(i, m.get(i)); add(l, "twice " + i + " to " + q, NO, rm(t(2, mp(ls, x, rs)))); if (i > 0) { x = new ArrayList<>(m); Collections.swap(x, i, i - 1); add(l, "swapped " + i + " to " + q, NO, rm(t(2, mp(ls, x, rs)))); } }
                List<byte[]> y = new ArrayList<>(m); y.add("more".getBytes()); add(l, "more to " + q, NO, rm(t(2, mp(ls, y, rs)))); }
            // every cut of the tree; a run of its nodes is passed off as messages (a branch as the bytes it
            // is the hash of), the others carry every number of leaves
            List<List<int[]>> cuts = cuts(0, n); int id = 0; List<byte[]> hs = hashes(b.msgs);
            for (List<int[]> cut : cuts) for (int i = 0; i <= cut.size(); i++) for (int j = i; j <= cut.size(); j++) {
                int others = cut.size() - (j - i), lim = n + 2; if (others > 3) continue; int total = 1; for (int k = 0; k < others; k++) total *= lim + 1;
                List<byte[]> m = new ArrayList<>(); boolean genuine = true; for (int k = i; k < j; k++) { int[] c = cut.get(k); if (c[1] - c[0] == 1) m.add(b.msgs.get(c[0])); else { int s = c[0] + Integer.highestOneBit(c[1] - c[0] - 1); m.add(cat(root(hs.subList(c[0], s)), root(hs.subList(s, c[1])))); genuine = false; } }
                if (j > i && cut.get(i)[0] != done) genuine = false;
                for (int v = 0; v < total; v++) { int r = v; List<PN> ls = new ArrayList<>(), rs = new ArrayList<>(); for (int k = 0; k < cut.size(); k++) if (k < i || k >= j) { int c = r % (lim + 1) - 1; r /= lim + 1; (k < i ? ls : rs).add(new PN(c, root(hs.subList(cut.get(k)[0], cut.get(k)[1])))); }
                    if (j == i) { if (v % 7 != 0) continue; } Cand c = add(l, "nodes " + blk + "-" + (id++), genuine || j == i ? EITHER : NO, rm(t(2, mp(ls, m, rs)))); if (genuine) { c.out = m; c.done = done + m.size(); } }
            }
        }
        static List<List<int[]>> cuts(int lo, int hi) {
            List<List<int[]>> r = new ArrayList<>(); r.add(List.of(new int[]{lo, hi})); if (hi - lo == 1) return r; int k = lo + Integer.highestOneBit(hi - lo - 1);
            for (List<int[]> a : cuts(lo, k)) for (List<int[]> b : cuts(k, hi)) { List<int[]> x = new ArrayList<>(a); x.addAll(b); r.add(x); } return r; }
        public void apply(String op, MC.Ctx c) {
            Cand x = null; for (Cand y : cands()) if (y.name.equals(op)) x = y; Cand k = x; BigInteger first = ch.get(blk).update.shiftRight(1), seq = bi(off).add(first).add(bi(done));
            World.Result r = w.tx(x.from, BMV, "handleRelayMessage", x.bmc, x.prev, seq.add(bi(x.seq)), x.msg);
            if (x.want == YES) c.check(r.ok, "refused", () -> op + ": " + r); if (x.want == NO) { c.check(!r.ok, "accepted", () -> op); if (x.code > 0 && !r.ok) c.equal("code", x.code, r.code, op + ": code of the refusal"); }
            if (r.ok) { List<String> a = new ArrayList<>(), b = new ArrayList<>(); for (byte[] m : x.out) a.add(Rlp.hex(m)); for (byte[] m : (byte[][]) r.ret) b.add(Rlp.hex(m)); if (x.want != NO) c.equal("messages", a, b, op + ": messages handed over"); if (x.want != NO) { blk = x.blk; done = x.done; } }
            Block cur = ch.get(blk); Map<?, ?> s = (Map<?, ?>) w.query(BMV, "getStatus"); c.equal("status", cur.height, s.get("height"), op + ": height of the verifier");
            c.equal("status", Rlp.hex(Rlp.enc(Arrays.asList(bi(off), cur.update.shiftRight(1), cur.count))), Rlp.hex((byte[]) s.get("extra")), op + ": offset, first message and number of messages of the status");
        }
    }
    static Spec sp(int msgs, int[] next, int... dirs) { return new Spec(msgs, next, dirs); }
    public static void main(String[] args) {
        MC mc = new MC("P29", args); mc.assumptions.add("keccak-256, secp256k1 recovery and RLPn of java/sim; no hash collisions");
        boolean t = mc.thorough; int max = t ? 7 : 5;
        for (int off : new int[]{0, 3}) {
            mc.explore("chain/" + off, () -> new Model(chain(sp(0, set(4, 0)), sp(3, null), sp(0, set(3, 2)), sp(2, null, 0), sp(1, set(1, 9), 0, 1), sp(4, null, 1, 0, 1), sp(0, null, 0, 0)), off), 30, 1_000_000);
            mc.explore("first/" + off, () -> new Model(chain(sp(2, set(2, 0)), sp(0, null, 1, 1), sp(1, null), sp(2, set(2, 5), 1)), off), 30, 1_000_000);
        }
        for (int n = 1; n <= max; n++) { int k = n; mc.explore("messages/" + n, () -> new Model(chain(sp(0, set(1, 0)), sp(k, null), sp(1, null)), 0), 30, 1_000_000); }
        for (int n = 1; n <= (t ? 8 : 7); n++) { int k = n; mc.explore("validators/" + n, () -> new Model(chain(sp(0, set(k, 0)), sp(1, set(k, 1))), 0), 30, 1_000_000); }
        mc.finish();
    }
}
