// modules: score-util lib bmv/icon
import java.math.BigInteger;
import java.nio.charset.StandardCharsets;
import java.util.*;
import java.util.function.Consumer;
import score.*;
import sim.*;
/** The ICON block verifier on a source chain of our own: voted blocks, proven receipts and events, nothing else. */
public class P36 {
    static final String CLS = "foundation.icon.btp.bmv.icon.BTPMessageVerifier", SRC = "0x1.icon";
    static Address ad(String p, int n) { return Address.fromString(p + String.format("%040x", n)); }
    static final Address OWNER = ad("hx", 1), BMC = ad("cx", 2), OTHER = ad("cx", 3), BMV = ad("cx", 4), SRCBMC = ad("cx", 0x99), TOKEN = ad("cx", 0x98);
    static final String HERE = "btp://0x2.icon/" + BMC, PREV = "btp://" + SRC + "/" + SRCBMC, ELSEWHERE = "btp://0x3.icon/" + BMC;
    static BigInteger bi(long v) { return BigInteger.valueOf(v); }
    static BigInteger key(int i) { return bi(2000 + i); }
    static final Map<Integer, Address> addrs = new HashMap<>();
    static synchronized Address val(int i) { return addrs.computeIfAbsent(i, k -> Crypto.addressOf(Crypto.pub(key(k)))); }
    static byte[] h(byte[] m) { return Crypto.sha3(m); }
    static byte[] u(String s) { return s.getBytes(StandardCharsets.UTF_8); }
    static byte[] cat(byte[] a, byte[] b) { byte[] r = Arrays.copyOf(a, a.length + b.length); System.arraycopy(b, 0, r, a.length, b.length); return r; }
    static List<Object> list(Object... x) { return new ArrayList<>(Arrays.asList(x)); }

    // ---- Merkle Patricia trie over the encoded index
    static final class Trie {
        final List<byte[]> vals; final byte[] root; final Map<String, byte[]> nodes = new HashMap<>();
        Trie(List<byte[]> vals) { this.vals = vals; List<int[]> ks = new ArrayList<>(); for (int i = 0; i < vals.size(); i++) ks.add(nib(Rlp.enc(i))); List<Integer> all = new ArrayList<>(); for (int i = 0; i < vals.size(); i++) all.add(i); root = vals.isEmpty() ? null : h(node(ks, all, 0)); }
        static int[] nib(byte[] k) { int[] r = new int[k.length * 2]; for (int i = 0; i < k.length; i++) { r[2 * i] = k[i] >> 4 & 15; r[2 * i + 1] = k[i] & 15; } return r; }
        static byte[] hp(int[] k, int from, int to, boolean leaf) { int n = to - from, o = n % 2; byte[] r = new byte[1 + n / 2]; r[0] = (byte) ((leaf ? 0x20 : 0) + (o == 1 ? 0x10 + k[from] : 0)); for (int i = from + o, j = 1; i < to; i += 2, j++) r[j] = (byte) (k[i] << 4 | k[i + 1]); return r; }
        byte[] put(Object o) { byte[] b = Rlp.enc(o); nodes.put(Rlp.hex(h(b)), b); return b; }
        byte[] node(List<int[]> ks, List<Integer> in, int at) {
            if (in.size() == 1) { int[] k = ks.get(in.get(0)); return put(list(hp(k, at, k.length, true), vals.get(in.get(0)))); }
            int c = at; int[] f = ks.get(in.get(0)); for (boolean same = true; same; ) { for (int i : in) if (ks.get(i).length <= c || ks.get(i)[c] != f[c]) same = false; if (same) c++; }
            if (c > at) return put(list(hp(f, at, c, false), h(node(ks, in, c))));
            List<Object> l = new ArrayList<>(); for (int n = 0; n < 16; n++) { List<Integer> s = new ArrayList<>(); for (int i : in) if (ks.get(i)[at] == n) s.add(i); l.add(s.isEmpty() ? new byte[0] : h(node(ks, s, at + 1))); } l.add(new byte[0]); return put(l); }
        List<byte[]> proof(int i) { List<byte[]> r = new ArrayList<>(); int[] k = nib(Rlp.enc(i)); int at = 0; byte[] x = root;
            while (true) { byte[] b = nodes.get(Rlp.hex(x)); r.add(b); List<?> l = (List<?>) Rlp.dec(b); if (l.size() == 17) { x = (byte[]) l.get(k[at++]); continue; } byte[] p = (byte[]) l.get(0); if ((p[0] & 0x20) != 0) return r; at += (p.length - 1) * 2 + (p[0] >> 4 & 1); x = (byte[]) l.get(1); } }
    }
    // ---- the source chain
    record Ev(Address from, String sig, String next, int seq, byte[] msg) { byte[] enc() { List<Object> ix = list(u(sig)), d = list(); if (next != null) { ix.add(u(next)); ix.add(bi(seq).toByteArray()); d.add(msg); } else d.add(u("a value of an event that is not a message of the bridge")); return Rlp.enc(list(from, ix, d)); } boolean ours() { return from.equals(SRCBMC) && sig.equals("Message(str,int,bytes)") && HERE.equals(next); } }
    static Ev m(int seq) { return new Ev(SRCBMC, "Message(str,int,bytes)", HERE, seq, u("message " + seq)); }
    static Ev other(int seq) { return new Ev(SRCBMC, "Message(str,int,bytes)", ELSEWHERE, seq, u("elsewhere " + seq)); }
    static Ev fake(int seq) { return new Ev(TOKEN, "Message(str,int,bytes)", HERE, seq, u("forged " + seq)); }
    static Ev noise() { return new Ev(SRCBMC, "MessageDropped(str,int,bytes)", HERE, 1, u("dropped")); }
    static Ev log() { return new Ev(SRCBMC, "Transfer(Address)", null, 0, null); }
    static final class Rcpt { final List<Ev> evs; final Trie logs; final byte[] bytes; final boolean inline;
        Rcpt(boolean inline, int no, Ev... e) { this.inline = inline; evs = List.of(e); List<byte[]> x = new ArrayList<>(); for (Ev v : e) x.add(v.enc()); logs = new Trie(inline ? List.of() : x); bytes = Rlp.enc(list(no % 2, ad("cx", 7).toByteArray(), new byte[]{1, 2}, new byte[]{3}, new byte[]{4}, null, inline ? new ArrayList<>(x) : list(), null, logs.root)); } }
    static final class Block {
        long version = 2, height, ts; Address proposer; byte[] prev, vote, next, patch, tx, bloom; List<Object> result; int[] signers, nextSet; List<Rcpt> rcpts; Trie trie; long round; List<Object> part;
        Block copy() { Block b = new Block(); b.version = version; b.height = height; b.ts = ts; b.proposer = proposer; b.prev = prev; b.vote = vote; b.next = next; b.patch = patch; b.tx = tx; b.bloom = bloom; b.result = result == null ? null : new ArrayList<>(result); b.signers = signers; b.nextSet = nextSet; b.rcpts = rcpts; b.trie = trie; b.round = round; b.part = part; return b; }
        byte[] header() { return Rlp.enc(list(version, height, ts, proposer, prev, vote, next, patch, tx, bloom, result == null ? null : Rlp.enc(result))); }
        byte[] hash() { return h(header()); }
        byte[] vote(int who, long ts, long height, long round, int type, byte[] id, Object part) { return Crypto.sign(key(who), h(Rlp.enc(list(height, round, type, id, part, ts)))); }
        List<Object> votes(int... who) { List<Object> l = new ArrayList<>(); for (int w : who) { long t = ts + 10 + w; l.add(list(t, vote(w, t, height, round, 1, hash(), part))); } return list(round, part, l); }
        byte[] bu(List<Object> votes, int[] nv) { return Rlp.enc(list(header(), votes == null ? null : Rlp.enc(votes), nv == null ? null : context(nv))); }
        byte[] bu() { return bu(votes(signers), nextSet); }
        int no(int off) { return (int) height - off; }
    }
    static byte[] context(int[] v) { List<Object> l = new ArrayList<>(); for (int i : v) l.add(val(i)); return Rlp.enc(l); }
    static String csv(int[] v) { StringJoiner s = new StringJoiner(","); for (int i : v) s.add(val(i).toString()); return s.toString(); }
    static int[] set(int n, int from) { int[] r = new int[n]; for (int i = 0; i < n; i++) r[i] = from + i; return r; }
    record Spec(int[] next, Rcpt[] rcpts) { } // next: the validators from the following block on, null: the same
    static Spec sp(int[] next, Rcpt... r) { return new Spec(next, r); }
    static Rcpt rc(Ev... e) { return new Rcpt(false, e.length, e); }
    static Rcpt in(Ev... e) { return new Rcpt(true, e.length, e); }
    static List<Block> chain(int off, int[] first, Spec... s) {
        List<Block> l = new ArrayList<>(); int[] cur = first; byte[] prev = h(u("before"));
        for (int i = 0; i < s.length; i++) {
            Block b = new Block(); b.height = off + 1 + i; b.ts = 1_600_000_000_000_000L + i; b.proposer = i % 2 == 0 ? val(cur[0]) : null; b.prev = prev; b.vote = i % 3 == 0 ? null : h(u("votes " + i)); b.signers = cur; b.nextSet = s[i].next; int[] nx = s[i].next == null ? cur : s[i].next; b.next = h(context(nx));
            b.tx = i % 2 == 0 ? h(u("tx " + i)) : null; b.bloom = i % 2 == 0 ? new byte[]{1} : new byte[0]; b.rcpts = List.of(s[i].rcpts); List<byte[]> v = new ArrayList<>(); for (Rcpt r : b.rcpts) v.add(r.bytes); b.trie = new Trie(v);
            if (!b.rcpts.isEmpty() || i % 2 == 0) { b.result = list(h(u("state " + i)), null, b.trie.root); if (i % 3 == 1) b.result.add(Rlp.enc(list(h(u("x")), null))); }
            b.round = i % 2; b.part = list((long) (1 + i), h(u("parts " + i))); l.add(b); prev = b.hash(); cur = nx;
        }
        return l;
    }
    // the accumulator: the hash of each full subtree; witness of leaf i when n leaves were added
    static byte[] sub(List<Block> c, int lo, int n) { return n == 1 ? c.get(lo).hash() : h(cat(sub(c, lo, n / 2), sub(c, lo + n / 2, n / 2))); }
    static List<Object> witness(List<Block> c, int i, int n) {
        int lo = 0; for (int k = Integer.highestOneBit(n); k > 0; k >>= 1) { if ((n & k) == 0) continue; if (i < lo + k) { List<Object> w = new ArrayList<>(); for (int s = 1; s < k; s *= 2) { int b = (i - lo) / s; w.add(sub(c, lo + (b ^ 1) * s, s)); } return w; } lo += k; }
        throw new IllegalStateException(); }
    static byte[] bp(Block b, long at, List<Object> w) { return Rlp.enc(list(b.header(), w == null ? null : list(at, w))); }
    // ---- proofs of receipts
    record Pick(int rcpt, int[] evs) { public String toString() { return rcpt + (evs == null ? "" : Arrays.toString(evs)); } } // evs null: the logs of the receipt itself
    static byte[] pf(List<byte[]> p) { return Rlp.enc(new ArrayList<Object>(p)); }
    static byte[] rp(Block b, Pick p) { Rcpt r = b.rcpts.get(p.rcpt); List<Object> l = null; if (p.evs != null) { l = new ArrayList<>(); for (int e : p.evs) l.add(list((long) e, pf(r.logs.proof(e)))); } return Rlp.enc(list((long) p.rcpt, pf(b.trie.proof(p.rcpt)), l)); }
    static byte[] rm(List<byte[]> bus, byte[] bp, List<byte[]> rps) { return Rlp.enc(list(bus == null ? null : new ArrayList<Object>(bus), bp, rps == null ? null : new ArrayList<Object>(rps))); }
    static List<byte[]> rps(Block b, List<Pick> ps) { List<byte[]> r = new ArrayList<>(); for (Pick p : ps) r.add(rp(b, p)); return r; }

    static final int YES = 0, NO = 1;
    static final class Cand { String name; byte[] msg; int want, code, h, seq, ds; boolean moved; List<byte[]> out = List.of(); Address from = BMC; String bmc = HERE, prev = PREV; }
    static final class Model implements MC.Model {
        final List<Block> ch; final int off; final World w = new World(); int hgt, seq, last; // blocks known, messages handed over, block of the last message
        final Map<String, List<Cand>> memo = new HashMap<>();
        Model(List<Block> ch, int off, int[] first) { this.ch = ch; this.off = off; last = off; w.deploy(BMC, OWNER, (w, m, a) -> null); World.Result r = w.deploy(BMV, OWNER, CLS, BMC, SRC, csv(first), (long) off); if (!r.ok) throw new IllegalStateException("deploy " + r); }
        public Object save() { return new Object[]{w.snap(), hgt, seq, last}; }
        public void load(Object o) { w.enter(); Object[] a = (Object[]) o; w.restore((World.Snap) a[0]); hgt = (Integer) a[1]; seq = (Integer) a[2]; last = (Integer) a[3]; }
        public String key() { StringBuilder b = new StringBuilder(); w.dump(b); return b + " " + hgt + " " + seq; }
        final Set<String> names = new HashSet<>();
        List<Cand> cands() { return memo.computeIfAbsent(hgt + "." + seq, k -> build()); }
        public List<String> ops() { List<String> r = new ArrayList<>(); for (Cand c : cands()) r.add(c.name); return r; }
        Cand add(List<Cand> l, String name, int want, int code, byte[] msg) { Cand c = new Cand(); while (!names.add(name)) name += "'"; c.name = name + "@" + hgt + "." + seq; c.want = want; c.code = code; c.msg = msg; c.h = hgt; c.seq = seq; l.add(c); return c; }
        Cand no(List<Cand> l, String name, byte[] msg) { return add(l, name, NO, 0, msg); }
        Cand ok(List<Cand> l, String name, int h, byte[] msg) { Cand c = add(l, name, YES, 0, msg); c.h = h; return c; }
        /** receipts of b picked in that order: what the reference expects */
        void deliver(List<Cand> l, String name, int h, Block b, List<Pick> ps, List<byte[]> bus, byte[] bp) {
            int s = seq; List<byte[]> out = new ArrayList<>(); int code = 0;
            for (Pick p : ps) { Rcpt r = b.rcpts.get(p.rcpt); List<Ev> es = new ArrayList<>(); if (p.evs == null) { if (r.inline) es = r.evs; } else for (int e : p.evs) es.add(r.evs.get(e)); for (Ev e : es) if (e.ours() && code == 0) { if (e.seq == s + 1) { out.add(e.msg); s++; } else code = e.seq > s + 1 ? 32 : 28; } }
            Cand c = add(l, name + " " + ps, code == 0 ? YES : NO, code, rm(bus, bp, rps(b, ps))); if (code == 0) { c.h = h; c.out = out; c.seq = s; c.moved = !out.isEmpty(); c.ds = (int) b.height; }
        }
        static List<int[]> orders(List<Integer> n, int max) { List<int[]> r = new ArrayList<>(); r.add(new int[0]); List<int[]> cur = List.of(new int[0]); for (int k = 1; k <= max; k++) { List<int[]> nx = new ArrayList<>(); for (int[] a : cur) for (int x : n) { int[] b = Arrays.copyOf(a, k); b[k - 1] = x; nx.add(b); } r.addAll(nx); cur = nx; } return r; }
        /** the receipts and events worth picking: those around ours and the ends */
        static List<Integer> some(int n, java.util.function.IntPredicate f) { List<Integer> r = new ArrayList<>(); for (int i = 0; i < n; i++) if (n <= 3 || i == 0 || i == n - 1 || f.test(i)) r.add(i); return r; }
        static List<List<Pick>> picks(Block b) {
            List<Pick> one = new ArrayList<>(); int nr = b.rcpts.size();
            for (int i : some(nr, i -> b.rcpts.get(i).evs.stream().anyMatch(Ev::ours))) { Rcpt r = b.rcpts.get(i); if (r.inline) { one.add(new Pick(i, null)); continue; } one.add(new Pick(i, null)); int ne = r.evs.size(); for (int[] o : orders(some(ne, e -> r.evs.get(e).ours()), ne <= 4 ? 2 : 1)) one.add(new Pick(i, o)); if (ne > 2) one.add(new Pick(i, set(ne, 0))); }
            List<List<Pick>> out = new ArrayList<>(); out.add(List.of()); for (Pick p : one) out.add(List.of(p)); 
            List<Pick> full = new ArrayList<>(); for (int i = 0; i < nr; i++) { Rcpt r = b.rcpts.get(i); full.add(new Pick(i, r.inline ? null : set(r.evs.size(), 0))); }
            if (nr > 1 && nr <= 20) { out.add(full); List<Pick> z = new ArrayList<>(full); Collections.reverse(z); out.add(z); }
            if (nr <= 3) for (Pick p : one) for (Pick q : full) { out.add(List.of(p, q)); } else for (Pick p : full) if (p.evs != null && p.evs.length > 0 && b.rcpts.get(p.rcpt).evs.get(0).ours()) for (Pick q : full) if (q.evs != null && q.evs.length > 0 && b.rcpts.get(q.rcpt).evs.get(0).ours()) out.add(List.of(p, q));
            Map<String, List<Pick>> u = new LinkedHashMap<>(); for (List<Pick> p : out) u.putIfAbsent(p.toString(), p); return new ArrayList<>(u.values()); }
        List<Cand> build() {
            List<Cand> l = new ArrayList<>(); names.clear(); Block nx = hgt < ch.size() ? ch.get(hgt) : null;
            no(l, "nothing", rm(null, null, null)); no(l, "no updates", rm(List.of(), null, List.of()));
            // updates, alone and with the receipts of the last of them
            List<byte[]> bus = new ArrayList<>();
            for (int k = hgt; k < Math.min(hgt + 3, ch.size()); k++) { Block b = ch.get(k); bus = new ArrayList<>(bus); bus.add(b.bu()); ok(l, "blocks to " + b.height, k + 1, rm(bus, null, null)); if (k < hgt + 2) for (List<Pick> p : picks(b)) deliver(l, "blocks to " + b.height, k + 1, b, p, bus, null); }
            for (int j = 0; j < ch.size(); j++) if (j != hgt) { Block b = ch.get(j); add(l, "block " + b.height + " instead", NO, j > hgt ? 33 : 34, rm(List.of(b.bu()), null, null)); }
            if (nx != null) {
                add(l, "twice", NO, 34, rm(List.of(nx.bu(), nx.bu()), null, null)); if (hgt + 2 < ch.size()) add(l, "a gap", NO, 33, rm(List.of(nx.bu(), ch.get(hgt + 2).bu()), null, null));
                votes(l, nx); headers(l, nx); byte[] good = rm(List.of(nx.bu()), null, null);
                no(l, "not the message center", good).from = OTHER; no(l, "for another message center", good).bmc = "btp://0x2.icon/" + OTHER; no(l, "of another network", good).prev = PREV.replace(SRC, "0x3.icon"); no(l, "truncated", Arrays.copyOf(good, good.length - 1));
            }
            // blocks already known, by witness
            for (int j = 0; j < ch.size(); j++) {
                Block b = ch.get(j);
                if (j >= hgt) { if (hgt > 0) { add(l, "proof of the unknown block " + b.height, NO, 35, rm(null, bp(b, off + hgt, witness(ch, 0, hgt)), null)); add(l, "proof of the unknown block, newer " + b.height, NO, 35, rm(null, bp(b, off + ch.size(), witness(ch, j, ch.size())), null)); } else add(l, "proof of the unknown block " + b.height, NO, 35, rm(null, bp(b, off, List.of()), null)); continue; }
                List<Object> wt = witness(ch, j, hgt); byte[] good = bp(b, off + hgt, wt); ok(l, "known " + b.height, hgt, rm(null, good, null)); for (List<Pick> p : picks(b)) deliver(l, "known " + b.height, hgt, b, p, null, good);
                no(l, "no witness " + b.height, rm(null, bp(b, 0, null), null));
                for (int n = j + 1; n <= ch.size(); n++) if (n != hgt) { Cand c = no(l, "witness of " + (off + n) + " for " + b.height, rm(null, bp(b, off + n, witness(ch, j, n)), null)); c.code = n < hgt ? 36 : 31; }
                for (int i = 0; i < wt.size(); i++) { int k = i; wit(l, b, "value " + i, wt, x -> x.set(k, h(u("no")))); wit(l, b, "without " + i, wt, x -> x.remove(k)); if (i > 0) wit(l, b, "swapped " + i, wt, x -> Collections.swap(x, k, k - 1)); }
                wit(l, b, "longer", wt, x -> x.add(h(u("no")))); for (int o = 0; o < hgt; o++) if (o != j) { List<Object> ow = witness(ch, o, hgt); if (!same(ow, wt)) wit(l, b, "of " + ch.get(o).height, wt, x -> { x.clear(); x.addAll(ow); }); }
                for (Map.Entry<String, Block> e : alts(b).entrySet()) no(l, "known " + b.height + " with " + e.getKey(), rm(null, bp(e.getValue(), off + hgt, wt), null));
                if (b.height == off + hgt || b.height == last) proofs(l, b, null, good);
            }
            if (nx != null && !nx.rcpts.isEmpty()) proofs(l, nx, List.of(nx.bu()), null);
            return l;
        }
        static boolean same(List<Object> a, List<Object> b) { if (a.size() != b.size()) return false; for (int i = 0; i < a.size(); i++) if (!Arrays.equals((byte[]) a.get(i), (byte[]) b.get(i))) return false; return true; }
        void wit(List<Cand> l, Block b, String what, List<Object> w, Consumer<List<Object>> f) { List<Object> x = new ArrayList<>(w); f.accept(x); no(l, "witness of " + b.height + ": " + what, rm(null, bp(b, off + hgt, x), null)); }
        void alt(Map<String, Block> m, Block b, String what, Consumer<Block> f) { Block x = b.copy(); f.accept(x); if (!Arrays.equals(x.header(), b.header())) m.put(what, x); }
        Map<String, Block> alts(Block b) {
            Map<String, Block> m = new LinkedHashMap<>();
            alt(m, b, "version", x -> x.version++); alt(m, b, "timestamp", x -> x.ts++); alt(m, b, "proposer", x -> x.proposer = val(77)); alt(m, b, "no proposer", x -> x.proposer = null); alt(m, b, "prev", x -> x.prev = h(u("no"))); alt(m, b, "vote hash", x -> x.vote = h(u("no"))); alt(m, b, "next validators", x -> x.next = h(context(set(4, 900)))); alt(m, b, "patch", x -> x.patch = h(u("no"))); alt(m, b, "tx", x -> x.tx = h(u("no"))); alt(m, b, "bloom", x -> x.bloom = new byte[]{9}); alt(m, b, "no result", x -> x.result = null);
            if (b.result != null) { for (int i = 0; i < b.result.size(); i++) { int k = i; if (i < 3) alt(m, b, "result " + i, x -> x.result.set(k, h(u("no")))); else alt(m, b, "extension", x -> x.result.set(k, Rlp.enc(list(h(u("y")), null)))); } if (b.result.size() == 3) alt(m, b, "added extension", x -> x.result.add(Rlp.enc(list((Object) null)))); }
            return m; }
        void votes(List<Cand> l, Block b) {
            int n = b.signers.length, q = n * 2 / 3 + 1;
            for (int mask = 0; mask < 1 << n; mask++) {
                List<Integer> s = new ArrayList<>(); for (int i = 0; i < n; i++) if ((mask >> i & 1) == 1) s.add(b.signers[i]); if (s.size() < q - 1) continue; int[] a = s.stream().mapToInt(x -> x).toArray(); Collections.reverse(s); int[] z = s.stream().mapToInt(x -> x).toArray();
                for (int[] x : Arrays.equals(a, z) ? new int[][]{a} : new int[][]{a, z}) { String nm = "voted by " + Arrays.toString(x); byte[] m = rm(List.of(b.bu(b.votes(x), b.nextSet)), null, null); if (x.length >= q) ok(l, nm, hgt + 1, m); else { add(l, nm, NO, 27, m);
                    if (x.length > 0) { int[] d = Arrays.copyOf(x, n + 1); for (int i = x.length; i <= n; i++) d[i] = x[0]; add(l, nm + " again", NO, 27, rm(List.of(b.bu(b.votes(d), b.nextSet)), null, null)); List<Object> v = b.votes(x); List<Object> it = cp(v.get(2)); for (int i = x.length; i <= n; i++) { long t = 99 + i; it.add(list(t, b.vote(x[0], t, b.height, b.round, 1, b.hash(), b.part))); } v.set(2, it); add(l, nm + " again at other times", NO, 27, rm(List.of(b.bu(v, b.nextSet)), null, null)); }
                    int[] f = Arrays.copyOf(x, n); for (int i = x.length; i < n; i++) f[i] = 900 + i; add(l, nm + " and strangers", NO, 27, rm(List.of(b.bu(b.votes(f), b.nextSet)), null, null)); } }
            }
            add(l, "without votes", NO, 29, rm(List.of(b.bu(null, b.nextSet)), null, null)); int[] all = b.signers;
            // votes for something else
            tv(l, b, "round", v -> v.set(0, b.round + 1)); tv(l, b, "part count", v -> v.set(1, list(77L, ((List<?>) b.part).get(1)))); tv(l, b, "part hash", v -> v.set(1, list(((List<?>) b.part).get(0), h(u("no"))))); tv(l, b, "no part set", v -> v.set(1, null)); tv(l, b, "a timestamp", v -> { List<Object> it = cp(v.get(2)); it.set(0, list(1L, ((List<?>) it.get(0)).get(1))); v.set(2, it); });
            for (int kind = 0; kind < 6; kind++) { List<Object> it = new ArrayList<>(); for (int s : all) { long t = b.ts + s; it.add(list(t, b.vote(s, t, kind == 0 ? b.height + 1 : b.height, kind == 1 ? b.round + 1 : b.round, kind == 2 ? 0 : 1, kind == 3 ? h(u("no")) : kind == 4 ? null : b.hash(), kind == 5 ? null : b.part))); } add(l, "votes of kind " + kind, NO, 27, rm(List.of(b.bu(list(b.round, b.part, it), b.nextSet)), null, null)); }
            // the validators that follow
            if (b.nextSet != null) { add(l, "no next validators", NO, 29, rm(List.of(b.bu(b.votes(all), null)), null, null)); for (int[] v : new int[][]{b.signers, set(4, 900), Arrays.copyOf(b.nextSet, b.nextSet.length - 1), {}}) if (!Arrays.equals(v, b.nextSet)) add(l, "next validators " + Arrays.toString(v), NO, 29, rm(List.of(b.bu(b.votes(all), v)), null, null)); int[] z = b.nextSet.clone(); if (z.length > 1) { int x = z[0]; z[0] = z[1]; z[1] = x; add(l, "next validators swapped", NO, 29, rm(List.of(b.bu(b.votes(all), z)), null, null)); } }
            else for (int[] v : new int[][]{b.signers, set(4, 900)}) ok(l, "validators added " + Arrays.toString(v), hgt + 1, rm(List.of(b.bu(b.votes(all), v)), null, null));
        }
        @SuppressWarnings("unchecked") static List<Object> cp(Object o) { return new ArrayList<>((List<Object>) o); }
        void tv(List<Cand> l, Block b, String what, Consumer<List<Object>> f) { List<Object> v = b.votes(b.signers); f.accept(v); add(l, "votes with another " + what, NO, 27, rm(List.of(b.bu(v, b.nextSet)), null, null)); }
        void headers(List<Cand> l, Block b) {
            List<Object> v = b.votes(b.signers); for (Map.Entry<String, Block> e : alts(b).entrySet()) no(l, "unvoted " + e.getKey(), rm(List.of(e.getValue().bu(v, b.nextSet)), null, null));
            Block x = b.copy(); x.next = h(context(set(4, 900))); no(l, "unvoted own validators", rm(List.of(x.bu(v, set(4, 900))), null, null)); no(l, "own votes for own validators", rm(List.of(x.bu(x.votes(set(4, 900)), set(4, 900))), null, null)); 
            // a following block voted by the validators it does not have
            if (hgt + 1 < ch.size()) { Block y = ch.get(hgt + 1); if (!Arrays.equals(y.signers, b.signers)) add(l, "next but one by the old validators", quorum(y, b.signers) ? YES : NO, 27, rm(List.of(b.bu(), y.bu(y.votes(b.signers), y.nextSet)), null, null)); }
        }
        static boolean quorum(Block y, int[] who) { for (int x : who) if (Arrays.stream(y.signers).noneMatch(s -> s == x)) return false; return who.length > y.signers.length * 2 / 3; }
        /** proofs that do not prove what they claim */
        void proofs(List<Cand> l, Block b, List<byte[]> bus, byte[] bp) {
            String at = " (" + b.height + (bus == null ? "" : " new") + ")"; int nr = b.rcpts.size();
            if (b.result == null) { no(l, "receipts of no result" + at, rm(bus, bp, List.of(Rlp.enc(list(0L, pf(List.of(new byte[40])), null))))); return; }
            for (int i : some(nr, i -> b.rcpts.get(i).evs.stream().anyMatch(Ev::ours))) {
                Rcpt r = b.rcpts.get(i); List<byte[]> p = b.trie.proof(i); List<Object> ev = null; if (!r.inline) { ev = new ArrayList<>(); for (int e = 0; e < Math.min(3, r.evs.size()); e++) ev.add(list((long) e, pf(r.logs.proof(e)))); } List<Object> evs = ev;
                for (int j : new int[]{-1, nr, i + 1, i + 16, i + 128, i - 128}) if (j != i) { boolean own = j >= 0 && j < nr; if (own) continue; no(l, "receipt " + i + " as " + j + at, rm(bus, bp, List.of(Rlp.enc(list((long) j, pf(p), evs))))); }
                for (int j : some(nr, x -> false)) if (j != i) no(l, "receipt " + i + " proven as " + j + at, rm(bus, bp, List.of(Rlp.enc(list((long) j, pf(p), evs)))));
                for (int k = 0; k < p.size(); k++) { List<byte[]> a = new ArrayList<>(p); a.remove(k); no(l, "receipt " + i + " without node " + k + at, rm(bus, bp, List.of(Rlp.enc(list((long) i, pf(a), evs))))); byte[] n = p.get(k).clone(); n[n.length - 1] ^= 1; a = new ArrayList<>(p); a.set(k, n); add(l, "receipt " + i + " altered node " + k + at, NO, 26, rm(bus, bp, List.of(Rlp.enc(list((long) i, pf(a), evs))))); }
                // a receipt of our own making
                Rcpt f = new Rcpt(false, 1, new Ev(SRCBMC, "Message(str,int,bytes)", HERE, seq + 1, u("forged"))); Trie ft = new Trie(List.of(f.bytes)); List<byte[]> a = new ArrayList<>(p); a.set(a.size() - 1, ft.proof(0).get(0)); List<Object> fe = list((Object) list(0L, pf(f.logs.proof(0))));
                add(l, "forged receipt " + i + at, NO, 26, rm(bus, bp, List.of(Rlp.enc(list((long) i, pf(a), fe))))); add(l, "forged trie " + i + at, NO, 26, rm(bus, bp, List.of(Rlp.enc(list(0L, pf(ft.proof(0)), fe)))));
                if (!r.inline) {
                    no(l, "forged event of " + i + at, rm(bus, bp, List.of(Rlp.enc(list((long) i, pf(p), fe)))));
                    for (int e : some(r.evs.size(), e -> r.evs.get(e).ours())) {
                        List<byte[]> q = r.logs.proof(e); for (int k = 0; k < q.size(); k++) { List<byte[]> c = new ArrayList<>(q); c.remove(k); no(l, "event " + i + "." + e + " without node " + k + at, rm(bus, bp, List.of(Rlp.enc(list((long) i, pf(p), list((Object) list((long) e, pf(c)))))))); byte[] n = q.get(k).clone(); n[n.length - 1] ^= 1; c = new ArrayList<>(q); c.set(k, n); add(l, "event " + i + "." + e + " altered node " + k + at, NO, 26, rm(bus, bp, List.of(Rlp.enc(list((long) i, pf(p), list((Object) list((long) e, pf(c)))))))); }
                        for (int x = -1; x <= r.evs.size(); x++) if (x != e && (r.evs.size() < 5 || x < 2)) no(l, "event " + i + "." + e + " as " + x + at, rm(bus, bp, List.of(Rlp.enc(list((long) i, pf(p), list((Object) list((long) x, pf(q))))))));
                        for (int o = 0; o < nr; o++) if (o != i && !Arrays.equals(b.rcpts.get(o).logs.root, r.logs.root)) { if (nr > 4 && o > 1) break; no(l, "event " + e + " of " + i + " claimed for " + o + at, rm(bus, bp, List.of(Rlp.enc(list((long) o, pf(b.trie.proof(o)), list((Object) list((long) e, pf(q)))))))); }
                    }
                } else no(l, "forged event of inline " + i + at, rm(bus, bp, List.of(Rlp.enc(list((long) i, pf(p), fe)))));
                // the receipts of another block
                for (Block o : ch) if (o != b && !o.rcpts.isEmpty() && !Arrays.equals(o.trie.root, b.trie.root)) no(l, "receipts of " + o.height + " for receipt " + i + at, rm(bus, bp, rps(o, List.of(new Pick(0, o.rcpts.get(0).inline ? null : set(Math.min(2, o.rcpts.get(0).evs.size()), 0))))));
            }
        }
        public void apply(String op, MC.Ctx c) {
            Cand x = null; for (Cand y : cands()) if (y.name.equals(op)) { if (x != null) throw new IllegalStateException("two candidates " + op); x = y; }
            World.Result r = w.tx(x.from, BMV, "handleRelayMessage", x.bmc, x.prev, bi(seq), x.msg);
            if (x.want == YES) c.check(r.ok, "refused", () -> op + ": " + r); if (x.want == NO) { c.check(!r.ok, "accepted", () -> op); if (x.code > 0 && !r.ok) c.equal("code", x.code, r.code, op + ": code of the refusal"); }
            if (r.ok && x.want == YES) { List<String> a = new ArrayList<>(), b = new ArrayList<>(); for (byte[] m : x.out) a.add(Rlp.hex(m)); for (byte[] m : (byte[][]) r.ret) b.add(Rlp.hex(m)); c.equal("messages", a, b, op + ": messages handed over"); hgt = x.h; seq = x.seq; if (x.moved) last = x.ds; }
            Map<?, ?> s = (Map<?, ?>) w.query(BMV, "getStatus"); c.equal("status", bi(off + hgt), s.get("height"), op + ": height of the verifier");
            c.equal("status", Rlp.hex(Rlp.enc(list((long) off, (long) last))), Rlp.hex((byte[]) s.get("extra")), op + ": offset and height of the last message");
        }
    }
    public static void main(String[] args) {
        MC mc = new MC("P36", args); mc.assumptions.add("sha3-256, secp256k1 recovery and RLPn of java/sim; no hash collisions"); mc.assumptions.add("receipts and event logs are longer than 32 bytes, so that no node of their tries is embedded in another");
        boolean t = mc.thorough;
        mc.explore("chain", () -> new Model(chain(10, set(4, 0), sp(null), sp(set(3, 2), rc(m(1), other(1), fake(1), m(2))), sp(null, rc(log(), noise(), m(3)), rc(other(2), m(4))), sp(set(1, 9)), sp(null, in(m(5), fake(6), m(6)))), 10, set(4, 0)), 30, 1_000_000);
        mc.explore("genesis", () -> new Model(chain(0, set(1, 0), sp(set(2, 0), in(m(1)), in(other(1), m(2))), sp(null, rc(m(3)), in(m(4))), sp(null)), 0, set(1, 0)), 30, 1_000_000);
        for (int n = 1; n <= (t ? 9 : 6); n++) { int k = n; mc.explore("accumulator/" + n, () -> { Spec[] s = new Spec[k + 1]; for (int i = 0; i <= k; i++) s[i] = i == 0 || i == k / 2 ? sp(null, in(m(i == 0 ? 1 : 2))) : sp(null); return new Model(chain(3, set(1, 0), s), 3, set(1, 0)); }, 30, 1_000_000); }
        for (int n : t ? new int[]{1, 2, 15, 16, 17, 18, 33, 127, 128, 129, 130, 257} : new int[]{2, 16, 17, 129}) { int k = n; 
            mc.explore("receipts/" + n, () -> { Rcpt[] r = new Rcpt[k]; int s = 0; for (int i = 0; i < k; i++) r[i] = i == 0 || i == 15 || i == 16 || i == 127 || i == k - 1 ? rc(m(++s)) : rc(log()); return new Model(chain(0, set(1, 0), sp(null, r)), 0, set(1, 0)); }, 30, 1_000_000);
            mc.explore("events/" + n, () -> { Ev[] e = new Ev[k]; int s = 0; for (int i = 0; i < k; i++) e[i] = i == 0 || i == 15 || i == 16 || i == 127 || i == k - 1 ? m(++s) : log(); return new Model(chain(0, set(1, 0), sp(null, rc(e))), 0, set(1, 0)); }, 30, 1_000_000); }
        for (int n = 1; n <= (t ? 8 : 7); n++) { int k = n; mc.explore("validators/" + n, () -> new Model(chain(5, set(k, 0), sp(set(k, 1)), sp(null)), 5, set(k, 0)), 30, 1_000_000); }
        mc.finish();
    }
}
