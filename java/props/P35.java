// modules: score-util lib bmc nativecoin
// with: BmcWorld.java
import java.math.BigInteger;
import java.util.*;
import score.*;
import sim.*;
/** Coins between two networks: no coin is made or lost, whatever transfers, failures and reclaims happen in whatever order.
 *  Real message centers, native coin services and token contracts on A and B; every balance predicted after each step. */
public class P35 implements MC.Model {
    static final String NCS = "foundation.icon.btp.nativecoin.NativeCoinService", IRC = "foundation.icon.btp.nativecoin.irc31.OwnerBasedIRC31Supplier";
    static final BigInteger Z = BigInteger.ZERO;
    static final String[] NETS = {"A", "B"}, COINS = {"ACOIN", "BCOIN", "XCOIN", "YCOIN"};
    static final Address OWNER = BmcWorld.OWNER;
    static BigInteger bi(long v) { return BigInteger.valueOf(v); }
    static Address ncs(String n) { return BmcWorld.ad("cx", 0x7000 + n.charAt(0)); }
    static Address irc(String n) { return BmcWorld.ad("cx", 0x7100 + n.charAt(0)); }
    static Address user(String n, String u) { return BmcWorld.ad(u.equals("v") ? "cx" : "hx", 0x7200 + n.charAt(0) * 256 + u.charAt(0)); }
    static Address rej(String n) { return BmcWorld.ad("cx", 0x7300 + n.charAt(0)); } // a contract that takes nothing
    static Address bmc(String n) { return BmcWorld.bmc(n); }
    static String other(String n) { return n.equals("A") ? "B" : "A"; }
    static boolean knows(String n, String coin) { return coin.equals("ACOIN") || coin.equals("BCOIN") || coin.equals("YCOIN") || (coin.equals("XCOIN") && n.equals("A")); }
    static final String[] USERS = {"u", "v"};
    static BigInteger id(String coin) { return new BigInteger(Crypto.sha3(coin.getBytes())); }
    static final class Tx { String from, to; List<String> coins = new ArrayList<>(); List<Long> amount = new ArrayList<>(), fee = new ArrayList<>(); }
    static final class St { World.Snap snap; TreeMap<String, List<byte[]>> q = new TreeMap<>(); TreeMap<String, Integer> rx = new TreeMap<>(), sn = new TreeMap<>(); TreeMap<String, Long> v = new TreeMap<>(), ratio = new TreeMap<>(); TreeMap<String, Tx> tx = new TreeMap<>(), sent = new TreeMap<>(); int n, drops; boolean lost; TreeSet<String> strays = new TreeSet<>();
        St copy() { St s = new St(); for (var e : q.entrySet()) s.q.put(e.getKey(), new ArrayList<>(e.getValue())); s.rx.putAll(rx); s.sn.putAll(sn); s.v.putAll(v); s.ratio.putAll(ratio); s.tx.putAll(tx); s.sent.putAll(sent); s.n = n; s.drops = drops; s.strays.addAll(strays); s.lost = lost; return s; } }
    final World w = new World(); St st = new St(); final List<String> ops; final int max; final boolean drops;
    static void must(World.Result r) { if (!r.ok) throw new IllegalStateException("setup: " + r); }
    P35(List<String> ops, int max, boolean drops) {
        this.ops = ops; this.max = max; this.drops = drops;
        for (String n : NETS) {
            must(w.deploy(bmc(n), OWNER, BmcWorld.BMC, n)); must(w.deploy(irc(n), OWNER, IRC)); must(w.deploy(ncs(n), OWNER, NCS, bmc(n), irc(n), n + "COIN")); must(w.tx(OWNER, irc(n), "addOwner", ncs(n))); must(w.tx(OWNER, bmc(n), "addService", "nativecoin", ncs(n)));
            must(w.tx(OWNER, ncs(n), "setFeeRatio", bi(10))); st.ratio.put(n, 10L); for (String c : COINS) if (knows(n, c) && !c.startsWith(n)) must(w.tx(OWNER, ncs(n), "register", c)); st.sn.put(n, 0);
            w.deploy(user(n, "v"), OWNER, (x, m, a) -> { if (m.equals("fallback")) try { Context.call(ncs(n), "reclaim", n + "COIN", bi(get("refund", n, n + "COIN", user(n, "v").toString()) + 1)); x.event("Twice", n); } catch (RevertedException e) { } return null; }); // a contract: paid, it tries to reclaim what it no longer has
            w.deploy(rej(n), OWNER, (x, m, a) -> { throw new World.Revert(1, "takes nothing"); });
            for (String u : USERS) { w.give(user(n, u), bi(100_000)); st.v.put(k("coin", n, user(n, u).toString()), 100_000L); } must(w.tx(user(n, "u"), irc(n), "setApprovalForAll", ncs(n), true));
        }
        for (String n : NETS) { String o = other(n); w.deploy(BmcWorld.bmv(n, o), OWNER, new BmcWorld.Verifier()); must(w.tx(OWNER, bmc(n), "addVerifier", o, BmcWorld.bmv(n, o))); st.q.put(o + n, new ArrayList<>()); st.rx.put(o + n, 0); }
        for (String n : NETS) { World.Result r = w.tx(OWNER, bmc(n), "addLink", BmcWorld.btp(other(n))); must(r); take(r); must(w.tx(OWNER, bmc(n), "addRelay", BmcWorld.btp(other(n)), BmcWorld.relay(n, other(n)))); }
        for (String l : new String[]{"AB", "BA"}) while (st.rx.get(l) < st.q.get(l).size()) { World.Result r = deliver(l, 1); must(r); take(r); }
        must(w.tx(OWNER, irc("A"), "mint", user("A", "u"), id("XCOIN"), bi(5000))); add(5000, "tok", "A", "XCOIN", user("A", "u").toString()); add(5000, "sup", "A", "XCOIN"); must(w.tx(OWNER, irc("A"), "mint", user("A", "u"), id("YCOIN"), bi(4000))); add(4000, "tok", "A", "YCOIN", user("A", "u").toString()); add(4000, "sup", "A", "YCOIN"); // of a third network
        List<String> bad = new ArrayList<>(); MC.Ctx c = null;
        for (String op : new String[]{"nat A u 20000 u", "nat B u 30000 u", "nat A u 10000 v"}) { pre(op); pre("dl " + op.charAt(4) + other("" + op.charAt(4)) + " 1"); pre("dl " + other("" + op.charAt(4)) + op.charAt(4) + " 1"); }
        st.n = 0;
    }
    void pre(String op) { String e = step(op); if (e != null) throw new IllegalStateException("setup " + op + ": " + e); }
    static String k(String... s) { return String.join(" ", s); }
    long get(String... s) { return st.v.getOrDefault(k(s), 0L); }
    void add(long d, String... s) { st.v.merge(k(s), d, Long::sum); }
    World.Result deliver(String l, int n) { int rx = st.rx.get(l); List<byte[]> ms = new ArrayList<>(st.q.get(l).subList(rx, rx + n)); st.rx.put(l, rx + n); return w.tx(BmcWorld.relay(l.substring(1), l.substring(0, 1)), bmc(l.substring(1)), "handleRelayMessage", BmcWorld.btp(l.substring(0, 1)), BmcWorld.pack(ms)); }
    void take(World.Result r) { for (World.Event e : r.events) if (e.name.equals("Message")) for (String n : NETS) if (bmc(n).equals(e.from)) { byte[] raw = (byte[]) e.args[2]; st.q.get(n + BmcWorld.netOf((String) e.args[0])).add(raw); BmcWorld.Msg m = BmcWorld.decode(raw); if (m.svc.equals("nativecoin") && m.src.equals(n) && m.sn.signum() > 0 && Rlp.num(((List<?>) Rlp.dec(m.payload)).get(0)).intValue() == 2) st.strays.add(n + " " + m.nsn); } }
    public Object save() { St s = st.copy(); s.snap = w.snap(); return s; }
    public void load(Object o) { w.enter(); st = ((St) o).copy(); w.restore(((St) o).snap); }
    public String key() { StringBuilder b = new StringBuilder(); w.dump(b); for (var e : st.q.entrySet()) for (byte[] m : e.getValue().subList(st.rx.get(e.getKey()), e.getValue().size())) b.append(e.getKey()).append(Rlp.hex(m)); return b.append(st.n).append(st.drops).append(st.tx.keySet()).toString(); }
    public List<String> ops() {
        List<String> r = new ArrayList<>(); if (st.n < max) r.addAll(ops);
        for (String l : st.q.keySet()) { int n = st.q.get(l).size() - st.rx.get(l); for (int i = 1; i <= Math.min(2, n); i++) r.add("dl " + l + " " + i); if (drops && st.drops == 0 && n > 0 && BmcWorld.decode(st.q.get(l).get(st.rx.get(l))).sn.signum() > 0) r.add("drop " + l); }
        return r;
    }
    // ---- reference
    List<String> exp; String ends = "";
    /** Locks the coins (already in the service's hands) and sends the request; false: refused. */
    boolean request(String n, String u, String to, List<String> coins, List<Long> values) {
        Tx t = new Tx(); t.from = user(n, u).toString(); t.to = to; long r = st.ratio.get(n); if (to.startsWith("E")) return false;
        for (int i = 0; i < coins.size(); i++) { long a = values.get(i), f = a * r / 10000; if (f == 0) f = 1; if (a - f < 1) return false; t.coins.add(coins.get(i)); t.amount.add(a - f); t.fee.add(f); add(a, "locked", n, coins.get(i), t.from); }
        int sn = st.sn.merge(n, 1, Integer::sum); st.tx.put(n + " " + sn, t); st.sent.put(n + " " + sn, t); exp.add("start " + n + " " + t.from + " " + sn); return true;
    }
    boolean takeCoin(String n, String u, long v) { String a = user(n, u).toString(); add(-v, "coin", n, a); add(v, "coin", n, ncs(n).toString()); return true; }
    boolean takeTok(String n, String u, String c, long v) { String a = user(n, u).toString(); if (!u.equals("u") || v < 0 || get("tok", n, c, a) < v) return false; add(-v, "tok", n, c, a); add(v, "tok", n, c, ncs(n).toString()); return true; }
    boolean ref(String[] p) {
        switch (p[0]) {
            case "nat": { long v = Long.parseLong(p[3]); if (v <= 0) return false; takeCoin(p[1], p[2], v); return request(p[1], p[2], p[4], List.of(p[1] + "COIN"), List.of(v)); }
            case "tok": { long v = Long.parseLong(p[4]); if (v <= 0 || !knows(p[1], p[3]) || p[3].startsWith(p[1]) || !takeTok(p[1], p[2], p[3], v)) return false; return request(p[1], p[2], p[5], List.of(p[3]), List.of(v)); }
            case "batch": { long nat = Long.parseLong(p[3]); List<String> cs = new ArrayList<>(); List<Long> vs = new ArrayList<>(); for (int i = 5; i + 1 < p.length; i += 2) { cs.add(p[i]); vs.add(Long.parseLong(p[i + 1])); } if (p.length % 2 == 0) return false;
                for (String c : cs) if (!knows(p[1], c) || c.startsWith(p[1])) return false; for (int i = 0; i < cs.size(); i++) if (!takeTok(p[1], p[2], cs.get(i), vs.get(i))) return false; if (cs.isEmpty() && !p[2].equals("u")) return false;
                if (nat > 0) { takeCoin(p[1], p[2], nat); cs.add(p[1] + "COIN"); vs.add(nat); } return request(p[1], p[2], p[4], cs, vs); }
            case "reclaim": { String a = user(p[1], p[2]).toString(); long have = get("refund", p[1], p[3], a), v = p[4].equals("all") ? have : p[4].equals("over") ? have + 1 : Long.parseLong(p[4]); if (v <= 0 || v > have) return false; add(-v, "refund", p[1], p[3], a);
                if (p[3].startsWith(p[1])) { add(v, "coin", p[1], a); add(-v, "coin", p[1], ncs(p[1]).toString()); } else { add(v, "tok", p[1], p[3], a); add(-v, "tok", p[1], p[3], ncs(p[1]).toString()); } return true; }
            case "ratio": { long v = Long.parseLong(p[2]); if (v < 1 || v >= 10000) return false; st.ratio.put(p[1], v); return true; }
            case "dl": { int rx = st.rx.get(p[1]); for (byte[] m : st.q.get(p[1]).subList(rx, rx + Integer.parseInt(p[2]))) { St b = st.copy(); List<String> be = new ArrayList<>(exp); if (!got(p[1].substring(1), BmcWorld.decode(m))) { st = b; exp = be; } } return true; }
            case "drop": return true; // the sender is told
        }
        throw new IllegalStateException(p[0]);
    }
    boolean got(String at, BmcWorld.Msg m) {
        if (m.sn.signum() < 0) { String key = at + " " + m.sn.negate(); if (st.strays.contains(at + " " + m.nsn.negate())) return true; end(at, key, false, m); return true; }
        List<?> l = (List<?>) Rlp.dec(m.payload); int type = Rlp.num(l.get(0)).intValue();
        if (type == 2) { end(at, at + " " + m.sn, Rlp.num(((List<?>) Rlp.dec((byte[]) l.get(1))).get(0)).signum() == 0, m); return true; }
        Tx t = st.sent.get(m.src + " " + m.sn); String to = t.to;
        if (to.equals("nobody")) return false; String a = to.equals("rej") ? rej(at).toString() : user(at, to).toString();
        for (int i = 0; i < t.coins.size(); i++) { String c = t.coins.get(i); if (!knows(at, c)) return false; if (to.equals("rej")) return false; long v = t.amount.get(i); if (c.startsWith(at)) { if (get("coin", at, ncs(at).toString()) < v) return false; add(v, "coin", at, a); add(-v, "coin", at, ncs(at).toString()); } else { add(v, "tok", at, c, a); add(v, "sup", at, c); } }
        return true;
    }
    void end(String n, String key, boolean ok, BmcWorld.Msg m) {
        Tx t = st.tx.remove(key); if (t == null) return; exp.add("end " + key + " " + (ok ? 0 : 1));
        for (int i = 0; i < t.coins.size(); i++) { String c = t.coins.get(i); long a = t.amount.get(i), f = t.fee.get(i); add(-a - f, "locked", n, c, t.from); if (!ok) add(a + f, "refund", n, c, t.from); else { add(f, "fee", n, c); if (!c.startsWith(n)) { add(-a, "tok", n, c, ncs(n).toString()); add(-a, "sup", n, c); } } }
    }
    static String acct(String n, String to) { return "btp://" + (to.startsWith("E") ? "E" : other(n)) + "/" + (to.equals("nobody") ? "nobody" : to.equals("rej") ? rej(other(n)) : user(other(n), to)); }
    World.Result run(String[] p, St before) {
        switch (p[0]) {
            case "nat": return w.tx(user(p[1], p[2]), ncs(p[1]), new BigInteger(p[3]), "transferNativeCoin", acct(p[1], p[4]));
            case "tok": return w.tx(user(p[1], p[2]), ncs(p[1]), "transfer", p[3], new BigInteger(p[4]), acct(p[1], p[5]));
            case "batch": { List<String> cs = new ArrayList<>(); List<BigInteger> vs = new ArrayList<>(); for (int i = 5; i < p.length; i += 2) { cs.add(p[i]); if (i + 1 < p.length) vs.add(new BigInteger(p[i + 1])); } return w.tx(user(p[1], p[2]), ncs(p[1]), new BigInteger(p[3]), "transferBatch", cs.toArray(new String[0]), vs.toArray(new BigInteger[0]), acct(p[1], p[4])); }
            case "reclaim": { long have = before.v.getOrDefault(k("refund", p[1], p[3], user(p[1], p[2]).toString()), 0L); return w.tx(user(p[1], p[2]), ncs(p[1]), "reclaim", p[3], bi(p[4].equals("all") ? have : p[4].equals("over") ? have + 1 : Long.parseLong(p[4]))); }
            case "ratio": return w.tx(OWNER, ncs(p[1]), "setFeeRatio", new BigInteger(p[2]));
            case "drop": { String l = p[1], at = l.substring(1); BmcWorld.Msg m = BmcWorld.decode(st.q.get(l).get(st.rx.get(l))); int seq = st.rx.get(l) + 1; st.rx.put(l, seq); st.drops++; st.lost |= st.strays.contains(m.src + " " + m.nsn); return w.tx(OWNER, bmc(at), "dropMessage", m.src, bi(seq), m.svc, m.sn, m.nsn, m.fees == null ? "" : m.feeNet, m.fees == null ? new BigInteger[0] : m.fees.toArray(new BigInteger[0])); }
            default: return deliver(p[1], Integer.parseInt(p[2]));
        }
    }
    /** One step in both; a difference as text with its key first. */
    String step(String op) {
        String[] p = op.split(" "); exp = new ArrayList<>(); St b = st.copy(); boolean user = !p[0].equals("dl") && !p[0].equals("drop"); boolean ok = ref(p); if (!ok) { st = b.copy(); exp.clear(); }
        World.Result r = run(p, b); if (user) st.n++;
        if (ok != r.ok) return (ok ? "refused" : "accepted") + "|" + op + ": " + r;
        List<String> got = new ArrayList<>();
        if (ok) { take(r); for (World.Event e : r.events) { if (e.name.equals("Twice")) got.add("reclaimed twice"); if (e.name.equals("TransferStart")) got.add("start " + net(e.from) + " " + e.args[0] + " " + e.args[2]); if (e.name.equals("TransferEnd")) got.add("end " + net(e.from) + " " + e.args[1] + " " + e.args[2]); } if (!exp.equals(got)) return "events|" + op + ": expected " + exp + ", got " + got; }
        for (String n : NETS) {
            List<Address> as = new ArrayList<>(List.of(ncs(n), rej(n))); for (String u : USERS) as.add(user(n, u));
            for (Address a : as) { String d = diff("coin", get("coin", n, a.toString()), w.balance(a), op + ": native coins of " + a + " on " + n); if (d != null) return d;
                for (String c : COINS) { if (!c.startsWith(n)) { d = diff("token", get("tok", n, c, a.toString()), w.query(irc(n), "balanceOf", a, id(c)), op + ": " + c + " of " + a + " on " + n); if (d != null) return d; }
                    Map<?, ?> m = (Map<?, ?>) w.query(ncs(n), "balanceOf", a, c); d = diff("locked", get("locked", n, c, a.toString()), m.get("locked"), op + ": locked " + c + " of " + a + " on " + n); if (d != null) return d;
                    d = diff("refundable", a.equals(ncs(n)) ? get("fee", n, c) : get("refund", n, c, a.toString()), m.get("refundable"), op + ": refundable " + c + " of " + a + " on " + n); if (d != null) return d; } }
            for (String c : COINS) if (!c.startsWith(n) && get("sup", n, c) > 0) { String d = diff("supply", get("sup", n, c), w.query(irc(n), "totalSupply", id(c)), op + ": supply of " + c + " on " + n); if (d != null) return d; }
            for (int i = 1; i <= st.sn.get(n); i++) if ((w.query(ncs(n), "getTransaction", bi(i)) != null) != st.tx.containsKey(n + " " + i)) return "transaction|" + op + ": transaction " + i + " on " + n;
        }
        return null;
    }
    static String net(Address a) { return a.equals(ncs("A")) ? "A" : "B"; }
    static String diff(String key, Object want, Object got, String what) { return String.valueOf(want).equals(String.valueOf(got)) ? null : key + "|" + what + ": expected " + want + ", got " + got; }
    void deny(MC.Ctx c, World.Snap z, Address a, Address to, String m, Object... args) { World.Result r = w.tx(a, to, m, args); c.check(!r.ok, "unauthorized", () -> m + Arrays.deepToString(args) + " by " + a + " was accepted"); w.restore(z); }
    boolean quiet() { for (String l : st.q.keySet()) if (st.rx.get(l) < st.q.get(l).size()) return false; return true; }
    public void apply(String op, MC.Ctx c) {
        // the error for a dropped response carries the number of the other network's transfer
        boolean stray = false; if (op.startsWith("dl ")) { String[] p = op.split(" "); int rx = st.rx.get(p[1]); for (byte[] b : st.q.get(p[1]).subList(rx, rx + Integer.parseInt(p[2]))) { BmcWorld.Msg m = BmcWorld.decode(b); stray |= m.sn.signum() < 0 && st.strays.contains(p[1].substring(1) + " " + m.nsn.negate()); } }
        String e = step(op); String key = e == null ? "" : stray ? "stray-error" : e.substring(0, e.indexOf('|')); c.check(e == null, key, () -> e.substring(e.indexOf('|') + 1));
        if (e != null) return;
        for (String n : NETS) { // backing: nothing but what is locked, refundable, earned and minted elsewhere
            long held = get("coin", n, ncs(n).toString()), own = get("fee", n, n + "COIN"); for (String u : USERS) own += get("locked", n, n + "COIN", user(n, u).toString()) + get("refund", n, n + "COIN", user(n, u).toString()); long out = get("sup", other(n), n + "COIN"), o = own; String what = op + ": the service on " + n + " holds " + held + " coins, owes " + own + " here and " + out + " there";
            if (quiet() && !st.lost) c.check(held == own + out, "backing", () -> what); else c.check(held >= 0, "backing", () -> what); }
        for (String n : NETS) { World.Snap z = w.snap(); // what the other network may not ask for
            for (Object v : new Object[]{bi(0), bi(-5), null}) for (String x : new String[]{n + "COIN", other(n) + "COIN"}) deny(c, z, bmc(n), ncs(n), "handleBTPMessage", other(n), "nativecoin", bi(77), Rlp.enc(Arrays.asList((Object) 0, Rlp.enc(Arrays.asList((Object) "x", user(n, "u").toString(), List.of(Arrays.asList((Object) x, v))))))); }
        for (String n : NETS) for (String who : new String[]{"user", "owner"}) {
            World.Snap z = w.snap(); Address a = who.equals("user") ? user(n, "u") : OWNER; byte[] fake = Rlp.enc(Arrays.asList((Object) 0, Rlp.enc(Arrays.asList((Object) "x", user(n, "u").toString(), List.of(Arrays.asList((Object) (n + "COIN"), bi(5)))))));
            World.Result r1 = w.tx(a, ncs(n), "handleBTPMessage", other(n), "nativecoin", bi(1), fake); c.check(!r1.ok, "unauthorized", () -> "a message not from the message center was handled"); w.restore(z); World.Result r2 = w.tx(a, ncs(n), "handleBTPError", other(n), "nativecoin", bi(1), 1, "x"); c.check(!r2.ok, "unauthorized", () -> "an error not from the message center was handled"); w.restore(z);
            if (who.equals("user")) { World.Result r3 = w.tx(a, ncs(n), "setFeeRatio", bi(5)); c.check(!r3.ok, "unauthorized", () -> "setFeeRatio by a user"); w.restore(z); World.Result r4 = w.tx(a, ncs(n), "register", "ZCOIN"); c.check(!r4.ok, "unauthorized", () -> "register by a user"); w.restore(z); World.Result r5 = w.tx(a, irc(n), "mint", a, bi(1), bi(5)); c.check(!r5.ok, "unauthorized", () -> "mint by a user"); w.restore(z);
                World.Result r6 = w.tx(a, irc(n), "burn", user(n, "v"), id(other(n) + "COIN"), bi(1)); c.check(!r6.ok, "unauthorized", () -> "burn by a user"); w.restore(z); World.Result r7 = w.tx(a, ncs(n), "addOwner", a); c.check(!r7.ok, "unauthorized", () -> "addOwner by a user"); w.restore(z); World.Result r8 = w.tx(a, irc(n), "mintBatch", a, new BigInteger[]{bi(1)}, new BigInteger[]{bi(5)}); c.check(!r8.ok, "unauthorized", () -> "mintBatch by a user"); w.restore(z); World.Result r9 = w.tx(a, irc(n), "burnBatch", user(n, "v"), new BigInteger[]{id(other(n) + "COIN")}, new BigInteger[]{bi(1)}); c.check(!r9.ok, "unauthorized", () -> "burnBatch by a user"); w.restore(z);
                deny(c, z, a, ncs(n), "removeOwner", OWNER); deny(c, z, a, ncs(n), "handleFeeGathering", "btp://" + other(n) + "/" + user(other(n), "u"), "nativecoin"); deny(c, z, a, irc(n), "addOwner", a); deny(c, z, a, irc(n), "removeOwner", OWNER); deny(c, z, a, irc(n), "setTokenURI", bi(1), "x"); }
            else { BigInteger x = id(other(n) + "COIN"); Address v = user(n, "u"); for (long k : new long[]{0, -1}) { deny(c, z, a, irc(n), "mint", v, x, bi(k)); deny(c, z, a, irc(n), "burn", v, x, bi(k)); deny(c, z, a, irc(n), "mintBatch", v, new BigInteger[]{x, x}, new BigInteger[]{bi(5), bi(k)}); deny(c, z, a, irc(n), "burnBatch", v, new BigInteger[]{x}, new BigInteger[]{bi(k)}); }
                deny(c, z, a, irc(n), "mintBatch", v, new BigInteger[]{x, x}, new BigInteger[]{bi(5)}); deny(c, z, a, irc(n), "burnBatch", v, new BigInteger[]{x}, new BigInteger[]{}); deny(c, z, a, irc(n), "burn", v, x, bi(100_000_000_000L)); deny(c, z, a, ncs(n), "handleFeeGathering", "btp://" + other(n) + "/" + user(other(n), "u"), "nativecoin"); }
        }
    }
    public void end(MC.Ctx c) { c.check(st.lost || st.tx.isEmpty(), "open", () -> "transfers without a result: " + st.tx.keySet()); }
    public static void main(String[] args) {
        MC mc = new MC("P35", args); mc.assumptions.add("two networks with real message centers without fees, native coin services and token contracts; the token base library and the chain are those of java/api and java/sim"); boolean t = mc.thorough;
        List<String> all = List.of("nat A u 1 u", "nat A u 2 u", "nat A u 1000 u", "nat A u 2999 rej", "nat A v 3000 nobody", "nat A u 500 E", "nat B u 700 v", "nat A u 0 u", "tok B u ACOIN 1500 v", "tok B u ACOIN 1 u", "tok B v ACOIN 10 u", "tok B u ACOIN 99999999 u", "tok B u BCOIN 10 u", "tok B u XCOIN 10 u", "tok A u XCOIN 2500 u", "tok B u ACOIN 400 rej", "tok A u BCOIN 600 nobody", "tok B u ACOIN -5 u", "tok B u ACOIN 0 u",
            "batch B u 0 u ACOIN 300 ACOIN 400", "batch B u 50 v ACOIN 300", "batch B u 60 u", "batch A u 70 u BCOIN 20 XCOIN 30", "batch A u 0 u BCOIN 20 BCOIN 30", "batch A u 40 u YCOIN 200 BCOIN 50 YCOIN 300", "tok A u YCOIN 70 v", "batch A u 0 rej YCOIN 20", "batch B u 0 u ACOIN 300 BCOIN 5", "batch B u 0 u ACOIN 0", "batch B u 0 u ACOIN -3 ACOIN 10", "batch B u 0 u ACOIN 300 ACOIN", "batch B u 90 rej ACOIN 100", "batch B v 80 u ACOIN 5", "batch A u 0 u",
            "reclaim A u ACOIN all", "reclaim A u ACOIN 1", "reclaim A u ACOIN over", "reclaim A u XCOIN all", "reclaim B u ACOIN all", "reclaim A v ACOIN 10", "reclaim A u ACOIN 0", "reclaim A u ACOIN -1", "reclaim A v ACOIN over", "ratio A 1", "ratio A 9999", "ratio A 0", "ratio A 10000", "ratio B 5000");
        mc.explore("pairs", () -> new P35(all, 2, false), 30, 2_000_000);
        List<String> few = List.of("nat A u 1000 u", "nat A u 2999 rej", "tok B u ACOIN 1500 v", "batch B u 90 rej ACOIN 100", "batch A u 70 u BCOIN 20 XCOIN 30", "batch A u 40 v YCOIN 200 BCOIN 50 YCOIN 300", "reclaim A u ACOIN all", "reclaim A u XCOIN 10", "reclaim B u BCOIN all", "reclaim A u ACOIN over", "ratio B 5000");
        mc.explore("several", () -> new P35(few, t ? 5 : 4, false), 30, 2_000_000);
        mc.explore("dropped", () -> new P35(List.of("nat A u 1000 u", "tok B u ACOIN 1500 v", "nat B u 700 rej"), t ? 4 : 3, true), 30, 2_000_000);
        mc.finish();
    }
}
