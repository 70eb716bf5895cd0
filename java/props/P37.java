// modules: fee-aggregation
import java.math.BigInteger;
import java.util.*;
import score.*;
import sim.*;
/** Auctions of collected fees: what the contract owes in coins and tokens it holds, and everybody gets the share of the rules.
 *  The real FeeAggregationSCORE with a token of each kind, a price source and the fund; every balance predicted after each step. */
public class P37 implements MC.Model {
    static final BigInteger Z = BigInteger.ZERO;
    static BigInteger bi(long v) { return BigInteger.valueOf(v); }
    static Address ad(String p, int i) { byte[] b = new byte[21]; b[0] = (byte) (p.equals("cx") ? 1 : 0); b[19] = (byte) (i >> 8); b[20] = (byte) i; return new Address(b); }
    static final Address OWNER = ad("hx", 1), FA = ad("cx", 2), CPS = ad("cx", 3), BAND = ad("cx", 4);
    static final String[] TOK = {"T", "M"}, USERS = {"a", "b", "c"};
    static Address tok(String t) { return ad("cx", t.equals("T") ? 16 : 17); }
    static Address user(String u) { return u.equals("c") ? ad("cx", 33) : ad("hx", 32 + u.charAt(0)); } // c is a contract
    static long unit(String t) { return t.equals("T") ? 100 : 10; }
    static final long STEP = 2_000_000;
    static final class Syn { long id, amount, total, start, end; LinkedHashMap<String, Long> dep = new LinkedHashMap<>(); Syn copy() { Syn s = new Syn(); s.id = id; s.amount = amount; s.total = total; s.start = start; s.end = end; s.dep.putAll(dep); return s; } }
    static final class St { World.Snap snap; TreeMap<String, Long> v = new TreeMap<>(); TreeMap<String, Syn> syn = new TreeMap<>(); long ids, dur, now, n; 
        St copy() { St s = new St(); s.v.putAll(v); for (var e : syn.entrySet()) s.syn.put(e.getKey(), e.getValue().copy()); s.ids = ids; s.dur = dur; s.now = now; s.n = n; return s; } }
    final World w = new World(); St st = new St(); final List<String> ops; final int max;
    static void must(World.Result r) { if (!r.ok) throw new IllegalStateException("setup: " + r); }
    static <K, V> DictDB<K, V> db(String n, Class<V> c) { return Context.newDictDB(n, c); }
    static BigInteger num(String n, Object k) { return P37.<Object, BigInteger>db(n, BigInteger.class).getOrDefault(k, Z); }
    static void num(String n, Object k, BigInteger v) { P37.<Object, BigInteger>db(n, BigInteger.class).set(k, v); }
    /** A token contract of the standard its name says. */
    static Object token(String t, World x, String m, Object[] a) {
        boolean irc31 = t.equals("M");
        switch (m) {
            case "set": num("flag", a[0], (BigInteger) a[1]); return null;
            case "mint": num("bal", a[0], num("bal", a[0]).add((BigInteger) a[1])); return null;
            case "decimals": if (irc31) throw new World.Revert(1, "no decimals"); return bi(2);
            case "balanceOf": if (a.length != (irc31 ? 2 : 1)) throw new World.Revert(1, "arguments"); if (irc31 && !a[1].equals(bi(7))) return Z; return num("bal", a[0]);
            case "transfer": case "transferFrom": {
                if (irc31 != m.equals("transferFrom")) throw new World.Revert(1, "method");
                Address from = irc31 ? (Address) a[0] : Context.getCaller(), to = (Address) a[irc31 ? 1 : 0]; BigInteger v = (BigInteger) a[irc31 ? 3 : 1];
                if (irc31 && (!from.equals(Context.getCaller()) || !a[2].equals(bi(7)))) throw new World.Revert(1, "not allowed");
                if (num("flag", "frozen").signum() > 0 || v.signum() < 0 || num("bal", from).compareTo(v) < 0) throw new World.Revert(1, "transfer refused");
                num("bal", from, num("bal", from).subtract(v)); num("bal", to, num("bal", to).add(v));
                if (to.isContract()) Context.call(to, irc31 ? "onIRC31Received" : "tokenFallback", irc31 ? new Object[]{from, from, bi(7), v, new byte[0]} : new Object[]{from, v, new byte[0]});
                return null; }
        }
        throw new World.Revert(1, m);
    }
    /** A depositor that is a contract: refuses what it is given, or asks for it again. */
    static Object taker(World x, String m, Object[] a) {
        if (m.equals("set")) { num("flag", a[0], (BigInteger) a[1]); return null; }
        if (num("flag", "reject").signum() > 0) throw new World.Revert(1, "takes nothing");
        try { if (m.equals("fallback")) Context.call(FA, "withdrawal"); else Context.call(FA, "claim", m.equals("tokenFallback") ? "T" : "M"); x.event("Twice", m); } catch (RevertedException e) { }
        return null;
    }
    P37(List<String> ops, int max) {
        this.ops = ops; this.max = max;
        w.deploy(CPS, OWNER, (x, m, a) -> { if (!m.equals("add_fund")) throw new World.Revert(1, m); return null; });
        w.deploy(BAND, OWNER, (x, m, a) -> { if (m.equals("set")) { num("rate", a[0], (BigInteger) a[1]); return null; } if (!m.equals("get_reference_data") || !a[1].equals("ICX")) throw new World.Revert(1, m); return Map.of("rate", num("rate", a[0])); });
        for (String t : TOK) w.deploy(tok(t), OWNER, (x, m, a) -> token(t, x, m, a));
        w.deploy(user("c"), OWNER, P37::taker);
        must(w.deploy(FA, OWNER, "foundation.icon.btp.FeeAggregationSCORE", CPS, BAND));
        must(w.tx(OWNER, FA, "registerIRC2", "T", tok("T"))); must(w.tx(OWNER, FA, "registerIRC31", "M", tok("M"), bi(7), bi(1)));
        must(w.tx(OWNER, FA, "setDurationTime", bi(2 * STEP))); st.dur = 2 * STEP;
        for (String u : USERS) { w.give(user(u), bi(100_000)); st.v.put("coin " + u, 100_000L); }
        for (String t : TOK) { price(t, t.equals("T") ? 1000 : 37); fee(t, t.equals("T") ? 50 : 70); }
        w.height(100);
    }
    void price(String t, long p) { must(w.tx(OWNER, BAND, "set", t, bi(p))); st.v.put("price " + t, p); }
    void fee(String t, long v) { must(w.tx(OWNER, tok(t), "mint", FA, bi(v))); add("tok " + t + " FA", v); }
    long get(String k) { return st.v.getOrDefault(k, 0L); }
    void add(String k, long d) { st.v.merge(k, d, Long::sum); }
    public Object save() { St s = st.copy(); s.snap = w.snap(); return s; }
    public void load(Object o) { w.enter(); st = ((St) o).copy(); w.restore(((St) o).snap); }
    public String key() { StringBuilder b = new StringBuilder(); w.dump(b); return b.append(st.n).append(' ').append(st.now).toString(); }
    public List<String> ops() { return st.n < max ? ops : List.of(); }
    // ---- the rules
    List<String> exp;
    long locked(String t) { long s = 0; for (String u : USERS) s += get("claim " + t + " " + u); return s; }
    void end(String t, Syn s) {
        long p = get("price " + t) * 90 / 100, worth = s.amount * p / unit(t), back = 0;
        for (var e : s.dep.entrySet()) {
            String u = e.getKey(); long d = e.getValue(), share, rest = 0;
            if (worth > s.total) share = d * unit(t) / p; else { share = d * s.amount / s.total; rest = d - share * p / unit(t); }
            add("claim " + t + " " + u, share); add("refund " + u, rest); back += rest;
        }
        add("coin CPS", s.total - back); add("coin FA", back - s.total); exp.add("ended " + s.id + " " + t + " " + s.amount);
    }
    boolean running(String t) { Syn s = st.syn.get(t); return s != null && st.now < s.end; }
    boolean ref(String[] p) {
        switch (p[0]) {
            case "dep": { String u = p[1], t = p[2]; long v = Long.parseLong(p[3]); if (!Arrays.asList(TOK).contains(t) || get("tok " + t + " FA") == 0) return false;
                Syn s = st.syn.get(t), old = null; add("coin " + u, -v); add("coin FA", v);
                if (!running(t)) { old = s; long free = get("tok " + t + " FA") - locked(t) - (old == null ? 0 : old.amount); if (free <= 0) return false; s = new Syn(); s.id = ++st.ids; s.amount = free; s.start = st.now; s.end = st.now + st.dur; st.syn.put(t, s); if (old != null) end(t, old); exp.add("start " + s.id + " " + t + " " + free + " " + u + " " + v + " " + abs(s.end)); } else exp.add("deposit " + s.id + " " + t + " " + u + " " + v);
                s.total += v; if (v > 0) s.dep.merge(u, v, Long::sum); return true; }
            case "claim": { String u = p[1], t = p[2]; long v = get("claim " + t + " " + u); if (!Arrays.asList(TOK).contains(t) || v == 0) return false;
                if (get("frozen " + t) == 0 && !(u.equals("c") && get("reject") > 0)) { st.v.put("claim " + t + " " + u, 0L); add("tok " + t + " FA", -v); add("tok " + t + " " + u, v); }
                Syn s = st.syn.get(t); if (s != null && !running(t)) { st.syn.remove(t); end(t, s); } return true; }
            case "withdraw": { String u = p[1]; long v = get("refund " + u); if (v == 0) return false; if (u.equals("c") && get("reject") > 0) return true; st.v.put("refund " + u, 0L); add("coin FA", -v); add("coin " + u, v); return true; }
            case "gift": { long v = Long.parseLong(p[2]); if (v <= 0) return false; add("coin " + p[1], -v); add("coin CPS", v); return true; }
            case "dur": { long v = Long.parseLong(p[1]) * STEP; if (v <= 0) return false; st.dur = v; return true; }
            case "fee": case "price": case "wait": case "frozen": case "reject": return true;
        }
        throw new IllegalStateException(p[0]);
    }
    static long abs(long t) { return 100 * STEP + t; }
    World.Result run(String[] p) {
        World.Result ok = new World.Result(); ok.ok = true;
        switch (p[0]) {
            case "dep": return w.tx(user(p[1]), FA, new BigInteger(p[3]), "deposit", p[2]);
            case "claim": return w.tx(user(p[1]), FA, "claim", p[2]);
            case "withdraw": return w.tx(user(p[1]), FA, "withdrawal");
            case "gift": return w.tx(user(p[1]), FA, new BigInteger(p[2]), "fallback");
            case "dur": return w.tx(OWNER, FA, "setDurationTime", bi(Long.parseLong(p[1]) * STEP));
            case "fee": fee(p[1], Long.parseLong(p[2])); return ok;
            case "price": price(p[1], Long.parseLong(p[2])); return ok;
            case "wait": st.now += STEP * Long.parseLong(p[1]); return ok;
            case "frozen": { long v = 1 - get("frozen " + p[1]); must(w.tx(OWNER, tok(p[1]), "set", "frozen", bi(v))); st.v.put("frozen " + p[1], v); return ok; }
            default: { long v = 1 - get("reject"); must(w.tx(OWNER, user("c"), "set", "reject", bi(v))); st.v.put("reject", v); return ok; }
        }
    }
    static String who(Object a) { for (String u : USERS) if (user(u).equals(a)) return u; return String.valueOf(a); }
    static String hex(long v) { return "0x" + Long.toHexString(v); }
    public void apply(String op, MC.Ctx c) {
        String[] p = op.split(" "); exp = new ArrayList<>(); St b = st.copy(); boolean ok = ref(p); if (!ok) { st = b; exp.clear(); }
        World.Result r = run(p); st.n++; w.height(100 + st.now / STEP);
        c.check(ok == r.ok, ok ? "refused" : "accepted", () -> op + ": " + r); if (ok != r.ok) return;
        List<String> got = new ArrayList<>();
        for (World.Event e : r.events) switch (e.name) {
            case "Twice": got.add("given twice"); break;
            case "SyndicationStart": got.add("start " + e.args[0] + " " + e.args[1] + " " + e.args[2] + " " + who(e.args[3]) + " " + e.args[4] + " " + e.args[5]); break;
            case "SyndicationEnded": got.add("ended " + e.args[0] + " " + e.args[1] + " " + e.args[2]); break;
            case "DepositInfo": got.add("deposit " + e.args[0] + " " + e.args[1] + " " + who(e.args[2]) + " " + e.args[3]); break; }
        c.equal("events", exp, got, op + ": events");
        for (String t : TOK) {
            for (String u : USERS) { c.equal("tokens", get("tok " + t + " " + u), w.query(tok(t), "balanceOf", t.equals("M") ? new Object[]{user(u), bi(7)} : new Object[]{user(u)}), op + ": " + t + " of " + u); c.equal("claimable", get("claim " + t + " " + u), w.query(FA, "getTokenBalance", t, user(u)), op + ": claimable " + t + " of " + u); Syn s = st.syn.get(t); if (s != null) c.equal("deposited", s.dep.getOrDefault(u, 0L), w.query(FA, "getDepositedAmount", t, user(u)), op + ": deposit of " + u + " for " + t); }
            Syn s = st.syn.get(t); long held = get("tok " + t + " FA"), lock = locked(t), run = s == null ? 0 : s.amount;
            c.equal("tokens", held, w.query(tok(t), "balanceOf", t.equals("M") ? new Object[]{FA, bi(7)} : new Object[]{FA}), op + ": " + t + " of the contract");
            c.check(held >= lock + run, "backing", () -> op + ": " + held + " " + t + " held, " + lock + " claimable and " + run + " in auction");
            c.equal("available", running(t) ? run : held - lock - run, w.query(FA, "availableBalance", t), op + ": available " + t);
            Map<?, ?> m = (Map<?, ?>) w.query(FA, "getCurrentSyndication", t);
            c.equal("auction", !running(t) ? "none" : s.id + " " + s.amount + " " + s.total + " " + abs(s.start) + " " + abs(s.end), m == null ? "none" : dec(m, "_id") + " " + dec(m, "_tokenAmount") + " " + dec(m, "_totalDeposited") + " " + dec(m, "_startTime") + " " + dec(m, "_endTime"), op + ": auction of " + t);
        }
        long owed = 0; for (Syn s : st.syn.values()) owed += s.total;
        for (String u : USERS) { c.equal("coins", get("coin " + u), w.balance(user(u)), op + ": coins of " + u); c.equal("refundable", get("refund " + u), w.query(FA, "getRefundableBalance", user(u)), op + ": refundable to " + u); owed += get("refund " + u); }
        c.equal("fund", get("coin CPS"), w.balance(CPS), op + ": coins of the fund"); long o = owed;
        c.check(w.balance(FA).equals(bi(o)), "coins-backing", () -> op + ": the contract holds " + w.balance(FA) + " coins and owes " + o);
        c.equal("duration", st.dur, w.query(FA, "getDurationTime"), op + ": duration");
        World.Snap z = w.snap(); Address a = user("a");
        deny(c, z, a, "registerIRC2", "N", tok("T")); deny(c, z, a, "registerIRC31", "N", tok("M"), bi(8), bi(1)); deny(c, z, a, "setDurationTime", bi(STEP)); deny(c, z, OWNER, "registerIRC2", "T", tok("M")); deny(c, z, OWNER, "registerIRC31", "T", tok("M"), bi(8), bi(1)); deny(c, z, OWNER, "registerIRC2", "N", a); deny(c, z, OWNER, "registerIRC31", "N", a, bi(8), bi(1)); for (long i : new long[]{0, -1}) { deny(c, z, OWNER, "registerIRC31", "N", tok("M"), bi(i), bi(1)); deny(c, z, OWNER, "setDurationTime", bi(i)); }
        c.equal("registered", "[T " + tok("T") + " 0, M " + tok("M") + " 7]", names(), op + ": tokens");
    }
    List<String> names() { List<String> l = new ArrayList<>(); for (Object o : (List<?>) w.query(FA, "tokens")) { Map<?, ?> m = (Map<?, ?>) o; l.add(m.get("name") + " " + m.get("address") + " " + m.get("tokenId")); } return l; }
    static long dec(Map<?, ?> m, String k) { return Long.decode(String.valueOf(m.get(k))); }
    void deny(MC.Ctx c, World.Snap z, Address a, String m, Object... args) { World.Result r = w.tx(a, FA, m, args); c.check(!r.ok, "unauthorized", () -> m + Arrays.deepToString(args) + " by " + a + " was accepted"); w.restore(z); }
    public static void main(String[] args) {
        MC mc = new MC("P37", args); mc.assumptions.add("each token registered once; token contracts, price source and fund are those of the explorer"); boolean t = mc.thorough;
        mc.explore("auction", () -> new P37(List.of("dep a T 100", "dep b T 333", "dep a T 0", "wait 1", "wait 2", "fee T 30", "claim a T", "claim b T", "withdraw a", "price T 5"), t ? 8 : 7), 20, 3_000_000);
        mc.explore("contract", () -> new P37(List.of("dep c M 200", "dep c T 700", "dep a M 90", "wait 2", "fee M 11", "fee T 20", "claim c M", "claim c T", "withdraw c", "reject", "frozen M"), t ? 8 : 7), 20, 3_000_000);
        mc.explore("two tokens", () -> new P37(List.of("dep a T 1", "dep a M 900", "dep b T 449", "dep b M 1", "wait 2", "fee T 1", "fee M 3", "claim a T", "claim b M", "withdraw b", "gift a 5"), t ? 8 : 7), 20, 3_000_000);
        mc.explore("rules", () -> new P37(List.of("dep a T 450", "dep a T 0", "dep b T 449", "dep a X 5", "dep b T 1", "wait 1", "wait 2", "fee T 7", "claim b T", "claim a X", "withdraw a", "price T 0", "price T 1", "price T 100000", "dur 1", "dur 3", "dur -1", "dur 0", "gift b 0", "frozen T"), t ? 6 : 5), 20, 3_000_000);
        mc.finish();
    }
}
