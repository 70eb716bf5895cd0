// modules: score-util lib bmc xcall
// with: BmcWorld.java
import java.math.BigInteger;
import java.nio.charset.StandardCharsets;
import java.util.*;
import score.*;
import sim.*;
/** Arbitrary calls between networks: executed at most once, rolled back exactly when they failed, fees in the right hands.
 *  Networks A - B - C with real message centers, the real call service on A and C, applications as told by their data. */
public class P34 implements MC.Model {
    static final String XC = "foundation.icon.btp.xcall.CallServiceImpl";
    static final BigInteger Z = BigInteger.ZERO, ONE = BigInteger.ONE;
    static final Address OWNER = BmcWorld.OWNER, USER = BmcWorld.USER, FH = BmcWorld.ad("hx", 0x77), ADMIN = BmcWorld.ad("hx", 0x78);
    static BigInteger bi(long v) { return BigInteger.valueOf(v); }
    static Address xc(String n) { return BmcWorld.ad("cx", 0x5000 + n.charAt(0)); }
    static Address app(String n) { return BmcWorld.ad("cx", 0x6000 + n.charAt(0)); }
    static Address bmc(String n) { return BmcWorld.bmc(n); }
    static String btp(String n) { return BmcWorld.btp(n); }
    static byte[] u(String s) { return s.getBytes(StandardCharsets.UTF_8); }
    static final String[] XN = {"A", "C"};
    static final Map<String, Integer> ONEWAY = Map.of("AC", 30, "AB", 7, "AD", 30, "CA", 5, "CB", 0), TWOWAY = Map.of("AC", 100, "AB", 20, "AD", 100, "CA", 11, "CB", 0);
    /** rollback null: none; "-": present but empty. */
    record Call(String from, String to, boolean byApp, String account, String data, String rollback, int extra) { }
    static final class Req { int sn; String net, from, to, account, data, rollback; boolean enabled; Req copy() { Req r = new Req(); r.sn = sn; r.net = net; r.from = from; r.to = to; r.account = account; r.data = data; r.rollback = rollback; r.enabled = enabled; return r; } }
    static final class St { World.Snap snap; TreeMap<String, List<byte[]>> q = new TreeMap<>(); TreeMap<String, Integer> rx = new TreeMap<>(); TreeMap<String, Integer> sn = new TreeMap<>(), id = new TreeMap<>(); TreeMap<String, Req> req = new TreeMap<>(), proxy = new TreeMap<>(), sent = new TreeMap<>(); TreeMap<String, BigInteger> bal = new TreeMap<>(); TreeMap<String, Integer> fee = new TreeMap<>(); TreeMap<String, String> handler = new TreeMap<>(); int calls, admin;
        St copy() { St s = new St(); for (var e : q.entrySet()) s.q.put(e.getKey(), new ArrayList<>(e.getValue())); s.rx.putAll(rx); s.sn.putAll(sn); s.id.putAll(id); for (var e : req.entrySet()) s.req.put(e.getKey(), e.getValue().copy()); for (var e : proxy.entrySet()) s.proxy.put(e.getKey(), e.getValue().copy()); s.sent.putAll(sent); s.bal.putAll(bal); s.fee.putAll(fee); s.handler.putAll(handler); s.calls = calls; s.admin = admin; return s; } }
    final World w = new World(); St st = new St(); final List<Call> calls; final int maxCalls; final boolean admin;
    final class App implements World.Native { final String net; App(String n) { net = n; }
        public Object call(World w, String m, Object[] a) {
            if (m.equals("fallback")) return null;
            if (m.equals("call")) return Context.call(Context.getValue(), xc(net), "sendCallMessage", a);
            if (!m.equals("handleCallMessage")) throw new RevertedException("no method " + m);
            String d = a[1] == null ? "" : new String((byte[]) a[1], StandardCharsets.UTF_8); w.event("App", net, a[0], d.length() > 40 ? d.substring(0, 8) + d.length() : d, Context.getCaller().equals(xc(net)));
            if (d.startsWith("rv")) throw new World.Revert(Integer.parseInt(d.substring(2)), "as told");
            if (d.startsWith("ex")) throw new IllegalStateException("as told");
            if (d.startsWith("again")) for (int i = 0; i < 6; i++) for (String x : new String[]{"executeCall", "executeRollback"}) if (!others(net, x, i)) try { Context.call(xc(net), x, bi(i)); w.event("Twice", net, x, i); } catch (RevertedException e) { }
            if (d.startsWith("back")) Context.call(bi(ONEWAY.get("CA") + st.fee.getOrDefault("C", 0)), xc(net), "sendCallMessage", "btp://A/" + app("A"), u("ok"), null);
            return null;
        } }
    /** Calls that wait for someone to execute them are no repetition. */
    boolean others(String net, String x, int i) { if (x.equals("executeCall")) return st.proxy.containsKey(net + " " + i); Req r = st.req.get(net + " " + i); return r != null && r.enabled; }
    P34(List<Call> calls, int maxCalls, boolean admin) {
        this.calls = calls; this.maxCalls = maxCalls; this.admin = admin; w.give(USER, bi(1_000_000_000));
        for (String n : BmcWorld.NETS) must(w.deploy(bmc(n), OWNER, BmcWorld.BMC, n));
        for (String n : XN) { must(w.deploy(xc(n), OWNER, XC, bmc(n))); w.deploy(app(n), OWNER, new App(n)); w.give(app(n), bi(1_000_000)); must(w.tx(OWNER, bmc(n), "addService", "xcall", xc(n))); st.sn.put(n, 0); st.id.put(n, 0); }
        for (String l : BmcWorld.links()) { String at = l.substring(1), of = l.substring(0, 1); w.deploy(BmcWorld.bmv(at, of), OWNER, new BmcWorld.Verifier()); must(w.tx(OWNER, bmc(at), "addVerifier", of, BmcWorld.bmv(at, of))); st.q.put(l, new ArrayList<>()); st.rx.put(l, 0); }
        for (String l : new String[]{"BA", "AB", "CB", "BC"}) { World.Result r = w.tx(OWNER, bmc(l.substring(0, 1)), "addLink", btp(l.substring(1))); must(r); take(r); }
        for (String l : BmcWorld.links()) must(w.tx(OWNER, bmc(l.substring(1)), "addRelay", btp(l.substring(0, 1)), BmcWorld.relay(l.substring(1), l.substring(0, 1))));
        for (boolean more = true; more; ) { more = false; for (String l : BmcWorld.links()) if (st.rx.get(l) < st.q.get(l).size()) { more = true; World.Result r = deliver(l, 1); must(r); take(r); } }
        must(w.tx(OWNER, bmc("A"), "addRoute", "D", "B"));
        must(w.tx(OWNER, bmc("A"), "setFeeTable", new String[]{"B", "C", "D"}, new BigInteger[][]{{bi(7), bi(13)}, {bi(10), bi(20), bi(30), bi(40)}, {bi(10), bi(20), bi(30), bi(40)}}));
        must(w.tx(OWNER, bmc("C"), "setFeeTable", new String[]{"A"}, new BigInteger[][]{{bi(2), bi(3), bi(2), bi(4)}}));
        for (String n : XN) for (Address a : new Address[]{bmc(n), xc(n)}) st.bal.put(a.toString(), w.balance(a)); st.bal.put(FH.toString(), w.balance(FH));
    }
    static void must(World.Result r) { if (!r.ok) throw new IllegalStateException("setup: " + r); }
    World.Result deliver(String l, int k) { int rx = st.rx.get(l); List<byte[]> ms = new ArrayList<>(st.q.get(l).subList(rx, rx + k)); st.rx.put(l, rx + k); return w.tx(BmcWorld.relay(l.substring(1), l.substring(0, 1)), bmc(l.substring(1)), "handleRelayMessage", btp(l.substring(0, 1)), BmcWorld.pack(ms)); }
    void take(World.Result r) { for (World.Event e : r.events) if (e.name.equals("Message")) for (String n : BmcWorld.NETS) if (bmc(n).equals(e.from)) st.q.get(n + BmcWorld.netOf((String) e.args[0])).add((byte[]) e.args[2]); }
    public Object save() { St s = st.copy(); s.snap = w.snap(); return s; }
    public void load(Object o) { w.enter(); st = ((St) o).copy(); w.restore(((St) o).snap); }
    public String key() { StringBuilder b = new StringBuilder(); w.dump(b); for (var e : st.q.entrySet()) for (byte[] m : e.getValue().subList(st.rx.get(e.getKey()), e.getValue().size())) b.append(e.getKey()).append(Rlp.hex(m)); return b.append(st.calls).append(st.admin).append(st.req.keySet()).append(st.proxy.keySet()).toString(); }
    public List<String> ops() {
        List<String> r = new ArrayList<>();
        if (st.calls < maxCalls) for (int i = 0; i < calls.size(); i++) r.add("call " + i);
        for (String l : BmcWorld.links()) { int n = st.q.get(l).size() - st.rx.get(l); for (int k = 1; k <= Math.min(n, 2); k++) r.add("deliver " + l + " " + k); }
        for (String k : st.proxy.keySet()) r.add("exec " + k);
        for (var e : st.req.entrySet()) if (e.getValue().enabled) r.add("rollback " + e.getKey());
        if (admin && st.admin < 2 && st.calls < maxCalls) for (String n : new String[]{"A"}) { r.add("fee " + n + " 0"); r.add("fee " + n + " 9"); r.add("handler " + n + " yes"); r.add("handler " + n + " no"); }
        return r;
    }
    // ---- reference
    List<String> exp; boolean ok;
    void bal(Address a, long v) { st.bal.merge(a.toString(), bi(v), BigInteger::add); }
    static String shrt(String d) { return d.length() > 40 ? d.substring(0, 8) + d.length() : d; }
    void refSend(String n, Call c, Address from, long value) {
        long pf = st.fee.getOrDefault(n, 0); if ("yes".equals(st.handler.get(n))) bal(FH, pf); else bal(xc(n), pf); bal(bmc(n), value - pf);
        int sn = st.sn.merge(n, 1, Integer::sum); Req q = new Req(); q.sn = sn; q.net = n; q.from = from.toString(); q.to = c.to; q.account = c.account; q.data = c.data; q.rollback = c.rollback;
        if (c.rollback != null) st.req.put(n + " " + sn, q); st.sent.put(n + " " + sn, q);
        exp.add("sent " + n + " " + from + " btp://" + c.to + "/" + c.account + " " + sn); exp.add("out " + n + " " + c.to + " xcall " + (c.rollback != null ? sn : 0) + " request " + from + " " + c.account + " " + sn + " " + (c.rollback != null) + " " + shrt(c.data));
    }
    static final Address NOBODY = BmcWorld.ad("hx", 0x999);
    int runApp(String n, String account, String from, String data) { // the code of the call
        if (!account.equals(app(n).toString())) return -1;
        List<String> b = new ArrayList<>(exp); exp.add("app " + n + " " + from + " " + shrt(data) + " true");
        if (data.startsWith("rv")) { exp = b; int c = Integer.parseInt(data.substring(2)); return c == 0 ? -1 : c; } if (data.startsWith("ex")) { exp = b; return -1; }
        if (data.startsWith("back")) refSend(n, new Call("C", "A", true, app("A").toString(), "ok", null, 0), app("C"), ONEWAY.get("CA") + st.fee.getOrDefault("C", 0));
        return 0;
    }
    void refResponse(String n, String sn, int code) {
        Req q = st.req.get(n + " " + sn); if (q == null) return; exp.add("response " + n + " " + sn + " " + code);
        if (code == 0) st.req.remove(n + " " + sn); else { q.enabled = true; exp.add("canrollback " + n + " " + sn); }
    }
    void refDeliver(String at, byte[] raw, MC.Ctx c) {
        BmcWorld.Msg m = BmcWorld.decode(raw); if (!m.svc.equals("xcall")) { c.fail("service", "message of service " + m.svc); return; }
        if (!m.dst.equals(at)) return;
        if (m.sn.signum() < 0) { refResponse(at, m.sn.negate().toString(), -2); return; }
        if (!List.of(XN).contains(at)) return;
        List<?> l = (List<?>) Rlp.dec(m.payload); int type = Rlp.num(l.get(0)).intValue(); List<?> b = (List<?>) Rlp.dec((byte[]) l.get(1));
        if (type == 2) { refResponse(at, Rlp.num(b.get(0)).toString(), Rlp.num(b.get(1)).intValue()); return; }
        String sn = Rlp.num(b.get(2)).toString(); Req q = st.sent.get(m.src + " " + sn); int id = st.id.merge(at, 1, Integer::sum); st.proxy.put(at + " " + id, q); exp.add("callmsg " + at + " btp://" + q.net + "/" + q.from + " " + q.account + " " + sn + " " + id);
    }
    public void apply(String op, MC.Ctx c) {
        String[] p = op.split(" "); exp = new ArrayList<>(); ok = true; World.Result r; St b = st.copy(); String n;
        switch (p[0]) {
            case "call": {
                Call k = calls.get(Integer.parseInt(p[1])); n = k.from; st.calls++; b.calls++; Address from = k.byApp ? app(n) : USER; boolean two = k.rollback != null; Integer rel = (two ? TWOWAY : ONEWAY).get(n + k.to);
                long need = rel == null ? 50 : rel + st.fee.getOrDefault(n, 0), v = Math.max(0, need + k.extra);
                ok = rel != null && v >= need && (k.byApp || !two) && k.data.length() <= 2048 && (!two || k.rollback.length() <= 1024); if (ok) refSend(n, k, from, v);
                byte[] rb = two ? k.rollback.equals("-") ? new byte[0] : u(k.rollback) : null; String to = "btp://" + k.to + "/" + k.account;
                r = k.byApp ? w.tx(USER, app(n), bi(v), "call", to, u(k.data), rb) : w.tx(USER, xc(n), bi(v), "sendCallMessage", to, u(k.data), rb); break; }
            case "deliver": { n = p[1].substring(1); int k = Integer.parseInt(p[2]), rx = st.rx.get(p[1]); for (byte[] m : st.q.get(p[1]).subList(rx, rx + k)) refDeliver(n, m, c); r = deliver(p[1], k); break; }
            case "exec": { n = p[1]; Req q = st.proxy.remove(p[1] + " " + p[2]);
                int code = runApp(n, q.account, "btp://" + q.net + "/" + q.from, q.data); exp.add("executed " + n + " " + p[2] + " " + code); if (q.rollback != null) exp.add("out " + n + " " + q.net + " xcall 0 response " + q.sn + " " + code); r = w.tx(USER, xc(n), "executeCall", new BigInteger(p[2])); break; }
            case "rollback": { n = p[1]; Req q = st.req.remove(p[1] + " " + p[2]); int code = runApp(n, q.from, "btp://" + n + "/" + xc(n), q.rollback.equals("-") ? "" : q.rollback); exp.add("rolledback " + n + " " + p[2] + " " + code); r = w.tx(USER, xc(n), "executeRollback", new BigInteger(p[2])); break; }
            case "fee": st.admin++; b.admin++; st.fee.put(p[1], Integer.parseInt(p[2])); r = w.tx(OWNER, xc(p[1]), "setProtocolFee", new BigInteger(p[2])); break;
            default: st.admin++; b.admin++; st.handler.put(p[1], p[2]); if (p[2].equals("yes")) { String k = xc(p[1]).toString(); bal(FH, st.bal.get(k).longValue()); st.bal.put(k, Z); } r = w.tx(OWNER, xc(p[1]), "setProtocolFeeHandler", p[2].equals("yes") ? FH : null);
        }
        if (ok != r.ok) { c.fail(ok ? "refused" : "accepted", op + ": " + r); return; }
        c.check(true, "result", () -> "");
        if (!ok) st = b;
        List<String> got = new ArrayList<>(); if (ok) for (World.Event e : r.events) { String at = "?"; for (String x : BmcWorld.NETS) if (e.from.equals(xc(x)) || e.from.equals(bmc(x))) at = x; Object[] a = e.args; switch (e.name) {
            case "CallMessageSent": got.add("sent " + at + " " + a[0] + " " + a[1] + " " + a[2]); break;
            case "CallMessage": got.add("callmsg " + at + " " + a[0] + " " + a[1] + " " + a[2] + " " + a[3]); break;
            case "CallExecuted": got.add("executed " + at + " " + a[0] + " " + a[1]); break;
            case "ResponseMessage": got.add("response " + at + " " + a[0] + " " + a[1]); break;
            case "RollbackMessage": got.add("canrollback " + at + " " + a[0]); break;
            case "RollbackExecuted": got.add("rolledback " + at + " " + a[0] + " " + a[1]); break;
            case "App": got.add("app " + a[0] + " " + a[1] + " " + a[2] + " " + a[3]); break;
            case "Twice": got.add("twice " + a[0] + " " + a[1] + " " + a[2]); break;
            case "Message": if (!p[0].equals("deliver")) { BmcWorld.Msg m = BmcWorld.decode((byte[]) a[2]); List<?> l = (List<?>) Rlp.dec(m.payload); List<?> d = (List<?>) Rlp.dec((byte[]) l.get(1)); boolean rq = Rlp.num(l.get(0)).intValue() == 1;
                got.add("out " + m.src + " " + m.dst + " " + m.svc + " " + m.sn + (rq ? " request " + Rlp.str(d.get(0)) + " " + Rlp.str(d.get(1)) + " " + Rlp.num(d.get(2)) + " " + (Rlp.num(d.get(3)).signum() != 0) + " " + shrt(d.get(4) == null ? "" : new String((byte[]) d.get(4), StandardCharsets.UTF_8)) : " response " + Rlp.num(d.get(0)) + " " + Rlp.num(d.get(1)))); } break;
        } }
        if (ok) { take(r); for (String k : new String[]{"sent", "out", "callmsg", "executed", "response", "canrollback", "rolledback", "app", "twice"}) c.equal(k, BmcWorld.filter(exp, k + " "), BmcWorld.filter(got, k + " "), op + ": " + k); }
        for (var e : st.bal.entrySet()) c.equal("balance", e.getValue(), w.balance(Address.fromString(e.getKey())), op + ": coins of " + e.getKey());
        probes(c, op);
    }
    void refused(MC.Ctx c, String what, Address from, Address to, String m, Object... a) { World.Snap z = w.snap(); World.Result r = w.tx(from, to, m, a); c.check(!r.ok, "unauthorized", () -> what + " was accepted"); w.restore(z); }
    /** What must not be possible in any state. */
    void probes(MC.Ctx c, String op) {
        for (String n : XN) {
            for (int i = 0; i <= st.id.get(n) + 1; i++) if (!st.proxy.containsKey(n + " " + i)) refused(c, op + ": executeCall of " + i + " on " + n, USER, xc(n), "executeCall", bi(i));
            for (int i = 0; i <= st.sn.get(n) + 1; i++) { Req q = st.req.get(n + " " + i); if (q == null || !q.enabled) refused(c, op + ": executeRollback of " + i + " on " + n, USER, xc(n), "executeRollback", bi(i)); }
            for (Address a : new Address[]{USER, OWNER, app(n)}) { byte[] res = Rlp.enc(Arrays.asList((Object) 2, Rlp.enc(Arrays.asList((Object) 1, -1, "x"))));
                refused(c, op + ": handleBTPMessage from " + a, a, xc(n), "handleBTPMessage", "B", "xcall", ONE, res); refused(c, op + ": handleBTPError from " + a, a, xc(n), "handleBTPError", "B", "xcall", ONE, 1, "x"); }
            refused(c, op + ": another service's message", bmc(n), xc(n), "handleBTPMessage", "B", "other", ONE, Rlp.enc(Arrays.asList((Object) 2, Rlp.enc(Arrays.asList((Object) 1, -1, "x"))))); refused(c, op + ": another service's error", bmc(n), xc(n), "handleBTPError", "B", "other", ONE, 1, "x");
            refused(c, op + ": setAdmin", USER, xc(n), "setAdmin", USER); refused(c, op + ": setProtocolFee", USER, xc(n), "setProtocolFee", ONE); refused(c, op + ": setProtocolFeeHandler", USER, xc(n), "setProtocolFeeHandler", USER); refused(c, op + ": negative fee", OWNER, xc(n), "setProtocolFee", bi(-1));
            World.Snap z = w.snap(); World.Result r = w.tx(OWNER, xc(n), "setAdmin", ADMIN); c.check(r.ok, "admin", () -> "setAdmin " + r); refused(c, op + ": fee by the former admin", OWNER, xc(n), "setProtocolFee", ONE); World.Result r2 = w.tx(ADMIN, xc(n), "setProtocolFee", ONE); c.check(r2.ok, "admin", () -> "fee by the admin " + r2); refused(c, op + ": setAdmin by the admin", ADMIN, xc(n), "setAdmin", USER); w.restore(z);
            c.equal("fee-view", st.fee.getOrDefault(n, 0), w.query(xc(n), "getProtocolFee"), op + ": protocol fee"); for (String to : new String[]{"A", "B", "C", "D"}) if (ONEWAY.containsKey(n + to)) { c.equal("fee-view", ONEWAY.get(n + to) + st.fee.getOrDefault(n, 0), w.query(xc(n), "getFee", to, false), op + ": fee " + n + to); c.equal("fee-view", TWOWAY.get(n + to) + st.fee.getOrDefault(n, 0), w.query(xc(n), "getFee", to, true), op + ": fee " + n + to); }
        }
    }
    public void end(MC.Ctx c) { c.check(st.req.isEmpty(), "open", () -> "calls without a result: " + st.req.keySet()); c.check(st.proxy.isEmpty(), "open", () -> "calls not executed"); }
    static Call k(String f, String t, boolean a, String acc, String d, String rb, int x) { return new Call(f, t, a, acc == null ? app(t).toString() : acc, d, rb, x); }
    static String rep(int n) { char[] c = new char[n]; Arrays.fill(c, 'z'); return new String(c); }
    public static void main(String[] args) {
        MC mc = new MC("P34", args); mc.assumptions.add("networks A - B - C with real message centers and call services, stub verifiers; services of other networks are the genuine ones; chain of java/sim"); boolean t = mc.thorough;
        List<Call> all = List.of(k("A", "C", true, null, "ok", "rb", 0), k("A", "C", true, null, "rv0", "rb", 0), k("A", "C", true, null, "rv5", "rb", 2), k("A", "C", true, null, "ex", "rv3", 0), k("A", "C", true, null, "again", "rb", 0), k("A", "C", true, null, "rv7", "again", 0), k("A", "C", true, null, "back", "rb", 0), k("A", "C", true, null, "ok", "-", 0), k("A", "C", true, null, "rv1", "-", 0),
            k("A", "C", true, null, "ok", null, 0), k("A", "C", true, null, "rv2", null, 4), k("A", "C", false, null, "ok", null, 0), k("A", "C", false, null, "ok", "rb", 0), k("A", "C", true, null, "ok", "rb", -1), k("A", "C", true, null, "ok", null, -1), k("A", "C", true, "nobody", "ok", "rb", 0), k("A", "C", true, NOBODY.toString(), "ok", "rb", 0), k("A", "C", true, app("B").toString(), "ok", null, 0),
            k("A", "D", true, null, "ok", "rb", 0), k("A", "D", true, null, "ok", null, 0), k("A", "B", true, null, "ok", "ex", 0), k("A", "E", true, null, "ok", "rb", 0), k("C", "A", true, null, "ok", "rb", 0), k("C", "A", true, null, "ex", "rb", 0), k("A", "C", true, null, rep(2048), rep(1024), 0), k("A", "C", true, null, rep(2049), "rb", 0), k("A", "C", true, null, "ok", rep(1025), 0), k("A", "C", true, null, "", "rb", 0));
        List<Call> few = List.of(all.get(0), all.get(2), all.get(4), all.get(5), all.get(18), all.get(22), all.get(9));
        mc.explore("pairs", () -> new P34(all, 2, false), 40, 2_000_000);
        mc.explore("fees", () -> new P34(List.of(all.get(0), all.get(2), all.get(13), all.get(10), all.get(20)), t ? 3 : 2, true), 40, 2_000_000);
        mc.explore("several", () -> new P34(few, t ? 4 : 3, false), 40, 3_000_000);
        mc.finish();
    }
}
