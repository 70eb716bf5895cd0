import java.math.BigInteger;
import java.nio.charset.StandardCharsets;
import java.util.*;
import score.*;
import sim.*;
/** Three networks A - B - C with the real message centers, stub services and verifiers that hand over the
 *  messages of a link in order. A reference of the protocol predicts every effect of every transaction. */
public class BmcWorld implements MC.Model {
    static final String BMC = "foundation.icon.btp.bmc.BTPMessageCenter";
    static final String[] NETS = {"A", "B", "C"};
    static final BigInteger Z = BigInteger.ZERO, ONE = BigInteger.ONE;
    static Address ad(String p, int n) { return Address.fromString(p + String.format("%040x", n)); }
    static final Address OWNER = ad("hx", 1), USER = ad("hx", 2), HANDLER = ad("cx", 3), CHAIN = ad("cx", 0);
    static Address bmc(String n) { return ad("cx", 0x100 + n.charAt(0)); }
    static Address bmv(String at, String of) { return ad("cx", 0x20000 + at.charAt(0) * 256 + of.charAt(0)); }
    static Address bsh(String n, String svc) { return ad("cx", 0x300000 + n.charAt(0) * 256 + svc.charAt(0)); }
    static Address relay(String at, String from) { return ad("hx", 0x400000 + at.charAt(0) * 256 + from.charAt(0)); }
    static String btp(String n) { return "btp://" + n + "/" + bmc(n); }
    static String netOf(String btp) { return btp.substring(6, btp.indexOf('/', 6)); }
    static BigInteger bi(long v) { return BigInteger.valueOf(v); }

    /** What a send looks like: from, to, service, wants an answer, behaviour of the receiving service. */
    record Send(String from, String to, String svc, boolean twoWay, String payload, int extra) { }
    final List<Send> sends; final int maxSends, maxBatch; final boolean claims, faults, drops; final boolean chkDelivery, chkFees; final Set<String> btpLinks;
    final World w = new World(); final Map<String, BigInteger> base = new TreeMap<>();

    static final class Msg { String src, dst, svc; BigInteger sn, nsn; byte[] payload; String feeNet; List<BigInteger> fees;
        Msg copy() { Msg m = new Msg(); m.src = src; m.dst = dst; m.svc = svc; m.sn = sn; m.nsn = nsn; m.payload = payload; m.feeNet = feeNet; m.fees = fees == null ? null : new ArrayList<>(fees); return m; }
        String text() { return src + ">" + dst + " " + svc + " sn=" + sn + " nsn=" + nsn + " " + pay(); }
        String pay() { if (sn.signum() < 0 && payload.length > 0) { List<?> l = (List<?>) Rlp.dec(payload); return "err(" + Rlp.num(l.get(0)) + ")"; } return Rlp.hex(payload); }
        String fee() { return feeNet + fees; } }
    static Msg decode(byte[] b) {
        List<?> l = (List<?>) Rlp.dec(b); Msg m = new Msg(); if (l.size() != 7) throw new IllegalStateException("fields");
        m.src = Rlp.str(l.get(0)); m.dst = Rlp.str(l.get(1)); m.svc = Rlp.str(l.get(2)); m.sn = Rlp.num(l.get(3)); m.payload = (byte[]) l.get(4); m.nsn = Rlp.num(l.get(5));
        if (l.get(6) != null) { List<?> f = (List<?>) l.get(6); m.feeNet = Rlp.str(f.get(0)); m.fees = new ArrayList<>(); for (Object o : (List<?>) f.get(1)) m.fees.add(Rlp.num(o)); }
        return m;
    }
    /** The reference's and the harness's state. */
    static final class St { World.Snap snap; Map<String, List<byte[]>> q = new TreeMap<>(); Map<String, Integer> rx = new TreeMap<>(), tx = new TreeMap<>(); Map<String, BigInteger> nsn = new TreeMap<>(), sn = new TreeMap<>();
        TreeMap<String, Msg> hold = new TreeMap<>(); TreeMap<String, BigInteger> reward = new TreeMap<>(); TreeMap<String, String> reqs = new TreeMap<>(); BigInteger[] paid = {Z, Z, Z}, out = {Z, Z, Z}; int sends, claims, faults, drops; TreeMap<String, Integer> open = new TreeMap<>(); TreeSet<String> credited = new TreeSet<>();
        St copy() { St s = new St(); for (var e : q.entrySet()) s.q.put(e.getKey(), new ArrayList<>(e.getValue())); s.rx.putAll(rx); s.tx.putAll(tx); s.nsn.putAll(nsn); s.sn.putAll(sn); for (var e : hold.entrySet()) s.hold.put(e.getKey(), e.getValue().copy()); s.reward.putAll(reward); s.reqs.putAll(reqs); s.paid = paid.clone(); s.out = out.clone(); s.sends = sends; s.claims = claims; s.faults = faults; s.drops = drops; s.open.putAll(open); s.credited.addAll(credited); return s; } }
    St st = new St();

    // ---- the stub contracts
    static byte[] u(String s) { return s.getBytes(StandardCharsets.UTF_8); }
    static final class Service implements World.Native {
        final String net, name; Service(String n, String s) { net = n; name = s; }
        public Object call(World w, String m, Object[] a) {
            switch (m) {
                case "fallback": return null;
                case "send": return Context.call(Context.getValue(), bmc(net), "sendMessage", a);
                case "handleBTPMessage": {
                    String p = new String((byte[]) a[3], StandardCharsets.UTF_8); BigInteger sn = (BigInteger) w.convert(BigInteger.class, a[2]);
                    w.event("Got", net, a[0], a[1], sn, p, Context.getCaller().equals(bmc(net)));
                    if (p.startsWith("rv")) throw new World.Revert(Integer.parseInt(p.substring(2)), "as told");
                    if (p.startsWith("ex")) throw new IllegalStateException("as told");
                    if (p.startsWith("reply")) Context.call(bi(p.equals("reply+") ? 5 : 0), bmc(net), "sendMessage", a[0], a[1], sn.negate(), u("re"));
                    if (p.startsWith("rprv")) { Context.call(bmc(net), "sendMessage", a[0], a[1], sn.negate(), u("re")); throw new World.Revert(3, "as told"); }
                    return null;
                }
                case "handleBTPError":
                    w.event("GotErr", net, a[0], a[1], w.convert(BigInteger.class, a[2]), w.convert(BigInteger.class, a[3]), Context.getCaller().equals(bmc(net)));
                    if (name.equals("bad")) throw new World.Revert(7, "as told");
                    return null;
            }
            throw new RevertedException("no method " + m);
        }
    }
    static final class Verifier implements World.Native { public Object call(World w, String m, Object[] a) {
        if (m.equals("getStatus")) { Map<String, Object> r = new TreeMap<>(); r.put("height", bi(7)); r.put("extra", new byte[0]); return r; }
        if (m.equals("handleRelayMessage")) { w.event("Verify", a[0], a[1], a[2], Context.getCaller().toString()); List<?> l = (List<?>) Rlp.dec((byte[]) a[3]); byte[][] r = new byte[l.size()][]; for (int i = 0; i < r.length; i++) r[i] = (byte[]) l.get(i); return r; }
        throw new RevertedException("no method"); } }
    int chainCalls, chainFail; // the chain's own contract: fails at the chainFail-th call of a transaction
    final class Chain implements World.Native { public Object call(World w, String m, Object[] a) {
        if (!m.equals("sendBTPMessage")) throw new RevertedException("no method");
        if (++chainCalls == chainFail) throw new RevertedException("chain refuses");
        w.event("Btp", Context.getCaller().toString(), a[0], a[1]); return null; } }

    BmcWorld(List<Send> sends, int maxSends, int maxBatch, boolean claims, boolean faults, boolean drops, Set<String> btpLinks, boolean delivery, boolean fees) {
        this.sends = sends; this.maxSends = maxSends; this.maxBatch = maxBatch; this.claims = claims; this.faults = faults; this.drops = drops; this.btpLinks = btpLinks; chkDelivery = delivery; chkFees = fees;
        w.deploy(CHAIN, OWNER, new Chain());
        w.deploy(HANDLER, OWNER, (w, m, a) -> { if (!m.equals("fallback")) throw new RevertedException("no method"); for (String n : NETS) if (bmc(n).equals(Context.getCaller())) try { Context.call(bmc(n), "claimReward", n, HANDLER.toString()); } catch (RevertedException e) { } return null; }); // on receiving, it tries to claim again
        for (String n : NETS) {
            must(w.deploy(bmc(n), OWNER, BMC, n)); w.give(USER, bi(1_000_000_000));
            for (String s : new String[]{"svc", "bad", "only"}) { w.deploy(bsh(n, s), OWNER, new Service(n, s)); w.give(bsh(n, s), bi(1_000_000)); if (!s.equals("only") || n.equals("A")) must(w.tx(OWNER, bmc(n), "addService", s, bsh(n, s))); }
        }
        for (String l : links()) { String at = l.substring(1), of = l.substring(0, 1); w.deploy(bmv(at, of), OWNER, new Verifier()); must(w.tx(OWNER, bmc(at), "addVerifier", of, bmv(at, of))); st.q.put(l, new ArrayList<>()); st.rx.put(l, 0); st.tx.put(l, 0); }
        for (String l : new String[]{"BA", "AB", "CB", "BC"}) { // link named by direction of messages: XY = from X to Y
            String from = l.substring(0, 1), to = l.substring(1);
            World.Result r = btpLinks.contains(l) ? w.tx(OWNER, bmc(from), "addBTPLink", btp(to), bi(l.charAt(0) * 10 + l.charAt(1))) : w.tx(OWNER, bmc(from), "addLink", btp(to)); must(r); take(r, null);
        }
        for (String l : links()) must(w.tx(OWNER, bmc(l.substring(1)), "addRelay", btp(l.substring(0, 1)), relay(l.substring(1), l.substring(0, 1))));
        for (boolean more = true; more; ) { more = false; for (String l : links()) if (st.rx.get(l) < st.q.get(l).size()) { more = true; World.Result r = w.tx(relay(l.substring(1), l.substring(0, 1)), bmc(l.substring(1)), "handleRelayMessage", btp(l.substring(0, 1)), pack(List.of(st.q.get(l).get(st.rx.get(l))))); must(r); st.rx.put(l, st.rx.get(l) + 1); take(r, null); } }
        for (String l : links()) { st.tx.put(l, st.q.get(l).size()); }
        must(w.tx(OWNER, bmc("A"), "addRoute", "D", "B"));
        must(w.tx(OWNER, bmc("A"), "setFeeTable", new String[]{"B", "C", "D"}, new BigInteger[][]{f("B"), f("AC"), f("AC")}));
        must(w.tx(OWNER, bmc("B"), "setFeeTable", new String[]{"A", "C"}, new BigInteger[][]{{bi(50), bi(60)}, {bi(70), bi(80)}}));
        must(w.tx(OWNER, bmc("C"), "setFeeTable", new String[]{"B", "A"}, new BigInteger[][]{{bi(11), bi(12)}, {bi(21), bi(22), bi(23), bi(24)}}));
        for (String n : NETS) { must(w.tx(OWNER, bmc(n), "setFeeHandler", HANDLER)); st.nsn.put(n, (BigInteger) w.query(bmc(n), "getNetworkSn")); st.sn.put(n, Z); base.put(n, st.nsn.get(n)); }
    }
    static BigInteger[] f(String k) { return k.equals("B") ? new BigInteger[]{bi(5), bi(6)} : new BigInteger[]{bi(1000), bi(200), bi(30), bi(4)}; }
    static List<BigInteger> table(String at, String to) { switch (at + to) { case "AB": return List.of(bi(5), bi(6)); case "AC": case "AD": return List.of(bi(1000), bi(200), bi(30), bi(4)); case "BA": return List.of(bi(50), bi(60)); case "BC": return List.of(bi(70), bi(80)); case "CB": return List.of(bi(11), bi(12)); case "CA": return List.of(bi(21), bi(22), bi(23), bi(24)); } return List.of(); }
    static List<String> links() { return List.of("AB", "BA", "BC", "CB"); }
    static void must(World.Result r) { if (!r.ok) throw new IllegalStateException("setup: " + r); }
    static String pack(List<byte[]> l) { return java.util.Base64.getUrlEncoder().encodeToString(Rlp.enc(l)); }
    static String next(String at, String dst) { if (at.equals("A")) return dst.equals("B") || dst.equals("C") || dst.equals("D") ? "B" : null; if (at.equals("B")) return dst.equals("A") || dst.equals("C") ? dst : null; return dst.equals("B") || dst.equals("A") ? "B" : null; }

    // ---- observing a transaction
    /** Moves the messages a transaction emitted to the links' queues; describes everything observable. */
    List<String> take(World.Result r, MC.Ctx c) {
        List<String> seen = new ArrayList<>();
        for (World.Event e : r.events) {
            String at = null; for (String n : NETS) if (bmc(n).equals(e.from)) at = n;
            switch (e.name) {
                case "Message": { String l = at + netOf((String) e.args[0]); List<byte[]> q = st.q.get(l); q.add((byte[]) e.args[2]);
                    if (c != null && chkDelivery) { c.equal("message-seq", q.size(), e.args[1], "sequence number of the message event on link " + l); c.equal("message-next", btp(l.substring(1)), e.args[0], "next hop of the message event"); if (btpLinks.contains(l)) c.fail("message-mode", "message event on a BTP link " + l); }
                    seen.add("msg " + l + " " + decode((byte[]) e.args[2]).text()); break; }
                case "Btp": { String l = null; for (String x : links()) if (bi(x.charAt(0) * 10 + x.charAt(1)).equals(e.args[1]) && bmc(x.substring(0, 1)).toString().equals(e.args[0])) l = x; if (l == null) { if (c != null) c.fail("btp-network", "message for an unknown network " + e); break; } st.q.get(l).add((byte[]) e.args[2]); seen.add("msg " + l + " " + decode((byte[]) e.args[2]).text()); break; }
                case "Got": case "GotErr": case "Verify": seen.add(e.toString()); break;
                case "BTPEvent": seen.add("ev " + at + " " + e.args[0] + " " + e.args[1] + " " + e.args[2] + " " + e.args[3]); break;
                case "MessageDropped": seen.add("drop " + at + " " + e.args[0] + " " + e.args[1] + " " + decode((byte[]) e.args[2]).text() + " " + e.args[3]); break;
                case "ClaimReward": seen.add("claim " + at + " " + e.args[0] + " " + e.args[1] + " " + e.args[2] + " " + e.args[3] + " " + e.args[4]); break;
                case "ClaimRewardResult": seen.add("claimres " + at + " " + e.args[0] + " " + e.args[1] + " " + e.args[2] + " " + e.args[3]); break;
            }
        }
        return seen;
    }
    // ---- the reference
    List<String> exp; List<Msg> expMsgs; int refChain;
    void rw(String at, Address who, String net, BigInteger v) { if (v.signum() > 0) st.reward.merge(at + " " + who + " " + net, v, BigInteger::add); }
    void collect(String at, Msg m) { if (m.fees != null) { BigInteger s = Z; for (BigInteger v : m.fees) s = s.add(v); rw(at, bmc(at), m.feeNet, s); } }
    static final class Err extends RuntimeException { final int code, ecode; Err(int c, int e) { code = c; ecode = e; } }
    void emit(String at, String to, Msg m, String ev, Msg evm) {
        String l = at + to;
        if (btpLinks.contains(l) && ++refChain == chainFail) throw new Err(1, 10);
        st.tx.merge(l, 1, Integer::sum); exp.add("msg " + l + " " + m.text()); expMsgs.add(m);
        if (evm.nsn.signum() < 0) exp.add("ev " + at + " " + evm.dst + " " + evm.nsn.negate() + " " + btp(to) + " " + ev); else exp.add("ev " + at + " " + evm.src + " " + evm.nsn + " " + btp(to) + " " + ev);
    }
    void refSend(String at, String to, String svc, BigInteger sn, byte[] payload, BigInteger value, boolean fill) {
        Msg m = new Msg(); m.src = at; m.dst = to; m.svc = svc; m.payload = payload; BigInteger n = st.nsn.get(at).add(ONE); if (fill) sn = n; m.sn = sn; m.nsn = n;
        String nx = next(at, to); if (nx == null) throw new Err(2, 21);
        List<BigInteger> t = table(at, to); m.fees = new ArrayList<>(sn.signum() > 0 ? t : t.subList(0, t.size() / 2)); m.feeNet = at; BigInteger sum = Z; for (BigInteger v : m.fees) sum = sum.add(v);
        if (value.compareTo(sum) < 0) throw new Err(1, 10);
        St keep = null; st.nsn.put(at, n); rw(at, bmc(at), at, value.subtract(sum)); st.paid[at.charAt(0) - 'A'] = st.paid[at.charAt(0) - 'A'].add(value);
        emit(at, nx, m, "SEND", m);
    }
    void refReply(String at, String to, String svc, BigInteger sn, byte[] payload, BigInteger value) {
        Msg h = st.hold.get(at + " " + to + " " + svc + " " + sn); String nx = next(at, to); if (nx == null) throw new Err(2, 21); if (h == null) throw new Err(1, 10);
        st.hold.remove(at + " " + to + " " + svc + " " + sn); rw(at, bmc(at), at, value); st.paid[at.charAt(0) - 'A'] = st.paid[at.charAt(0) - 'A'].add(value);
        Msg m = new Msg(); m.src = at; m.dst = to; m.svc = svc; m.sn = Z; m.payload = payload; m.nsn = h.nsn.negate(); m.feeNet = h.feeNet; m.fees = h.fees;
        emit(at, nx, m, "REPLY", m);
    }
    void refHandle(String at, Msg m) { // the message is for this network
        St b = st.copy(); List<String> be = new ArrayList<>(exp); List<Msg> bm = new ArrayList<>(expMsgs);
        String hk = at + " " + m.src + " " + m.svc + " " + m.sn; int s = m.sn.signum();
        try {
            if (s >= 0) {
                if (m.fees != null && s > 0) { Msg old = st.hold.get(hk); if (old != null) collect(at, old); Msg h = m.copy(); st.hold.put(hk, h); }
                if (m.svc.equals("bmc")) refInternal(at, m);
                else {
                    if (!has(at, m.svc)) throw new Err(3, 16);
                    String p = new String(m.payload, StandardCharsets.UTF_8);
                    exp.add(ev("Got", at, m.src, m.svc, m.sn, p, true));
                    if (p.startsWith("rv")) throw new Err(4, 40 + Integer.parseInt(p.substring(2))); if (p.startsWith("ex")) throw new Err(4, 40);
                    if (p.startsWith("reply")) { try { refReply(at, m.src, m.svc, m.sn, u("re"), bi(p.equals("reply+") ? 5 : 0)); } catch (Err e) { throw new Err(4, 40 + e.ecode); } }
                    if (p.startsWith("rprv")) { refReply(at, m.src, m.svc, m.sn, u("re"), Z); throw new Err(4, 43); }
                }
                if (s == 0) collect(at, m);
            } else {
                long code = Rlp.num(((List<?>) Rlp.dec(m.payload)).get(0)).longValue();
                if (m.svc.equals("bmc")) refResponse(at, m.nsn.negate(), code);
                else { if (!has(at, m.svc)) throw new Err(3, 16); exp.add(ev("GotErr", at, m.src, m.svc, m.sn.negate(), bi(code), true)); if (m.svc.equals("bad")) throw new Err(4, 47); }
                collect(at, m);
            }
        } catch (Err e) { // nothing of it remains, except what replaced an earlier unanswered request
            Msg old = s > 0 && m.fees != null ? b.hold.get(hk) : null; int rc = refChain; st = b; exp = be; expMsgs = bm; refChain = rc; if (old != null) { collect(at, old); st.hold.remove(hk); } throw e;
        }
    }
    static boolean has(String at, String svc) { return svc.equals("svc") || svc.equals("bad") || (svc.equals("only") && at.equals("A")); }
    static String ev(String n, Object... a) { StringBuilder s = new StringBuilder(n + "("); for (Object o : a) s.append(o instanceof byte[] ? Rlp.hex((byte[]) o) : String.valueOf(o)).append(","); return s + ")"; }
    void refInternal(String at, Msg m) {
        List<?> l = (List<?>) Rlp.dec(m.payload); String type = Rlp.str(l.get(0));
        if (type.equals("Claim")) {
            List<?> c = (List<?>) Rlp.dec((byte[]) l.get(1)); String rcv = Rlp.str(c.get(1)); Address a; try { a = Address.fromString(rcv); } catch (IllegalArgumentException e) { throw new Err(1, 10); }
            rw(at, a, at, Rlp.num(c.get(0)));
            refReply(at, m.src, "bmc", m.nsn, Rlp.enc(Arrays.asList("Response", Rlp.enc(Arrays.asList(0, "")))), Z); st.credited.add(m.src + " " + m.nsn);
        } else if (type.equals("Response")) refResponse(at, m.nsn.negate(), Rlp.num(((List<?>) Rlp.dec((byte[]) l.get(1))).get(0)).longValue());
        else throw new IllegalStateException("unexpected internal " + type);
    }
    void refResponse(String at, BigInteger nsn, long code) {
        String r = st.reqs.remove(at + " " + nsn); if (r == null) throw new Err(1, 10); String[] p = r.split(" "); // who net amount
        if (code != 0) rw(at, Address.fromString(p[0]), p[1], new BigInteger(p[2]));
        exp.add("claimres " + at + " " + p[0] + " " + p[1] + " " + nsn + " " + code);
    }
    void refDeliver(String at, String from, int seq, byte[] raw, Address who) {
        Msg m = decode(raw);
        if (m.fees != null && !m.fees.isEmpty()) rw(at, who, m.feeNet, m.fees.remove(0));
        try {
            if (m.dst.equals(at)) { refHandle(at, m); exp.add(m.nsn.signum() < 0 ? "ev " + at + " " + m.dst + " " + m.nsn.negate() + "  RECEIVE" : "ev " + at + " " + m.src + " " + m.nsn + "  RECEIVE"); }
            else { String nx = next(at, m.dst); if (nx == null) throw new Err(2, 21); emit(at, nx, m.copy(), "ROUTE", m); }
        } catch (Err e) {
            if (m.sn.signum() > 0) { try { refError(at, from, m, e.code); } catch (Err e2) { collect(at, m); drop(at, from, seq, m, e2); } }
            else { collect(at, m); drop(at, from, seq, m, e); }
        }
    }
    void drop(String at, String from, int seq, Msg m, Err e) { exp.add(m.nsn.signum() < 0 ? "ev " + at + " " + m.dst + " " + m.nsn.negate() + "  DROP" : "ev " + at + " " + m.src + " " + m.nsn + "  DROP"); exp.add("drop " + at + " " + btp(from) + " " + seq + " " + m.text() + " " + e.ecode); }
    void refError(String at, String from, Msg m, int code) {
        Msg x = new Msg(); x.src = at; x.dst = m.src; x.svc = m.svc; x.sn = m.sn.negate(); x.nsn = m.nsn.negate(); x.payload = Rlp.enc(Arrays.asList(code, "")); x.feeNet = m.feeNet; x.fees = m.fees == null ? null : new ArrayList<>(m.fees);
        int hop = table(at, m.src).size() / 2; if (x.fees != null && hop > 0 && x.fees.size() > hop) { int rem = x.fees.size() - hop; List<BigInteger> n = new ArrayList<>(x.fees.subList(rem, x.fees.size())); n.addAll(x.fees.subList(0, rem)); x.fees = n; }
        m.fees = x.fees; emit(at, from, x, "ERROR", m);
    }

    // ---- the model checker's view
    public Object save() { St s = st.copy(); s.snap = w.snap(); return s; }
    public void load(Object o) { w.enter(); st = ((St) o).copy(); w.restore(((St) o).snap); chainFail = 0; }
    public String key() { StringBuilder b = new StringBuilder(); w.dump(b); for (var e : st.q.entrySet()) { b.append(e.getKey()); for (byte[] m : e.getValue().subList(Math.min(st.rx.get(e.getKey()), e.getValue().size()), e.getValue().size())) b.append(Rlp.hex(m)).append('/'); } b.append(st.rx).append(st.hold.keySet()).append(st.reward).append(st.reqs).append(st.sends).append(st.claims).append(st.faults).append(st.drops).append(st.open); return b.toString(); }
    public List<String> ops() {
        List<String> r = new ArrayList<>();
        if (st.sends < maxSends) for (int i = 0; i < sends.size(); i++) r.add("send:" + i);
        for (String l : links()) { int n = st.q.get(l).size() - st.rx.get(l); for (int k = 1; k <= Math.min(n, maxBatch); k++) { r.add("dl:" + l + ":" + k + ":0"); if (faults && st.faults == 0 && !btpLinks.isEmpty()) for (int x = 1; x <= 2 * k; x++) r.add("dl:" + l + ":" + k + ":" + x); } if (drops && n > 0 && st.drops == 0) { Msg m = decode(st.q.get(l).get(st.rx.get(l))); if (has(l.substring(1), m.svc) && next(l.substring(1), m.src) != null) r.add("drop:" + l); } }
        for (String k : st.hold.keySet()) if (!k.contains(" bmc ")) r.add("rsp:" + k.replace(' ', ':'));
        if (claims && st.claims == 0) for (String k : st.reward.keySet()) if (st.reward.get(k).signum() > 0) { r.add("claim:" + k.replace(' ', ':') + ":good"); r.add("claim:" + k.replace(' ', ':') + ":bad"); }
        return r;
    }
    public void apply(String op, MC.Ctx c) {
        String[] p = op.split(":"); exp = new ArrayList<>(); expMsgs = new ArrayList<>(); refChain = 0; chainCalls = 0; chainFail = 0; World.Result r; boolean ok = true; St before = st.copy(); Map<String, Integer> qlen = new TreeMap<>(); for (String l : links()) qlen.put(l, st.q.get(l).size());
        switch (p[0]) {
            case "send": {
                Send s = sends.get(Integer.parseInt(p[1])); st.sends++; BigInteger sn = Z; if (s.twoWay) { sn = st.sn.get(s.from).add(s.extra == 9 && st.sn.get(s.from).signum() > 0 ? Z : ONE); st.sn.put(s.from, sn); }
                List<BigInteger> t = table(s.from, s.to); BigInteger v = bi(s.extra); for (BigInteger x : s.twoWay ? t : t.subList(0, t.size() / 2)) v = v.add(x); if (v.signum() < 0) v = Z;
                St b = st.copy(); try { refSend(s.from, s.to, s.svc, sn, u(s.payload), v, false); if (s.twoWay) st.open.merge(s.from + " " + s.svc + " " + sn, 1, Integer::sum); } catch (Err e) { ok = false; st = b; exp.clear(); expMsgs.clear(); }
                r = w.tx(USER, bsh(s.from, s.svc), v, "send", s.to, s.svc, sn, u(s.payload)); break;
            }
            case "rsp": {
                try { refReply(p[1], p[2], p[3], new BigInteger(p[4]), u("re"), Z); } catch (Err e) { ok = false; }
                r = w.tx(USER, bsh(p[1], p[3]), "send", p[2], p[3], new BigInteger(p[4]).negate(), u("re")); break;
            }
            case "claim": {
                String at = p[1], net = p[3]; Address who = Address.fromString(p[2]); BigInteger amount = st.reward.get(at + " " + who + " " + net); st.claims++; Address from = who.equals(bmc(at)) ? HANDLER : who; String rcv = p[4].equals("good") ? (net.equals(at) && from.equals(HANDLER) ? HANDLER : USER).toString() : "nobody"; BigInteger v = Z;
                St b = st.copy();
                if (net.equals(at)) { if (rcv.equals("nobody")) ok = false; else { st.reward.remove(at + " " + who + " " + net); st.out[at.charAt(0) - 'A'] = st.out[at.charAt(0) - 'A'].add(amount); exp.add("claim " + at + " " + who + " " + net + " " + rcv + " " + amount + " 0"); } }
                else { for (BigInteger x : table(at, net)) v = v.add(x); w.give(from, v); st.reward.remove(at + " " + who + " " + net);
                    refSend(at, net, "bmc", Z, Rlp.enc(Arrays.asList("Claim", Rlp.enc(Arrays.asList(amount, rcv)))), v, true); BigInteger n = st.nsn.get(at); st.reqs.put(at + " " + n, who + " " + net + " " + amount); exp.add("claim " + at + " " + who + " " + net + " " + rcv + " " + amount + " " + n); }
                if (!ok) { st = b; exp.clear(); }
                if (chkFees) { World.Snap z = w.snap(); Address x = USER.equals(who) ? OWNER : USER; w.give(x, v); if (st.reward.getOrDefault(at + " " + x + " " + net, Z).signum() == 0) { World.Result q = w.tx(x, bmc(at), v, "claimReward", net, USER.toString()); c.check(!q.ok, "claim-none", () -> op + ": claimed a reward that was not there"); } w.restore(z); }
                r = w.tx(from, bmc(at), v, "claimReward", net, rcv); break;
            }
            case "drop": {
                String l = p[1], from = l.substring(0, 1), at = l.substring(1); Msg m = decode(st.q.get(l).get(st.rx.get(l))); st.drops++; int seq = st.rx.get(l) + 1; st.rx.put(l, seq); Msg m2 = m.copy(); m2.dst = ""; m2.payload = new byte[0];
                if (m2.fees != null && !m2.fees.isEmpty()) rw(at, bmc(at), m2.feeNet, m2.fees.remove(0));
                if (m.sn.signum() > 0) refError(at, from, m2, 1); else { collect(at, m2); drop(at, from, seq, m2, new Err(1, 22)); }
                if (chkDelivery) { World.Snap z = w.snap(); BigInteger[] fv = m.fees == null ? new BigInteger[0] : m.fees.toArray(new BigInteger[0]); String fn = m.fees == null ? "" : m.feeNet;
                    Object[][] bad = {{USER, m.src, bi(seq), m.svc, m.sn, m.nsn, fn, fv}, {relay(at, from), m.src, bi(seq), m.svc, m.sn, m.nsn, fn, fv}, {OWNER, m.src, bi(seq + 1), m.svc, m.sn, m.nsn, fn, fv}, {OWNER, m.src, bi(seq - 1), m.svc, m.sn, m.nsn, fn, fv}, {OWNER, "E", bi(seq), m.svc, m.sn, m.nsn, fn, fv}, {OWNER, m.src, bi(seq), "none", m.sn, m.nsn, fn, fv}, {OWNER, m.src, bi(seq), m.svc, m.sn, Z, fn, fv}, {OWNER, m.src, bi(seq), m.svc, bi(-1), bi(3), fn, fv}, {OWNER, m.src, bi(seq), m.svc, bi(1), bi(-3), fn, fv}};
                    for (Object[] x : bad) { World.Result q = w.tx((Address) x[0], bmc(at), "dropMessage", Arrays.copyOfRange(x, 1, x.length)); c.check(!q.ok, "drop-refusal", () -> "dropMessage accepted: " + Arrays.toString(x)); w.restore(z); } }
                r = w.tx(OWNER, bmc(at), "dropMessage", m.src, bi(seq), m.svc, m.sn, m.nsn, m.fees == null ? "" : m.feeNet, m.fees == null ? new BigInteger[0] : m.fees.toArray(new BigInteger[0])); break;
            }
            default: { // dl
                String l = p[1], from = l.substring(0, 1), at = l.substring(1); int k = Integer.parseInt(p[2]); chainFail = Integer.parseInt(p[3]); if (chainFail > 0) st.faults++; int rx = st.rx.get(l); List<byte[]> ms = new ArrayList<>(st.q.get(l).subList(rx, rx + k));
                exp.add(ev("Verify", btp(at), btp(from), rx, bmc(at)));
                for (byte[] m : ms) { rx++; refDeliver(at, from, rx, m, relay(at, from)); }
                st.rx.put(l, rx);
                r = w.tx(relay(at, from), bmc(at), "handleRelayMessage", btp(from), pack(ms));
                if (chkDelivery) { // someone else may not
                    World.Snap s = w.snap(); World.Result x = w.tx(USER, bmc(at), "handleRelayMessage", btp(from), pack(ms)); c.check(!x.ok, "not-a-relay", () -> "a relay message of an unregistered relay was executed"); w.restore(s); }
            }
        }
        if (r.ok != ok) { if (chkDelivery) c.fail("result", op + ": " + (ok ? "refused: " + r : "accepted")); return; }
        if (!ok) return;
        List<String> got = take(r, c);
        if (chkDelivery) {
            List<String> a = new ArrayList<>(exp), b = new ArrayList<>(got); // events of one transaction in any relative order per kind
            for (String kind : new String[]{"msg", "Got", "Verify", "ev", "drop", "claim"}) { List<String> x = filter(a, kind), y = filter(b, kind); c.equal(kind.equals("msg") || kind.equals("Got") ? "delivery" : kind, x, y, op + ": " + kind); }
            for (String l : links()) { Object s = w.query(bmc(l.substring(0, 1)), "getStatus", btp(l.substring(1))); c.equal("tx-seq", st.q.get(l).size(), ((Map<?, ?>) s).get("tx_seq"), "tx_seq of link " + l); s = w.query(bmc(l.substring(1)), "getStatus", btp(l.substring(0, 1))); c.equal("rx-seq", st.rx.get(l), ((Map<?, ?>) s).get("rx_seq"), "rx_seq of link " + l); }
        }
        if (chkDelivery) { World.Snap z = w.snap(); // nothing but a request that waits for an answer can be answered
            for (String n : NETS) for (String from : NETS) for (String svc : new String[]{"svc", "bad"}) if (!from.equals(n)) for (long k = 1; k <= st.sn.get(from).longValue(); k++) if (!st.hold.containsKey(n + " " + from + " " + svc + " " + k)) {
                World.Result x = w.tx(USER, bsh(n, svc), "send", from, svc, bi(-k), u("re")); String what = op + ": " + svc + " on " + n + " answered request " + k + " of " + from + ", which does not wait for an answer"; c.check(!x.ok, "answered-twice", () -> what); if (x.ok) w.restore(z); } }
        if (chkFees) {
            List<String> x = new ArrayList<>(), y = new ArrayList<>(); for (Msg m : expMsgs) x.add(m.fee()); Map<String, Integer> at = new TreeMap<>(qlen); for (String e : exp) if (e.startsWith("msg ")) { String l = e.substring(4, 6); int i = at.get(l); at.put(l, i + 1); y.add(i < st.q.get(l).size() ? decode(st.q.get(l).get(i)).fee() : "none"); }
            c.equal("fee-list", x, y, op + ": fees carried by the messages");
            for (String n : NETS) for (String net : NETS) for (Address a : accounts()) c.equal("reward", st.reward.getOrDefault(n + " " + a + " " + net, Z), w.query(bmc(n), "getReward", net, a), op + ": reward of " + a + " at " + n + " for network " + net);
            for (int i = 0; i < 3; i++) c.equal("balance", st.paid[i].subtract(st.out[i]), w.balance(bmc(NETS[i])), "coins held by the message center " + NETS[i]);
            conserve(c, op);
            if (st.claims > 0) { World.Snap z = w.snap(); // a response for a claim that has ended or never was
                for (String n : NETS) for (BigInteger k = base.get(n).add(ONE); k.compareTo(st.nsn.get(n)) <= 0; k = k.add(ONE)) if (!st.reqs.containsKey(n + " " + k)) for (boolean err : new boolean[]{false, true}) { String from = n.equals("B") ? "A" : "B"; byte[] rs = Rlp.enc(Arrays.asList(1, "no"));
                    w.tx(relay(n, from), bmc(n), "handleRelayMessage", btp(from), pack(List.of(Rlp.enc(Arrays.asList((Object) from, n, "bmc", err ? k.negate() : Z, err ? rs : Rlp.enc(Arrays.asList("Response", rs)), k.negate(), null)))));
                    for (String net : NETS) for (Address a : accounts()) { String what = op + ": reward of " + a + " at " + n + " after a second response to claim " + k; c.equal("response-again", st.reward.getOrDefault(n + " " + a + " " + net, Z), w.query(bmc(n), "getReward", net, a), what); } w.restore(z); } }
        }
    }
    static List<String> filter(List<String> l, String k) { List<String> r = new ArrayList<>(); for (String s : l) if (s.startsWith(k)) r.add(s); return r; }
    static List<Address> accounts() { List<Address> l = new ArrayList<>(); for (String n : NETS) l.add(bmc(n)); for (String k : links()) l.add(relay(k.substring(1), k.substring(0, 1))); l.add(USER); return l; }
    /** Coins of a network paid as fees: every one is a reward, travels in a message or is held for an answer. */
    void conserve(MC.Ctx c, String op) {
        for (int i = 0; i < 3; i++) {
            String net = NETS[i]; BigInteger s = Z;
            for (String n : NETS) for (Address a : accounts()) s = s.add((BigInteger) w.query(bmc(n), "getReward", net, a));
            for (String l : links()) for (byte[] b : st.q.get(l).subList(Math.min(st.rx.get(l), st.q.get(l).size()), st.q.get(l).size())) { Msg m = decode(b); if (net.equals(m.feeNet)) for (BigInteger v : m.fees) s = s.add(v); }
            for (Msg h : st.hold.values()) if (net.equals(h.feeNet)) for (BigInteger v : h.fees) s = s.add(v);
            for (var e : st.reqs.entrySet()) { String[] p = e.getValue().split(" "); if (p[1].equals(net) && !st.credited.contains(e.getKey())) s = s.add(new BigInteger(p[2])); }
            BigInteger want = st.paid[i].subtract(st.out[i]), t = s; c.check(want.equals(s), "conservation", () -> op + ": fees paid in network " + net + " and not paid out: " + want + ", accounted for as rewards, in messages and for answers to come: " + t);
        }
    }
    public void end(MC.Ctx c) {
        if (!chkDelivery) return;
        c.check(st.hold.isEmpty(), "unanswered", () -> "requests never answered: " + st.hold.keySet());
    }
}
