// modules: score-util lib bmc
import java.math.BigInteger;
import java.util.*;
import score.*;
import sim.*;
/** The message center's tables, who may change them, and messages that arrive in fragments. */
public class P33 implements MC.Model {
    static final String CLS = "foundation.icon.btp.bmc.BTPMessageCenter", NET = "N";
    static final BigInteger Z = BigInteger.ZERO, ONE = BigInteger.ONE;
    static Address ad(String p, int n) { return Address.fromString(p + String.format("%040x", n)); }
    static BigInteger bi(long v) { return BigInteger.valueOf(v); }
    static final Address OWNER = ad("hx", 1), BMC = ad("cx", 2), V1 = ad("cx", 0x11), V2 = ad("cx", 0x12), S1 = ad("cx", 0x21), S2 = ad("cx", 0x22), CHAIN = ad("cx", 0);
    static Address who(String n) { return n.equals("owner") ? OWNER : ad("hx", 0x1000 + n.hashCode() % 4096); }
    static String link(String l) { return "btp://" + l.charAt(0) + "/" + ad("cx", 0x300 + l.charAt(1)); } // Xa: network X, message center a
    static final class Link { String addr; int tx, rx; long nid, off; List<String> reach = new ArrayList<>(); Set<String> relays = new TreeSet<>(); Link copy() { Link l = new Link(); l.addr = addr; l.tx = tx; l.rx = rx; l.nid = nid; l.off = off; l.reach.addAll(reach); l.relays.addAll(relays); return l; } }
    static final class St { String handler; TreeSet<String> owners = new TreeSet<>(); TreeMap<String, Address> ver = new TreeMap<>(), svc = new TreeMap<>(); TreeMap<String, Link> links = new TreeMap<>(); TreeMap<String, String> routes = new TreeMap<>(); TreeMap<String, List<BigInteger>> fees = new TreeMap<>(); Set<Long> nids = new TreeSet<>(); TreeMap<String, List<String>> frag = new TreeMap<>(); TreeMap<String, Integer> fnext = new TreeMap<>(); int nsn;
        St copy() { St s = new St(); s.handler = handler; s.owners.addAll(owners); s.ver.putAll(ver); s.svc.putAll(svc); for (var e : links.entrySet()) s.links.put(e.getKey(), e.getValue().copy()); s.routes.putAll(routes); s.fees.putAll(fees); s.nids.addAll(nids); for (var e : frag.entrySet()) s.frag.put(e.getKey(), new ArrayList<>(e.getValue())); s.fnext.putAll(fnext); s.nsn = nsn; return s; } }
    final World w = new World(); St st = new St(); final List<String> ops;
    final class Verifier implements World.Native { public Object call(World w, String m, Object[] a) {
        if (m.equals("getStatus")) { Map<String, Object> r = new TreeMap<>(); r.put("height", bi(7)); r.put("extra", new byte[0]); return r; }
        if (m.equals("handleRelayMessage")) { w.event("Verify", a[1], a[2], a[3]); Object d; try { d = Rlp.dec((byte[]) a[3]); } catch (RuntimeException e) { return new byte[0][]; } if (!(d instanceof List)) return new byte[0][]; List<?> l = (List<?>) d; byte[][] r = new byte[l.size()][]; for (int i = 0; i < r.length; i++) r[i] = (byte[]) l.get(i); return r; }
        throw new RevertedException("no method"); } }
    P33(List<String> pre, List<String> ops) {
        this.ops = ops; w.deploy(V1, OWNER, new Verifier()); w.deploy(V2, OWNER, new Verifier()); w.deploy(CHAIN, OWNER, (w, m, a) -> { w.event("Btp", a[0], a[1]); return null; });
        for (Address s : new Address[]{S1, S2}) w.deploy(s, OWNER, (w, m, a) -> { if (m.equals("send")) return Context.call(BMC, "sendMessage", a); return null; });
        World.Result r = w.deploy(BMC, OWNER, CLS, NET); if (!r.ok) throw new IllegalStateException("deploy " + r);
        for (String p : pre) { String[] x = p.split(" "); if (!ref(x)) throw new IllegalStateException("setup " + p); World.Result q = run(x); if (!q.ok) throw new IllegalStateException("setup " + p + ": " + q); }
    }
    public Object save() { St s = st.copy(); return new Object[]{w.snap(), s}; }
    public void load(Object o) { w.enter(); Object[] a = (Object[]) o; w.restore((World.Snap) a[0]); st = ((St) a[1]).copy(); }
    public String key() { StringBuilder b = new StringBuilder(); w.dump(b); return b.toString() + st.nids + st.frag + st.fnext; }
    public List<String> ops() { return ops; }

    // ---- the reference: what an operation does; false: refused
    List<String> exp = new ArrayList<>(); int failCode;
    boolean no(int code) { failCode = code; return false; }
    static byte[] internal(String type, Object payload) { return Rlp.enc(Arrays.asList((Object) type, Rlp.enc(payload))); }
    void send(String net, byte[] payload) { Link l = st.links.get(net); st.nsn++; l.tx++; exp.add((l.nid > 0 ? "btp " + l.nid + " " : "msg " + l.addr + " " + l.tx + " ") + Rlp.hex(Rlp.enc(Arrays.asList(NET, net, "bmc", Z, payload, bi(st.nsn), null)))); }
    String next(String net) { if (st.links.containsKey(net)) return net; if (st.routes.containsKey(net)) return st.routes.get(net); for (String n : st.links.keySet()) for (String r : st.links.get(n).reach) if (netOf(r).equals(net)) return "*"; return null; }
    static String netOf(String a) { return a.substring(6, a.indexOf('/', 6)); }
    boolean ref(String[] p) {
        exp = new ArrayList<>(); failCode = 0; String a = p[1]; boolean owner = a.equals("owner") || st.owners.contains(a); Link l = p.length > 2 && p[2].matches("[XY][ab]") ? st.links.get(p[2].substring(0, 1)) : null; if (l != null && !l.addr.equals(link(p[2]))) l = null;
        if (!List.of("deliver", "frag", "send").contains(p[0]) && !owner) return no(p[0].endsWith("Owner") ? 11 : 11);
        switch (p[0]) {
            case "addOwner": return !p[2].equals("owner") && st.owners.add(p[2]);
            case "removeOwner": return !p[2].equals("owner") && st.owners.remove(p[2]);
            case "addVerifier": if (p[2].equals(NET)) return no(10); if (st.ver.containsKey(p[2])) return no(13); st.ver.put(p[2], p[3].equals("1") ? V1 : V2); return true;
            case "removeVerifier": return st.ver.remove(p[2]) != null;
            case "addService": if (!p[2].matches("[A-Za-z0-9]+") || p[2].equals("bmc") || st.svc.containsKey(p[2])) return no(0); st.svc.put(p[2], p[3].equals("1") ? S1 : S2); return true;
            case "removeService": return st.svc.remove(p[2]) != null;
            case "addBTPLink": case "addLink": {
                String net = p[2].substring(0, 1); long nid = p[0].equals("addLink") ? 0 : Long.parseLong(p[3]);
                if (p[0].equals("addBTPLink") && (nid < 1 || st.nids.contains(nid))) return no(0); if (!st.ver.containsKey(net)) return no(0); if (st.links.containsKey(net)) return no(0);
                List<Object> prev = new ArrayList<>(); for (String n : st.links.keySet()) { prev.add(st.links.get(n).addr); send(n, internal("Link", List.of((Object) link(p[2])))); }
                Link n = new Link(); n.addr = link(p[2]); n.nid = nid; if (nid > 0) st.nids.add(nid); st.links.put(net, n); send(net, internal("Init", List.of(prev))); return true; }
            case "setBTPLinkNetworkId": { if (l == null) return no(0); long nid = Long.parseLong(p[3]); if (nid < 1 || st.nids.contains(nid)) return no(0); l.nid = nid; l.off = l.tx; st.nids.add(nid); return true; }
            case "removeLink": { if (l == null) return no(0); String net = p[2].substring(0, 1); if (st.routes.containsValue(net)) return no(0); st.links.remove(net); st.nids.remove(l.nid); st.fees.remove(net); for (String n : st.links.keySet()) send(n, internal("Unlink", List.of((Object) link(p[2])))); return true; }
            case "addRoute": if (p[2].equals(p[3]) || st.routes.containsKey(p[2]) || !st.links.containsKey(p[3])) return no(0); st.routes.put(p[2], p[3]); return true;
            case "removeRoute": if (st.routes.remove(p[2]) == null) return no(0); st.fees.remove(p[2]); return true;
            case "setFee": { if (p.length == 3) { st.fees.remove(p[2]); return true; } int n = p.length - 3; if (n % 2 != 0) return no(0); List<BigInteger> v = new ArrayList<>(); for (int i = 3; i < p.length; i++) { v.add(new BigInteger(p[i])); if (v.get(i - 3).signum() < 0) return no(0); } if (n == 2 ? !st.links.containsKey(p[2]) : next(p[2]) == null) return no(0); st.fees.put(p[2], v); return true; }
            case "setFeeHandler": st.handler = p[2]; return true;
            case "addRelay": if (l == null) return no(0); return l.relays.add(p[3]);
            case "removeRelay": if (l == null) return no(0); return l.relays.remove(p[3]);
            case "deliver": { if (l == null || !st.ver.containsKey(p[2].substring(0, 1)) || !l.relays.contains(a)) return no(0); exp.add("verify " + l.addr + " " + l.rx + " " + Rlp.hex(batch(p, l))); if (p.length > 3) { l.rx++; got(l, p); } return true; }
            case "frag": { String k = p[2] + " " + a; int idx = Integer.parseInt(p[3]); if (l == null || !l.relays.contains(a)) return no(0);
                if (idx < 0) { st.frag.put(k, new ArrayList<>(List.of(p[4]))); st.fnext.put(k, -idx - 1); return true; }
                if (!st.fnext.containsKey(k) || st.fnext.get(k) != idx) return no(0); List<String> f = st.frag.get(k);
                if (idx > 0) { f.add(p[4]); st.fnext.put(k, idx - 1); return true; }
                if (!st.ver.containsKey(p[2].substring(0, 1))) return no(0); exp.add("verify " + l.addr + " " + l.rx + " " + Rlp.hex((String.join("", f) + p[4]).getBytes())); return true; }
            case "send": { Address s = st.svc.get(p[3]); if (s == null || !s.equals(p[1].equals("S1") ? S1 : S2)) return no(0); String nx = next(p[2]); if (nx == null) return no(0); if (st.fees.containsKey(p[2])) { BigInteger t = Z; for (BigInteger v : st.fees.get(p[2])) t = t.add(v); if (t.signum() > 0) return no(0); } st.nsn++; exp.add("via " + nx); if (!nx.equals("*")) st.links.get(nx).tx++; return true; }
        }
        throw new IllegalStateException(p[0]);
    }
    void got(Link l, String[] p) { List<String> r = new ArrayList<>(); for (int i = 4; i < p.length; i++) r.add(link(p[i])); switch (p[3]) { case "Init": case "Link": for (String x : r) if (!l.reach.contains(x)) l.reach.add(x); break; case "Unlink": l.reach.removeAll(r); } }
    byte[] batch(String[] p, Link l) { if (p.length == 3) return Rlp.enc(List.of()); List<Object> r = new ArrayList<>(); for (int i = 4; i < p.length; i++) r.add(link(p[i])); byte[] pay = internal(p[3], p[3].equals("Init") ? List.of(r) : List.of(r.get(0))); return Rlp.enc(List.of(Rlp.enc(Arrays.asList(netOf(link(p[2])), NET, "bmc", Z, pay, bi(100), null)))); }
    static String b64(byte[] b) { return Base64.getUrlEncoder().encodeToString(b); }
    World.Result run(String[] p) {
        Address a = who(p[1]);
        switch (p[0]) {
            case "addOwner": case "removeOwner": return w.tx(a, BMC, p[0], who(p[2]));
            case "addVerifier": return w.tx(a, BMC, p[0], p[2], p[3].equals("1") ? V1 : V2);
            case "addService": return w.tx(a, BMC, p[0], p[2], p[3].equals("1") ? S1 : S2);
            case "removeVerifier": case "removeService": case "removeRoute": return w.tx(a, BMC, p[0], p[2]);
            case "addLink": case "removeLink": return w.tx(a, BMC, p[0], link(p[2]));
            case "addBTPLink": case "setBTPLinkNetworkId": return w.tx(a, BMC, p[0], link(p[2]), new BigInteger(p[3]));
            case "addRoute": return w.tx(a, BMC, p[0], p[2], p[3]);
            case "setFee": { BigInteger[] v = new BigInteger[p.length - 3]; for (int i = 0; i < v.length; i++) v[i] = new BigInteger(p[i + 3]); return w.tx(a, BMC, "setFeeTable", new String[]{p[2]}, new BigInteger[][]{v}); }
            case "setFeeHandler": return w.tx(a, BMC, p[0], who(p[2]));
            case "addRelay": case "removeRelay": return w.tx(a, BMC, p[0], link(p[2]), who(p[3]));
            case "deliver": return w.tx(a, BMC, "handleRelayMessage", link(p[2]), b64(batch(p, null)));
            case "frag": return w.tx(a, BMC, "handleFragment", link(p[2]), b64(p[4].getBytes()), bi(Long.parseLong(p[3])));
            case "send": return w.tx(OWNER, p[1].equals("S1") ? S1 : S2, "send", p[2], p[3], ONE, new byte[]{1});
        }
        throw new IllegalStateException(p[0]);
    }
    public void apply(String op, MC.Ctx c) {
        String[] p = op.split(" "); St b = st.copy(); boolean ok = ref(p); if (!ok) { st = b; exp.clear(); } World.Result r = run(p);
        if (ok != r.ok) { c.fail(ok ? "refused" : p[0].equals("deliver") || p[0].equals("frag") || p[0].equals("send") || !(p[1].equals("owner") || st.owners.contains(p[1])) ? "unauthorized" : "accepted", op + ": " + r); return; }
        c.check(true, "result", () -> "");
        if (ok) { List<String> got = new ArrayList<>(); for (World.Event e : r.events) switch (e.name) { case "Message": got.add("msg " + e.args[0] + " " + e.args[1] + " " + Rlp.hex((byte[]) e.args[2])); break; case "Btp": got.add("btp " + e.args[0] + " " + Rlp.hex((byte[]) e.args[1])); break; case "Verify": got.add("verify " + e.args[0] + " " + e.args[1] + " " + Rlp.hex((byte[]) e.args[2])); break; }
            if (p[0].equals("send")) { String via = exp.get(0).substring(4); String to = null; for (String n : st.links.keySet()) { Link l = st.links.get(n); if (got.size() == 1 && (l.nid > 0 ? got.get(0).startsWith("btp " + l.nid + " ") : got.get(0).startsWith("msg " + l.addr + " "))) to = n; }
                if (via.equals("*")) { boolean any = false; if (to != null) for (String x : st.links.get(to).reach) any |= netOf(x).equals(p[2]); String t = to; c.check(any, "route", () -> op + ": sent to " + t); if (to != null) st.links.get(to).tx++; } else c.equal("route", via, to, op + ": next network"); }
            else { Collections.sort(exp, Comparator.comparing(P33::noSn)); Collections.sort(got, Comparator.comparing(P33::noSn)); List<String> x = new ArrayList<>(), y = new ArrayList<>(); for (String s : exp) x.add(noSn(s)); for (String s : got) y.add(noSn(s)); c.equal("messages", x, y, op + ": messages sent and passed to the verifier"); } }
        views(c, op);
    }
    /** Announcements to several links go out in any order, so their network serial numbers are interchangeable. */
    static String noSn(String s) { if (s.startsWith("verify")) return s; int i = s.lastIndexOf(' '); try { List<Object> l = new ArrayList<>((List<?>) Rlp.dec(hexToBytes(s.substring(i + 1)))); l.set(5, null); List<Object> in = new ArrayList<>((List<?>) Rlp.dec((byte[]) l.get(4))); if (Rlp.str(in.get(0)).equals("Init")) { List<?> x = (List<?>) Rlp.dec((byte[]) in.get(1)); List<String> t = new ArrayList<>(); for (Object o : (List<?>) x.get(0)) t.add(Rlp.str(o)); Collections.sort(t); return s.substring(0, i) + " Init " + t; } return s.substring(0, i + 1) + Rlp.hex(Rlp.enc(l)); } catch (RuntimeException e) { return s; } }
    static byte[] hexToBytes(String h) { byte[] b = new byte[h.length() / 2]; for (int i = 0; i < b.length; i++) b[i] = (byte) Integer.parseInt(h.substring(2 * i, 2 * i + 2), 16); return b; }
    static String sorted(Object l) { TreeSet<String> s = new TreeSet<>(); int n = 0; for (Object o : (List<?>) l) { s.add(o.toString()); n++; } return s + " " + n; }
    static String srt(Collection<?> l) { TreeSet<String> s = new TreeSet<>(); for (Object o : l) s.add(o.toString()); return s + " " + l.size(); }
    Object q(String m, Object... a) { try { return w.query(BMC, m, a); } catch (RuntimeException e) { return "refused"; } }
    void views(MC.Ctx c, String op) {
        List<Address> os = new ArrayList<>(List.of(OWNER)); for (String o : st.owners) os.add(who(o)); c.equal("owners", srt(os), sorted(q("getOwners")), op + ": owners");
        c.equal("verifiers", st.ver, q("getVerifiers"), op + ": verifiers"); c.equal("services", st.svc, q("getServices"), op + ": services");
        List<String> ls = new ArrayList<>(); for (Link l : st.links.values()) ls.add(l.addr); c.equal("links", srt(ls), sorted(q("getLinks")), op + ": links");
        Map<?, ?> rt = (Map<?, ?>) q("getRoutes"); Set<String> keys = new TreeSet<>(st.routes.keySet()); for (Link l : st.links.values()) for (String r : l.reach) keys.add(netOf(r)); c.equal("routes", keys, rt.keySet(), op + ": networks with a route");
        for (String k : keys) { Object g = rt.get(k); boolean fits = st.routes.containsKey(k) ? st.routes.get(k).equals(g) : g != null && st.links.containsKey(g) && st.links.get(g).reach.stream().anyMatch(x -> netOf(x).equals(k)); c.check(fits, "routes", () -> op + ": route to " + k + " goes to " + g); }
        for (String n : new String[]{"Xa", "Xb", "Ya"}) { Link l = st.links.get(n.substring(0, 1)); if (l != null && !l.addr.equals(link(n))) l = null;
            if (l == null) { c.equal("relays", "refused", q("getRelays", link(n)), op + ": relays of no link"); continue; }
            List<Address> rs = new ArrayList<>(); for (String r : l.relays) rs.add(who(r)); c.equal("relays", srt(rs), sorted(q("getRelays", link(n))), op + ": relays of " + n); c.equal("network-id", l.nid, q("getBTPLinkNetworkId", link(n)), op + ": network id of " + n); c.equal("network-id", l.nid == 0 ? "refused" : l.off, q("getBTPLinkOffset", link(n)), op + ": offset of " + n);
            if (st.ver.containsKey(n.substring(0, 1))) { Map<?, ?> s = (Map<?, ?>) q("getStatus", link(n)); c.equal("seq", l.tx + " " + l.rx, s.get("tx_seq") + " " + s.get("rx_seq"), op + ": sequence numbers of " + n); } }
        for (String n : new String[]{"X", "Y", "P", "Q"}) { boolean reach = next(n) != null; List<BigInteger> f = st.fees.getOrDefault(n, List.of()); c.equal("fees", reach ? List.of(f) : "refused", q("getFeeTable", (Object) new String[]{n}), op + ": fees to " + n); BigInteger one = Z, two = Z; for (int i = 0; i < f.size(); i++) { two = two.add(f.get(i)); if (i < f.size() / 2) one = one.add(f.get(i)); } c.equal("fees", reach ? one + " " + two : "refused refused", q("getFee", n, false) + " " + q("getFee", n, true), op + ": fee to " + n); }
        c.equal("fee-handler", st.handler == null ? null : who(st.handler), q("getFeeHandler"), op + ": fee handler");
        c.equal("network-sn", st.nsn, q("getNetworkSn"), op + ": network serial number");
    }
    static List<String> l(String... s) { List<String> r = new ArrayList<>(); for (String x : s) for (String y : x.split(";")) r.add(y.trim()); return r; }
    public static void main(String[] args) {
        MC mc = new MC("P33", args); mc.assumptions.add("databases, calls and events of java/sim"); boolean t = mc.thorough;
        String x = "addVerifier owner X 1", xy = x + ";addVerifier owner Y 2", two = xy + ";addLink owner Xa;addLink owner Ya";
        mc.explore("owners", () -> new P33(l(xy + ";addLink owner Xa"), l("addOwner owner o2", "removeOwner owner o2", "addOwner o2 o3", "removeOwner o2 o3", "addOwner o3 o4", "removeOwner o3 o2", "removeOwner o4 o4", "addOwner owner owner", "removeOwner owner owner", "addOwner owner o4", "removeOwner owner o3", "addVerifier o2 Z 1", "removeVerifier o3 Z", "addService o4 s 1", "removeService o2 s", "addRelay o3 Xa r1", "removeRelay o4 Xa r1", "addLink o2 Ya", "removeLink o3 Ya", "addRoute o4 P X", "removeRoute o2 P", "setFee o3 X 1 2", "setBTPLinkNetworkId o4 Xa 5", "addBTPLink o2 Ya 6", "setFeeHandler o2 h", "setFeeHandler owner g")), t ? 9 : 7, 400_000);
        mc.explore("links", () -> new P33(l(), l(xy.split(";")).size() > 0 ? l(x, "addVerifier owner N 1", "addVerifier owner Y 2", "removeVerifier owner X", "addLink owner Xa", "addLink owner Xb", "addLink owner Ya", "addBTPLink owner Xa 5", "addBTPLink owner Ya 5", "addBTPLink owner Ya 0", "setBTPLinkNetworkId owner Xa 6", "setBTPLinkNetworkId owner Xb 7", "removeLink owner Xa", "removeLink owner Xb", "removeLink owner Ya", "setFee owner X 3 4") : null), t ? 12 : 8, 400_000);
        mc.explore("routes", () -> new P33(l(two, "addRelay owner Xa r1", "addRelay owner Ya r1", "addService owner s 1"), l("addRoute owner P X", "addRoute owner P Y", "addRoute owner X X", "addRoute owner Q P", "addRoute owner Y X", "removeRoute owner P", "removeRoute owner Q", "deliver r1 Xa Init Pa Qa", "deliver r1 Xa Link Pa", "deliver r1 Xa Unlink Pa", "deliver r1 Ya Link Pb", "deliver r1 Ya Unlink Pb", "removeLink owner Xa", "removeLink owner Ya", "setFee owner P 1 2 3 4", "setFee owner P 1 2", "setFee owner P 1 2 3", "setFee owner P 0 0 0 0", "setFee owner P 1 -1 1 1", "setFee owner P", "setFee owner X 0 0", "send S1 P s", "send S1 X s", "send S1 Y s", "send S1 Q s")), t ? 6 : 5, 400_000);
        mc.explore("relays", () -> new P33(l(two), l("addRelay owner Xa r1", "addRelay owner Xa r2", "addRelay owner Xa r3", "addRelay owner Ya r1", "addRelay owner Xb r2", "removeRelay owner Xa r1", "removeRelay owner Xa r2", "removeRelay owner Xa r3", "removeRelay owner Ya r1", "removeRelay owner Xb r2", "removeLink owner Xa", "addLink owner Xa", "addLink owner Xb", "removeLink owner Xb", "deliver r1 Xa", "deliver r2 Xa", "deliver r3 Xa Link Pa", "deliver r1 Ya", "deliver r2 Xb")), t ? 12 : 8, 400_000);
        mc.explore("services", () -> new P33(l(two), l("addService owner s 1", "addService owner s 2", "addService owner u 2", "addService owner bmc 1", "addService owner a-b 1", "removeService owner s", "removeService owner u", "removeService owner v", "send S1 X s", "send S2 X s", "send S1 X u", "send S2 Y u", "send S1 Z s", "send S1 X bmc")), t ? 14 : 9, 400_000);
        List<String> fr = l("frag r1 Xa -2 aa", "frag r1 Xa -1 b", "frag r1 Xa -3 ccc", "frag r1 Xa 2 d", "frag r1 Xa 1 ee", "frag r1 Xa 0 f", "frag r2 Xa -1 g", "frag r2 Xa 0 hh", "frag r2 Xa 1 i", "frag r1 Ya -1 j", "frag r1 Ya 0 k", "frag r3 Xa -1 l", "frag r3 Xa 0 m", "frag r1 Xb -1 n");
        mc.explore("fragments", () -> new P33(l(two, "addRelay owner Xa r1", "addRelay owner Xa r2", "addRelay owner Ya r1"), fr), t ? 14 : 9, 400_000);
        mc.finish();
    }
}
