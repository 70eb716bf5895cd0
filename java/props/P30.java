// modules: score-util lib bmc
// with: BmcWorld.java
import java.util.*;
import sim.*;
public class P30 {
    public static void main(String[] args) { run("P30", args, true, false); }
    static BmcWorld.Send s(String f, String t, String v, boolean two, String p, int x) { return new BmcWorld.Send(f, t, v, two, p, x); }
    static void run(String prop, String[] args, boolean d, boolean f) {
        MC mc = new MC(prop, args);
        mc.assumptions.add("networks A - B - C with real message centers; stub verifiers (messages of a link in order) and services; chain semantics (calls, reverts, events, databases, RLPn) as in java/sim");
        List<BmcWorld.Send> all = List.of(s("A", "C", "svc", true, "reply", 0), s("A", "C", "svc", true, "later", 0), s("A", "C", "svc", true, "rv0", 0), s("A", "C", "svc", true, "rv6", 0), s("A", "C", "svc", true, "rv11", 0), s("A", "C", "svc", true, "ex", 0), s("A", "C", "svc", true, "rprv", 0),
            s("A", "C", "svc", false, "ok", 0), s("A", "C", "svc", false, "rv5", 3), s("A", "C", "only", true, "ok", 0), s("A", "C", "only", false, "ok", 0), s("A", "D", "svc", true, "ok", 0), s("A", "D", "svc", false, "ok", 0), s("A", "E", "svc", true, "ok", 0), s("A", "C", "bad", true, "rv1", 0), s("A", "D", "bad", true, "x", 0), s("A", "B", "svc", true, "reply+", 0), s("A", "B", "svc", true, "rv2", 7), s("A", "C", "svc", true, "ok", -1), s("C", "A", "svc", true, "reply", 0), s("B", "A", "svc", true, "rv3", 0), s("C", "A", "svc", false, "ok", 0));
        List<BmcWorld.Send> few = List.of(s("A", "C", "svc", true, "reply", 0), s("A", "C", "svc", true, "later", 0), s("A", "C", "svc", true, "rv6", 0), s("A", "D", "bad", true, "x", 0), s("C", "A", "svc", true, "later", 0), s("A", "C", "svc", false, "ex", 0));
        Set<String> none = Set.of(), btp = Set.of("AB", "CB", "BC"), btp2 = Set.of("BA", "AB");
        List<BmcWorld.Send> again = List.of(s("A", "C", "svc", true, "later", 0), s("A", "C", "svc", true, "reply", 9), s("A", "C", "svc", true, "rv3", 9), s("A", "C", "svc", true, "later", 9), s("C", "A", "svc", true, "ok", 9));
        boolean t = mc.thorough;
        mc.explore("pairs", () -> new BmcWorld(all, 2, 2, false, false, false, none, d, f), 60, 4_000_000);
        mc.explore("faults", () -> new BmcWorld(few, t ? 3 : 2, 2, false, true, false, btp, d, f), 60, 4_000_000);
        mc.explore("claims", () -> new BmcWorld(List.of(few.get(0), few.get(3), all.get(19), all.get(7)), t ? 3 : 2, 2, true, true, false, btp2, d, f), 60, 4_000_000);
        mc.explore("drops", () -> new BmcWorld(few, t ? 3 : 2, 1, false, false, true, none, d, f), 60, 4_000_000);
        mc.explore("again", () -> new BmcWorld(again, t ? 4 : 3, 2, false, false, false, none, d, f), 60, 4_000_000);
        if (t) mc.explore("triples", () -> new BmcWorld(few, 4, 2, false, false, false, none, d, f), 60, 6_000_000);
        mc.finish();
    }
}
