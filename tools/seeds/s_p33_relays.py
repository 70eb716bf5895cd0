ID="p33-relays-survive-link"; PROPERTY="P33"; MODULES="score-util lib bmc"
NEEDS="a link with two relays that is removed and added again"
BREAKS="removeLink counts up to a size that shrinks, so half of the relays stay registered for the link when it is added again"
EDITS=[("javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java","""        while (arrayDB.size() > 0) {
            arrayDB.removeLast();
        }
        BigInteger networkId""","""        for (int i = 0; i < arrayDB.size(); i++) {
            arrayDB.removeLast();
        }
        BigInteger networkId""")]
DEMO='''import java.math.BigInteger;
import java.util.*;
import score.*;
import sim.*;
public class Demo {
    static Address ad(String p, int n) { return Address.fromString(p + String.format("%040x", n)); }
    static void must(World.Result r) { if (!r.ok) throw new IllegalStateException("setup: " + r); }
    public static void main(String[] x) {
        World w = new World(); Address owner = ad("hx", 1), bmc = ad("cx", 2), bmv = ad("cx", 3), r1 = ad("hx", 5), r2 = ad("hx", 6); String b = "btp://B/" + bmc;
        must(w.deploy(bmc, owner, "foundation.icon.btp.bmc.BTPMessageCenter", "A")); w.deploy(bmv, owner, (q, m, a) -> new byte[0][]);
        must(w.tx(owner, bmc, "addVerifier", "B", bmv)); must(w.tx(owner, bmc, "addLink", b)); must(w.tx(owner, bmc, "addRelay", b, r1)); must(w.tx(owner, bmc, "addRelay", b, r2));
        must(w.tx(owner, bmc, "removeLink", b)); must(w.tx(owner, bmc, "addLink", b));
        boolean any = false; for (Address r : List.of(r1, r2)) { World.Result q = w.tx(r, bmc, "handleRelayMessage", b, "AAAA"); System.out.println(r + ": " + q); any |= q.ok; }
        System.exit(any ? 1 : 0);
    }
}
'''
