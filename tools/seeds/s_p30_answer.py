ID="p30-failed-request-answerable"; PROPERTY="P30"; MODULES="score-util lib bmc"
NEEDS="a service that fails on a request and later still tries to answer it"
BREAKS="the record of a failed request stays, so the request is answered twice: by the error and by the late reply"
EDITS=[("javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java","""                if (responseInfoDictDb != null) {
                    responseInfoDictDb.set(sn, null);
                }
                throw""","""                throw""")]
DEMO='''import java.math.BigInteger;
import java.util.*;
import score.*;
import sim.*;
public class Demo {
    static Address ad(String p, int n) { return Address.fromString(p + String.format("%040x", n)); }
    static void must(World.Result r) { if (!r.ok) throw new IllegalStateException("setup: " + r); }
    public static void main(String[] x) {
        World w = new World(); Address owner = ad("hx", 1), bmc = ad("cx", 2), bmv = ad("cx", 3), svc = ad("cx", 4), relay = ad("hx", 6); String b = "btp://B/" + bmc; BigInteger one = BigInteger.ONE;
        byte[] req = Rlp.enc(Arrays.asList((Object) "B", "A", "svc", one, new byte[]{7}, one, Arrays.asList((Object) "B", List.of(one))));
        must(w.deploy(bmc, owner, "foundation.icon.btp.bmc.BTPMessageCenter", "A")); w.deploy(bmv, owner, (q, m, a) -> new byte[][]{req});
        w.deploy(svc, owner, (q, m, a) -> { if (m.equals("handleBTPMessage")) throw new World.Revert(5, "no"); return Context.call(bmc, "sendMessage", a); });
        must(w.tx(owner, bmc, "addVerifier", "B", bmv)); must(w.tx(owner, bmc, "addLink", b)); must(w.tx(owner, bmc, "addRelay", b, relay)); must(w.tx(owner, bmc, "addService", "svc", svc));
        World.Result r = w.tx(relay, bmc, "handleRelayMessage", b, "AAAA"); must(r); int answers = 0; for (World.Event e : r.events) if (e.name.equals("Message")) answers++;
        World.Result late = w.tx(owner, svc, "answer", "B", "svc", one.negate(), new byte[]{8}); if (late.ok) for (World.Event e : late.events) if (e.name.equals("Message")) answers++;
        System.out.println("answers: " + answers + ", late one: " + late); System.exit(answers == 1 ? 0 : 1);
    }
}
'''
