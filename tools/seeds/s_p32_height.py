ID="p32-height-of-empty-proof"; PROPERTY="P32"; MODULES="score-util lib bmv/bridge"
NEEDS="a relay message whose last receipt proof holds no event"
BREAKS="the verifier's height is not raised by receipt proofs without events, so proofs of lower heights are taken later"
F="javascore/bmv/bridge/src/main/java/foundation/icon/btp/bmv/bridge/BTPMessageVerifier.java"
EDITS=[(F,"""            height = rp.getHeight();
            for (""","""            if (rp.getEvents().size() > 0) {
                height = rp.getHeight();
            }
            for (""")]
DEMO='''import java.math.BigInteger;
import java.util.*;
import score.*;
import sim.*;
public class Demo {
    static Address ad(String p, int n) { return Address.fromString(p + String.format("%040x", n)); }
    static void must(World.Result r) { if (!r.ok) throw new IllegalStateException("setup: " + r); }
    public static void main(String[] x) {
        World w = new World(); Address owner = ad("hx", 1), bmc = ad("cx", 2), bmv = ad("cx", 3); w.deploy(bmc, owner, (q, m, a) -> null);
        must(w.deploy(bmv, owner, "foundation.icon.btp.bmv.bridge.BTPMessageVerifier", bmc, "B", BigInteger.TEN));
        must(w.tx(bmc, bmv, "handleRelayMessage", "btp://A/" + bmc, "btp://B/" + bmc, BigInteger.ZERO, Rlp.enc(List.of(List.of(Rlp.enc(Arrays.asList((Object) 0, Rlp.enc(List.of()), 20)))))));
        Object h = ((Map<?, ?>) w.query(bmv, "getStatus")).get("height"); System.out.println("height " + h); System.exit(String.valueOf(h).equals("20") ? 0 : 1);
    }
}
'''
