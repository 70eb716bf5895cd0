ID="p37-failed-claim-unlocked"; PROPERTY="P37"; MODULES="fee-aggregation"
NEEDS="a claim whose token transfer is refused, followed by a new auction of the same token before the user claims again"
BREAKS="a claim that could not be paid leaves its tokens unlocked, so the next auction sells tokens that are promised to the user"
F="javascore/fee-aggregation/src/main/java/foundation/icon/btp/FeeAggregationSCORE.java"
EDITS=[(F,"""        // release Token locked
        this.lockedBalances.set(_tokenName, this.getSafeLockBalance(_tokenName).subtract(amount));

        // Remove loser in
        this.tokenBalances.at(caller).set(_tokenName, BigInteger.ZERO);
""","""        // release Token locked
        BigInteger lockedBalance = this.getSafeLockBalance(_tokenName).subtract(amount);
        this.lockedBalances.set(_tokenName, lockedBalance);

        // Remove loser in
        this.tokenBalances.at(caller).set(_tokenName, BigInteger.ZERO);
"""),(F,"""            // Lock amount token to winner claims manually
            this.lockedBalances.set(_tokenName, getSafeLockBalance(_tokenName).add(amount));
""","""            // Lock amount token to winner claims manually
            this.lockedBalances.set(_tokenName, lockedBalance.max(BigInteger.ZERO));
""")]
DEMO='''import java.math.BigInteger;
import java.util.*;
import score.*;
import sim.*;
public class Demo {
    static Address ad(String p, int n) { return Address.fromString(p + String.format("%040x", n)); }
    static void must(World.Result r) { if (!r.ok) throw new IllegalStateException("setup: " + r); }
    static long held = 50; static boolean frozen;
    public static void main(String[] x) {
        World w = new World(); Address owner = ad("hx", 1), fa = ad("cx", 2), cps = ad("cx", 3), band = ad("cx", 4), tok = ad("cx", 5), a = ad("hx", 6), b = ad("hx", 7); w.give(a, BigInteger.valueOf(1000)); w.give(b, BigInteger.valueOf(1000));
        w.deploy(cps, owner, (q, m, r) -> null); w.deploy(band, owner, (q, m, r) -> Map.of("rate", BigInteger.TEN));
        w.deploy(tok, owner, (q, m, r) -> { switch (m) { case "decimals": return BigInteger.ZERO; case "balanceOf": return BigInteger.valueOf(held); default: if (frozen) throw new World.Revert(1, "frozen"); held -= ((BigInteger) r[1]).longValue(); return null; } });
        must(w.deploy(fa, owner, "foundation.icon.btp.FeeAggregationSCORE", cps, band)); must(w.tx(owner, fa, "registerIRC2", "T", tok)); must(w.tx(owner, fa, "setDurationTime", BigInteger.ONE));
        must(w.tx(a, fa, BigInteger.valueOf(450), "deposit", "T")); held += 10; must(w.tx(b, fa, BigInteger.valueOf(90), "deposit", "T"));
        if (!w.query(fa, "getTokenBalance", "T", a).equals(BigInteger.valueOf(50))) throw new IllegalStateException("shares");
        frozen = true; must(w.tx(a, fa, "claim", "T")); frozen = false;
        Object free = w.query(fa, "availableBalance", "T"); System.out.println("claimable " + w.query(fa, "getTokenBalance", "T", a) + ", free " + free + " of " + held);
        World.Result r = w.tx(b, fa, BigInteger.valueOf(90), "deposit", "T"); System.out.println("another auction: " + r); System.exit(r.ok ? 1 : 0);
    }
}
'''
