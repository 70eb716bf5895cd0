ID="p37-withdrawal-reentered"; PROPERTY="P37"; MODULES="fee-aggregation"
NEEDS="a depositor that is a contract, has coins to be refunded and asks again while it is being paid"
BREAKS="what is refundable is cleared only after the payment, so a contract is refunded out of other users' deposits"
F="javascore/fee-aggregation/src/main/java/foundation/icon/btp/FeeAggregationSCORE.java"
EDITS=[(F,"""        // Remove loser in
        this.refundableBalances.set(caller, BigInteger.ZERO);

        // refund to loser
        try {
            Context.transfer(caller, amount);
        } catch (Exception e) {
            Context.println("[Exception] Withdrawal " + e.getMessage());
            this.refundableBalances.set(caller, getSafeRefundableBalance(caller).add(amount));
        }
""","""        // refund to loser
        try {
            Context.transfer(caller, amount);

            // Remove loser in
            this.refundableBalances.set(caller, BigInteger.ZERO);
        } catch (Exception e) {
            Context.println("[Exception] Withdrawal " + e.getMessage());
        }
""")]
DEMO='''import java.math.BigInteger;
import java.util.*;
import score.*;
import sim.*;
public class Demo {
    static Address ad(String p, int n) { return Address.fromString(p + String.format("%040x", n)); }
    static void must(World.Result r) { if (!r.ok) throw new IllegalStateException("setup: " + r); }
    static long held = 50; static int depth;
    public static void main(String[] x) {
        World w = new World(); Address owner = ad("hx", 1), fa = ad("cx", 2), cps = ad("cx", 3), band = ad("cx", 4), tok = ad("cx", 5), app = ad("cx", 6), b = ad("hx", 7); w.give(app, BigInteger.valueOf(700)); w.give(b, BigInteger.valueOf(1000));
        w.deploy(cps, owner, (q, m, r) -> null); w.deploy(band, owner, (q, m, r) -> Map.of("rate", BigInteger.TEN)); w.deploy(tok, owner, (q, m, r) -> m.equals("decimals") ? BigInteger.ZERO : BigInteger.valueOf(held));
        w.deploy(app, owner, (q, m, r) -> { if (m.equals("fallback") && depth++ < 1) try { Context.call(fa, "withdrawal"); } catch (RevertedException e) { } return null; });
        must(w.deploy(fa, owner, "foundation.icon.btp.FeeAggregationSCORE", cps, band)); must(w.tx(owner, fa, "registerIRC2", "T", tok)); must(w.tx(owner, fa, "setDurationTime", BigInteger.ONE));
        must(w.tx(app, fa, BigInteger.valueOf(700), "deposit", "T")); held += 10; must(w.tx(b, fa, BigInteger.valueOf(900), "deposit", "T"));
        if (!w.query(fa, "getRefundableBalance", app).equals(BigInteger.valueOf(250))) throw new IllegalStateException("refundable");
        must(w.tx(app, fa, "withdrawal")); System.out.println("refunded " + w.balance(app)); System.exit(w.balance(app).equals(BigInteger.valueOf(250)) ? 0 : 1);
    }
}
'''
