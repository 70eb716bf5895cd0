ID="p35-reclaim-reentered"; PROPERTY="P35"; MODULES="score-util lib nativecoin"
NEEDS="a failed transfer of a contract that reclaims again while it is being paid"
BREAKS="reclaim stores the reduced refundable only after the payment, so a contract is refunded more than it is owed"
F="javascore/nativecoin/src/main/java/foundation/icon/btp/nativecoin/NativeCoinService.java"
EDITS=[(F,"""        balance.setRefundable(balance.getRefundable().subtract(_value));
        setBalance(_coinName, owner, balance);

        if (name.equals(_coinName)) {
            Context.transfer(owner, _value);
        } else {
            transferFrom(Context.getAddress(), owner, generateTokenId(_coinName), _value);
        }
    }
""","""        balance.setRefundable(balance.getRefundable().subtract(_value));

        if (name.equals(_coinName)) {
            Context.transfer(owner, _value);
        } else {
            transferFrom(Context.getAddress(), owner, generateTokenId(_coinName), _value);
        }
        setBalance(_coinName, owner, balance);
    }
""")]
DEMO='''import java.math.BigInteger;
import java.util.*;
import score.*;
import sim.*;
public class Demo {
    static Address ad(String p, int n) { return Address.fromString(p + String.format("%040x", n)); }
    static void must(World.Result r) { if (!r.ok) throw new IllegalStateException("setup: " + r); }
    static int depth = 0;
    public static void main(String[] x) {
        World w = new World(); Address owner = ad("hx", 1), bmc = ad("cx", 2), ncs = ad("cx", 3), irc = ad("cx", 4), app = ad("cx", 5), user = ad("hx", 6); BigInteger v = BigInteger.valueOf(1000); w.give(user, v.multiply(BigInteger.TEN)); w.give(app, v);
        w.deploy(bmc, owner, (q, m, a) -> { switch (m) { case "getBtpAddress": return "btp://A/" + bmc; case "sendMessage": return BigInteger.ONE; default: return null; } });
        must(w.deploy(irc, owner, "foundation.icon.btp.nativecoin.irc31.OwnerBasedIRC31Supplier")); must(w.deploy(ncs, owner, "foundation.icon.btp.nativecoin.NativeCoinService", bmc, irc, "ACOIN"));
        w.deploy(app, owner, (q, m, a) -> { if (m.equals("fallback") && depth++ < 1) try { Context.call(ncs, "reclaim", "ACOIN", v); } catch (RevertedException e) { } return null; });
        must(w.tx(user, ncs, v.multiply(BigInteger.TEN), "transferNativeCoin", "btp://B/cx00")); must(w.tx(app, ncs, v, "transferNativeCoin", "btp://B/cx00"));
        must(w.tx(bmc, ncs, "handleBTPError", "B", "nativecoin", BigInteger.TWO, 1, "no route")); must(w.tx(app, ncs, "reclaim", "ACOIN", v));
        System.out.println("back: " + w.balance(app)); System.exit(w.balance(app).equals(v) ? 0 : 1);
    }
}
'''
