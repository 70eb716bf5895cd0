ID="p31-claim-before-clearing"; PROPERTY="P31"; MODULES="score-util lib bmc"
NEEDS="a fee handler that is a contract and claims again while it is being paid"
BREAKS="claimReward clears the reward only after the payment, so a claimant that re-enters is paid twice"
F="javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java"
EDITS=[(F,"""        rewards.at(caller).set(_network, BigInteger.ZERO);
        if (_network.equals(btpAddr.net())) {
            Context.transfer(toAddress(_receiver), reward);
            ClaimReward(""","""        if (_network.equals(btpAddr.net())) {
            Context.transfer(toAddress(_receiver), reward);
            rewards.at(caller).set(_network, BigInteger.ZERO);
            ClaimReward("""),(F,"""        } else {
            BMCMessage bmcMessage = new BMCMessage(Internal.Claim.name(),""","""        } else {
            rewards.at(caller).set(_network, BigInteger.ZERO);
            BMCMessage bmcMessage = new BMCMessage(Internal.Claim.name(),""")]
DEMO='''import java.math.BigInteger;
import java.util.*;
import score.*;
import sim.*;
public class Demo {
    static Address ad(String p, int n) { return Address.fromString(p + String.format("%040x", n)); }
    static void must(World.Result r) { if (!r.ok) throw new IllegalStateException("setup: " + r); }
    public static void main(String[] x) {
        World w = new World(); Address owner = ad("hx", 1), bmc = ad("cx", 2), bmv = ad("cx", 3), svc = ad("cx", 4), fh = ad("cx", 5), user = ad("hx", 6); w.give(user, BigInteger.valueOf(1000));
        must(w.deploy(bmc, owner, "foundation.icon.btp.bmc.BTPMessageCenter", "A")); w.deploy(bmv, owner, (q, m, a) -> null);
        w.deploy(svc, owner, (q, m, a) -> Context.call(Context.getValue(), bmc, "sendMessage", a));
        w.deploy(fh, owner, (q, m, a) -> { try { Context.call(bmc, "claimReward", "A", fh.toString()); } catch (RevertedException e) { } return null; });
        must(w.tx(owner, bmc, "addVerifier", "B", bmv)); must(w.tx(owner, bmc, "addLink", "btp://B/" + bmc)); must(w.tx(owner, bmc, "addService", "svc", svc)); must(w.tx(owner, bmc, "setFeeTable", new String[]{"B"}, new BigInteger[][]{{BigInteger.valueOf(100), BigInteger.valueOf(100)}})); must(w.tx(owner, bmc, "setFeeHandler", fh));
        // 100 of 140 belong to the relay of the message, 40 to the fee handler
        must(w.tx(user, svc, BigInteger.valueOf(140), "send", "B", "svc", BigInteger.ZERO, new byte[]{1}));
        must(w.tx(fh, bmc, "claimReward", "A", fh.toString()));
        System.out.println("paid " + w.balance(fh) + ", left " + w.balance(bmc)); System.exit(w.balance(fh).intValue() == 40 && w.balance(bmc).intValue() == 100 ? 0 : 1);
    }
}
'''
