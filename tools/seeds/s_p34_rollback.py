ID="p34-rollback-reentered"; PROPERTY="P34"; MODULES="score-util lib bmc xcall"
NEEDS="an application that asks for the rollback again while it runs it"
BREAKS="executeRollback forgets the request only after the application returned, so the rollback runs more than once"
F="javascore/xcall/src/main/java/foundation/icon/btp/xcall/CallServiceImpl.java"
EDITS=[(F,"""        Context.require(req.enabled(), "RollbackNotEnabled");
        cleanupCallRequest(_sn);
""","""        Context.require(req.enabled(), "RollbackNotEnabled");
"""),(F,"""            RollbackExecuted(_sn, msgRes""","""            cleanupCallRequest(_sn);
            RollbackExecuted(_sn, msgRes""")]
DEMO='''import java.math.BigInteger;
import java.util.*;
import score.*;
import sim.*;
public class Demo {
    static Address ad(String p, int n) { return Address.fromString(p + String.format("%040x", n)); }
    static void must(World.Result r) { if (!r.ok) throw new IllegalStateException("setup: " + r); }
    static int ran = 0;
    public static void main(String[] x) {
        World w = new World(); Address owner = ad("hx", 1), bmc = ad("cx", 2), xc = ad("cx", 3), app = ad("cx", 4);
        w.deploy(bmc, owner, (q, m, a) -> { switch (m) { case "getBtpAddress": return "btp://A/" + bmc; case "getFee": return BigInteger.ZERO; case "sendMessage": return BigInteger.ONE; default: return null; } });
        must(w.deploy(xc, owner, "foundation.icon.btp.xcall.CallServiceImpl", bmc));
        w.deploy(app, owner, (q, m, a) -> { if (m.equals("send")) return Context.call(xc, "sendCallMessage", "btp://B/cx00", new byte[]{1}, new byte[]{2}); if (++ran < 3) try { Context.call(xc, "executeRollback", BigInteger.ONE); } catch (RevertedException e) { } return null; });
        must(w.tx(owner, app, "send")); must(w.tx(bmc, xc, "handleBTPError", "B", "xcall", BigInteger.ONE, 1, "no route")); must(w.tx(owner, xc, "executeRollback", BigInteger.ONE));
        System.out.println("rollbacks run: " + ran); System.exit(ran == 1 ? 0 : 1);
    }
}
'''
