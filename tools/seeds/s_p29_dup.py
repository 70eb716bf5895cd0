ID="p29-repeated-signatures"; PROPERTY="P29"; MODULES="score-util lib bmv/btpblock"; WITH=["P29.java"]
NEEDS="a block signed by half of the validators, one of whom signed twice"
BREAKS="a repeated signature is passed over but still counted, so too few validators carry a block"
F="javascore/bmv/btpblock/src/main/java/foundation/icon/btp/bmv/btpblock/BTPMessageVerifier.java"
EDITS=[(F,"""            if (verifiedValidator.contains(address)) throw BMVException.unknown("duplicated validator : " + address);
            verifiedValidator.add(address);
        }
        var verified = verifiedValidator.size();""","""            if (verifiedValidator.contains(address)) continue;
            verifiedValidator.add(address);
        }
        var verified = sigs.length;""")]
DEMO='''import java.math.BigInteger;
import java.util.*;
import score.*;
import sim.*;
public class Demo {
    public static void main(String[] x) {
        List<P29.Block> ch = P29.chain(new P29.Spec(0, P29.set(4, 0), new int[0]), new P29.Spec(1, null, new int[0])); P29.Block b = ch.get(1);
        for (int[] who : new int[][]{{0, 1, 2}, {0, 1, 1}}) {
            P29.Model m = new P29.Model(ch, 0); World.Result r = m.w.tx(P29.BMC, P29.BMV, "handleRelayMessage", P29.HERE, P29.PREV, BigInteger.ZERO, P29.rm(P29.t(1, b.bu(b.proof(who)))));
            System.out.println(Arrays.toString(who) + ": " + r); if (r.ok != (who[2] == 2)) System.exit(1);
        }
        System.exit(0);
    }
}
'''
