ID="p36-validators-of-first-block"; PROPERTY="P36"; MODULES="score-util lib bmv/icon"; WITH=["P36.java"]
NEEDS="a relay message that holds a block after one that changed the validators"
BREAKS="all blocks of a relay message are checked with the validators before it, so former validators can vote blocks after they were replaced"
F="javascore/bmv/icon/src/main/java/foundation/icon/btp/bmv/icon/BTPMessageVerifier.java"
EDITS=[(F,"""        boolean isValidatorsUpdate = false;
""","""        boolean isValidatorsUpdate = false;
        Validators voters = validators;
"""),(F,"verifyVotes(blockUpdate.getVotes(), blockHeight, blockHash, validators);","verifyVotes(blockUpdate.getVotes(), blockHeight, blockHash, voters);")]
DEMO='''import java.math.BigInteger;
import java.util.*;
import score.*;
import sim.*;
public class Demo {
    public static void main(String[] x) {
        int[] old = P36.set(4, 0), now = P36.set(4, 10); List<P36.Block> ch = P36.chain(5, old, P36.sp(now), P36.sp(null)); P36.Block a = ch.get(0), b = ch.get(1);
        for (int[] who : new int[][]{now, old}) {
            P36.Model m = new P36.Model(ch, 5, old); World.Result r = m.w.tx(P36.BMC, P36.BMV, "handleRelayMessage", P36.HERE, P36.PREV, BigInteger.ZERO, P36.rm(List.of(a.bu(), b.bu(b.votes(who), null)), null, null));
            System.out.println(who[0] + ": " + r); if (r.ok != (who == now)) System.exit(1);
        }
        System.exit(0);
    }
}
'''
