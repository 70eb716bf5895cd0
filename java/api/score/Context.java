package score;
import java.math.BigInteger;
/** The contract runtime's interface, answered by the simulated chain of the current thread. */
public final class Context {
    private Context() {}
    private static sim.World w() { return sim.World.current(); }
    public static byte[] getTransactionHash() { return w().txHash(); }
    public static int getTransactionIndex() { return 0; }
    public static long getTransactionTimestamp() { return w().timestamp(); }
    public static BigInteger getTransactionNonce() { return BigInteger.ZERO; }
    public static Address getAddress() { return w().frame().address; }
    public static Address getCaller() { return w().frame().caller; }
    public static Address getOrigin() { return w().origin(); }
    public static Address getOwner() { return w().owner(w().frame().address); }
    public static BigInteger getValue() { return w().frame().value; }
    public static long getBlockTimestamp() { return w().timestamp(); }
    public static long getBlockHeight() { return w().height(); }
    public static BigInteger getBalance(Address a) { return w().balance(a); }
    public static <T> T call(Class<T> c, BigInteger value, Address target, String method, Object... params) { return c.cast(w().convert(c, w().call(value, target, method, params))); }
    public static Object call(BigInteger value, Address target, String method, Object... params) { return w().toAbi(w().call(value, target, method, params)); }
    public static <T> T call(Class<T> c, Address target, String method, Object... params) { return call(c, BigInteger.ZERO, target, method, params); }
    public static Object call(Address target, String method, Object... params) { return call(BigInteger.ZERO, target, method, params); }
    public static void transfer(Address target, BigInteger value) { w().transfer(target, value); }
    public static Address deploy(byte[] content, Object... params) { throw new UnsupportedOperationException(); }
    public static void revert(int code, String message) { throw new sim.World.Revert(code, message); }
    public static void revert(int code) { throw new sim.World.Revert(code, null); }
    public static void revert(String message) { throw new sim.World.Revert(0, message); }
    public static void revert() { throw new sim.World.Revert(0, null); }
    public static void require(boolean c) { if (!c) throw new sim.World.Revert(0, null); }
    public static void require(boolean c, String message) { if (!c) throw new sim.World.Revert(0, message); }
    public static void println(String s) { }
    public static byte[] hash(String alg, byte[] msg) { return sim.Crypto.hash(alg, msg); }
    public static boolean verifySignature(String alg, byte[] msg, byte[] sig, byte[] pub) { return sim.Crypto.verify(alg, msg, sig, pub); }
    public static byte[] recoverKey(String alg, byte[] msg, byte[] sig, boolean compressed) { return sim.Crypto.recoverKey(alg, msg, sig, compressed); }
    public static Address getAddressFromKey(byte[] pub) { return sim.Crypto.addressOf(pub); }
    public static int getFeeSharingProportion() { return 0; }
    public static void setFeeSharingProportion(int p) { }
    @SuppressWarnings("unchecked") public static <K, V> BranchDB<K, V> newBranchDB(String id, Class<?> leaf) { return (BranchDB<K, V>) new sim.Db(id, leaf); }
    @SuppressWarnings("unchecked") public static <K, V> DictDB<K, V> newDictDB(String id, Class<V> v) { return (DictDB<K, V>) (Object) new sim.Db(id, v); }
    @SuppressWarnings("unchecked") public static <E> ArrayDB<E> newArrayDB(String id, Class<E> v) { return (ArrayDB<E>) new sim.Db(id, v); }
    @SuppressWarnings("unchecked") public static <E> VarDB<E> newVarDB(String id, Class<E> v) { return (VarDB<E>) new sim.Db(id, v); }
    public static void logEvent(Object[] indexed, Object[] data) { w().event(String.valueOf(indexed[0]), data); }
    public static ObjectReader newByteArrayObjectReader(String codec, byte[] b) { codec(codec); return new sim.Rlp.Reader(b); }
    public static ByteArrayObjectWriter newByteArrayObjectWriter(String codec) { codec(codec); return new sim.Rlp.Writer(); }
    private static void codec(String c) { if (!c.equals("RLPn") && !c.equals("RLP")) throw new IllegalArgumentException("bad codec"); }
}
