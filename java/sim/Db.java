package sim;
import score.*;
/** All database kinds over the simulated contract storage (kinds do not share keys, as on the chain). */
@SuppressWarnings({"unchecked", "rawtypes"})
public final class Db implements VarDB<Object>, DictDB<Object, Object>, ArrayDB<Object>, BranchDB<Object, Object> {
    private final String id; private final Class<?> leaf;
    public Db(String id, Class<?> leaf) { if (id == null || leaf == null) throw new NullPointerException(); this.id = Rlp.hex(id.getBytes(java.nio.charset.StandardCharsets.UTF_8)); this.leaf = leaf; }
    private Db(String id, Class<?> leaf, boolean sub) { this.id = id; this.leaf = leaf; }
    private static String key(Object k) {
        if (k == null) throw new NullPointerException();
        if (!(k instanceof String || k instanceof byte[] || k instanceof Address || k instanceof java.math.BigInteger || k instanceof Byte || k instanceof Short || k instanceof Integer || k instanceof Long || k instanceof Character))
            throw new IllegalArgumentException("bad key type " + k.getClass());
        return Rlp.hex(Rlp.Writer.raw(k));
    }
    private Object load(String k) { byte[] b = World.current().load(k); return b == null ? null : new Rlp.Reader(b).readNullable(leaf); }
    private void store(String k, Object v) {
        if (v == null) { World.current().store(k, null); return; }
        Rlp.Writer w = new Rlp.Writer(); w.writeNullable(v); World.current().store(k, w.toByteArray());
    }
    public void set(Object v) { store("v" + id, v); }
    public Object get() { return load("v" + id); }
    public Object getOrDefault(Object d) { Object o = get(); return o == null ? d : o; }
    public void set(Object k, Object v) { store("d" + id + "." + key(k), v); }
    public Object get(Object k) { return load("d" + id + "." + key(k)); }
    public Object getOrDefault(Object k, Object d) { Object o = get(k); return o == null ? d : o; }
    public Object at(Object k) { return new Db(id + "." + key(k), leaf, true); }
    public int size() { byte[] b = World.current().load("a" + id); return b == null ? 0 : new Rlp.Reader(b).readInt(); }
    private void size(int n) { if (n == 0) World.current().store("a" + id, null); else { Rlp.Writer w = new Rlp.Writer(); w.write(n); World.current().store("a" + id, w.toByteArray()); } }
    private String idx(int i) { if (i < 0 || i >= size()) throw new IllegalArgumentException("bad array index " + i); return "a" + id + "." + i; }
    public void add(Object v) { int n = size(); size(n + 1); store("a" + id + "." + n, v); }
    public void set(int i, Object v) { store(idx(i), v); }
    public Object get(int i) { return load(idx(i)); }
    public void removeLast() { pop(); }
    public Object pop() { int n = size(); if (n == 0) throw new IllegalStateException("empty array"); String k = idx(n - 1); Object o = load(k); store(k, null); size(n - 1); return o; }
}
