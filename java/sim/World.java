package sim;
import java.io.File;
import java.lang.reflect.*;
import java.math.BigInteger;
import java.net.*;
import java.util.*;
import score.*;
import score.annotation.*;
/** A simulated chain (or several with disjoint addresses): contract storage, balances, calls with
 *  revert semantics, events. One per thread; snapshot and restore give the explorers branching. */
public final class World {
    private static final ThreadLocal<World> CUR = new ThreadLocal<>();
    public static World current() { World w = CUR.get(); if (w == null) throw new IllegalStateException("no world"); return w; }
    public World() { CUR.set(this); }
    public void enter() { CUR.set(this); }

    /** Thrown by Context.revert and require. */
    public static final class Revert extends RuntimeException { public final int code; public Revert(int c, String m) { super(m); code = c; } }
    /** Contracts of the explorer: state only through the databases. */
    public interface Native { Object call(World w, String method, Object[] args); }

    public static final class Frame { public final Address address, caller; public final BigInteger value; final boolean readonly; Frame(Address a, Address c, BigInteger v, boolean r) { address = a; caller = c; value = v; readonly = r; } }
    public static final class Event { public final Address from; public final String name; public final Object[] args; Event(Address f, String n, Object[] a) { from = f; name = n; args = a; } public String toString() { StringBuilder s = new StringBuilder(name + "("); for (Object o : args) s.append(o instanceof byte[] ? Rlp.hex((byte[]) o) : String.valueOf(o)).append(","); return s + ")"; } }
    public static final class Result { public boolean ok; public Object ret; public int code = -1; public String error; public List<Event> events = new ArrayList<>(); public String toString() { return ok ? "ok" : "failed(" + code + "," + error + ")"; } }

    static final class Contract { Object obj; Native nat; Address owner; List<Field> fields = new ArrayList<>(); }
    final Map<Address, Contract> contracts = new LinkedHashMap<>();
    // the state
    private Map<Address, TreeMap<String, byte[]>> storage = new HashMap<>();
    private Map<Address, BigInteger> balances = new HashMap<>();
    private final Set<Address> owned = new HashSet<>(); // storages not shared with a snapshot
    private long height = 100;
    private final Deque<Frame> frames = new ArrayDeque<>();
    private Address origin;
    private List<Event> events = new ArrayList<>();
    private int depth;

    /** A copy of everything that can change. */
    public static final class Snap { Map<Address, TreeMap<String, byte[]>> storage; Map<Address, BigInteger> balances; Map<Address, Object[]> fields; long height; int events; }
    public Snap snap() {
        Snap s = new Snap(); s.storage = new HashMap<>(storage); owned.clear();
        s.balances = new HashMap<>(balances); s.height = height; s.events = events.size(); s.fields = new HashMap<>();
        for (var e : contracts.entrySet()) if (!e.getValue().fields.isEmpty()) { Object[] v = new Object[e.getValue().fields.size()]; for (int i = 0; i < v.length; i++) try { v[i] = e.getValue().fields.get(i).get(e.getValue().obj); } catch (IllegalAccessException x) { throw new RuntimeException(x); } s.fields.put(e.getKey(), v); }
        return s;
    }
    public void restore(Snap s) {
        storage = new HashMap<>(s.storage); owned.clear();
        balances = new HashMap<>(s.balances); height = s.height; while (events.size() > s.events) events.remove(events.size() - 1);
        for (var e : s.fields.entrySet()) { Contract c = contracts.get(e.getKey()); if (c == null) continue; for (int i = 0; i < e.getValue().length; i++) { Object v = e.getValue()[i]; if (v != null && v.getClass().getClassLoader() instanceof URLClassLoader && v.getClass().getClassLoader() != c.obj.getClass().getClassLoader()) continue; try { c.fields.get(i).set(c.obj, v); } catch (IllegalAccessException x) { throw new RuntimeException(x); } } }
    }
    /** A canonical text of the state (for the set of visited states). */
    public void dump(StringBuilder b) {
        TreeMap<String, TreeMap<String, byte[]>> t = new TreeMap<>(); for (var e : storage.entrySet()) t.put(e.getKey().toString(), e.getValue());
        for (var e : t.entrySet()) { b.append(e.getKey()).append('{'); for (var f : e.getValue().entrySet()) b.append(f.getKey()).append('=').append(Rlp.hex(f.getValue())).append(';'); b.append('}'); }
        TreeMap<String, BigInteger> bs = new TreeMap<>(); for (var e : balances.entrySet()) if (e.getValue().signum() != 0) bs.put(e.getKey().toString(), e.getValue()); b.append(bs);
    }

    // ---- for Context
    public Frame frame() { Frame f = frames.peek(); if (f == null) throw new IllegalStateException("no frame"); return f; }
    public Address origin() { return origin; }
    public Address owner(Address a) { Contract c = contracts.get(a); return c == null ? null : c.owner; }
    public byte[] txHash() { return new byte[32]; }
    public long timestamp() { return height * 2_000_000L; }
    public long height() { return height; }
    public void height(long h) { height = h; }
    public BigInteger balance(Address a) { return balances.getOrDefault(a, BigInteger.ZERO); }
    public void give(Address a, BigInteger v) { balances.merge(a, v, BigInteger::add); }
    byte[] load(String k) { TreeMap<String, byte[]> m = storage.get(frame().address); byte[] b = m == null ? null : m.get(k); return b; }
    void store(String k, byte[] v) {
        if (frame().readonly) throw new IllegalStateException("write in a read-only call");
        Address a = frame().address; TreeMap<String, byte[]> m = storage.get(a);
        if (m == null || owned.add(a)) { m = m == null ? new TreeMap<>() : new TreeMap<>(m); storage.put(a, m); owned.add(a); }
        if (v == null) m.remove(k); else m.put(k, v);
    }
    public void event(String name, Object... args) {
        if (frame().readonly) throw new IllegalStateException("event in a read-only call");
        events.add(new Event(frame().address, name, args));
    }

    // ---- contracts
    public void deploy(Address addr, Address owner, Native n) { Contract c = new Contract(); c.nat = n; c.owner = owner; contracts.put(addr, c); }
    /** Deploys a contract class with classes (and static state) of its own. */
    public Result deploy(Address addr, Address owner, String cls, Object... args) {
        Contract c = contracts.get(addr); Contract n = new Contract(); n.owner = owner; Snap s = snap(); contracts.put(addr, n);
        Result r = new Result(); origin = owner; frames.push(new Frame(addr, owner, BigInteger.ZERO, false));
        try {
            ClassLoader cl = new URLClassLoader(urls(), World.class.getClassLoader());
            Class<?> k; try { k = cl.loadClass(cls + "Spy"); } catch (ClassNotFoundException e) { k = cl.loadClass(cls); }
            Constructor<?> ctor = null; for (Constructor<?> x : k.getDeclaredConstructors()) if (x.getParameterCount() == args.length) ctor = x;
            ctor.setAccessible(true);
            n.obj = ctor.newInstance(convertArgs(ctor.getParameterTypes(), args));
            for (Class<?> q = n.obj.getClass(); q != Object.class; q = q.getSuperclass()) for (Field f : q.getDeclaredFields()) if (!Modifier.isFinal(f.getModifiers())) { f.setAccessible(true); n.fields.add(f); }
            r.ok = true;
        } catch (InvocationTargetException e) { restore(s); if (c == null) contracts.remove(addr); else contracts.put(addr, c); fail(r, e.getCause());
        } catch (ReflectiveOperationException e) { throw new RuntimeException(cls + ": " + e, e); } finally { frames.pop(); events.clear(); }
        return r;
    }
    private static URL[] urls() { try { List<URL> l = new ArrayList<>(); for (String p : System.getProperty("contracts").split(":")) l.add(new File(p).toURI().toURL()); return l.toArray(new URL[0]); } catch (MalformedURLException e) { throw new RuntimeException(e); } }
    private static void fail(Result r, Throwable t) {
        r.ok = false; r.error = String.valueOf(t);
        if (t instanceof Revert) r.code = ((Revert) t).code; else if (t instanceof UserRevertException) r.code = ((UserRevertException) t).getCode();
        else if (t instanceof StackOverflowError || t instanceof OutOfMemoryError) throw (Error) t;
    }
    /** A transaction from outside. */
    public Result tx(Address from, Address to, BigInteger value, String method, Object... args) {
        Result r = new Result(); Snap s = snap(); origin = from; frames.clear(); events = new ArrayList<>(); s.events = 0; depth = 0;
        try { r.ret = invoke(from, to, value, method, args, false); r.ok = true; r.events = events; height++; }
        catch (RuntimeException | Error e) { restore(s); fail(r, e); }
        events = new ArrayList<>(); return r;
    }
    public Result tx(Address from, Address to, String method, Object... args) { return tx(from, to, BigInteger.ZERO, method, args); }
    /** A read-only query. */
    public Object query(Address to, String method, Object... args) {
        Snap s = snap(); origin = null; frames.clear(); events = new ArrayList<>(); s.events = 0;
        try { return toAbi(invoke(null, to, BigInteger.ZERO, method, args, true)); } finally { restore(s); events = new ArrayList<>(); }
    }
    // a call between contracts
    public Object call(BigInteger value, Address target, String method, Object[] args) {
        if (target == null || method == null) throw new NullPointerException();
        Snap s = snap(); int d = frames.size(); Frame f = frame();
        if (d > 64) throw new RevertedException("call depth");
        try { return invoke(f.address, target, value == null ? BigInteger.ZERO : value, method, args, f.readonly); }
        catch (Revert e) { undo(s, d); throw new UserRevertedException(e.code, e.getMessage()); }
        catch (UserRevertException e) { undo(s, d); throw new UserRevertedException(e.getCode(), e.getMessage()); }
        catch (RuntimeException e) { undo(s, d); throw new RevertedException(String.valueOf(e)); }
    }
    private void undo(Snap s, int d) { restore(s); while (frames.size() > d) frames.pop(); }
    public void transfer(Address target, BigInteger v) {
        if (v.signum() < 0) throw new IllegalArgumentException();
        if (target.isContract() && contracts.containsKey(target)) { call(v, target, "fallback", new Object[0]); return; }
        move(frame().address, target, v);
    }
    private void move(Address from, Address to, BigInteger v) {
        if (v.signum() < 0) throw new IllegalArgumentException("negative value");
        if (v.signum() == 0) return;
        if (frames.peek() != null && frame().readonly) throw new IllegalStateException("transfer in a read-only call");
        if (balance(from).compareTo(v) < 0) throw new RevertedException("out of balance");
        balances.merge(from, v.negate(), BigInteger::add); balances.merge(to, v, BigInteger::add);
    }
    private Object invoke(Address from, Address to, BigInteger value, String method, Object[] args, boolean readonly) {
        Contract c = contracts.get(to);
        if (c == null) throw new RevertedException("contract not found " + to);
        move(from, to, value);
        if (c.nat != null) { frames.push(new Frame(to, from, value, readonly)); try { return c.nat.call(this, method, args); } finally { frames.pop(); } }
        Method m = null;
        for (Class<?> q = c.obj.getClass(); q != Object.class && m == null; q = q.getSuperclass())
            for (Method x : q.getDeclaredMethods()) if (x.getName().equals(method) && Modifier.isPublic(x.getModifiers()) && !x.isBridge() && (x.isAnnotationPresent(External.class) || method.equals("fallback")) && x.getParameterCount() >= args.length) {
                boolean opt = true; for (int i = args.length; i < x.getParameterCount(); i++) { boolean o = false; for (var a : x.getParameterAnnotations()[i]) o |= a instanceof score.annotation.Optional; opt &= o; }
                if (opt) m = x;
            }
        if (m == null) throw new RevertedException("method not found " + method);
        if (value.signum() > 0 && !m.isAnnotationPresent(Payable.class)) throw new RevertedException("not payable " + method);
        External ex = m.getAnnotation(External.class);
        frames.push(new Frame(to, from, value, readonly || (ex != null && ex.readonly())));
        try { m.setAccessible(true); return m.invoke(c.obj, convertArgs(m.getParameterTypes(), args)); }
        catch (InvocationTargetException e) { throw Rlp.unwrap(e); } catch (IllegalAccessException e) { throw new RuntimeException(e); } finally { frames.pop(); }
    }
    private Object[] convertArgs(Class<?>[] t, Object[] a) { Object[] r = new Object[t.length]; for (int i = 0; i < t.length; i++) r[i] = convert(t[i], i < a.length ? a[i] : null); return r; }
    /** Value of a call's argument or result in the type the other side declares. */
    public Object convert(Class<?> t, Object v) {
        if (v == null) { if (!t.isPrimitive()) return null; if (t == boolean.class) return false; v = BigInteger.ZERO; }
        if (v instanceof Number && !(v instanceof BigInteger)) v = BigInteger.valueOf(((Number) v).longValue());
        if (v instanceof BigInteger) {
            BigInteger n = (BigInteger) v;
            if (t == int.class || t == Integer.class) return n.intValueExact(); if (t == long.class || t == Long.class) return n.longValueExact();
            if (t == short.class || t == Short.class) return n.shortValueExact(); if (t == byte.class || t == Byte.class) return n.byteValueExact();
            if (t == boolean.class || t == Boolean.class) return n.signum() != 0;
            return n;
        }
        if (t.isPrimitive()) return v; // boolean
        if (v instanceof byte[]) return ((byte[]) v).clone();
        if (t.isArray() && t != byte[].class) {
            Object[] a = v instanceof List ? ((List<?>) v).toArray() : (Object[]) v;
            Object r = java.lang.reflect.Array.newInstance(t.getComponentType(), a.length);
            for (int i = 0; i < a.length; i++) java.lang.reflect.Array.set(r, i, convert(t.getComponentType(), a[i])); return r;
        }
        if (t.isInstance(v)) return v;
        if (t == List.class) return Arrays.asList((Object[]) v);
        Object abi = toAbi(v);
        if (abi instanceof Map) try {
            Object o = t.getDeclaredConstructor().newInstance();
            for (var e : ((Map<?, ?>) abi).entrySet()) for (Method m : t.getMethods()) if (m.getName().equalsIgnoreCase("set" + e.getKey()) && m.getParameterCount() == 1) m.invoke(o, convert(m.getParameterTypes()[0], e.getValue()));
            return o;
        } catch (ReflectiveOperationException e) { throw new RuntimeException(e); }
        throw new IllegalArgumentException("cannot pass " + v.getClass() + " as " + t);
    }
    /** Result of a call as the outside sees it: integers, texts, bytes, addresses, lists, maps. */
    public Object toAbi(Object v) {
        if (v == null || v instanceof BigInteger || v instanceof String || v instanceof byte[] || v instanceof Address || v instanceof Boolean) return v;
        if (v instanceof Number) return BigInteger.valueOf(((Number) v).longValue());
        if (v instanceof Character) return BigInteger.valueOf((Character) v);
        if (v instanceof Object[]) { List<Object> l = new ArrayList<>(); for (Object o : (Object[]) v) l.add(toAbi(o)); return l; }
        if (v instanceof List) { List<Object> l = new ArrayList<>(); for (Object o : (List<?>) v) l.add(toAbi(o)); return l; }
        if (v instanceof Map) { Map<String, Object> m = new TreeMap<>(); for (var e : ((Map<?, ?>) v).entrySet()) m.put(String.valueOf(e.getKey()), toAbi(e.getValue())); return m; }
        Map<String, Object> m = new TreeMap<>();
        for (Method g : v.getClass().getMethods()) if (g.getDeclaringClass() != Object.class && g.getParameterCount() == 0 && !Modifier.isStatic(g.getModifiers()) && g.getName().startsWith("get") && g.getName().length() > 3)
            try { g.setAccessible(true); String n = g.getName().substring(3); m.put(Character.toLowerCase(n.charAt(0)) + n.substring(1), toAbi(g.invoke(v))); } catch (ReflectiveOperationException e) { throw new RuntimeException(e); }
        return m;
    }
}
