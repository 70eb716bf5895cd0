package sim;
import java.io.ByteArrayOutputStream;
import java.lang.reflect.*;
import java.math.BigInteger;
import java.nio.charset.StandardCharsets;
import java.util.*;
import score.Address;
/** The chain's RLPn codec: strings and lists of RLP, integers in two's complement, null as f8 00. */
public final class Rlp {
    public static final class Bad extends IllegalStateException { public Bad(String m) { super(m); } }
    public static String hex(byte[] b) { if (b == null) return "null"; char[] c = new char[b.length * 2]; for (int i = 0; i < b.length; i++) { c[2 * i] = Character.forDigit((b[i] >> 4) & 15, 16); c[2 * i + 1] = Character.forDigit(b[i] & 15, 16); } return new String(c); }
    static void header(ByteArrayOutputStream o, int base, int len) {
        if (len < 56) { o.write(base + len); return; }
        byte[] l = BigInteger.valueOf(len).toByteArray(); int s = l[0] == 0 ? 1 : 0;
        o.write(base + 55 + l.length - s); o.write(l, s, l.length - s);
    }
    static void bytes(ByteArrayOutputStream o, byte[] b) { if (b.length == 1 && b[0] >= 0) { o.write(b[0]); return; } header(o, 0x80, b.length); o.write(b, 0, b.length); }

    /** Reference encoder for the explorers: null, byte[], String, BigInteger, Integer, Long, Boolean, Address, List. */
    public static byte[] enc(Object x) { ByteArrayOutputStream o = new ByteArrayOutputStream(); enc(o, x); return o.toByteArray(); }
    static void enc(ByteArrayOutputStream o, Object x) {
        if (x == null) { o.write(0xf8); o.write(0); }
        else if (x instanceof List) { ByteArrayOutputStream p = new ByteArrayOutputStream(); for (Object e : (List<?>) x) enc(p, e); header(o, 0xc0, p.size()); o.write(p.toByteArray(), 0, p.size()); }
        else bytes(o, Writer.raw(x));
    }
    /** Reference decoder: byte[] and lists; null items are null. */
    public static Object dec(byte[] b) { int[] p = {0}; Object o = dec(b, p, b.length); if (p[0] != b.length) throw new Bad("trailing"); return o; }
    static Object dec(byte[] b, int[] p, int end) {
        Reader r = new Reader(b, p[0], end);
        Reader.Item it = r.item(); p[0] = it.next;
        if (it.nul) return null;
        if (!it.list) return Arrays.copyOfRange(b, it.start, it.next);
        List<Object> l = new ArrayList<>(); int[] q = {it.start}; while (q[0] < it.next) l.add(dec(b, q, it.next)); return l;
    }
    public static BigInteger num(Object o) { byte[] b = (byte[]) o; return b.length == 0 ? BigInteger.ZERO : new BigInteger(b); }
    public static String str(Object o) { return new String((byte[]) o, StandardCharsets.UTF_8); }

    private static Method find(Class<?> c, String n, Class<?>... a) {
        try { Method m = c.getDeclaredMethod(n, a); if (!Modifier.isStatic(m.getModifiers())) return null; m.setAccessible(true); return m; } catch (NoSuchMethodException e) { return null; }
    }
    static RuntimeException unwrap(InvocationTargetException e) { Throwable t = e.getCause(); if (t instanceof Error) throw (Error) t; return t instanceof RuntimeException ? (RuntimeException) t : new RuntimeException(t); }

    public static final class Reader implements score.ObjectReader {
        final byte[] b; int pos; final Deque<Integer> ends = new ArrayDeque<>(); int end;
        public Reader(byte[] b) { this(b.clone(), 0, b.length); }
        Reader(byte[] b, int s, int e) { this.b = b; pos = s; end = e; }
        static final class Item { boolean list, nul; int start, next; }
        Item item() {
            if (pos >= end) throw new Bad("no more data");
            Item it = new Item(); int h = b[pos] & 255, lo; long len;
            if (h < 0x80) { it.start = pos; it.next = pos + 1; return it; }
            it.list = h >= 0xc0; int v = h - (it.list ? 0xc0 : 0x80);
            if (v < 56) { len = v; lo = 0; } else {
                lo = v - 55; if (pos + 1 + lo > end) throw new Bad("short"); len = 0;
                for (int i = 0; i < lo; i++) { len = len << 8 | (b[pos + 1 + i] & 255); if (len > Integer.MAX_VALUE) throw new Bad("long"); }
                if (it.list && lo == 1 && len == 0) it.nul = true;
            }
            if (len < 0 || (long) pos + 1 + lo + len > end) throw new Bad("short");
            it.start = pos + 1 + lo; it.next = (int) (it.start + len); return it;
        }
        byte[] str() { Item i = item(); if (i.list) throw new Bad("not a string"); pos = i.next; return Arrays.copyOfRange(b, i.start, i.next); }
        long num(int bits) { BigInteger v = readBigInteger(); if (v.bitLength() >= bits) throw new Bad("overflow"); return v.longValue(); }
        public boolean readBoolean() { long n = num(64); if (n == 0) return false; if (n == 1) return true; throw new Bad("bad boolean"); }
        public byte readByte() { return (byte) num(8); }
        public short readShort() { return (short) num(16); }
        public char readChar() { return (char) num(17); }
        public int readInt() { return (int) num(32); }
        public long readLong() { return num(64); }
        public float readFloat() { throw new UnsupportedOperationException(); }
        public double readDouble() { throw new UnsupportedOperationException(); }
        public BigInteger readBigInteger() { byte[] x = str(); return x.length == 0 ? BigInteger.ZERO : new BigInteger(x); }
        public String readString() { return new String(str(), StandardCharsets.UTF_8); }
        public byte[] readByteArray() { return str(); }
        public Address readAddress() { return new Address(str()); }
        @SuppressWarnings("unchecked")
        public <T> T read(Class<T> c) {
            Object o;
            if (c == Boolean.class || c == boolean.class) o = readBoolean();
            else if (c == Byte.class) o = readByte(); else if (c == Short.class) o = readShort(); else if (c == Character.class) o = readChar();
            else if (c == Integer.class) o = readInt(); else if (c == Long.class) o = readLong();
            else if (c == BigInteger.class) o = readBigInteger(); else if (c == String.class) o = readString();
            else if (c == byte[].class) o = readByteArray(); else if (c == Address.class) o = readAddress();
            else {
                Method m = find(c, "readObject", score.ObjectReader.class);
                if (m == null) throw new IllegalArgumentException("cannot read " + c);
                try { o = m.invoke(null, this); } catch (InvocationTargetException e) { throw unwrap(e); } catch (IllegalAccessException e) { throw new RuntimeException(e); }
            }
            return (T) o;
        }
        boolean nul() { if (pos >= end) return false; Item i = item(); if (i.nul) { pos = i.next; return true; } return false; }
        public <T> T readOrDefault(Class<T> c, T d) { return hasNext() ? read(c) : d; }
        public <T> T readNullable(Class<T> c) { if (nul()) return null; return read(c); }
        public <T> T readNullableOrDefault(Class<T> c, T d) { return hasNext() ? readNullable(c) : d; }
        public void beginList() { Item i = item(); if (!i.list) throw new Bad("not a list"); ends.push(end); pos = i.start; end = i.next; }
        public boolean beginNullableList() { if (nul()) return false; beginList(); return true; }
        public void beginMap() { beginList(); }
        public boolean beginNullableMap() { return beginNullableList(); }
        public boolean hasNext() { return pos < end; }
        public void end() { if (ends.isEmpty()) throw new Bad("no list"); pos = end; end = ends.pop(); }
        public void skip() { pos = item().next; }
        public void skip(int n) { for (int i = 0; i < n; i++) skip(); }
    }

    public static final class Writer implements score.ByteArrayObjectWriter {
        final Deque<ByteArrayOutputStream> st = new ArrayDeque<>();
        public Writer() { st.push(new ByteArrayOutputStream()); }
        static byte[] raw(Object x) {
            if (x instanceof byte[]) return (byte[]) x;
            if (x instanceof String) return ((String) x).getBytes(StandardCharsets.UTF_8);
            if (x instanceof BigInteger) return ((BigInteger) x).toByteArray();
            if (x instanceof Number) return BigInteger.valueOf(((Number) x).longValue()).toByteArray();
            if (x instanceof Character) return BigInteger.valueOf((Character) x).toByteArray();
            if (x instanceof Boolean) return new byte[]{(byte) ((Boolean) x ? 1 : 0)};
            if (x instanceof Address) return ((Address) x).toByteArray();
            throw new IllegalArgumentException("cannot write " + x.getClass());
        }
        void r(Object x) { if (x == null) throw new NullPointerException(); bytes(st.peek(), raw(x)); }
        public void write(boolean v) { r(v); } public void write(byte v) { r(v); } public void write(short v) { r(v); } public void write(char v) { r(v); }
        public void write(int v) { r(v); } public void write(float v) { throw new UnsupportedOperationException(); } public void write(long v) { r(v); } public void write(double v) { throw new UnsupportedOperationException(); }
        public void write(BigInteger v) { r(v); } public void write(String v) { r(v); } public void write(byte[] v) { r(v); } public void write(Address v) { r(v); }
        public void write(Object v) {
            if (v == null) throw new NullPointerException();
            if (v instanceof byte[] || v instanceof String || v instanceof Number || v instanceof Character || v instanceof Boolean || v instanceof Address) { r(v); return; }
            Method m = null; Class<?> c = v.getClass();
            while (c != null && (m = find(c, "writeObject", score.ObjectWriter.class, c)) == null) c = c.getSuperclass();
            if (m == null) throw new IllegalArgumentException("cannot write " + v.getClass());
            try { m.invoke(null, this, v); } catch (InvocationTargetException e) { throw unwrap(e); } catch (IllegalAccessException e) { throw new RuntimeException(e); }
        }
        public void writeNullable(Object v) { if (v == null) writeNull(); else write(v); }
        public void write(Object... v) { for (Object o : v) write(o); }
        public void writeNullable(Object... v) { for (Object o : v) writeNullable(o); }
        public void writeNull() { st.peek().write(0xf8); st.peek().write(0); }
        public void beginList(int l) { st.push(new ByteArrayOutputStream()); }
        public void writeListOf(Object... v) { beginList(v.length); write(v); end(); }
        public void beginNullableList(int l) { beginList(l); }
        public void writeListOfNullable(Object... v) { beginList(v.length); writeNullable(v); end(); }
        public void beginMap(int l) { beginList(l); } public void beginNullableMap(int l) { beginList(l); }
        public void end() { if (st.size() < 2) throw new IllegalStateException(); byte[] p = st.pop().toByteArray(); header(st.peek(), 0xc0, p.length); st.peek().write(p, 0, p.length); }
        public byte[] toByteArray() { if (st.size() != 1) throw new IllegalStateException("open list"); return st.peek().toByteArray(); }
    }
}
