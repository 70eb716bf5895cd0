package score;
import java.util.Arrays;
public class Address {
    public static final int LENGTH = 21;
    private final byte[] raw;
    public Address(byte[] raw) throws IllegalArgumentException {
        if (raw == null) throw new NullPointerException();
        if (raw.length != LENGTH || (raw[0] != 0 && raw[0] != 1)) throw new IllegalArgumentException();
        this.raw = raw.clone();
    }
    public static Address fromString(String str) throws IllegalArgumentException {
        if (str == null) throw new NullPointerException();
        if (str.length() != 42) throw new IllegalArgumentException();
        byte[] r = new byte[LENGTH];
        if (str.startsWith("cx")) r[0] = 1;
        else if (str.startsWith("hx")) r[0] = 0;
        else throw new IllegalArgumentException();
        for (int i = 1; i < LENGTH; i++) {
            int h = Character.digit(str.charAt(i * 2), 16), l = Character.digit(str.charAt(i * 2 + 1), 16);
            if (h < 0 || l < 0) throw new IllegalArgumentException();
            r[i] = (byte) (h << 4 | l);
        }
        return new Address(r);
    }
    public boolean isContract() { return raw[0] == 1; }
    public byte[] toByteArray() { return raw.clone(); }
    @Override public int hashCode() { return Arrays.hashCode(raw); }
    @Override public boolean equals(Object o) { return o instanceof Address && Arrays.equals(raw, ((Address) o).raw); }
    @Override public String toString() {
        StringBuilder s = new StringBuilder(raw[0] == 1 ? "cx" : "hx");
        for (int i = 1; i < LENGTH; i++) s.append(Character.forDigit((raw[i] >> 4) & 15, 16)).append(Character.forDigit(raw[i] & 15, 16));
        return s.toString();
    }
}
