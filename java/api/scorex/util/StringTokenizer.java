package scorex.util;
public class StringTokenizer extends java.util.StringTokenizer {
    public StringTokenizer(String s) { super(s); } public StringTokenizer(String s, String d) { super(s, d); } public StringTokenizer(String s, String d, boolean r) { super(s, d, r); }
}
