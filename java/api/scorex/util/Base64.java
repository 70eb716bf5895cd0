package scorex.util;
public class Base64 {
    public static Encoder getEncoder() { return new Encoder(java.util.Base64.getEncoder()); }
    public static Encoder getUrlEncoder() { return new Encoder(java.util.Base64.getUrlEncoder()); }
    public static Decoder getDecoder() { return new Decoder(java.util.Base64.getDecoder()); }
    public static Decoder getUrlDecoder() { return new Decoder(java.util.Base64.getUrlDecoder()); }
    public static class Encoder {
        final java.util.Base64.Encoder e; Encoder(java.util.Base64.Encoder e) { this.e = e; }
        public byte[] encode(byte[] b) { return e.encode(b); } public String encodeToString(byte[] b) { return e.encodeToString(b); }
        public Encoder withoutPadding() { return new Encoder(e.withoutPadding()); }
    }
    public static class Decoder {
        final java.util.Base64.Decoder d; Decoder(java.util.Base64.Decoder d) { this.d = d; }
        public byte[] decode(byte[] b) { return d.decode(b); } public byte[] decode(String s) { return d.decode(s); }
    }
}
