package score;
public class UserRevertedException extends RevertedException {
    private final int code;
    public UserRevertedException(int code) { this.code = code; }
    public UserRevertedException(int code, String m) { super(m); this.code = code; }
    public int getCode() { return code; }
}
