package score;
public class RevertedException extends RuntimeException {
    public RevertedException() {}
    public RevertedException(String m) { super(m); }
    public RevertedException(String m, Throwable c) { super(m, c); }
    public RevertedException(Throwable c) { super(c); }
}
