package sim;
import java.io.*;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.security.MessageDigest;
import java.util.*;
import java.util.concurrent.*;
import java.util.concurrent.atomic.*;
import java.util.function.*;
/** Explicit-state exploration of the real contracts, evidence and reports. */
public final class MC {
    /** One instance per thread; the contracts' state is part of it. */
    public interface Model {
        Object save(); void load(Object s);
        List<String> ops();
        void apply(String op, Ctx c);
        String key();
        default void end(Ctx c) { } // called in states without enabled operations
    }
    public static final class Ctx {
        final MC mc; final String sys; List<String> trace;
        Ctx(MC m, String s, List<String> t) { mc = m; sys = s; trace = t; }
        public void fail(String key, String msg) { mc.fail(sys, key, msg, trace); }
        public void check(boolean ok, String key, Supplier<String> msg) { mc.validated.incrementAndGet(); if (!ok) fail(key, msg.get()); }
        public void equal(String key, Object want, Object got, String what) { mc.validated.incrementAndGet(); if (!String.valueOf(want).equals(String.valueOf(got))) fail(key, what + ": expected " + want + ", got " + got); }
    }
    static final class Violation { String sys, key, msg; List<String> trace; }
    public final String prop; public final boolean thorough; public final AtomicLong states = new AtomicLong(), transitions = new AtomicLong(), executions = new AtomicLong(), validated = new AtomicLong();
    final Map<String, Violation> violations = new ConcurrentSkipListMap<>(); final AtomicLong nviol = new AtomicLong(); final Map<String, Object> notes = new LinkedHashMap<>(); final List<String> samples = Collections.synchronizedList(new ArrayList<>());
    final long t0 = System.nanoTime(); boolean complete = true; final String replaySys; final List<String> replayTrace; final Path home; public final List<String> assumptions = new ArrayList<>();
    public MC(String prop, String[] args) {
        this.prop = prop; thorough = "thorough".equals(System.getenv("VERIF_CHECK_TIER")); home = Paths.get(System.getenv().getOrDefault("VERIF_HOME", "/verif"));
        String rs = null; List<String> rt = null;
        if (args.length > 1 && args[0].equals("-replay")) try { List<String> l = Files.readAllLines(Paths.get(args[1])); rs = l.get(0); rt = new ArrayList<>(); for (String x : l.subList(1, l.size())) { if (x.startsWith("# ")) break; rt.add(x); } } catch (IOException e) { throw new UncheckedIOException(e); }
        replaySys = rs; replayTrace = rt;
    }
    void fail(String sys, String key, String msg, List<String> trace) {
        nviol.incrementAndGet();
        synchronized (violations) {
            Violation o = violations.get(key); if (o != null && o.trace.size() <= trace.size()) return;
            Violation v = new Violation(); v.sys = sys; v.key = key; v.msg = msg; v.trace = new ArrayList<>(trace); violations.put(key, v);
        }
    }
    public void note(String k, Object v) { notes.put(k, v); }
    static byte[] digest(String s) { try { return Arrays.copyOf(MessageDigest.getInstance("SHA-256").digest(s.getBytes(StandardCharsets.UTF_8)), 16); } catch (Exception e) { throw new RuntimeException(e); } }
    record Node(Object state, Node parent, String op) { List<String> trace() { LinkedList<String> l = new LinkedList<>(); for (Node n = this; n.parent != null; n = n.parent) l.addFirst(n.op); return l; } }
    /** All operation sequences to the depth from the model's initial state, states met before left out. */
    public void explore(String name, Supplier<Model> make, int depth, long maxStates) {
        if (replaySys != null) { if (replaySys.equals(name)) replay(name, make); return; }
        int threads = Math.min(8, Runtime.getRuntime().availableProcessors());
        ExecutorService ex = Executors.newFixedThreadPool(threads); ThreadLocal<Model> models = ThreadLocal.withInitial(make);
        Set<java.math.BigInteger> seen = ConcurrentHashMap.newKeySet(); long before = states.get(); int reached = 0; boolean done = false;
        try {
            Model m0 = make.get(); seen.add(new java.math.BigInteger(digest(m0.key()))); states.incrementAndGet();
            List<Node> layer = List.of(new Node(m0.save(), null, null));
            for (int d = 0; d < depth && !layer.isEmpty(); d++) {
                ConcurrentLinkedQueue<Node> next = new ConcurrentLinkedQueue<>(); AtomicInteger idx = new AtomicInteger(); List<Future<?>> fs = new ArrayList<>(); final List<Node> cur = layer; final boolean last = d + 1 == depth;
                for (int t = 0; t < threads; t++) fs.add(ex.submit(() -> {
                    Model m = models.get();
                    for (int i; (i = idx.getAndIncrement()) < cur.size(); ) {
                        Node n = cur.get(i); m.load(n.state); List<String> ops = m.ops(); List<String> tr = null;
                        if (ops.isEmpty()) { m.end(new Ctx(this, name, n.trace())); continue; }
                        for (String op : ops) {
                            m.load(n.state); List<String> t2 = tr == null ? (tr = n.trace()) : tr; t2 = new ArrayList<>(t2); t2.add(op);
                            long vb = nviol.get(); guarded(m, op, new Ctx(this, name, t2)); transitions.incrementAndGet();
                            if (states.get() - before >= maxStates) { complete = false; continue; }
                            if (seen.add(new java.math.BigInteger(digest(m.key())))) { long s = states.incrementAndGet(); if (samples.size() < 3 && t2.size() >= 3) samples.add(name + ": " + t2); if (!(nviol.get() > vb)) next.add(new Node(m.save(), n, op)); }
                        }
                    }
                }));
                for (Future<?> f : fs) f.get();
                layer = new ArrayList<>(next); reached = d + 1; if (layer.isEmpty()) done = true;
            }
            // states of the last layer without operations are ends as well
            Model m = make.get(); for (Node n : layer) { m.load(n.state); if (m.ops().isEmpty()) m.end(new Ctx(this, name, n.trace())); }
        } catch (InterruptedException e) { throw new RuntimeException(e); } catch (ExecutionException e) { throw new RuntimeException(e.getCause()); } finally { ex.shutdownNow(); }
        executions.incrementAndGet(); note(name, (states.get() - before) + " states, depth " + reached + (done ? ", all reachable states" : ""));
    }
    private void guarded(Model m, String op, Ctx c) { try { m.apply(op, c); } catch (RuntimeException e) { StringWriter w = new StringWriter(); e.printStackTrace(new PrintWriter(w)); c.fail("harness", "exception " + w); } }
    private void replay(String name, Supplier<Model> make) { Model m = make.get(); List<String> t = new ArrayList<>(); for (String op : replayTrace) { t.add(op); System.out.println("op " + op); guarded(m, op, new Ctx(this, name, t)); } if (m.ops().isEmpty()) m.end(new Ctx(this, name, t)); }
    /** Independent cases, run in parallel; a case is identified by its text. */
    public <T> void cases(String name, List<T> list, BiConsumer<T, Ctx> body) {
        if (replaySys != null && !replaySys.equals(name)) return;
        ExecutorService ex = Executors.newFixedThreadPool(Math.min(8, Runtime.getRuntime().availableProcessors())); AtomicInteger idx = new AtomicInteger(); List<Future<?>> fs = new ArrayList<>();
        for (int t = 0; t < 8; t++) fs.add(ex.submit(() -> { for (int i; (i = idx.getAndIncrement()) < list.size(); ) { String s = String.valueOf(list.get(i)); if (replayTrace != null && !replayTrace.get(0).equals(s)) continue; Ctx c = new Ctx(this, name, new ArrayList<>(List.of(s))); try { body.accept(list.get(i), c); } catch (RuntimeException e) { StringWriter w = new StringWriter(); e.printStackTrace(new PrintWriter(w)); c.fail("harness", "exception " + w); } states.incrementAndGet(); } }));
        try { for (Future<?> f : fs) f.get(); } catch (InterruptedException e) { throw new RuntimeException(e); } catch (ExecutionException e) { throw new RuntimeException(e.getCause()); } finally { ex.shutdownNow(); }
        executions.addAndGet(list.size()); note(name, list.size() + " cases"); if (samples.size() < 4 && !list.isEmpty()) samples.add(name + ": " + list.get(list.size() / 2));
    }
    static String j(String s) { StringBuilder b = new StringBuilder("\""); for (char c : s.toCharArray()) { if (c == '"' || c == '\\') b.append('\\').append(c); else if (c < 32 || c > 126) b.append(String.format("\\u%04x", (int) c)); else b.append(c); } return b.append('"').toString(); }
    static String js(Collection<String> l) { StringJoiner s = new StringJoiner(",", "[", "]"); for (String x : l) s.add(j(x)); return s.toString(); }
    public void finish() {
        int bad = 0;
        if (replaySys == null) try {
            StringBuilder n = new StringBuilder(); for (var e : notes.entrySet()) n.append(n.length() > 0 ? "," : "").append(j(e.getKey())).append(":").append(j(String.valueOf(e.getValue())));
            String seed = System.getenv().getOrDefault("VERIF_SEED", "1"); if (!seed.matches("\\d+")) seed = "1";
            String ev = "{\"property\":" + j(prop) + ",\"tier\":" + j(thorough ? "thorough" : "quick") + ",\"seed\":" + seed + ",\"level\":\"model_checking\",\"wall_s\":" + (System.nanoTime() - t0) / 1e9 + ",\"violations\":" + nviol.get() + ",\"assumptions\":" + js(assumptions)
                + ",\"coverage\":{\"states\":" + states + ",\"transitions\":" + transitions + ",\"executions\":" + executions + ",\"traces_validated_against_impl\":" + validated + ",\"exhaustive\":" + complete + ",\"samples\":" + js(samples) + ",\"explored\":{" + n + "}}}";
            Files.createDirectories(home.resolve("evidence")); Files.writeString(home.resolve("evidence/" + prop + ".json"), ev + "\n");
        } catch (IOException e) { throw new UncheckedIOException(e); }
        Set<String> known = new HashSet<>(); for (String k : System.getProperty("known", "").split("\n")) if (!k.isEmpty()) known.add(k);
        for (Violation v : violations.values()) {
            String kf = null; for (String k : known) if (k.startsWith(v.key + "\t")) kf = k.substring(v.key.length() + 1);
            if (kf != null) { System.out.println("KNOWN-FINDING: property=" + prop + " " + kf + " [" + v.key + "]"); continue; }
            bad++;
            Path p = home.resolve("evidence/replay/" + prop + "-" + v.key.replaceAll("[^A-Za-z0-9-]", "_") + ".txt");
            try { Files.createDirectories(p.getParent()); Files.writeString(p, v.sys + "\n" + String.join("\n", v.trace) + "\n# " + v.key + "\n# " + v.msg.replace("\n", "\n# ") + "\n"); } catch (IOException e) { throw new UncheckedIOException(e); }
            System.out.println("[" + v.key + "] " + v.sys + " " + v.trace + ": " + v.msg); System.out.println("VIOLATION property=" + prop + " replay=" + p);
        }
        System.out.println(prop + ": states " + states + " transitions " + transitions + " validated " + validated + " violations " + nviol + " " + notes);
        System.exit(bad > 0 ? 1 : 0);
    }
}
