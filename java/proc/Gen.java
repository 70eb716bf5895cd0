import java.io.Writer;
import java.util.*;
import javax.annotation.processing.*;
import javax.lang.model.SourceVersion;
import javax.lang.model.element.*;
import javax.lang.model.type.*;
import javax.lang.model.util.ElementFilter;
/** Generates what the contracts' build generates (XScoreInterface) and, for classes with event methods, a
 *  subclass that records the events, as the chain's loader does. */
@SupportedAnnotationTypes("*")
public class Gen extends AbstractProcessor {
    @Override public SourceVersion getSupportedSourceVersion() { return SourceVersion.latest(); }
    private final Set<String> done = new HashSet<>();
    static boolean has(Element e, String simple) { for (AnnotationMirror a : e.getAnnotationMirrors()) if (a.getAnnotationType().asElement().getSimpleName().contentEquals(simple)) return true; return false; }
    @Override public boolean process(Set<? extends TypeElement> an, RoundEnvironment env) {
        for (Element e : env.getRootElements()) if (e instanceof TypeElement) visit((TypeElement) e);
        return false;
    }
    void visit(TypeElement t) {
        if (t.getKind() == ElementKind.INTERFACE && has(t, "ScoreInterface")) iface(t);
        if (t.getKind() == ElementKind.CLASS && !t.getModifiers().contains(Modifier.ABSTRACT) && !t.getModifiers().contains(Modifier.FINAL)) spy(t);
    }
    static String params(ExecutableElement m, boolean types) { StringBuilder b = new StringBuilder(); int i = 0; for (VariableElement p : m.getParameters()) { if (i > 0) b.append(", "); if (types) b.append(strip(p.asType())).append(' '); b.append("p").append(i++); } return b.toString(); }
    static String strip(TypeMirror t) { return t.toString().replaceAll("@[\\w.]+(\\([^)]*\\))?[ ,]*", ""); }
    void write(TypeElement t, String name, String body) {
        String pkg = processingEnv.getElementUtils().getPackageOf(t).getQualifiedName().toString();
        if (!done.add(pkg + "." + name)) return;
        try (Writer w = processingEnv.getFiler().createSourceFile(pkg + "." + name, t).openWriter()) { if (!pkg.isEmpty()) w.write("package " + pkg + ";\n"); w.write(body); } catch (Exception x) { throw new RuntimeException(x); }
    }
    void iface(TypeElement t) {
        String n = t.getSimpleName() + "ScoreInterface";
        StringBuilder b = new StringBuilder("@SuppressWarnings({\"unchecked\",\"rawtypes\"}) public final class " + n + " implements " + t.getQualifiedName() + " {\n protected final score.Address address; protected final java.math.BigInteger valueForPayable;\n public " + n + "(score.Address a) { address = a; valueForPayable = null; }\n public " + n + "(score.Address a, java.math.BigInteger v) { address = a; valueForPayable = v; }\n public score.Address _address() { return address; }\n public " + n + " _payable(java.math.BigInteger v) { return new " + n + "(address, v); }\n public " + n + " _payable(long v) { return _payable(java.math.BigInteger.valueOf(v)); }\n");
        Set<String> seen = new HashSet<>();
        for (ExecutableElement m : ElementFilter.methodsIn(processingEnv.getElementUtils().getAllMembers(t))) {
            if (!m.getModifiers().contains(Modifier.ABSTRACT) || !seen.add(m.toString())) continue;
            String rt = strip(m.getReturnType()), a = params(m, false), sep = a.isEmpty() ? "" : ", ";
            String box = m.getReturnType().getKind().isPrimitive() ? processingEnv.getTypeUtils().boxedClass((PrimitiveType) m.getReturnType()).toString() : strip(processingEnv.getTypeUtils().erasure(m.getReturnType()));
            for (int k = 0; k < (has(m, "Payable") ? 2 : 1); k++) {
                String ps = params(m, true), v = k == 1 ? "valueForPayable_, " : "this.valueForPayable == null ? java.math.BigInteger.ZERO : this.valueForPayable, ";
                b.append(" public ").append(rt).append(' ').append(m.getSimpleName()).append('(').append(k == 1 ? "java.math.BigInteger valueForPayable_" + (ps.isEmpty() ? "" : ", ") : "").append(ps).append(") { ");
                if (has(m, "EventLog")) b.append("throw new RuntimeException(\"not supported EventLog method in interface\"); }\n");
                else if (rt.equals("void")) b.append("score.Context.call(").append(v).append("this.address, \"").append(m.getSimpleName()).append("\"").append(args(m)).append("); }\n");
                else b.append("return (").append(rt).append(") score.Context.call(").append(box).append(".class, ").append(v).append("this.address, \"").append(m.getSimpleName()).append("\"").append(args(m)).append("); }\n");
            }
        }
        write(t, n, b.append("}\n").toString());
    }
    static String args(ExecutableElement m) { StringBuilder b = new StringBuilder(); for (int i = 0; i < m.getParameters().size(); i++) b.append(", (Object) p").append(i); return b.toString(); }
    void spy(TypeElement t) {
        List<ExecutableElement> ev = new ArrayList<>();
        for (ExecutableElement m : ElementFilter.methodsIn(processingEnv.getElementUtils().getAllMembers(t)))
            if (has(m, "EventLog") && !m.getModifiers().contains(Modifier.PRIVATE) && !m.getModifiers().contains(Modifier.STATIC) && !m.getModifiers().contains(Modifier.ABSTRACT) && !m.getModifiers().contains(Modifier.FINAL)) ev.add(m);
        if (ev.isEmpty()) return;
        String n = t.getSimpleName() + "Spy"; StringBuilder b = new StringBuilder("public class " + n + " extends " + t.getQualifiedName() + " {\n");
        for (ExecutableElement c : ElementFilter.constructorsIn(t.getEnclosedElements())) if (!c.getModifiers().contains(Modifier.PRIVATE)) b.append(" public ").append(n).append("(").append(params(c, true)).append(") { super(").append(params(c, false)).append("); }\n");
        for (ExecutableElement m : ev) b.append(" @Override ").append(m.getModifiers().contains(Modifier.PUBLIC) ? "public" : m.getModifiers().contains(Modifier.PROTECTED) ? "protected" : "").append(" void ").append(m.getSimpleName()).append("(").append(params(m, true)).append(") { super.").append(m.getSimpleName()).append("(").append(params(m, false)).append("); sim.World.current().event(\"").append(m.getSimpleName()).append("\"").append(args(m)).append("); }\n");
        write(t, n, b.append("}\n").toString());
    }
}
