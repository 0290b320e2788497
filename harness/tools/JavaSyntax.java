import java.io.*;
import java.net.URI;
import java.nio.charset.StandardCharsets;
import java.util.*;
import javax.tools.*;
import com.sun.source.util.JavacTask;

// Reads one request per line, a base64 Java source, and answers with the syntax errors, base64.
public class JavaSyntax {
    public static void main(String[] a) throws Exception {
        JavaCompiler jc = ToolProvider.getSystemJavaCompiler();
        BufferedReader in = new BufferedReader(new InputStreamReader(System.in, StandardCharsets.UTF_8));
        PrintStream out = new PrintStream(new FileOutputStream(FileDescriptor.out), true, "UTF-8");
        StandardJavaFileManager fm = jc.getStandardFileManager(null, null, StandardCharsets.UTF_8);
        String line;
        while ((line = in.readLine()) != null) {
            final String src = new String(Base64.getDecoder().decode(line), StandardCharsets.UTF_8);
            StringBuilder sb = new StringBuilder();
            try {
                DiagnosticCollector<JavaFileObject> dc = new DiagnosticCollector<>();
                SimpleJavaFileObject fo = new SimpleJavaFileObject(URI.create("string:///X.java"), JavaFileObject.Kind.SOURCE) {
                    @Override public CharSequence getCharContent(boolean i) { return src; }
                };
                JavacTask t = (JavacTask) jc.getTask(null, fm, dc, Arrays.asList("-proc:none"), null, Arrays.asList(fo));
                t.parse();
                for (Diagnostic<?> d : dc.getDiagnostics())
                    if (d.getKind() == Diagnostic.Kind.ERROR) sb.append(d.getLineNumber()).append(": ").append(d.getMessage(Locale.ENGLISH)).append('\n');
            } catch (Throwable e) { sb.append("INFRA ").append(e); }
            out.println(Base64.getEncoder().encodeToString(sb.toString().getBytes(StandardCharsets.UTF_8)));
        }
    }
}
