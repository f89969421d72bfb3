import com.sun.source.tree.*;
import com.sun.source.util.*;
import javax.tools.*;
import javax.lang.model.element.*;
import javax.lang.model.type.*;
import java.io.*;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;

/** Java source -> the common IR as JSON lines, one compilation unit per line. With -attr the units are attributed by
 *  javac first, so that method calls, names and member accesses carry the symbol they resolve to. */
public class JavaIR
{
    static boolean attr = false;
    static Trees trees;
    static CompilationUnitTree unit;
    static LineMap lines;
    static StringBuilder sb;

    public static void main(String[] args) throws Exception
    {
        List<String> files = new ArrayList<>();
        String cp = "", out = null;
        for (int i = 0; i < args.length; ++i)
        {
            if (args[i].equals("-attr")) attr = true;
            else if (args[i].equals("-cp")) cp = args[++i];
            else if (args[i].equals("-o")) out = args[++i];
            else if (args[i].startsWith("@")) files.addAll(Files.readAllLines(Paths.get(args[i].substring(1))));
            else files.add(args[i]);
        }
        JavaCompiler c = ToolProvider.getSystemJavaCompiler();
        DiagnosticCollector<JavaFileObject> diag = new DiagnosticCollector<>();
        StandardJavaFileManager fm = c.getStandardFileManager(diag, Locale.ROOT, StandardCharsets.UTF_8);
        List<String> opts = new ArrayList<>(Arrays.asList("-proc:none", "-implicit:none", "-Xmaxerrs", "10"));
        if (!cp.isEmpty()) { opts.add("-cp"); opts.add(cp); }
        JavacTask task = (JavacTask)c.getTask(null, fm, diag, opts, null, fm.getJavaFileObjectsFromStrings(files));
        List<CompilationUnitTree> units = new ArrayList<>();
        for (CompilationUnitTree u : task.parse()) units.add(u);
        trees = Trees.instance(task);
        if (attr) task.analyze();
        for (Diagnostic<?> d : diag.getDiagnostics())
            if (d.getKind() == Diagnostic.Kind.ERROR)
            {
                System.err.println("ERROR " + d.getSource() + ":" + d.getLineNumber() + ": " + d.getMessage(Locale.ROOT));
                System.exit(3);
            }
        try (Writer w = new OutputStreamWriter(new BufferedOutputStream(
                out == null ? System.out : new FileOutputStream(out)), StandardCharsets.UTF_8))
        {
            for (CompilationUnitTree u : units)
            {
                unit = u; lines = u.getLineMap(); sb = new StringBuilder();
                doUnit(u);
                w.write(sb.toString()); w.write("\n");
            }
        }
    }

    static void str(String s)
    {
        sb.append('"');
        for (int i = 0; i < s.length(); ++i)
        {
            char ch = s.charAt(i);
            if (ch == '"' || ch == '\\') sb.append('\\').append(ch);
            else if (ch < 0x20 || ch > 0x7e) sb.append(String.format("\\u%04x", (int)ch));
            else sb.append(ch);
        }
        sb.append('"');
    }

    static int line(Tree t)
    {
        long p = ((com.sun.source.util.SourcePositions)trees.getSourcePositions()).getStartPosition(unit, t);
        return p < 0 ? 0 : (int)lines.getLineNumber(p);
    }

    static Element elem(Tree t)
    {
        if (!attr) return null;
        if (t instanceof com.sun.tools.javac.tree.JCTree)
        {
            if (t instanceof com.sun.tools.javac.tree.JCTree.JCIdent) return ((com.sun.tools.javac.tree.JCTree.JCIdent)t).sym;
            if (t instanceof com.sun.tools.javac.tree.JCTree.JCFieldAccess) return ((com.sun.tools.javac.tree.JCTree.JCFieldAccess)t).sym;
            if (t instanceof com.sun.tools.javac.tree.JCTree.JCNewClass) return ((com.sun.tools.javac.tree.JCTree.JCNewClass)t).constructor;
            if (t instanceof com.sun.tools.javac.tree.JCTree.JCMemberReference) return ((com.sun.tools.javac.tree.JCTree.JCMemberReference)t).sym;
        }
        return null;
    }

    static String typeOf(Tree t)
    {
        if (!attr || !(t instanceof com.sun.tools.javac.tree.JCTree)) return null;
        com.sun.tools.javac.code.Type ty = ((com.sun.tools.javac.tree.JCTree)t).type;
        return ty == null ? null : ty.toString();
    }

    static String symName(Element e)
    {
        if (e == null) return null;
        if (e.getKind() == ElementKind.LOCAL_VARIABLE || e.getKind() == ElementKind.PARAMETER
                || e.getKind() == ElementKind.EXCEPTION_PARAMETER || e.getKind() == ElementKind.RESOURCE_VARIABLE
                || e.getKind() == ElementKind.BINDING_VARIABLE)
            return "local";
        if (e instanceof PackageElement) return "pkg:" + e.toString();
        if (e instanceof TypeElement) return "type:" + ((TypeElement)e).getQualifiedName();
        Element o = e.getEnclosingElement();
        if (e instanceof ExecutableElement)
            return "m:" + o + "#" + e; // owner#name(types)
        return "f:" + o + "#" + e.getSimpleName();
    }

    static void doUnit(CompilationUnitTree u)
    {
        sb.append("{\"lang\":\"java\",\"file\":"); str(Paths.get(u.getSourceFile().toUri()).toString());
        sb.append(",\"package\":"); str(u.getPackageName() == null ? "" : u.getPackageName().toString());
        sb.append(",\"imports\":[");
        boolean f = true;
        for (ImportTree i : u.getImports()) { if (!f) sb.append(','); f = false; str(i.getQualifiedIdentifier().toString()); }
        sb.append("],\"classes\":[");
        f = true;
        for (Tree t : u.getTypeDecls()) if (t instanceof ClassTree) { if (!f) sb.append(','); f = false; klass((ClassTree)t); }
        sb.append("]}");
    }

    static void mods(ModifiersTree m)
    {
        sb.append("[");
        boolean f = true;
        for (Modifier x : m.getFlags()) { if (!f) sb.append(','); f = false; str(x.toString()); }
        for (AnnotationTree a : m.getAnnotations()) { if (!f) sb.append(','); f = false; str("@" + a.getAnnotationType()); }
        sb.append("]");
    }

    static void klass(ClassTree c)
    {
        sb.append("{\"name\":"); str(c.getSimpleName().toString());
        sb.append(",\"line\":" + line(c) + ",\"kind\":"); str(c.getKind().toString());
        sb.append(",\"mods\":"); mods(c.getModifiers());
        if (attr && ((com.sun.tools.javac.tree.JCTree.JCClassDecl)c).sym != null)
        {
            com.sun.tools.javac.code.Symbol.ClassSymbol cs = ((com.sun.tools.javac.tree.JCTree.JCClassDecl)c).sym;
            sb.append(",\"q\":"); str(cs.toString());
            sb.append(",\"supers\":[");
            boolean ff = true;
            Deque<com.sun.tools.javac.code.Type> todo = new ArrayDeque<>();
            Set<String> seen = new LinkedHashSet<>();
            todo.add(cs.type);
            while (!todo.isEmpty())
            {
                com.sun.tools.javac.code.Type t = todo.poll();
                if (t == null || t.tsym == null || !(t.tsym instanceof com.sun.tools.javac.code.Symbol.ClassSymbol)) continue;
                com.sun.tools.javac.code.Symbol.ClassSymbol s = (com.sun.tools.javac.code.Symbol.ClassSymbol)t.tsym;
                if (!seen.add(s.toString())) continue;
                todo.add(s.getSuperclass());
                for (com.sun.tools.javac.code.Type i : s.getInterfaces()) todo.add(i);
            }
            for (String s : seen) { if (!ff) sb.append(','); ff = false; str(s); }
            sb.append("]");
        }
        sb.append(",\"extends\":"); if (c.getExtendsClause() == null) sb.append("null"); else str(c.getExtendsClause().toString());
        sb.append(",\"implements\":[");
        boolean f = true;
        for (Tree t : c.getImplementsClause()) { if (!f) sb.append(','); f = false; str(t.toString()); }
        sb.append("],\"fields\":[");
        f = true;
        for (Tree t : c.getMembers()) if (t instanceof VariableTree)
        {
            VariableTree v = (VariableTree)t;
            if (!f) sb.append(','); f = false;
            sb.append("{\"name\":"); str(v.getName().toString());
            sb.append(",\"type\":"); str(String.valueOf(v.getType()));
            if (attr && v instanceof com.sun.tools.javac.tree.JCTree.JCVariableDecl && ((com.sun.tools.javac.tree.JCTree.JCVariableDecl)v).sym != null)
            { sb.append(",\"qtype\":"); str(((com.sun.tools.javac.tree.JCTree.JCVariableDecl)v).sym.type.toString()); }
            sb.append(",\"line\":" + line(v) + ",\"mods\":"); mods(v.getModifiers());
            sb.append(",\"init\":"); e(v.getInitializer()); sb.append("}");
        }
        sb.append("],\"methods\":[");
        f = true;
        for (Tree t : c.getMembers()) if (t instanceof MethodTree) { if (!f) sb.append(','); f = false; method((MethodTree)t); }
        sb.append("],\"inits\":[");
        f = true;
        for (Tree t : c.getMembers()) if (t instanceof BlockTree) { if (!f) sb.append(','); f = false; s((BlockTree)t); }
        sb.append("],\"classes\":[");
        f = true;
        for (Tree t : c.getMembers()) if (t instanceof ClassTree) { if (!f) sb.append(','); f = false; klass((ClassTree)t); }
        sb.append("]}");
    }

    static void method(MethodTree m)
    {
        sb.append("{\"name\":"); str(m.getName().toString());
        sb.append(",\"line\":" + line(m) + ",\"mods\":"); mods(m.getModifiers());
        sb.append(",\"ret\":"); if (m.getReturnType() == null) sb.append("null"); else str(m.getReturnType().toString());
        if (attr && ((com.sun.tools.javac.tree.JCTree.JCMethodDecl)m).sym != null)
        { sb.append(",\"sym\":"); str(symName(((com.sun.tools.javac.tree.JCTree.JCMethodDecl)m).sym)); }
        sb.append(",\"params\":[");
        boolean f = true;
        for (VariableTree v : m.getParameters()) { if (!f) sb.append(','); f = false; str(v.getName().toString()); }
        sb.append("],\"ptypes\":[");
        f = true;
        for (VariableTree v : m.getParameters()) { if (!f) sb.append(','); f = false; str(v.getType().toString()); }
        sb.append("],\"throws\":[");
        f = true;
        for (ExpressionTree v : m.getThrows()) { if (!f) sb.append(','); f = false; str(v.toString()); }
        sb.append("],\"body\":");
        if (m.getBody() == null) sb.append("null"); else sl(m.getBody().getStatements());
        sb.append("}");
    }

    static void sl(List<? extends StatementTree> l)
    {
        sb.append("[");
        boolean f = true;
        for (StatementTree t : l)
        {
            if (t instanceof EmptyStatementTree) continue;
            if (!f) sb.append(','); f = false; s(t);
        }
        sb.append("]");
    }

    static void body(StatementTree t)
    {
        if (t == null) { sb.append("[]"); return; }
        if (t instanceof BlockTree) sl(((BlockTree)t).getStatements());
        else sl(Collections.singletonList(t));
    }

    static void s(StatementTree t)
    {
        int ln = line(t);
        switch (t.getKind())
        {
        case EXPRESSION_STATEMENT: sb.append("[\"expr\","); e(((ExpressionStatementTree)t).getExpression()); break;
        case VARIABLE:
        {
            VariableTree v = (VariableTree)t;
            sb.append("[\"decl\","); str(v.getName().toString()); sb.append(','); str(attr && typeOf(t) != null ? typeOf(t) : String.valueOf(v.getType()));
            sb.append(','); e(v.getInitializer()); break;
        }
        case RETURN: sb.append("[\"return\","); if (((ReturnTree)t).getExpression() == null) sb.append("null"); else e(((ReturnTree)t).getExpression()); break;
        case THROW: sb.append("[\"throw\","); e(((ThrowTree)t).getExpression()); break;
        case IF:
        {
            IfTree i = (IfTree)t;
            sb.append("[\"if\","); e(i.getCondition()); sb.append(','); body(i.getThenStatement()); sb.append(','); body(i.getElseStatement()); break;
        }
        case WHILE_LOOP: sb.append("[\"while\","); e(((WhileLoopTree)t).getCondition()); sb.append(','); body(((WhileLoopTree)t).getStatement()); break;
        case DO_WHILE_LOOP: sb.append("[\"do\","); body(((DoWhileLoopTree)t).getStatement()); sb.append(','); e(((DoWhileLoopTree)t).getCondition()); break;
        case FOR_LOOP:
        {
            ForLoopTree l = (ForLoopTree)t;
            sb.append("[\"for\","); sl(l.getInitializer()); sb.append(',');
            if (l.getCondition() == null) sb.append("null"); else e(l.getCondition());
            sb.append(','); sl(l.getUpdate()); sb.append(','); body(l.getStatement()); break;
        }
        case ENHANCED_FOR_LOOP:
        {
            EnhancedForLoopTree l = (EnhancedForLoopTree)t;
            sb.append("[\"foreach\",[\"name\","); str(l.getVariable().getName().toString()); sb.append("],");
            e(l.getExpression()); sb.append(','); body(l.getStatement()); break;
        }
        case SWITCH:
        {
            SwitchTree w = (SwitchTree)t;
            sb.append("[\"switch\","); e(w.getExpression()); sb.append(",[");
            boolean f = true;
            for (CaseTree ct : w.getCases())
            {
                if (!f) sb.append(','); f = false;
                sb.append("[[");
                boolean g = true;
                if (ct.getExpressions().isEmpty()) sb.append("[\"default\"]");
                for (ExpressionTree x : ct.getExpressions()) { if (!g) sb.append(','); g = false; e(x); }
                sb.append("],"); if (ct.getStatements() == null) sb.append("[]"); else sl(ct.getStatements()); sb.append("]");
            }
            sb.append("]"); break;
        }
        case TRY:
        {
            TryTree y = (TryTree)t;
            if (!y.getResources().isEmpty())
            {
                sb.append("[\"with\",[");
                boolean f = true;
                for (Tree r : y.getResources())
                {
                    if (!f) sb.append(','); f = false;
                    if (r instanceof VariableTree) { sb.append("["); e(((VariableTree)r).getInitializer()); sb.append(",[\"name\","); str(((VariableTree)r).getName().toString()); sb.append("]]"); }
                    else { sb.append("["); e((ExpressionTree)r); sb.append(",null]"); }
                }
                sb.append("],[");
                if (y.getCatches().isEmpty() && y.getFinallyBlock() == null) { sb.setLength(sb.length() - 1); body(y.getBlock()); break; }
            }
            sb.append("[\"try\","); body(y.getBlock()); sb.append(",[");
            boolean f = true;
            for (CatchTree ct : y.getCatches())
            {
                if (!f) sb.append(','); f = false;
                sb.append("[[\"name\","); str(ct.getParameter().getType().toString()); sb.append("],"); str(ct.getParameter().getName().toString());
                sb.append(','); body(ct.getBlock()); sb.append("]");
            }
            sb.append("],"); body(y.getFinallyBlock()); sb.append("," + ln + ",[]");
            if (!y.getResources().isEmpty()) { sb.append("]]"); break; }
            sb.append("]");
            return;
        }
        case BLOCK: sb.append("[\"block\","); body(t); break;
        case BREAK: sb.append("[\"break\"," + ln + "]"); return;
        case CONTINUE: sb.append("[\"continue\"," + ln + "]"); return;
        case SYNCHRONIZED: sb.append("[\"block\","); body(((SynchronizedTree)t).getBlock()); break;
        case LABELED_STATEMENT: sb.append("[\"block\","); body(((LabeledStatementTree)t).getStatement()); break;
        case ASSERT: sb.append("[\"other\",\"assert\""); break;
        case CLASS:
            sb.append("[\"other\",\"class\"," + ln + ","); klass((ClassTree)t); sb.append("]");
            return;
        default: sb.append("[\"other\","); str(t.getKind().toString()); break;
        }
        sb.append("," + ln + "]");
    }

    static void el(List<? extends ExpressionTree> l)
    {
        sb.append("[");
        boolean f = true;
        for (ExpressionTree t : l) { if (!f) sb.append(','); f = false; e(t); }
        sb.append("]");
    }

    static String op(Tree.Kind k)
    {
        switch (k)
        {
        case PLUS: case PLUS_ASSIGNMENT: case UNARY_PLUS: return "+";
        case MINUS: case MINUS_ASSIGNMENT: case UNARY_MINUS: return "-";
        case MULTIPLY: case MULTIPLY_ASSIGNMENT: return "*";
        case DIVIDE: case DIVIDE_ASSIGNMENT: return "/";
        case REMAINDER: case REMAINDER_ASSIGNMENT: return "%";
        case LEFT_SHIFT: case LEFT_SHIFT_ASSIGNMENT: return "<<";
        case RIGHT_SHIFT: case RIGHT_SHIFT_ASSIGNMENT: return ">>";
        case UNSIGNED_RIGHT_SHIFT: case UNSIGNED_RIGHT_SHIFT_ASSIGNMENT: return ">>>";
        case LESS_THAN: return "<"; case LESS_THAN_EQUAL: return "<="; case GREATER_THAN: return ">";
        case GREATER_THAN_EQUAL: return ">="; case EQUAL_TO: return "=="; case NOT_EQUAL_TO: return "!=";
        case AND: case AND_ASSIGNMENT: return "&"; case OR: case OR_ASSIGNMENT: return "|";
        case XOR: case XOR_ASSIGNMENT: return "^"; case CONDITIONAL_AND: return "&&"; case CONDITIONAL_OR: return "||";
        case LOGICAL_COMPLEMENT: return "!"; case BITWISE_COMPLEMENT: return "~";
        case PREFIX_INCREMENT: return "++pre"; case PREFIX_DECREMENT: return "--pre";
        case POSTFIX_INCREMENT: return "post++"; case POSTFIX_DECREMENT: return "post--";
        default: return k.toString();
        }
    }

    static void e(ExpressionTree t)
    {
        if (t == null) { sb.append("[\"null\"]"); return; }
        Element el = elem(t);
        switch (t.getKind())
        {
        case PARENTHESIZED: e(((ParenthesizedTree)t).getExpression()); return;
        case INT_LITERAL: case LONG_LITERAL: sb.append("[\"num\"," + ((LiteralTree)t).getValue() + "]"); return;
        case FLOAT_LITERAL: case DOUBLE_LITERAL: sb.append("[\"num\"," + ((LiteralTree)t).getValue() + "]"); return;
        case BOOLEAN_LITERAL: sb.append("[\"bool\"," + ((LiteralTree)t).getValue() + "]"); return;
        case CHAR_LITERAL: sb.append("[\"char\","); str(String.valueOf(((LiteralTree)t).getValue())); sb.append("]"); return;
        case STRING_LITERAL: sb.append("[\"str\","); str((String)((LiteralTree)t).getValue()); sb.append("]"); return;
        case NULL_LITERAL: sb.append("[\"null\"]"); return;
        case IDENTIFIER:
            sb.append("[\"name\","); str(((IdentifierTree)t).getName().toString());
            if (el != null) { sb.append(","); str(symName(el)); sb.append(","); str(String.valueOf(typeOf(t))); }
            sb.append("]"); return;
        case MEMBER_SELECT:
            sb.append("[\"attr\","); e(((MemberSelectTree)t).getExpression()); sb.append(","); str(((MemberSelectTree)t).getIdentifier().toString());
            if (el != null) { sb.append(","); str(symName(el)); sb.append(","); str(String.valueOf(typeOf(t))); }
            sb.append("]"); return;
        case METHOD_INVOCATION:
        {
            MethodInvocationTree m = (MethodInvocationTree)t;
            sb.append("[\"call\","); e(m.getMethodSelect()); sb.append(","); el(m.getArguments()); sb.append(",{}," + line(t));
            if (attr && typeOf(t) != null) { sb.append(","); str(typeOf(t)); }
            sb.append("]"); return;
        }
        case NEW_CLASS:
        {
            NewClassTree n = (NewClassTree)t;
            sb.append("[\"new\","); str(attr && typeOf(t) != null ? typeOf(t) : n.getIdentifier().toString()); sb.append(","); el(n.getArguments()); sb.append("," + line(t));
            if (n.getClassBody() != null) { sb.append(","); klass(n.getClassBody()); }
            sb.append("]"); return;
        }
        case NEW_ARRAY:
        {
            NewArrayTree n = (NewArrayTree)t;
            sb.append("[\"newarr\","); str(String.valueOf(n.getType())); sb.append(","); el(n.getDimensions()); sb.append(",");
            if (n.getInitializers() == null) sb.append("null"); else el(n.getInitializers());
            sb.append("]"); return;
        }
        case ARRAY_ACCESS: sb.append("[\"idx\","); e(((ArrayAccessTree)t).getExpression()); sb.append(","); e(((ArrayAccessTree)t).getIndex()); sb.append("]"); return;
        case CONDITIONAL_EXPRESSION:
        {
            ConditionalExpressionTree c = (ConditionalExpressionTree)t;
            sb.append("[\"cond\","); e(c.getCondition()); sb.append(","); e(c.getTrueExpression()); sb.append(","); e(c.getFalseExpression()); sb.append("]"); return;
        }
        case TYPE_CAST: sb.append("[\"cast\","); str(((TypeCastTree)t).getType().toString()); sb.append(","); e(((TypeCastTree)t).getExpression()); sb.append("]"); return;
        case INSTANCE_OF: sb.append("[\"inst\","); e(((InstanceOfTree)t).getExpression()); sb.append(","); { String it = typeOf(((InstanceOfTree)t).getType()); str(it == null ? String.valueOf(((InstanceOfTree)t).getType()) : it); } sb.append("]"); return;
        case LAMBDA_EXPRESSION:
        {
            LambdaExpressionTree l = (LambdaExpressionTree)t;
            sb.append("[\"lambda\",[");
            boolean f = true;
            for (VariableTree v : l.getParameters()) { if (!f) sb.append(','); f = false; str(v.getName().toString()); }
            sb.append("],");
            if (l.getBody() instanceof ExpressionTree) e((ExpressionTree)l.getBody());
            else { sb.append("[\"lbody\","); body((StatementTree)l.getBody()); sb.append("]"); }
            sb.append("]"); return;
        }
        case MEMBER_REFERENCE: sb.append("[\"mref\","); e(((MemberReferenceTree)t).getQualifierExpression()); sb.append(","); str(((MemberReferenceTree)t).getName().toString()); if (el != null) { sb.append(","); str(symName(el)); } sb.append("]"); return;
        case ASSIGNMENT: sb.append("[\"assign\",\"=\","); e(((AssignmentTree)t).getVariable()); sb.append(","); e(((AssignmentTree)t).getExpression()); sb.append("]"); return;
        default:
            if (t instanceof CompoundAssignmentTree)
            { sb.append("[\"assign\",\"" + op(t.getKind()) + "=\","); e(((CompoundAssignmentTree)t).getVariable()); sb.append(","); e(((CompoundAssignmentTree)t).getExpression()); sb.append("]"); return; }
            if (t instanceof BinaryTree)
            { sb.append("[\"bin\",\"" + op(t.getKind()) + "\","); e(((BinaryTree)t).getLeftOperand()); sb.append(","); e(((BinaryTree)t).getRightOperand()); sb.append("]"); return; }
            if (t instanceof UnaryTree)
            { sb.append("[\"un\",\"" + op(t.getKind()) + "\","); e(((UnaryTree)t).getExpression()); sb.append("]"); return; }
            if (t instanceof SwitchExpressionTree) { sb.append("[\"other\",\"switchexpr\"]"); return; }
            sb.append("[\"type\","); str(t.toString()); sb.append("]");
        }
    }
}
