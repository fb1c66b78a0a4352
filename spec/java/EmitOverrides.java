import java.io.*;
import java.util.*;
import java.util.concurrent.*;
import java.util.concurrent.atomic.*;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/** Operators of Emit.tla. */
public class EmitOverrides implements ITLCOverrides {
    @SuppressWarnings("rawtypes")
    @Override
    public Class[] get() { return new Class[] { EmitOverrides.class }; }

    static final Map<String, PrintWriter> files = new HashMap<>();
    static final ConcurrentHashMap<String, AtomicLong> ticks = new ConcurrentHashMap<>();
    static {
        Runtime.getRuntime().addShutdownHook(new Thread(() -> {
            synchronized (files) { for (PrintWriter w : files.values()) w.close(); }
            String f = System.getProperty("ticks");
            if (f != null) try (PrintWriter w = new PrintWriter(f)) {
                for (String k : new TreeSet<>(ticks.keySet())) w.println(ticks.get(k).get() + " " + k);
            } catch (IOException e) { e.printStackTrace(); }
        }));
    }

    static void json(Value v, StringBuilder b) {
        if (v instanceof IntValue) b.append(((IntValue) v).val);
        else if (v instanceof StringValue) {
            b.append('"').append(((StringValue) v).val.toString().replace("\\", "\\\\").replace("\"", "\\\"")).append('"');
        } else if (v instanceof BoolValue) b.append(((BoolValue) v).val);
        else if (v instanceof RecordValue) {
            RecordValue r = (RecordValue) v;
            b.append('{');
            for (int i = 0; i < r.names.length; i++) {
                if (i > 0) b.append(',');
                b.append('"').append(r.names[i]).append("\":");
                json(r.values[i], b);
            }
            b.append('}');
        } else if (v instanceof SetEnumValue) {
            v.normalize();
            b.append('[');
            ValueVec e = ((SetEnumValue) v).elems;
            for (int i = 0; i < e.size(); i++) { if (i > 0) b.append(','); json(e.elementAt(i), b); }
            b.append(']');
        } else {
            Value t = v.toTuple();
            if (t != null) {
                Value[] e = ((TupleValue) t).elems;
                b.append('[');
                for (int i = 0; i < e.length; i++) { if (i > 0) b.append(','); json(e[i], b); }
                b.append(']');
            } else {
                Value s = v.toSetEnum();
                if (s != null) json(s, b); else throw new RuntimeException("EmitJson: " + v);
            }
        }
    }

    @TLAPlusOperator(identifier = "EmitJson", module = "Emit", warn = false)
    public static Value emit(final StringValue file, final Value v) throws IOException {
        StringBuilder b = new StringBuilder();
        json(v, b);
        synchronized (files) {
            String f = file.val.toString();
            PrintWriter w = files.get(f);
            if (w == null) files.put(f, w = new PrintWriter(new BufferedWriter(new FileWriter(f))));
            w.println(b);
        }
        return BoolValue.ValTrue;
    }

    @TLAPlusOperator(identifier = "Tick", module = "Emit", warn = false)
    public static Value tick(final StringValue label) {
        ticks.computeIfAbsent(label.val.toString(), k -> new AtomicLong()).incrementAndGet();
        return BoolValue.ValTrue;
    }
}
