import java.nio.charset.StandardCharsets;
import java.nio.file.Files;
import java.nio.file.Paths;
import java.util.ArrayList;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.RecordValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;
import util.UniqueString;

/** Replaces spec/Recording.tla: reads a file of JSON lines, once, faster than ndJsonDeserialize. */
public class Recording {
    private static final ConcurrentHashMap<String, Value> READ = new ConcurrentHashMap<>();
    private static final Value[] SMALL = new Value[65536];
    static { for (int i = 0; i < SMALL.length; i++) SMALL[i] = IntValue.gen(i); }

    public static Value Recorded(Value file) {
        return READ.computeIfAbsent(((StringValue) file).val.toString(), Recording::read);
    }

    private static Value read(String name) {
        try {
            Parser p = new Parser(Files.readAllBytes(Paths.get(name)));
            ArrayList<Value> l = new ArrayList<>();
            for (p.space(); p.at < p.b.length; p.space()) l.add(p.value());
            return new TupleValue(l.toArray(new Value[0]));
        } catch (java.io.IOException e) {
            throw new RuntimeException(e);
        }
    }

    private static class Parser {
        final byte[] b;
        int at = 0;
        private Value[] buf = new Value[1024];

        Parser(byte[] b) { this.b = b; }

        RuntimeException bad() { return new RuntimeException("not understood at byte " + at); }

        void space() { while (at < b.length && (b[at] == ' ' || b[at] == '\n' || b[at] == '\r' || b[at] == '\t')) at++; }

        void expect(char c) { if (b[at] != c) throw bad(); at++; }

        Value value() {
            space();
            switch (b[at]) {
                case '{': return object();
                case '[': return array();
                case '"': return new StringValue(string());
                case 't': at += 4; return BoolValue.ValTrue;
                case 'f': at += 5; return BoolValue.ValFalse;
                default: return number();
            }
        }

        Value number() {
            boolean neg = b[at] == '-';
            if (neg) at++;
            int from = at;
            long v = 0;
            while (at < b.length && b[at] >= '0' && b[at] <= '9') {
                v = v * 10 + (b[at++] - '0');
                if (v > (neg ? 1L << 31 : Integer.MAX_VALUE)) throw bad();
            }
            if (at == from || at < b.length && (b[at] == '.' || b[at] == 'e' || b[at] == 'E')) throw bad();
            return !neg && v < SMALL.length ? SMALL[(int) v] : IntValue.gen((int) (neg ? -v : v));
        }

        Value array() {
            expect('[');
            space();
            if (b[at] == ']') { at++; return new TupleValue(new Value[0]); }
            if (b[at] == '{' || b[at] == '[' || b[at] == '"') {
                ArrayList<Value> l = new ArrayList<>();
                while (true) {
                    l.add(value());
                    space();
                    if (b[at] == ']') { at++; return new TupleValue(l.toArray(new Value[0])); }
                    expect(',');
                }
            }
            int n = 0;
            while (true) {
                space();
                if (n == buf.length) buf = java.util.Arrays.copyOf(buf, 2 * n);
                buf[n++] = value();
                space();
                if (b[at] == ']') { at++; return new TupleValue(java.util.Arrays.copyOf(buf, n)); }
                expect(',');
            }
        }

        Value object() {
            expect('{');
            ArrayList<UniqueString> names = new ArrayList<>();
            ArrayList<Value> values = new ArrayList<>();
            space();
            if (b[at] == '}') throw bad();
            while (true) {
                space();
                names.add(UniqueString.uniqueStringOf(string()));
                space();
                expect(':');
                values.add(value());
                space();
                if (b[at] == '}') break;
                expect(',');
            }
            at++;
            RecordValue r = new RecordValue(names.toArray(new UniqueString[0]), values.toArray(new Value[0]), false);
            r.normalize();
            return r;
        }

        String string() {
            expect('"');
            int from = at;
            while (b[at] != '"' && b[at] != '\\') at++;
            if (b[at] == '"') return new String(b, from, at++ - from, StandardCharsets.UTF_8);
            StringBuilder s = new StringBuilder(new String(b, from, at - from, StandardCharsets.UTF_8));
            while (b[at] != '"') {
                if (b[at] == '\\') {
                    char c = (char) b[at + 1];
                    at += 2;
                    switch (c) {
                        case 'n': s.append('\n'); break;
                        case 'r': s.append('\r'); break;
                        case 't': s.append('\t'); break;
                        case 'b': s.append('\b'); break;
                        case 'f': s.append('\f'); break;
                        case 'u': s.append((char) Integer.parseInt(new String(b, at, 4, StandardCharsets.US_ASCII), 16)); at += 4; break;
                        default: s.append(c);
                    }
                } else {
                    int f = at;
                    while (b[at] != '"' && b[at] != '\\') at++;
                    s.append(new String(b, f, at - f, StandardCharsets.UTF_8));
                }
            }
            at++;
            return s.toString();
        }
    }
}
