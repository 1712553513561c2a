// TLC evaluates the operators of spec/Kernel.tla with these methods when this
// class is on its class path. Their meaning is the TLA+ definition; the module
// KernelCheck compares both.
import java.security.MessageDigest;
import javax.crypto.Cipher;
import javax.crypto.spec.SecretKeySpec;
import tlc2.value.IValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

public class Kernel {
    private static int[] ints(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        if (t == null) throw new RuntimeException("Kernel: a sequence was expected");
        int[] r = new int[t.elems.length];
        for (int i = 0; i < r.length; i++) r[i] = ((IntValue) t.elems[i]).val;
        return r;
    }

    private static Value seq(int[] a) {
        Value[] e = new Value[a.length];
        for (int i = 0; i < a.length; i++) e[i] = IntValue.gen(a[i]);
        return new TupleValue(e);
    }

    private static byte[] bytes(Value v) {
        int[] a = ints(v);
        byte[] b = new byte[a.length];
        for (int i = 0; i < a.length; i++) {
            if (a[i] < 0 || a[i] > 255) throw new RuntimeException("Kernel: byte out of range: " + a[i]);
            b[i] = (byte) a[i];
        }
        return b;
    }

    private static Value seq(byte[] b) {
        int[] a = new int[b.length];
        for (int i = 0; i < b.length; i++) a[i] = b[i] & 255;
        return seq(a);
    }

    public static Value CyclicMul(Value av, Value bv, Value qv) {
        int[] a = ints(av), b = ints(bv);
        int n = a.length, q = ((IntValue) qv).val;
        if (b.length != n) throw new RuntimeException("Kernel: lengths differ");
        long[] r = new long[n];
        for (int i = 0; i < n; i++) {
            long x = a[i];
            if (x == 0) continue;
            for (int j = 0; j < n - i; j++) r[i + j] += x * b[j];
            for (int j = n - i; j < n; j++) r[i + j - n] += x * b[j];
        }
        int[] out = new int[n];
        for (int k = 0; k < n; k++) out[k] = (int) (((r[k] % q) + q) % q);
        return seq(out);
    }

    public static Value SortInts(Value v) {
        int[] a = ints(v);
        java.util.Arrays.sort(a);
        return seq(a);
    }

    public static Value SHA3_256(Value m) throws Exception {
        return seq(MessageDigest.getInstance("SHA3-256").digest(bytes(m)));
    }

    public static Value AES256(Value key, Value block) throws Exception {
        Cipher c = Cipher.getInstance("AES/ECB/NoPadding");
        c.init(Cipher.ENCRYPT_MODE, new SecretKeySpec(bytes(key), "AES"));
        return seq(c.doFinal(bytes(block)));
    }
}
