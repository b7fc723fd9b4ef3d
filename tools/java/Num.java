// Evaluates the operators of rational arithmetics of spec/Num.tla natively (TLC
// loads a class with the name of a module): the same functions, but much faster.
import tlc2.value.impl.*;
import util.UniqueString;

public class Num {
    private static final UniqueString N = UniqueString.uniqueStringOf("n"), D = UniqueString.uniqueStringOf("d");
    private static long gcd0(long a, long b) { while (b != 0) { final long t = a % b; a = b; b = t; } return a; }
    private static int small(final long v) {
        if (v > Integer.MAX_VALUE || v < -Integer.MAX_VALUE) { throw new RuntimeException("Overflow in rational arithmetics: " + v); }
        return (int) v;
    }
    private static long part(final Value q, final UniqueString f) {
        final RecordValue r = (RecordValue) q.toRcd();
        return ((IntValue) r.select(new StringValue(f))).val;
    }
    private static Value make(long n, long d) {
        if (d == 0) { throw new RuntimeException("Division by zero in rational arithmetics"); }
        if (n == 0) { d = 1; }
        else {
            if (d < 0) { n = -n; d = -d; }
            final long g = gcd0(Math.abs(n), d);
            n /= g; d /= g;
        }
        return new RecordValue(new UniqueString[] {N, D}, new Value[] {IntValue.gen(small(n)), IntValue.gen(small(d))}, false);
    }
    static Value rational(final int n) { return make(n, 1); }
    static Value neg(final Value a) { return make(-part(a, N), part(a, D)); }
    public static Value GCD(final Value a, final Value b) { return IntValue.gen(small(gcd0(((IntValue) a).val, ((IntValue) b).val))); }
    public static Value Q(final Value n, final Value d) { return make(((IntValue) n).val, ((IntValue) d).val); }
    public static Value QAdd(final Value a, final Value b) {
        final long ad = part(a, D), bd = part(b, D), g = gcd0(ad, bd);
        return make(Math.addExact(Math.multiplyExact(part(a, N), bd / g), Math.multiplyExact(part(b, N), ad / g)), Math.multiplyExact(ad, bd / g));
    }
    public static Value QMul(final Value a, final Value b) {
        return make(Math.multiplyExact(part(a, N), part(b, N)), Math.multiplyExact(part(a, D), part(b, D)));
    }
    private static final long PR = 46337;
    private static long cube(final long v) { return (((v * v) % PR) * v) % PR; }
    private static long mix(final long s, final long i) { return cube((cube((s * 7919 + 17) % PR) + cube((i * 31 + 5) % PR) + 3 * i + 1) % PR); }
    public static Value Hash(final Value s, final Value i) {
        final long a = ((IntValue) s).val, b = ((IntValue) i).val;
        return IntValue.gen(small(cube((mix(a, b) + 31 * mix(a + 1, b + 7)) % PR)));
    }
}
