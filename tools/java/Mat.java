// Evaluates the operators of spec/Mat.tla natively: the same functions, but the
// results are tuples (TLC keeps function constructors unevaluated and may
// evaluate their elements repeatedly).
import tlc2.value.impl.*;

public class Mat {
    private interface Op { Value f(Value a, Value b); }
    private static final Op QADD = new Op() { public Value f(final Value a, final Value b) { return Num.QAdd(a, b); } };
    private static final Op QSUB = new Op() { public Value f(final Value a, final Value b) { return Num.QAdd(a, Num.neg(b)); } };
    private static final Op ADD = new Op() { public Value f(final Value a, final Value b) { return IntValue.gen(Math.addExact(i(a), i(b))); } };
    private static final Op SUB = new Op() { public Value f(final Value a, final Value b) { return IntValue.gen(Math.subtractExact(i(a), i(b))); } };
    private static int i(final Value v) { return ((IntValue) v).val; }
    private static Value[] v(final Value a) {
        final Value t = a.toTuple();
        if (t == null) { throw new RuntimeException("A sequence was expected instead of " + a); }
        return ((TupleValue) t).elems;
    }
    private static Value[][] m(final Value a) {
        final Value[] r = v(a);
        final Value[][] m = new Value[r.length][];
        for (int k = 0; k < r.length; ++k) { m[k] = v(r[k]); }
        return m;
    }
    private static Value pack(final Value[][] m) {
        final Value[] r = new Value[m.length];
        for (int k = 0; k < m.length; ++k) { r[k] = new TupleValue(m[k]); }
        return new TupleValue(r);
    }
    // as in the definitions: the sizes are those of the first operand
    private static void atLeast(final int have, final int need) {
        if (have < need) { throw new RuntimeException("Operands have different sizes: " + need + ", " + have); }
    }
    private static Value[] zip(final Value[] a, final Value[] b, final Op f) {
        atLeast(b.length, a.length);
        final Value[] r = new Value[a.length];
        for (int k = 0; k < a.length; ++k) { r[k] = f.f(a[k], b[k]); }
        return r;
    }
    private static Value zipM(final Value a, final Value b, final Op f) {
        final Value[][] A = m(a), B = m(b);
        atLeast(B.length, A.length);
        for (int k = 0; k < A.length; ++k) { A[k] = zip(A[k], B[k], f); }
        return pack(A);
    }
    private static Value qdot(final Value[] a, final Value[] b) {
        atLeast(b.length, a.length);
        Value s = Num.rational(0);
        for (int k = 0; k < a.length; ++k) { s = Num.QAdd(Num.QMul(a[k], b[k]), s); }
        return s;
    }
    private static Value dot(final Value[] a, final Value[] b) {
        atLeast(b.length, a.length);
        int s = 0;
        for (int k = 0; k < a.length; ++k) { s = Math.addExact(Math.multiplyExact(i(a[k]), i(b[k])), s); }
        return IntValue.gen(s);
    }
    private static Value[][] tr(final Value[][] M, final int n) {
        final Value[][] r = new Value[n][M.length];
        for (int j = 0; j < n; ++j) { for (int k = 0; k < M.length; ++k) { r[j][k] = M[k][j]; } }
        return r;
    }
    private static int cols(final Value[][] M) { return M.length == 0 ? 0 : M[0].length; }
    private static Value mul(final Value[][] A, final Value[][] B, final int n, final boolean q) {
        final Value[][] T = tr(B, n), r = new Value[A.length][n];
        for (int k = 0; k < A.length; ++k) { for (int j = 0; j < n; ++j) { r[k][j] = q ? qdot(A[k], T[j]) : dot(A[k], T[j]); } }
        return pack(r);
    }

    public static Value QVAdd(final Value a, final Value b) { return new TupleValue(zip(v(a), v(b), QADD)); }
    public static Value QVSub(final Value a, final Value b) { return new TupleValue(zip(v(a), v(b), QSUB)); }
    public static Value QMAdd(final Value a, final Value b) { return zipM(a, b, QADD); }
    public static Value QMSub(final Value a, final Value b) { return zipM(a, b, QSUB); }
    public static Value QVScale(final Value k, final Value a) {
        final Value[] x = v(a), r = new Value[x.length];
        for (int j = 0; j < x.length; ++j) { r[j] = Num.QMul(k, x[j]); }
        return new TupleValue(r);
    }
    public static Value QMScale(final Value k, final Value a) {
        final Value[][] x = m(a);
        final Value[] r = new Value[x.length];
        for (int j = 0; j < x.length; ++j) { r[j] = QVScale(k, new TupleValue(x[j])); }
        return new TupleValue(r);
    }
    public static Value QVNeg(final Value a) { return QVScale(Num.rational(-1), a); }
    public static Value QMNeg(final Value a) { return QMScale(Num.rational(-1), a); }
    public static Value QDot(final Value a, final Value b) { return qdot(v(a), v(b)); }
    public static Value QMV(final Value M, final Value x) {
        final Value[][] A = m(M);
        final Value[] y = v(x), r = new Value[A.length];
        for (int k = 0; k < A.length; ++k) { r[k] = qdot(A[k], y); }
        return new TupleValue(r);
    }
    public static Value QMMN(final Value A, final Value B, final Value n) { return mul(m(A), m(B), i(n), true); }
    public static Value QMM(final Value A, final Value B) { final Value[][] b = m(B); return mul(m(A), b, cols(b), true); }
    public static Value TrN(final Value M, final Value n) { return pack(tr(m(M), i(n))); }

    public static Value VAdd(final Value a, final Value b) { return new TupleValue(zip(v(a), v(b), ADD)); }
    public static Value VSub(final Value a, final Value b) { return new TupleValue(zip(v(a), v(b), SUB)); }
    public static Value MAdd(final Value a, final Value b) { return zipM(a, b, ADD); }
    public static Value MSub(final Value a, final Value b) { return zipM(a, b, SUB); }
    public static Value Dot(final Value a, final Value b) { return dot(v(a), v(b)); }
    public static Value MV(final Value M, final Value x) {
        final Value[][] A = m(M);
        final Value[] y = v(x), r = new Value[A.length];
        for (int k = 0; k < A.length; ++k) { r[k] = dot(A[k], y); }
        return new TupleValue(r);
    }
    public static Value MMN(final Value A, final Value B, final Value n) { return mul(m(A), m(B), i(n), false); }
    public static Value MM(final Value A, final Value B) { final Value[][] b = m(B); return mul(m(A), b, cols(b), false); }
}
