package tlc2.module;

import tlc2.value.IValue;
import tlc2.value.impl.*;
import util.UniqueString;
import java.util.*;

/** TLC module override of Dbl.tla: IEEE-754 doubles with a running error bound, and a parser for formulas.
 *
 *  A number is <<hi, lo>> (the two 32-bit halves of the double) or <<hi, lo, ehi, elo>>, the second double being a
 *  bound on the absolute error that rounding, or another order of evaluation, may have caused so far. */
public class Dbl {
    static final double U = 4.0 * Math.ulp(1.0);   // generous unit roundoff: covers another libm and re-association

    private static final class E {
        final double v, e;
        E(double v, double e) { this.v = v; this.e = (Double.isNaN(e)) ? Double.POSITIVE_INFINITY : e; }
    }
    private static double d(Value hi, Value lo) {
        long h = ((IntValue) hi).val, l = ((IntValue) lo).val & 0xffffffffL;
        return Double.longBitsToDouble((h << 32) | l);
    }
    private static E get(Value x) {
        if (x instanceof IntValue) return new E(((IntValue) x).val, 0);
        TupleValue t = (TupleValue) x.toTuple();
        if (t.elems.length == 2) return new E(d(t.elems[0], t.elems[1]), 0);
        return new E(d(t.elems[0], t.elems[1]), d(t.elems[2], t.elems[3]));
    }
    private static Value put(E x) {
        long a = Double.doubleToLongBits(x.v);
        if (x.e == 0)
            return new TupleValue(new Value[] {IntValue.gen((int) (a >> 32)), IntValue.gen((int) a)});
        long b = Double.doubleToLongBits(x.e);
        return new TupleValue(new Value[] {IntValue.gen((int) (a >> 32)), IntValue.gen((int) a),
                                           IntValue.gen((int) (b >> 32)), IntValue.gen((int) b)});
    }
    private static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

    private static E add(E a, E b) {
        double v = a.v + b.v;
        return new E(v, a.e + b.e + (isInt(a, b, v) ? 0 : U * (Math.abs(a.v) + Math.abs(b.v))));
    }
    private static E neg(E a) { return new E(-a.v, a.e); }
    private static boolean isInt(E a, E b, double v) {
        // exact results (small dyadic numbers) carry no error, so that arithmetic kernels are compared exactly
        return a.e == 0 && b.e == 0 && small(a.v) && small(b.v) && small(v);
    }
    private static boolean small(double x) {
        double s = x * 1024.0;
        return s == Math.rint(s) && Math.abs(s) < 9e15;
    }
    private static E mul(E a, E b) {
        double v = a.v * b.v;
        boolean exact = isInt(a, b, v) && Math.abs(a.v) < 6e7 && Math.abs(b.v) < 6e7;
        if (exact) return new E(v, 0);
        return new E(v, Math.abs(a.v) * b.e + Math.abs(b.v) * a.e + a.e * b.e + U * Math.abs(v) + Double.MIN_NORMAL);
    }
    private static E div(E a, E b) {
        double v = a.v / b.v;
        if (a.e == 0 && b.e == 0 && small(v) && v * b.v == a.v && small(a.v) && small(b.v)) return new E(v, 0);
        if (b.v == 0 && b.e == 0 && a.e == 0) return new E(v, 0);
        double lo = Math.abs(b.v) - b.e;
        if (!(lo > 0)) return new E(v, Double.POSITIVE_INFINITY);
        return new E(v, (a.e + Math.abs(v) * b.e) / lo + U * Math.abs(v) + Double.MIN_NORMAL);
    }
    /** f evaluated with a bound dmax on |f'| over the error interval. */
    private static E fun(E a, double v, double dmax) {
        double pe = a.e == 0 ? 0 : a.e * dmax;
        return new E(v, pe + U * Math.abs(v) + Double.MIN_NORMAL);
    }
    private static E exp(E a) {
        double v = StrictMath.exp(a.v);
        if (a.e == 0 && a.v == 0) return new E(1, 0);
        return fun(a, v, StrictMath.exp(a.v + a.e));
    }
    private static E pow(E a, E b) {
        // integer exponents and positive bases only carry meaningful bounds
        double v = StrictMath.pow(a.v, b.v);
        if (a.e == 0 && b.e == 0 && small(v) && small(a.v) && b.v == Math.rint(b.v) && Math.abs(v) < 1e15)
            return new E(v, 0);
        double da = Math.abs(b.v) * StrictMath.pow(Math.abs(a.v) + a.e, b.v - 1);
        double db = b.e == 0 ? 0 : Math.abs(v * StrictMath.log(Math.abs(a.v)));
        if (b.v < 1) { // decreasing derivative bound: evaluate at the near end
            double lo = Math.abs(a.v) - a.e;
            if (a.e != 0) da = lo > 0 ? Math.abs(b.v) * StrictMath.pow(lo, b.v - 1) : Double.POSITIVE_INFINITY;
        }
        return new E(v, (a.e == 0 ? 0 : a.e * da) + b.e * db + U * Math.abs(v) + Double.MIN_NORMAL);
    }

    // ---- operators -------------------------------------------------------------------------------------------
    public static Value DAdd(Value a, Value b) { return put(add(get(a), get(b))); }
    public static Value DSub(Value a, Value b) { return put(add(get(a), neg(get(b)))); }
    public static Value DNeg(Value a) { return put(neg(get(a))); }
    public static Value DMul(Value a, Value b) { return put(mul(get(a), get(b))); }
    public static Value DDiv(Value a, Value b) { return put(div(get(a), get(b))); }
    public static Value DAbs(Value a) { E x = get(a); return put(new E(Math.abs(x.v), x.e)); }
    public static Value DExp(Value a) { return put(exp(get(a))); }
    public static Value DLog(Value a) {
        E x = get(a);
        if (x.e == 0 && x.v == 1) return put(new E(0, 0));
        double lo = x.v - x.e;
        if (x.e != 0 && !(lo > 0)) return put(new E(StrictMath.log(x.v), Double.POSITIVE_INFINITY));
        double v = StrictMath.log(x.v);
        return put(new E(v, (x.e == 0 ? 0 : x.e / lo) + U * Math.abs(v) + U * 1e-3));
    }
    public static Value DSin(Value a) {
        E x = get(a);
        if (x.e == 0 && x.v == 0) return put(x);
        return put(fun(x, StrictMath.sin(x.v), 1));
    }
    public static Value DCos(Value a) {
        E x = get(a);
        if (x.e == 0 && x.v == 0) return put(new E(1, 0));
        return put(fun(x, StrictMath.cos(x.v), 1));
    }
    public static Value DTanh(Value a) {
        E x = get(a);
        if (x.e == 0 && x.v == 0) return put(x);
        return put(fun(x, StrictMath.tanh(x.v), 1));
    }
    public static Value DSqrt(Value a) {
        E x = get(a);
        double v = StrictMath.sqrt(x.v);
        if (x.e == 0 && small(v) && v * v == x.v) return put(new E(v, 0));
        double lo = x.v - x.e;
        if (x.e != 0 && !(lo > 0)) return put(new E(v, Double.POSITIVE_INFINITY));
        return put(new E(v, (x.e == 0 ? 0 : x.e / (2 * StrictMath.sqrt(lo))) + U * Math.abs(v)));
    }
    public static Value DPow(Value a, Value b) { return put(pow(get(a), get(b))); }
    public static Value DMax(Value a, Value b) {
        E x = get(a), y = get(b);
        return put(new E(Math.max(x.v, y.v), Math.max(x.e, y.e)));
    }
    /** 1 when x > 0, else 0; undecidable sign -> unbounded error */
    public static Value DStepPos(Value a) {
        E x = get(a);
        if (x.e != 0 && Math.abs(x.v) <= x.e) return put(new E(x.v > 0 ? 1 : 0, Double.POSITIVE_INFINITY));
        return put(new E(x.v > 0 ? 1 : 0, 0));
    }
    /** IF c > 0 THEN x ELSE y, remembering when the sign of c is undecided */
    public static Value DIfPos(Value c, Value a, Value b) {
        E x = get(c), p = get(a), q = get(b);
        E r = x.v > 0 ? p : q;
        if (x.e != 0 && Math.abs(x.v) <= x.e) return put(new E(r.v, Math.max(p.e, q.e) + Math.abs(p.v - q.v)));
        return put(r);
    }
    /** x when it is a finite number, else y */
    public static Value DIfFinite(Value a, Value b) {
        E x = get(a), y = get(b);
        boolean fin = !Double.isNaN(x.v) && !Double.isInfinite(x.v);
        if (x.e == Double.POSITIVE_INFINITY) return put(new E(fin ? x.v : y.v, Double.POSITIVE_INFINITY));
        return put(fin ? x : y);
    }
    public static Value DLt(Value a, Value b) { return bool(get(a).v < get(b).v); }
    public static Value DLe(Value a, Value b) { return bool(get(a).v <= get(b).v); }
    public static Value DEq(Value a, Value b) { return bool(get(a).v == get(b).v); }
    public static Value DSame(Value a, Value b) {
        double x = get(a).v, y = get(b).v;
        return bool(x == y || (Double.isNaN(x) && Double.isNaN(y)));
    }
    public static Value DIsNaN(Value a) { return bool(Double.isNaN(get(a).v)); }
    public static Value DIsFinite(Value a) { double x = get(a).v; return bool(!Double.isNaN(x) && !Double.isInfinite(x)); }
    public static Value DExactV(Value a) { E x = get(a); return put(new E(x.v, 0)); }
    /** add an absolute uncertainty */
    public static Value DBlur(Value a, Value r) {
        E x = get(a); double f = get(r).v;
        return put(new E(x.v, x.e + f * Math.max(1, Math.abs(x.v))));
    }
    /** does the computed number a explain the observed number o? */
    public static Value DAgrees(Value a, Value o) {
        E x = get(a); double y = get(o).v;
        return bool(agrees(x, y));
    }
    private static boolean agrees(E x, double y) {
        if (x.e == Double.POSITIVE_INFINITY) return true;
        if (Double.isNaN(x.v) || Double.isNaN(y)) return Double.isNaN(x.v) && Double.isNaN(y);
        if (Double.isInfinite(x.v) || Double.isInfinite(y)) {
            if (x.v == y) return true;
            double big = Double.MAX_VALUE / 1e3; // overflow reached by one order of evaluation only
            return x.e != 0 && Math.abs(x.v) > big && Math.abs(y) > big;
        }
        if (x.e == 0) return x.v == y || Math.abs(x.v - y) <= 1e-12 * Math.max(1.0, Math.abs(x.v));
        return Math.abs(x.v - y) <= 1e3 * x.e + 1e-10 * Math.max(1.0, Math.abs(x.v));
    }
    /** can agreement with a tell anything? */
    public static Value DConclusive(Value a) {
        E x = get(a);
        return bool(!(x.e > 1e-6 * Math.max(1.0, Math.abs(x.v))));
    }
    public static Value DInt(Value a) { return put(new E(((IntValue) a).val, 0)); }
    public static Value DStr(Value a) { return put(new E(Double.parseDouble(((StringValue) a).val.toString()), 0)); }
    public static Value DShow(Value a) {
        E x = get(a);
        return new StringValue(x.e == 0 ? Double.toString(x.v) : x.v + "+-" + x.e);
    }
    public static Value DPi() { return put(new E(Math.PI, 0)); }
    public static Value DEuler() { return put(new E(Math.E, 0)); }

    // ---- 64-bit words as <<hi, lo>>: hash used to name histories ------------------------------------------------
    // ---- formulas ------------------------------------------------------------------------------------------------
    /** Parses an arithmetic formula with the usual precedence (unary minus binds weaker than **):
     *  <<"num", d>>, <<"var", name>>, <<"neg", x>>, <<"+"|"-"|"*"|"/"|"**", x, y>>, <<"call", f, x, ...>>;
     *  <<"err", text>> when it is not a formula. */
    public static Value FParse(Value s) {
        String t = ((StringValue) s).val.toString();
        try {
            P p = new P(t);
            Value r = p.expr();
            p.ws();
            if (p.i != t.length()) throw new RuntimeException("trailing text at " + p.i);
            return r;
        } catch (RuntimeException e) {
            return tup(str("err"), str(String.valueOf(e.getMessage())));
        }
    }
    private static Value str(String s) { return new StringValue(s); }
    private static Value tup(Value... v) { return new TupleValue(v); }
    private static final class P {
        final String t; int i = 0;
        P(String t) { this.t = t; }
        void ws() { while (i < t.length() && Character.isWhitespace(t.charAt(i))) i++; }
        boolean eat(String c) { ws(); if (t.startsWith(c, i)) { i += c.length(); return true; } return false; }
        boolean peek(String c) { ws(); return t.startsWith(c, i); }
        Value expr() {
            Value l = term();
            while (true) {
                if (eat("+")) l = tup(str("+"), l, term());
                else if (peek("-")) { eat("-"); l = tup(str("-"), l, term()); }
                else return l;
            }
        }
        Value term() {
            Value l = unary();
            while (true) {
                if (peek("**")) return l; // handled in power
                if (eat("*")) l = tup(str("*"), l, unary());
                else if (eat("/")) l = tup(str("/"), l, unary());
                else return l;
            }
        }
        Value unary() {
            if (eat("-")) return tup(str("neg"), unary());
            if (eat("+")) return unary();
            return power();
        }
        Value power() {
            Value b = atom();
            if (eat("**") || eat("^")) return tup(str("**"), b, unary());
            return b;
        }
        Value atom() {
            ws();
            if (i >= t.length()) throw new RuntimeException("unexpected end");
            char c = t.charAt(i);
            if (c == '(') {
                i++;
                Value v = expr();
                if (!eat(")")) throw new RuntimeException("missing ) at " + i);
                return v;
            }
            if (Character.isDigit(c) || c == '.') {
                int j = i;
                while (j < t.length() && (Character.isDigit(t.charAt(j)) || t.charAt(j) == '.')) j++;
                if (j < t.length() && (t.charAt(j) == 'e' || t.charAt(j) == 'E')) {
                    int k = j + 1;
                    if (k < t.length() && (t.charAt(k) == '+' || t.charAt(k) == '-')) k++;
                    if (k < t.length() && Character.isDigit(t.charAt(k))) {
                        while (k < t.length() && Character.isDigit(t.charAt(k))) k++;
                        j = k;
                    }
                }
                Value v = put(new E(Double.parseDouble(t.substring(i, j)), 0));
                i = j;
                return tup(str("num"), v);
            }
            if (Character.isLetter(c) || c == '_' || c == '[') {
                int j = i;
                while (j < t.length() && (Character.isLetterOrDigit(t.charAt(j)) || t.charAt(j) == '_'
                                          || t.charAt(j) == '[' || t.charAt(j) == ']')) j++;
                String name = t.substring(i, j);
                i = j;
                if (eat("(")) {
                    List<Value> a = new ArrayList<>();
                    a.add(str("call")); a.add(str(name));
                    a.add(expr());
                    while (eat(",")) a.add(expr());
                    if (!eat(")")) throw new RuntimeException("missing ) at " + i);
                    return new TupleValue(a.toArray(new Value[0]));
                }
                return tup(str("var"), str(name));
            }
            throw new RuntimeException("unexpected " + c + " at " + i);
        }
    }
}
