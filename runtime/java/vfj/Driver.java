package vfj;

import com.qualcomm.qti.qms.api.mink.IMinkObject;
import java.io.*;
import java.lang.reflect.*;
import java.nio.*;
import java.nio.file.*;
import java.util.*;

/** Drives generated proxies and skeletons by reflection and records what they do. */
public class Driver {
    static final String PKG = "com.qualcomm.qti.mink.";
    static PrintStream out;

    static class Field { String name, ty; int cnt; }
    static class Param { boolean in; String pk, ty; int cnt; }
    static class Meth { String name; boolean optional; Param[] ps; }
    static Map<String, Field[]> structs = new HashMap<>();
    static Map<String, Class<?>> structCls = new HashMap<>();
    static Map<String, List<Meth>> ifaces = new HashMap<>();
    static Map<Integer, Obj> objs = new HashMap<>();

    static class Obj implements IMinkObject {
        final int id; int refs = 1, min = 1, ret, rel;
        Obj(int id) { this.id = id; }
        public void invoke(int op, byte[][] bi, int[] s, byte[][] bo, IMinkObject[] oi, IMinkObject[] oo) { out.println("OBJCALL " + id + " " + op); }
        public void retain() { refs++; ret++; }
        public void release() { refs--; rel++; min = Math.min(min, refs); }
        public boolean isNull() { return false; }
    }
    static IMinkObject obj(int id) { return id == 0 ? null : objs.computeIfAbsent(id, Obj::new); }
    static int oid(Object o) { return o == null ? 0 : o instanceof Obj ? ((Obj) o).id : -1; }

    static String hex(byte[] b) {
        if (b.length == 0) return "-";
        StringBuilder s = new StringBuilder();
        for (byte x : b) s.append(String.format("%02x", x));
        return s.toString();
    }
    static byte[] unhex(String s) {
        if (s.equals("-")) return new byte[0];
        byte[] b = new byte[s.length() / 2];
        for (int i = 0; i < b.length; i++) b[i] = (byte) Integer.parseInt(s.substring(2 * i, 2 * i + 2), 16);
        return b;
    }

    // ------------------------------------------------------------ values
    static Class<?> prim(String t) {
        switch (t) {
            case "uint8": case "int8": return byte.class;
            case "uint16": case "int16": return char.class;
            case "uint32": case "int32": return int.class;
            case "uint64": case "int64": return long.class;
            case "float32": return float.class;
            case "float64": return double.class;
        }
        return null;
    }
    static Class<?> cls(String t) {
        Class<?> c = prim(t);
        if (c != null) return c;
        c = structCls.get(t);
        return c != null ? c : IMinkObject.class;
    }
    static Object rd(String t, ByteBuffer b, Class<?> want) throws Exception {
        switch (t) {
            case "uint8": case "int8": return b.get();
            case "uint16": case "int16": return want == short.class ? (Object) b.getShort() : (Object) b.getChar();
            case "uint32": case "int32": return b.getInt();
            case "uint64": case "int64": return b.getLong();
            case "float32": return Float.intBitsToFloat(b.getInt());
            case "float64": return Double.longBitsToDouble(b.getLong());
        }
        if (structs.containsKey(t)) {
            Object o = structCls.get(t).getDeclaredConstructor().newInstance();
            for (Field f : structs.get(t)) {
                java.lang.reflect.Field rf = structCls.get(t).getField(f.name);
                if (f.cnt == 1) { rf.set(o, rd(f.ty, b, rf.getType())); continue; }
                Class<?> et = rf.getType().getComponentType();
                Object a = Array.newInstance(et, f.cnt);
                for (int i = 0; i < f.cnt; i++) Array.set(a, i, rd(f.ty, b, et));
                rf.set(o, a);
            }
            return o;
        }
        return obj(b.getInt());
    }
    static void wr(String t, Object v, DataOutputStream o) throws Exception {
        switch (t) {
            case "uint8": case "int8": o.write((Byte) v); return;
            case "uint16": case "int16": o.writeShort(Short.reverseBytes(v instanceof Short ? (Short) v : (short) (char) (Character) v)); return;
            case "uint32": case "int32": o.writeInt(Integer.reverseBytes((Integer) v)); return;
            case "uint64": case "int64": o.writeLong(Long.reverseBytes((Long) v)); return;
            case "float32": o.writeInt(Integer.reverseBytes(Float.floatToRawIntBits((Float) v))); return;
            case "float64": o.writeLong(Long.reverseBytes(Double.doubleToRawLongBits((Double) v))); return;
        }
        if (structs.containsKey(t)) {
            for (Field f : structs.get(t)) {
                Object x = structCls.get(t).getField(f.name).get(v);
                if (f.cnt == 1) wr(f.ty, x, o);
                else {
                    if (Array.getLength(x) != f.cnt) throw new IllegalStateException("field " + f.name + " has " + Array.getLength(x) + " elements");
                    for (int i = 0; i < f.cnt; i++) wr(f.ty, Array.get(x, i), o);
                }
            }
            return;
        }
        i32(oid(v), o);
    }
    static void i32(int v, DataOutputStream o) throws Exception { o.writeInt(Integer.reverseBytes(v)); }
    static boolean isArr(Param p) { return p.pk.equals("buffer") || p.pk.equals("primarr") || p.pk.equals("structarr"); }
    static Object rdArr(Param p, int n, ByteBuffer b, Class<?> et) throws Exception {
        Object a = Array.newInstance(et, n);
        for (int i = 0; i < n; i++) Array.set(a, i, rd(p.ty, b, et));
        return a;
    }
    static void wrArr(Param p, Object a, DataOutputStream o, boolean len) throws Exception {
        int n = Array.getLength(a);
        if (len) i32(n, o);
        for (int i = 0; i < n; i++) wr(p.ty, Array.get(a, i), o);
    }

    // ------------------------------------------------------------ implementation
    static class Impl implements InvocationHandler {
        String iface; int var; int status; byte[] plan; int entered;
        public Object invoke(Object proxy, Method jm, Object[] args) throws Throwable {
            if (jm.getDeclaringClass() == Object.class) {
                if (jm.getName().equals("hashCode")) return System.identityHashCode(proxy);
                if (jm.getName().equals("equals")) return proxy == args[0];
                return "impl";
            }
            Meth m = null;
            for (Meth x : ifaces.get(iface)) if (x.name.equals(jm.getName())) m = x;
            if (m == null) throw new IllegalStateException("unknown method " + jm);
            if (var == 1 && m.optional) return InvocationHandler.invokeDefault(proxy, jm, args);
            entered++;
            out.println("IMPL " + iface + "." + m.name);
            if (plan == null) { if (status != 0) throw new IMinkObject.InvokeException(status); return null; }
            ByteArrayOutputStream bo = new ByteArrayOutputStream();
            DataOutputStream o = new DataOutputStream(bo);
            int j = 0;
            int[] caps = new int[m.ps.length];
            for (int i = 0; i < m.ps.length; i++) {
                Param p = m.ps[i];
                if (p.in) {
                    if (isArr(p)) wrArr(p, args[j], o, true);
                    else if (p.pk.equals("objarr")) wrArr(p, args[j], o, false);
                    else wr(p.ty, args[j], o);
                    j++;
                } else {
                    if (isArr(p)) { caps[i] = (Integer) args[j + 1]; i32(caps[i], o); j += 2; }
                    else if (p.pk.equals("objarr")) { if ((Integer) args[j + 1] != p.cnt) out.println("NOTE objarrlen " + args[j + 1]); j += 2; }
                    else j++;
                }
            }
            out.println("GOT " + hex(bo.toByteArray()));
            if (status != 0) throw new IMinkObject.InvokeException(status);
            ByteBuffer b = ByteBuffer.wrap(plan).order(ByteOrder.LITTLE_ENDIAN);
            j = 0;
            for (int i = 0; i < m.ps.length; i++) {
                Param p = m.ps[i];
                if (p.in) { j++; continue; }
                Class<?> ct = args[j].getClass().getComponentType();
                if (isArr(p)) {
                    int n = b.getInt();
                    if (caps[i] < n) out.println("NOTE cap" + i + " " + caps[i]);
                    Array.set(args[j], 0, rdArr(p, n, b, ct.getComponentType()));
                    j += 2;
                } else if (p.pk.equals("objarr")) {
                    Object row = Array.get(args[j], 0);
                    if (row == null) { row = new IMinkObject[p.cnt]; Array.set(args[j], 0, row); }
                    for (int k = 0; k < p.cnt; k++) Array.set(row, k, obj(b.getInt()));
                    j += 2;
                } else { Array.set(args[j], 0, rd(p.ty, b, ct)); j++; }
            }
            return null;
        }
    }

    // ------------------------------------------------------------ transport
    static int len(Object a) { return a == null ? 0 : Array.getLength(a); }
    static void logInv(int op, byte[][] bi, int[] s, byte[][] bo, IMinkObject[] oi, IMinkObject[] oo) {
        if (len(s) != len(bo)) out.println("SHAPE boSizes has " + len(s) + " entries, bo has " + len(bo));
        int k = len(bi) | len(s) << 4 | len(oi) << 8 | len(oo) << 12;
        StringBuilder l = new StringBuilder("INV " + Integer.toHexString(op) + " " + Integer.toHexString(k));
        for (int i = 0; i < len(bi); i++) {
            if (bi[i] == null) { out.println("SHAPE input buffer " + i + " is null"); l.append(" I0:-"); }
            else l.append(" I" + bi[i].length + ":" + hex(bi[i]));
        }
        for (int i = 0; i < len(s); i++) l.append(" O" + s[i]);
        for (int i = 0; i < len(oi); i++) l.append(" i" + oid(oi[i]));
        for (int i = 0; i < len(oo); i++) l.append(" o");
        out.println(l);
    }
    static void logRsp(int r, int[] s, byte[][] bo, IMinkObject[] oo) {
        StringBuilder l = new StringBuilder("RSP " + r);
        if (r == 0) rows(l, s, bo, oo);
        out.println(l);
    }
    static void rows(StringBuilder l, int[] s, byte[][] bo, IMinkObject[] oo) {
        for (int i = 0; i < len(s); i++) {
            if (bo[i] == null) l.append(" O0:OVER");
            else l.append(" O" + bo[i].length + ":" + (bo[i].length > s[i] ? "OVER" : hex(bo[i])));
        }
        for (int i = 0; i < len(oo); i++) l.append(" o" + oid(oo[i]));
    }
    static class Transport implements IMinkObject {
        final IMinkObject target;
        Transport(IMinkObject t) { target = t; }
        public void invoke(int op, byte[][] bi, int[] s, byte[][] bo, IMinkObject[] oi, IMinkObject[] oo) throws InvokeException {
            logInv(op, bi, s, bo, oi, oo);
            byte[][] bi2 = bi == null ? null : new byte[bi.length][];
            for (int i = 0; i < len(bi); i++) bi2[i] = bi[i] == null ? new byte[0] : bi[i].clone();
            byte[][] bo2 = bo == null ? null : new byte[len(s)][];
            IMinkObject[] oi2 = oi == null ? null : oi.clone();
            IMinkObject[] oo2 = oo == null ? null : new IMinkObject[oo.length];
            try {
                target.invoke(op, bi2, s == null ? null : s.clone(), bo2, oi2, oo2);
            } catch (InvokeException e) {
                logRsp(e.getErrorCode(), null, null, null);
                throw e;
            }
            logRsp(0, s, bo2, oo2);
            for (int i = 0; i < len(s); i++) bo[i] = bo2[i] == null ? new byte[0] : bo2[i].clone();
            for (int i = 0; i < len(oo); i++) oo[i] = oo2[i];
        }
        public void retain() {}
        public void release() {}
        public boolean isNull() { return false; }
    }
    static String where(Throwable t) {
        for (StackTraceElement e : t.getStackTrace()) if (e.getClassName().startsWith(PKG)) return e.getMethodName() + ":" + e.getLineNumber();
        return "?";
    }

    static IMinkObject make(Impl im) throws Exception {
        Class<?> ic = Class.forName(PKG + im.iface);
        Object impl = java.lang.reflect.Proxy.newProxyInstance(ic.getClassLoader(), new Class<?>[] {ic}, im);
        return (IMinkObject) Class.forName(PKG + im.iface + "$MinkObject").getConstructor(ic).newInstance(impl);
    }

    static int calls;
    static ByteBuffer stale() {
        byte[] b = new byte[1 << 20];
        java.util.Arrays.fill(b, (byte) 0x25);
        return ByteBuffer.wrap(b).order(ByteOrder.LITTLE_ENDIAN);
    }

    static void call(String[] t) throws Exception {
        // call id impl stub midx status flags cin plan
        Impl im = new Impl();
        im.iface = t[2]; im.status = Integer.parseInt(t[5]); im.plan = unhex(t[8]);
        int flags = Integer.parseInt(t[6]);
        IMinkObject target = make(im);
        Class<?> sc = Class.forName(PKG + t[3]);
        Object proxy = Class.forName(PKG + t[3] + "$Proxy").getConstructor(IMinkObject.class).newInstance(new Transport(target));
        Meth m = ifaces.get(t[3]).get(Integer.parseInt(t[4]));
        Method jm = null;
        for (Method x : sc.getMethods()) if (x.getName().equals(m.name)) jm = x;
        Class<?>[] ts = jm.getParameterTypes();
        Object[] args = new Object[ts.length];
        ByteBuffer b = ByteBuffer.wrap(unhex(t[7])).order(ByteOrder.LITTLE_ENDIAN);
        int j = 0;
        int nout = 0;
        for (Param p : m.ps) if (!p.in) nout++;
        int skip = (flags & 8) != 0 && nout > 0 ? (flags >> 8) % nout : -1, o = 0;
        int[] pos = new int[m.ps.length];
        // every other call hands over holders that still hold something from before
        ByteBuffer left = (calls++ & 1) == 0 ? null : stale();
        for (int i = 0; i < m.ps.length; i++) {
            Param p = m.ps[i];
            pos[i] = j;
            Class<?> ct = ts[j].getComponentType();
            if (p.in) {
                if (isArr(p)) args[j] = rdArr(p, b.getInt(), b, ct);
                else if (p.pk.equals("objarr")) args[j] = rdArr(p, p.cnt, b, ct);
                else args[j] = rd(p.ty, b, ts[j]);
                j++;
            } else {
                boolean nul = o++ == skip;
                if (isArr(p)) {
                    args[j] = nul ? null : Array.newInstance(ct, 1);
                    if (!nul && left != null) Array.set(args[j], 0, rdArr(p, 1 + calls % 5, left, ct.getComponentType()));
                    args[j + 1] = b.getInt();
                    j += 2;
                } else if (p.pk.equals("objarr")) {
                    args[j] = new IMinkObject[1][p.cnt];
                    if (left != null) Array.set(args[j], 0, rdArr(p, p.cnt, left, IMinkObject.class));
                    args[j + 1] = p.cnt;
                    j += 2;
                } else {
                    args[j] = nul ? null : Array.newInstance(ct, 1);
                    if (!nul && left != null) Array.set(args[j], 0, rd(p.ty, left, ct));
                    else if (!nul && structs.containsKey(p.ty)) Array.set(args[j], 0, rd(p.ty, ByteBuffer.allocate(1 << 20).order(ByteOrder.LITTLE_ENDIAN), ct));
                    j++;
                }
            }
        }
        int status = 0;
        try {
            jm.invoke(proxy, args);
        } catch (InvocationTargetException e) {
            Throwable c = e.getCause();
            if (c instanceof IMinkObject.InvokeException) status = ((IMinkObject.InvokeException) c).getErrorCode();
            else { out.println("EXC " + c + " at " + where(c)); status = -999999; }
        }
        out.println("STATUS " + status);
        if (status == 0) {
            ByteArrayOutputStream bo = new ByteArrayOutputStream();
            DataOutputStream w = new DataOutputStream(bo);
            try {
                for (int i = 0; i < m.ps.length; i++) {
                    Param p = m.ps[i];
                    if (p.in) continue;
                    Object a = args[pos[i]];
                    if (a == null) { out.println("SKIPPED " + i); continue; }
                    Object v = Array.get(a, 0);
                    if (isArr(p)) wrArr(p, v, w, true);
                    else if (p.pk.equals("objarr")) wrArr(p, v, w, false);
                    else wr(p.ty, v, w);
                }
                out.println("OUT 0 " + hex(bo.toByteArray()));
            } catch (Exception e) {
                out.println("EXC reading outputs: " + e);
            }
        }
    }

    static void raw(String[] t) throws Exception {
        // raw id impl var status op nullEmpty plan nbi bi.. nbo sizes.. noi ids.. noo
        Impl im = new Impl();
        im.iface = t[2]; im.var = Integer.parseInt(t[3]); im.status = Integer.parseInt(t[4]); im.plan = t[7].equals("*") ? null : unhex(t[7]);
        boolean nul = t[6].equals("1");
        int q = 8;
        int n = Integer.parseInt(t[q++]);
        byte[][] bi = n == 0 && nul ? null : new byte[n][];
        for (int i = 0; i < n; i++) bi[i] = unhex(t[q++]);
        n = Integer.parseInt(t[q++]);
        int[] s = n == 0 && nul ? null : new int[n];
        byte[][] bo = n == 0 && nul ? null : new byte[n][];
        for (int i = 0; i < n; i++) s[i] = Integer.parseInt(t[q++]);
        n = Integer.parseInt(t[q++]);
        IMinkObject[] oi = n == 0 && nul ? null : new IMinkObject[n];
        for (int i = 0; i < n; i++) oi[i] = obj(Integer.parseInt(t[q++]));
        n = Integer.parseInt(t[q++]);
        IMinkObject[] oo = n == 0 && nul ? null : new IMinkObject[n];
        IMinkObject target = raws.get(im.iface + im.var);
        Impl live = rawImpls.get(im.iface + im.var);
        if (target == null) {
            live = im;
            target = make(im);
            raws.put(im.iface + im.var, target);
            rawImpls.put(im.iface + im.var, live);
        }
        live.status = im.status; live.plan = im.plan; live.entered = 0;
        int r = 0;
        try {
            target.invoke((int) Long.parseLong(t[5]), bi, s, bo, oi, oo);
        } catch (IMinkObject.InvokeException e) {
            r = e.getErrorCode();
        } catch (RuntimeException e) {
            out.println("EXC " + e + " at " + where(e));
            r = -999999;
        }
        StringBuilder l = new StringBuilder("RAW " + r + " entered " + live.entered);
        if (r == 0) rows(l, s, bo, oo);
        else {
            int left = 0;
            for (int i = 0; i < len(oo); i++) if (oo[i] != null) left++;
            l.append(" touched 0 objs " + left);
        }
        out.println(l);
    }
    static Map<String, IMinkObject> raws = new HashMap<>();
    static Map<String, Impl> rawImpls = new HashMap<>();

    static void consts(String[] t) throws Exception {
        // consts class...: every int/long/... constant of the class
        for (int i = 1; i < t.length; i++) {
            Class<?> c = Class.forName(PKG + t[i]);
            for (java.lang.reflect.Field f : c.getDeclaredFields()) {
                Object v = f.get(null);
                String s = v instanceof Character ? Integer.toString((Character) v)
                    : v instanceof Float ? "0x" + Integer.toHexString(Float.floatToRawIntBits((Float) v))
                    : v instanceof Double ? "0x" + Long.toHexString(Double.doubleToRawLongBits((Double) v)) : v.toString();
                out.println("CONST " + t[i] + " " + f.getName() + " " + f.getType() + " " + s);
            }
        }
    }

    public static void main(String[] a) throws Exception {
        out = new PrintStream(new BufferedOutputStream(new FileOutputStream(a[1]), 1 << 16));
        List<String> lines = Files.readAllLines(Paths.get(a[0]));
        for (String line : lines) {
            String[] t = line.split(" ");
            switch (t[0]) {
                case "struct": {
                    Field[] fs = new Field[t.length - 3];
                    for (int i = 3; i < t.length; i++) {
                        String[] x = t[i].split(":");
                        Field f = new Field();
                        f.name = x[0]; f.ty = x[1]; f.cnt = Integer.parseInt(x[2]);
                        fs[i - 3] = f;
                    }
                    structs.put(t[1], fs);
                    structCls.put(t[1], Class.forName(PKG + t[2] + "$" + t[1]));
                    break;
                }
                case "method": {
                    Meth m = new Meth();
                    m.name = t[2]; m.optional = t[3].equals("1");
                    m.ps = new Param[t.length - 4];
                    for (int i = 4; i < t.length; i++) {
                        String[] x = t[i].split(":");
                        Param p = new Param();
                        p.in = x[0].equals("in"); p.pk = x[1]; p.ty = x[2]; p.cnt = Integer.parseInt(x[3]);
                        m.ps[i - 4] = p;
                    }
                    ifaces.computeIfAbsent(t[1], k -> new ArrayList<>()).add(m);
                    break;
                }
                case "call": case "raw":
                    out.println("CASE " + t[1]);
                    try {
                        if (t[0].equals("call")) call(t); else raw(t);
                    } catch (Exception | StackOverflowError e) {
                        out.println("HARNESS " + e + (e.getCause() != null ? " / " + e.getCause() : ""));
                    }
                    for (Obj o : objs.values()) if (o.ret + o.rel > 0) out.println("REFS " + o.id + " " + o.refs + " min " + o.min + " ret " + o.ret + " rel " + o.rel);
                    objs.clear();
                    out.println("END");
                    break;
                case "consts":
                    consts(t);
                    break;
                default:
                    throw new IllegalStateException("bad line " + line);
            }
        }
        out.println("DONE");
        out.close();
    }
}
