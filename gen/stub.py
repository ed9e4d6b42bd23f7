#!/usr/bin/env python3
"""Writes Phonemetadata.java, a stand-in for the class protoc would generate from
resources/phonemetadata.proto (neither protoc nor protobuf-java is installed here).

The message classes offer the accessors of protobuf's generated Java code and serialise to the
protobuf wire format, fields in the order of their numbers. Usage: stub.py PROTO OUT.java"""
import re, sys

SCALARS = {'string': 'String', 'int32': 'Integer', 'bool': 'Boolean'}
PRIM = {'String': 'String', 'Integer': 'int', 'Boolean': 'boolean'}


def messages(text):
    text = re.sub(r'//.*', '', text)
    text = re.sub(r'/\*.*?\*/', '', text, flags=re.S)
    for name, body in re.findall(r'message\s+(\w+)\s*\{(.*?)\n\}', text, flags=re.S):
        fields = re.findall(r'(required|optional|repeated)\s+(\w+)\s+(\w+)\s*=\s*(\d+)\s*(\[[^\]]*\])?\s*;', body)
        yield name, [(l, t, n, int(k), 'default=true' in o.replace(' ', '')) for l, t, n, k, o in fields]


BASE = '''
  /** Field values by position; null is "not set" (repeated fields: a list, never null). */
  abstract static class Base {
    final Object[] v;
    Base(int n) { v = new Object[n]; }
    abstract int[] numbers();
    abstract boolean[] repeated();
    abstract boolean[] required();
    void check() {
      for (int i = 0; i < v.length; i++) {
        if (required()[i] && v[i] == null) {
          throw new RuntimeException("Message missing required fields: " + numbers()[i]);
        }
      }
    }
    static void copy(Object[] to, Object[] from, boolean[] repeated) {
      for (int i = 0; i < to.length; i++) {
        to[i] = repeated[i] ? (from[i] == null ? null : new java.util.ArrayList<Object>((java.util.List<?>) from[i])) : from[i];
      }
    }
    static void merge(Object[] to, Object[] from, boolean[] repeated) {
      for (int i = 0; i < to.length; i++) {
        if (from[i] == null) { continue; }
        if (repeated[i]) {
          java.util.ArrayList<Object> all = new java.util.ArrayList<Object>();
          if (to[i] != null) { all.addAll((java.util.List<?>) to[i]); }
          all.addAll((java.util.List<?>) from[i]);
          to[i] = all;
        } else {
          to[i] = to[i] == null ? from[i] : mergeOne(to[i], from[i]);
        }
      }
    }
    static Object mergeOne(Object a, Object b) {
      return a instanceof Message ? ((Message) a).mergedWith((Message) b) : b;
    }
    @SuppressWarnings("unchecked")
    java.util.List<Object> list(int i) { return v[i] == null ? java.util.Collections.<Object>emptyList() : (java.util.List<Object>) v[i]; }
    @SuppressWarnings("unchecked")
    java.util.List<Object> own(int i) {
      if (v[i] == null) { v[i] = new java.util.ArrayList<Object>(); }
      return (java.util.List<Object>) v[i];
    }
    static <T> T some(T x) { if (x == null) { throw new NullPointerException(); } return x; }
  }
  public abstract static class Message extends Base {
    Message(int n) { super(n); }
    abstract Message mergedWith(Message other);
    public boolean isInitialized() { try { check(); return true; } catch (RuntimeException e) { return false; } }
    public byte[] toByteArray() {
      java.io.ByteArrayOutputStream out = new java.io.ByteArrayOutputStream();
      int[] numbers = numbers();
      Integer[] order = new Integer[v.length];
      for (int i = 0; i < order.length; i++) { order[i] = i; }
      java.util.Arrays.sort(order, (a, b) -> numbers[a] - numbers[b]);
      for (int i : order) {
        if (v[i] == null) { continue; }
        if (repeated()[i]) { for (Object x : list(i)) { put(out, numbers[i], x); } } else { put(out, numbers[i], v[i]); }
      }
      return out.toByteArray();
    }
    public int getSerializedSize() { return toByteArray().length; }
    public void writeTo(java.io.OutputStream out) throws java.io.IOException { out.write(toByteArray()); }
    static void varint(java.io.ByteArrayOutputStream out, long x) {
      while ((x & ~0x7FL) != 0) { out.write((int) (x & 0x7F) | 0x80); x >>>= 7; }
      out.write((int) x);
    }
    static void put(java.io.ByteArrayOutputStream out, int number, Object x) {
      if (x instanceof Integer) { varint(out, number << 3); varint(out, ((Integer) x).longValue()); return; }
      if (x instanceof Boolean) { varint(out, number << 3); varint(out, ((Boolean) x) ? 1 : 0); return; }
      byte[] b = x instanceof String ? ((String) x).getBytes(java.nio.charset.StandardCharsets.UTF_8) : ((Message) x).toByteArray();
      varint(out, number << 3 | 2);
      varint(out, b.length);
      out.write(b, 0, b.length);
    }
    @Override public boolean equals(Object o) { return o != null && o.getClass() == getClass() && java.util.Arrays.deepEquals(norm(), ((Message) o).norm()); }
    @Override public int hashCode() { return java.util.Arrays.deepHashCode(norm()); }
    private Object[] norm() {
      Object[] n = v.clone();
      for (int i = 0; i < n.length; i++) { if (repeated()[i] && list(i).isEmpty()) { n[i] = null; } }
      return n;
    }
    @Override public String toString() { return getClass().getSimpleName() + java.util.Arrays.toString(v); }
  }
'''


def camel(n):
    return ''.join(p[:1].upper() + p[1:] for p in n.split('_'))


def klass(name, fields):
    o = []
    w = o.append
    arr = lambda ty, xs: 'new %s[] {%s}' % (ty, ', '.join(xs))
    low = lambda b: 'true' if b else 'false'
    consts = '''
    private static final int[] NUMBERS = %s;
    private static final boolean[] REPEATED = %s;
    private static final boolean[] REQUIRED = %s;
''' % (arr('int', [str(f[3]) for f in fields]), arr('boolean', [low(f[0] == 'repeated') for f in fields]),
       arr('boolean', [low(f[0] == 'required') for f in fields]))
    over = '''
    @Override int[] numbers() { return NUMBERS; }
    @Override boolean[] repeated() { return REPEATED; }
    @Override boolean[] required() { return REQUIRED; }
'''
    iface = name + 'OrBuilder'
    getters, sigs = [], []
    for i, (label, ty, n, _, dflt) in enumerate(fields):
        c = camel(n)
        box = SCALARS.get(ty, ty)
        prim = PRIM.get(box, box)
        d = {'String': '""', 'Integer': '0', 'Boolean': low(dflt)}.get(box, ty + '.getDefaultInstance()')
        if label == 'repeated':
            m = [('java.util.List<%s> get%sList()' % (box, c), 'return (java.util.List<%s>) (java.util.List<?>) java.util.Collections.unmodifiableList(list(%d));' % (box, i)),
                 ('int get%sCount()' % c, 'return list(%d).size();' % i),
                 ('%s get%s(int at)' % (prim, c), 'return (%s) list(%d).get(at);' % (box, i))]
        else:
            m = [('boolean has%s()' % c, 'return v[%d] != null;' % i),
                 ('%s get%s()' % (prim, c), 'return v[%d] == null ? %s : (%s) v[%d];' % (i, d, box, i))]
        for sig, body in m:
            sigs.append('    %s;' % sig)
            getters.append('    @SuppressWarnings("unchecked") public %s { %s }' % (sig, body))
    w('  public interface %s {\n%s\n  }' % (iface, '\n'.join(sigs)))
    w('  public static final class %s extends Message implements %s {' % (name, iface))
    w(consts)
    w('    private static final %s DEFAULT = new %s();' % (name, name))
    w('    private %s() { super(%d); }' % (name, len(fields)))
    w(over)
    w('''    public static %(n)s getDefaultInstance() { return DEFAULT; }
    public %(n)s getDefaultInstanceForType() { return DEFAULT; }
    public static Builder newBuilder() { return new Builder(); }
    public static Builder newBuilder(%(n)s from) { return new Builder().mergeFrom(from); }
    public Builder newBuilderForType() { return new Builder(); }
    public Builder toBuilder() { return new Builder().mergeFrom(this); }
    @Override Message mergedWith(Message other) { return toBuilder().mergeFrom((%(n)s) other).buildPartial(); }''' % {'n': name})
    o += getters
    w('    public static final class Builder extends Base implements %s, Cloneable {' % iface)
    w('      private Builder() { super(%d); }' % len(fields))
    w(over)
    w('''      public Builder mergeFrom(%(n)s from) { merge(v, from.v, REPEATED); return this; }
      public Builder clear() { java.util.Arrays.fill(v, null); return this; }
      public Builder clone() { Builder b = new Builder(); copy(b.v, v, REPEATED); return b; }
      public %(n)s buildPartial() { %(n)s m = new %(n)s(); copy(m.v, v, REPEATED); return m; }
      public %(n)s build() { check(); return buildPartial(); }
      public boolean isInitialized() { return buildPartial().isInitialized(); }
      public %(n)s getDefaultInstanceForType() { return DEFAULT; }''' % {'n': name})
    o += ['  ' + g for g in getters]
    for i, (label, ty, n, _, _) in enumerate(fields):
        c = camel(n)
        box = SCALARS.get(ty, ty)
        prim = PRIM.get(box, box)
        sub = ty not in SCALARS
        if label == 'repeated':
            w('      public Builder add%s(%s x) { own(%d).add(some((Object) x)); return this; }' % (c, prim, i))
            w('      public Builder set%s(int at, %s x) { own(%d).set(at, some((Object) x)); return this; }' % (c, prim, i))
            w('      public Builder addAll%s(Iterable<? extends %s> xs) { for (%s x : xs) { own(%d).add(some((Object) x)); } return this; }' % (c, box, box, i))
            if sub:
                w('      public Builder add%s(int at, %s x) { own(%d).add(at, some((Object) x)); return this; }' % (c, prim, i))
                w('      public Builder add%s(%s.Builder x) { return add%s(x.build()); }' % (c, ty, c))
                w('      public Builder add%s(int at, %s.Builder x) { return add%s(at, x.build()); }' % (c, ty, c))
                w('      public Builder set%s(int at, %s.Builder x) { return set%s(at, x.build()); }' % (c, ty, c))
                w('      public Builder remove%s(int at) { own(%d).remove(at); return this; }' % (c, i))
        else:
            w('      public Builder set%s(%s x) { v[%d] = some((Object) x); return this; }' % (c, prim, i))
            if sub:
                w('      public Builder set%s(%s.Builder x) { return set%s(x.build()); }' % (c, ty, c))
                w('      public Builder merge%s(%s x) { v[%d] = v[%d] == null ? x : mergeOne(v[%d], x); return this; }' % (c, ty, i, i, i))
        w('      public Builder clear%s() { v[%d] = null; return this; }' % (c, i))
    w('    }\n  }')
    return '\n'.join(o)


def main():
    proto, out = sys.argv[1:3]
    text = open(proto).read()
    parts = ['package com.google.i18n.phonenumbers;\n\npublic final class Phonemetadata {\n  private Phonemetadata() {}\n', BASE]
    parts += [klass(n, f) for n, f in messages(text)]
    parts.append('}\n')
    open(out, 'w').write('\n'.join(parts))


main()
