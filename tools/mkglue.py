#!/usr/bin/env python3
"""Writes harness/vs_glue.hpp from schemas/*.proto with a parser of its own (nothing of /repo's generator is used).

For every message M of the corpus: a plain struct S_M (the reference state), a field-descriptor table D_M for the
reference codec in ref.hpp, load(M&, const S_M&) through the setters and read(S_M&, const M&) through the getters.
The output is committed; rerun after editing the schemas."""
import re, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REP, LEN = 2, 3          # instantiation of template parameters

SC = {'int32':('I32',4),'int64':('I64',8),'uint32':('U32',4),'uint64':('U64',8),'sint32':('S32',4),'sint64':('S64',8),
      'fixed32':('F32',4),'fixed64':('F64',8),'sfixed32':('SF32',4),'sfixed64':('SF64',8),'float':('FLT',4),
      'double':('DBL',8),'bool':('BOOL',4)}
CPP = {'I32':'int32_t','I64':'int64_t','U32':'uint32_t','U64':'uint64_t','S32':'int32_t','S64':'int64_t','F32':'uint32_t',
       'F64':'uint64_t','SF32':'int32_t','SF64':'int64_t','FLT':'float','DBL':'double','BOOL':'bool'}
EP = {'I32':'int32','I64':'int64','U32':'uint32','U64':'uint64','S32':'sint32','S64':'sint64','F32':'fixed32','F64':'fixed64',
      'SF32':'sfixed32','SF64':'sfixed64','FLT':'floatfixed','DBL':'doublefixed','BOOL':'boolean'}

class F: pass
class M: pass
msgs, enums = {}, {}

def tok(path):
    s = open(path).read(); s = re.sub(r'//[^\n]*', '', s)
    return re.findall(r'"[^"]*"|\.?[A-Za-z_][\w.]*|-?\d+|[{}=;\[\]()<>,]', s)

def parse(path):
    t = tok(path); i = 0; pkg = ''
    def message(name, scope):
        nonlocal i
        m = M(); m.full = scope + '.' + name; m.fields = []; m.oneofs = []; m.name = name
        assert t[i] == '{'; i += 1
        body(m)
        msgs[m.full] = m
    def field(m, oneof):
        nonlocal i
        f = F(); f.card = 'PLAIN'; f.oneof = oneof; f.cap = None
        if t[i] in ('optional', 'repeated'): f.card = t[i].upper()[:3]; i += 1
        f.type = t[i]; f.name = t[i+1]; assert t[i+2] == '='; f.num = int(t[i+3]); i += 4
        if t[i] == '[':
            j = t.index(']', i); f.cap = int(t[j-1]); i = j + 1
        assert t[i] == ';', t[i-5:i+3]; i += 1
        f.scope = m.full
        m.fields.append(f)
    def body(m):
        nonlocal i
        while t[i] != '}':
            if t[i] == 'message': i += 2; message(t[i-1], m.full)
            elif t[i] == 'enum': i += 2; enum(t[i-1], m.full)
            elif t[i] == 'oneof':
                nm = t[i+1]; i += 3; m.oneofs.append(nm)
                while t[i] != '}': field(m, nm)
                i += 1
            else: field(m, None)
        i += 1
    def enum(name, scope):
        nonlocal i
        assert t[i] == '{'; i += 1; vals = []
        while t[i] != '}':
            if t[i] == 'option': i = t.index(';', i) + 1; continue
            vals.append((t[i], int(t[i+2]))); i += 4
        i += 1
        enums[scope + '.' + name] = vals
    while i < len(t):
        if t[i] == 'package': pkg = t[i+1]; i += 3
        elif t[i] in ('syntax', 'import'): i = t.index(';', i) + 1
        elif t[i] == 'message': i += 2; message(t[i-1], pkg)
        elif t[i] == 'enum': i += 2; enum(t[i-1], pkg)
        else: raise Exception(t[i:i+5])

parse(HERE + '/schemas/sub/common.proto'); parse(HERE + '/schemas/sub/other.proto'); parse(HERE + '/schemas/nopkg.proto'); parse(HERE + '/schemas/sub/abc.proto'); parse(HERE + '/schemas/vs.proto')

def resolve(f):
    if f.type in SC: return SC[f.type][0], None
    if f.type == 'string': return 'STR', None
    if f.type == 'bytes': return 'BYT', None
    if f.type[0] == '.':
        for c in (f.type, f.type[1:]):
            if c in msgs: return 'MSG', c
            if c in enums: return 'ENUM', c
    sc = f.scope.split('.')
    for k in range(len(sc), -1, -1):
        n = '.'.join(sc[:k] + [f.type])
        if n in msgs: return 'MSG', n
        if n in enums: return 'ENUM', n
    raise Exception(f.type)

def ident(full): return '_'.join(full.split('.')[1:])

def template_args(m):
    a = []
    for f in order(m):
        if f.card == 'REP' and f.cap is None: a.append(REP)
        if f.kind in ('STR', 'BYT') and f.cap is None: a.append(LEN)
        if f.kind == 'MSG':
            a += template_args(msgs[f.sub])
    return a

def order(m):   # serialization order: plain fields, then the oneofs
    return [f for f in m.fields if not f.oneof] + [f for o in m.oneofs for f in m.fields if f.oneof == o]

for m in msgs.values():
    for f in m.fields: f.kind, f.sub = resolve(f)
    m.left_out = [f for f in m.fields if f.sub == m.full]; m.fields = [f for f in m.fields if f.sub != m.full]
for m in msgs.values():
    for f in m.fields:
        f.rcap = (f.cap or REP) if f.card == 'REP' else 0
        f.scap = (f.cap or LEN) if f.kind in ('STR', 'BYT') else 0

def cppname(full):
    m = msgs[full]; ta = template_args(m); outer, name = full.rsplit('.', 1)
    return (cppname(outer) if outer in msgs else ('::' + outer.replace('.', '::') if outer else '')) + '::' + name + ('<' + ', '.join(map(str, ta)) + '>' if ta else '')
def enumname(full): outer, name = full.rsplit('.', 1); return (cppname(outer) if outer in msgs else ('::' + outer.replace('.', '::') if outer else '')) + '::' + name

done, out = set(), []
def elem_type(f):
    if f.kind in ('STR', 'BYT'): return 'Str<%d>' % f.scap
    if f.kind == 'MSG': return 'S_' + ident(f.sub)
    if f.kind == 'ENUM': return 'u32'
    return 'u64' if dict(SC.values())[f.kind] == 8 else 'u32'

def w(s): out.append(s)

def emit(full):
    if full in done: return
    m = msgs[full]
    for f in m.fields:
        if f.kind == 'MSG': emit(f.sub)
    done.add(full)
    id = ident(full); S = 'S_' + id; C = cppname(full)
    w('// ---- %s' % full)
    w('using M_%s = %s;' % (id, C))
    w('struct %s {' % S)
    for o in m.oneofs: w('  u32 which_%s;' % o)
    for f in order(m):
        e = elem_type(f)
        if f.card == 'REP': w('  u32 n_%s; %s %s[%d];' % (f.name, e, f.name, f.rcap))
        elif f.card == 'OPT': w('  u32 has_%s; %s %s;' % (f.name, e, f.name))
        else: w('  %s %s;' % (e, f.name))
    if not m.fields: w('  u32 dummy_;')
    w('};')
    rows = []
    for f in order(m):
        meta = {'REP': 'n_', 'OPT': 'has_'}.get(f.card, None)
        mo = 'offsetof(%s, %s%s)' % (S, meta, f.name) if meta else ('offsetof(%s, which_%s)' % (S, f.oneof) if f.oneof else '0')
        card = 'C_ONE' if f.oneof else 'C_' + f.card
        sub = '&D_' + ident(f.sub) if f.kind == 'MSG' else 'nullptr'
        rows.append('  {%du, K_%s, %s, %d, %d, (u32)offsetof(%s, %s), (u32)%s, (u32)sizeof(%s), %s, "%s"},' %
                    (f.num, f.kind, card, f.rcap, f.scap, S, f.name, mo, elem_type(f), sub, f.name))
    if rows: w('static const FD F_%s[] = {\n%s\n};' % (id, '\n'.join(rows)))
    w('static const MD D_%s = {%s, %d, (u32)sizeof(%s), "%s"};' % (id, 'F_' + id if rows else 'nullptr', len(rows), S, id))
    # load
    w('static inline void load(M_%s& m, const %s& s) {' % (id, S)); w('  (void)m; (void)s;')
    def setter(f):
        n = f.name
        if f.card == 'REP':
            if f.kind in ('STR', 'BYT', 'MSG'):
                inner = 'load(m.mutable_%s(i), s.%s[i]);' % (n, n) if f.kind == 'MSG' else 'loadstr(m.mutable_%s(i), s.%s[i]);' % (n, n)
                return 'for (u32 i = 0; i < s.n_%s; i++) { %s }' % (n, inner)
            v = 'static_cast<%s>(s.%s[i])' % (enumname(f.sub), n) if f.kind == 'ENUM' else 'from_bits<%s>(s.%s[i])' % (CPP[f.kind], n)
            return 'for (u32 i = 0; i < s.n_%s; i++) m.add_%s(%s);' % (n, n, v)
        if f.kind in ('STR', 'BYT'): return 'loadstr(m.mutable_%s(), s.%s);' % (n, n)
        if f.kind == 'MSG': return 'load(m.mutable_%s(), s.%s);' % (n, n)
        if f.kind == 'ENUM': return 'm.set_%s(static_cast<%s>(s.%s));' % (n, enumname(f.sub), n)
        return 'm.set_%s(from_bits<%s>(s.%s));' % (n, CPP[f.kind], n)
    for f in m.fields:
        if f.oneof: w('  if (s.which_%s == %du) { %s }' % (f.oneof, f.num, setter(f)))
        elif f.card == 'OPT': w('  if (s.has_%s) { %s }' % (f.name, setter(f)))
        else: w('  ' + setter(f))
    w('}')
    # read
    def getter(f):
        n = f.name
        if f.card == 'REP':
            if f.kind in ('STR', 'BYT'): g = 'readstr(s.%s[i], m.get_%s().get_const(i));' % (n, n)
            elif f.kind == 'MSG': g = 'read(s.%s[i], m.get_%s().get_const(i));' % (n, n)
            elif f.kind == 'ENUM': g = 's.%s[i] = static_cast<u32>(m.get_%s().get_const(i).get());' % (n, n)
            else: g = 's.%s[i] = to_bits<%s>(m.get_%s().get_const(i).get());' % (n, CPP[f.kind], n)
            return 's.n_%s = m.get_%s().get_length(); CHECK_CAP(s.n_%s, %d); for (u32 i = 0; i < s.n_%s; i++) { %s }' % (n, n, n, f.rcap, n, g)
        if f.kind in ('STR', 'BYT'): return 'readstr(s.%s, m.get_%s());' % (n, n)
        if f.kind == 'MSG': return 'read(s.%s, m.get_%s());' % (n, n)
        if f.kind == 'ENUM': return 's.%s = static_cast<u32>(m.get_%s());' % (n, n)
        return 's.%s = to_bits<%s>(m.get_%s());' % (n, CPP[f.kind], n)
    w('static inline void read(%s& s, const M_%s& m) {' % (S, id)); w('  (void)m; ref_reset(D_%s, (u8*)&s);' % id)
    for o in m.oneofs: w('  s.which_%s = static_cast<u32>(m.get_which_%s());' % (o, o))
    for f in m.fields:
        if f.oneof:
            w('  HAS_ONE(m.has_%s(), s.which_%s, %du); if (s.which_%s == %du) { %s }' % (f.name, f.oneof, f.num, f.oneof, f.num, getter(f)))
        elif f.card == 'OPT': w('  s.has_%s = m.has_%s() ? 1 : 0; %s' % (f.name, f.name, getter(f)))
        else: w('  ' + getter(f))
    w('}')
    # clear one field, mutate one field, by index in D_ order
    w('static inline void clear_field(M_%s& m, u32 k) {' % id); w('  (void)m; switch (k) {')
    for k, f in enumerate(order(m)): w('    case %d: m.clear_%s(); break;' % (k, f.name))
    w('    default: break;\n  }\n}')
    # set one field (k = index), value taken from s. how: 0 set_x(rvalue), 1 set_x(lvalue), 2 through mutable_x(), 3 whole array; returns whether that way exists
    w('static inline bool set_field(M_%s& m, const %s& s, u32 k, u32 how = 0) {' % (id, S)); w('  (void)m; (void)s; switch (k) {')
    for k, f in enumerate(order(m)):
        n = f.name
        SF = '::EmbeddedProto::Field%s<%d>' % ('String' if f.kind == 'STR' else 'Bytes', f.scap)
        if f.kind in ('STR', 'BYT'): et, ld = SF, lambda e, src: 'loadstr(%s, %s);' % (e, src)
        elif f.kind == 'MSG': et, ld = 'M_' + ident(f.sub), lambda e, src: 'load(%s, %s);' % (e, src)
        elif f.kind == 'ENUM': et, ld = enumname(f.sub), lambda e, src, t=enumname(f.sub) if f.sub else '': '%s = static_cast<%s>(%s);' % (e, t, src)
        else: et, ld = CPP[f.kind], lambda e, src, t=CPP[f.kind]: '%s = from_bits<%s>(%s);' % (e, t, src)
        move = 'static_cast<%s&&>(e)'
        if f.card == 'REP':
            ctype = '::EmbeddedProto::enumeration<%s>' % et if f.kind == 'ENUM' else et if f.kind in ('STR', 'BYT', 'MSG') else '::EmbeddedProto::' + EP[f.kind]
            src = 's.%s[i]' % n
            body = 'for (u32 i = 0; i < s.n_%s; i++) { %s e; %s ' % (n, et, ld('e', src))
            if f.kind in ('STR', 'BYT', 'MSG'): arg = 'e'; pre = ''
            else: arg = 'c'; pre = '%s c; c = e; ' % ctype
            body += pre + 'if (how == 0) m.set_%s(i, static_cast<%s&&>(%s)); else if (how == 1) m.set_%s(i, %s); else if (how == 2) m.mutable_%s(i) = %s; else return false; }' % (n, ctype, arg, n, arg, n, arg)
            body = 'if (how == 3) { ::EmbeddedProto::RepeatedFieldFixedSize<%s, %d> a; for (u32 i = 0; i < s.n_%s; i++) { %s e; %s a.add(%s); } m.set_%s(a); return true; } ' % (ctype, f.rcap, n, et, ld('e', src), 'e', n) + body + ' return true;'
        else:
            lval = 's.%s' % n
            body = '%s e; %s ' % (et, ld('e', lval))
            body += 'if (how == 0) { m.set_%s(static_cast<%s&&>(e)); return true; } if (how == 1) { m.set_%s(e); return true; } ' % (n, et, n)
            if f.kind in ('STR', 'BYT'): body += 'if (how == 2) { loadstr(m.mutable_%s(), s.%s); return true; } ' % (n, n)
            elif f.kind == 'MSG': body += 'if (how == 2) { m.mutable_%s() = e; return true; } ' % n
            elif f.kind != 'ENUM' and not f.oneof: body += 'if (how == 2) { m.mutable_%s() = e; return true; } ' % n
            body += 'return false;'
        w('    case %d: { %s }' % (k, body))
    w('    default: return false;\n  }\n}')
    # store s.x[0] in the array k. how: 0 set_x(i, rvalue), 1 set_x(i, lvalue), 2 mutable_x(i) =, 3 mutable_x().set(i, ), 4 mutable_x()[i] =, 5 add_x(), 6 mutable_x().add(); returns whether k is an array
    w('static inline bool put_at(M_%s& m, const %s& s, u32 k, u32 at, u32 how) {' % (id, S)); w('  (void)m; (void)s; (void)at; (void)how; switch (k) {')
    for k, f in enumerate(order(m)):
        if f.card != 'REP': continue
        n = f.name
        if f.kind in ('STR', 'BYT'): ct = '::EmbeddedProto::Field%s<%d>' % ('String' if f.kind == 'STR' else 'Bytes', f.scap); ld = 'loadstr(e, s.%s[0]);' % n
        elif f.kind == 'MSG': ct = 'M_' + ident(f.sub); ld = 'load(e, s.%s[0]);' % n
        elif f.kind == 'ENUM': ct = '::EmbeddedProto::enumeration<%s>' % enumname(f.sub); ld = 'e = static_cast<%s>(s.%s[0]);' % (enumname(f.sub), n)
        else: ct = '::EmbeddedProto::' + EP[f.kind]; ld = 'e = from_bits<%s>(s.%s[0]);' % (CPP[f.kind], n)
        w('    case %d: { %s e; %s if (how == 0) m.set_%s(at, static_cast<%s&&>(e)); else if (how == 1) m.set_%s(at, e); else if (how == 2) m.mutable_%s(at) = e; else if (how == 3) m.mutable_%s().set(at, e); else if (how == 4) m.mutable_%s()[at] = e; else if (how == 5) m.add_%s(e); else m.mutable_%s().add(e); return true; }' % (k, ct, ld, n, ct, n, n, n, n, n, n))
    w('    default: return false;\n  }\n}')
    # x() agrees with get_x()
    w('static inline void alias_check(const M_%s& m, u32 k) {' % id); w('  (void)m; switch (k) {')
    for k, f in enumerate(order(m)):
        n = f.name; MSG = '"x() and get_x() differ"'
        if f.card == 'REP':
            b = 'sym_assert(&m.%s() == &m.get_%s(), %s); for (u32 i = 0; i < m.get_%s().get_length(); i++) sym_assert(&m.%s(i) == &m.get_%s().get_const(i), "x(i) is not the element of the array");' % (n, n, MSG, n, n, n)
        elif f.kind in ('STR', 'BYT'): b = 'sym_assert(m.%s() == m.get_%s().get_const(), %s);' % (n, n, MSG)
        elif f.kind == 'MSG': b = 'sym_assert(&m.%s() == &m.get_%s(), %s);' % (n, n, MSG)
        elif f.kind == 'ENUM': b = 'sym_assert(m.%s() == m.get_%s(), %s);' % (n, n, MSG)
        else: b = 'sym_assert(to_bits<%s>(m.%s()) == to_bits<%s>(m.get_%s()), %s);' % (CPP[f.kind], n, CPP[f.kind], n, MSG)
        if f.oneof: b = 'if (m.has_%s()) { %s }' % (n, b)
        w('    case %d: { %s break; }' % (k, b))
    w('    default: break;\n  }\n}')
    # touch one field through mutable_x where it exists (no change of value); returns whether there is one
    w('static inline bool touch_field(M_%s& m, u32 k) {' % id); w('  (void)m; switch (k) {')
    for k, f in enumerate(order(m)):
        if f.kind == 'ENUM' and f.card != 'REP': continue
        if f.oneof and f.kind not in ('STR', 'BYT', 'MSG'): continue
        w('    case %d: (void)m.mutable_%s(); return true;' % (k, f.name))
    w('    default: return false;\n  }\n}')
    # make array or text k n long through the indexed accessor
    w('static inline bool extend_field(M_%s& m, u32 k, u32 n) {' % id); w('  (void)m; (void)n; switch (k) {')
    for k, f in enumerate(order(m)):
        if f.card == 'REP': w('    case %d: (void)m.mutable_%s(n - 1); return true;' % (k, f.name))
        elif f.kind in ('STR', 'BYT'): w('    case %d: (void)m.mutable_%s().get(n - 1); return true;' % (k, f.name))
    w('    default: return false;\n  }\n}')
    # declared capacities, numbers, names and value types
    w('static inline void limits(const M_%s& m) {' % id); w('  (void)m;')
    for f in order(m):
        n = f.name
        w('  static_assert(static_cast<u32>(M_%s::FieldNumber::%s) == %du, "number of field %s");' % (id, n.upper(), f.num, n))
        w('  sym_assert(__builtin_strcmp(M_%s::%s_NAME, "%s") == 0, "name constant of field %s");' % (id, n.upper(), n, n))
        if f.card == 'REP': w('  sym_assert(m.get_%s().get_max_length() == %du, "capacity of field %s");' % (n, f.rcap, n))
        elif f.kind in ('STR', 'BYT') and not f.oneof: w('  sym_assert(m.get_%s().get_max_length() == %du, "capacity of field %s");' % (n, f.scap, n))
        elif f.kind in ('STR', 'BYT'): w('  if (m.has_%s()) sym_assert(m.get_%s().get_max_length() == %du, "capacity of field %s");' % (n, n, f.scap, n))
        if f.card == 'REP' and f.kind in ('STR', 'BYT'): w('  sym_assert(m.get_%s().get_const(0).get_max_length() == %du, "element capacity of field %s");' % (n, f.scap, n))
        if f.card != 'REP':
            if f.kind == 'ENUM': w('  static_assert(std::is_same<decltype(m.%s()), %s>::value, "type of field %s");' % (n, enumname(f.sub), n))
            elif f.kind == 'MSG': w('  static_assert(std::is_same<decltype(m.%s()), const M_%s&>::value, "type of field %s");' % (n, ident(f.sub), n))
            elif f.kind not in ('STR', 'BYT'): w('  static_assert(std::is_same<decltype(m.%s()), %s>::value, "type of field %s");' % (n, CPP[f.kind], n))
    w('}')
    w('static inline const char* left_out(M_%s*, u32 n) { (void)n; %sreturn nullptr; }' % (id, ''.join('if (n == %du) return "%s"; ' % (f.num, f.name) for f in m.left_out)))
    w('static inline const char* number_name(M_%s*, u32 n) { return M_%s::field_number_to_name(static_cast<M_%s::FieldNumber>(n)); }' % (id, id, id))
    w('template<> struct G<M_%s> { using S = %s; static const MD& md() { return D_%s; } };' % (id, S, id))
    w('')

for full in list(msgs): emit(full)
for full, vals in enums.items():
    for n, v in vals: w('static_assert(static_cast<u32>(%s::%s) == %du, "value of enum %s.%s");' % (enumname(full), n, v & 0xFFFFFFFF, full, n))
head = '''// Generated by tools/mkglue.py from schemas/*.proto. Do not edit.
#pragma once
#include "ref.hpp"
#include <vs.h>
#include <nopkg.h>
#include <sub/abc.h>
template<class T> struct G;
template<class T> static inline T from_bits(u32 v) { T r; static_assert(sizeof(T) == 4, ""); __builtin_memcpy(&r, &v, 4); return r; }
template<class T> static inline T from_bits(u64 v) { T r; static_assert(sizeof(T) == 8, ""); __builtin_memcpy(&r, &v, 8); return r; }
template<> inline bool from_bits<bool>(u32 v) { return v != 0; }
template<class T> struct Bits { using U = typename std::conditional<sizeof(T) == 8, u64, u32>::type; };
template<class T> static inline typename Bits<T>::U to_bits(T v) { typename Bits<T>::U r; __builtin_memcpy(&r, &v, sizeof r); return r; }
template<> inline u32 to_bits<bool>(bool v) { return v ? 1 : 0; }
template<class FS, u32 N> static inline void loadstr(FS& f, const Str<N>& s) {
  using C = typename std::remove_const<typename std::remove_pointer<decltype(f.get_const())>::type>::type;
  f.set(reinterpret_cast<const C*>(s.d), s.len);
}
template<class FS, u32 N> static inline void readstr(Str<N>& s, const FS& f) {
  s.len = f.get_length(); CHECK_CAP(s.len, N);
  for (u32 i = 0; i < s.len; i++) s.d[i] = (u8)f.get_const()[i];
}
'''
open(HERE + '/harness/vs_glue.hpp', 'w').write(head + '\n'.join(out) + '\n')
print(len(msgs), 'messages', len(out), 'lines')
