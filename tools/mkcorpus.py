#!/usr/bin/env python3
"""Writes corpus/grid.zs (every kind of type under every field modifier in every container), corpus/widths.zs (every bit
width) and corpus/packs.zs (every way into a packed array). The generated schemas are committed; this script documents how they came about."""
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# tag -> (type text inside a compound with a uint8 n, literal for an initialiser, packable)
KINDS = [
    ('Bool', 'bool', 'true'), ('U8', 'uint8', '7'), ('U16', 'uint16', '300'), ('U32', 'uint32', '70000'), ('U64', 'uint64', '5000000000'),
    ('S8', 'int8', '-7'), ('S16', 'int16', '-300'), ('S32', 'int32', '-70000'), ('S64', 'int64', '-5000000000'),
    ('B5', 'bit:5', '3'), ('B12', 'bit:12', '1000'), ('B33', 'bit:33', '5000000000'), ('B57', 'bit:57', '1'),
    ('I5', 'int:5', '-3'), ('I33', 'int:33', '-3'), ('I60', 'int:60', '-1'),
    ('BN', 'bit<n>', '1'), ('IN', 'int<n>', '-1'), ('BC', 'bit<CNT + 2>', '1'), ('IC', 'int<CNT>', '-1'),
    ('V16', 'varint16', '-5'), ('V32', 'varint32', '-70000'), ('V64', 'varint64', '-1'), ('VI', 'varint', '-1'),
    ('W16', 'varuint16', '5'), ('W32', 'varuint32', '70000'), ('W64', 'varuint64', '1'), ('WI', 'varuint', '1'), ('VS', 'varsize', '4'),
    ('F16', 'float16', '1.5f'), ('F32', 'float32', '2.5f'), ('F64', 'float64', '3.25'),
    ('Str', 'string', '"abc"'), ('Byt', 'bytes', None), ('Ext', 'extern', None),
    ('E8', 'Color', 'Color.GREEN'), ('EV', 'VarKind', 'VarKind.VK_B'), ('E3', 'Tiny', 'Tiny.T2'), ('ES', 'Shade', 'Shade.DARK'),
    ('P8', 'Perm', 'Perm.WRITE'), ('PV', 'PermVar', 'PermVar.PV_A'), ('P5', 'Perm5', 'Perm5.P_A | Perm5.P_B'),
    ('Leaf', 'Leaf', None), ('Par', 'Par(n)', None), ('ParC', 'Par(7)', None), ('Pick', 'Pick(n)', None), ('Uni', 'Either', None),
    ('Tm', 'Tmpl<int16>', None), ('TmE', 'Tmpl<Color>', None),
    ('SubU', 'SubU', '9'), ('SubV', 'SubSubV', '-9'), ('SubE', 'SubE', 'SubE.RED'), ('SubP', 'SubP', 'SubP.READ'),
    ('SubL', 'SubL', None), ('SubB', 'SubB', None), ('SubS', 'SubSubS', '"q"'), ('SubX', 'SubX', None), ('SubBit', 'SubBit', '1'),
    ('SubBool', 'SubBool', 'false'), ('SubF', 'SubF', '0.5'), ('SubUni', 'SubUni', None),
]

HEAD = '''package grid;

/* Written by tools/mkcorpus.py: every kind of type under every field modifier in every container. */

const uint8 CNT = 6;
enum uint8 Color { RED, GREEN = 5, BLUE };
enum int16 Shade { DARK = -3, MID = 0, BRIGHT = 700 };
enum varuint16 VarKind { VK_A = 1, VK_B = 300 };
enum bit:3 Tiny { T0, T1, T2 = 6 };
bitmask uint8 Perm { READ, WRITE, EXEC = 8 };
bitmask bit:5 Perm5 { P_A, P_B = 10b };
bitmask varuint32 PermVar { PV_A, PV_B };
struct Leaf { uint16 lo; uint32 hi; };
struct Par(uint8 k) { bit<k> a; uint8 b if k > 4; };
choice Pick(uint8 k) on k { case 1: uint8 a; case 2: case 3: string b; default: Leaf c; };
union Either { uint8 a; string b; Leaf c; int32 d[]; };
struct Tmpl<T> { T val; T arr[]; optional T opt; };
struct Holder { uint8 a; uint32 off; };
struct OffArr { uint32 offs[]; };
struct Foreign { Holder h; OffArr a; uint8 b; h.off: uint8 c; a.offs[@index]: uint16 d[]; };
struct UseForeign { packed Foreign f[]; packed Holder h[]; };
subtype uint16 SubU;
subtype varint32 SubV;
subtype SubV SubSubV;
subtype Color SubE;
subtype Perm SubP;
subtype Leaf SubL;
subtype bytes SubB;
subtype string SubS;
subtype SubS SubSubS;
subtype extern SubX;
subtype bit:7 SubBit;
subtype bool SubBool;
subtype float64 SubF;
subtype Either SubUni;
'''
UNPACKABLE = {'Bool', 'F16', 'F32', 'F64', 'Str', 'Byt', 'Ext', 'SubB', 'SubS', 'SubX', 'SubBool', 'SubF'}
UNPACKABLE |= set()


def grid():
    out = [HEAD]
    for tag, t, init in KINDS:
        pk = '' if tag in UNPACKABLE else 'packed '
        # parameters are given by an earlier field of the container
        f = ['uint8 n;', 'uint32 o1; uint16 o2; uint64 o3;', 'uint32 p1[]; uint16 p2[]; uint64 p3[];']
        f += ['%s plain;' % t, 'optional %s opt;' % t, '%s cond if n > 3;' % t, 'align(16): %s ali;' % t, 'align(32): optional %s aliOpt;' % t,
              'o1: %s off;' % t, 'o2: optional %s offOpt;' % t, 'align(64): o3: %s offAli if n == 1;' % t,
              '%s con : n > 2;' % t, 'optional %s conOpt : n > 1;' % t]
        if init:
            f += ['%s ini = %s;' % (t, init)]
        out.append('struct Fld%s\n{\n    %s\n};\n' % (tag, '\n    '.join(f)))
        f = ['uint8 n;', 'uint32 p1[]; uint16 p2[n]; uint64 p3[];', '%s au[];' % t, '%s fix[4];' % t, '%s len[n];' % t,
             'optional %s opt[];' % t, '%s cond[n] if n > 3;' % t, 'align(16): %s ali[];' % t, 'p1[@index]: %s offs[];' % t,
             'p2[@index]: %s offs2[n];' % t, '%s con[] : lengthof(con) > 1;' % t]
        if pk:
            f += ['packed %s pau[];' % t, 'packed %s plen[n + 1];' % t, 'optional packed %s popt[];' % t, 'packed %s pcond[] if n != 2;' % t,
                  'p3[@index]: packed %s poffs[];' % t]
        out.append('struct Arr%s\n{\n    %s\n};\n' % (tag, '\n    '.join(f)))
        f = ['uint8 n;', 'extend %s plain;' % t, 'extend optional %s opt;' % t, 'extend %s cond if n > 3;' % t, 'extend align(32): %s ali;' % t,
             'extend %s au[];' % t, 'extend %s con : n > 2;' % t]
        if pk:
            f += ['extend optional packed %s pau[];' % t]
        f = [x if 'align' not in x else x.replace('extend align(32): ', 'align(32): extend ') for x in f]
        out.append('struct Exd%s\n{\n    %s\n};\n' % (tag, '\n    '.join(f)))
        cs = ['case 1: %s plain;' % t, 'case 2: case 4: %s au[];' % t, 'case 5: %s len[n];' % t, 'case 6: %s con : n > 2;' % t]
        if pk:
            cs += ['case 7: packed %s pau[];' % t]
        out.append('choice Cho%s(uint8 n) on n\n{\n    %s\n    case 9: ;\n    default: %s dfl[2];\n};\n' % (tag, '\n    '.join(cs), t))
        us = ['%s plain;' % t, '%s au[];' % t, '%s fix[3];' % t, '%s con : 1 < CNT;' % t]
        if pk:
            us += ['packed %s pau[];' % t]
        if 'n)' in t or '<n>' in t:
            out.append('union Uni%s(uint8 n)\n{\n    %s\n};\n' % (tag, '\n    '.join(us)))
            uni = 'Uni%s(n)' % tag
        else:
            out.append('union Uni%s\n{\n    %s\n};\n' % (tag, '\n    '.join(us)))
            uni = 'Uni%s' % tag
        out.append('struct Use%s\n{\n    uint8 n;\n    packed Fld%s fld[];\n    packed Arr%s arr[n];\n    packed Cho%s(n) cho[];\n    packed %s uni[];\n    packed Hld%s hld[];\n};\n' % (
            tag, tag, tag, tag, uni, tag))
        out.append('struct Hld%s { uint8 n; Cho%s(n) cho; optional %s uni; Cho%s(n) chos[]; %s unis[n]; };\n' % (tag, tag, uni, tag, uni))
    return '\n'.join(out)


def widths():
    out = ['package widths;\n\n/* Written by tools/mkcorpus.py: every bit width, in every role. */\n']
    out.append('struct Plain\n{\n%s\n};\n' % '\n'.join('    bit:%d b%d; int:%d s%d;' % (i, i, i, i) for i in range(1, 65)))
    out.append('struct Opt\n{\n%s\n};\n' % '\n'.join('    optional bit:%d b%d; optional int:%d s%d;' % (i, i, i, i) for i in range(1, 65)))
    out.append('struct Arr\n{\n%s\n};\n' % '\n'.join('    bit:%d b%d[]; int:%d s%d[];' % (i, i, i, i) for i in range(1, 65)))
    out.append('struct Pck\n{\n%s\n};\n' % '\n'.join('    packed bit:%d b%d[]; packed int:%d s%d[];' % (i, i, i, i) for i in range(1, 65)))
    out.append('struct Use { packed Plain p[]; packed Opt o[]; };\n')
    out.append('union Uni\n{\n%s\n};\n' % '\n'.join('    bit:%d b%d; int:%d s%d;' % (i, i, i, i) for i in range(1, 65, 3)))
    for i in range(1, 65):
        out.append('enum bit:%d EB%d { EB%d_A, EB%d_B };' % (i, i, i, i))
        if i > 1:
            out.append('enum int:%d EI%d { EI%d_A = -1, EI%d_B };' % (i, i, i, i))
        out.append('bitmask bit:%d MB%d { MB%d_A };' % (i, i, i))
    return '\n'.join(out)


def packs():
    """Types whose only way into a packed array is one particular route."""
    out = ['''package packs;

/* Written by tools/mkcorpus.py: element types that are packed only by way of one route each, and elements that are packable only
 * because of one member. */

const uint8 CNT = 6;
''']
    made = {}

    def leaf(kind, i):
        n = '%s%d' % (kind, i)
        if kind == 'St':
            out.append('struct %s { string t; uint16 a; };' % n)
        elif kind == 'En':
            out.append('enum uint8 %s { %s_A, %s_B };' % (n, n.upper(), n.upper()))
        elif kind == 'Bm':
            out.append('bitmask bit:9 %s { %s_A, %s_B };' % (n, n.upper(), n.upper()))
        elif kind == 'Un':
            out.append('union %s { string t; bool b; };' % n)
        elif kind == 'Ch':
            out.append('choice %s(uint8 k) on k { case 1: string t; case 2: int32 a; };' % n)
            return n, n + '(n)'
        elif kind == 'Te':
            out.append('struct %s<T> { T t; string s; };' % n)
            return n, n + '<varint>'
        elif kind == 'Su':
            out.append('struct X%s { bit:3 a; string t; };\nsubtype X%s %s;' % (n, n, n))
        elif kind == 'Sn':
            out.append('enum int16 X%s { X%s_A, X%s_B };\nsubtype X%s %s;' % (n, n.upper(), n.upper(), n, n))
        elif kind == 'Pa':
            out.append('struct %s(uint8 k) { bit<k> a; bool b; };' % n)
            return n, n + '(n)'
        elif kind == 'Ar':
            out.append('struct %s { string t; uint32 a[]; };' % n)
        elif kind == 'Op':
            out.append('struct %s { string t; optional varsize a; };' % n)
        return n, n

    routes = [
        ('Elem', 'packed TYPE m[];'), ('Fix', 'packed TYPE m[3];'), ('Opt', 'optional packed TYPE m[];'), ('Ext', 'extend packed TYPE m[];'),
        ('Off', 'uint32 o[]; o[@index]: packed TYPE m[];'), ('Cond', 'packed TYPE m[] if n > 1;'), ('Con', 'packed TYPE m[] : n > 1;'),
    ]
    inner = [
        ('Plain', 'struct', 'TYPE m;'), ('Opt', 'struct', 'optional TYPE m;'), ('Cond', 'struct', 'TYPE m if n > 1;'), 
        ('Arr', 'struct', 'TYPE m[];'), ('Len', 'struct', 'TYPE m[n];'), ('OArr', 'struct', 'optional TYPE m[];'), 
        ('Ali', 'struct', 'align(8): TYPE m;'), ('Off', 'struct', 'uint32 o; o: TYPE m;'), ('OffA', 'struct', 'uint32 o[]; o[@index]: TYPE m[];'),
        ('Con', 'struct', 'TYPE m : n > 2;'), ('PArr', 'struct', 'packed TYPE m[];'),
        ('Case', 'choice', 'case 1: TYPE m;'), ('CArr', 'choice', 'case 1: TYPE m[];'), ('Dfl', 'choice', 'case 1: string t; default: TYPE m;'),
        ('DArr', 'choice', 'case 1: string t; default: TYPE m[];'), ('Mem', 'union', 'TYPE m;'), ('MArr', 'union', 'TYPE m[];'),
        ('Mem2', 'union', 'string t; TYPE m;'), ('CPArr', 'choice', 'case 1: packed TYPE m[];'), ('MPArr', 'union', 'packed TYPE m[];'),
    ]
    i = 0
    for kind in ('St', 'En', 'Bm', 'Un', 'Ch', 'Te', 'Su', 'Sn', 'Pa', 'Ar', 'Op'):
        for r, text in routes:
            i += 1
            n, ref = leaf(kind, i)
            out.append('struct R%s%s { uint8 n; %s };' % (kind, r, text.replace('TYPE', ref)))
        for r, cont, text in inner:
            i += 1
            n, ref = leaf(kind, i)
            c = 'I%s%s' % (kind, r)
            if cont == 'struct':
                out.append('struct %s { uint8 n; %s };' % (c, text.replace('TYPE', ref)))
                use = c
            elif cont == 'choice':
                out.append('choice %s(uint8 n) on n { %s };' % (c, text.replace('TYPE', ref)))
                use = c + '(n)'
            elif 'n)' in ref:
                out.append('union %s(uint8 n) { %s };' % (c, text.replace('TYPE', ref)))
                use = c + '(n)'
            else:
                out.append('union %s { %s };' % (c, text.replace('TYPE', ref)))
                use = c
            # the container is reached directly, one struct deep, or through a plain array
            how = i % 4
            if how == 0:
                out.append('struct U%s { uint8 n; packed %s p[]; };' % (c, use))
            elif how == 1:
                out.append('struct V%s { uint8 n; %s p; };\nstruct U%s { packed V%s q[]; };' % (c, use, c, c))
            elif how == 2:
                out.append('struct V%s { uint8 n; %s p[]; };\nstruct U%s { packed V%s q[2]; };' % (c, use, c, c))
            else:
                out.append('struct W%s<T> { uint8 n; %s p; T t; };\nstruct U%s { packed W%s<string> q[]; };' % (c, use, c, c))
    # elements that are packable because of exactly one member (or of none)
    for tag, t, init in KINDS:
        if t in ('Leaf', 'Par(n)', 'Par(7)', 'Pick(n)', 'Either', 'Tmpl<int16>', 'Tmpl<Color>', 'Color', 'VarKind', 'Tiny', 'Shade', 'Perm', 'PermVar',
                 'Perm5') or tag.startswith('Sub'):
            continue
        fix = t.replace('<n>', '<CNT + 1>')
        for r, text in (('A', '%s m;'), ('B', 'optional %s m;'), ('C', '%s m[];'), ('D', '%s m if lengthof(s) > 2;')):
            n = 'Only%s%s' % (tag, r)
            out.append('struct %s { string s; %s };\nstruct Use%s { packed %s p[]; };' % (n, text % fix, n, n))
        out.append('choice OnlyCh%s(bool b) on b { case true: string s; case false: %s m; };\nstruct UseOnlyCh%s { bool b; packed OnlyCh%s(b) p[]; };' % (
            tag, fix, tag, tag))
    out.append('struct OnlyOffset { uint32 o; o: string s; };\nstruct UseOnlyOffset { packed OnlyOffset p[]; };')
    out.append('struct OnlyOffset2 { uint32 o; string s; };\nstruct OnlyOffset2Holder { OnlyOffset2 h; h.o: string s; };\n'
               'struct UseOnlyOffset2 { packed OnlyOffset2Holder p[]; packed OnlyOffset2 q[]; };')
    out.append('struct OnlyOffsets { uint32 o[]; o[@index]: string s[]; };\nstruct UseOnlyOffsets { packed OnlyOffsets p[]; };')
    out.append('struct OnlyEmpty { };\nstruct UseOnlyEmpty { packed OnlyEmpty p[]; };')
    out.append('struct Tree { uint8 n; varint v; Tree kids[n]; };\nstruct UseTree { packed Tree p[]; };')
    out.append('struct PTree { uint8 n; varint v; packed PTree kids[n]; };\nstruct UsePTree { packed PTree p[]; };')
    out.append('struct OTree { varint v; optional OTree next; };\nstruct UseOTree { packed OTree p[]; };')
    return '\n'.join(out)


if __name__ == '__main__':
    for n, f in (('grid', grid), ('widths', widths), ('packs', packs)):
        with open(os.path.join(HERE, 'corpus', n + '.zs'), 'w') as o:
            o.write(f())


# ---------------------------------------------------------------- expressions
def expressions():
    out = ['''package expr;

/* Written by tools/mkcorpus.py: every operator of the expression language in every operand position, literals in every notation,
 * constants of every type. */

enum uint8 Color { RED, GREEN = 5, BLUE };
enum int32 Depth { LOW = -70000, MID, HIGH = 0x7FFFFFFF };
bitmask uint8 Perm { READ, WRITE, EXEC = 8 };
bitmask uint64 Wide { LO = 1, HI = 0x8000000000000000 };
subtype Color Paint;
struct Leaf { uint16 lo; int32 hi; uint64 big; Color col; uint8 arr[]; function uint16 getLo() { return lo; } function bool isBig() { return big > 7; } };
struct Tree { Leaf leaf; Leaf leaves[]; optional Leaf opt; };
union Either { uint8 a; Leaf b; };
choice Pick(uint8 k) on k { case 1: uint8 a; default: Leaf b; };
''']
    arith, rel, logic = ['+', '-', '*', '/', '%', '<<', '>>', '&', '^', '|'], ['==', '!=', '<', '<=', '>', '>='], ['&&', '||']
    fields = ('uint8 a; uint16 b; uint32 c; int32 s; int64 l; int16 t; uint64 w; uint64 x; varuint v; bool p; bool q; bool r; float64 f; '
              'float32 g; float16 h; string m; Color k; Perm z; Wide y; Leaf leaf; Tree tree; uint8 arr[]; Leaf leaves[]; Paint paint; bit:4 d; '
              'bit:60 e; varsize n; Depth depth; string texts[]; bytes o;')
    n = [0]

    def struct(name, funcs):
        for i in range(0, len(funcs), 150):
            body = []
            for t, e in funcs[i:i + 150]:
                n[0] += 1
                body.append('    function %s fn%d() { return %s; }' % (t, n[0], e))
            out.append('struct %s%s\n{\n    %s\n%s\n};' % (name, i // 150 or '', fields, '\n'.join(body)))
    NOSHIFT = [o for o in arith if o not in ('<<', '>>')]
    for name, t, (a, b, c) in (('Ints', 'int64', ('a', 's', 'b')), ('Longs', 'int64', ('l', 'c', 's')), ('Bigs', 'uint64', ('w', 'x', 'v'))):
        fs = [(t, '%s %s %s' % (a, o, b if o not in ('<<', '>>') else 'd')) for o in arith]
        for o1 in arith:
            for o2 in arith:
                y = b if o1 not in ('<<', '>>') else 'd'
                z = c if o2 not in ('<<', '>>') and o1 not in ('<<', '>>') else 'd'
                fs.append((t, '%s %s %s %s %s' % (a, o1, y, o2, z)))
                if o1 not in ('<<', '>>'):
                    fs.append((t, '%s %s (%s %s %s)' % (a, o1, b, o2, z)))
                fs.append((t, '(%s %s %s) %s %s' % (a, o1, y, o2, z)))
        if name != 'Bigs':
            fs += [(t, '-%s' % a), (t, '+%s' % b), (t, '~%s' % b), (t, '-(%s + %s)' % (a, b)), (t, '%s - -%s' % (a, b)), (t, '~%s & -%s' % (a, c)),
                   (t, '-%s * ~%s' % (a, b)), (t, '- -%s' % a), (t, '+ +%s' % a), (t, '-+%s' % a), (t, '%s + +%s' % (a, b)), (t, '~~%s' % a), (t, '-~-%s' % a)]
        else:
            fs += [(t, '+%s' % a), (t, '%s + 18446744073709551615' % a), (t, 'a + %s' % a), (t, '%s * c' % a), (t, '%s + numbits(%s)' % (a, b)),
                   (t, '%s << 3' % a), (t, '%s >> d' % a), (t, '%s & 0xFF' % a), (t, 'lengthof(arr) + %s' % a), (t, 'leaf.big + %s' % a)]
        fs += [(t, 'p ? %s : %s' % (a, c)), (t, 'p ? %s : q ? %s : %s' % (a, a, c)), (t, '(p ? %s : %s) + %s' % (a, c, a)),
               (t, '%s + (p ? %s : %s)' % (a, a, c)), (t, 'p && q ? %s : %s' % (a, c)), (t, 'p ? %s + %s : %s - %s' % (a, c, c, a)),
               (t, '%s > %s ? %s : %s' % (a, c, a, c)), (t, '(p ? q : r) ? %s : %s' % (a, c))]
        struct(name, fs)
    fs = []
    for l, r in (('a', 's'), ('w', 'x'), ('l', 'c'), ('f', 'g'), ('v', 'a'), ('l', '-5'), ('w', '18446744073709551615'), ('s', '-2147483648'),
                 ('l', '-9223372036854775807'), ('e', '0xFFFFFFFFFFFFFFF')):
        fs += [('bool', '%s %s %s' % (l, o, r)) for o in rel if l != 'f' or o in ('<', '>')]
    for o in ('==', '!=', '<'):
        fs += [('bool', 'k %s Color.GREEN' % o), ('bool', 'paint %s k' % o), ('bool', 'z %s Perm.READ' % o)] if o != '<' else []
        fs += [('bool', 'p %s q' % o)] if o != '<' else []
    for o1 in rel:
        for o2 in ('==', '!='):
            fs += [('bool', 'a %s s %s p' % (o1, o2)), *([('bool', 'p %s a %s s' % (o2, o1))] if o1[0] in '<>' else []), *([('bool', 'a %s b %s c %s s' % (o1, o2, o1))] if o1[0] in '<>' else []),
                   ('bool', '(a %s b) %s (c %s s)' % (o1, o2, o1)), ('bool', 'p %s (a %s b)' % (o2, o1))]
    for o1 in logic:
        for o2 in logic:
            fs += [('bool', 'p %s q %s r' % (o1, o2)), ('bool', '(p %s q) %s r' % (o1, o2)), ('bool', 'p %s (q %s r)' % (o1, o2)),
                   ('bool', '!p %s q %s !r' % (o1, o2)), ('bool', '!(p %s q) %s r' % (o1, o2)), ('bool', 'a < b %s c == s %s f > g' % (o1, o2)),
                   ('bool', 'p %s a < b %s !q' % (o1, o2)), ('bool', 'p == q %s q != r %s p' % (o1, o2))]
    fs += [('bool', e) for e in ('!p', '!!p', '!(a == b)', '!p == q', 'p == !q', '!p != !q', 'a + 1 < b * 2', 'a & 1 + b', '(a & 1) == 1',
                                 '(a | b) != (c ^ s)', 'a << 1 < b', 'p ? q : r', 'p && (q ? r : p)', '(p ? q : r) || p', '!(p ? q : r)') if e != 'a & 1 + b']
    struct('Bools', fs)
    fs = [('uint32', e) for e in ('lengthof(arr)', 'lengthof(leaf.arr)', 'lengthof(tree.leaves)', 'lengthof(m)', 'lengthof(texts)',
                                  'lengthof(o)', 'lengthof(leaves) + 1', 'numbits(a)', 'numbits(w)', 'numbits(a + 1)', 'numbits(c) * 2',
                                  'valueof(k)', 'valueof(Color.BLUE)', 'valueof(z)', 'valueof(leaf.col) + 1', 'valueof(paint)', 'leaf.lo', 'tree.leaf.lo',
                                  'tree.leaf.getLo()', 'leaf.getLo() + a', 'arr[0]', 'arr[a]', 'arr[a + 1] + arr[b]', 'leaves[0].lo', 'leaves[a].arr[b]',
                                  'tree.leaves[lengthof(arr) - 1].lo', 'leaves[arr[0]].getLo()', 'tree.opt.lo', 'lengthof(tree.leaves[a].arr)',
                                  'numbits(lengthof(arr))', 'valueof(z | Perm.EXEC)', 'tree.leaves[0].getLo()')]
    fs += [('int32', e) for e in ('valueof(depth)', 'valueof(Depth.LOW)', 'leaf.hi', '-valueof(depth)')]
    fs += [('uint64', e) for e in ('leaf.big', 'tree.leaf.big', 'leaves[a].big + 1', 'valueof(y)', 'valueof(Wide.HI)', 'leaf.big >> leaf.lo')]
    fs += [('bool', e) for e in ('isset(z, Perm.READ)', 'isset(z, Perm.READ | Perm.EXEC)', '!isset(z, Perm.WRITE)', 'isset(y, Wide.HI)', 'leaf.isBig()',
                                 'tree.leaf.isBig() && p', 'isset(z | Perm.READ, Perm.WRITE)', 'leaf.col == Color.RED', 'leaves[0].col != k',
                                 'valueof(k) == 5', 'k == Color.RED || k == Color.BLUE', 'z == Perm.READ | Perm.WRITE') if e != 'z == Perm.READ | Perm.WRITE']
    fs += [('string', e) for e in ('m', 'texts[0]', 'p ? m : "none"', '"lit"', '"a" + "b"')]
    fs += [('Color', e) for e in ('k', 'Color.BLUE', 'p ? k : Color.RED', 'leaf.col', 'paint')]
    fs += [('Perm', e) for e in ('z', 'Perm.READ', 'z | Perm.WRITE', 'z & ~Perm.EXEC', 'z ^ Perm.READ', '~z', '(z | Perm.READ) & Perm.WRITE', 'p ? z : Perm.EXEC')]
    fs += [('float64', e) for e in ('f', 'f + g', 'f * 2.5', '-f', 'f / g - h', '(f - g) * h', 'a + f', '1.5', '1.5e3', '1.5E-3f', '0.25f', 'p ? f : g', 'f - -g')]
    fs += [('Leaf', e) for e in ('leaf', 'tree.leaf', 'leaves[0]', 'tree.leaves[a]')]
    struct('Calls', fs)
    lits = ['0', '1', '255', '65535', '4294967295', '4294967296', '9223372036854775807', '9223372036854775808', '18446744073709551615', '0x0', '0xff', '0XFF',
            '0xFFFFFFFF', '0x7FFFFFFFFFFFFFFF', '0xFFFFFFFFFFFFFFFF', '017', '0777', '01777777777777777777777', '0b', '1b', '101B', '11111111b',
            '1111111111111111111111111111111111111111111111111111111111111111b', '2147483647', '2147483648', '0x80000000', '020000000000']
    struct('Literals', [('uint64', x) for x in lits] + [('int64', '-' + x) for x in ('1', '128', '32768', '2147483648', '2147483649', '4294967296',
                        '9223372036854775807', '0x80', '017', '101b', '0x7FFFFFFFFFFFFFFF', '9223372036854775808')] +
           [('string', x) for x in ('""', '"abc"', r'"\n\t\r\f"', r'"quote \" backslash \\ end"', r'"\u0041\u20AC"', r'"\x41\x7e"', r'"\x41bc"', r'"\u00e9t\u00E9"',
                                    '"percent % brace { } dollar $"', "\"apostrophe '\"")])
    consts = [('bool', 'true', 'T'), ('bool', 'false', 'F'), ('bool', '1 < 2', 'Ex')]
    for t, vals in (('uint8', ('0', '255')), ('uint16', ('65535',)), ('uint32', ('4294967295', '0x80000000')), ('uint64', ('18446744073709551615', '1')),
                    ('int8', ('-128', '127')), ('int16', ('-32768',)), ('int32', ('-2147483648', '2147483647')),
                    ('int64', ('-9223372036854775808', '9223372036854775807', '-1')), ('bit:1', ('1',)), ('bit:7', ('127',)), ('bit:8', ('255',)), ('bit:31', ('2147483647',)),
                    ('bit:32', ('4294967295',)), ('bit:63', ('9223372036854775807',)), ('bit:64', ('18446744073709551615',)), ('int:7', ('-64',)), ('int:33', ('-4294967296',)),
                    ('int:64', ('-9223372036854775808',)), ('varint16', ('-16383',)), ('varint32', ('-268435455',)), ('varint64', ('-72057594037927935',)),
                    ('varint', ('-9223372036854775808',)), ('varuint16', ('32767',)), ('varuint32', ('536870911',)), ('varuint64', ('144115188075855871',)),
                    ('varuint', ('18446744073709551615',)), ('varsize', ('2147483647',)), ('float16', ('1.5f',)), ('float32', ('-2.5f', '1e10f')),
                    ('float64', ('3.25', '-1.0e-5')), ('string', ('"text"', '"a" + "b"')), ('Color', ('Color.GREEN',)), ('Paint', ('Color.BLUE',)),
                    ('Depth', ('Depth.LOW',)), ('Perm', ('Perm.READ', 'Perm.READ | Perm.EXEC')), ('Wide', ('Wide.HI',))):
        consts += [(t, v, '%s_%d' % (t.replace(':', '_'), i)) for i, v in enumerate(vals)]
    consts += [('int32', '7 * 6 - 2', 'SUM'), ('uint32', '1 << 5', 'SHIFT'), ('int32', '(7 + 2) * 3', 'PAREN'), ('uint8', '17 % 5', 'MOD'), ('uint8', '17 / 5', 'DIV'),
               ('uint32', '0xF0 | 0x0F', 'BITOR'), ('uint32', '0xFF & 0x3C', 'BITAND'), ('uint32', '0xFF ^ 0x3C', 'BITXOR'), ('int32', '~5', 'TILDE'),
               ('int32', '-(3)', 'NEG'), ('int64', '5 - 10', 'DIFF'), ('uint16', 'C_SUM + 2', 'REF'), ('uint32', 'valueof(Color.GREEN)', 'VALUE'),
               ('uint8', 'C_T ? 3 : 4', 'TERN'), ('string', 'C_STRING_0 + "x"', 'STRREF')]
    for t, v, s in consts:
        out.append('const %s C_%s = %s;' % (t, s.upper(), v))
    open(os.path.join(HERE, 'corpus', 'expr.zs'), 'w').write('\n'.join(out) + '\n')



def enums():
    '''corpus/enums.zs: enumerations and bitmasks over every base type, with every way to state a value.'''
    out = ['package enums;', '', '/* Written by tools/mkcorpus.py: enumerations and bitmasks over every base type. */', '',
           'const int8 FIRST = 3;', 'enum uint8 Base { ONE = 1, SEVEN = 7 };']
    ranges = [('uint8', 0, 255), ('uint16', 0, 65535), ('uint32', 0, 2**32 - 1), ('uint64', 0, 2**64 - 1),
              ('int8', -128, 127), ('int16', -2**15, 2**15 - 1), ('int32', -2**31, 2**31 - 1), ('int64', -2**63, 2**63 - 1),
              ('bit:3', 0, 7), ('bit:8', 0, 255), ('bit:17', 0, 2**17 - 1), ('bit:32', 0, 2**32 - 1), ('bit:33', 0, 2**33 - 1), ('bit:63', 0, 2**63 - 1),
              ('bit:64', 0, 2**64 - 1), ('int:4', -8, 7), ('int:31', -2**30, 2**30 - 1), ('int:64', -2**63, 2**63 - 1),
              ('varint16', -16383, 16383), ('varint32', -2**28 + 1, 2**28 - 1), ('varint64', -2**56 + 1, 2**56 - 1), ('varint', -2**63, 2**63 - 1),
              ('varuint16', 0, 2**15 - 1), ('varuint32', 0, 2**29 - 1), ('varuint64', 0, 2**57 - 1), ('varuint', 0, 2**64 - 1), ('varsize', 0, 2**31 - 1)]
    names = []
    for i, (t, lo, hi) in enumerate(ranges):
        kinds = [('enum', 'Def', ['A', 'B', 'C_D']), ('enum', 'Lim', ['LOW = %d' % lo, 'NEXT', 'HIGH = %d' % hi]),
                 ('enum', 'Mix', ['P = FIRST', '@deprecated Q', '@removed R', 'S = FIRST + 3', 'T = valueof(Base.SEVEN)'])]
        kinds += [('enum', 'Gap', ['A = 5', 'B', 'C = 1' if hi < 9 else 'C = 9', 'D', 'E = 0'])]
        if not lo and hi > 255:
            kinds += [('bitmask', 'Jump', ['A', 'B', 'AB = 3', 'C', 'ODD = 0x15', 'D', 'E = 0x81', 'F', 'BOTH = 0x200 | 7', 'G'])]
        if not lo:
            kinds += [('bitmask', 'Bits', ['A', 'B', 'C']), ('bitmask', 'Full', ['NONE = 0', 'A = 2', 'B', 'TOP = %d' % hi]),
                      ('bitmask', 'Over', ['P = 3', 'Q = valueof(Base.SEVEN)', 'R = 1 << 2 | 1'] if hi > 7 else ['P = 3', 'Q = 7'])]
        for k, n, items in kinds:
            names.append('%s%d' % (n, i))
            out.append('%s %s %s%d { %s };' % (k, t, n, i, ', '.join(items)))
    out.append('struct Holder')
    out.append('{')
    out += ['    %s v%d;' % (n, i) for i, n in enumerate(names)]
    out.append('    packed %s p0[];' % names[0])
    out.append('};')
    open(os.path.join(HERE, 'corpus', 'enums.zs'), 'w').write('\n'.join(out) + '\n')


def shapes():
    """corpus/shapes.zs: initial values under every modifier, and every way for an object to hold a parameterized one."""
    out = [HEAD.replace('package grid;', 'package shapes;').replace('every kind of type under every field modifier in every container',
                                                                      'initial values under every modifier; every route to a parameterized object; every kind of parameter')]
    for tag, t, init in KINDS:
        if init:
            f = ['uint8 n;', 'optional %s opt = %s;' % (t, init), '%s cond = %s if n > 3;' % (t, init), 'align(16): %s ali = %s;' % (t, init),
                 '%s con = %s : n > 2;' % (t, init), 'extend %s exd = %s;' % (t, init), 'extend optional %s exdOpt = %s;' % (t, init),
                 'extend %s exdCond = %s if n < 2;' % (t, init)]
            out.append('struct Ini%s\n{\n    %s\n};\n' % (tag, '\n    '.join(f)))
    out.append('struct TmplIni<T> { T a; optional T b; T c[]; };')
    mids = {
        'Fld': 'struct %s { uint8 n; Par(n) x; };', 'Arr': 'struct %s { uint8 n; Par(n) x[]; };', 'Opt': 'struct %s { uint8 n; optional Par(7) x; };',
        'Cond': 'struct %s { uint8 n; Par(n) x if n > 1; };', 'Pck': 'struct %s { uint8 n; packed Par(n) x[n]; };', 'Uni': 'union %s { uint8 a; Par(3) x; };',
        'UniA': 'union %s { uint8 a; Par(3) x[]; };', 'Cho': 'choice %s(uint8 n) on n { case 1: uint8 a; case 2: Par(n) x; };',
        'ChoA': 'choice %s(uint8 n) on n { case 1: uint8 a; default: Par(n) x[2]; };', 'Tmp': 'struct %s { uint8 n; TmplIni<ParSub> x; };',
        'Exd': 'struct %s { uint8 n; extend Par(n) x; };', 'Two': 'struct %s { uint8 n; uint8 a; Leaf l; Par(a) x; Par(n) y[]; Leaf m[]; };',
    }
    out.append('struct ParSub { Par(5) p; };')
    for m, text in mids.items():
        out.append(text % ('Mid' + m))
        if m == 'Exd':
            continue  # what has extended fields cannot be a field
        t = 'Mid%s' % m + ('(k)' if m.startswith('Cho') else '')
        out.append('struct OutFld%s { uint8 k; %s x; };' % (m, t))
        out.append('struct OutArr%s { uint8 k; %s x[]; };' % (m, t))
        out.append('struct OutOpt%s { uint8 k; optional %s x; };' % (m, t))
        out.append('struct OutOptArr%s { uint8 k; %s x[3] if k > 2; };' % (m, t))
        out.append('struct OutPck%s { uint8 k; packed %s x[k]; };' % (m, t))
        out.append('struct OutExd%s { uint8 k; extend %s x; extend optional %s y[]; };' % (m, t, t))
        out.append('choice OutCho%s(uint8 k) on k { case 1: uint8 a; case 3: %s x; default: %s y[]; };' % (m, t, t))
        if m.startswith('Cho'):
            t = t.replace('(k)', '(4)')
            out.append('union OutUni%s { uint8 a; %s x; %s y[]; };' % (m, t, t))
        else:
            out.append('union OutUni%s { uint8 a; %s x; %s y[]; };' % (m, t, t))
            out.append('struct OutTmp%s { uint8 k; TmplIni<%s> x; };' % (m, t))
            out.append('struct OutSub%s { SubMid%s x[]; };\nsubtype %s SubMid%s;' % (m, m, t, m))
    # only the inner array makes the outer one need its children initialized
    out.append('struct Deep1 { OutArrArr x; };\nstruct Deep2 { Deep1 x[]; };\nstruct Deep3 { optional Deep2 x; };\nunion Deep4 { Deep3 x[]; uint8 b; };\nstruct Deep5 { uint8 z; Deep4 x[2]; };')
    # kinds of parameters
    params = [('Bool', 'bool'), ('U8', 'uint8'), ('U16', 'uint16'), ('U32', 'uint32'), ('U64', 'uint64'), ('S8', 'int8'), ('S16', 'int16'), ('S32', 'int32'),
              ('S64', 'int64'), ('B5', 'bit:5'), ('B33', 'bit:33'), ('B63', 'bit:63'), ('I12', 'int:12'), ('V16', 'varint16'), ('V64', 'varint64'), ('W32', 'varuint32'),
              ('WI', 'varuint'), ('VS', 'varsize'), ('F16', 'float16'), ('F32', 'float32'), ('F64', 'float64'), ('Str', 'string'), ('E8', 'Color'),
              ('EV', 'VarKind'), ('P8', 'Perm'), ('PV', 'PermVar'), ('Leaf', 'Leaf'), ('Par', 'Par'), ('Uni', 'Either'), ('SubU', 'SubU'), ('SubE', 'SubE'), ('SubL', 'SubL'), ('SubS', 'SubS')]
    for tag, t in params:
        args = 'Par(n)' if tag == 'Par' else t
        out.append('struct Prm%s(%s p, uint8 n) { uint8 a if n > 1; Leaf q[]; };' % (tag, t))
        out.append('choice PrmCho%s(uint8 n, %s p) on n { case 1: Prm%s(p, n) x; default: Prm%s(p, 5) y[]; };' % (tag, t, tag, tag))
        out.append('union PrmUni%s(%s p) { Prm%s(p, 3) x; uint8 b; PrmCho%s(2, p) y[]; };' % (tag, t, tag, tag))
        out.append('struct PrmUse%s { uint8 n; %s v; Prm%s(v, n) a; optional Prm%s(v, 4) b[]; packed PrmCho%s(n, v) c[n]; PrmUni%s(v) d; };' % (tag, args, tag, tag, tag, tag))
        out.append('struct PrmArr%s { uint8 n; %s v[2]; Prm%s(v[0], n) a; Prm%s(v[@index], n) b[2]; };' % (tag, args, tag, tag))
    open(os.path.join(HERE, 'corpus', 'shapes.zs'), 'w').write('\n'.join(out) + '\n')


expressions()
enums()
shapes()
