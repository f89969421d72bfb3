"""Which rules decide which property."""
import wirerules as w
import guardrules as g
import eqrules as e
import staterules as s
import rtrules as r
import exprrules as x
import enumrules as n
import arrayrules as arr
import typeinforules as t
import bindrules as b
import sqlrules as q
import netrules as net
import report
import props

L = report.per_language
A = r.per_runtime


def both(*funcs):
    def run(c):
        for f in funcs:
            f(c)
    return run


FUNCS = {
    'G09': L(x.both, (('function', 3500), ('constant', 180))),
    'G10': L(n.tables, (('item-value', 400), ('item-of-name', 700), ('item-of-value', 700), ('removed-item', 900), ('traits', 80), ('ordinal', 300))),
    'G01': L(w.writer, (('write', 1800), ('write-packed', 800))),
    'G02': L(w.reader, (('read', 1800), ('read-packed', 800))),
    'G03': L(w.sizes, (('bitsizeof', 1800), ('bitsizeof-packed', 800), ('initialize-offsets', 1800), ('initialize-offsets-packed', 800))),
    'G04': L(w.contexts, (('init-packing-context', 800),)),
    'G05': L(g.checks, (('checks-write', 7000), ('checks-read', 3000), ('check-order', 2000))),
    'G06': L(e.equality, (('equality', 1500), ('equality-type', 2000), ('order', 250), ('hash', 1500))),
    'G07': L(s.accessors, (('getter', 9000), ('setter', 9000), ('presence', 5000), ('constructor', 8000), ('choice-tag', 250), ('initial-value', 100))),
    'G11': L(t.described, (('type-name', 7500), ('type-kind', 6100), ('field-list', 6100), ('field-type', 26000), ('field-flag', 130000),
                          ('field-expression', 180000), ('accessor-names', 17000), ('parameters', 6100), ('function-list', 6100), ('function-info', 3500),
                          ('underlying-type', 1300), ('item-info', 1300), ('selector', 680), ('cases', 680), ('template-arguments', 300))),
    'G12': L(b.binds, (('python-import', 2800), ('python-assigned', 16000), ('python-name', 42000), ('python-annotation', 30000), ('python-member', 90000),
                       ('python-call', 7500), ('python-import-order', 950), ('java-unit', 560), ('cpp-unit', 470))),
    'G13': L(both(q.sql, net.dbs), (('create-table', 70), ('select', 340), ('read-columns', 340), ('read-value', 1000), ('read-null', 500), ('insert', 340),
                       ('update', 340), ('write-value', 2600), ('write-null', 12500), ('database-createSchema', 6), ('database-deleteSchema', 6),
                       ('database-table', 36), ('database-made', 24), ('database-names', 4))),
    'G14': L(net.net, (('service-names', 12), ('service-unknown', 6), ('service-dispatch', 22), ('service-request', 22), ('service-response', 22),
                       ('service-context', 44), ('client-call', 22), ('client-request', 22), ('client-response', 22), ('publish-exists', 25),
                       ('publish-topic', 16), ('publish-data', 16), ('pubsub-context', 32), ('subscribe-exists', 25), ('subscribe-topic', 16),
                       ('subscribe-id', 16), ('subscribe-data', 10))),
    'R01': A(r.varints, (('varint-write', 50), ('varint-read', 24), ('varint-size', 24)), shards=3),
    'R02': A(r.io, (('bits-write', 2200), ('bits-read', 2200), ('bytes-write', 90), ('bytes-read', 90), ('bitbuffer-read', 100)), shards=3),
    'R03': A(r.bounds, (('bits-truncated', 2500), ('varint-truncated', 450), ('range-check', 400), ('capacity', 400)), shards=3),
    'R04': A(r.floats, (('float16-from-float', 1), ('float16-to-float', 1)), shards=2),
    'R05': A(r.content, (('hash-value', 15), ('hash-array', 15), ('bitbuffer-equality', 200), ('hash-absent', 30), ('hash-boxed', 7), ('hash-sequence', 6), ('bitbuffer-order', 40)), shards=3),
    'R06': A(r.helpers, (('bitfield-bounds', 300), ('numbits', 4), ('bytes-size', 25), ('bitbuffer-size', 20), ('align-position', 100), ('size-conversion', 100), ('isset', 6)), shards=1),
    'R07': A(arr.arrays, (('array-write', 1800), ('array-read', 1800), ('array-size', 1800), ('array-offsets', 1800), ('array-truncated', 650), ('packed-write', 2000),
                         ('packed-read', 3400), ('packed-size', 1900), ('packed-offsets', 1900), ('array-equality', 500)), shards=8, unit=arr.A.cpp_unit),
    'G08': L(s.copies, (('copy', 1800), ('copy-complete', 300), ('copy-initialized', 400), ('children', 150), ('copy-children', 400)), ('cpp',)),
}
PROPS = {p['id']: (FUNCS[p['id']], p['level'], p['tech']) for p in props.PROPS if p['id'] in FUNCS}
