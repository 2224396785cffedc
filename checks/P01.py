from vlib import *


def run(c):
    c.mc('DimRegistryImpl', 'DimRegistryImpl')
    c.mc('DimRegistryImpl', 'DimRegistryImpl3')
    c.mc('DimRegistryImpl', 'DimRegistryRacy', expect_violation='Invariant Interned is violated')
    g2 = c.gen('DimRegistryImpl', 'DimRegistryGen2', name='gen2')
    g3 = c.gen('DimRegistryImpl', 'DimRegistryGen3', name='gen3')
    b = build(['p01_sched', 'p01_seq'])
    pre, ns = (2, 16) if c.quick else (3, 96)
    tr = c.drive_many(b + '/p01_sched', [(g2, f'{i}/{ns}', 100000, pre) for i in range(ns)], prefix='two')
    tr += c.drive_many(b + '/p01_sched', [(g3, f'{i}/{ns}', 100000, pre) for i in range(ns)], prefix='three')
    tr += c.drive_many(b + '/p01_seq', [('seq',), ('limit',)], prefix='seq')
    bt = build(['p01_seq'], kind='tsan', vflags='-fsanitize=thread -g1')
    tr += c.drive_many(bt + '/p01_seq', [('threads', 60 if c.quick else 600)] * 2, prefix='tsan',
                       env={'TSAN_OPTIONS': 'halt_on_error=1 exitcode=66'})
    c.validate('DimRegistryTrace', tr)


main(run, 'P01')
