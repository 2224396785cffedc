from vlib import *


def run(c):
    with cf.ThreadPoolExecutor(2) as ex:
        m = ex.submit(c.mc, 'MultiIndexModel', 'MultiIndexModel' if c.quick else 'MultiIndexModel3', workers=4)
        g = c.gen('MultiIndexModel', 'MultiIndexGen')
        b = build(['p02_iter'], kind='asan', vflags=ASAN)
        m.result()
    exe = b + '/p02_iter'
    tr = c.drive_many(exe, [('gen', g, f'{i}/8') for i in range(8)], prefix='gen')
    k, n = (8, 1) if c.quick else (24, 4)
    tr += c.drive_many(exe, [('dense', 150 * n, i) for i in range(k)], prefix='dense')
    tr += c.drive_many(exe, [('view', 250 * n, i) for i in range(k)], prefix='view')
    tr += c.drive_many(exe, [('binned', 150 * n, i) for i in range(k)], prefix='binned')
    c.validate('IterationTrace', tr)


main(run, 'P02')
