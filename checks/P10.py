from vlib import *


def run(c):
    exe = build(['p09_views'], first=HEAVY) + '/p09_views'
    g = c.gen('ViewsGen', 'ArithGen')
    tr = c.drive_many(exe, [('gen', g, f'{i}/8') for i in range(8)], prefix='gen')
    n, k = (600, 8) if c.quick else (5000, 32)
    tr += c.drive_many(exe, [('arith', n, i) for i in range(k)], prefix='rand')
    c.validate('ViewsTrace', tr, timeout=3000)


main(run, 'P10')
