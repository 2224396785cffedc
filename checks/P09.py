from vlib import *


def run(c):
    c.mc('ViewsGen', 'ViewsModel' if c.quick else 'ViewsModelBig', workers=8)
    g = c.gen('ViewsGen', 'ViewsGen')
    exe = build(['p09_views'], first=HEAVY) + '/p09_views'
    tr = c.drive_many(exe, [('gen', g, f'{i}/8') for i in range(8)], prefix='gen')
    if not c.quick:
        g3 = c.gen('ViewsGen', 'ViewsGenBig', name='gen3', timeout=3000, heap='12g')
        tr += c.drive_many(exe, [('gen', g3, f'{i}/32') for i in range(32)], prefix='gen3', timeout=900)
    n, k = (300, 8) if c.quick else (3000, 32)
    tr += c.drive_many(exe, [('views', n, i) for i in range(k)], prefix='rand')
    c.validate('ViewsTrace', tr, timeout=3000)


main(run, 'P09')
