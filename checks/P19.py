from vlib import *


def run(c):
    c.mc('GroupModel', 'GroupModel' if c.quick else 'GroupModelBig', workers=8, timeout=3000)
    exe = build(['p19_groupby'], first=HEAVY) + '/p19_groupby'
    n, k = (500, 4) if c.quick else (4000, 16)
    tr = []
    for mode in ('dense', 'binned', 'dataset'):
        tr += c.drive_many(exe, [(mode, n, i) for i in range(k)], prefix=mode)
    tr += c.drive_many(exe, [('long', 4 if c.quick else 20, i) for i in range(2)], prefix='large')
    c.validate('GroupTrace', tr, timeout=3000)


main(run, 'P19')
