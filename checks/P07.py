from vlib import *


def run(c):
    c.mc('SpatialModel', workers=8)
    progs = c.gen('SpatialModel', 'SpatialGen')
    exe = build(['p07_spatial'], pch=True, first=HEAVY) + '/p07_spatial'
    m = 1 if c.quick else 10
    tr = []
    for mode in ('programs', 'random', 'parts'):
        tr += c.drive_many(exe, [(mode, f'{i}/8', m, progs) for i in range(8)] if mode != 'parts' or not c.quick else [(mode, '0/1', 2, progs)], prefix=mode)
    c.validate('SpatialTrace', tr)


main(run, 'P07')
