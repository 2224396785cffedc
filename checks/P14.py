from vlib import *


def run(c):
    c.mc('DataArraysModel', 'DataArraysModel' if c.quick else 'DataArraysModelBig', workers=8, timeout=3000)
    exe = build(['p12_shape'], first=HEAVY) + '/p12_shape'
    n, k = (800, 4) if c.quick else (4000, 24)
    tr = []
    for mode in ('slice', 'label'):
        tr += c.drive_many(exe, [(mode, n, i) for i in range(k)], prefix=mode)
    c.validate('DatasetTrace', tr, timeout=3000)


main(run, 'P14')
