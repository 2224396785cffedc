from vlib import *


def run(c):
    c.mc('DataArraysModel', 'DataArraysModel' if c.quick else 'DataArraysModelBig', workers=8, timeout=3000)
    bin = build(['p12_shape', 'p09_views'], first=HEAVY)
    n, k = (700, 2) if c.quick else (4000, 16)
    tr = []
    for mode in ('concat', 'fold', 'flatten', 'misc'):
        tr += c.drive_many(bin + '/p12_shape', [(mode, n, i) for i in range(k)], prefix=mode)
    c.validate('DatasetTrace', tr, timeout=3000)
    tr = c.drive_many(bin + '/p09_views', [('shape', 400 if c.quick else 3000, i) for i in range(8)], prefix='views')
    c.validate('ViewsTrace', tr, timeout=3000)


main(run, 'P12')
