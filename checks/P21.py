from vlib import *


def run(c):
    c.mc('EqualityModel', 'EqualityModel' if c.quick else 'EqualityModelBig', workers=8, timeout=3000)
    c.mc('EqualityModel', 'EqualityModelMeta', workers=8, timeout=3000)
    exe = build(['p21_equality'], first=HEAVY) + '/p21_equality'
    n, k = (1500, 2) if c.quick else (8000, 16)
    tr = []
    for mode in ('var', 'array', 'set', 'copy'):
        tr += c.drive_many(exe, [(mode, n, i) for i in range(k)], prefix=mode)
    c.validate('EqualityTrace', tr, timeout=3000)


main(run, 'P21')
