from vlib import *


def run(c):
    c.mc('MetaModel', 'MetaModel', workers=8, timeout=3000)
    if not c.quick:
        c.mc('MetaModel', 'MetaModelBig', workers=8, timeout=3000)
    exe = build(['p13_meta'], first=HEAVY) + '/p13_meta'
    n, k = (450, 2) if c.quick else (1500, 24)
    tr = []
    for mode in ('mixed', 'array', 'dataset', 'long'):
        tr += c.drive_many(exe, [(mode, n // 4 if mode == 'long' else n, i) for i in range(k)], prefix=mode)
    c.validate('MetaTrace', tr, timeout=3000)


main(run, 'P13')
