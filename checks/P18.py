from vlib import *


def run(c):
    c.mc('HistModel', 'HistModel' if c.quick else 'HistModelBig', workers=8, timeout=3000)
    exe = build(['p18_hist'], first=HEAVY) + '/p18_hist'
    n, k = (300, 4) if c.quick else (3000, 16)
    tr = []
    for mode in ('hist', 'hbin', 'rebin', 'lookup', 'scale'):
        tr += c.drive_many(exe, [(mode, n, i) for i in range(k)], prefix=mode)
    tr += c.drive_many(exe, [('long', 4 if c.quick else 20, i) for i in range(2)], prefix='large')
    c.validate('HistTrace', tr, timeout=3000)


main(run, 'P18')
