from vlib import *


def run(c):
    c.mc('RecordsModel', 'RecordsModel' if c.quick else 'RecordsModelBig', workers=8, timeout=3000)
    exe = build(['p20_records'], first=HEAVY) + '/p20_records'
    n, k = (1200, 2) if c.quick else (6000, 16)
    tr = []
    for mode in ('sort', 'extract', 'test'):
        tr += c.drive_many(exe, [(mode, n, i) for i in range(k)], prefix=mode)
    tr += c.drive_many(exe, [('long', 12 if c.quick else 200, i) for i in range(k)], prefix='long')
    c.validate('RecordsTrace', tr, timeout=3000)


main(run, 'P20')
