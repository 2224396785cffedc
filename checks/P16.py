from vlib import *


def run(c):
    c.mc('EventsModel', 'EventsModel' if c.quick else 'EventsModelBig', workers=8, timeout=3000)
    exe = build(['p16_events'], first=HEAVY) + '/p16_events'
    n, k = (500, 4) if c.quick else (4000, 16)
    tr = []
    for mode in ('dense', 'binned', 'chain'):
        tr += c.drive_many(exe, [(mode, n, i) for i in range(k)], prefix=mode)
    tr += c.drive_many(exe, [(m, 4 if c.quick else 20, i) for m in ('many', 'long') for i in range(2)], prefix='large')
    c.validate('EventsTrace', tr, timeout=3000)


main(run, 'P16')
