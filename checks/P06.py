from vlib import *


def run(c):
    c.mc('UncertainModel', workers=8)
    exe = build(['p06_numeric'], kind='asan', vflags=ASAN) + '/p06_numeric'
    m = 1 if c.quick else 12
    tr = []
    for mode in ('vv', 'vs', 'int', 'seq'):
        n = 8 if mode == 'vv' else 4 if c.quick else 16
        tr += c.drive_many(exe, [(mode, f'{i}/{n}', m) for i in range(n)], prefix=mode)
    c.validate('NumericTrace', tr)


main(run, 'P06')
