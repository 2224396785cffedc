from vlib import *


def run(c):
    c.mc('ShapesModel', 'ShapesModel' if c.quick else 'ShapesModelBig', workers=8)
    g = c.gen('ShapesGen')
    b = build(['p03_shapes'], kind='asan', vflags=ASAN)
    exe = b + '/p03_shapes'
    tr = c.drive_many(exe, [('gen', g, f'{i}/8') for i in range(8)], prefix='gen')
    tr += c.drive_many(exe, [('pairs', f'{i}/8') for i in range(8)], prefix='pairs')
    k = 8 if c.quick else 32
    tr += c.drive_many(exe, [('rand', 4 if c.quick else 25, i) for i in range(k)], prefix='rand')
    c.validate('ShapesTrace', tr)


main(run, 'P03')
