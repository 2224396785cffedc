from vlib import *


def run(c):
    c.mc('OrderedDict')
    g = c.gen('OrderedDictGen')
    b = build(['p04_dict'], kind='asan', vflags=ASAN)
    k = 8 if c.quick else 16
    tr = c.drive_many(b + '/p04_dict', [('gen', g, f'{i}/8') for i in range(8)], prefix='gen')
    tr += c.drive_many(b + '/p04_dict', [('rand', i, 100 if c.quick else 800, 60) for i in range(k)], prefix='rand')
    c.validate('OrderedDictTrace', tr)


main(run, 'P04')
