from vlib import *


def run(c):
    c.mc('ElementArray')
    g = c.gen('ElementArrayGen')
    b = build(['p05_element_array'], kind='asan', vflags=ASAN)
    tr = c.drive_many(b + '/p05_element_array', [('gen', g, f'{i}/8') for i in range(8)], prefix='gen')
    k = 8 if c.quick else 32
    tr += c.drive_many(b + '/p05_element_array', [('rand', i, 60 if c.quick else 400, 60) for i in range(k)], prefix='rand')
    c.validate('ElementArrayTrace', tr)


main(run, 'P05')
