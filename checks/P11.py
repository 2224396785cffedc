from vlib import *


def run(c):
    c.mc('ReduceModel', 'ReduceModel' if c.quick else 'ReduceModelBig', workers=8)
    exe = build(['p11_reduce'], first=HEAVY) + '/p11_reduce'
    m = 1 if c.quick else 8
    tr = []
    for mode, n, k in (('var', 2500, 4), ('array', 2500, 4), ('bin', 2500, 4), ('scan', 1500, 2), ('big', 60, 8)):
        tr += c.drive_many(exe, [(mode, n, i) for i in range(k * m)], prefix=mode)
    c.validate('ReduceTrace', tr, timeout=3000)


main(run, 'P11')
