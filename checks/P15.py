from vlib import *


def run(c):
    c.mc('LabelledModel', 'LabelledModel', workers=8, timeout=3000)
    if not c.quick:
        c.mc('LabelledModel', 'LabelledModelBig', workers=8, timeout=3000)
        c.mc('LabelledModel', 'LabelledModelEdges', workers=8, timeout=3000)
    exe = build(['p15_labelled'], first=HEAVY) + '/p15_labelled'
    n, k = (800, 2) if c.quick else (6000, 16)
    tr = []
    for mode in ('array', 'inplace', 'dataset', 'dsinplace'):
        tr += c.drive_many(exe, [(mode, n, i) for i in range(k)], prefix=mode)
    c.validate('LabelledTrace', tr, timeout=3000)


main(run, 'P15')
