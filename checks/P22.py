import glob
from vlib import *


def run(c):
    c.mc('CoordModel', workers=8)
    if not c.quick:
        c.mc('CoordModel', 'CoordModelBig', workers=8, timeout=3000)
    g = c.gen('CoordGen')
    drv = f'{VERIF}/harness/py/p22_coords.py'
    k = 3 if c.quick else 16
    tr = c.drive_many('python3', [('-B', drv, REPO, 'programs', f'{i}/8', k, g) for i in range(8)], prefix='gen', timeout=120)
    tr += c.drive_many('python3', [('-B', drv, REPO, 'random', f'{i}/8', 5000 if c.quick else 60000) for i in range(8)], prefix='rand', timeout=120 if c.quick else 900)
    c.validate('CoordTrace', tr)


main(run, 'P22')
