"""P22 driver: runs scipp's transform_coords on generated coordinate graphs and
records what it does: every kernel call with the terms it received, and the
resulting coords, alignment flags, dimensions or error.
usage: p22_coords.py REPO MODE i/n COUNT [PROGRAMS]"""
import functools
import itertools
import json
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import fakescipp as fs  # noqa: E402

repo, mode, shard, count = sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4])
fs.install(repo + '/src/scipp')
import importlib  # noqa: E402

try:
    tc = importlib.import_module('scipp.coords.transform_coords')
except Exception as e:  # cannot judge
    print('cannot import', repr(e), file=sys.stderr)
    sys.exit(77)
import logging  # noqa: E402
logging.getLogger('scipp').addHandler(logging.NullHandler())
logging.getLogger('scipp').setLevel(logging.DEBUG)
logging.getLogger('scipp').propagate = False
si, sn = map(int, shard.split('/'))
rng = random.Random(int(os.environ.get('VERIF_SEED', '1')) * 1009 + si * 17 + len(mode))
out = open(os.environ['TRACE_OUT'], 'w')


def emit(o):
    out.write(json.dumps(o) + '\n')


calls = []


def make_kernel(rule, style):
    rid, ins, outs = rule['id'], rule['ins'], rule['outs']

    def body(args):  # args: in order of ins
        calls.append({'op': 'call', 'r': rid, 'args': [a.term for a in args], 'mode': 'e' if any(a.binned for a in args) else 'd'})
        dims = []
        for a in args:
            dims += [d for d in a.dims if d not in dims]
        binned = any(a.binned for a in args)
        t = rid + '(' + ','.join(a.term for a in args) + ')'
        if len(outs) == 1 and not rule['dict']:
            return fs.Variable(t, dims, binned)
        res = {o: fs.Variable(t + '#' + o, dims, binned) for o in outs if o not in rule.get('omit', ())}
        if rule.get('extra'):
            res['zz_' + rid] = fs.Variable(t + '#zz', dims, binned)
        return res
    names = list(ins)
    keys = None
    if style in ('keys', 'keyscls', 'keysdefault', 'keyskw'):
        names = [f'arg{i}' for i in range(len(ins))]
        keys = list(ins) if style == 'keys' else tuple(ins)
    ns = {'body': body}
    sig = ', '.join(names)
    call = f'body([{sig}])'
    if style in ('kwonly', 'keyskw') and names:
        k = rng.randrange(len(names))
        sig = ', '.join(names[:k] + ['*'] + names[k:])
    if style in ('callable', 'keyscls'):
        exec(f'class K:\n    def __call__(self{", " + sig if sig else ""}):\n        return {call}\n', ns)
        f = ns['K']()
        f.__name__ = rid
    elif style == 'lambda':
        f = eval(f'lambda {sig}: {call}', ns)
    elif style == 'partial':
        exec(f'def k(bound{", " + sig if sig else ""}):\n    assert bound == 1\n    return {call}\n', ns)
        f = functools.partial(ns['k'], 1)
        f.__name__ = rid
    else:
        exec(f'def k({sig}):\n    return {call}\n', ns)
        f = ns['k']
    if keys is not None:
        f.__transform_coords_input_keys__ = keys
    return f


STYLES = ['plain', 'lambda', 'keys', 'kwonly', 'callable', 'keyscls', 'keysdefault', 'keyskw', 'partial']


def build(cfg):
    idx = 'orig' if cfg.get('sliced') else 'dense'
    buf = None
    if cfg['binned']:
        c = fs.Coords()
        for e in cfg['coords']:
            if e['event']:
                c[e['n']] = fs.Variable(e['n'] + '.e', cfg['dims'], True, idx)
                c.set_aligned(e['n'], e['al'])
        buf = fs.Buffer(c)
    da = fs.DataArray(fs.Data(cfg['dims'], buf, idx))
    for e in cfg['coords']:
        if e['dense']:
            da.coords[e['n']] = fs.Variable(e['n'] + '.d', e['dd'], False)
            da.coords.set_aligned(e['n'], e['al'])
    return da


def snap(da):
    return (da.dims, da.coords.snapshot(), None if da.data.buffer is None else da.data.buffer.coords.snapshot())


def dump(da):
    names = set(da.coords.keys()) | (set(da.data.buffer.coords.keys()) if da.data.buffer is not None else set())
    r = []
    for n in sorted(names):
        e = {'n': n, 'd': '', 'e': '', 'dd': [], 'al': False, 'eal': False}
        if n in da.coords:
            v = da.coords[n]
            e.update(d=v.term, dd=sorted(v.dims), al=da.coords.is_aligned(n))
        if da.data.buffer is not None and n in da.data.buffer.coords:
            v = da.data.buffer.coords[n]
            e.update(e=v.term, eal=da.data.buffer.coords.is_aligned(n))
        r.append(e)
    return r


def run(cfg):
    del calls[:]
    style = cfg.pop('style', 'plain')
    form = cfg.pop('form', 'graph')
    graph = {}
    for r in cfg['rules']:
        key = r['outs'][0] if len(r['outs']) == 1 and rng.random() < .9 else tuple(r['outs'])
        st = style if style != 'mix' else rng.choice(STYLES)
        graph[key] = r['ins'][0] if r['kind'] == 'rename' else make_kernel(r, st)
    gcopy = dict(graph)
    nitems = cfg.pop('items', 0)
    opt = cfg['opt']
    kw = dict(rename_dims=opt['rd'], keep_aliases=opt['ka'], keep_intermediate=opt['ki'], keep_inputs=opt['kin'], quiet=rng.random() < .7)
    das = [build(cfg) for _ in range(max(1, nitems))]
    before = [snap(d) for d in das]
    if nitems:
        x = fs.Dataset({f'i{k}': d for k, d in enumerate(das)})
        x.on_item = lambda k: calls.append({'op': 'item', 'k': k})
    else:
        x = das[0]
    targets = list(cfg['targets'])
    err, res = '', None
    try:
        if form == 'kwargs':
            res = tc.transform_coords(x, **kw, **{r['outs'][0]: v for r, v in zip(cfg['rules'], graph.values())})
        else:
            if form == 'str':
                t = targets[0]
            else:
                rng.shuffle(targets)
                t = rng.choice([list, tuple, set, lambda z: dict.fromkeys(z).keys()])(targets)
            res = tc.transform_coords(x, t, graph=graph, **kw)
    except KeyError:
        err = 'missing'
    except fs.DimensionError:
        err = 'rename'
    except ValueError as e:
        err = 'cycle' if type(e).__name__ == 'CycleError' else 'value'
    except TypeError:
        err = 'type'
    except fs.FakeGap as e:
        print('stand-in lacks', e, file=sys.stderr)
        sys.exit(77)
    except Exception as e:
        err = 'other:' + type(e).__name__
    intact = [snap(d) for d in das] == before and list(graph.items()) == list(gcopy.items())
    segs = [list(calls)]
    if nitems:
        segs = []
        for c in calls:
            if c['op'] == 'item':
                segs.append([])
            else:
                segs[-1].append(c)
        if not segs:
            segs = [[]]
    for k, seg in enumerate(segs):
        emit({'op': 'begin', **cfg, 'form': form})
        for c in seg:
            emit(c)
        o = {'op': 'end', 'err': err, 'intact': intact, 'dims': [], 'coords': []}
        if not err:
            d = res if not nitems else res._items[f'i{k}']
            o.update(dims=list(d.dims), coords=dump(d))
        emit(o)
    if nitems and not err:
        emit({'op': 'items', 'n': nitems, 'got': len(res._items), 'runs': len(segs)})


def coord(n, dense=True, dd=(), event=False, al=True):
    return {'n': n, 'dense': dense, 'dd': list(dd), 'event': event, 'al': al}


def opts(k):
    return {'rd': bool(k & 1), 'ka': bool(k & 2), 'ki': bool(k & 4), 'kin': bool(k & 8)}


def rand_cfg():
    n = rng.randint(2, 7)
    names = list('abcdefg')[:n]
    rng.shuffle(names)
    binned = rng.random() < .35
    ndims = rng.randint(1, min(3, n))
    nin = rng.randint(1, max(1, n - 1))
    inputs, rest = names[:nin], names[nin:]
    dims = [x for x in inputs if rng.random() < .6][:ndims] or inputs[:1]
    if rng.random() < .15 and rest:
        dims = dims + [rng.choice(rest)]
    if rng.random() < .2:
        dims = dims + ['z']
    coords = []
    for x in inputs:
        ev = binned and rng.random() < .6
        de = not ev or rng.random() < .5
        dd = [x] if x in dims and rng.random() < .9 else [d for d in dims if rng.random() < .5]
        coords.append(coord(x, de, dd if de else [], ev, rng.random() < .8))
    rules, k, avail = [], 0, list(inputs)
    todo = list(rest)
    while todo:
        m = 1 if len(todo) == 1 or rng.random() < .75 else 2
        outs, todo = todo[:m], todo[m:]
        cyc = rng.random() < .04
        pool = names if cyc else avail
        if rng.random() < .25:
            r = {'id': f'r{k}', 'kind': 'rename', 'outs': outs, 'ins': [rng.choice(pool)]}
        else:
            ins = rng.sample(pool, min(len(pool), rng.randint(1, 3)))
            r = {'id': f'r{k}', 'kind': 'fn', 'outs': outs, 'ins': ins}
            if m > 1 and rng.random() < .08:
                r['omit'] = [rng.choice(outs)]
            if rng.random() < .1:
                r['extra'] = True
        k += 1
        if rng.random() < .95:
            rules.append(r)
        avail += outs
    # a rule for something that exists already
    if rng.random() < .3 and inputs and not binned:
        x = rng.choice(inputs)
        others = [y for y in inputs if y != x]
        if others and not any(x in r['outs'] for r in rules):
            rules.append({'id': f'r{k}', 'kind': 'fn', 'outs': [x], 'ins': [rng.choice(others)]})
    rng.shuffle(rules)
    if rng.random() < .03 and rules:  # a second rule for the same output
        rules.append({'id': f'r{k}x', 'kind': 'fn', 'outs': [rng.choice(rules[0]['outs']), 'y'], 'ins': [rng.choice(inputs)]})
        rng.shuffle(rules)
    for r in rules:
        r.setdefault('omit', [])
        r['dict'] = r['kind'] == 'fn' and rng.random() < .2
        if r['dict'] and len(r['outs']) == 1 and rng.random() < .1:
            r['omit'] = list(r['outs'])
    t = rng.sample(names, rng.randint(1, min(3, n)))
    if rest and rng.random() < .7:
        t = list(dict.fromkeys(t + [rest[-1]]))
    cfg = {'binned': binned, 'sliced': binned and rng.random() < .3, 'dims': dims, 'coords': coords, 'rules': rules, 'targets': t, 'opt': opts(rng.randrange(16))}
    cfg['style'] = rng.choice(STYLES + ['mix', 'mix'])
    if len(t) == 1 and rng.random() < .5:
        cfg['form'] = 'str'
    elif rng.random() < .15 and rules and all(len(r['outs']) == 1 for r in rules) and len({r['outs'][0] for r in rules}) == len(rules):
        cfg['form'] = 'kwargs'
        cfg['targets'] = [r['outs'][0] for r in rules]
    if rng.random() < .12:
        cfg['items'] = rng.randint(1, 3)
    return cfg


if mode == 'random':
    for _ in range(count):
        run(rand_cfg())
elif mode == 'programs':
    for k, line in enumerate(open(sys.argv[5])):
        if k % sn == si:
            p = json.loads(json.loads(line))
            for o in rng.sample(range(16), count):
                p['opt'] = opts(o)
                if count == 1 and rng.random() < .3:
                    p['opt'] = opts(1)
                run({**p, 'style': rng.choice(STYLES)})
out.close()
