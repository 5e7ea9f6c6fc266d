"""Replays sequences of cache operations."""
from drv.util import *


def run(sc, ev):
    rnd = random.Random(sc['seed'])
    cache = C('Cache')()
    vals = {}

    def key(k):
        ls = [sc['labels'][i - 1] for i in k]
        rnd.shuffle(ls)
        return set(ls)
    for o in sc['ops']:
        e = dict(a=o['a'], key=o['key'])
        if o['a'] == 'put':
            v = vals[o['val']] = C('SetOfCims')('X', [], 2, [[]])
            e['val'] = o['val']
            k = key(o['key'])
            _, e['err'] = attempt(lambda: cache.put(k, v))
            if sc['spoil']:
                vals[-o['val']] = k          # the caller keeps its set alive
        elif o['a'] == 'find':
            r, e['err'] = attempt(lambda: cache.find(key(o['key'])))
            e['got'] = 0 if r is None else next((i for i, v in vals.items() if v is r), -1)
        else:
            _, e['err'] = attempt(cache.clear)
        ev.append(e)
    return {}
