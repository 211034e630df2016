"""driver: the merge of client and server changes"""
import copy, itertools
NAMES = [['/a', '/b.txt', '/c'], ['/a', '/d/a', '/d/e/a'], ['/x.b', '/x.a', '/y'], ['/ä ö', '/a:b', '/.h'], ['/d/f.tar.gz', '/d/f', '/d.d/f']]

def entry(path, st, side):
    return {'path': path, 'status': st, 'hash': side + path} if side == 's' else {'path': path, 'status': st, 'last_mod': 1.5, 'created': 1.0}

def canon(res):
    return {k: sorted((x['file_info']['path'], x['client_status'], x['server_status']) if k == 'conflict_files' else x['path'] for x in v) for k, v in res.items()}

def one(combo, names, orders):
    from bversion.merge_client_and_server_changes import merge_client_and_server_changes as merge
    ev = {'server': {}, 'client': {}, 'raised': '', 'unmodified': True, 'stable': True, 'payload': True, 'result': {}, 'conflicts': {}}
    items = [(names[i], s, c) for i, (s, c) in enumerate(combo)]
    for p, s, c in items:
        if s != 'none': ev['server'][p] = s
        if c != 'none': ev['client'][p] = c
    try:
        first = None
        for perm in orders(items):
            server = {p: entry(p, s, 's') for p, s, c in perm if s != 'none'}
            client = {p: entry(p, c, 'c') for p, s, c in reversed(perm) if c != 'none'}
            s0, c0 = copy.deepcopy(server), copy.deepcopy(client)
            res = merge(server, client)
            if (s0, c0) != (server, client): ev['unmodified'] = False
            if first is None: first = res
            elif canon(first) != canon(res): ev['stable'] = False
        for k, v in first.items():
            for x in v:
                if k == 'conflict_files':
                    p = x['file_info']['path']; ev['conflicts'][p] = [x['client_status'], x['server_status']]
                    if 'deleted' not in (ev['server'].get(p), ) and x['file_info'].get('hash') != 's' + p: ev['payload'] = False
                else:
                    p = x['path']
                    if k == 'client_pull_files' and x.get('hash') != 's' + p: ev['payload'] = False
                ev['result'].setdefault(k, []).append(p)
    except Exception as e: ev['raised'] = repr(e)
    return ev

def run(job, d):
    orders = lambda items: [items, items[::-1]] if len(items) < 3 else [items, items[::-1], items[1:] + items[:1]]
    return {'id': job['id'], 'ev': [one(c, NAMES[(job['names'] + j) % len(NAMES)], orders) for j, c in enumerate(job['combos'])]}
