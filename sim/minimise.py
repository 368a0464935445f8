"""Delta debugging of a failing case, keeping the property and the kind of the violation"""
import copy
import time


def minimise(case, kind, run, prop, budget_s=90.0, max_runs=600):
    t0 = time.monotonic()
    runs = [0]
    seen = {}

    def fails(c):
        import json
        key = json.dumps(c, sort_keys=True)
        if key in seen:
            return seen[key]
        if time.monotonic() - t0 > budget_s or runs[0] >= max_runs:
            return False
        runs[0] += 1
        r = run(c)
        ok = r['violation'] is not None and r['status'] == 'violation' and r['violation']['kind'] == kind
        seen[key] = ok
        return ok

    def ddmin(c, key):
        items = c[key]
        n = 2
        while len(items) >= 1:
            size = max(1, len(items) // n)
            reduced = False
            i = 0
            while i < len(items):
                cand = items[:i] + items[i + size:]
                cc = dict(c)
                cc[key] = cand
                if fails(cc):
                    items = cand
                    c = cc
                    reduced = True
                else:
                    i += size
            if not reduced:
                if size == 1:
                    break
                n = min(len(items), n * 2)
            if time.monotonic() - t0 > budget_s:
                break
        return c

    changed = True
    while changed and time.monotonic() - t0 < budget_s and runs[0] < max_runs:
        before = repr(case)
        for key in getattr(prop, 'LISTS', ('ops',)):
            if isinstance(case.get(key), list):
                case = ddmin(case, key)
        # drop what is attached to single operations
        for i in range(len(case.get('ops', ()))):
            for field in ('fault', 'ufaults', 'gc', 'dt'):
                op = case['ops'][i]
                if isinstance(op, dict) and op.get(field):
                    cc = copy.deepcopy(case)
                    del cc['ops'][i][field]
                    if fails(cc):
                        case = cc
        for field in ('listing_salt', 'hash_salt', 'rt_seed'):
            if case.get(field):
                cc = dict(case)
                cc[field] = 0
                if fails(cc):
                    case = cc
        shrinks = getattr(prop, 'shrinks', None)
        if shrinks is not None:
            again = True
            while again and time.monotonic() - t0 < budget_s:
                again = False
                for cc in shrinks(copy.deepcopy(case)):
                    if fails(cc):
                        case = cc
                        again = True
                        break
        changed = repr(case) != before
    return case, runs[0]
