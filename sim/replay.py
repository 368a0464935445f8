"""python3 -m sim.replay FILE: executes a replay file; exit 1 and the violation if it reproduces, 0 otherwise"""
import json
import sys

from .pool import Pool


def main():
    with open(sys.argv[1]) as f:
        rec = json.load(f)
    case = rec['case']
    with Pool([case.get('hashseed', 0)]) as pool:
        r = pool.workers[0].run(rec['property'], case)
    for line in r['trace']:
        print('  ', line[:400])
    if r['status'] == 'violation':
        v = r['violation']
        print(v['kind'])
        print(v['detail'])
        same = v['kind'] == rec['violation']['kind']
        exact = r['trace_hash'] == rec.get('trace_hash')
        print(f'reproduced: same kind={same} identical execution={exact}')
        print(f'VIOLATION property={rec["property"]} replay={sys.argv[1]}')
        return 1
    print(f'no violation ({r["status"]})')
    if r['violation']:
        print(r['violation'])
    return 0


if __name__ == '__main__':
    sys.exit(main())
