"""C03: items always run with the configuration their history implies"""
from ..seams import CLOCK
from ..world import Violation
from . import proj as P
from . import conf as C

RUNS = {'quick': 1000, 'thorough': 60000}
WALL = {'quick': 120, 'thorough': 800}
RULE = ('a case is 1-2 generated projects (sections nested up to 3 deep, the same function in several sections, specific '
        'class entries, section and project values) and 6-40 operations (updates of all kinds, batches over managers, '
        'assignments through selectors, resets of items and sections, refreshes, file edits, reloads, restarts, failing '
        'operations, items and config files which raise); non-trivial: at least one update or edit was executed')
STATES = 'hash of the model configuration of all items after each operation'
ASSUMPTIONS = ['arguments which are set by a section file are not also updated at the item',
               'the user edits a config file completely before the next operation']


def gen(rng, tier):
    case = C.gen_world(rng, second=0.4)
    big = tier == 'thorough'
    fresh = iter(range(100, 100000))
    exotic = rng.random() < 0.5
    # arguments which section files set, per manager
    owned = {}
    for pr in case['projects']:
        if rng.random() < 0.6:
            owned[pr['name']] = rng.sample(['a', 'b', 'c', 'd', 'x', 'y'], rng.randint(1, 2))
        else:
            owned[pr['name']] = []
    all_paths = [(pr['name'], p, n) for pr in case['projects'] for p, n, _ in C.all_items(pr)]
    secs = [(pr['name'], s) for pr in case['projects'] for s in C.sections_of(pr)]

    def free(m, n):
        return [a for a in C.item_args(case, n) if a not in owned[m]]

    def value():
        v = next(fresh)
        return rng.choice([v, v, v, f'v{v}', [v, 1], {'k': v}, C.special(rng, fresh) if exotic else v])

    def some(m, n):
        args = free(m, n)
        if not args:
            return None
        return {a: value() for a in rng.sample(args, rng.randint(1, min(2, len(args))))}

    ops = []
    for _ in range(rng.randint(5, 40 if big else 22)):
        k = rng.random()
        m, p, n = rng.choice(all_paths)
        if rng.random() < 0.5:
            # concentrate on few items
            m, p, n = all_paths[rng.randrange(min(2, len(all_paths)))]
        args = some(m, n)
        if k < 0.27 and args:
            ops.append({'op': 'update', 'm': m, 'p': p, 'args': args, 'persist': rng.random() < 0.7,
                        'how': rng.choice(['kw', 'dict', 'both', 'sel'])})
        elif k < 0.35:
            ups = []
            for _ in range(rng.randint(1, 3)):
                m2, p2, n2 = rng.choice(all_paths)
                a = some(m2, n2)
                if a:
                    ups.append({'m': m2, 'p': p2, 'args': a, 'view': rng.random() < 0.2})
            if ups:
                ops.append({'op': 'batch', 'ups': ups, 'how': rng.choice(['pm', 'updater'])})
        elif k < 0.42:
            ops.append({'op': 'refresh', 'm': m, 'p': p})
        elif k < 0.49:
            ops.append({'op': 'reset', 'm': m, 'p': p, 'how': rng.choice(['pm', 'pm', 'view', 'updater', 'updater_view', 'create'])})
        elif k < 0.53:
            m, s = rng.choice(secs)
            ops.append({'op': 'reset_section', 'm': m, 's': s})
        elif k < 0.66:
            a = rng.choice(C.item_args(case, n))
            v = C.special(rng, fresh, C.WRITTEN) if exotic and rng.random() < 0.3 else next(fresh)
            ops.append({'op': 'edit', 'm': m, 'p': p, 'arg': a, 'v': v,
                        'then': rng.choice(['refresh', 'reset', 'reload', 'nothing'])})
            if rng.random() < 0.12:
                ops[-1]['drop'] = True
        elif k < 0.72:
            own = [x for x in owned if owned[x]]
            if own:
                m = rng.choice(own)
                s = rng.choice([x for mm, x in secs if mm == m] + [''])
                vals = {a: next(fresh) for a in owned[m] if rng.random() < 0.8}
                if rng.random() < 0.2:
                    vals[f'unrelated_{next(fresh)}'] = 1
                ops.append({'op': 'section', 'm': m, 's': s, 'v': vals,
                            'then': rng.choice(['reload', 'reset']) if s else 'reload'})
        elif k < 0.78:
            ops.append({'op': 'reload', 'm': m})
        elif k < 0.82:
            ops.append({'op': 'restart'})
        elif k < 0.87:
            ops.append({'op': 'bad', 'm': m, 'p': p, 'what': rng.choice(['update', 'get', 'run', 'reset', 'refresh', 'batch',
                                                                        'section'])})
        elif k < 0.92:
            ops.append({'op': 'fail_run', 'm': m, 'p': p,
                        'do': rng.choice(['error', 'value', 'kbi', 'exit', 'attr', 'key'])})
        elif k < 0.96:
            ops.append({'op': 'fail_file', 'm': m, 'p': p, 'kind': rng.choice(['refresh', 'reset']),
                        'do': rng.choice(['error', 'kbi', 'key', 'attr', 'value'])})
        else:
            m, s = rng.choice(secs)
            ops.append({'op': 'run_section', 'm': m, 's': s})
        if rng.random() < 0.45:
            m, p, n = rng.choice(all_paths)
            ops.append({'op': 'see', 'm': m, 'p': p, 'how': rng.choice(C.HOWS)})
    same = rng.choice([0, 0.15, 0.4])
    for op in ops:
        if op['op'] in ('update', 'edit') and rng.random() < same:
            # back to what the file says, or into the file what the item has now, or something similar
            op['same'] = rng.choice(['same', 'like'])
    if rng.random() < 0.15:
        # an item gets its values back before it is reset, and is edited afterwards
        m, p, n = rng.choice(all_paths)
        args = free(m, n)
        if args:
            a = rng.choice(args)
            back = [{'op': 'update', 'm': m, 'p': p, 'args': {a: next(fresh)}, 'persist': True, 'how': 'kw'},
                    {'op': 'update', 'm': m, 'p': p, 'args': {a: 0}, 'persist': True, 'how': 'kw', 'same': 'same'},
                    {'op': 'reset', 'm': m, 'p': p, 'how': 'pm'},
                    {'op': 'edit', 'm': m, 'p': p, 'arg': a, 'v': next(fresh), 'then': 'refresh'},
                    {'op': 'see', 'm': m, 'p': p, 'how': rng.choice(C.HOWS)}]
            i = rng.randint(0, len(ops))
            ops[i:i] = back
    case['ops'] = ops
    case['see_salt'] = rng.randrange(1 << 20)
    case['hash_salt'] = rng.choice([0, rng.randrange(1, 1 << 20)])
    case['listing_salt'] = rng.choice([0, rng.randrange(1, 1 << 20)])
    return case


def run(w):
    st = w.state
    d = C.Driver(w)
    if st['incarnation'] == 0:
        d.write()
        st['pc'] = 0
        st['model'] = C.Model(w.case)
    model = st['model']
    d.start()
    if st['incarnation'] > 0:
        for m in model.items:
            model.reload(m)
        check_all(w, d, model, 'after restart')
    ops = w.case['ops']
    while st['pc'] < len(ops):
        op = ops[st['pc']]
        CLOCK.advance(op.get('dt', 1.0))
        w.log(st['pc'], op)
        w.count('op:' + op['op'])
        if op['op'] == 'restart':
            st['pc'] += 1
            w.restart()
        step(w, d, model, op)
        if op['op'] != 'see':
            sample(w, d, model, st['pc'], op)
            w.note_state(model.snapshot())
        st['pc'] += 1
    check_all(w, d, model, 'at the end')
    if not st.get('final'):
        st['final'] = True
        w.restart()


def sample(w, d, model, pc, op):
    """look at the item of the operation and at another one, not always"""
    import random
    rng = random.Random(f"{w.case['see_salt']}/{pc}")
    todo = []
    if 'p' in op and rng.random() < 0.6:
        todo.append((op['m'], op['p']))
    if rng.random() < 0.3:
        m = rng.choice(sorted(model.items))
        todo.append((m, rng.choice(sorted(model.items[m]))))
    for m, p in todo:
        see(d, model, m, p, rng.choice(C.HOWS), f'after {op}')


def see(d, model, m, p, how, what):
    model.touch(m, p)
    d.check(m, p, how, model.values(m, p), what)


def check_all(w, d, model, what):
    import random
    rng = random.Random(f"{w.case['see_salt']}/all/{w.state['incarnation']}")
    todo = [(m, p) for m in model.items for p in model.items[m]]
    rng.shuffle(todo)
    for m, p in todo:
        see(d, model, m, p, rng.choice(C.HOWS), what)


def step(w, d, model, op):
    k = op['op']
    if k == 'see':
        see(d, model, op['m'], op['p'], op['how'], 'looking')
        return
    if op.get('same'):
        it = model.items[op['m']][op['p']]
        change = C.like if op['same'] == 'like' else lambda v: v
        if k == 'update':
            op = {**op, 'args': {a: change(it.disk[a]) for a in op['args']}}
        elif '__special__' not in repr(it.values()[op['arg']]):
            op = {**op, 'v': change(it.values()[op['arg']])}
    if k == 'update':
        do_update(w, d, model, op)
    elif k == 'batch':
        w.count('nontrivial')
        m0 = op['ups'][0]['m']
        if op['how'] == 'pm' and all(u['m'] == m0 for u in op['ups']):
            w.must('update_batch', d.pms[m0].update_batch,
                   [dict(section_path_str=d.view(u['m'], u['p']) if u['view'] else u['p'], **C.real(u['args']))
                    for u in op['ups']])
        else:
            from pyfileconf import BatchUpdater
            w.must('BatchUpdater.update', BatchUpdater().update,
                   [dict(section_path_str=d.view(u['m'], u['p']) if u['view'] else f"{u['m']}.{u['p']}", **C.real(u['args']))
                    for u in op['ups']])
        for u in op['ups']:
            model.update(u['m'], u['p'], u['args'])
    elif k == 'refresh':
        w.must('refresh', d.pms[op['m']].refresh, op['p'])
        model.refresh(op['m'], op['p'])
    elif k == 'reset':
        if op['how'] in ('updater', 'updater_view'):
            from pyfileconf import BatchUpdater
            what = d.view(op['m'], op['p']) if op['how'] == 'updater_view' else f"{op['m']}.{op['p']}"
            w.must('BatchUpdater.reset', BatchUpdater().reset, [what])
        elif op['how'] == 'view':
            w.must('reset', d.pms[op['m']].reset, d.view(op['m'], op['p']))
        else:
            w.must('reset', d.pms[op['m']].reset, op['p'], **({'allow_create': True} if op['how'] == 'create' else {}))
        model.reset(op['m'], op['p'])
    elif k == 'reset_section':
        w.must('reset of a section', d.pms[op['m']].reset, op['s'])
        model.reset_section(op['m'], op['s'])
    elif k == 'edit':
        w.count('nontrivial')
        it = model.items[op['m']][op['p']]
        if op.get('drop'):
            # the file no longer mentions the argument, so it has its default
            d.edit(op['m'], op['p'], op['arg'], None)
            it.disk[op['arg']] = d.items.defaults(it.name)[op['arg']]
        else:
            d.edit(op['m'], op['p'], op['arg'], C.expr(op['v']))
            it.disk[op['arg']] = op['v']
        then = op['then']
        if then == 'nothing' and not it.touched:
            then = 'refresh'
        apply(w, d, model, op['m'], op['p'], then)
    elif k == 'section':
        w.count('nontrivial')
        d.edit_section(op['m'], op['s'], op['v'])
        model.disk_sections[op['m']][op['s']] = dict(op['v'])
        if op['then'] == 'reload':
            apply(w, d, model, op['m'], None, 'reload')
        else:
            w.must('reset of a section', d.pms[op['m']].reset, op['s'])
            model.reset_section(op['m'], op['s'])
    elif k == 'reload':
        apply(w, d, model, op['m'], None, 'reload')
    elif k == 'bad':
        bad(w, d, op)
    elif k == 'fail_run':
        site = d.site(op['m'], op['p'])
        model.touch(op['m'], op['p'])
        w.set_user_faults([{'site': site, 'do': op['do']}])
        o = w.call(d.pms[op['m']].run, op['p'])
        w.set_user_faults()
        if o.ok:
            raise Violation('error-hidden', f'{op} returned {o!r}')
    elif k == 'fail_file':
        fail_file(w, d, model, op)
    elif k == 'run_section':
        m, s = op['m'], op['s']
        if s.split('.')[0] in [sc['name'] for sc in d.projects[m].get('spec', ())]:
            return
        r = w.must('run of a section', d.pms[m].run, s)
        want = d.expected_section(m, s, model)
        for p in model.items[m]:
            if p.startswith(s + '.'):
                model.touch(m, p)
        if C.canon(r) != want:
            raise Violation('wrong-section-result', f'running {s} gave {r}, expected {want}')


def apply(w, d, model, m, p, then):
    if then == 'refresh':
        w.must('refresh', d.pms[m].refresh, p)
        model.refresh(m, p)
    elif then == 'reset':
        w.must('reset', d.pms[m].reset, p)
        model.reset(m, p)
    elif then == 'reload':
        w.must('reload', d.pms[m].reload)
        model.reload(m)


def do_update(w, d, model, op):
    w.count('nontrivial')
    m, p, args = op['m'], op['p'], C.real(op['args'])
    pm = d.pms[m]
    how = op['how']
    persist = op['persist'] or how == 'sel'
    if how == 'sel':
        v = d.view(m, p)
        for a, x in args.items():
            w.must('assignment', setattr, v, a, x)
    elif how == 'kw':
        w.must('update', pm.update, section_path_str=p, pyfileconf_persist=persist, **args)
    elif how == 'dict':
        w.must('update', pm.update, dict(args), p, pyfileconf_persist=persist)
    else:
        names = list(args)
        w.must('update', pm.update, {names[0]: args[names[0]]}, section_path_str=p, pyfileconf_persist=persist,
               **{n: args[n] for n in names[1:]})
    model.update(m, p, op['args'], persist)


def bad(w, d, op):
    """an operation on something which does not exist fails and changes nothing"""
    pm = d.pms[op['m']]
    p = op['p'] + '_typo'
    fn = {'update': lambda: pm.update(section_path_str=p, a=1), 'get': lambda: pm.get(p), 'run': lambda: pm.run(p),
          'reset': lambda: pm.reset(p), 'refresh': lambda: pm.refresh(p),
          'section': lambda: pm.run('nosection.' + op['p']),
          'batch': lambda: pm.update_batch([{'section_path_str': p, 'a': 1}])}[op['what']]
    o = w.call(fn)
    if o.ok:
        raise Violation('error-hidden', f'{op} of {p} returned {o!r}')


def fail_file(w, d, model, op):
    """the config file raises while it is executed for a refresh or reset: nothing changes"""
    m, p = op['m'], op['p']
    it = model.items[m][p]
    if not it.touched:
        see(d, model, m, p, 'get', 'before')
    rel = d.rel(m, p)
    text = w.read(rel)
    w.write(rel, f"import simrt\nsimrt.cfg('{m}.{p}')\n" + text)
    w.set_user_faults([{'site': f'cfg:{m}.{p}', 'do': op['do']}])
    o = w.call(getattr(d.pms[m], op['kind']), p)
    w.set_user_faults()
    w.write(rel, text)
    if o.ok:
        raise Violation('error-hidden', f'{op} returned {o!r}')
