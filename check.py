"""check.py ID [--tier quick|thorough]: decides one property of the code in /repo.

Exit 0: held on everything explored.  Exit 1: a counterexample, replayed on the real code, and a VIOLATION line.
Any other exit: no verdict (the reason is printed)."""
import argparse
import json
import os
import sys
import time

if os.environ.get('PYTHONHASHSEED') != '0' or not sys.dont_write_bytecode:
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.execv(sys.executable, [sys.executable, '-B'] + sys.argv)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

import z3                                      # noqa: E402
import registry                                # noqa: E402
from symex import driver, loader               # noqa: E402

KNOWN = os.path.join(HERE, 'known_findings.json')


def known_findings(pid):
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == pid and k['status'] == 'known']


def is_known(v, task, known):
    for k in known:
        if k['harness'] == '%s.%s' % (task.module, task.func) and k['message'] in (v['msg'], v['native'].get('msg')):
            if all(v['inputs'].get(a) == b for a, b in k.get('inputs', {}).items()):
                return k
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--wall', type=float)
    ap.add_argument('--only', help='only tasks whose label has this text (development)')
    ap.add_argument('--debug', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    pid = a.id
    prop = registry.PROPS[pid]
    thorough = a.tier == 'thorough'
    tasks = prop.tasks(thorough)
    if a.only:
        tasks = [t for t in tasks if a.only in t.label()]
    wall = a.wall or (prop.wall_thorough if thorough else prop.wall_quick)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    evdir = os.path.join(HERE, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    evpath = os.path.join(evdir, pid + '.json')
    if os.path.exists(evpath):
        os.remove(evpath)
    known = known_findings(pid)
    res = driver.explore(tasks, wall, seed=seed, debug=a.debug, known=lambda v, t: is_known(v, t, known) is not None)

    lines, shown, code = [], set(), 0
    nviol = 0
    for v in res.violations:
        task = tasks[v['task']]
        k = is_known(v, task, known)
        if k is not None:
            line = 'KNOWN-FINDING: property=%s %s' % (pid, k['what'])
            if line not in lines:
                lines.append(line)
            continue
        nviol += 1
        if len(shown) >= 3:
            continue
        rdir = os.path.join(HERE, 'replays')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-%d.json' % (pid, len(shown) + 1))
        with open(path, 'w') as f:
            json.dump(dict(property=pid, module=task.module, func=task.func, params=task.params, inputs=v['inputs'],
                           message=v['msg'], native=v['native'],
                           how='PYTHONHASHSEED=%d %s %s/symex/native.py %s' % (v.get('hashseed', 0), driver.NATIVE_PY, HERE, path)),
                      f, indent=1)
        shown.add(path)
        lines.append('VIOLATION property=%s replay=%s' % (pid, path))
        lines.append('  %s: %s' % (v['native'].get('msg') or v['msg'], json.dumps(v['inputs'])[:600]))
        lines.append('  harness %s' % task.label())
    for k in known:
        line = 'KNOWN-FINDING: property=%s %s' % (pid, k['what'])
        if line not in lines:
            lines.append(line)

    problems = []
    if nviol:
        code = 1
    else:
        for e in res.errors[:3]:
            problems.append('engine error: %s' % e[-1500:])
        for u in res.unreproduced[:3]:
            problems.append('counterexample that the real code does not show: %s' % json.dumps(u)[:1200])
        for m in res.mismatches[:3]:
            problems.append('the model and the real code differ: %s' % json.dumps(m)[:1200])
        for t in res.per_task:
            if not t['asserting']:
                problems.append('no path of %s reached the property%s' % (
                    t['task'], ' (unsupported: %s)' % dict(res.unsupported) if res.unsupported else ''))
        # A path whose model is wrong or missing is not decided (its instance was run on the real code, and held); the rest is.
        # In development any such path is an error.
        if problems and (os.environ.get('VERIF_STRICT') or res.errors or not any(t['asserting'] for t in res.per_task)):
            code = 2
    st = res.stats
    files = {os.path.relpath(p, loader.REPO): h for p, h in loader.SOURCES.items() if p.startswith(loader.REPO + os.sep)}
    funcs = sorted(x for x in res.entered if x.startswith('gb.') or x.startswith('filter_wikidump'))
    open_tasks = [t['task'] for t in res.per_task if t['left'] or not t['started']]
    ev = {
        'property': pid, 'tier': 'thorough' if thorough else 'quick', 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': st.paths, 'transitions': st.forks + st.forced + st.dom_forks,
            'traces_validated_against_impl': res.validated,
            'samples': res.samples,
            'obligations': st.asserts, 'discharged': st.asserts - nviol - res.incomplete,
            'explanation': 'states: symbolic paths, each one a set of inputs described by its path condition; transitions: '
                           'branch decisions taken on symbolic conditions; obligations: property assertions evaluated on a path '
                           'under its path condition; validated traces: paths whose model was run on the real code under the '
                           'real interpreter with the same observations.',
            'exhaustive': bool(res.exhaustive and not res.unsupported and not res.incomplete and not res.notes),
            'bounds': prop.bounds, 'outside_the_bounds': prop.outside,
            'tasks': res.per_task, 'tasks_not_finished': open_tasks,
            'paths_completed': st.completed, 'paths_infeasible_or_closed': st.aborted,
            'paths_without_model': st.unsupported, 'paths_timed_out': st.timeouts,
            'unsupported': dict(res.unsupported), 'not_decided': problems[:10], 'notes': dict(res.notes),
            'solver': 'z3 %s' % z3.get_version_string(),
            'solver_queries': st.queries, 'solver_sat': st.sat, 'solver_unsat': st.unsat, 'solver_unknown': st.unknown,
            'solver_s': round(st.solver_s, 3), 'assertion_queries': st.assert_queries,
            'native_runs': res.native_runs,
            'functions_encoded': funcs, 'files_encoded_sha256': files,
        },
        'assumptions': registry.COMMON + prop.assumptions,
        'wall_s': round(time.time() - t0, 2),
        'violations': nviol,
    }
    tmp = evpath + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, evpath)
    for line in lines:
        print(line)
    print('%s %s: %d paths (%d complete), %d decisions, %d assertions, %d solver queries in %.1f s, %d validated natively, '
          '%s, %.1f s' % (pid, ev['tier'], st.paths, st.completed, ev['coverage']['transitions'], st.asserts, st.queries,
                          st.solver_s, res.validated, 'all tasks finished' if not open_tasks else
                          '%d of %d tasks not finished' % (len(open_tasks), len(tasks)), time.time() - t0))
    if res.unsupported:
        print('  without a model: %s' % dict(res.unsupported))
    if res.notes:
        print('  notes: %s' % dict(res.notes))
    for p in problems:
        print('%s: %s' % ('NO VERDICT' if code else 'NOT DECIDED', p))
    sys.stdout.flush()
    os._exit(code)


if __name__ == '__main__':
    main()
