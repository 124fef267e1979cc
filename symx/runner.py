"""Explores all cases of a property and decides it."""

import argparse
import importlib
import json
import multiprocessing
import multiprocessing.connection
import os
import random
import re
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = sys.executable


def _load_cases(prop, tier):
    mod = importlib.import_module('harness.' + prop.lower())
    cases = list(mod.cases(tier))
    assert len(set(c.name for c in cases)) == len(cases), 'case names are not unique'
    return mod, cases


class Coverage:
    """Functions of the code under test executed on symbolic values."""

    def __init__(self):
        self.functions = set()

    def start(self):
        mon = sys.monitoring
        try:
            mon.use_tool_id(mon.COVERAGE_ID, 'symx')
        except ValueError:
            return
        root = os.path.join(REPO, 'nodefinder') + os.sep

        def on_start(code, _offset):
            if code.co_filename.startswith(root):
                self.functions.add('{}:{}'.format(code.co_filename[len(root):], code.co_qualname))
            return mon.DISABLE

        mon.register_callback(mon.COVERAGE_ID, mon.events.PY_START, on_start)
        mon.set_events(mon.COVERAGE_ID, mon.events.PY_START)


def _json_value(v):
    if isinstance(v, (list, tuple)):
        return [_json_value(x) for x in v]
    if isinstance(v, (str, bool, int, float)) or v is None:
        return v
    return str(v)


def _run_case(prop, index, tier, seed, end, send):
    t0 = time.time()
    out = {'index': index}
    try:
        from symx import core
        cov = Coverage()
        cov.start()
        _, cases = _load_cases(prop, tier)
        case = cases[index]
        out['name'] = case.name
        engine = core.Engine(deadline=min(time.monotonic() + _budget(case, tier), end), **case.opts)
        rng = random.Random('{}/{}'.format(seed, case.name))
        violations = []
        traces = []
        seen = [0]
        engine_limits = []

        def on_path(eng, ctx, status, exc):
            if status == 'exception':
                models = []
                for nice in (True, False):
                    m = eng.get_model(core._TRUE, nice=nice)
                    if m is not None and m not in models:
                        models.append(m)
                tb = ''.join(traceback.format_exception(type(exc), exc, exc.__traceback__))[-3000:]
                violations.append({
                    'label': 'exception:' + type(exc).__name__, 'models': models, 'detail': tb, 'engine': isinstance(exc, core.EngineLimit)
                })
                send({'index': index, 'violation': violations[-1]})
                return len(violations) < 3
            if status == 'ok' and case.traces:
                seen[0] += 1
                slot = None
                if len(traces) < case.traces:
                    slot = len(traces)
                    traces.append(None)
                else:
                    r = rng.randrange(seen[0])
                    if r < case.traces and len(engine_limits) == 0 and seen[0] < 400:
                        slot = r
                if slot is not None:
                    m = eng.get_model(core._TRUE)
                    if m is not None:
                        obs = [(lab, core.eval_obs(eng.last_model, val)) for lab, val in ctx.obs]
                        traces[slot] = {'values': m, 'obs': obs}
            return True

        def on_violation(v):
            violations.append({'label': v.label, 'models': v.model, 'detail': str(v.detail), 'engine': False})
            send({'index': index, 'violation': violations[-1]})

        engine.on_violation = on_violation
        complete = engine.explore(case.run, on_path)
        out['violations'] = violations
        out['traces'] = [t for t in traces if t]
        out['inconclusive'] = list(engine.inconclusive)
        if not complete and not engine.inconclusive:
            out['inconclusive'].append('exploration incomplete')
        out['stats'] = engine.stats.as_dict()
        missing = [l for l in case.need if not engine.stats.labels.get(l)]
        if missing and complete and not violations:
            out['inconclusive'].append('vacuous: never reached {}'.format(missing))
        if complete and not violations and engine.stats.paths == engine.stats.aborted:
            out['inconclusive'].append('vacuous: every path violates an assumption')
        out['functions'] = sorted(cov.functions)
    except BaseException as e:  # pylint: disable=broad-except
        out['error'] = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:]
        if isinstance(e, KeyboardInterrupt):
            raise
    out['wall'] = time.time() - t0
    return out


def _budget(case, tier):
    return case.budget if tier == 'thorough' else min(case.budget, 400)


def _child(conn, args):
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    conn.send(_run_case(*args, conn.send))
    conn.close()


def run_cases(prop, cases, order, tier, seed, end, jobs, confirm):
    """
    Yields the result of each case; every case is executed in a process of its
    own, which is ended if it is still busy long after its budget is used up.
    Ends once confirm(index, violation) finds a counterexample to be real.
    """
    ctx = multiprocessing.get_context('fork')
    todo = list(reversed(order))
    running = {}
    while todo or running:
        while todo and len(running) < jobs:
            index = todo.pop()
            ours, theirs = ctx.Pipe(duplex=False)
            proc = ctx.Process(target=_child, args=(theirs, (prop, index, tier, seed, end)), daemon=True)
            proc.start()
            theirs.close()
            running[ours] = (index, proc, min(time.monotonic() + _budget(cases[index], tier), end) + 30, [])
        for conn in multiprocessing.connection.wait(list(running), timeout=1):
            index, proc, _, found = running[conn]
            try:
                res = conn.recv()
            except EOFError:
                proc.join()
                res = {'index': index, 'error': 'process ended with exit code {}'.format(proc.exitcode), 'wall': 0.}
            if 'violation' in res:
                found.append(res['violation'])
                if confirm(index, res['violation']):
                    for _, other, _, _ in running.values():
                        other.kill()
                    for _, other, _, _ in running.values():
                        other.join()
                    return
                continue
            proc.join()
            conn.close()
            del running[conn]
            res.setdefault('name', cases[index].name)
            if 'error' in res and found:
                res.pop('error')
                res.update(_stopped(found, 'ended early'))
            yield res
        for conn, (index, proc, limit, found) in list(running.items()):
            if time.monotonic() > limit:
                proc.kill()
                proc.join()
                conn.close()
                del running[conn]
                yield dict(_stopped(found, 'solver call beyond the time limit'), index=index, name=cases[index].name)


def _stopped(found, reason):
    return {'violations': found, 'traces': [], 'inconclusive': [reason], 'stats': {}, 'functions': [], 'wall': 0.}


def replay_batch(prop, tier, items, timeout):
    """
    Run concrete executions on the plain code in fresh processes.
    items: list of {'case': name, 'values': {...}}; returns list of outcomes.
    """
    results = []
    todo = list(enumerate(items))
    while todo:
        with tempfile.TemporaryDirectory(prefix='symx-replay-') as d:
            inp = os.path.join(d, 'in.json')
            outp = os.path.join(d, 'out.jsonl')
            with open(inp, 'w') as f:
                json.dump({'prop': prop, 'tier': tier, 'items': [it for _, it in todo]}, f)
            env = dict(os.environ)
            env['SYMX_SCRATCH'] = d
            try:
                p = subprocess.run([PY, '-m', 'symx.replay', inp, outp], cwd=VERIF, env=env, timeout=timeout,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, check=False)
                tail = p.stdout.decode(errors='replace')[-2000:]
                status = 'crash'
            except subprocess.TimeoutExpired as e:
                tail = (e.stdout or b'').decode(errors='replace')[-2000:]
                status = 'hang'
            lines = []
            if os.path.exists(outp):
                with open(outp) as f:
                    lines = [json.loads(l) for l in f if l.endswith('\n')]
            for (i, _), r in zip(todo, lines):
                results.append((i, r))
            todo = todo[len(lines):]
            if todo:
                # the first of the remaining ones ended the process
                results.append((todo[0][0], {'status': status, 'label': status, 'detail': tail}))
                todo = todo[1:]
    results.sort()
    return [r for _, r in results]


FAILING = ('failed', 'exception', 'hang', 'crash')


def read_known():
    """[(status, property, case/label match, text)]"""
    res = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith('known:'):
                    fields = dict(x.split('=', 1) for x in line.split()[1:3])
                    res.append((fields['property'], fields['match'], ' '.join(line.split()[3:])))
    return res


def _obs_match(a, b):
    if len(a) != len(b):
        return False
    for (la, va), (lb, vb) in zip(a, b):
        if la != lb or not _val_match(va, vb):
            return False
    return True


def _val_match(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(_val_match(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if a == b or (a != a and b != b):
            return True
        return abs(a - b) <= 1e-5 * max(1., abs(a), abs(b))
    return a == b


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--case', default=None)
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('-v', action='store_true')
    args = ap.parse_args(argv)
    prop = args.property
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()

    from symx import bootstrap
    bootstrap.symbolic()
    mod, cases = _load_cases(prop, tier)
    order = [i for i, c in enumerate(cases) if args.case is None or args.case in c.name]
    order.sort(key=lambda i: -cases[i].weight)
    # all cases together have to end in time
    end = time.monotonic() + {'quick': 600, 'thorough': 5400}[tier]
    results = {}
    # counterexamples: replayed on the plain code
    known = read_known()
    confirmed = []
    known_hits = []
    unconfirmed = []

    def confirm(index, v):
        case = cases[index]
        for values in v['models']:
            outcome = replay_batch(prop, tier, [{'case': case.name, 'values': values}], case.replay_timeout)[0]
            if outcome['status'] in FAILING:
                key = '{}/{}'.format(case.name, outcome.get('label') or v['label'])
                match = [k for k in known if k[0] == prop and k[1] == key]
                if not match:
                    confirmed.append((case, v, values, outcome))
                    return True
                if match[0] not in known_hits:
                    known_hits.append(match[0])
                return False
        unconfirmed.append((case, v))
        return False

    for r in run_cases(prop, cases, order, tier, seed, end, args.jobs, confirm):
        results[r['index']] = r
        if args.v:
            st = r.get('stats', {})
            print('  {:40s} {:6.1f}s paths={} aborted={} solver={:.1f}s calls={} fallback={} viol={} {}'.format(
                r.get('name', '?'), r['wall'], st.get('paths'), st.get('aborted'), st.get('solver_time', 0),
                st.get('solver_calls'), st.get('fallback_calls'), len(r.get('violations', [])),
                (r.get('inconclusive') or '')), flush=True)
            if 'error' in r:
                print(r['error'])
    errors = []
    traces = []
    if confirmed:
        # not all cases have been executed
        order = [i for i in order if i in results] or [cases.index(confirmed[0][0])]
    for i in order:
        r = results.setdefault(i, _stopped([], 'stopped'))
        name = cases[i].name
        if 'error' in r:
            errors.append('{}: {}'.format(name, r['error']))
            continue
        for msg in r['inconclusive']:
            errors.append('{}: {}'.format(name, msg))
        for t in r['traces']:
            traces.append((cases[i], t))

    if unconfirmed and not confirmed:
        for case, v in unconfirmed:
            errors.append('{}: counterexample to {!r} does not reproduce on the plain code (models: {}) {}'.format(
                case.name, v['label'], json.dumps(v['models'])[:600], v['detail'][-300:]))

    # some explored paths, executed on the plain code
    validated, mismatches = 0, []
    if traces and not confirmed:
        outcomes = replay_batch(prop, tier, [{'case': c.name, 'values': t['values']} for c, t in traces], 300)
        for (c, t), o in zip(traces, outcomes):
            if o['status'] == 'ok' and _obs_match(t['obs'], o.get('obs', [])):
                validated += 1
            else:
                mismatches.append({'case': c.name, 'values': t['values'], 'outcome': o, 'symbolic': t['obs']})

    # verdict
    tot = {}
    labels = {}
    functions = set()
    for i in order:
        r = results[i]
        for k, val in r.get('stats', {}).items():
            if isinstance(val, (int, float)):
                tot[k] = tot.get(k, 0) + val
        for k, val in r.get('stats', {}).get('labels', {}).items():
            labels[k] = labels.get(k, 0) + val
        functions.update(r.get('functions', []))
    wall = time.time() - t0
    samples = [{'case': c.name, 'inputs': t['values'], 'observed': t['obs'][:6]} for c, t in traces[:3]]
    evidence = {
        'property': prop,
        'tier': tier,
        'seed': seed,
        'level': getattr(mod, 'LEVEL', 'model_checking'),
        'coverage': {
            'states': int(tot.get('branch_nodes', 0) + tot.get('paths', 0)),
            'transitions': int(tot.get('branch_edges', 0) + tot.get('paths', 0)),
            'traces_validated_against_impl': validated,
            'samples': samples or [{'note': 'no complete path'}],
            'explanation': 'states: decision points and path ends of the symbolic execution of the real code; '
                           'transitions: outcomes followed; every assertion on every path was decided by the solver '
                           'for all values within the bounds',
            'paths': tot.get('paths', 0),
            'paths_excluded_by_assumptions': tot.get('aborted', 0),
            'solver_queries': tot.get('solver_calls', 0),
            'solver_time_s': round(tot.get('solver_time', 0), 3),
            'fallback_queries': tot.get('fallback_calls', 0),
            'assertions_discharged_by_solver': tot.get('checks_discharged', 0),
            'assertions_true_by_simplification': tot.get('checks_trivial', 0),
            'assertions_undecided': tot.get('checks_unknown', 0),
            'branches_undecided_followed_both_ways': tot.get('unknown_branches', 0),
            'assertion_and_reachability_labels': labels,
            'functions_encoded': sorted(functions),
            'bounds': {cases[i].name: cases[i].bounds for i in order},
            'trace_mismatches': mismatches[:3],
            'exhaustive': not errors and not confirmed,
            'incomplete': [e[-600:] for e in errors[:10]],
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) + COMMON_ASSUMPTIONS,
        'wall_s': round(wall, 3),
        'violations': len(confirmed),
    }
    extra = getattr(mod, 'evidence_extra', None)
    if extra is not None:
        evidence['coverage'].update(extra())
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, default=str)

    print('{}: {} cases, {} paths, {} solver queries ({:.1f} s), {} assertions decided, {} traces validated, {:.1f} s'.
          format(prop, len(order), tot.get('paths', 0), tot.get('solver_calls', 0), tot.get('solver_time', 0),
                 tot.get('checks_discharged', 0) + tot.get('checks_trivial', 0), validated, wall))
    for k in known_hits:
        print('KNOWN-FINDING: property={} {}'.format(prop, k[2]))
    if mismatches:
        print('note: {} explored paths behave differently on the plain code'.format(len(mismatches)))
        if args.v:
            for m in mismatches:
                print(json.dumps(m, default=str)[:1500])
    if confirmed:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        case, v, values, outcome = confirmed[0]
        path = os.path.join('replays', '{}-{}.json'.format(prop, re.sub('[^A-Za-z0-9_.=-]+', '_', case.name)))
        with open(os.path.join(VERIF, path), 'w') as f:
            json.dump({
                'prop': prop, 'tier': tier, 'items': [{'case': case.name, 'values': values}],
                'label': v['label'], 'outcome': outcome, 'solver_detail': v['detail'],
                'rerun': 'cd /verif && ./run_check.sh --replay <this file>'
            }, f, indent=1, default=str)
        print('case {}: {} (replayed: {} {})'.format(case.name, v['label'], outcome.get('label'),
                                                     str(outcome.get('detail', ''))[-600:]))
        print('inputs: {}'.format(json.dumps(values)[:1000]))
        print('VIOLATION property={} replay={}'.format(prop, path), flush=True)
        return 1
    if errors:
        # Nothing that was explored breaks the property, but the exploration is not
        # exhaustive: stated in the output and the evidence ('exhaustive': false).
        decided = tot.get('checks_discharged', 0) + tot.get('checks_trivial', 0)
        strict = os.environ.get('VERIF_STRICT') or not decided
        for e in errors[:10]:
            print(('ERROR: ' if strict else 'INCOMPLETE: ') + e[-700:])
        return 2 if strict else 0
    return 0


COMMON_ASSUMPTIONS = [
    'symbolic numbers are exact reals; double rounding is outside of the claim (except for C27), equalities are '
    'asserted up to 1e-6',
    'trusted: CPython, numpy object arrays, the symbolic operand classes in symx/, z3 (cvc5 as a fallback)',
]

if __name__ == '__main__':
    sys.exit(main())
