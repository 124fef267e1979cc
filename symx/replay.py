"""Runs harnesses on concrete values against the plain, unpatched code."""

import importlib
import json
import sys
import traceback


def to_plain(v):
    import numpy as np
    if isinstance(v, np.ndarray):
        return to_plain(v.tolist())
    if isinstance(v, (list, tuple)):
        return [to_plain(x) for x in v]
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, (int, np.integer)):
        return int(v)
    if isinstance(v, (float, np.floating)):
        return float(v)
    if v is None or isinstance(v, str):
        return v
    return str(v)


def run_item(case, values):
    from symx.concrete import ConcreteCtx, ConcreteCheckFailed, PathAbort
    ctx = ConcreteCtx(values)
    try:
        case.run(ctx)
        return {'status': 'ok', 'obs': to_plain(ctx.obs), 'labels': ctx.labels}
    except ConcreteCheckFailed:
        label, detail = ctx.failures[-1]
        return {'status': 'failed', 'label': label, 'detail': detail, 'obs': to_plain(ctx.obs)}
    except PathAbort as e:
        if ctx.failures:
            label, detail = ctx.failures[-1]
            return {'status': 'failed', 'label': label, 'detail': detail}
        return {'status': 'aborted', 'label': None, 'detail': str(e)}
    except BaseException as e:  # pylint: disable=broad-except
        if ctx.failures:
            label, detail = ctx.failures[-1]
            return {'status': 'failed', 'label': label, 'detail': detail}
        return {
            'status': 'exception',
            'label': 'exception:' + type(e).__name__,
            'detail': ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
        }


def main(inp, outp=None):
    from symx import bootstrap
    bootstrap.plain()
    with open(inp) as f:
        data = json.load(f)
    mod = importlib.import_module('harness.' + data['prop'].lower())
    cases = {c.name: c for c in mod.cases(data['tier'])}
    bad = False
    for item in data['items']:
        r = run_item(cases[item['case']], item['values'])
        bad = bad or r['status'] in ('failed', 'exception')
        if outp is None:
            print(json.dumps(r, indent=1))
        else:
            with open(outp, 'a') as f:
                f.write(json.dumps(r, default=str) + '\n')
    return 1 if bad and outp is None else 0


if __name__ == '__main__':
    sys.exit(main(*sys.argv[1:]))
