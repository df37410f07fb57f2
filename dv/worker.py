"""Verify one unit (a contract on a function, or a lemma over contracts) in its own process; JSON result."""
import json
import os
import sys
import time
import traceback


def record(o):
    return dict(fn=o.fn, label=o.label, status=o.res.status, backend=o.res.backend, secs=round(o.res.secs, 4),
                model=str(o.res.model)[:3000] if o.res.model is not None and not o.res.ok else None)


def dump(res, outp):
    tmp = outp + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(res, f)
    os.replace(tmp, outp)


def main():
    unit, outp = sys.argv[1], sys.argv[2]
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    t0 = time.time()
    res = dict(unit=unit, obligations=[], error=None, notes=[])
    try:
        from dv import boot
        boot.setup()
        boot.check_import()
        from dv import fw, prove as PV
        from dv.sem import Unsupported
        from contracts import plan
        if unit.startswith('lemma:'):
            outs = getattr(plan, 'LEMMAS')[unit[6:]]()
        elif unit.startswith('exec:'):
            outs = getattr(plan, 'EXECS')[unit[5:]]()
        else:
            name, _, k = unit.partition('@')
            ct = fw.REGISTRY[name]
            vs = ct.variants()
            class Sink(list):
                last = time.time()

                def append(self, o):
                    super().append(o)
                    res['obligations'].append(record(o))
                    if time.time() - Sink.last > 5:      # what is known if the time runs out
                        Sink.last = time.time()
                        dump(dict(res, error='timeout', secs=round(time.time() - t0, 2)), outp)
            outs = Sink()
            for i in ([int(k)] if k else range(len(vs))):
                fw.verify(ct, plan.USE.get(name, plan.USE.get(ct.fname, [])), variant=vs[i], sink=outs)
        if not res['obligations']:
            res['obligations'] = [record(o) for o in outs]
        res['notes'] = sorted(getattr(fw, 'NOTES', set()))
        if not outs:
            res['error'] = 'no obligations were generated'
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        tb = traceback.extract_tb(e.__traceback__)
        res['error'] = f'{type(e).__name__}: {str(e)[:500]}'
        res['where'] = [f'{os.path.basename(f.filename)}:{f.lineno}' for f in tb if 'site-packages' not in f.filename][-10:]
    res['secs'] = round(time.time() - t0, 2)
    dump(res, outp)


if __name__ == '__main__':
    main()
