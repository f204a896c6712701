"""Worker process: runs cases of one check against one build variant, one JSON line each."""
import faulthandler
import importlib
import io
import json
import os
import re
import sys
import time
import traceback
import warnings


class TsanLog(object):
    """Reports of the thread sanitizer that concern the package."""

    def __init__(self, build_dir):
        opts = dict(x.split('=', 1) for x in os.environ.get('TSAN_OPTIONS', '').split(':') if '=' in x)
        self.path = '%s.%d' % (opts.get('log_path', ''), os.getpid())
        self.pos = 0
        self.build_dir = build_dir

    def new(self):
        try:
            with open(self.path, errors='replace') as f:
                f.seek(self.pos)
                txt = f.read()
                self.pos = f.tell()
        except OSError:
            return []
        out = []
        for blk in txt.split('=================='):
            if 'WARNING: ThreadSanitizer' not in blk or self.build_dir not in blk and 'qmeq' not in blk:
                continue
            acc = re.findall(r'^\s+(?:Previous )?(?:atomic )?(Write|Read|write|read) of size (\d+)', blk, re.M)
            small = len(acc) >= 2 and all(int(n) < 8 for _, n in acc[:2])
            writes = len(acc) >= 2 and all(k.lower() == 'write' for k, _ in acc[:2])
            where = re.findall(r'#0 (\S+)', blk)[:2]
            if len(where) == 2 and all(x.startswith('__Pyx_') for x in where):
                # reference counts of array views, kept by Cython itself
                continue
            out.append(dict(flag=small and writes, where='|'.join(sorted(set(x[-60:] for x in where))), text=blk.strip()[:1800]))
        return out


def main():
    check_id, build_dir, variant, tier = sys.argv[1:5]
    out = os.fdopen(os.dup(1), 'w')
    # whatever the package prints goes to a buffer, never to the protocol stream
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    faulthandler.enable()
    sys.path.insert(0, build_dir)
    verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(1, verif)
    os.environ['QMON_BUILD'] = build_dir
    os.environ['QMON_VARIANT'] = variant
    warnings.simplefilter('ignore')
    import numpy as np
    np.seterr(all='ignore')
    mod = importlib.import_module('checks.' + check_id.lower())
    from qmon.mon import Monitor, Inconclusive, in_package
    setup_err = None
    if getattr(mod, 'NEEDS_BUILD', True):
        import qmeq
        if not os.path.abspath(qmeq.__file__).startswith(build_dir):
            setup_err = 'qmeq imported from ' + qmeq.__file__
        if variant != 'pure':
            names = ['qmeq.approach.c_aprclass', 'qmeq.approach.base.c_pauli', 'qmeq.approach.base.c_RTD',
                     'qmeq.approach.elph.c_lindblad', 'qmeq.specfunc.c_specfunc']
            for n in names:
                m = importlib.import_module(n)
                if not (m.__file__.endswith('.so') and m.__file__.startswith(build_dir)):
                    setup_err = 'compiled module missing: ' + n
    out.write(json.dumps(dict(hello=True, error=setup_err)) + '\n')
    out.flush()
    unraisable = []

    def hook(u):
        unraisable.append('%s: %s (%r)' % (getattr(u.exc_type, '__name__', u.exc_type), u.exc_value, u.object))
    sys.unraisablehook = hook
    tsan = TsanLog(build_dir) if variant == 'tsan' else None

    for line in sys.stdin:
        case = json.loads(line)
        mon = Monitor(case)
        t0 = time.time()
        res = dict(id=case['_id'], status='ok')
        buf = io.StringIO()
        old = sys.stdout
        sys.stdout = buf
        del unraisable[:]
        try:
            mod.run_case(case, mon)
        except Inconclusive as e:
            res['status'] = 'inconclusive'
            res['why'] = str(e)[:300]
        except Exception as e:
            if in_package(e.__traceback__, build_dir):
                tb = traceback.format_exc()
                mon.bad('exception', 'valid input raised %r\n%s' % (e, tb[-1200:]), sig=type(e).__name__)
            else:
                res['status'] = 'error'
                res['why'] = traceback.format_exc()[-2500:]
        finally:
            sys.stdout = old
        if unraisable:
            if getattr(mod, 'UNRAISABLE_IS_VIOLATION', True):
                mon.bad('swallowed-exception', '; '.join(unraisable[:4]), sig=unraisable[0].split(':')[0])
        if tsan:
            for r in tsan.new():
                if r['flag']:
                    # several threads store the same value in a flag that is read after the parallel section
                    mon.ev('flag-stores')
                    continue
                mon.bad('race', r['text'], sig=r['where'])
        res.update(mon.report())
        res['t'] = round(time.time() - t0, 4)
        if os.environ.get('QMON_ECHO'):
            sys.stderr.write(buf.getvalue())
        out.write(json.dumps(res, default=lambda o: o.item() if hasattr(o, 'item') else str(o)) + '\n')
        out.flush()


if __name__ == '__main__':
    main()
