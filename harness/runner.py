"""
Runs scenarios of one driver on the real code, and writes a trace for each.
A driver is a module with ``run(scenario, tmp)``, which returns the trace.
"""
import sys, os, json, signal, importlib, shutil, traceback, warnings, gc

class Hang(BaseException):
    pass

def poison():
    """
    Memory that is taken without being set has something in it, not the zeros
    that a young process has everywhere.
    """
    import numpy as np, itertools
    count = itertools.count()
    def spoiled(made):
        def make(*args, **kwds):
            arr = made(*args, **kwds)
            if type(arr) is np.ndarray and arr.dtype.kind in 'fc' \
                and next(count) % 2:
                arr[...] = np.nan
            elif type(arr) is np.ndarray and arr.dtype.kind in 'iufcV' \
                and not arr.dtype.hasobject:
                try:
                    arr.view(np.uint8)[...] = 0x5B
                except ValueError:      # not in one piece.
                    pass
            elif type(arr) is np.ndarray and arr.dtype.kind == 'b':
                arr[...] = True
            return arr
        return make
    np.empty, np.empty_like = spoiled(np.empty), spoiled(np.empty_like)

def main():
    name, fin, fout, limit = sys.argv[1:5]
    def alarm(sig, frm):
        raise Hang()
    signal.signal(signal.SIGALRM, alarm)
    warnings.simplefilter('ignore')
    poison()
    try:
        drv = importlib.import_module('drv_' + name)
        scenarios = json.load(open(fin))
    except Exception:
        # The code itself may be what can't be imported.
        tb = traceback.format_exc()
        if 'flowtracks' in tb.split('\n  File')[-1]:
            sys.stderr.write(tb)
            os._exit(3)
        print('HARNESS-ERROR', tb)
        os._exit(4)
    import numpy as np
    np.seterr(all='ignore')
    base = os.path.dirname(os.path.abspath(fout))
    hangs = 0
    with open(fout, 'w') as out:
        for n, sc in enumerate(scenarios):
            tmp = os.path.join(base, 's%d' % n)
            os.mkdir(tmp)
            os.chdir(tmp)
            if hangs >= 5:    # enough is known.
                out.write(json.dumps(dict(dead='not run, after %d that had '
                    'no answer' % hangs)) + '\n')
                continue
            signal.alarm(int(limit) if hangs < 2 else 10)
            try:
                trace = drv.run(sc, tmp)
            except Hang:
                hangs += 1
                trace = dict(dead='no answer in %s s' % limit)
            except Exception:
                signal.alarm(0)
                print('HARNESS-ERROR in scenario', json.dumps(sc)[:2000])
                traceback.print_exc(file=sys.stdout)
                sys.stdout.flush()
                os._exit(4)
            signal.alarm(0)
            os.chdir(base)
            gc.collect()
            shutil.rmtree(tmp, ignore_errors=True)
            out.write(json.dumps(trace) + '\n')
            out.flush()

main()
