"""Replay process: the plainly loaded projectq, concrete values."""
import json
import os
import signal
import sys
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    out = os.fdopen(os.dup(1), 'w')
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    from vf import engine, runner
    mod = runner.get_module(prop, False)
    cases = {c.name: c for c in mod.cases(tier)}
    import gc
    gc.freeze()

    def say(**k):
        out.write(json.dumps(k) + '\n')
        out.flush()
    say(result='ready')
    for line in sys.stdin:
        m = json.loads(line)
        c = cases.get(m['case'])
        if c is None:
            say(result='abort', label='', detail='no such case')
            continue
        h = engine.Concrete(m['values'], m['choices'], 7)
        gc.disable()
        res = dict(result='ok', label='', detail='')
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(50)
        try:
            c.fn(h, **c.params)
        except engine.PathAbort:
            res = dict(result='abort', label='', detail='')
        except engine.Violation as e:
            res = dict(result='violation', label=e.label, detail=e.detail[:1500])
        except engine.Unsupported as e:
            res = dict(result='abort', label='', detail='unsupported ' + str(e))
        except TimeoutError:
            res = dict(result='dead', label='', detail='timeout')
        except Exception as e:
            res = dict(result='exception', label='exception:' + type(e).__name__,
                       detail=str(e)[:300] + ' @ ' + engine._where(e))
        signal.alarm(0)
        engine.quiet_cleanup()
        say(**res)


def _alarm(*a):
    raise TimeoutError()


if __name__ == '__main__':
    main()
    os._exit(0)
