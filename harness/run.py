"""Runtime-contract stage: run under /opt/venv python with PYTHONPATH=/repo:/verif."""
import importlib
import json
import os
import sys
import traceback
import warnings
warnings.simplefilter("ignore")
sys.dont_write_bytecode = True


def outermost(frame):
    """the call of the code under test the main thread is in, if any"""
    found = None
    while frame is not None:
        if (os.sep + "refextract" + os.sep) in frame.f_code.co_filename:
            found = frame
        frame = frame.f_back
    return found


def watch(rep, main_id, write):
    """a call that does not come back although it is outside of lib.outcome's limit"""
    import time
    last, since, cpu = None, 0, 0
    while True:
        time.sleep(2)
        f = outermost(sys._current_frames().get(main_id))
        if f is None or f is not last:
            last, since, cpu = f, time.time(), time.process_time()
        elif time.time() - since > 90 and time.process_time() - cpu > 60:
            rep.fail("returns", "hang", function=f.f_code.co_name, arguments={k: repr(v)[:1500] for k, v in list(f.f_locals.items())[:20]})
            write(None)
            os._exit(0)


def main():
    pid, tier, seed, out = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4]
    import logging
    logging.disable(logging.CRITICAL)
    from harness.lib import Enough, Report
    rep = Report(pid, tier, seed)
    err = None

    def write(err):
        d = dict(evaluations=rep.evaluations, failures=rep.failures[:50], checks=rep.checks, samples=rep.samples, skipped=rep.skipped, error=err)
        s = json.dumps(d, default=repr, indent=1)
        if out == "-":
            print(s, flush=True)
        else:
            with open(out, "w") as fh:
                fh.write(s)

    import threading
    threading.Thread(target=watch, args=(rep, threading.get_ident(), write), daemon=True).start()
    try:
        m = importlib.import_module("harness." + pid.lower())
        m.run(rep)
    except Enough:
        pass
    except Exception as ex:
        err = traceback.format_exc()
        tb = ex.__traceback__
        while tb.tb_next is not None:
            tb = tb.tb_next
        if (os.sep + "refextract" + os.sep) in tb.tb_frame.f_code.co_filename and not isinstance(ex, (ImportError, NotImplementedError)):
            # the code under test failed on an input for which the description has a result
            rep.fail("returns", "raise", got=repr(ex)[:300], traceback=err[-1500:], arguments={k: repr(v)[:1500] for k, v in list(tb.tb_frame.f_locals.items())[:20]})
    write(err)
    sys.stdout.flush()
    os._exit(0)


main()
