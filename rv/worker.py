"""Worker process: runs the cases index, index+stride, ... of one property in one mode."""
import faulthandler
import importlib
import json
import os
import sys
import tempfile
import time
import warnings


def raised_by_code_under_test(e, prefix):
    """The innermost frame that is ours or uberjob's is uberjob's."""
    ours = os.path.dirname(os.path.abspath(__file__)) + os.sep
    last = None
    tb = e.__traceback__
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if f.startswith(prefix):
            last = "uberjob"
        elif f.startswith(ours):
            last = "ours"
        tb = tb.tb_next
    return last == "uberjob"


def main():
    prop, seed, tier, start, stride, end, mode, fd, scratch = sys.argv[1:10]
    seed, start, stride, end, fd = int(seed), int(start), int(stride), int(end), int(fd)
    out = os.fdopen(fd, "w", buffering=1)
    # Registered programs print; keep our protocol channel separate.
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    faulthandler.enable()
    import signal

    faulthandler.register(signal.SIGUSR1, all_threads=True)
    warnings.simplefilter("ignore")
    sys.dont_write_bytecode = True
    from rv import core, detsched

    if mode == "det":
        detsched.install()
    import uberjob

    core.UBERJOB_PREFIX = os.path.dirname(os.path.abspath(uberjob.__file__)) + os.sep
    if mode == "det":
        # Bounded exploration wants small thread pools by default.
        pass
    from rv import hist

    signal.signal(signal.SIGINT, hist.on_sigint)
    mod = importlib.import_module(f"rv.props.{prop.lower()}")

    def emit(d):
        out.write(json.dumps(d) + "\n")
        out.flush()

    emit({"hello": os.getpid()})
    SLOW = float(os.environ.get("RV_SLOW", "0"))
    tb = float(os.environ.get("RV_DEADLINE", "0"))
    import gc

    for index in range(start, end, stride):
        if tb and time.time() > tb:
            emit({"timeup": index})
            break
        case = core.Case(prop, seed, tier, index, mode, emit, scratch)
        emit({"b": index})
        t0 = time.time()

        def hang(info, case=case):
            case.violate("hang: the run can make no further progress", **info)
            finish(case)
            os._exit(78)

        case.hang = hang

        def finish(case):
            emit(
                {
                    "e": case.index,
                    "v": case.violations,
                    "c": case.counts,
                    "k": case.keys,
                    "s": case.samples if case.index < 16 or case.violations else [],
                    "mode": mode,
                }
            )

        try:
            mod.run_case(case)
        except core.CaseAbort as e:
            emit({"abort": str(e), "e": case.index, "v": [], "c": {}, "k": [], "s": []})
            continue
        except BaseException as e:
            import traceback

            if isinstance(e, KeyboardInterrupt) and prop == "C17":
                case.violate("stray KeyboardInterrupt escaped the run", tb=traceback.format_exc())
            elif getattr(mod, "CRASH", "violation") == "violation" and raised_by_code_under_test(e, core.UBERJOB_PREFIX):
                case.violate(f"unexpected exception from uberjob: {type(e).__name__}: {str(e)[:200]}", tb=traceback.format_exc()[-3000:])
            else:
                emit({"error": traceback.format_exc()[-3000:], "e": case.index, "v": case.violations, "c": case.counts, "k": [], "s": []})
                if case.restart:
                    os._exit(79)
                continue
        if SLOW and time.time() - t0 > SLOW:
            with open("/tmp/rv_slow.log", "a") as f:
                print(f"{prop} case {index} {mode} {time.time() - t0:.1f} s {case.notes}"[:600], file=f)
        finish(case)
        if case.restart:
            out.flush()
            os._exit(79)
        if index % 64 == 0:
            gc.collect()
    emit({"done": 1})
    out.flush()
    os._exit(0)


main()
