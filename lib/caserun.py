"""Runs a catalogue of cases, each an entry point of the front end with inputs of one shape, and reports per case."""
import signal
import absint, forms


class Late(Exception):
    pass


def late(*_):
    raise Late()


LIMIT = 30


def one(run, name, build):
    """(findings [(kind, text)], paths, analysed functions)"""
    signal.signal(signal.SIGALRM, late)
    signal.alarm(LIMIT)
    try:
        bad, n, fns = run(name, build)
        return [("panic" if "can panic" in x else "rule", x) for x in bad], n, fns
    except Late:
        return [("endless", "%s: the analysis does not come to an end" % name)], 0, ()
    except (absint.Stop, forms.Bad, KeyError, ValueError, TypeError, NotImplementedError, AttributeError, IndexError, RecursionError, AssertionError, StopIteration, MemoryError) as x:
        return [("unanalysed", "%s: %s: %s" % (name, type(x).__name__, str(x)[:400]))], 0, ()
    finally:
        signal.alarm(0)


def decide(ck, run, group, cases):
    """every case of the group; returns the functions analysed"""
    fns = set()
    gone = 0
    for name, build in cases:
        if gone == 2:
            # more of the same would take the time of the others
            break
        bad, n, f = one(run, name, build)
        gone += any(k == "endless" for k, _ in bad)
        ck.count(group)
        ck.count("paths", n)
        fns |= set(f)
        kinds = {k for k, _ in bad}
        # one finding per case, by the case's name: the list of what is wrong is its text
        ck.oblige(not bad, "%s:%s" % ("+".join(sorted(kinds)), name), " | ".join(x[:300] for _, x in bad[:4]))
    return fns
