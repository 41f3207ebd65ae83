"""Running a part of a case in a process of its own."""
import collections
import gc
import importlib
import os
import pickle
import signal

import h5py  # noqa: F401, pylint: disable=unused-import
import scipy.io  # noqa: F401, loaded once for all children

from lib import core


def run(ctx, fn, seconds=60):
    """Run ``fn(ctx)`` in a forked process.

    Its events, states, log lines and violations count for this case.

    Returns:
        None, or the number of the signal that ended the process.
    """
    importlib.import_module('dsch.frontend')
    gc.collect()
    read_end, write_end = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(read_end)
        _child(ctx, fn, write_end, seconds)
    os.close(write_end)
    with os.fdopen(read_end, 'rb') as pipe:
        data = pipe.read()
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status):
        return os.WTERMSIG(status)
    kind, message, mechanism, events, states, log, sample = pickle.loads(data)
    ctx.events.update(events)
    ctx.states.update(states)
    ctx.log_lines.extend(log)
    ctx.sample = sample or ctx.sample
    if kind == 'violation':
        raise core.Violation(message, mechanism)
    if kind == 'inconclusive':
        raise core.Inconclusive(message)
    if kind == 'error':
        raise AssertionError(message)
    return None


def _child(ctx, fn, fd, seconds):
    try:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        signal.alarm(seconds)
        ctx.events = collections.Counter()
        ctx.states = set()
        ctx.log_lines = []
        result = 'ok', '', None
        try:
            fn(ctx)
        except BaseException as err:  # pylint: disable=broad-except
            result = core.classify(err)
        data = pickle.dumps(result + (dict(ctx.events), ctx.states,
                                      ctx.log_lines, ctx.sample))
        while data:
            data = data[os.write(fd, data):]
    finally:
        # Without any cleanup, which might flush or report something.
        os._exit(0)
