"""Runs a check in a child process, so that a crash of the interpreter inside the code under test is a verdict too."""
import faulthandler
import json
import os
import resource
import shutil
import signal
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CRASHES = (signal.SIGSEGV, signal.SIGBUS, signal.SIGFPE, signal.SIGABRT, signal.SIGILL)
# Far above what a check needs: a read of absurd size is a MemoryError, and not the end of the process
MEMORY = 16 << 30


def guarded(prop, check):
    scratch = tempfile.mkdtemp(prefix='rsb-run-')
    os.environ['TMPDIR'] = scratch
    tempfile.tempdir = None
    trace = os.path.join(scratch, 'stack')
    with open(trace, 'w') as f:
        pid = os.fork()
        if pid == 0:
            faulthandler.enable(f)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
            sys.exit(check())
    for s in (signal.SIGTERM, signal.SIGINT):
        signal.signal(s, lambda n, _: os.kill(pid, n))
    status = os.waitpid(pid, 0)[1]
    with open(trace) as f:
        stack = f.read()
    shutil.rmtree(scratch, ignore_errors=True)
    code = os.waitstatus_to_exitcode(status)
    if code >= 0:
        return code
    if -code in CRASHES and '/repo/rsbeams/' in stack:
        where = [line.strip() for line in stack.split('\n') if line.startswith('  File')]
        path = os.path.join(VERIF, 'evidence', 'replay', '%s-crash.json' % prop)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w') as f:
            json.dump({'property': prop, 'mechanism': 'crash', 'signal': signal.Signals(-code).name, 'stack': where,
                       'rerun': 'VERIF_SEED=%s VERIF_TIER=%s /opt/venv/bin/python run.py %s'
                                % (os.environ.get('VERIF_SEED', '1'), os.environ.get('VERIF_TIER', 'quick'), prop)}, f, indent=1)
        print('crash: %s in %s' % (signal.Signals(-code).name, next(w for w in where if '/repo/rsbeams/' in w)))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    print('INCONCLUSIVE property=%s ended by signal %d' % (prop, -code))
    return 3
