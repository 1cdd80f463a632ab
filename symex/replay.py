"""Replay concrete inputs on the unmodified code.

usage: replay.py REPO VERIF < batch.json     (one JSON result line per item)
       replay.py REPO VERIF --show FILE      (re-run one saved violation)

A batch item: {"mod": harness module, "fn": function, "params": {}, "values": {}}.
"""
import contextlib
import importlib
import io
import json
import os
import resource
import shutil
import signal
import sys
import tempfile
import traceback


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


def run_item(item, base, limit):
    from symex import concrete
    for n in [n for n in sys.modules if n == 'pyulog' or n.startswith(('pyulog.', 'harness.')) or n in item.get(
            'purge', ())]:
        del sys.modules[n]
    tmp = tempfile.mkdtemp(dir=base)
    cwd = os.getcwd()
    os.chdir(tmp)
    c = concrete.Ctx(item['params'], item['values'], tmp)
    res = {'id': item.get('id')}
    old = dict(sys.modules)
    oldmask = os.umask(0o022)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    so = sys.stdout
    try:
        sys.stdout = c.out
        try:
            m = importlib.import_module('harness.' + item['mod'])
            getattr(m, item['fn'])(c)
            res['r'] = 'pass'
        except concrete.Abort:
            res['r'] = 'assume'
        except concrete.Violation as e:
            res['r'], res['msg'] = 'fail', str(e)
        except Timeout:
            res['r'], res['msg'] = 'fail', 'did not terminate within %g s' % limit
            res['timeout'] = True
        except (Exception, SystemExit) as e:
            tb = traceback.extract_tb(e.__traceback__)
            res['r'], res['msg'] = 'fail', 'unexpected %s: %s (%s)' % (
                type(e).__name__, str(e)[:200],
                ' < '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in tb[:-6:-1]))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        sys.stdout = so
        os.umask(oldmask)
        os.chdir(cwd)
        for n in c.stubbed:
            if n in old:
                sys.modules[n] = old[n]
            else:
                sys.modules.pop(n, None)
        shutil.rmtree(tmp, ignore_errors=True)
    res['obs'] = c.obs
    res['checks'] = c.checks
    return res


def main():
    repo, verif = sys.argv[1], sys.argv[2]
    sys.path[:0] = [repo, verif]
    sys.dont_write_bytecode = True
    import numpy  # noqa: F401  (import before dropping privileges)
    base = tempfile.mkdtemp(prefix='symex_replay_')
    try:
        items = None
        show = len(sys.argv) > 4
        if show:
            with open(sys.argv[4]) as f:
                items = [json.load(f)]
        else:
            items = json.load(sys.stdin)
        resource.setrlimit(resource.RLIMIT_FSIZE, (256 << 20,) * 2)
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30,) * 2)
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                if os.getuid() == 0 and not os.environ.get('SYMEX_KEEP_ROOT'):
                    try:
                        os.chown(base, 65534, 65534)
                        os.setgroups([])
                        os.setegid(65534)
                        os.seteuid(65534)
                        with open(os.path.join(repo, 'pyulog', 'core.py')), open(
                                os.path.join(verif, 'symex', 'concrete.py')):
                            pass
                    except OSError:
                        os.seteuid(0)
                        os.setegid(0)
                os.environ['HOME'] = base
                limit = float(os.environ.get('SYMEX_REPLAY_LIMIT', '20'))
                for it in items:
                    r = run_item(it, base, limit)
                    print(json.dumps(r), flush=True)
                    code = 0
                    if show:
                        code = 1 if r['r'] == 'fail' else 0
            finally:
                os._exit(code)
        _, st = os.waitpid(pid, 0)
        return os.waitstatus_to_exitcode(st)
    finally:
        shutil.rmtree(base, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
