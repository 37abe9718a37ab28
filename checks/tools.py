"""Runs the command line tools of the tree, in this process or in one of their own."""
import io, os, sys, runpy, signal, subprocess, time, contextlib
import repo
from framework import Hang

DIR = os.path.join(repo.REPO, 'tools')


class Timeout(BaseException): pass


def inprocess(tool, text, argv=(), limit=60):
    """(exit status, standard output, what ended it)"""
    out, err = io.StringIO(), io.StringIO()
    old = sys.argv, sys.stdin, sys.path[:]

    def alarm(*a): raise Timeout()
    oldsig = signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    sys.argv = [tool] + list(argv)
    sys.stdin = io.TextIOWrapper(io.BytesIO(text.encode('utf-8', 'surrogateescape')), encoding='utf-8')
    why, t0 = '', time.process_time()
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                runpy.run_path(os.path.join(DIR, tool), run_name='__main__')
                rc = 0
            except SystemExit as e:
                rc = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
                why = '' if e.code is None else str(e.code)
            except Hang: raise
            except Timeout:
                if time.process_time() - t0 > limit / 3: raise Hang('%s still runs after %d s' % (tool, limit))
                rc, why = 'hang', 'still waiting after %d s' % limit
            except BaseException as e: rc, why = 1, '%s: %s' % (type(e).__name__, str(e)[:300])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, oldsig)
        sys.argv, sys.stdin = old[0], old[1]
        sys.path[:] = old[2]
    return rc, out.getvalue(), why + err.getvalue()[:300]


def subprocessed(tool, text, argv=(), limit=60):
    env = {'PATH': os.environ.get('PATH', '/usr/bin:/bin'), 'PYTHONPATH': os.pathsep.join([repo.REPO, repo.VENV]), 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONIOENCODING': 'utf-8', 'LANG': 'C.UTF-8'}
    try: p = subprocess.run([sys.executable, os.path.join(DIR, tool)] + list(argv), input=text.encode('utf-8', 'surrogateescape'), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=limit, cwd='/')
    except subprocess.TimeoutExpired: raise Hang('%s still runs after %d s' % (tool, limit))
    return p.returncode, p.stdout.decode('utf-8', 'replace'), p.stderr.decode('utf-8', 'replace')[-300:]
