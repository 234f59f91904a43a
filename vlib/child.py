"""Executor: runs cases of one property against the real library."""
import json
import os
import sys
import traceback

out = os.fdopen(os.dup(1), 'wb')
devnull = os.open(os.devnull, os.O_WRONLY)
os.dup2(devnull, 1)          # the library prints
cases = os.fdopen(os.dup(0), 'rb')
os.dup2(os.open(os.devnull, os.O_RDONLY), 0)

import importlib                                          # noqa: E402
import resource                                           # noqa: E402
import warnings                                           # noqa: E402
warnings.simplefilter('ignore')
if not os.environ.get('LD_PRELOAD'):
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
sys.stdout = open(os.devnull, 'w')


def main():
    pid = sys.argv[1]
    prop = None
    for line in cases:
        msg = json.loads(line.decode())
        try:
            if prop is None:
                from vlib import api                      # noqa: F401
                prop = importlib.import_module('vlib.props.' + pid.lower())
            from vlib import api
            api.reset()
            nt, labels = prop.check(msg['sub'], msg['case'])
            res = {'ok': True, 'nt': bool(nt), 'labels': list(labels)}
        except BaseException as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = ' <- '.join('%s:%d' % (os.path.basename(f.filename),
                                           f.lineno) for f in tb[-4:][::-1])
            res = {'ok': False,
                   'msg': '%s: %s [%s]' % (type(e).__name__, str(e)[:1200],
                                           where)}
        out.write((json.dumps(res) + '\n').encode())
        out.flush()


main()
