"""Runs under LD_PRELOAD=fi.so. Reads one JSON request per line: {cwd, sends:[kwargs...], plan, log};
forks, runs CopySender(...).send() with the injector armed, answers one JSON line."""
import ctypes
import json
import os
import sys
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
import shutil, tempfile, datetime, pathlib, stat, errno  # noqa  (no imports while armed)
from impactutils.transfer.factory import get_sender_class
lib = ctypes.CDLL(None)
Copy = get_sender_class('copy')
datetime.datetime.utcnow().strftime('%Y%m%d')
os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
out = os.dup(1)
os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
for line in sys.stdin:
    req = json.loads(line)
    r, w = os.pipe()
    lr, lw = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        os.close(lr)
        os.chdir(req['cwd'])
        res = {}
        try:
            s = Copy(properties={'remote_directory': req['remote']}, **req['kw'])
            plan = bytes(req['plan'])
            lib.fi_arm(req['cwd'].encode(), plan, len(plan), lw)
            try:
                if req['op'] == 'send':
                    ret = s.send()
                    n = ret[0]
                else:
                    s.cancel(req['text'])
                    n = None
                lib.fi_disarm()
                res = {'ok': True, 'n': n}
            except Exception as e:
                lib.fi_disarm()
                res = {'ok': False, 'err': type(e).__name__ + ': ' + str(e)}
        except BaseException as e:
            res = {'ok': False, 'err': 'HARNESS ' + repr(e)}
        os.write(w, json.dumps(res).encode())
        os._exit(0)
    os.close(w)
    os.close(lw)
    data = b''
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    log = b''
    while True:
        b = os.read(lr, 65536)
        if not b:
            break
        log += b
    os.close(r)
    os.close(lr)
    _, st = os.waitpid(pid, 0)
    res = json.loads(data) if data else {'killed': os.waitstatus_to_exitcode(st)}
    res['log'] = log.decode()
    os.write(out, (json.dumps(res) + '\n').encode())
