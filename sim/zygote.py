"""Fresh interpreters to compare: each differs in hash seed, in the random
state, clock and entropy it was started with, and forks once per request."""
import json
import os
import struct
import subprocess
import sys

from . import env


def _read(fd, n):
    from .fs import R
    buf = b''
    while len(buf) < n:
        c = R['read'](fd, n - len(buf))
        if not c:
            raise EOFError
        buf += c
    return buf


def _write(fd, data):
    from .fs import R
    o = 0
    while o < len(data):
        o += R['write'](fd, data[o:o + 65536])


class Zygote:
    def __init__(self, hashseed):
        self.p = subprocess.Popen([env.PYTHON, '-B', os.path.join(env.VERIF, 'check.py'), 'zygote', '-', '--hashseed', str(hashseed)],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, bufsize=0,
                                  env={k: v for k, v in os.environ.items() if k != 'VERIF_SETTLED'})

    def ask(self, obj):
        d = json.dumps(obj).encode()
        _write(self.p.stdin.fileno(), struct.pack('<Q', len(d)) + d)
        fd = self.p.stdout.fileno()
        n = struct.unpack('<Q', _read(fd, 8))[0]
        return json.loads(_read(fd, n))


POOL = {}


def get(hashseed):
    if hashseed not in POOL:
        POOL[hashseed] = Zygote(hashseed)
    return POOL[hashseed]


def serve(hashseed):
    """The body of such an interpreter."""
    rd, wr = os.dup(0), os.dup(1)
    nul = os.open(os.devnull, os.O_RDWR)
    for fd in (0, 1, 2):
        os.dup2(nul, fd)
    env.boot(steps=False, vary=hashseed)
    import gc
    import importlib
    importlib.import_module('props.p13')
    gc.collect()
    gc.freeze()
    while True:
        try:
            head = _read(rd, 8)
        except EOFError:
            os._exit(0)
        pid = os.fork()
        if pid == 0:
            try:
                req = json.loads(_read(rd, struct.unpack('<Q', head)[0]))
                try:
                    res = importlib.import_module(req['module']).produce(req)
                except BaseException:
                    import traceback
                    res = {'harness': traceback.format_exc()}
                d = json.dumps(res).encode()
                _write(wr, struct.pack('<Q', len(d)) + d)
            finally:
                os._exit(0)
        os.waitpid(pid, 0)
