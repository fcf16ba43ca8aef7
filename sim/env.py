"""Starting a simulated process: which code runs, and with which seams.

boot() must be called once, before anything imports redeclipse.
"""
import ctypes
import os
import sys

REPO = os.path.realpath(os.environ.get('VERIF_REPO', '/repo'))
PKG = os.path.join(REPO, 'redeclipse') + os.sep
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable

STEPS = None
_booted = False


def settle(argv, hashseed='0', marker='VERIF_SETTLED'):
    """Re-execute this program with a fixed hash seed and no address-space
    randomisation, so that nothing outside the simulator varies."""
    if os.environ.get(marker) == hashseed:
        return
    try:
        libc = ctypes.CDLL(None, use_errno=True)
        libc.personality(libc.personality(0xffffffff) | 0x0040000)
    except Exception:
        pass
    os.environ.update(clean_env(hashseed))
    os.environ[marker] = hashseed
    os.execv(PYTHON, [PYTHON, '-B'] + argv)


def clean_env(hashseed):
    return {'PYTHONHASHSEED': hashseed, 'TQDM_DISABLE': '1', 'PYTHONDONTWRITEBYTECODE': '1',
            'PYTHONWARNINGS': 'ignore', 'LC_ALL': 'C.UTF-8', 'TZ': 'UTC', 'PYTHONPATH': ''}


def boot(steps=True, vary=None):
    global STEPS, _booted
    if _booted:
        return
    _booted = True
    sys.dont_write_bytecode = True
    # Never trust cached bytecode: it is keyed by time and size only.
    sys.pycache_prefix = '/nonexistent/pycache'
    os.environ['TQDM_DISABLE'] = '1'
    import warnings
    warnings.simplefilter('ignore')
    # Dependencies and the standard library see the real system while they load.
    import argparse, base64, bisect, collections, colorsys, copy, csv, datetime, decimal, fractions  # noqa
    import functools, gzip, hashlib, heapq, io, itertools, json, logging, lzma, math, operator, pickle  # noqa
    import queue, random, secrets, shutil, socket, statistics, string, struct, subprocess, tempfile  # noqa
    import threading, time, traceback, uuid, zipfile, zlib, bz2, glob, fnmatch, pathlib, contextlib  # noqa
    import concurrent.futures, multiprocessing, asyncio  # noqa
    import tqdm, simplejson, noise, kaitaistruct, bresenham  # noqa
    import pkg_resources  # noqa
    import encodings.utf_8, encodings.ascii, encodings.latin_1  # noqa
    from . import rng, clock, fs
    if steps:
        from .steps import Steps
        STEPS = Steps(PKG)
    rng.install()
    clock.install()
    fs.install()
    sys.path.insert(0, REPO)
    logging.disable(logging.CRITICAL)
    rng.SIM.begin(22 if vary is None else 'start/%s' % vary)
    if vary is not None:
        rng.set_entropy('start/%s' % vary)
        clock.CLOCK.set(1.6e9 + int(vary) * 1e5)
        global _heap
        _heap = litter(rng.StockRandom('heap/%s' % vary), 3000)
    import redeclipse  # noqa
    got = os.path.realpath(redeclipse.__file__)
    if not got.startswith(PKG):
        raise RuntimeError('redeclipse comes from %s' % got)
    load_all()


def litter(r, n):
    """Leave holes of all sizes in the heap, so that objects made later get
    addresses in an order of their own.  Returns what must be kept."""
    class Thing:
        def __init__(self):
            self.a = self.b = None
    make = (object, lambda: [0] * r.randrange(12), dict, Thing, Thing, lambda: bytes(r.randrange(480)), lambda: (r.random(), r.random()),
            lambda: bytes(r.randrange(500, 4000)), lambda: type('T', (), {}), lambda: set(range(r.randrange(40))))
    keep = [r.choice(make)() for _ in range(n)]
    r.shuffle(keep)
    return keep[:n // 2]


def load_all():
    """Import the library's modules, as any program using it would."""
    import importlib
    import io
    import sys as _s
    out, err = _s.stdout, _s.stderr
    _s.stdout = _s.stderr = io.StringIO()
    try:
        for m in ('redeclipse.objects', 'redeclipse.voxel', 'redeclipse.vector.orientations', 'redeclipse.prefabs',
                  'redeclipse.prefabs.magica', 'redeclipse.prefabs.castle', 'redeclipse.prefabs.dungeon',
                  'redeclipse.prefabs.egypt', 'redeclipse.prefabs.original', 'redeclipse.prefabs.spacestation',
                  'redeclipse.upm', 'redeclipse.textures', 'redeclipse.skybox', 'redeclipse.worldflavors',
                  'redeclipse.aftereffects', 'redeclipse.magicavoxel.reader', 'redeclipse.magicavoxel.writer',
                  'redeclipse.entities', 'redeclipse.entities.model', 'redeclipse.entities.weapon',
                  'redeclipse.lighting', 'redeclipse.cli', 'redeclipse.cli.magica_rooms'):
            importlib.import_module(m)
    finally:
        _s.stdout, _s.stderr = out, err
