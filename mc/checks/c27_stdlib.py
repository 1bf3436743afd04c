"""
C27: what modules of the standard library import at run time is in the graph.
"""
import importlib.util
import json
import os
import pkgutil
import subprocess
import sys
from itertools import combinations

from ..core import Result, expect, expect_eq
from ..util import new_graph

PROPERTY = "C27"
TITLE = "everything that modules of the standard library import at run time is in the graph"
ASSUMPTIONS = [
    "modules that are made by other modules (no module spec) and encodings that are looked up by name are not looked at",
    "the test suite and its extension modules, IDLE, the turtle demos and __main__ modules are not run",
]

#: extension modules for the test suite
TEST = ("_test", "_xx", "xx", "_ctypes_test")
SKIP_TOP = {"test", "idlelib", "turtledemo", "antigravity", "this", "__main__", "site-packages", "dist-packages", "sitecustomize", "usercustomize"}

#: programs that make C extensions (and modules that use __import__) import other modules
PROGRAMS = {
    "strptime": "import datetime\ndatetime.datetime.strptime('2020', '%Y')\n",
    "strptime2": "import time\ntime.strptime('2020', '%Y')\n",
    "c-datetime": "import _datetime\n_datetime.datetime.strptime('2020', '%Y')\n",
    "pickle": "import pickle\npickle.loads(pickle.dumps([len, {1}, object()], 2))\npickle.loads(pickle.dumps(b'x', 0), encoding='latin1')\n",
    "c-pickle": "import _pickle\n_pickle.loads(_pickle.dumps([len, b'x'], 2))\n",
    "json": "import _json\nfrom json import loads\ntry:\n    loads('{x')\nexcept ValueError:\n    pass\n",
    "c-json": "import _json\ntry:\n    _json.scanstring('x', 1)\nexcept ValueError:\n    pass\n",
    "sqlite3": "import sqlite3\nlist(sqlite3.connect(':memory:').iterdump())\n",
    "methodcaller": "import _operator\n_operator.methodcaller('x', 1, y=2).__reduce__()\n",
    "zoneinfo": "import _zoneinfo\ntry:\n    _zoneinfo.ZoneInfo('Etc/Nowhere')\nexcept Exception:\n    pass\n",
    "zoneinfo2": "import zoneinfo\ntry:\n    zoneinfo.ZoneInfo('Etc/UTC')\nexcept Exception:\n    pass\n",
    "asyncio": "import asyncio\nasync def f():\n    await asyncio.sleep(0)\nasyncio.run(f())\n",
    "c-asyncio": "import _asyncio\ntry:\n    _asyncio.Future()\nexcept Exception:\n    pass\n",
    "subprocess": "import subprocess, sys\nsubprocess.run([sys.executable, '-c', ''], preexec_fn=int)\n",
    "ssl": "import _ssl\n_ssl._SSLContext(2)\n",
    "etree": "import _elementtree, copy\ne = _elementtree.Element('a')\ne.find('b/c')\ncopy.deepcopy(e)\n_elementtree.XMLParser()\n",
    "etree2": "from xml.etree.ElementTree import fromstring\nfromstring('<a/>').find('x')\n",
    "iso2022": "import _codecs_iso2022\n[_codecs_iso2022.getcodec(n) for n in ('iso2022_jp', 'iso2022_jp_2', 'iso2022_kr', 'iso2022_jp_ext')]\n",
    "big5": "import _codecs_hk\n_codecs_hk.getcodec('big5hkscs')\n",
    "decimal": "import _decimal\n_decimal.Decimal('1.5').as_tuple()\n",
    "array": "import array, _operator\narray.array('b', b'x').__reduce_ex__(3)\n",
    "csv": "import _csv\n_csv.reader(['a,b'])\n",
    "sysconfig": "import sysconfig\nsysconfig.get_config_vars()\n",
    "dbm": "import dbm, tempfile, os\nd = tempfile.mkdtemp()\ndbm.open(os.path.join(d, 'x'), 'c').close()\ndbm.whichdb(os.path.join(d, 'x'))\nimport shutil\nshutil.rmtree(d)\n",
    "dbm-new": "import dbm, sys, tempfile, shutil\nsys.modules['_gdbm'] = sys.modules['_dbm'] = None\nd = tempfile.mkdtemp()\ntry:\n    dbm.open(d + '/x', 'c').close()\n"
    "finally:\n    shutil.rmtree(d)\n    del sys.modules['_gdbm'], sys.modules['_dbm']\n",
    "dbm-old": "import dbm, tempfile, shutil\nd = tempfile.mkdtemp()\ntry:\n    for e in ('dat', 'dir'):\n        open(d + '/x.' + e, 'w').close()\n    dbm.open(d + '/x').close()\n"
    "finally:\n    shutil.rmtree(d)\n",
    "wait4": "import posix, os\np = os.fork()\nif not p:\n    os._exit(0)\nposix.wait4(p, 0)\n",
    "wait3": "import posix, os\np = os.fork()\nif not p:\n    os._exit(0)\nposix.wait3(0)\n",
    "zipimport": "import zipimport\ntry:\n    zipimport.zipimporter('nosuch.zip')\nexcept ImportError:\n    pass\n",
    "signal": "import signal\nsignal.signal(signal.SIGTERM, signal.SIG_DFL)\n",
    "resource": "import resource\nresource.getrusage(resource.RUSAGE_SELF)\n",
    "curses-panel": "import _curses_panel\n",
    "weakref": "import _weakref, _collections\n_collections.OrderedDict(a=1).copy()\n_collections.defaultdict(int).__reduce__()\n",
    "functools": "import _functools\n_functools.partial(int, base=2).__reduce__()\n",
    "struct": "import struct\nstruct.pack('i', 1)\n",
    "random": "import _random\n_random.Random(1).getstate()\n",
    "hashlib": "import hashlib\nhashlib.new('sha256')\nhashlib.new('md5', usedforsecurity=False)\n",
    "lzma": "import _lzma, _bz2, zlib\n_lzma.LZMACompressor()\n_bz2.BZ2Compressor()\nzlib.compress(b'')\n",
    "ctypes": "import ctypes\nctypes.sizeof(ctypes.c_int)\nctypes.c_int(1).__reduce__ and ctypes.Structure\n",
    "socket": "import _socket\n_socket.socket().close()\n",
    "queue": "import _queue\n_queue.SimpleQueue().put(1)\n",
    "warnings": "import warnings\nwarnings.simplefilter('error')\ntry:\n    warnings.warn('x')\nexcept UserWarning:\n    pass\n",
    "profile": "import _lsprof\np = _lsprof.Profiler()\np.enable()\np.disable()\n",
    "ast": "import _ast, _symtable, _tokenize\n_ast.Name(id='x').__reduce__()\n",
    "io": "import _io\n_io.TextIOWrapper(_io.BytesIO(b'x'), encoding='utf-8').read()\n",
    "mmap": "import mmap\nmmap.mmap(-1, 10).close()\n",
    "expat": "import pyexpat\npyexpat.ParserCreate().Parse('<a/>')\npyexpat.errors, pyexpat.model\n",
    "expat2": "import xml.parsers.expat.errors, xml.parsers.expat.model\n",
    "typing-io": "import typing\n",
    "os.path": "import os.path\nfrom os import path\n",
    "threads": "import _thread, threading\nt = threading.Thread(target=int)\nt.start()\nt.join()\n",
    "contextvars": "import _contextvars\n_contextvars.ContextVar('x')\n",
    "multibyte": "import _codecs_jp\n_codecs_jp.getcodec('cp932')\n",
    "multibyte2": "import _codecs_cn\n_codecs_cn.getcodec('gbk')\n",
    "multibyte3": "import _codecs_kr\n_codecs_kr.getcodec('cp949')\n",
    "multibyte4": "import _codecs_tw\n_codecs_tw.getcodec('big5')\n",
    "locale": "import _locale\n_locale.setlocale(0)\n",
    "unicodedata": "import unicodedata\nunicodedata.normalize('NFC', 'x')\n",
    "posix": "import posix\nposix.stat('/')\n",
    "select": "import select\nselect.select([], [], [], 0)\n",
    "binascii": "import binascii\nbinascii.crc32(b'')\n",
    "interp": "import _xxsubinterpreters\n",
    "faulthandler": "import faulthandler, _tracemalloc, atexit\n",
    "uuid": "import uuid\nuuid.uuid1()\n",
    "fractions": "import fractions\nfractions.Fraction('1/2')\n",
    "statistics": "import statistics\nstatistics.NormalDist().inv_cdf(0.5)\n",
    "grp": "import grp, pwd, spwd, crypt\n",
    "futures": "import concurrent.futures\nconcurrent.futures.ThreadPoolExecutor(1).submit(int).result()\n",
    "futures2": "import concurrent.futures\nconcurrent.futures.ProcessPoolExecutor\n",
    "resources": "import importlib.resources\nimportlib.resources.files(importlib)\n",
    "metadata": "import importlib.metadata\nlist(importlib.metadata.distributions())\n",
    "locale2": "import locale\nlocale.getpreferredencoding()\n",
    "tempfile": "import tempfile\ntempfile.TemporaryFile().close()\n",
    "zipfile": "import zipfile\nzipfile.Path\n",
    "shutil": "import shutil\nshutil.get_archive_formats()\n",
    "inspect": "import inspect\ninspect.signature(len)\n",
    "traceback": "import traceback\ntry:\n    x\nexcept NameError:\n    traceback.format_exc()\n",
    "unittest": "import unittest.mock\nunittest.mock.Mock()\n",
    "argparse": "import argparse\nargparse.ArgumentParser().format_help()\n",
    "email": "import email\nemail.message_from_string('a: b\\n\\nx').as_string()\n",
    "logging": "import logging\nlogging.getLogger('x').warning\nlogging.basicConfig()\n",
    "runpy": "import runpy\n",
    "bisect": "import _bisect, _heapq, _statistics, _stat, _string, _abc, _sre, _opcode\n",
}

ORACLE = """
import sys
before = set(sys.modules)
err = None
try:
    exec(compile(%r, "program", "exec"), {"__name__": "program"})
except BaseException as exc:
    err = type(exc).__name__
out = []
for name, mod in list(sys.modules.items()):
    spec = getattr(mod, "__spec__", None)
    if name not in before and spec is not None:
        out.append([name, spec.name, spec.origin])
import os
os.write(%d, (str([out, err])).encode())
os._exit(0)
"""


def module_names():
    """All modules of the standard library of this interpreter"""
    std = os.path.dirname(os.__file__)
    names = {n for n in sys.stdlib_module_names}
    stack = [([std, os.path.join(std, "lib-dynload")], "")]
    while stack:
        path, prefix = stack.pop()
        for info in pkgutil.iter_modules(path):
            name = prefix + info.name
            if name.split(".")[0] in SKIP_TOP or name.endswith("__main__"):
                continue
            names.add(name)
            if info.ispkg:
                stack.append(([os.path.join(p, info.name) for p in path], name + "."))
    return sorted(n for n in names if n.split(".")[0] not in SKIP_TOP and not n.startswith(TEST))


def BOUND(tier):
    return (
        f"all {len(module_names())} modules of the standard library, {len(PROGRAMS)} programs that use extension modules such that they import "
        "other modules" + ("" if tier == "quick" else ", all pairs of these programs")
        + ": run in a new process (without site), and compared with the part of the graph that is reachable from the module or program, "
        "for graphs that contain all of them (added in three orders)" + ("" if tier == "quick" else " or one of them") + "; state = name and what is reachable"
    )


def cases(tier):
    for p in PROGRAMS:
        yield {"program": [p]}
    for n in module_names():
        yield {"module": n}
    if tier == "thorough":
        for n in module_names():
            yield {"module": n, "alone": True}
        for a, b in combinations(PROGRAMS, 2):
            yield {"program": [a, b]}


def setup_env(env):
    """The graph of everything"""
    env.graphs = {}


def graph_of(names):
    mg = new_graph()
    for n in names:
        mg.add_module(n)
    succ = {}
    for s, t, _ in mg.edges():
        succ.setdefault(s.identifier, set()).add(t.identifier)
    return {n.identifier: type(n).__name__ for n in mg.nodes()}, succ


def graph_of_all(env, order):
    if order not in env.graphs:
        names = module_names()
        if order == "down":
            names.reverse()
        elif order == "long":
            names.sort(key=lambda n: (-n.count("."), n))
        env.graphs[order] = graph_of(names)
    return env.graphs[order]


def run(text):
    r, w = os.pipe()
    try:
        p = subprocess.Popen(
            [sys.executable, "-S", "-E", "-B", "-X", "frozen_modules=on", "-c", ORACLE % (text, w)], pass_fds=(w,), stdin=subprocess.DEVNULL,
            stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
        )
        os.close(w)
        w = None
        with os.fdopen(r, "rb") as fp:
            data = fp.read()
        p.wait()
    finally:
        if w is not None:
            os.close(w)
    import ast

    return ast.literal_eval(data.decode())


def closure(succ, start):
    seen, todo = set(start), list(start)
    while todo:
        for y in succ.get(todo.pop(), ()):
            if y not in seen:
                seen.add(y)
                todo.append(y)
    return seen


def check_loaded(what, loaded, kinds, reach):
    for name, real, origin in loaded:
        if real.startswith("encodings.") and real not in reach:
            continue
        expect(real in reach, f"{what} imports {real!r} ({origin}), which is not in the graph")
        expect(kinds[real] not in ("MissingModule", "ExcludedModule", "InvalidModule"), f"{what} imports {real!r} ({origin}), which is a {kinds[real]}")
        if name != real and not name.startswith("__"):
            expect(name not in reach or kinds[name] == "AliasNode", f"{what} imports {name!r}, another name of {real!r}, which is a {kinds.get(name)}")


def run_case(case, env):
    res = Result()
    if "module" in case:
        text = f"import {case['module']}\n"
    else:
        text = "".join(PROGRAMS[p] for p in case["program"])
    loaded, err = run(text)
    with env.case() as d:
        if "module" in case:
            if case.get("alone"):
                graphs = [graph_of([case["module"]])]
            else:
                graphs = [graph_of_all(env, order) for order in ("up", "down", "long")]
            what, start = f"module {case['module']}", [case["module"]]
        else:
            path = os.path.join(d, "program.py")
            with open(path, "w") as fp:
                fp.write(text)
            mg = new_graph()
            mg.add_script(path)
            kinds, succ = {n.identifier: type(n).__name__ for n in mg.nodes()}, {}
            for s, t, _ in mg.edges():
                succ.setdefault(s.identifier, set()).add(t.identifier)
            graphs = [(kinds, succ)]
            what, start = f"program {case['program']}", [path]
        for kinds, succ in graphs:
            reach = closure(succ, start)
            check_loaded(what, loaded, kinds, reach)
            if "module" in case and err is None:
                expect(kinds[case["module"]] not in ("MissingModule", "InvalidModule"), f"{what} can be imported but is a {kinds[case['module']]}")
            res.step(len(reach))
            res.state([case, sorted(reach)])
    res.outcome = [err, len(loaded) // 20, len(reach) // 100]
    return res
