"""The checks, per property."""
import concurrent.futures
import os
import subprocess
import run as R

CHECKS = {}
# harness name -> function that builds it, for replay.
HARNESSES = {}


def harness(name, **kw):
    HARNESSES[name] = kw
    return name


def simple(pid, *names, **runkw):
    def f(res):
        for n in names:
            exe = R.build(n, **HARNESSES[n])
            R.run_harness(res, n, exe, deadline=runkw.get("deadline"), workers=runkw.get("workers", 8),
                          scale=runkw.get("scale", 2.5))
    CHECKS[pid] = f


# name -> (script, helper harness)
PYTHONS = {}


def python(name, script, exe=None):
    PYTHONS[name] = (script, exe)
    return name


def run_py(res, name, **kw):
    script, exe = PYTHONS[name]
    e = R.build(exe, **HARNESSES[exe]) if exe else ''
    return R.run_python(res, name, script, exe=e, **kw)


def replay(pid, f):
    with open(f) as fh:
        first = fh.readline().split()
    if first and first[0] == 'harness':
        n = first[1]
        if n in PYTHONS:
            script, exe = PYTHONS[n]
            e = R.build(exe, **HARNESSES[exe]) if exe else ''
            return subprocess.run([R.PYVT, os.path.join(R.HARNESS, script), '--exe', e, '--replay', f],
                                  env=R.python_env()).returncode
        exe = R.build(n, **HARNESSES[n])
        return subprocess.run([exe, '--replay', f]).returncode
    print(open(f).read())
    return 2


simple('U01', harness('fifo', src=[('u01_fifo.cpp', '-DPART=%d' % i) for i in range(1, 8)], lib=[]))
simple('U02', harness('mfifo', src=[('u02_mfifo.cpp', '-DPART=%d' % i) for i in range(1, 4)], lib=['protocol', 'util', 'poller', 'zmq']))
simple('U03', harness('threads', src=[('u03_threads.cpp', '-DPART=%d' % i) for i in range(1, 3)],
                      lib=['protocol', 'util', 'poller', 'zmq'], san='tsan'), workers=4)
simple('U04', harness('spm', src=['u04_spm.cpp'], lib=['util']))
simple('U05', harness('callable', src=['u05_callable.cpp'], lib=['util']))
simple('U06', harness('signal', src=['u06_signal.cpp'], lib=['util']))

PROTO = ['protocol', 'util', 'poller', 'zmq', 'compress']
simple('L01', harness('ascii', src=['l01_ascii.cpp'], lib=PROTO))
simple('L02', harness('term', src=['l02_term.cpp'], lib=PROTO))
simple('L03', harness('seg', src=['l03_seg.cpp'], lib=PROTO))
simple('L04', harness('crc', src=['l04_crc.cpp'], lib=PROTO))
simple('L05', harness('stack', src=[('l05_stack.cpp', '-DPART=%d' % i) for i in (1, 2)], lib=PROTO))
simple('L06', harness('arq', src=['l06_arq.cpp'], lib=PROTO))
simple('L07', harness('darq', src=['l07_darq.cpp'], lib=PROTO))


def mixed(pid, *parts):
    """Parts are (harness name, kwargs) or (python name, kwargs)."""
    def f(res):
        for n, kw in parts:
            if n in PYTHONS:
                run_py(res, n, **kw)
            else:
                R.run_harness(res, n, R.build(n, **HARNESSES[n]), **kw)
    CHECKS[pid] = f


harness('pytool', src=['pytool.cpp'], lib=PROTO, vh=False)
mixed('L08', (harness('compress', src=['l08_compress.cpp'], lib=PROTO), {'scale': 1.5}),
      (python('pycompress', 'l08_py.py', 'pytool'), {}))

simple('L09', harness('garbage', src=['l09_garbage.cpp'], lib=PROTO))
mixed('L10', (python('interop', 'l10_interop.py', 'pytool'), {}))

harness('dirtool', src=['dirtool.cpp'], lib=['directory', 'util'], vh=False)
mixed('S01', (python('directory', 's01_directory.py', 'dirtool'), {}))
mixed('S02', (python('store', 's02_store.py'), {}))

simple('U10', harness('util', src=['u10_util.cpp'], lib=['util']))

# Built in three configurations.
ACCESS = dict(src=['s03_access.cpp'], lib=['directory', 'util'], gens=['st/Rich.st', 'st/First.st+st/Many.st'])
ACCESSES = [harness('access', **ACCESS), harness('access_b', big=True, **ACCESS),
            harness('access_a', defs=['-DVH_NO_UNALIGNED'], **ACCESS)]


def multi(pid, names, only=None, **kw):
    def f(res):
        with concurrent.futures.ThreadPoolExecutor(len(names)) as ex:
            exes = list(ex.map(lambda n: R.build(n, **HARNESSES[n]), names))
        for n, exe in zip(names, exes):
            R.run_harness(res, n, exe, only=only, **kw)
    CHECKS[pid] = f


multi('S03', ACCESSES, only='access')
multi('S04', ACCESSES, only='hooks')
multi('S05', ACCESSES, only='functions')

# The debugger, in several configurations.
DEBUG = dict(src=['d01_debugger.cpp'], lib=['debugger', 'directory'] + PROTO, gens=['st/Rich.st', 'st/Two.st'])
SMALL = ['-DVH_NO_COMPRESS_STREAMS', '-DVH_STREAMS=3', '-DVH_STREAM_BUFFER=64', '-DVH_MACRO=150', '-DVH_ALIAS=4']
harness('dbg', defs=SMALL, **DEBUG)
harness('dbg_c', defs=['-DVH_STREAMS=3'], big=True, **DEBUG)
harness('dbg_n', defs=['-DVH_NO_MEM'], **DEBUG)
harness('dbg_a', defs=SMALL + ['-DVH_AVOID_DYNAMIC', '-DVH_STREAM_OVERFLOW=16'], **DEBUG)

multi('D01', ['dbg', 'dbg_c', 'dbg_a'], only='commands')
multi('D02', ['dbg_n', 'dbg'], only='requests')
multi('D03', ['dbg', 'dbg_a', 'dbg_c'], only='streams')
multi('D04', ['dbg'], only='memory')

# Synchronization
SYNC = dict(lib=['synchronizer', 'directory'] + PROTO, gens=['st/SyncA.st', 'st/SyncB.st', 'st/SyncC.st'])
harness('sync', src=['y01_sync.cpp'], **SYNC)
harness('sync_b', src=['y01_sync.cpp'], big=True, **SYNC)

multi('Y01', ['sync', 'sync_b'], only='converge')
multi('Y02', ['sync', 'sync_b'], only='order')
multi('Y03', ['sync', 'sync_b'], only='reconnect')
harness('syncmsg', src=['y04_messages.cpp'], **SYNC)
harness('syncmsg_b', src=['y04_messages.cpp'], big=True, **SYNC)
simple('Y04', 'syncmsg', 'syncmsg_b')
harness('journal', src=['y05_journal.cpp'], **SYNC)
harness('journal_b', src=['y05_journal.cpp'], big=True, **SYNC)
simple('Y05', 'journal', 'journal_b')

PIPES = dict(lib=['pipes', 'directory', 'util'], gens=['st/Two.st'])
harness('pipes', src=['u07_pipes.cpp'] + ['u07_inst%d.cpp' % i for i in range(7)], **PIPES)
harness('pipesmisc', src=['u07_misc.cpp'], **PIPES)
simple('U07', 'pipes', 'pipesmisc')

# Pollers
simple('U09', harness('poller', src=['u09_poller.cpp'], lib=PROTO))

# OS-backed channels
simple('L11', harness('channels', src=['l11_channels.cpp'], lib=PROTO))

# Store-based components
simple('U08', harness('components', src=['u08_components.cpp'], lib=['directory', 'util'], gens=['st/Components.st']))

# The Python client
harness('clienttool', src=['clienttool.cpp'], lib=['debugger', 'directory'] + PROTO, gens=['st/Client.st', 'st/Two.st'],
        defs=['-DVH_STREAMS=4'], vh=False)
harness('clienttool_s', src=['clienttool.cpp'], lib=['debugger', 'directory'] + PROTO, gens=['st/Client.st', 'st/Two.st'],
        defs=['-DVH_STREAMS=3', '-DVH_STREAM_BUFFER=100', '-DVH_ALIAS=6', '-DVH_MACRO=70', '-DVH_NO_COMPRESS_STREAMS'], vh=False)

python('client', 'c01_client.py', 'clienttool')
python('client_s', 'c01_client.py', 'clienttool_s')
mixed('C01', ('client', {'scale': 0.7}), ('client_s', {'scale': 0.45}))
