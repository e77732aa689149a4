"""setup: what the checks need is there, and the simulator is sound in itself (a few seconds)."""
import importlib
import os
import shutil
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def write(path, data, sync=False):
    with open(path, 'wb') as f:
        f.write(data)
        f.flush()
        if sync:
            os.fsync(f.fileno())


def replace(path, data, sync):
    write(path + '.new', data, sync)
    os.replace(path + '.new', path)


def power(root, seed, sync):
    """what is left after a power loss right after a replacement"""
    from sim import kernel as K
    k = K.Kernel(root, seed)
    k.install()
    path = os.path.join(root, 'float_mapped')
    os.mkdir(path)
    path += '/map.mat'
    k.run(k.spawn(), lambda: replace(path, b'old' * 100, True))
    k.settle()
    k.arm([{'kind': 'power', 'ops': ['open_r'], 'cls': ['mapped'], 'nth': 0, 'count': 1, 'arg': seed}])

    def later():
        replace(path, b'new' * 200, sync)
        open(path, 'rb').close()
    status = k.run(k.spawn(), later)[0]
    k.disarm()
    data = K.real_bytes(path)
    return '%s %s %s' % (status, k.digest(), 'old' if data == b'old' * 100 else 'new' if data == b'new' * 200 else 'mixed')


def killed(root, seed):
    """a process that was killed has no effect any more"""
    from sim import kernel as K
    k = K.Kernel(root, seed)
    k.install()
    os.mkdir(os.path.join(root, 'float_mapped'))
    path = os.path.join(root, 'float_mapped', 'map.mat')
    write(path, b'old')
    k.arm([{'kind': 'kill', 'ops': ['rename'], 'cls': ['mapped'], 'nth': 0, 'count': 1, 'arg': 0}])

    def stubborn():
        try:
            replace(path, b'new', True)
        except BaseException:  # pylint: disable=broad-except
            os.remove(path)
    status = k.run(k.spawn(), stubborn)[0]
    return '%s %s' % (status, K.real_bytes(path))


def errors(root, seed):
    """a full disk and short reads are seen by the code"""
    from sim import kernel as K
    k = K.Kernel(root, seed)
    k.install()
    os.mkdir(os.path.join(root, 'float_mapped'))
    path = os.path.join(root, 'float_mapped', 'map.mat')
    k.arm([{'kind': 'ENOSPC', 'ops': ['write'], 'cls': ['mapped'], 'nth': 0, 'count': 1, 'arg': 0}])
    status, value = k.run(k.spawn(), lambda: write(path, b'x' * 1000))
    return '%s %s' % (status, getattr(value, 'errno', None))


def race(root, seed):
    """two processes, one schedule"""
    from sim import kernel as K
    k = K.Kernel(root, seed)
    k.install()
    os.mkdir(os.path.join(root, 'float_mapped'))
    path = os.path.join(root, 'float_mapped', 'list')
    write(path, b'')
    procs = [k.spawn(), k.spawn()]

    def body(n):
        def func():
            for i in range(20):
                with open(path, 'ab') as f:
                    f.write(b'%d' % n)
        return func
    k.current = None
    sched = K.Scheduler(k, seed, 0.3)
    sched.run([(p, body(i)) for i, p in enumerate(procs)])
    return K.real_bytes(path).decode()


def clock(root, seed):
    from sim import kernel as K
    k = K.Kernel(root, seed)
    k.install()
    got = []
    k.run(k.spawn(), lambda: got.extend([time.time(), time.sleep(3600), time.time(), os.getpid()]))
    return '%.6f %.1f %d' % (got[0], got[2] - got[0], got[3])


def child(func, *args):
    """in a process of its own, in a scratch directory of its own"""
    root = tempfile.mkdtemp(prefix='selftest')
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            text = func(root, *args)
        except BaseException as e:  # pylint: disable=broad-except
            text = 'FAILED %r' % (e,)
        os.write(w, text.encode())
        os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        text = f.read().decode()
    os.waitpid(pid, 0)
    shutil.rmtree(root)
    return text


def main():
    for name in ('numpy', 'scipy', 'gsw', 'pymatreader', 'matplotlib', 'shapefile', 'pandas'):
        importlib.import_module(name)
    assert sys.version_info >= (3, 12), 'sys.monitoring is needed'
    for f in sorted(os.listdir(os.path.join(HERE, 'props'))):
        if f.startswith('c') and f.endswith('.py') and f != 'common.py':
            importlib.import_module('props.' + f[:-3])
    from sim import runner
    runner.preload()
    # ---- power losses: what was synced is there; what was not may be lost or mixed; all of it repeatable
    synced, loose = set(), set()
    for seed in range(24):
        a, b = child(power, seed, True), child(power, seed, True)
        assert a.split()[0] == 'crash' and a == b, (a, b)
        synced.add(a.split()[-1])
        loose.add(child(power, seed, False).split()[-1])
    assert synced == {'old', 'new'}, synced
    assert loose == {'old', 'new', 'mixed'}, loose
    assert child(killed, 1) == "crash b'old'", child(killed, 1)
    assert child(errors, 1) == 'error 28', child(errors, 1)
    # ---- schedules and clocks: of the seed, and of nothing else
    orders = [child(race, seed) for seed in range(6)]
    assert orders == [child(race, seed) for seed in range(6)] and len(set(orders)) > 3, orders
    assert all(o.count('0') == o.count('1') == 20 for o in orders), orders
    assert child(clock, 5) == child(clock, 5) != child(clock, 6), child(clock, 5)
    assert 3600 <= float(child(clock, 5).split()[1]) < 3601, child(clock, 5)
    print('ready')


main()
