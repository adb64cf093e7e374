"""Simulated MPI: a fake `mpi4py` whose communicator is scheduled by the World."""
import pickle
import types

from .core import World, SimKill


class JobAbort(SystemExit):
    pass


class Fabric:
    """State shared by the ranks of one simulated MPI job."""

    def __init__(self, size):
        self.size = size
        self.coll = {}           # index -> {'op','root','in':{rank:obj},'out':...}
        self.seq = [[] for _ in range(size)]
        self.mail = {}           # (src, dst, tag) -> list
        self.mismatch = None


class Comm:
    def __init__(self, fabric, rank):
        self._f, self.rank, self.size = fabric, rank, fabric.size

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    # ---- collectives ----
    def _coll(self, op, root, contribution, ready, result):
        w, f = World.current, self._f
        w.op('mpi', '%s root=%s' % (op, root))
        i = len(f.seq[self.rank])
        f.seq[self.rank].append((op, root))
        c = f.coll.setdefault(i, {'op': op, 'root': root, 'in': {}})
        if (c['op'], c['root']) != (op, root):
            f.mismatch = (i, (c['op'], c['root']), (op, root))
            w.log.append(('mpi-mismatch',) + f.mismatch)
            # real ranks would hang or exchange garbage; stop here and let the oracle report it
            for t in w.tasks:
                t.dead = True
            raise SimKill()
        c['in'][self.rank] = contribution
        w.wait(lambda: ready(c), '%s#%d' % (op, i))
        return result(c)

    def bcast(self, obj=None, root=0):
        return self._coll('bcast', root,
                          pickle.dumps(obj) if self.rank == root else None,
                          lambda c: root in c['in'],
                          lambda c: obj if self.rank == root else pickle.loads(c['in'][root]))

    def _all(self, c):
        return len(c['in']) == self.size

    def barrier(self):
        self._coll('barrier', None, None, self._all, lambda c: None)
    Barrier = barrier

    def gather(self, obj, root=0):
        return self._coll('gather', root, pickle.dumps(obj),
                          (lambda c: self._all(c)) if self.rank == root else (lambda c: True),
                          lambda c: [pickle.loads(c['in'][r]) for r in range(self.size)]
                          if self.rank == root else None)

    def allgather(self, obj):
        return self._coll('allgather', None, pickle.dumps(obj), self._all,
                          lambda c: [pickle.loads(c['in'][r]) for r in range(self.size)])

    def scatter(self, objs=None, root=0):
        return self._coll('scatter', root, pickle.dumps(objs),
                          lambda c: root in c['in'],
                          lambda c: pickle.loads(c['in'][root])[self.rank])

    def _red(self, vals, op):
        import functools
        fn = op if callable(op) else (lambda a, b: a + b)
        return functools.reduce(fn, vals)

    def allreduce(self, obj, op=None):
        return self._coll('allreduce', None, pickle.dumps(obj), self._all,
                          lambda c: self._red([pickle.loads(c['in'][r]) for r in range(self.size)], op))

    def reduce(self, obj, op=None, root=0):
        return self._coll('reduce', root, pickle.dumps(obj),
                          (lambda c: self._all(c)) if self.rank == root else (lambda c: True),
                          lambda c: self._red([pickle.loads(c['in'][r]) for r in range(self.size)], op)
                          if self.rank == root else None)

    def Bcast(self, buf, root=0):
        import numpy as np
        v = self.bcast(np.array(buf) if self.rank == root else None, root)
        if self.rank != root:
            buf[...] = v

    # ---- point to point ----
    def send(self, obj, dest, tag=0):
        w = World.current
        w.op('mpi', 'send %d tag=%d' % (dest, tag))
        self._f.mail.setdefault((self.rank, dest, tag), []).append(pickle.dumps(obj))
    isend = send

    def recv(self, buf=None, source=-1, tag=-1, status=None):
        w, f = World.current, self._f
        w.op('mpi', 'recv %d' % source)

        def find():
            for k in sorted(f.mail):
                if k[1] == self.rank and f.mail[k] and source in (-1, k[0]) and tag in (-1, k[2]):
                    return k
            return None
        w.wait(lambda: find() is not None, 'recv')
        return pickle.loads(f.mail[find()].pop(0))

    def Abort(self, errorcode=1):
        w = World.current
        w.abort_countdown = 0
        raise SystemExit(errorcode or 1)


def stub_modules(fabric, rank):
    """`mpi4py` and `mpi4py.MPI` for one rank."""
    pkg = types.ModuleType('mpi4py')
    pkg.__path__ = []
    mpi = types.ModuleType('mpi4py.MPI')
    comm = Comm(fabric, rank)
    mpi.COMM_WORLD = comm
    mpi.COMM_SELF = Comm(Fabric(1), 0)
    mpi.ANY_SOURCE = -1
    mpi.ANY_TAG = -1
    mpi.SUM = lambda a, b: a + b
    mpi.MAX = max
    mpi.MIN = min
    mpi.PROD = lambda a, b: a * b
    mpi.Comm = Comm
    pkg.MPI = mpi
    return {'mpi4py': pkg, 'mpi4py.MPI': mpi}
