"""C17: photon data exported to a library hold what the tables and evaluations say, or an error is reported."""
import copy
import os
import shutil

from .. import core, gen_photon
from ..oracleb import describe
from ..worlda import job_task, run_world
from .c04 import resolve
from .c15 import contents

ID = 'C17'
BUDGET = {'quick': 500, 'thorough': 12000}
RULE = ('random history of 1-3 processes sharing a folder: photon data of 1-4 elements made from ACE tables or from photo-atomic and relaxation evaluations '
        '(with the profiles, stopping powers and bremsstrahlung of the package) and exported to HDF5 files (new, appended, exclusive), again after a failure, '
        'indexed, found through the index; failing, short or torn operations on inputs, package files and outputs, kills; non-trivial: an export ended; distinct by event trace')
REAL = ['ASAPy.data (photon, function, ace, endf, library)', 'h5py and the HDF5 library', 'xml.etree', 'pandas, scipy']
STUB = ['the raw files below HDF5, XML, ACE and ENDF readers and of the package (reads, writes, errors, lengths and kills scheduled)', 'the processes (own module state each, killed at will)']
ASSUMPTIONS = ['one process at a time works on a library file', 'a file to which an export was in progress without creating it anew is not claimed after a kill or an error '
               'that changed it', 'HDF5 writes go to the file in the order the HDF5 library issues them']
PACKAGE = ('compton_profiles.h5', 'stopping_powers.h5', 'BREMX.DAT')


# ------------------------------------------------------------------ scenarios
def item(r, endf):
    Z = r.choice(sorted(gen_photon.ELEMENTS))
    if r.random() >= endf:
        s = {'kind': 'ace', 'Z': Z, 'seed': r.randrange(10 ** 9), 'n': r.randrange(4, 16), 'new': r.random() < 0.5, 'compton': r.choice([0, 1, 2, 4]), 'shells': r.random() < 0.7,
             'awr': round(2.2 * Z, 3), 'style': r.choice([None, None, '2.0'])}
        if r.random() < 0.1:
            s['pair'] = s['n']                       # all of the table below the threshold
        return s
    return {'kind': 'endf', 'Z': Z, 'seed': r.randrange(10 ** 9), 'relax': r.random() < 0.7, 'crlf': r.random() < 0.2}


def fault(r):
    f = {'who': 'parent', 'pick': 0.0, 'op': r.choice(['any', 'write', 'write', 'write', 'write', 'read', 'read', 'open', 'truncate']), 'frac': round(r.random() if r.random() < 0.6 else 1 - 0.3 * r.random() ** 2, 6),
         'act': r.choice(['EIO', 'EIO', 'ENOSPC', 'EDQUOT', 'EMFILE', 'short', 'kill', 'kill'])}
    if r.random() < 0.5:
        f['keepfrac'] = round(r.random() ** 3, 4)
    return f


def gen(r, i, tier):
    endf = r.choice([0, 0, 0, 0.6, 0.9])
    items = [item(r, endf) for _ in range(r.choice([1, 2, 2, 3, 4]))]
    if len(items) > 1 and r.random() < 0.2:
        items[1]['Z'] = items[0]['Z']
    paths = ['p.h5', 'sub/p2.h5', 'pp.h5']
    procs = []
    for _ in range(r.choice([1, 1, 2, 3])):
        acts = []
        for _ in range(r.choice([1, 2, 2, 3, 4])):
            u = r.random()
            if acts and u < 0.2:
                made = sorted({a['path'] for p in procs for a in p['acts'] if a['do'] == 'make'} | {a['path'] for a in acts if a['do'] == 'make'})
                acts.append({'do': 'index', 'files': r.sample(made, r.randrange(1, len(made) + 1)), 'xml': r.choice(['cross_sections.xml', 'sub/index.xml']), 'find': r.randrange(len(items))})
                continue
            j = r.randrange(len(items))
            a = {'do': 'make', 'item': j, 'path': r.choice(paths[:r.choice([1, 2, 3])]), 'mode': r.choice(['w', 'w', 'a', 'a', None, 'x', 'r+']), 'libver': r.choice([None, None, 'earliest', 'latest']),
                 'via': r.choice(['file', 'file', 'object']), 'late': r.random() < 0.3}
            acts.append(a)
            if r.random() < 0.25:                    # the same object once more
                acts.append(dict(a, path=r.choice(paths), mode=r.choice(['w', 'a']), again=True))
        p = {'acts': acts, 'cwd': r.choice(['', '', 'sub'])}
        if r.random() < 0.6:
            p['fault'] = fault(r)
            if r.random() < 0.6:                     # what failed is tried again
                p['retry'] = True
        procs.append(p)
    return {'items': items, 'procs': procs}


def shrink(sc):
    for k in range(len(sc['procs'])):
        if len(sc['procs']) > 1:
            v = copy.deepcopy(sc)
            del v['procs'][k]
            yield v
    for k, p in enumerate(sc['procs']):
        for j in range(len(p['acts'])):
            if len(p['acts']) > 1:
                v = copy.deepcopy(sc)
                del v['procs'][k]['acts'][j]
                yield v
        for key in ('fault', 'retry'):
            if key in p:
                v = copy.deepcopy(sc)
                del v['procs'][k][key]
                yield v
        for j, a in enumerate(p['acts']):
            for key, val in (('via', 'file'), ('late', False), ('libver', None)):
                if a.get(key, val) != val:
                    v = copy.deepcopy(sc)
                    v['procs'][k]['acts'][j][key] = val
                    yield v
    for k, s in enumerate(sc['items']):
        for key, val in (('shells', False), ('compton', 0), ('relax', False), ('crlf', False), ('style', None), ('n', 4)):
            if s.get(key, val) != val:
                v = copy.deepcopy(sc)
                v['items'][k][key] = val
                if key == 'n':
                    v['items'][k].pop('pair', None)
                yield v


# ------------------------------------------------------------------ execution
def materialise(sc, root):
    trees = []
    for j, s in enumerate(sc['items']):
        if s['kind'] == 'ace':
            text, tree = gen_photon.ace(s)
            out = {'i%d.ace' % j: text}
        else:
            text, rtext, tree = gen_photon.endf(s)
            out = {'i%d.endf' % j: text, 'i%d.relax' % j: rtext}
        for n, t in out.items():
            if t is not None:
                with open(os.path.join(root, n), 'w', newline='') as f:
                    f.write(t)
        trees.append(tree)
    os.makedirs(os.path.join(root, 'sub'))
    return trees


def execute(sc, proc, root, faults=()):
    w = core.World(root, faults=faults, step_limit=200000)
    data = os.path.join(os.path.abspath(core.REPO), 'ASAPy', 'data')
    w.mounts = {os.path.join(data, n): 'package/' + n for n in PACKAGE}
    w.readonly = set(w.mounts.values()) | {n for n in os.listdir(root) if n.startswith('i')}
    w.kill_others_on_failure = False
    cwd = os.path.join(root, proc['cwd'])
    done = []                            # [act, ok, error, fault fired meanwhile, result]

    def P(p):
        return os.path.relpath(os.path.join(root, p), cwd)

    def build(a):
        from ASAPy.data.photon import AtomicRelaxation, IncidentPhoton
        s, n = sc['items'][a['item']], os.path.join(root, 'i%d' % a['item'])
        if s['kind'] == 'ace':
            if a['via'] == 'object':
                from ASAPy.data.ace import get_table
                return IncidentPhoton.from_ace(get_table(n + '.ace'))
            return IncidentPhoton.from_ace(n + '.ace')
        src = [n + '.endf'] + [n + '.relax'] * s['relax']
        if a['via'] == 'object':
            from ASAPy.data.endf import Evaluation
            src = [Evaluation(p) for p in src]
        if a['late'] and s['relax']:
            d = IncidentPhoton.from_endf(src[0])
            d.atomic_relaxation = AtomicRelaxation.from_endf(src[1])
            return d
        return IncidentPhoton.from_endf(*src)

    def index(a):
        from ASAPy.data.library import DataLibrary
        lib = DataLibrary()
        for p in a['files']:
            lib.register_file(P(p))
        lib.export_to_xml(P(a['xml']))
        lib = DataLibrary.from_xml(P(a['xml']))
        libs = [[os.path.relpath(os.path.realpath(x['path']), os.path.realpath(root)), x['type'], sorted(x['materials'])] for x in lib.libraries]
        one = lib.get_by_material(name_of(sc['items'][a['find']]))
        k = [n for n, x in enumerate(lib.libraries) if x is one]
        return libs, k[0] if k else None

    def work():
        last = [None]

        def once(a):
            if a['do'] == 'index':
                return index(a)
            if not a.get('again'):
                last[0] = None
                last[0] = build(a)
            d = last[0]
            if d is None:
                return None
            d.export_to_hdf5(P(a['path']), **{k: a[k] for k in ('mode', 'libver') if a[k] is not None})
            return [int(d.atomic_number), str(d.name), sorted(int(m) for m in d.reactions)]
        for a in proc['acts']:
            for attempt in (0, 1):
                before = len([x for x in w.fired if x[0] != 'short'])
                done.append([a, None, None, True, None])
                try:
                    res, err = once(a), None
                except Exception as e:
                    res, err = None, '%s: %s' % (type(e).__name__, str(e)[:200])
                hit = len([x for x in w.fired if x[0] != 'short']) > before
                done[-1][1:] = [err is None, err, hit, res]
                if err is None or not hit or not proc.get('retry') or a['do'] == 'make' and not a.get('again') and last[0] is not None:
                    break                            # only what could not be read is tried again
        return True
    t = job_task(w, work, 5)
    run_world(w, cwd)
    return w, t, done


def name_of(s):
    return gen_photon.ELEMENTS[s['Z']]


def read(path):
    """{entry: difference function} of a library file, or the error."""
    import h5py
    try:
        return h5py.File(path, 'r'), None
    except OSError as e:
        return None, e


def run(sc, ctx):
    root = ctx.fresh('r')
    trees = materialise(sc, root)
    names = [name_of(s) for s in sc['items']]
    files = {}                       # path: absent | {name: item} | ('partial', name, item) after a kill | 'unknown'
    for k, proc in enumerate(sc['procs']):
        faults = []
        if proc.get('fault'):
            twin = ctx.fresh('twin')
            shutil.rmtree(twin)
            shutil.copytree(root, twin)
            w0 = execute(sc, proc, twin)[0]
            ctx.add(w0, 'undisturbed')
            faults = resolve([proc['fault']], w0)
        w, t, done = execute(sc, proc, root, faults)
        ctx.add(w, 'process')
        where = 'process %d%s' % (k + 1, ' with ' + describe(faults) if w.fired else '')
        if t.status == 'steplimit' or w.deadlock:
            ctx.bad('no-end', '%s does not come to an end' % where)
            return
        if t.status not in ('ok', 'killed'):
            ctx.bad('failed', '%s: %s %r' % (where, t.status, t.error))
            return
        shaky = set()                # files an export failed on in this process
        for a, ok, err, hit, res in done:
            d = '%s, %s' % (where, step(sc, a))
            if a['do'] == 'index':
                known = all(isinstance(files.get(p), dict) for p in a['files'])
                if ok and any(p not in files for p in a['files']):
                    ctx.bad('index', '%s: a file that is not there is taken into the index' % d)
                    return
                if ok and known:
                    libs = [[p, 'photon', sorted(files[p])] for p in a['files']]
                    first = [j for j, x in enumerate(libs) if names[a['find']] in x[2]]
                    if res != (libs, first[0] if first else None):
                        ctx.bad('index', '%s: the index gives %s instead of %s' % (d, res, (libs, first[:1])))
                        return
                    ctx.probes['indexed'] += 1
                if ok is False and known and not hit:
                    ctx.bad('failed', '%s failed although nothing was wrong: %s' % (d, err))
                    return
                continue
            if ok and res is None:
                continue             # nothing to export again
            p, n, mode = a['path'], names[a['item']], a['mode'] or 'a'
            st = files.get(p)
            if mode == 'w' or mode in ('x', 'a') and st is None:
                allowed, new = True, {}
            elif mode == 'x' or mode == 'r+' and st is None:
                allowed, new = False, None
            elif st == 'unknown' or isinstance(st, tuple):
                allowed, new = None, None
            else:
                allowed, new = n not in st, dict(st)
            ctx.nontrivial = True
            if ok is None:           # killed in it
                if mode == 'w' or st is None:
                    files[p] = ('partial', n, a['item'], st)
                else:
                    files[p] = 'unknown'
                continue
            ctx.probes['make_%s' % ('ok' if ok else 'failed')] += 1
            if ok:
                if allowed is False and p not in shaky:
                    ctx.bad('accepted', '%s reported success although %s' % (d, 'there is no such file' if st is None else 'the file is there' if mode == 'x' else 'there is such an entry'))
                    return
                if res != [sc['items'][a['item']]['Z'], n, sorted(trees[a['item']]['reactions'])]:
                    ctx.bad('object', '%s: the data are of %s instead of %s' % (d, res, [sc['items'][a['item']]['Z'], n, sorted(trees[a['item']]['reactions'])]))
                    return
                files[p] = 'unknown' if new is None or p in shaky else dict(new, **{n: a['item']})
            else:
                if allowed and not hit and p not in shaky:
                    ctx.bad('failed', '%s failed although nothing was wrong: %s' % (d, err))
                    return
                if hit:
                    shaky.add(p)
                    files[p] = 'unknown'
        for p in list(files):
            if not os.path.exists(os.path.join(root, p)):
                if isinstance(files[p], dict):
                    ctx.bad('lost', '%s: %s is not there' % (where, p))
                    return
                del files[p]
                continue
            if not judge(sc, ctx, files, p, os.path.join(root, p), trees, where):
                return


def step(sc, a):
    if a['do'] == 'index':
        return 'index of %s' % ', '.join(a['files'])
    s = sc['items'][a['item']]
    return 'export of %s (%s) to %s, mode %s' % (name_of(s), s['kind'], a['path'], a['mode'] or 'default')


def before(st, f, trees):
    """Is this what stood there before?"""
    if st == 'unknown':
        return True
    if isinstance(st, tuple):
        return before({st[1]: st[2]}, f, trees) or before(st[3], f, trees)
    try:
        return st is not None and set(f) == set(st) and not any(gen_photon.differs(f[n], trees[j]) for n, j in st.items())
    except Exception:
        return False


def judge(sc, ctx, files, p, path, trees, where):
    st = files[p]
    if st == 'unknown':
        return True
    f, err = read(path)
    if f is None:
        if isinstance(st, dict):
            ctx.bad('content', '%s: %s cannot be read although every export to it succeeded: %s' % (where, p, err))
            return False
        return True
    with f:
        want = {st[1]: st[2]} if isinstance(st, tuple) else st
        try:
            if isinstance(st, dict):
                ft = f.attrs['filetype']
                if (ft if isinstance(ft, bytes) else ft.encode()) != b'data_photon':
                    ctx.bad('content', '%s: %s is a file of type %s' % (where, p, ft))
                    return False
                if 'version' not in f.attrs:
                    ctx.bad('content', '%s: %s has no version' % (where, p))
                    return False
                if set(f) != set(want):
                    ctx.bad('content', '%s: %s holds %s instead of %s' % (where, p, sorted(f), sorted(want)))
                    return False
        except Exception as e:
            ctx.bad('content', '%s: %s: %s' % (where, p, repr(e)[:200]))
            return False
        for n, j in want.items():
            try:
                bad = gen_photon.differs(f[n], trees[j])
            except Exception as e:
                if isinstance(st, tuple):
                    continue
                bad = repr(e)[:200]
            if bad and isinstance(st, tuple) and before(st[3], f, trees):
                continue             # killed before it was opened
            if bad and isinstance(st, tuple):
                ctx.bad('killed', '%s: %s, whose export was killed, can be read: %s' % (where, p, bad))
                return False
            if bad:
                ctx.bad('content', '%s: %s of %s: %s' % (where, n, p, bad))
                return False
            ctx.probes['compared'] += 1
    return True
