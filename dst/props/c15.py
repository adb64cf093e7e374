"""C15: the HDF5 data library gives back the data of the tables, or an error."""
import copy
import os
import shutil

from .. import core, gen_lib
from ..oracleb import describe
from ..worlda import job_task, run_world
from .c04 import resolve

ID = 'C15'
BUDGET = {'quick': 2000, 'thorough': 40000}
RULE = ('random history of 2-7 processes sharing a folder: tables of 1-3 nuclides or thermal scattering materials at 1-3 temperatures read from ACE and '
        'exported to HDF5 files (new, appended, exclusive), read back by file or by entry, indexed, found through the index; failing, short or torn '
        'file operations and kills at any of them; non-trivial: a file was read back or an operation failed; distinct by event trace')
REAL = ['ASAPy.data (neutron, thermal, reaction, product, the angle and energy distributions, urr, function, library, ace)', 'h5py and the HDF5 library', 'xml.etree']
STUB = ['the raw files below HDF5, XML and ACE readers (reads, writes, errors, lengths and kills scheduled)', 'the processes (own module state each, killed at will)']
ASSUMPTIONS = ['one process at a time works on a library file', 'a file to which an export was in progress without creating it anew is not claimed after a kill or an error '
               'that changed it', 'HDF5 writes go to the file in the order the HDF5 library issues them']
TEMPS = [293.6, 300, 600, 900, 1200, 2400]


# ------------------------------------------------------------------ scenarios
def neutron_spec(r):
    pool = (16, 17, 22, 28, 37, 5, 102, 103, 107, 111)
    mts = [m for m in pool if r.random() < 0.3]
    if r.random() < 0.6:
        mts += r.sample(range(51, 91), r.choice([1, 2, 3])) + ([91] if r.random() < 0.5 else [])
        if r.random() < 0.3:
            mts.append(4)
    for a, b in ((600, 649), (800, 849), (875, 891)):
        if r.random() < 0.2:
            mts += r.sample(range(a, b + 1), r.choice([1, 2]))
    if r.random() < 0.3:
        mts += r.sample([203, 204, 207, 444], r.choice([1, 2]))
    fis = r.random() < 0.5
    if fis:
        mts += r.choice([[18], [18], [18, 19, 20], [19, 21], [19, 20, 21, 38], [18, 38, 19]])
    return {'kind': 'n', 'nuclide': r.randrange(len(gen_lib.NUCLIDES)), 'awr': round(r.uniform(1, 240), 4), 'n': r.randrange(6, 16), 'mts': sorted(set(mts)), 'fission': fis,
            'delayed': r.choice([0, 0, 2, 6]), 'photons': r.choice([0, 0, 1, 3, 5, 9]), 'urr': r.random() < 0.4, 'orphans': r.random() < 0.15}


def thermal_spec(r):
    s = {'kind': 't', 'material': r.randrange(len(gen_lib.THERMAL)), 'awr': round(r.uniform(1, 50), 4), 'mode': r.choice(['equal', 'skewed', 'continuous']),
         'elastic': r.choice([None, 'coherent', 'incoherent'])}
    if r.random() < 0.25:
        s['as'] = r.choice(['c_Water', 'c_my_material', 'c_H_in_H2O'])
    return s


def multipole_spec(r):
    return {'kind': 'w', 'nuclide': r.randrange(len(gen_lib.NUCLIDES)), 'poles': r.randrange(1, 9), 'windows': r.randrange(1, 7), 'order': r.randrange(2, 6), 'fission': r.random() < 0.5}


def fault(r, do):
    f = {'who': 'parent', 'pick': 0.0, 'op': r.choice(['any', 'write', 'write', 'write', 'write', 'read', 'open', 'truncate', 'truncate'] if do == 'make' else ['any', 'read', 'read', 'open', 'write', 'close']), 'frac': round(r.random() if r.random() < 0.6 else 1 - 0.3 * r.random() ** 2, 6),
         'act': r.choice(['EIO', 'EIO', 'ENOSPC', 'EDQUOT', 'EMFILE', 'short', 'kill', 'kill', 'kill'])}
    if r.random() < 0.5:
        f['keepfrac'] = round(r.random() ** 3, 4)
    return f


def gen(r, i, tier):
    items = []
    seen = set()
    for _ in range(r.choice([1, 2, 2, 3])):
        u = r.random()
        s = neutron_spec(r) if u < 0.6 else thermal_spec(r) if u < 0.92 else multipole_spec(r)
        name = item_name(s)
        if name in seen and r.random() < 0.8:
            continue
        seen.add(name)
        s['tables'] = [{'T': T, 'seed': r.randrange(10 ** 9), 'style': r.choice([None, None, '2.0'])} for T in r.sample(TEMPS, r.choice([1, 1, 2, 3]))]
        if r.random() < 0.1:
            s['tables'].append(dict(s['tables'][0], seed=r.randrange(10 ** 9)))
        s['photon_seed'] = r.randrange(10 ** 9)
        if s['kind'] == 'n' and s['fission'] and r.random() < 0.4:
            s['release'] = r.randrange(10 ** 9)
        if s['kind'] == 'w':
            s['tables'] = s['tables'][:1]
        items.append(s)
    alt = r.random() < 0.3               # folders whose names begin alike
    paths = {'n': ['suc/n.h5' if alt else 'n.h5', 'sub/n2.h5', 'nn.h5'], 't': ['suc/t.h5' if alt else 't.h5', 'sub/t2.h5'], 'w': ['w.h5', 'suc/w.h5']}
    steps, last = [], None
    for k in range(r.choice([1, 1, 2, 3, 4])):
        j = r.randrange(len(items))
        s = {'do': 'make', 'item': j, 'path': r.choice(paths[items[j]['kind']][:r.choice([1, 1, 2, 3])]), 'mode': r.choice(['w', 'w', 'a', 'a', None, 'x', 'r+']), 'libver': r.choice([None, None, 'earliest', 'latest']),
             'via': r.choice(['file', 'file', 'table']), 'again': r.random() < 0.1, 'abs': r.random() < 0.3}
        others = [x for x in range(len(items)) if items[x]['kind'] == items[j]['kind'] != 'w' and item_name(items[x]) != item_name(items[j])]
        if others and r.random() < 0.4:
            s['wrong'] = r.choice(others)
        steps.append(s)
        last = s
        while r.random() < 0.4:
            u = r.random()
            if u < 0.6:
                steps.append({'do': 'load', 'path': r.choice([s for s in steps if s['do'] == 'make'])['path'] if r.random() < 0.3 else last['path'], 'item': r.choice([last['item'], last['item'], r.randrange(len(items))]), 'by': r.choice(['file', 'group']), 'abs': r.random() < 0.3})
            else:
                steps.append(index_step(r, steps))
                steps.append({'do': 'lookup', 'xml': steps[-1]['xml'], 'path': last['path'], 'item': last['item'], 'abs': r.random() < 0.3, 'by': 'group', 'env': r.choice([None, None, 'this', 'another'])})
    steps.append({'do': 'load', 'path': last['path'], 'item': last['item'], 'by': 'group', 'abs': False})
    if r.random() < 0.3:
        steps.append(index_step(r, steps))
        steps.append({'do': 'lookup', 'xml': steps[-1]['xml'], 'path': last['path'], 'item': last['item'], 'abs': r.random() < 0.3, 'by': 'group', 'env': r.choice([None, None, 'this', 'another'])})
    for s in steps:
        if r.random() < 0.3:
            s['cwd'] = r.choice(['sub', 'other'])
    if r.random() < 0.65:
        j = r.randrange(len(steps))
        steps[j]['fault'] = fault(r, steps[j]['do'])
        if steps[j]['do'] == 'make' and r.random() < 0.4:
            # the same again after the disturbance
            v = copy.deepcopy(steps[j])
            del v['fault']
            v['mode'] = r.choice(['w', 'a', None])
            steps.insert(j + 1, {'do': 'load', 'path': v['path'], 'item': v['item'], 'by': r.choice(['file', 'group']), 'abs': False})
            steps.insert(j + 2, v)
    if r.random() < 0.15:
        steps[r.randrange(len(steps))]['fault'] = {'who': 'parent', 'pick': 0.0, 'op': r.choice(['read', 'write']), 'frac': round(r.random(), 4), 'act': 'short', 'keepfrac': round(r.random() ** 3, 4)}
    return {'items': items, 'steps': steps}


def index_step(r, steps):
    p = sorted({s['path'] for s in steps if s['do'] == 'make'})
    return {'do': 'index', 'files': r.sample(p, r.randrange(1, len(p) + 1)) + ([r.choice(p)] if r.random() < 0.1 else []), 'xml': r.choice([None, 'index.xml', 'sub/index.xml', 'other/index.xml']),
            'abs': r.random() < 0.3, 'absfiles': r.choice([False, False, False, False, True, 'some'])}


def item_name(s):
    return gen_lib.NUCLIDES[s['nuclide']][2] if s['kind'] in 'nw' else s.get('as') or gen_lib.THERMAL[s['material']][1]


def shrink(sc):
    for k in range(len(sc['steps'])):
        if len(sc['steps']) > 1:
            v = copy.deepcopy(sc)
            del v['steps'][k]
            yield v
    for k, s in enumerate(sc['steps']):
        if 'fault' in s:
            v = copy.deepcopy(sc)
            del v['steps'][k]['fault']
            yield v
        for key, val in (('abs', False), ('again', False), ('via', 'file'), ('libver', None), ('absfiles', False), ('env', None), ('cwd', ''), ('wrong', None)):
            if s.get(key, val) != val:
                v = copy.deepcopy(sc)
                v['steps'][k][key] = val
                yield v
    for k, s in enumerate(sc['items']):
        for j in range(len(s['tables'])):
            if len(s['tables']) > 1:
                v = copy.deepcopy(sc)
                del v['items'][k]['tables'][j]
                yield v
        for m in s.get('mts', []):
            v = copy.deepcopy(sc)
            v['items'][k]['mts'].remove(m)
            if s['kind'] == 'n' and s['fission'] and not set(v['items'][k]['mts']) & set(gen_lib.FISSION):
                v['items'][k].update(fission=False, delayed=0, release=None)
            yield v
        for key, val in (('photons', 0), ('release', None), ('orphans', False), ('urr', False), ('delayed', 0), ('elastic', None), ('n', 6)):
            if s.get(key, val) != val:
                v = copy.deepcopy(sc)
                v['items'][k][key] = val
                yield v


# ------------------------------------------------------------------ execution
def materialise(sc, root):
    """Write the ACE files; the tree of every item."""
    trees, raw = [], []
    for j, s in enumerate(sc['items']):
        ts = []
        for k, t in enumerate(s['tables']):
            spec = {x: s[x] for x in s if x not in ('tables', 'kind')}
            spec.update(t)
            if s['kind'] == 'w':
                ts = gen_lib.multipole(spec)
                continue
            text, tree = (gen_lib.neutron if s['kind'] == 'n' else gen_lib.thermal)(spec)
            with open(os.path.join(root, 'i%d.%d.ace' % (j, k)), 'w') as f:
                f.write(text)
            ts.append(tree)
        if s['kind'] == 'w':
            raw.append(ts)
            trees.append(ts)
            continue
        raw.append((gen_lib.merge if s['kind'] == 'n' else gen_lib.merge_thermal)(ts))
        if s['kind'] == 'n':
            raw[-1]['release'] = gen_lib.release(s['release']) if s.get('release') is not None else None
        trees.append(gen_lib.exported(raw[-1]) if s['kind'] == 'n' else raw[-1])
    for d in ('sub', 'suc', 'other'):
        os.makedirs(os.path.join(root, d))
    return trees, raw


def execute(sc, step, root, faults=()):
    w = core.World(root, faults=faults, step_limit=60000)
    w.readonly = {'i%d.%d.ace' % (j, k) for j, s in enumerate(sc['items']) for k in range(len(s['tables']))}
    w.kill_others_on_failure = False

    cwd = step.get('cwd', '')

    def P(p, a=None):
        p = os.path.join(root, p)
        return p if (step.get('abs') if a is None else a) else os.path.relpath(p, os.path.join(root, cwd))

    def cls(kind):
        if kind == 'n':
            from ASAPy.data.neutron import IncidentNeutron
            return IncidentNeutron, neutron_tree
        if kind == 'w':
            from ASAPy.data.multipole import WindowedMultipole
            return WindowedMultipole, gen_lib.of_multipole
        from ASAPy.data.thermal import ThermalScattering
        return ThermalScattering, gen_lib.of_thermal

    def neutron_tree(d):
        t = gen_lib.of_neutron(d)
        t['release'] = gen_lib.of_release(d.fission_energy) if d.fission_energy is not None else None
        return t

    def make():
        s = sc['items'][step['item']]
        C, of = cls(s['kind'])
        kw = {k: step[k] for k in ('mode', 'libver') if step[k] is not None}
        if s['kind'] == 'w':
            d = gen_lib.build_multipole(C, gen_lib.multipole(dict(s, **s['tables'][0])))
            d.export_to_hdf5(P(step['path']), **kw)
            return of(d)
        src = [os.path.join(root, 'i%d.%d.ace' % (step['item'], k)) for k in range(len(s['tables']))]
        if step['via'] == 'table':
            from ASAPy.data.ace import get_table
            src = [get_table(p) for p in src]
        def extra(s):
            return [gen_lib.NUCLIDES[s['nuclide']][1]] if s['kind'] == 'n' else [s['as']] if s.get('as') else []
        args = extra(s)
        d = C.from_ace(src[0], *args)
        for p in src[1:]:
            d.add_temperature_from_ace(p, *args)
        if step.get('wrong') is not None:            # a table of something else: refused, and nothing changed
            try:
                d.add_temperature_from_ace(os.path.join(root, 'i%d.0.ace' % step['wrong']), *extra(sc['items'][step['wrong']]))
            except ValueError:
                pass
        if s.get('release') is not None:
            d.fission_energy = gen_lib.build_release(gen_lib.release(s['release']))
        d.export_to_hdf5(P(step['path']), **kw)
        return of(d)

    def read(path):
        import h5py
        C, of = cls(sc['items'][step['item']]['kind'])
        if step['by'] == 'file':
            return of(C.from_hdf5(path))
        with h5py.File(path, 'r') as f:
            return of(C.from_hdf5(f[item_name(sc['items'][step['item']])]))

    def index():
        from ASAPy.data.library import DataLibrary
        lib = DataLibrary()
        for p in step['files']:
            lib.register_file(P(p, step['absfiles'] if step['absfiles'] != 'some' else p == step['files'][0]))
        lib.export_to_xml(*([P(step['xml'])] if step['xml'] else [] if not cwd else [P('cross_sections.xml')]))

    def lookup():
        from ASAPy.data.library import DataLibrary
        xml = P(step['xml'] or 'cross_sections.xml')
        old = os.environ.pop('OPENMC_CROSS_SECTIONS', None)
        if step.get('env'):
            os.environ['OPENMC_CROSS_SECTIONS'] = xml if step['env'] == 'this' else os.path.join(root, 'absent', 'cross_sections.xml')
        try:
            lib = DataLibrary.from_xml(*([] if step.get('env') == 'this' else [xml]))
        finally:
            os.environ.pop('OPENMC_CROSS_SECTIONS', None)
            if old is not None:
                os.environ['OPENMC_CROSS_SECTIONS'] = old
        libs = [[os.path.relpath(os.path.realpath(x['path']), os.path.realpath(root)), x['type'], sorted(x['materials'])] for x in lib.libraries]
        one = lib.get_by_material(item_name(sc['items'][step['item']]))
        if one is None:
            return libs, None, None
        k = [n for n, x in enumerate(lib.libraries) if x is one]
        return libs, k[0] if k else -1, read(one['path'])

    fn = {'make': make, 'load': lambda: read(P(step['path'])), 'index': index, 'lookup': lookup}[step['do']]
    t = job_task(w, fn, 5)
    run_world(w, os.path.join(root, cwd))
    return w, t


def contents(path):
    try:
        with open(path, 'rb') as f:
            return f.read()
    except FileNotFoundError:
        return None


def first_entry(entries):
    return min(entries, key=lambda n: n.encode()) if entries else None


def run(sc, ctx):
    root = ctx.fresh('r')
    trees, raw = materialise(sc, root)
    names = [item_name(s) for s in sc['items']]
    files = {}                       # path: None (absent) | {name: item} | ('partial', name, item) after a kill | 'unknown'
    xmls = {}                        # name: None | [[path, type, materials]] | 'partial' | 'unknown'
    for k, step in enumerate(sc['steps']):
        faults = []
        if step.get('fault'):
            twin = ctx.fresh('twin')
            shutil.rmtree(twin)
            shutil.copytree(root, twin)
            w0 = execute(sc, step, twin)[0]
            ctx.add(w0, 'undisturbed')
            faults = resolve([step['fault']], w0)
        target = step['path'] if step['do'] == 'make' else (step['xml'] or 'cross_sections.xml') if step['do'] == 'index' else None
        before = {n: contents(os.path.join(root, n)) for n in list(files) + list(xmls) + [target] if n is not None}
        w, t = execute(sc, step, root, faults)
        ctx.add(w, step['do'])
        hard = [x for x in w.fired if x[0] != 'short']
        d = 'process %d (%s)%s' % (k + 1, describe_step(sc, step), ' with ' + describe(faults) if w.fired else '')
        if t.status == 'steplimit' or w.deadlock:
            ctx.bad('no-end', '%s does not come to an end' % d)
            return
        for n, b in before.items():
            if n != target and contents(os.path.join(root, n)) != b:
                ctx.bad('other-file', '%s changed %s' % (d, n))
                return
        ok = t.status == 'ok'
        ctx.probes['%s_%s' % (step['do'], 'ok' if ok else 'failed')] += 1
        ctx.nontrivial |= bool(hard) or step['do'] in ('load', 'lookup')
        if step['do'] == 'make':
            if ok:
                p = differs(sc['items'][step['item']]['kind'], t.result, raw[step['item']], False)
                if p:
                    ctx.bad('tables', '%s: as read from the tables: %s' % (d, p))
                    return
            if not make_judge(sc, step, ctx, t, ok, hard, files, names, before, root, d):
                return
        elif step['do'] == 'load':
            st = files.get(step['path'])
            if st == 'unknown':
                continue
            want = pick(sc, st, step, names)
            if not read_judge(sc, ctx, t, ok, t.result if ok else None, want, trees, hard, d, st):
                return
        elif step['do'] == 'index':
            known = all(isinstance(files.get(p), dict) for p in step['files'])
            if ok:
                if any(files.get(p) is None for p in step['files']):
                    ctx.bad('index', '%s: a file that is not there is taken into the index' % d)
                    return
                xmls[target] = [[p, kind_of(p), sorted(files[p])] for p in step['files']] if known else 'unknown'
            else:
                if known and not hard:
                    ctx.bad('failed', '%s failed although nothing was wrong: %s: %s' % (d, t.status, repr(t.error)[:300]))
                    return
                if contents(os.path.join(root, target)) != before[target]:
                    xmls[target] = 'partial' if t.status == 'killed' else 'unknown'
                    b = contents(os.path.join(root, target))
                    if t.status == 'killed' and b and b.rstrip().endswith(b'</cross_sections>') and known:     # all of it was written
                        xmls[target] = [[p, kind_of(p), sorted(files[p])] for p in step['files']]
        else:
            st = xmls.get(step['xml'] or 'cross_sections.xml')
            if st == 'unknown':
                continue
            if not isinstance(st, list):
                if ok:
                    ctx.bad('index', '%s: an index that %s is read' % (d, 'is not there' if st is None else 'was cut off by a kill'))
                    return
                continue
            n = names[step['item']]
            first = [j for j, x in enumerate(st) if n in x[2]]
            if ok:
                libs, j, tree = t.result
                if libs != st:
                    ctx.bad('index', '%s: the index names %s instead of %s' % (d, libs, st))
                    return
                if j != (first[0] if first else None):
                    ctx.bad('index', '%s: %s is found in library %s of the index instead of %s' % (d, n, j, first[:1]))
                    return
            if not first:
                if not ok and not hard:
                    ctx.bad('failed', '%s failed although nothing was wrong: %s: %s' % (d, t.status, repr(t.error)[:300]))
                    return
                continue
            fst = files.get(st[first[0]][0])
            if fst == 'unknown':
                continue
            want = pick(sc, fst, step, names)
            if not read_judge(sc, ctx, t, ok, t.result[2] if ok else None, want, trees, hard, d, fst):
                return


def differs(kind, got, want, back):
    if kind == 'n':
        return gen_lib.neutron_differs(got, want, back)
    return (gen_lib.multipole_differs if kind == 'w' else gen_lib.diff)(got, want)


def kind_of(path):
    return {'n': 'neutron', 't': 'thermal', 'w': 'wmp'}[os.path.basename(path)[0]]


def describe_step(sc, s):
    if s['do'] == 'make':
        return 'export %s to %s, mode %s' % (item_name(sc['items'][s['item']]), s['path'], s['mode'] or 'default')
    if s['do'] == 'load':
        return 'read %s of %s' % ('the first entry' if s['by'] == 'file' else item_name(sc['items'][s['item']]), s['path'])
    if s['do'] == 'index':
        return 'index %s in %s' % (', '.join(s['files']), s['xml'] or 'the default file')
    return 'find %s through %s' % (item_name(sc['items'][s['item']]), s['xml'] or 'the default file')


def pick(sc, st, step, names):
    if isinstance(st, tuple):
        st = {st[1]: st[2]}
    if not isinstance(st, dict):
        return None
    if step['by'] == 'file':
        n = first_entry(st)
    else:
        n = names[step['item']]
    j = st.get(n)
    if j is not None and sc['items'][j]['kind'] != sc['items'][step['item']]['kind']:
        return None
    return j


def read_judge(sc, ctx, t, ok, tree, want, trees, hard, d, st):
    if want is None:
        if ok:
            ctx.bad('content', '%s: data are returned although %s' % (d, 'there are none'))
            return False
        return True
    if not ok:
        if not hard and not isinstance(st, tuple):
            ctx.bad('failed', '%s failed although nothing was wrong: %s: %s' % (d, t.status, repr(t.error)[:300]))
            return False
        return True
    p = differs(sc['items'][want]['kind'], tree, trees[want], True)
    if p:
        ctx.bad('killed' if isinstance(st, tuple) else 'content', '%s%s: %s' % (d, ', whose export was killed' if isinstance(st, tuple) else '', p))
        return False
    ctx.probes['compared'] += 1
    ctx.probes['read_despite_fault'] += bool(hard)
    return True


def make_judge(sc, step, ctx, t, ok, hard, files, names, before, root, d):
    p, n = step['path'], names[step['item']]
    st = files.get(p)
    mode = step['mode'] or 'a'
    allowed = None
    if mode == 'w' or mode in ('x', 'a') and st is None:
        allowed, new = True, {}
    elif mode == 'x' or mode == 'r+' and st is None:
        allowed = False
    elif st == 'unknown' or isinstance(st, tuple):
        allowed, new = None, None
    else:
        allowed, new = n not in st, dict(st)
    fresh = mode == 'w' or before[p] is None
    if ok:
        if allowed is False:
            ctx.bad('accepted', '%s reported success although %s' % (d, 'there is no such file' if st is None else 'the file is there' if mode == 'x' else 'there is such an entry'))
            return False
        files[p] = 'unknown' if new is None else dict(new, **{n: step['item']})
        return True
    if allowed and not hard:
        ctx.bad('failed', '%s failed although nothing was wrong: %s: %s' % (d, t.status, repr(t.error)[:300]))
        return False
    if contents(os.path.join(root, p)) == before[p]:
        return True
    if allowed is False and not hard and isinstance(st, dict):
        return True                      # refused: what was there has to be there still
    if fresh and t.status == 'killed':
        files[p] = ('partial', n, step['item'])
        return True
    files[p] = 'unknown'
    return True
