"""Covariance extraction: scenarios, execution in a World, reference results."""
import copy
import json
import os
import re
import shutil

import numpy as np

from . import core, gen_endf, njoysim, popen, seams, worlda

SCALE = ['SCALE_3', 'SCALE_44', 'SCALE_56', 'SCALE_238', 'SCALE_252']
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'groups.json')) as _f:
    GROUPS = json.load(_f)          # boundaries of the structures that can be asked for by name


def scale_groups(name):
    return GROUPS[name]


def random_groups(r):
    n = r.choice([1, 2, 3, 3, 4, 6, 9]) if r.random() < 0.93 else r.choice([20, 64])
    g = set()
    while len(g) < n + 1:
        g.add(njoysim.f3(10 ** r.uniform(-5, 7.3)))
    return sorted(g)


def random_weight(r):
    n = r.choice([2, 3, 5])
    e = sorted({njoysim.f3(10 ** r.uniform(-5, 7.3)) for _ in range(n)})
    return [v for x in e for v in (x, round(r.uniform(0, 3), 3))]


def random_request(r, specs, kind=None):
    k = r.randrange(len(specs))
    sp = specs[k]
    avail = sorted(mt for mf, mt, _ in sp['sections'] if mf == 33)
    kind = kind or r.choice(['api', 'api', 'cli'])
    mts = r.sample(avail, r.randrange(1, len(avail) + 1))
    if kind == 'cli':
        return {'kind': 'cli', 'spec': k, 'bins': r.choice(['SCALE_3'] * 12 + ['SCALE_44', 'SCALE_56']), 'mts': mts if r.random() < 0.6 else None,
                'T': r.choice([None, 293, 300, 600, 1200]), 'iwt': r.choice([None, 2, 3, 5, 6, 7, 8, 9, 10, 11, 12]), 'store': r.choice([None, None, 'mine_']),
                'names': r.random() < 0.2, 'relpath': r.random() < 0.3}
    temps = r.sample([293.6, 300, 300.0, 600, 900, 2400], r.choice([1, 1, 1, 2, 3]))
    nu = sp['fiss'] and r.random() < 0.6
    chi = sp['fiss'] and r.random() < 0.6
    iwt = r.choice([1, 2, 3, 6, 9, 9])
    return {'kind': 'api', 'spec': k, 'mts': mts if len(mts) > 1 or r.random() < 0.7 else mts[0], 'temps': temps if len(temps) > 1 or r.random() < 0.7 else temps[0],
            'groups': random_groups(r), 'iwt': iwt, 'w': random_weight(r) if iwt == 1 else None, 'nu': nu, 'chi': chi, 'tmp': r.random() < 0.5}


def as_list(x):
    return list(x) if isinstance(x, list) else [x]


def resolved(req, specs):
    """The request as plain numbers: (mts, temps, groups, iwt, w, nu, chi)."""
    sp = specs[req['spec']]
    if req['kind'] == 'cli':
        mts = req['mts'] or [mt for mt in sorted(mt for mf, mt, _ in sp['sections'] if mf == 33)]
        return list(mts), [req['T'] or 300], scale_groups(req['bins'] or 'SCALE_252'), req['iwt'] or 6, None, bool(sp['fiss']), bool(sp['fiss'])
    return as_list(req['mts']), as_list(req['temps']), req['groups'], req['iwt'], req['w'], req['nu'], req['chi']


class Expect:
    """Reference results of an undisturbed extraction."""

    def __init__(self, req, specs, texts, nonce):
        mts, temps, groups, iwt, w, nu, chi = resolved(req, specs)
        sp, text = specs[req['spec']], texts[req['spec']]
        self.mat = sp['mat']
        h, secs = njoysim.endf_info(text.replace('\r\n', '\n'))
        secs = secs[self.mat]
        plot = list(mts)
        if chi and 18 not in plot:
            plot.append(18)
        self.mts = list(plot) + ([452] if nu else []) + ([1018] if chi else [])
        self.groups = groups
        self.tapes = []          # (file name, key, mts on the tape)
        self.files = {'njoy_output.txt': njoysim.listing(nonce, h)}

        def tape(name, mf, T, plots):
            key = njoysim.cov_key(nonce, h, self.mat, mf, T, iwt, w or [], groups)
            on = njoysim.mts_for(secs, mf)
            fn = '%s_%s.txt' % (name.format('covr'), T)
            self.tapes.append((fn, key, on))
            self.files[fn] = njoysim.boxer_tape(key, self.mat, on, groups)
            self.files['%s_%s.eps' % (name.format('viewr'), T)] = njoysim.viewr_text(key, plots)
        for T in temps:
            tape('{}', 33, T, plot)
        if nu:
            tape('{}_nu', 31, temps[-1], [452])
        if chi:
            tape('{}_chi', 35, temps[-1], [0])

    def matrix(self, fn, mt):
        """(file name, None if the converter has to report an error, else (bounds, xs, sd, cov) high to low)."""
        key, on = next((k, o) for f, k, o in self.tapes if f == fn)
        m = 18 if mt == 1018 else mt
        if m not in on:
            return None
        xs, sd, cov = njoysim.matrices(key, len(self.groups) - 1, m)
        g = np.array([njoysim.f3(x) for x in self.groups])
        return g[::-1], xs[::-1], sd[::-1], cov[::-1, ::-1]

    def matrix_files(self):
        return [(fn, mt, '%s_%d_matrix.txt' % (fn, mt)) for fn, _, _ in self.tapes for mt in self.mts]


def parse_matrix(text):
    """Blocks of a converter file as lists of numbers (own parser)."""
    blocks = []
    for l in text.split('\n'):
        if re.match(r'[0-4] corr', l):
            blocks.append([])
        elif l.strip() and blocks:
            blocks[-1] += [l[a:a + 10] for a in range(0, len(l), 10)]
    return [[float(t) for t in b] for b in blocks]


def check_matrix(text, want):
    if want is None:
        return None if '***ERROR IN BOXR***' in text else 'no error although the tape has no such reaction'
    if 'ERROR' in text:
        return 'converter error instead of the matrix'
    try:
        b = parse_matrix(text)
    except ValueError as e:
        return 'unreadable: %s' % e
    if len(b) != 4:
        return '%d blocks' % len(b)
    for name, got, exp in zip(('group bounds', 'cross sections', 'deviations', 'covariances'), b, want):
        if len(got) != np.size(exp) or not np.array_equal(np.array(got), np.ravel(exp)):
            return '%s are not those of this run' % name
    return None


def materialise(sc, root):
    """Evaluation files of the scenario; returns texts."""
    texts = []
    for k, sp in enumerate(sc['specs']):
        t, _ = gen_endf.build([sp], sc.get('tapeid', True), sc.get('crlf', False))
        texts.append(t)
        with open(os.path.join(root, 'eval%d.endf' % k), 'w', newline='') as f:
            f.write(t)
    os.makedirs(os.path.join(root, 'work'), exist_ok=True)
    return texts


def run_extraction(sc, step, root, nonce, sched=(), faults=(), cap=4096, step_limit=40000, plan=None, boxer=None, lists=None):
    """One extraction in <root>/work.  Returns (world, task, njoy, boxer).  lists: the lists the caller keeps and
    passes again when it asks for the same once more."""
    req = step['req']
    nj = njoysim.Njoy(nonce, plan if plan is not None else step.get('plan'))
    bx = worlda.Boxer(boxer if boxer is not None else step.get('boxer'))
    w = popen.world(root, {'njoy': nj, 'boxer2mat': bx, '/sim/bin/njoy': nj, '/sim/bin/boxer': bx}, pipe_capacity=cap,
                    sched=sched, faults=faults, step_limit=step_limit)
    w.readonly = {'eval%d.endf' % k for k in range(len(sc['specs']))}
    kept = {} if lists is None else lists
    work = os.path.join(root, 'work')
    endf = os.path.join(root, 'eval%d.endf' % req['spec'])
    if req['kind'] == 'cli':
        # what is not given has the value the help text says
        argv = ['EndfToCov.py', os.path.relpath(endf, work) if req.get('relpath') else endf]
        for opt, val in (('energy_bin_structure', req['bins']), ('temperature', req['T']), ('njoy_spectrum_weighting', req['iwt'])):
            if val is not None:
                argv += ['-' + opt, str(val)]
        if not req.get('names'):
            argv += ['-njoy_exec', '/sim/bin/njoy', '-boxer_exec', '/sim/bin/boxer']
        if req.get('out') == 'path':
            argv += ['-output_path', '../work' if req.get('relpath') else work]
        if req['mts']:
            argv += ['-mts'] + [str(m) for m in req['mts']]
        if req['store']:
            argv += ['-output_store', req['store']]

        def go():
            core.run_file_as_main('ASAPy/EndfToCov.py')
        t = worlda.job_task(w, go, 7, argv)
    else:
        def go():
            from ASAPy import EndfToCov
            kw = {'output_dir': work} if req.get('out') == 'path' else {}
            mts, temps, groups = [kept.setdefault(repr((k, req[k])), copy.deepcopy(req[k])) for k in ('mts', 'temps', 'groups')]
            EndfToCov.run_cover_chain(endf, mts, temps, cov_energy_groups=groups,
                                      iwt_fluxweight=req['iwt'], user_flux_weight_vals=req['w'], nu=req['nu'], chi=req['chi'],
                                      use_temp_folder=req['tmp'], njoy_exec='/sim/bin/njoy', boxer_exec='/sim/bin/boxer', **kw)
        t = worlda.job_task(w, go, 7)
    worlda.run_world(w, work)
    return w, t, nj, bx


def child_codes(w):
    return [getattr(c, 'exit_code', -9) for c in w.children]


def compare_results(ex, work):
    """First deviation of the result files in `work` from the reference, or None."""
    for name in sorted(ex.files):
        p = os.path.join(work, name)
        if not os.path.isfile(p):
            return '%s is missing' % name
        with open(p) as f:
            if f.read() != ex.files[name]:
                return '%s is not what NJOY wrote in this run for it' % name
    for fn, mt, name in ex.matrix_files():
        p = os.path.join(work, name)
        if not os.path.isfile(p):
            return '%s is missing' % name
        with open(p) as f:
            bad = check_matrix(f.read(), ex.matrix(fn, mt))
        if bad:
            return '%s: %s' % (name, bad)
    return None
