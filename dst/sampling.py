"""World B: the sampling program run as an MPI job of simulated ranks."""
import hashlib
import os
import shutil
import warnings

import numpy as np
import pandas as pd

from . import core, gen_ace, gen_store, mpi, seams

ACE, STORE = 'base.ace', 'cov.h5'
_store_cache = {}


def store_entries(s):
    zaid = '%d%03d' % (s['ace']['Z'], s['ace']['A'])
    ent = [(zaid, int(mt), sp) for mt, sp in sorted(s['store']['mts'].items(), key=lambda kv: int(kv[0]))]
    ent += [(z, int(mt), sp) for z, mt, sp in s['store'].get('others', [])]
    return ent


def materialise(s, root):
    """Write the inputs of the scenario into an empty folder; returns the ACE model."""
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    text, model = gen_ace.build(s['ace'])
    with open(os.path.join(root, ACE), 'w') as f:
        f.write(text)
    model['text'] = text
    gen_store.write(os.path.join(root, STORE), store_entries(s))
    for name, content in s.get('pre', {}).items():
        with open(os.path.join(root, name), 'w') as f:
            f.write(content)
    return model


def argv_of(s):
    c = s['cli']
    a = ['XsecSampler.py', ACE, STORE, str(c['n'])]
    if c.get('mts'):
        a += ['-mts'] + [str(m) for m in c['mts']]
    if c.get('dist'):
        a += ['-distribution', c['dist']]
    if c.get('over', -1) != -1:
        a += ['-num_oversamples', str(c['over'])]
    if c.get('plots'):
        a.append('--make_plots')
    if c.get('plot_only'):
        a.append('--plot-only')
    return a


def run_job(s, root, nranks, sched=(), faults=(), abort_delay=0, step_limit=60000):
    """Run one job in `root` (inputs already there)."""
    fabric = mpi.Fabric(nranks)
    w = core.World(root, sched=sched, faults=faults, abort_delay=abort_delay, step_limit=step_limit)
    w.fabric = fabric
    w.readonly = {ACE, STORE}
    argv = argv_of(s)
    for r in range(nranks):
        proc = core.ProcessState(argv, core.derive(s['rng'], 'rank', r), mpi.stub_modules(fabric, r))
        w.spawn(r, lambda: core.run_file_as_main('ASAPy/XsecSampler.py'), proc)
    cwd = os.getcwd()
    os.chdir(root)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            w.run()
    finally:
        os.chdir(cwd)
        seams.close_leaked_hdf()
        import matplotlib.pyplot as plt
        plt.close('all')
    return w


def job_status(w):
    return [t.status for t in w.tasks]


def errors_of(w):
    return ['rank %d: %s: %s' % (t.rank, type(t.error).__name__, t.error) for t in w.tasks if t.error is not None]


def failed(w):
    return any(t.status != 'ok' for t in w.tasks)


def read_outputs(root, model):
    """{relative name: bytes} of everything that is not an input."""
    out = {}
    for dp, dn, fn in os.walk(root):
        for f in sorted(fn):
            p = os.path.join(dp, f)
            rel = os.path.relpath(p, root)
            if rel in (ACE, STORE):
                continue
            with open(p, 'rb') as fh:
                out[rel] = fh.read()
    return out


def prefix(model):
    return '%s%d' % (gen_ace.SYMBOL[model['Z']], model['A'])


def sample_names(model, k):
    return ['%s_%d' % (prefix(model), i) for i in range(k)]


def csv_name(model, mt):
    return '%s_%d_samples.csv' % (prefix(model), mt)


def read_csv(root, model, mt):
    df = pd.read_csv(os.path.join(root, csv_name(model, mt)), index_col=0, float_precision='round_trip')
    return df


def factors_from_csv(s, root, model, mts):
    """({mt: DataFrame groups x samples}, number of samples)."""
    res = {}
    for mt in mts:
        df = read_csv(root, model, mt)
        cols = [c for c in df.columns if str(c).isdigit()]
        res[mt] = df[cols]
    return res


def expected_mts(s, model):
    """MTs the job has to sample, in the documented way (named ones, or all the store has for
    this nuclide), minus those the table does not have."""
    present = gen_ace.present_mts(model)
    named = s['cli'].get('mts') or sorted(int(m) for m in s['store']['mts'])
    return [m for m in named if m in present]


def check_table(text, model, factors, rtol=2e-9):
    """Compare one written table with the reference model.  Returns a list of problems."""
    hdr, tok = gen_ace.parse_text(text, len(model['header']))
    if hdr != model['header']:
        return ['header changed']
    base = model['tokens']
    if len(tok) != len(base):
        return ['%d values instead of %d' % (len(tok), len(base))]
    exp, scale = gen_ace.expected(model, factors)
    bad = []
    for i, (t, b) in enumerate(zip(tok, base)):
        if i in exp:
            try:
                v = float(t)
            except ValueError:
                bad.append('value %d unreadable: %r' % (i, t))
                continue
            if not abs(v - exp[i]) <= rtol * max(scale[i], 1e-300):
                bad.append('%s: %s, expected %.11E (base %s)' % (where(model, i), t, exp[i], b))
        elif t != b:
            bad.append('%s: %s, expected unchanged %s' % (where(model, i), t, b))
        if len(bad) > 4:
            break
    return bad


def where(model, i):
    for mt, (at, _, v) in model['arrays'].items():
        if at <= i < at + len(v):
            return 'MT %d point %d' % (mt, i - at)
    for k, (eo, pa, p, ca, c) in enumerate(model.get('chi', [])):
        if pa <= i < pa + len(p):
            return 'chi pdf %d point %d' % (k, i - pa)
        if ca <= i < ca + len(c):
            return 'chi cdf %d point %d' % (k, i - ca)
    return 'XSS %d' % (i + 1)


def input_digest(root):
    h = hashlib.sha256()
    for n in (ACE, STORE):
        with open(os.path.join(root, n), 'rb') as f:
            h.update(f.read())
    return h.hexdigest()
