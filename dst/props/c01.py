"""C01: programs get all input, keep all output, and failures are errors."""
import copy
import os

from .. import core, popen, seams
from ..worlda import job_task, run_world

ID = 'C01'
BUDGET = {'quick': 3000, 'thorough': 120000}
TIMEOUT = 60
RULE = ('random runner (covariance chain, both NJOY drivers), input size, pipe capacity, child behaviour (read / write / close / sleep / die '
        'steps), schedule of parent and child, and faults; non-trivial: the child moved at least one byte or died; distinct by event trace')
REAL = ['ASAPy.EndfToCov.run_program', 'ASAPy.njoy.run', 'ASAPy.data.njoy.run', 'shutil and tempfile of the standard library on a scratch folder']
STUB = ['subprocess.Popen and its pipes (bounded buffers, both sides scheduled)', 'the external programs (scripted behaviours)']
ASSUMPTIONS = ['programs do not leave a background process holding their output open',
               'the program can be found and its run folder exists']

WORDS = ['reconr', '20 21', "'PENDF'/", '9237 2/', '.001/ err', '0/', 'stop', '  1.00000-5', '***warning***', 'x', '', '---']


def text(r, n, nl=True):
    out, k = [], 0
    while k < n:
        l = ' '.join(r.choice(WORDS) for _ in range(r.randrange(1, 6)))
        out.append(l)
        k += len(l) + 1
    s = '\n'.join(out)[:n]
    return s + ('\n' if nl and s else '')


def gen(r, i, tier):
    cap = r.choice([1, 7, 64, 512, 4096, 65536])
    size = r.choice([0, 1, 40, 400, 3000, 9000, 20000])
    steps = []
    style = r.choice(['reader', 'talker', 'deaf', 'mixed', 'mixed'])
    if style == 'deaf':
        steps.append(['close_in'] if r.random() < 0.5 else ['read', r.choice([1, 30])])
    for _ in range(r.randrange(1, 7)):
        k = r.random()
        if style == 'reader' and k < 0.5 or style == 'mixed' and k < 0.25:
            steps.append(['read', r.choice([1, 10, 100, 5000])])
        elif style != 'deaf' and k < 0.35:
            steps.append(['readall'])
        elif k < 0.85:
            steps.append([r.choice(['out', 'out', 'err']), min(r.choice([0, 1, 20, 300, 5000, 12000]), cap * 50), r.choice([1, 13, 100, 4096]), r.random() < 0.8])
        elif k < 0.93:
            steps.append(['sleep', r.choice([0.01, 10, 4000])])
        else:
            steps.append(['raw', r.choice(['\r\n', '\n\n\n', 'no newline', 'a\rb', '\x00', '\u00e9\u4e00', 'LATIN', ' ' * 300])])
    if r.random() < 0.25:
        steps.append(['close_out'])
        for _ in range(r.randrange(0, 3)):
            steps.append(r.choice([['readall'], ['sleep', 5], ['read', 3]]))
    if r.random() < 0.7:
        steps.insert(r.randrange(len(steps) + 1), ['tape', r.choice([0, 10, 3000])])
    end = r.choice([['exit', 0], ['exit', 0], ['exit', 0], ['exit', r.choice([1, 2, 77, 126, 127, 128, 255])], ['signal', r.choice([2, 6, 9, 11, 15])]])
    sc = {'runner': r.choice(['chain', 'njoy', 'data_njoy']), 'cap': cap, 'size': size, 'seed': r.randrange(10 ** 9), 'steps': steps, 'end': end,
          'stdout': r.random() < 0.5, 'input_file': r.random() < 0.5, 'tapes': r.choice([0, 1, 2]), 'old_results': r.random() < 0.5,
          'sched': [r.choice([0, 1]) for _ in range(r.choice([0, 10, 100, 600]))], 'faults': []}
    k = r.random()
    if k < 0.08:
        sc['faults'].append({'rank': 101, 'op': 'any', 'n': r.randrange(0, 20), 'act': 'kill'})
    elif k < 0.12:
        sc['faults'].append({'rank': 0, 'op': 'spawn', 'n': 0, 'act': r.choice(['ENOMEM', 'EMFILE', 'EACCES'])})
    elif k < 0.2:
        sc['faults'].append({'rank': 0, 'op': r.choice(['write', 'open', 'any', 'any']), 'n': r.randrange(0, 12),
                             'act': r.choice(['ENOSPC', 'EIO', 'short']), 'keep': r.choice([0, 1, 50])})
    elif k < 0.3:
        sc['faults'] += [{'rank': 0, 'op': 'pipe', 'n': r.randrange(0, 9), 'act': 'short', 'keep': r.choice([1, 3])} for _ in range(2)]
    return sc


def shrink(sc):
    for k in range(len(sc['faults'])):
        v = copy.deepcopy(sc)
        del v['faults'][k]
        yield v
    for k in range(len(sc['steps'])):
        v = copy.deepcopy(sc)
        del v['steps'][k]
        yield v
    if sc['sched']:
        for s in ([], sc['sched'][:len(sc['sched']) // 2], sc['sched'][:-1]):
            yield dict(sc, sched=s)
    for key, val in (('stdout', False), ('input_file', False), ('tapes', 0), ('old_results', False), ('cap', 4096), ('size', 40)):
        if sc[key] != val:
            yield dict(sc, **{key: val})
    for k, s in enumerate(sc['steps']):
        if s[0] in ('out', 'err') and s[1] > 20:
            v = copy.deepcopy(sc)
            v['steps'][k][1] = s[1] // 2
            yield v


def norm(s):
    return s.replace('\r\n', '\n').replace('\r', '\n').replace('\ufffd', '')


def run(sc, ctx):
    root = ctx.fresh('r')
    r = core.rng_for('c01', sc['seed'])
    deck = text(r, sc['size'])
    for d in ('run', 'tmp', 'out'):
        os.mkdir(os.path.join(root, d))
    tin, tout = {}, {}
    for k in range(sc['tapes']):
        p = os.path.join(root, 'in%d' % k)
        with open(p, 'w') as f:
            f.write('tape %d of %d\n' % (k, sc['seed']) * 40)
        tin[20 + k] = p
        tout[30 + k] = os.path.join(root, 'out', 'res%d' % k)
    if sc['old_results']:
        for p in tout.values():
            with open(p, 'w') as f:
                f.write('old result\n')
    wrote = {}
    seen = {}

    def program(c):
        seen['cwd'] = c.cwd
        seen['tapes'] = {}
        for t in tin:
            try:
                with seams._real['open'](c.path('tape%d' % t), 'rb') as f:
                    seen['tapes'][t] = f.read()
            except OSError:
                seen['tapes'][t] = None
        pr = core.rng_for('c01 child', sc['seed'])
        for s in sc['steps']:
            if s[0] == 'read':
                c.read(s[1])
            elif s[0] == 'readall':
                c.read_all()
            elif s[0] in ('out', 'err'):
                data = text(pr, s[1], s[3]).encode()
                for a in range(0, len(data), max(s[2], len(data) // 40 + 1)):
                    c.write(data[a:a + max(s[2], len(data) // 40 + 1)], s[0] == 'err')
            elif s[0] == 'raw':
                c.write(b'\xe9vis\xe9\n' if s[1] == 'LATIN' else s[1].encode())
            elif s[0] == 'close_in':
                c.close_stdin()
            elif s[0] == 'close_out':
                c.close_out()
            elif s[0] == 'sleep':
                c.w.op('sleep', '%g' % s[1])
                c.w.now += s[1]
            elif s[0] == 'tape':
                for t in tout:
                    data = ('result %d %d\n' % (t, sc['seed'])) * (1 + s[1] // 20)
                    with open(c.path('tape%d' % t), 'w') as f:
                        f.write(data)
                    wrote[t] = data
        if sc['end'][0] == 'signal':
            raise popen.ChildSignal(sc['end'][1])
        return sc['end'][1]

    w = popen.world(root, {'theprog': program}, pipe_capacity=sc['cap'], sched=sc['sched'], faults=sc['faults'], step_limit=60000)
    after = {}

    def call():
        try:
            if sc['runner'] == 'chain':
                from ASAPy import EndfToCov
                EndfToCov.run_program(deck, 'theprog', sc['stdout'], os.path.join(root, 'run'),
                                      os.path.join(root, 'input.txt') if sc['input_file'] else None)
            else:
                if sc['runner'] == 'njoy':
                    from ASAPy import njoy
                else:
                    from ASAPy.data import njoy
                njoy.run(deck, tin, tout, input_filename=os.path.join(root, 'input.txt') if sc['input_file'] else None,
                         stdout=sc['stdout'], njoy_exec='theprog')
        finally:
            after['done'] = [t.state == core.Task.DONE for t in w.tasks[1:]]
    t = job_task(w, call, sc['seed'])
    run_world(w, root)
    ctx.add(w, 'run')
    who = {'chain': 'EndfToCov.run_program', 'njoy': 'njoy.run', 'data_njoy': 'data.njoy.run'}[sc['runner']]
    if w.deadlock:
        ctx.bad('no-end', '%s: caller and program wait for each other: %s' % (who, w.deadlock))
        return
    if any(x.status == 'steplimit' for x in w.tasks):
        ctx.bad('no-end', '%s: no end within %d steps' % (who, w.step_limit))
        return
    if len(w.children) > 1:
        ctx.bad('started-twice', '%s started the program %d times' % (who, len(w.children)))
        return
    parent_fault = any(e[0] == 'fault' and e[1] == 0 and e[2] not in ('short',) for e in w.log)
    results = {k: (open(p).read() if os.path.exists(p) else None) for k, p in tout.items()}
    untouched = {k: ('old result\n' if sc['old_results'] else None) for k in tout}
    for k, p in tin.items():
        if open(p).read() != 'tape %d of %d\n' % (k - 20, sc['seed']) * 40:
            ctx.bad('input-changed', '%s changed its input file' % who)
    if not w.children:
        if t.status == 'ok':
            ctx.bad('not-run', '%s returned without having run the program' % who)
        elif not parent_fault:
            ctx.bad('not-run', '%s failed before starting the program: %r' % (who, t.error))
        elif results != untouched:
            ctx.bad('results', '%s failed but results were taken over' % who)
        return
    c = w.children[0]
    code = getattr(c, 'exit_code', -9)
    ctx.nontrivial = bool(c.printed or c.stdin_read or code)
    ctx.probes['child_ok' if code == 0 else 'child_failed'] += 1
    if after.get('done') != [True]:
        if not parent_fault or t.status == 'ok':
            ctx.bad('too-early', '%s came back before the program had ended' % who)
    want = deck.encode()
    if c.stdin_read != want[:len(c.stdin_read)] or (c.stdin_eof and c.stdin_read != want):
        ctx.bad('stdin', '%s: program was given %d bytes of input, %r..., expected %d bytes' % (who, len(c.stdin_read), c.stdin_read[:40], len(want)))
    if c.note.get('stdin_inherited'):
        ctx.bad('stdin', '%s: program does not get the input' % who)
    if sc['runner'] == 'chain':
        if seen['cwd'] != os.path.join(root, 'run'):
            ctx.bad('folder', '%s: program ran in %s' % (who, seen['cwd']))
    else:
        for k, p in tin.items():
            if seen['tapes'][k] != open(p, 'rb').read():
                ctx.bad('folder', '%s: tape%d is not in the folder the program runs in' % (who, k))
    printed = norm(c.printed.decode('utf-8', 'replace'))
    if code != 0:
        if t.status == 'ok':
            ctx.bad('status', '%s returned normally although the program ended with %d' % (who, code))
        elif not parent_fault:
            e = t.error
            if getattr(e, 'returncode', None) != code:
                ctx.bad('status', '%s: error %r does not carry the status %d' % (who, e, code))
            elif norm(getattr(e, 'output', None) or '') != printed:
                ctx.bad('output', '%s: error carries %d characters of output, program printed %d' % (who, len(getattr(e, 'output', None) or ''), len(printed)))
        if results != untouched:
            ctx.bad('results', '%s: results of a program that ended with %d were taken over' % (who, code))
        return
    if t.status != 'ok':
        if not parent_fault:
            ctx.bad('false-failure', '%s failed although the program ended with status zero: %s %r' % (who, t.status, t.error))
        return
    for k in tout:
        if sc['runner'] == 'chain':
            continue
        want = wrote.get(k, untouched[k])
        if results[k] != want:
            ctx.bad('results', '%s: result file of tape %d is not what the program wrote' % (who, k))
    if sc['stdout'] and printed not in norm(t.proc.out.getvalue()):
        ctx.bad('output', '%s: printed output is not what the program wrote' % who)
