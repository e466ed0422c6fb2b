"""Recording runs of jbofihe and validating them against the pipeline
specification (TracePipe.tla)."""
import json, re
from common import mismatches

LISTS = re.compile(r'\A\nToken list before preprocessing\n\n(.*?)(?:-{30}\nToken list after preprocessing\n\n(.*?)-{30}\n\n(.*))?\Z', re.S)


def parse_tree(s):
    t = []
    for l in s.split('\n'):
        if not l:
            continue
        m = re.match(r'^((?:\| )*)(\+-)?(.*)$', l)
        d = len(m.group(1)) // 2 + (1 if m.group(2) else 0)
        t.append([d, m.group(3)])
    return t


def split_err(err):
    """stderr -> (messages before/besides the syntax error reports, lines of the first report)"""
    msgs, rep = [], []
    m = re.search(r'-{20}\nSYNTAX ERROR IN TEXT\n-{20}\nMisparsed token :\n(.*?)\nLatest successfully parsed tokens :\n(.*?)-{20}\n',
                  err, re.S)
    head = err
    if m:
        rep = [m.group(1)[2:]] + [l[2:] for l in m.group(2).split('\n') if l]
        head = err[:m.start()]
    for l in head.split('\n'):
        if l and not l.startswith('Warning: Sentence may be missing selbri') and not l.startswith('Missing selbri before GIhA') \
                and not l.startswith('Syntax error following text'):
            msgs.append(l)
    warn = [l for l in head.split('\n') if l.startswith(('Warning: Sentence may', 'Missing selbri before'))]
    return msgs, rep, warn


def record(text, opts, res):
    st, out, err = res
    r = {'text': list(text), 'full': '-re' in opts, 'ie': '-ie' in opts, 'comp': '-t' in opts, 'rc': st,
         'before': [], 'after': [], 'tree': []}
    m = LISTS.match(out)
    if m:
        r['before'] = [l for l in m.group(1).split('\n') if l]
        if m.group(2) is not None:
            r['after'] = [l for l in m.group(2).split('\n') if l]
            r['tree'] = parse_tree(m.group(3))
    elif out:
        r['tree'] = [[-1, out[:200]]]
    r['msgs'], r['err'], r['warn'] = split_err(err)
    return r


def items(out):
    """Bracketed output -> brackets and the runs of words between them."""
    return [' '.join(x.split()) for x in re.findall(r'[(][0-9]+|[)][0-9]+|[]\[{}<>]|[^]\[{}<>()]+', out) if x.strip()]


CFG = """INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANT AllowCultural = %s
CONSTANT Compare = {%s}
"""


def validate(ctx, texts, compare, optsets=(('-k', '-tf'),), batch=4000, cultural=False):
    """Run every text with every option set, check against the specification.
    Returns the recorded observations."""
    jobs, meta = [], []
    for t in texts:
        for o in optsets:
            o = tuple(o) + (('-cr',) if cultural else ())
            jobs.append((['jbofihe'] + list(o), t))
            meta.append((t, o))
    res = ctx.run(jobs)
    obs = [record(t, o, r) for (t, o), r in zip(meta, res)]
    if 'brk' in compare:
        res2 = ctx.run([(['jbofihe'] + [x for x in o if x not in ('-k', '-t', '-tf')], t) for t, o in meta])
        for r, (t, o), x in zip(obs, meta, res2):
            r['brk'] = items(x[1])
            if x[0] != r['rc']:
                ctx.violation('brk-rc: jbofihe %s < %r' % (' '.join(o), t), {'text': t, 'rc -k -tf': r['rc'], 'rc': x[0]})
    cfg = CFG % ('TRUE' if cultural else 'FALSE', ','.join('"%s"' % c for c in compare))
    for b in range(0, len(obs), batch):
        part = obs[b:b + batch]
        out, st = ctx.tlc('TracePipe', cfg, {'obs.json': json.dumps(part)})
        ctx.cov['traces_validated_against_impl'] += len(part)
        for m in mismatches(out):
            k = b + m['i'] - 1
            t, o = meta[k]
            got = obs[k].get(m['what'])
            ctx.violation('%s: jbofihe %s < %r' % (m['what'], ' '.join(o), t),
                          {'text': t, 'options': o, 'stage': m['what'], 'specified': m['exp'], 'observed': got})
    return obs


def explicit(ctx, texts, rng=None):
    """For each accepted text, the text with its elided terminators written out
    (all of them, or a random share), word by word from the -ie output."""
    T = [t for t in texts if not re.search(r"zoi|la'o|\[|\(|<|pei", t)]
    res = []
    for t, r in zip(T, ctx.run([(['jbofihe', '-ie'], t) for t in T])):
        if r[0] == 0:
            q = rng.choice([0, .2, .5]) if rng else 0
            ws = ' '.join(x for x in items(r[1]) if x[0] not in '()[]{}<>').split()
            res.append(' '.join(w.lower() + '.' for w in ws if not w.isupper() or not q or rng.random() >= q))
    return res
