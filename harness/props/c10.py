"""C10 the -se advice on terminators."""
import json, re
import gen, pipe
from common import mismatches

PAT = re.compile(r"(You could omit (?:the word|both the words|all the words)|The words) '([^\n]*)'"
                 r"(?: \(at line (\d+) col (\d+)\)\n|\n \(from line (\d+) col (\d+) to line (\d+) col (\d+)\)\n)"
                 r"(could be safely reduced to any of these minimal patterns:\n((?:  Pattern \d+ : .*\n)+))?")
CFG = 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANT AllowCultural=FALSE\nCONSTANT MaxRun=3\n'
MERGE = "nai to'i je i toi ju'e nai i na"


def reports(out):
    R = []
    for m in PAT.finditer(out):
        l, c = int(m.group(3) or m.group(5)), int(m.group(4) or m.group(6))
        pats = [x.split(':')[1].split() for x in (m.group(10) or '').split('\n') if x]
        R.append({'all': m.group(1) != 'The words', 'words': m.group(2).split(), 'l': l, 'c': c,
                  'l2': int(m.group(7) or l), 'c2': int(m.group(8) or c), 'pats': pats})
    return R


def numbers(rng):
    """Numbers and letters, ended or not, before what would run together with them."""
    c = rng.choice
    out = []
    for _ in range(rng.randrange(1, 4)):
        out += [c(['li', 'li', "me'o", "li vei", '', 'mi', "ko'a xi", "lo", 'pu', ".i", "fa'a xi", "do by"]),
                c(['pa', 'pa', 're by', 'vei pa', "vei pa su'i re", 'by', 'cy dy', "ci boi su'i re", "ny"]),
                c(['', 'boi', 'boi', "ve'o", "boi ve'o", "boi lo'o", "lo'o", "boi ku", "ve'o boi", "boi te'u"]),
                c(['re mai', "re mo'o", 're roi broda', 're roi ku', 'by mai', 'pa re mai', 'by roi ku broda', 're moi', 'by moi', 'pu broda', 'zi broda', 're broda', 'by', "su'i re", 'pa roi ku', '', 'ci boi', 'klama', "re ve'o broda", "mu'i mi"])]
    return ' '.join(x for x in out if x)


def check(ctx):
    rng = ctx.rng
    G, F = gen.Grammar(), gen.Grammar('full')
    T = [gen.dense(rng, rng.randrange(4, ctx.pick(22, 34))) for _ in range(ctx.pick(1000, 12000))]
    for _ in range(ctx.pick(800, 10000)):
        T.append(gen.surface(rng.choice([F, F, G]).random_text(rng, rng.randrange(1, 25)), rng))
    T += pipe.explicit(ctx, [gen.surface(G.random_text(rng, rng.randrange(1, 20)), rng) for _ in range(ctx.pick(800, 10000))], rng)
    for _ in range(ctx.pick(300, 3000)):
        w = gen.dense(rng, 14).split(' ')
        w.insert(rng.randrange(len(w) + 1), rng.choice(["ba'e", "ui", "sei broda", "to mi toi", "xi pa", "doi", "pa mai", "\n"]))
        T.append(' '.join(w))
    for C in (F.covering(rng), G.covering(rng)):
        T += [gen.surface(t, rng) for t in rng.sample(C, ctx.pick(350, len(C)))]
    T += [numbers(rng) for _ in range(ctx.pick(900, 9000))]
    T.append(MERGE)
    obs, kept = [], []
    for t, r in zip(T, ctx.run([(['jbofihe', '-se', '-b'], t) for t in T])):
        if r[0] == 0:
            obs.append({'text': list(t), 'strict': t == MERGE, 'reports': reports(r[1])})
            kept.append(t)
    ctx.cov['reports'] = sum(len(o['reports']) for o in obs)
    ctx.cov['reduced_patterns'] = sum(len(x['pats']) for o in obs for x in o['reports'])
    for b in range(0, len(obs), 1500):
        part = obs[b:b + 1500]
        out, st = ctx.tlc('TraceElide', CFG, {'obs.json': json.dumps(part)})
        ctx.cov['traces_validated_against_impl'] += len(part)
        for m in mismatches(out):
            t, e = kept[b + m['i'] - 1], m['exp']
            got = [x for x in part[m['i'] - 1]['reports'] if (x['l'], x['c']) == (e['l'], e['c'])]
            ctx.violation('advice: jbofihe -se < %r' % t, {'text': t, 'run': e['run'], 'at': [e['l'], e['c']], 'specified': e, 'observed': got})
    # the advice comes on top of the normal output and status
    S = rng.sample(T, min(len(T), 500))
    for t, a, b in zip(S, ctx.run([(['jbofihe', '-se'], t) for t in S]), ctx.run([(['jbofihe'], t) for t in S])):
        if a[0] != b[0] or not a[1].endswith(b[1]) or a[2] != b[2]:
            ctx.violation('plain: jbofihe -se < %r' % t, {'with': a, 'without': b})
    ctx.sample({'text': kept[3], 'reports': obs[3]['reports']})
    return ctx.finish('model_checking')
