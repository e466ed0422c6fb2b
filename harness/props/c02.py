"""C02 morphology: classification and division of every string of letters."""
import itertools, json, re
import gen
from common import mismatches

LET = "abcdefgijklmnoprstuvxyz'"
CONS = "bcdfgjklmnprstvxz"
VOW = "aeiou"


def words(ctx):
    rng = ctx.rng
    W = set()
    # exhaustive short strings
    for n in (1, 2, 3):
        for t in itertools.product(LET, repeat=n):
            W.add(''.join(t))
    if ctx.thorough:
        for t in itertools.product("abdilnrstuy'", repeat=5):
            W.add(''.join(t))
    # every consonant pair / triple in the positions where it matters
    for a in CONS:
        for b in CONS:
            for f in ('%sai', 'ba%sa', 'ba%sta', '%sodi', 'tai%su', 'ba%s', "ba%sru'a", 'le%saka', 'se%sy', 'ba%syba'):
                W.add(f % (a + b))
            for c in CONS:
                W.add('a' + a + b + c + 'a')
                if ctx.thorough:
                    for f in ('%sai', 'ba%so', 'spa%sti', 'ba%sy'):
                        W.add(f % (a + b + c))
    for a in VOW + 'y':
        for b in VOW + 'y':
            for f in ('%s', 'k%s', 'bl%s', 'ba%sta', 'br%ska', 'kan%s', 'brod%s', "t%s'a", '%sn', 'l%sn', 'la%sn'):
                W.add(f % (a + b))
    # shapes
    shapes = "CVCCV CCVCV CVC CCV CVV CV'V CV V'V VV V CVCy CCVCy CVCCy CVVr CVVn Cy y CVCC VC VCC CC r n l m h , la doi lai".split()
    n = ctx.pick(26000, 250000)
    for _ in range(n):
        k = rng.choice([1, 2, 2, 3, 3, 3, 4, 4, 5])
        w = ''
        for _ in range(k):
            s = rng.choice(shapes)
            if s in ('la', 'doi', 'lai'):
                w += s
                continue
            for ch in s:
                w += rng.choice(CONS) if ch == 'C' else rng.choice(VOW) if ch == 'V' else ch
        if rng.random() < 0.3:
            w += rng.choice(CONS)
        if rng.random() < 0.1 and w:
            p = rng.randrange(len(w))
            w = w[:p] + w[p].upper() + w[p + 1:]
        if rng.random() < 0.07:
            p = rng.randrange(len(w) + 1)
            w = w[:p] + ',' + w[p:]
        W.add(w)
    # runs of cmavo, alone and before other words
    for _ in range(n // 6):
        w = ''
        for s in rng.choices(["CV", "CVV", "CV'V", "V", "V'V", "VV", 'Cy', 'Cy', 'y', 'V', ','], k=rng.choice([1, 2, 3, 3, 4, 5, 6])):
            w += ''.join(rng.choice(CONS) if ch == 'C' else rng.choice(VOW) if ch == 'V' else ch for ch in s)
        W.add(w + rng.choice(['', '', '', '', '', rng.choice(gen.BRIVLA), 'CVCCV'.replace('C', rng.choice('bdg')).replace('V', rng.choice(VOW))]))
    # mutations of real words
    base = gen.BRIVLA + [x.strip('.') for x in gen.NAMES] + gen.WORDS
    for _ in range(n // 3):
        w = rng.choice(base)
        for _ in range(rng.choice([0, 1, 1, 2])):
            p = rng.randrange(len(w) + 1)
            x = rng.random()
            w = w[:p] + rng.choice(LET) + w[p:] if x < 0.4 else w[:p] + rng.choice(LET) + w[p + 1:] if x < 0.8 else w[:p] + w[p + 1:]
        if rng.random() < 0.4:
            w += rng.choice(base)
        W.add(w)
    for _ in range(n // 6):
        W.add(''.join(rng.choice(LET) for _ in range(rng.randrange(4, 9))))
    return sorted(w for w in W if w and not w.startswith(('#', '-')))


LINE = re.compile(r'^(.*?) *: (.*?) : (.*)$')


def parse(word, line):
    m = LINE.match(line)
    return [m.group(2), m.group(3)] if m and m.group(1) == word else None


def check(ctx):
    W = words(ctx)
    CH = 500
    jobs = [(['vlatai'], '\n'.join(W[i:i + CH]) + '\n') for i in range(0, len(W), CH)]
    res = ctx.run(jobs)
    obs, ws = [], []
    for i, (st, out, err) in enumerate(res):
        part = W[i * CH:(i + 1) * CH]
        lines = out.split('\n')
        if st != 0 or len(lines) != len(part) + 1:
            ctx.violation('vlatai ended with %d after %d of %d words from %r' % (st, len(lines) - 1, len(part), part[0]),
                          {'status': st, 'stderr': err[:300]})
            continue
        for w, l in zip(part, lines):
            p = parse(w, l)
            obs.append({'w': list(w), 't': p[0] if p else '?', 's': p[1] if p else l})
            ws.append(w)
    B = 40000
    for b in range(0, len(obs), B):
        out, st = ctx.tlc('TraceMorph', 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n', {'obs.json': json.dumps(obs[b:b + B])})
        ctx.cov['traces_validated_against_impl'] += len(obs[b:b + B])
        for m in mismatches(out):
            k = b + m['i'] - 1
            ctx.violation('vlatai %s' % ws[k], {'word': ws[k], 'specified': m['exp'], 'observed': [obs[k]['t'], obs[k]['s']]})
    ctx.sample(obs[0])
    ctx.sample(obs[-1])
    out, st = ctx.tlc('MorphDet', 'CONSTANTS NfaFile="morf_nfa.json"\nDfaFile="morf_dfa.json"\nINIT Init\nNEXT Next\n'
                      'INVARIANTS StartOk MoveOk OutOk\nCHECK_DEADLOCK FALSE\n')
    return ctx.finish('model_checking', '%d words classified' % len(obs))
