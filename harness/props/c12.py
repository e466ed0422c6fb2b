"""C12 reports on rejected and doubtful texts: where, which words."""
import gen, pipe

TERMSU = ["mi", "do", "la djan.", "le broda", "le broda ku", "pu ku", "na ku", "fa mi", "bai do", "ge ko'a gi ko'e", "pu gi mi gi do", "pa roi ku", "ta'o", "ui", "ba'e mi",
          "li pa", "lo'u mi le'u", "zoi gy. x y .gy.", "je'a nai", "to mi toi", "xi pa", "ce'e", "nu'i mi do nu'u"]
GIHEK = ["gi'e", "gi'a nai", "na gi'e", "se gi'u", "na se gi'i nai", "gi'e bo", "gi'e ke", "gi'e pu bo", "na gi'a ba ke", "gi'o ui", "ba'e gi'e"]
REST = ["broda", "broda do", "cu broda", "mi", "", "brode .i mi", ".i do", "broda ke'e", "ko'a .i broda"]
SEP = [".i", "ni'o", ".i je", ".i bo", "ni'o ni'o", ".i ui", ".ije bo"]


def check(ctx):
    G, F = gen.Grammar(), gen.Grammar('full')
    rng = ctx.rng
    T = []
    for r in G.rules:
        t = G.text_with_rule(r, rng)
        if t and rng.random() < ctx.pick(.5, 1):
            T.append(gen.surface(t, rng).split())
    T += [gen.surface(t, rng).split() for t in G.covering(rng)]
    for _ in range(ctx.pick(1500, 20000)):
        T.append(gen.surface(G.random_text(rng, rng.randrange(1, 25)), rng).split())
    U = []
    for w in T:
        U.append(' '.join(w))
        m = gen.mutate(list(w), rng, rng.randrange(1, 3))
        t = ' '.join(m)
        U.append(gen.layout(t, rng) if rng.random() < .4 else t)
        if rng.random() < .3:
            U.append(' '.join(w[:rng.randrange(len(w) + 1)]))                 # the text breaks off
        if rng.random() < .2:
            i = rng.randrange(len(w) + 1)
            U.append(' '.join(w[:i] + rng.choice([["si"], ["zo", "si", "si", "si"], ["fa'o"]]) + w[i:]))
    V = []
    for _ in range(ctx.pick(1500, 15000)):
        s = []
        for _ in range(rng.randrange(1, 4)):
            k = rng.random()
            ts = ' '.join(rng.choice(TERMSU) for _ in range(rng.randrange(0, 4)))
            if k < .4:
                s.append(ts)
            elif k < .7:
                s.append(' '.join([ts, rng.choice(GIHEK), rng.choice(REST)]))
            else:
                s.append(' '.join([ts, "cu broda" if ts else "broda", rng.choice(TERMSU + ['']), rng.choice(GIHEK), rng.choice(REST)]))
            s.append(rng.choice(SEP))
        t = ' '.join(s[:-1])
        V.append(gen.layout(t, rng) if rng.random() < .5 else t)
    obs = pipe.validate(ctx, U + V, ['rc', 'err', 'warn', 'msgs'], (('-k', '-tf'),), batch=6000)
    R = [gen.surface(F.random_text(rng, rng.randrange(1, 20)), rng).split() for _ in range(ctx.pick(500, 8000))]
    R = [' '.join(gen.mutate(w, rng, 1)) for w in R]
    obs += pipe.validate(ctx, R + U[:ctx.pick(600, 6000)], ['rc', 'err', 'warn', 'msgs'], (('-k', '-tf', '-re'),), batch=6000)
    ctx.cov['rejected'] = sum(1 for o in obs if o['rc'])
    ctx.cov['reports_compared'] = sum(1 for o in obs if o['err'])
    ctx.cov['warnings_compared'] = sum(len(o['warn']) for o in obs)
    for o in [o for o in obs if o['err']][:3]:
        ctx.sample({'text': ''.join(o['text']), 'report': o['err']})
    for o in [o for o in obs if o['warn']][:3]:
        ctx.sample({'text': ''.join(o['text']), 'warnings': o['warn']})
    return ctx.finish('model_checking')
