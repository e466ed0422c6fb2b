"""C09 elided terminators: -ie shows where they go, -re demands them."""
import json
import gen, pipe
from common import mismatches
import props.c07

CFG = 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANT AllowCultural=FALSE\n'


def check(ctx):
    rng = ctx.rng
    G, F = gen.Grammar(), gen.Grammar('full')
    T = props.c07.texts(ctx, G, ctx.pick(800, 20000))
    T += [gen.dense(rng, rng.randrange(4, 30)) for _ in range(ctx.pick(1500, 20000))]
    # where elided terminators go
    pipe.validate(ctx, T, ['rc', 'tree'], (('-k', '-tf', '-ie'), ('-k', '-t', '-ie')), batch=6000)
    # the language of -re: texts of the full grammar, and texts with one terminator more or less
    U = [gen.surface(F.random_text(rng, rng.randrange(1, 30)), rng) for _ in range(ctx.pick(700, 10000))]
    U += [gen.surface(t, rng) for _ in range(ctx.pick(1, 8)) for t in F.covering(rng)]
    E = pipe.explicit(ctx, T)
    U += E + T[:ctx.pick(500, 5000)]
    for t in E:
        w = t.split(' ')
        i = rng.randrange(len(w))
        U.append(' '.join(w[:i] + rng.choice([[], [w[i], rng.choice(gen.ELIDABLE)]]) + w[i + 1:]))
    pipe.validate(ctx, U, ['rc', 'tree'], (('-k', '-tf', '-re'),), batch=6000)
    # the round trip, on the specification and between the runs themselves
    obs = [{'text': list(t)} for t in T[::2]]
    for b in range(0, len(obs), 4000):
        out, st = ctx.tlc('RoundTrip', CFG, {'obs.json': json.dumps(obs[b:b + 4000])})
        for m in mismatches(out):
            raise RuntimeError('the specification does not round-trip: %r' % T[::2][b + m['i'] - 1])
    a = ctx.run([(['jbofihe', '-ie'], t) for t in E])
    b = ctx.run([(['jbofihe', '-re'], t) for t in E])
    for t, x, y in zip(E, a, b):
        if x[0] or y[0] or pipe.items(x[1]) != pipe.items(y[1]):
            ctx.violation('round: jbofihe -re < %r' % t, {'text': t, '-ie': x, '-re': y})
    ctx.cov['explicit_texts'] = len(E)
    ctx.sample({'explicit': E[0]})
    return ctx.finish('model_checking')
