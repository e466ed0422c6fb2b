"""C15 which term fills which place, and the numbered brackets."""
import gen, full
import props.c07


def check(ctx):
    rng = ctx.rng
    G = gen.Grammar()
    empty = full.emptydb(ctx)
    T = [full.rich(rng, rng.randrange(3, 30)) for _ in range(ctx.pick(4000, 60000))]
    T += props.c07.texts(ctx, G, ctx.pick(800, 20000))
    T = full.usable(T)
    obs = full.validate(ctx, T, empty, {'_': '_'}, False, ((),))
    obs += full.validate(ctx, rng.sample(T, len(T) // 4), empty, {'_': '_'}, False, (('-ie',),))
    ctx.cov['accepted'] = len(obs)
    ctx.cov['tags'] = sum(1 for o in obs for e in o['ev'] if e[0] == 't')
    ctx.sample({'text': ''.join(obs[0]['text']), 'events': obs[0]['ev'][:20]})
    return ctx.finish('model_checking')
