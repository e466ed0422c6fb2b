"""C07 grammar: which texts are accepted and what tree they get."""
import gen, pipe


def texts(ctx, G, n):
    rng = ctx.rng
    T = []
    # every production of the grammar, in several contexts
    for _ in range(ctx.pick(1, 12)):
        for r in G.rules:
            t = G.text_with_rule(r, rng)
            if t:
                T.append(gen.surface(t, rng))
        T += [gen.surface(t, rng) for t in G.covering(rng)]
    for _ in range(n):
        T.append(gen.surface(G.random_text(rng, rng.randrange(1, 30)), rng))
    for _ in range(n // 2):
        T.append(' '.join(gen.mutate(gen.surface(G.random_text(rng, rng.randrange(1, 16)), rng).split(), rng, rng.randrange(1, 4))))
    return T


def check(ctx):
    G = gen.Grammar()
    T = texts(ctx, G, ctx.pick(3000, 40000))
    obs = pipe.validate(ctx, T, ['rc', 'tree'], (('-k', '-tf'),))
    ctx.cov['accepted'] = sum(1 for o in obs if o['rc'] == 0)
    ctx.cov['productions_targeted'] = len(G.rules)
    ctx.sample({'text': T[0], 'tree_lines': len(obs[0]['tree'])})
    ctx.sample({'text': T[-1], 'rc': obs[-1]['rc']})
    return ctx.finish('model_checking')
