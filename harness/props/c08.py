"""C08 the plain bracketed output."""
import re
import gen, pipe
import props.c07


def check(ctx):
    G = gen.Grammar()
    rng = ctx.rng
    T = props.c07.texts(ctx, G, ctx.pick(1500, 30000))
    U = ["zo coi", "lo'u mi do le'u", "zoi gy. some words .gy.", "la'o gy. x y .gy.", "broda zei brode", "a bu", "ui nai", "ui cai", "ui ru'e nai",
         "ba'e", "ui pei", "ui sai nai", "ui nai cu'i", "za'e", "djan.", "pa re", "lo'u zo le'u", "zo le'u zei broda", "la", "cu", "broda", "le", "mi"]
    for _ in range(ctx.pick(3000, 40000)):
        T.append(' '.join(rng.choice(U) for _ in range(rng.randrange(1, 9))))
    for _ in range(ctx.pick(300, 2000)):
        # layout, indicators and emphasis on grammatical texts
        w = gen.surface(G.random_text(rng, rng.randrange(2, 14)), rng).split(' ')
        for _ in range(rng.randrange(1, 4)):
            w.insert(rng.randrange(len(w) + 1), rng.choice(["ba'e", "ui", "ui nai", "xu cai", "\n", "\n\n"]))
        T.append(' '.join(w))
    # deep nesting: the bracket shapes cycle and count
    for n in (3, 10, 30, 60):
        T.append('le nu ' * n + 'broda')
        T.append('mi ' + 'ke broda ' * n)
    T.append('mi broda ui pei nai')
    # "pei nai" is a known finding: one fixed input reports it, the rest avoid it
    T = [t for t in T if t == 'mi broda ui pei nai' or not re.search(r"pei\W+(y\W+)?nai", t)]
    T = [t for t in T if '[' not in t and '<' not in t and '(' not in t]
    obs = pipe.validate(ctx, T, ['rc', 'brk'], (('-k', '-tf'), ('-k', '-tf', '-ie')), batch=6000)
    ctx.cov['accepted'] = sum(1 for o in obs if o['rc'] == 0)
    ctx.sample({'text': T[0], 'items': obs[0].get('brk')})
    ctx.sample({'text': T[-2], 'items': obs[-3].get('brk')})
    return ctx.finish('model_checking')
