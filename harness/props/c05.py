"""C05 attachment: zei, ba'e, bu, indicators and their modifiers."""
import itertools
import gen, pipe


def check(ctx):
    rng = ctx.rng
    T = []
    A = ["zei", "ba'e", "bu", "ui", "nai", "cai", "mi", "broda", "da'o", "zo bu", "pei"]
    for n in range(1, ctx.pick(4, 5)):
        T += [' '.join(t) for t in itertools.product(A, repeat=n)]
    four = [' '.join(t) for t in itertools.product(A, repeat=4)]
    if not ctx.thorough:
        T += rng.sample(four, 6000)
    B = A + ["mi", "do", "broda", "djan.", "la djan.", "le broda", "za'e", "fu'e", "fu'o", "y", "ru'e", "sai", "cu'i", "pei nai", "cai nai",
             "ui nai sai", "lo'u mi le'u", "zoi gy. a .gy.", "fa'o", "sei broda", "ui cai nai", "ba'e ui", "ba'e nai", "ba'e bu", "ju'i", "ki'u zei", "si", ".i"]
    for _ in range(ctx.pick(6000, 60000)):
        T.append(' '.join(rng.choice(B) for _ in range(rng.randrange(3, 14))))
    # indicators after every word of a valid text
    G = gen.Grammar()
    for _ in range(ctx.pick(1200, 12000)):
        ws = gen.surface(G.random_text(rng, rng.randrange(2, 10)), rng).split(' ')
        out = []
        for w in ws:
            if rng.random() < 0.25:
                out.append(rng.choice(["ba'e", "za'e", "ba'e ba'e"]))
            out.append(w)
            if rng.random() < 0.35:
                out.append(' '.join(rng.choice(["ui", "ui nai", "ba'e .ei cai", "da'o", "y", "o'e ru'e nai", "fu'o", "ba'e fu'e", ".uo cu'i", "pei", "sai nai", "ki'a"])
                                    for _ in range(rng.randrange(1, 3))))
        T.append(' '.join(out))
    pipe.validate(ctx, T, ['after', 'msgs', 'rc', 'tree'])
    ctx.sample({'text': T[-1]})
    return ctx.finish('model_checking')
