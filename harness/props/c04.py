"""C04 quotation and erasure: zo, lo'u...le'u, zoi, si, sa, su."""
import itertools
import gen, pipe


def check(ctx):
    rng = ctx.rng
    T = []
    # every text up to a length over the words that matter
    A = ["zo", "lo'u", "le'u", "si", "sa", "su", "mi", "lu", "zoi gy. a .gy.", "zei", "broda"]
    L = ctx.pick(4, 5)
    for n in range(1, L + 1):
        for t in itertools.product(A, repeat=n):
            if n >= 4 and not any(w in ("zo", "lo'u", "si", "sa", "su") for w in t):
                continue
            T.append(' '.join(t))
    if not ctx.thorough:
        T = [t for t in T if len(t.split()) < 4] + rng.sample([t for t in T if len(t.split()) >= 4], 9000)
    # longer ones, richer vocabulary
    B = A + ["mi", "do", "broda", "klama", "djan.", "le", "la", "ba'e", "bu", "ui", "ni'o", "tu'e", "to", "toi", "li'u", "fa'o", "si si",
             "si si si", "si si si si", "zo zo", "zo si", "lo'u si le'u", "lo'u zo le'u le'u", "la'o xy. b c .xy.", "y", "sa le", "sa mi", "na", "su su"]
    for _ in range(ctx.pick(6000, 60000)):
        T.append(' '.join(rng.choice(B) for _ in range(rng.randrange(4, 16))))
    pipe.validate(ctx, T, ['before', 'after', 'msgs', 'rc'])
    ctx.sample({'text': T[100]})
    ctx.sample({'text': T[-1]})
    return ctx.finish('model_checking', 'every text of up to 3 (thorough: 5) units over 11 quotation/erasure units, plus random ones')
