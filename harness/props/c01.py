"""C01 lexing: layout, comments, digits, word division, positions."""
import gen, pipe

ALPHA = list("aeiouy'bcdfgjklmnprstvxz") + list("  ..\n\t") + list(",()>19:07AEhqwCH-")


def texts(ctx):
    rng = ctx.rng
    G = gen.Grammar()
    n = ctx.pick(2200, 30000)
    T = []
    for _ in range(n):          # grammatical words, any layout, then a misplaced word so that positions are shown
        w = gen.surface(G.random_text(rng, rng.randrange(1, 12)), rng)
        t = gen.layout(w, rng)
        if rng.random() < 0.7:
            t += rng.choice([' vau vau vau', '\nku ku', ' .cu .cu', '\n\n bo bo', ' ri mai 3 4 mai', ' (x\n)boboi'])
        T.append(t)
    for _ in range(n):          # characters in no order
        k = rng.randrange(1, 30)
        T.append(''.join(rng.choice(ALPHA) for _ in range(k)))
    for _ in range(n // 2):     # word fragments glued together
        k = rng.randrange(1, 6)
        T.append(''.join(rng.choice([gen.any_word(rng).strip('.'), rng.choice(ALPHA), '.', ' ', '\n', '(a)', '12', "la'o",
                                     'zoi', 'doi', 'la', ',']) for _ in range(k)))
    for _ in range(n // 2):     # zoi quotations
        d = rng.choice(['gy', 'Foo', 'x', 'zoi', "la'o", '1', 'broda', 'QQ', 'a,b'])
        body = ' '.join(rng.choice(['John', d, d.upper(), 'q.r', '(le)', 'zoi', '1', 'é', '', '\n', "don't", 'a1b'])
                        for _ in range(rng.randrange(0, 6)))
        T.append('%s %s%s%s%s%s %s' % (rng.choice(['zoi', "la'o", 'le', 'lezoi', "la zoi", 'ba zoi']), d, rng.choice([' ', '.', ' .', '\n']),
                                      body, rng.choice([' ', '.', '\n', '']), d, rng.choice(['', 'mi broda', 'ku ku', '.i zoi', 'vau vau'])))
    # every pair of layout characters between two words
    for a in " .\n\t>(),1:'":
        for b in " .\n\t>(),1:'":
            T.append('mi%s%sbroda ku ku' % (a, b))
            T.append('pa%s%s%salis. ku ku' % (a, b, a))
    return T


def check(ctx):
    T = texts(ctx)
    pipe.validate(ctx, T, ['before', 'msgs', 'rc', 'err'])
    ctx.sample({'text': T[0]})
    return ctx.finish('model_checking', 'recorded runs validated against the lexer of the pipeline specification')
