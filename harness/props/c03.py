"""C03 the word list: every possible cmavo form, its selma'o, or its rejection."""
import itertools
import gen, pipe

CONS = "bcdfgjklmnprstvxz"
VOW = "aeiou"


def check(ctx):
    forms = set()
    for c in [''] + list(CONS):
        for v in VOW:
            forms.add(c + v)
            for u in VOW:
                forms.add(c + v + u)
                forms.add(c + v + "'" + u)
                if ctx.thorough:
                    for x in VOW:
                        forms.add(c + v + "'" + u + "'" + x)
                        forms.add(c + v + u + "'" + x)
        forms.add(c + 'y')
        for v in VOW + 'y':
            forms.add(c + "y'" + v)
            forms.add(c + v + "'y")
    forms |= set(gen.WORDS)
    skip = {'zoi', "la'o", 'zo', "lo'u"}
    T = []
    for w in sorted(forms):
        T.append('.%s.' % w)
        if w not in skip and w in gen.CMAVO:
            # shown with its class in the error report, whatever it can combine with
            T.append('%s. ku ku vau ku bo bo' % w)
    pipe.validate(ctx, T, ['before', 'msgs', 'after', 'rc', 'tree', 'err'])
    ctx.cov['exhaustive'] = 'all %d strings of cmavo shape (one or two syllables) and the whole word list' % len(forms)
    ctx.sample({'text': T[0]})
    return ctx.finish('model_checking')
