"""C06 compounds: grouping of tenses, connectives, numbers, negations."""
import itertools
import gen, pipe


def check(ctx):
    rng = ctx.rng
    T = []
    A = ["se", "na", "je", "nai", "joi", "ga'o", "bi'i", ".e", "gi'e", "ga", "gi", ".i", "bo", "ke", "pu", "pa", "roi", "mai", "na'e", "ku"]
    for n in (1, 2, 3):
        T += [' '.join(t) for t in itertools.product(A, repeat=n)]
    if not ctx.thorough:
        T = T[:420] + rng.sample(T[420:], 5000)
    else:
        T += [' '.join(rng.choice(A) for _ in range(4)) for _ in range(60000)]
    # tense words in every order
    TW = "na'e pu zi ze'a pa roi ta'e ko'a za'o nai va vi ve'a vi'a fa'a mo'i fe'e ca'a ki cu'e bai se fi'o re'u ba'o ja joi by bu".split()
    for _ in range(ctx.pick(6000, 80000)):
        T.append(' '.join(rng.choice(TW) for _ in range(rng.randrange(1, 9))))
    for _ in range(ctx.pick(7000, 80000)):
        T.append(gen.conn_soup(rng, rng.randrange(2, 16)))
    pipe.validate(ctx, T, ['after', 'msgs', 'rc'])
    ctx.sample({'text': T[-1]})
    out, st = ctx.tlc('MorphDet', 'CONSTANTS NfaFile="stag_nfa.json"\nDfaFile="stag_dfa.json"\nINIT Init\nNEXT Next\n'
                      'INVARIANTS StartOk MoveOk OutOk\nCHECK_DEADLOCK FALSE\n')
    return ctx.finish('model_checking')
