"""C16 the English of the full outputs, for every dictionary."""
import os
import gen, full
import props.c07

GIS = 'broda brode klama tavla zbasu tavla jbena bangu gasnu cinfo rinka zmadu traji nelci gerku'.split()
LUJVO = ['zbasai', 'jbobau', 'brodybroda', 'selkla', "selklama", 'brodyklama', 'klagau', 'terselkla', 'brobroda', 'velkla', 'klamau', 'klarai', 'brodyselklama', 'selseltavla', 'nalbroda', 'tavyselkla',
         'klamyklamyklama', 'bavykla', "brodykla", 'mleselkla']
FUIVLA = ['spageti', 'djarspageti', 'cidjrspageti', 'kuarka', 'brodrspageti', "klarspageti"]
TENSE = ['pu', 'ba', 'ca', 'vi', 'va', "fa'a", "co'a", "ba'o", "ze'a", "ca'a", "mo'ifa'a", "puzi", "puzivu", "banaizu", "ze'ipu", "re'u", "ru'uvi", "fe'eco'a", "ta'e", "reroi", "paroi", "ve'ati'a", "di'i", "ca'a", 'pamoi',
         'paremoi', 'cimei', "ro", "lau", "abu", "bymoi", "naipu", "zi", "paroi", "pare'u"]
BAI = ['bai', "mu'i", "ri'a", "semu'i", 'tebau', 'bau', 'sebai', "pi'o", "cau", "gau", "sepi'o"]
CM = ("mi do ti le lo la li lu li'u ke'a ce'u go'i me nu'a pa re ci ro su'o by cy pu zi vu nai se te ve xe na'e na ku vau cu kei ku'o be bei be'o poi noi pe goi ne zi'e lu'a lu'u jai fai fa fe fi fo fu "
      "ui .ui ui nai uinai a'o a'onai cai sai ru'e ru'enai sainai cu'i ba'e y da'o da'onai fu'o joi ce ce'o fa'u ga'o bi'i ke'i gi ge ga go gu gu'e je ja jo ju je'i .i zo'u to toi sei se'u soi xi doi coi mai xo "
      "moi mei si'e nu ka du'u ni zo zei bo ke ke'e cei co su'i pi'i vu'u ma'o na'u te'u mo'e ni'e jo'i fu'a pe'o ku'e vei ve'o boi fi'o fe'u tu'a lu'e vu'o ki cu'e ca'a fe'e mo'i ta'e roi re'u nu'i nu'u ").split()
CTX = ['@TERM', '@NOUN', '@SELBRI', '@LINK', '@CONNECT', '@JAI']
TT = [a + b for a in ['TTTF', 'TFFF', 'TFFT', 'TTFF', 'TFTF', 'FTTT', 'FFFT', 'FTTF', 'TTFT', 'TFTT', 'FTFF', 'FFTF', 'FFTT', 'FTFT', 'QQQQ'] for b in ('@AFTER', '@GE', '@GI')]


def value(rng, w, places=True):
    v = rng.choice(['thing', 'go', 'make', 'box', 'city', 'play', 'match', 'see* in time', 'give* / lend* to', 'cause* motion', 'x', 'be', 'free', 'ab*cd', 'star*', 'day', 'wait* with', 'go* through', 'hope*  at', 'sequence',
                    '<b> & c', w, 'bus', 'sky', 'dye', '*', 'tie* knot', 'agree*'])
    return v


def one_place(rng, w, out, d, refs):
    k = rng.random()
    if k < .12:
        out.append('%s%d:@%s%d' % (w, d, rng.choice(refs), rng.randrange(1, 6)))
    elif k < .17:
        out.append('%s%d:%s' % (w, d, value(rng, w)))
    else:
        out.append('%s%d:%s;%s' % (w, d, rng.choice('DSAPRIEDSAPRIX'), value(rng, w)))
    for c in 'nvqta':
        if rng.random() < .12:
            out.append('%s%d%s:%s' % (w, d, c, value(rng, w) + ' ' + c))


def random_dict(rng, dense):
    out = []
    words = GIS + [w for w in LUJVO if rng.random() < .5] + FUIVLA[:3] + ['nu', 'ka', 'ni', "du'u", 'me', 'moi', 'mei', "si'e", 'broda+brode', 'klama+mi', 'gerku+klama', 'broda+klama', 'se+klama', 'klama+zmadu', 'le+broda']
    # (a reference from a word to words later in the list only: references in a circle are the dictionary's fault)
    order = sorted(set(words))
    rng.shuffle(order)
    for i, w in enumerate(order):
        if rng.random() > dense:
            continue
        for d in range(1, 6):
            if rng.random() < dense:
                if w in ('me', 'moi', 'mei', "si'e"):
                    out.append('%s%d:D;%s' % (w, d, rng.choice(['#%d\'s', 'no. %d', 'ones', 'among %d'])))
                else:
                    refs = order[i + 1:i + 9]
                    one_place(rng, w, out, d, refs or ['mi'])
        if rng.random() < .4 or not refs_ok(w):
            out.append('%s:%s' % (w, 'plain ' + w))
    for w in GIS[:8] + ['broda']:
        for pre in ('*%d+' % rng.randrange(0, 6), '*%d' % rng.randrange(0, 6)):
            if rng.random() < .35 * dense:
                key = pre + w if pre.endswith('+') else pre + w + '+'
                for d in range(1, 6):
                    r = rng.random()
                    if r < .3:
                        out.append('%s%d:@%d' % (key, d, rng.randrange(1, 6)))
                    elif r < .7:
                        out.append('%s%d:%s;%s' % (key, d, rng.choice('DSAPRIDSAPRIX'), rng.choice(['do* %1v', 'more %1q', '%2n of it', '%1n* by', 'act', '%3t', '%1q %2n'])))
                    elif r < .8:
                        out.append('%s%d:-' % (key, d))
                    if rng.random() < .2:
                        out.append('%s%d%s:%s' % (key, d, rng.choice('nvqt'), rng.choice(['%1n thing', 'plain', '%2q'])))
    for w in TENSE + BAI + CM + TT + ['jai_v', 'jai_n', 'jai_a', 'jai']:
        if rng.random() < dense:
            out.append('%s:%s' % (w, rng.choice(['=', 'E ', 'the ', '<']) + w))
        for c in CTX:
            if (w in TENSE or w in BAI or rng.random() < .03) and rng.random() < .4 * dense:
                out.append('%s%s:%s in %s' % (w, c, w, c[1:]))
    for w, v in (('lu', '$OPENQUOTE'), ("li'u", '$CLOSEQUOTE'), ('sei', '$LEFTARROW'), ('to', '$OTHER')):
        if rng.random() < .5:
            out.append('%s:%s' % (w, v))
    out += ['.ybu:x', 'a.bu:letter a', 'broda.bu:letter broda', 'foo bar:quoted', 'mi do:quoted too', 'go\'i1:x']
    return out


def refs_ok(w):
    return w not in ('me', 'moi', 'mei', "si'e")


def check(ctx):
    rng = ctx.rng
    G = gen.Grammar()
    n = ctx.pick(900, 9000)

    def texts(k):
        T = []
        for _ in range(k):
            t = full.rich(rng, rng.randrange(3, 26)).split(' ')
            for j, w in enumerate(t):
                if w in ('broda', 'brode', 'klama') and rng.random() < .35:
                    t[j] = rng.choice(GIS + LUJVO * 2 + FUIVLA)
            T.append(' '.join(t))
        return full.usable(T)
    obs = []
    for k, dense in enumerate(ctx.pick([.9, .6, .25], [.95, .9, .8, .6, .4, .2])):
        lines = random_dict(rng, dense)
        db = full.builddb(ctx, 'd%d' % k, lines)
        obs += full.validate(ctx, texts(n), db, full.readdb(db), True, ((('-ie',) if k == 1 else ()),), batch=3000)
    # the shipped dictionary
    dic = full.readdb(ctx.dict)
    T = texts(n // 2)
    words = sorted({w for w in dic if w.isalpha() and len(w) >= 5 and w.islower()})
    for t in texts(n // 2):
        T.append(' '.join(rng.choice(words) if w in GIS + LUJVO else w for w in t.split(' ')))
    obs += full.validate(ctx, full.usable(T), ctx.dict, dic, True, ((),))
    ctx.cov['accepted'] = len(obs)
    ctx.cov['glosses'] = sum(1 for o in obs for e in o['ev'] if e[0] == 'g')
    ctx.cov['dictionary_entries'] = len(dic)
    ctx.sample({'text': ''.join(obs[0]['text']), 'events': obs[0]['ev'][:20]})
    return ctx.finish('model_checking')
