"""C11 every run of the five programs ends by itself, cleanly, with the exit
status of its outcome.  The runs are made with binaries built with memory and
undefined-behaviour checking; Outcome.tla says how each of them must end."""
import json, os, re, shutil, subprocess
import common, gen

GISMU = ['klama', 'broda', 'blanu', 'zdani', 'cukta', 'tavla', 'bajra', 'sutra', 'pelxu', 'xunre', 'gerku', 'mlatu', 'nanmu', 'ninmu', 'prenu', 'lojbo', 'bangu', 'citka']
CM = ['se', 'te', 'mi', 'na', 'nu', 'zo', 'to', 'ke', 'ja', 'me', 'lo', 'ai', "ri'a", 'zma', 'mau', 'bu', "za'o", "fa'i"]
RAF = "sel ter vel xel bla zma mau gau fa'i mu'o zdan klam lojb bajr dja ga'a r n y ' ia io".split()
JB = ['-x', '-H', '-l', '-b', '-g', '-se', '-ie', '-re', '-k', '-t', '-tf', '-bt', '-m', '-w7', '-sev', '-d', '-dd', '-cr']
SAN = '-fsanitize=address,bounds,null,object-size,pointer-overflow,return,unreachable,vla-bound,integer-divide-by-zero,signed-integer-overflow,bool,alignment'
BAD = re.compile(r'AddressSanitizer|runtime error|MemorySanitizer|unexpected error|LeakSanitizer')


MSAN = '-fsanitize=memory -fno-sanitize-memory-param-retval'


def build_san(ctx, name, cc):
    src = ctx.build()
    d = os.path.join(ctx.scratch, name)
    shutil.copytree(src, d)
    bins = ['jbofihe', 'vlatai', 'jvocuhadju', 'smujajgau', 'cmafihe']
    for f in os.listdir(d):
        if (f.endswith('.o') and f != 'uncom.o') or f in bins:
            os.unlink(os.path.join(d, f))
    env = dict(os.environ, LC_ALL='C', PATH='/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin')
    for k in ('MAKEFLAGS', 'MAKELEVEL', 'CFLAGS', 'CC', 'MFLAGS'):
        env.pop(k, None)
    for jobs in ('-j8', '-j1'):      # (rules that make several files are not safe to run in parallel)
        r = subprocess.run(['make', jobs, 'CC=%s -w' % cc, 'OPT=-O1'] + bins, cwd=d, env=env, capture_output=True, timeout=500)
        if not r.returncode:
            break
    if r.returncode or not all(os.path.exists(os.path.join(d, b)) for b in bins):
        raise common.CheckError('sanitizer build failed\n' + (r.stdout + r.stderr)[-2000:].decode('latin-1'))
    common.log('[C11] sanitizer build done at %.0fs' % (__import__('time').time() - ctx.t0))
    return d


class Gen:
    def __init__(self, ctx):
        self.ctx, self.rng, self.G, self.F = ctx, ctx.rng, gen.Grammar(), gen.Grammar('full')
        self.nf = 0

    def word(self):
        rng = self.rng
        k = rng.randrange(7)
        if k == 0:
            return ''.join(rng.choice(RAF) for _ in range(rng.choice([2, 3, 4, 9, 60]))) + rng.choice(['', 'a', 'broda', 'y'])
        if k == 1:
            return ''.join(rng.choice(CM) for _ in range(rng.choice([1, 2, 3, 20, 60])))
        if k == 2:
            return ''.join(rng.choice("abcdefgijklmnoprstuvxyz',.AEIOU") for _ in range(rng.randrange(1, 20)))
        if k == 3:
            return rng.choice(['(', '[', '(x(y)', '(((' * 5, ',', ']', ')', '(' + 'z' * rng.choice([3, 600, 3000]) + ')'])
        if k == 4:
            return gen.any_word(rng)
        return rng.choice(GISMU) + rng.choice(['', '.', 'bu', "y"])

    def text(self):
        """(text, too big for the model)"""
        rng = self.rng
        k = rng.randrange(11)
        if k == 0:
            return gen.soup(rng, rng.randrange(1, 14)), False
        if k == 1:
            return ''.join(chr(rng.choice([rng.randrange(1, 256), rng.randrange(32, 127)])) for _ in range(rng.randrange(60))), False
        if k in (2, 3):
            return gen.layout(gen.surface(self.G.random_text(rng, rng.randrange(1, 15)), rng), rng), False
        if k == 4 and rng.random() < .2:
            return 'zoi gy. ' + rng.choice('&<#% ^"') * rng.choice([10, 14000, 30000]) + ' .gy. broda', True
        if k == 4 and rng.random() < .3:
            return rng.choice(['x', 'ba', 'broda', 'blamau', "a'a", 'sel', 'a', "'", 'y']) * rng.choice([3, 100, 3000, 4200]), True
        if k == 5:
            w = gen.surface(self.G.random_text(rng, rng.randrange(1, 15)), rng).split()
            return ' '.join(gen.mutate(w, rng, rng.randrange(1, 4))), False
        if k == 6:
            return ' '.join([rng.choice(['lo nu', "ke", 'to', 'be', 'lo broda poi', 'ge', 'vei', 'ge gi', 'fu\'e', 'ba\'e', 'na', "se", 'zo'])] * rng.choice([2, 30, 60, 300])) + ' broda', True
        if k == 7:
            return rng.choice([' ', '\n', '']).join(rng.choice(["zoi gy. " + self.word() + " .gy.", "la'o .x. a b .x.", "lo'u " + self.word() + " le'u", 'zo ' + self.word(),
                                                                "to'i", "si", "sa", "su", "zei", "bu", "la djan.", "zoi", "fa'o", 'mi', "ba'e", "lo'u zo"]) for _ in range(rng.randrange(1, 8))), False
        if k == 8:
            return gen.dense(rng), False
        return rng.choice([' ', '\n', '\n\n', '\r\n']).join(self.word() for _ in range(rng.randrange(1, 9))), False

    def file(self, content, d='files'):
        self.nf += 1
        p = os.path.join(self.ctx.scratch, d)
        os.makedirs(p, exist_ok=True)
        p = os.path.join(p, 'f%d' % self.nf)
        with open(p, 'wb') as f:
            f.write(content.encode('latin-1'))
        return p

    def source(self):
        rng = self.rng
        L = []
        for _ in range(rng.randrange(8)):
            key = rng.choice([rng.choice(GISMU) + rng.choice(['', '1', '2n', '9t', '0', '1v', '3q']), '*5klama1', '', '#x', 'x' * rng.choice([200, 254, 255, 256, 300]), self.word(), 'sel+klama1'])
            L.append(key + rng.choice([':', ':', ':', '', ';', '::']) +
                     rng.choice(['go', '@broda', 'D;dog', 'x' * rng.choice([3, 254, 255, 256, 300, 1000, 1100, 5000]), 'a:comment', '', 'R;run', 'P;%1n', '%9n %', '@' + key]))
        return rng.choice(['\n', '\n', '\r\n']).join(L) + rng.choice(['\n', ''])

    def database(self):
        """(content, is a database)"""
        rng = self.rng
        k = rng.randrange(5)
        if k == 0:
            return '', True
        with open(self.ctx.dict, 'rb') as f:
            std = f.read()
        small = b'\0\0\0\2' + b'\5\3\6\1' + b'broda\0' + b'foo\0' + b'klama1\0' + b'g\0'
        if k == 1:
            return small.decode('latin-1'), True
        if k == 2:
            return small[:rng.randrange(1, len(small))].decode('latin-1'), False
        if k == 3:
            return ''.join(chr(rng.randrange(128, 256)) for _ in range(4)) + ''.join(chr(rng.randrange(256)) for _ in range(rng.randrange(100))), False
        return std[:rng.randrange(5, 3000)].decode('latin-1'), False

    def run(self):
        rng = self.rng
        d = rng.choice(['@std', '@std', '/nonexistent', self.userdict])
        prog = rng.choice(['jbofihe'] * 6 + ['cmafihe'] * 3 + ['jvocuhadju', 'jvocuhadju', 'vlatai', 'smujajgau'])
        files, text, big, args = [], '', False, []
        if prog in ('jbofihe', 'cmafihe'):
            text, big = self.text()
            if prog == 'jbofihe':
                args = [a for a in rng.sample(JB, rng.choice([0, 1, 1, 2, 3, 5])) if a != '-cr' or self.cultural]
                if self.cultural:
                    args.append('-cr')
            else:
                args = rng.choice([[], [], ['-l'], ['-b'], ['-b', '-w', '30'], ['-b', '-w', '3000'], ['-b', '-w', '-4'], ['-b', '-l'], ['-b', '-w', '1']])
            k = rng.random()
            if k < .06:
                args.append(rng.choice(['-v', '-h', '--help', '-?', '-w', '-w30', '-w', '-w-5', '-w0', '-wx', '-q', '--', '-', '-tt', '-kk', '-re', '']))
                rng.shuffle(args)
            if k < .15 or rng.random() < .1:
                big2 = rng.random()
                if big2 < .4:
                    args.insert(rng.randrange(len(args) + 1), os.path.join(self.ctx.scratch, 'nofile%d' % rng.randrange(9)))
                elif big2 < .55:
                    args.insert(rng.randrange(len(args) + 1), self.ctx.scratch)
                    files.append({'name': self.ctx.scratch, 'kind': 'dir', 'text': []})
                else:
                    t2, b2 = self.text()
                    f = self.file(t2)
                    files.append({'name': f, 'kind': 'file', 'text': [] if b2 else list(t2)})
                    args.insert(rng.randrange(len(args) + 1), f)
                    big = big or b2
        elif prog == 'jvocuhadju':
            n = rng.choice([0, 1, 2, 2, 3, 3, 4, 4, 6, 7, 12, 48, 49, 50, 51, 60])
            args = [rng.choice(GISMU + CM + GISMU + ['xyz', '', 'brodaa', 'abcdefgh' * 30, 'gerku', 'h', 'zohi', 'KLAMA', "sa'u"]) for _ in range(n)]
            if rng.random() < .5:
                args = [a for a in args if a in GISMU]
            args = rng.sample(['-a', '-l', '-b', '-S', '-A', '-R', '-q'], rng.randrange(4)) + args
            if rng.random() < .1:
                args.insert(rng.randrange(len(args) + 1), rng.choice(['-v', '-x', '-', '--help', '-ab']))
            if len(args) > 14 and '-a' in args:
                args.remove('-a')
        elif prog == 'vlatai':
            args = rng.choice([[], ['-el'], ['-v'], ['-v', '-el'], ['-el', self.word()], [self.word()], ['-zz'], ['-v', self.word(), self.word()], ['-', 'x']])
            text = self.word() + '\n' + self.word() + '\n' + rng.choice(['', '#x\n', 'x' * 300 + '\n', 'y' * 3000]) + self.text()[0]
            big = True
        else:
            args = [self.file(self.source()) for _ in range(rng.randrange(4))]
            if args and rng.random() < .15:
                args.insert(rng.randrange(len(args)), os.path.join(self.ctx.scratch, 'nofile'))
            db = os.path.join(self.ctx.scratch, 'db%d' % self.nf)
            self.nf += 1
            k = rng.random()
            if k < .1:
                args = ['-v'] + args
            elif k < .15 and args:
                # a source file given as the database
                files.append({'name': args[0], 'kind': 'junk' if os.path.exists(args[0]) and os.path.getsize(args[0]) else 'file', 'text': []})
            elif k < .2:
                files.append({'name': self.ctx.scratch, 'kind': 'dir', 'text': []})
                args = [self.ctx.scratch] + args
            else:
                if k < .6:
                    c, ok = self.database()
                    db = self.file(c)
                    files.append({'name': db, 'kind': 'file' if ok else 'junk', 'text': []})
                args = [db] + args
                if rng.random() < .2:
                    args.insert(1, rng.choice(['-v', '', '-x']))
        return {'prog': prog, 'args': args, 'files': files, 'text': [] if big or prog in ('vlatai',) else list(text), 'big': big}, \
               ([prog] + args, text, d)


CFG = 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANT AllowCultural = %s\n'


def check(ctx):
    ctx.build()
    normal = ctx.bdir
    san = build_san(ctx, 'san', 'gcc ' + SAN)
    msan = build_san(ctx, 'msan', 'clang ' + MSAN)
    os.environ['MSAN_OPTIONS'] = 'exitcode=79'
    os.environ['ASAN_OPTIONS'] = 'detect_leaks=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0'
    os.environ['UBSAN_OPTIONS'] = 'halt_on_error=1:exitcode=78'
    g = Gen(ctx)
    # a dictionary of the user's own, with odd definitions
    r = subprocess.run([os.path.join(normal, 'smujajgau'), os.path.join(ctx.scratch, 'user.dat'), g.file(''.join(g.source() for _ in range(30)))],
                       capture_output=True, timeout=60)
    g.userdict = os.path.join(ctx.scratch, 'user.dat') if r.returncode == 0 else '/nonexistent'
    ended = {}
    for cultural in (False, True):
        g.cultural = cultural
        n = ctx.pick(7000, 60000) // (5 if cultural else 1)
        made = [g.run() for _ in range(n)]
        if cultural:
            made = [m for m in made if m[0]['prog'] == 'jbofihe']
        ctx.bdir = san
        res = ctx.run([j for _, j in made], cpu=60)
        ctx.bdir = normal
        # reads of memory never written
        ctx.bdir = msan
        some = [k for k in range(len(made)) if '-d' not in made[k][1][0] and made[k][0]['prog'] != 'smujajgau' and ctx.rng.random() < .5]
        for (k, r2) in zip(some, ctx.run([made[k][1] for k in some], cpu=60)):
            if BAD.search(r2[2]) or r2[0] != res[k][0] and not BAD.search(res[k][2]):
                ctx.violation('memory: %s < %r' % (' '.join(made[k][1][0]), made[k][1][1]), {'run': made[k][1], 'rc': r2[0], 'err': r2[2][-1500:]})
        ctx.bdir = normal
        plain = [k for k in range(len(made)) if made[k][0]['prog'] != 'smujajgau' and ctx.rng.random() < .4]
        for (k, r2) in zip(plain, ctx.run([made[k][1] for k in plain], cpu=20)):
            if r2[0] != res[k][0] and not BAD.search(res[k][2]):
                ctx.violation('plain: %s < %r' % (' '.join(made[k][1][0]), made[k][1][1]), {'run': made[k][1], 'rc': r2[0], 'rc with checking': res[k][0], 'err': r2[2][-300:]})
        runs = []
        for (rec, job), (st, out, err) in zip(made, res):
            rec = dict(rec, rc=st, bad=st > 3 or bool(BAD.search(err)))
            runs.append(rec)
            ended[(rec['prog'], st)] = ended.get((rec['prog'], st), 0) + 1
        for b in range(0, len(runs), 4000):
            part = runs[b:b + 4000]
            out, st = ctx.tlc('Outcome', CFG % ('TRUE' if cultural else 'FALSE'), {'runs.json': json.dumps(part)})
            ctx.cov['traces_validated_against_impl'] += len(part)
            for m in common.mismatches(out):
                k = b + m['i'] - 1
                args = [a.replace(ctx.scratch, '$D') for a in made[k][1][0]]
                ctx.violation('%s < %r' % (' '.join(args), made[k][1][1]),
                              {'args': args, 'stdin': made[k][1][1], 'dictionary': made[k][1][2] if len(made[k][1]) > 2 else '', 'may end with': m['end'], 'exit status': runs[k]['rc'],
                               'stderr': res[k][2][-1500:]})
    ctx.cov['exit_statuses'] = {'%s %d' % k: v for k, v in sorted(ended.items())}
    ctx.assumptions.append('The input is read to its end: resource exhaustion (texts nested more than about 3000 levels deep, runs of more than some thousand letters) is not explored.')
    ctx.sample({'run': made[0][1][0], 'exit': res[0][0]})
    return ctx.finish('model_checking')
