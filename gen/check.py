#!/usr/bin/env python3
"""Model checker of the metadata generator (tools/java): C31 (tables say what the plan says) and
C32 (what is refused, the command line, the emitted file).

Bounded spaces of numbering plans are enumerated; the reference model (ref.py) says what the
generated tables must hold or that the plan must be refused; every case is executed on the real
generator, compiled from /repo's working tree.  check.py ID TIER | check.py --replay FILE"""
import base64, itertools, json, multiprocessing, os, select, shutil, subprocess, sys, tempfile, time
import ref

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
RES = REPO + '/resources'
WORKERS = 8
BATCH = 48
LIMIT = float(os.environ.get('GEN_LIMIT', '0'))


# ---- building and driving the generator ------------------------------------------------------

def build(work):
    cls = work + '/cls'
    os.makedirs(cls)
    os.makedirs(work + '/src')
    stub = work + '/src/Phonemetadata.java'
    subprocess.run([sys.executable, HERE + '/stub.py', RES + '/phonemetadata.proto', stub], check=True)
    sources = []
    for part in ('common', 'rust-build'):
        for d, _, files in os.walk('%s/tools/java/%s/src' % (REPO, part)):
            sources += [os.path.join(d, f) for f in files if f.endswith('.java')]
    p = subprocess.run(['javac', '-nowarn', '-encoding', 'UTF-8', '-d', cls, stub, HERE + '/Drive.java'] + sorted(sources),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        print(p.stdout[-3000:])
        print('the generator does not compile')
        sys.exit(2)
    return cls


class Java:
    def __init__(self, cls, dir_):
        self.dir = dir_
        os.makedirs(dir_, exist_ok=True)
        self.cls = cls
        self.start()

    def start(self):
        self.p = subprocess.Popen(['java', '-XX:TieredStopAtLevel=1', '-XX:+UseSerialGC', '-Xmx600m', '-cp', self.cls,
                                   'com.google.i18n.phonenumbers.Drive', self.dir],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE)

    def ask(self, fields):
        self.p.stdin.write(('\t'.join(fields) + '\n').encode())
        self.p.stdin.flush()
        if not select.select([self.p.stdout], [], [], 60)[0]:
            self.p.kill()
        line = self.p.stdout.readline().decode()
        if not line:
            self.p.wait()
            self.start()
            return ['no answer (the generator hung or died)', '']
        return line.rstrip('\n').split('\t')

    def close(self):
        self.p.stdin.close()
        self.p.wait()


NAMES = {'normal': 'plan.xml', 'short': 'ShortNumberMetadata.xml', 'alternate': 'PhoneNumberAlternateFormats.xml'}
CMD = 'BuildMetadataRustFromXml'
CLI = [CMD, '{in}', '{out}', 'metadata', '--const-name=X']
LITE = [CMD, '{in}', '{out}', 'lite_metadata', '--const-name=X']


def run(java, schema, case):
    """case: {plan: xml | path on disk, name, how: [args] | 'api:lite:special' | 'map'}; gives the decoded answer."""
    how = case['how']
    b64 = base64.b64encode(case['plan'].encode()).decode() if case['plan'] is not None else ''
    if how == 'map':
        a = java.ask(['map', case['name'], b64, 'false', 'false'])
        return a[1] if a[0] == 'ok' else a[0]
    if isinstance(how, str):
        a = java.ask(['api', case['name'], b64] + how.split(':')[1:])
        if a[0] != 'ok':
            return 'refused' if a == ['failed', 'untouched'] else ' '.join(a)
        data = base64.b64decode(a[1])
    else:
        a = java.ask(['cli', case['name'], b64] + how)
        if a[0] == 'failed':
            return 'refused' if a[1] == 'untouched' else 'refused, but the output file is not as it was'
        if a[0] != 'ok':
            return ' '.join(a)[:200]
        if a[1] in ('untouched', 'gone'):
            return 'success reported, but the output file is ' + a[1]
        try:
            text = base64.b64decode(a[1]).decode()
        except UnicodeDecodeError:
            return 'the output is not UTF-8'
        data = ref.rust_array(text, case.get('const', 'X'))
        if isinstance(data, str):
            return data
    try:
        return ref.decode(data, schema, 'PhoneMetadataCollection').get('metadata', [])
    except Exception as e:
        return 'the tables do not decode: %r' % e


def want(territories, kind, how):
    lite = special = False
    if isinstance(how, str):
        lite, special = [x == 'true' for x in how.split(':')[1:]]
    else:
        lite = any(x.startswith('lite_') for x in how)
    try:
        return [ref.filtered(ref.expect(t, kind), lite, special) for t in territories]
    except ref.Bad:
        return 'refused'


# ---- spaces ----------------------------------------------------------------------------------

def terr(attrs=None, formats=(), descs=()):
    return {'attrs': {'id': 'US', 'countryCode': '1', **(attrs or {})}, 'formats': list(formats), 'descs': list(descs)}


def fmt(pattern='(\\d{3})(\\d{4})', leading=(), format_=('$1-$2',), intl=(), **attrs):
    return {'attrs': {'pattern': pattern, **attrs}, 'leading': list(leading), 'format': list(format_), 'intl': list(intl)}


def dsc(tag, lengths=(), pattern=None, example=None):
    return {'tag': tag, 'lengths': list(lengths), 'pattern': pattern, 'example': example}


def product(options):
    """All combinations of {name: [value | None = absent]}."""
    for values in itertools.product(*options.values()):
        yield {k: v for k, v in zip(options, values) if v is not None}


def territory_attributes(deep):
    for a in product({
            'id': ['US', '001', ''], 'countryCode': [None, '1', '247'] + (['999'] if deep else []), 'leadingDigits': [None, '[1-9]', '2(?:3|4)'],
            'internationalPrefix': [None, '00', '0(?:0|1[1-5])'], 'preferredInternationalPrefix': [None, '8~10', '0011'],
            'nationalPrefix': [None, '', '0', '06'], 'nationalPrefixForParsing': [None, '0', ' 0 ( 1 | 2 ) ?', '1(2', '(?:|)'],
            'nationalPrefixTransformRule': [None, '$1', '9$1$2'], 'preferredExtnPrefix': [None, ' ext. '],
            'mainCountryForCode': [None, 'true'], 'mobileNumberPortableRegion': [None, 'true']}):
        if not deep and ('1(2' == a.get('nationalPrefixForParsing') or '(?:|)' == a.get('nationalPrefixForParsing')) and len(a) > 4:
            continue
        t = terr({}, [], [])
        t['attrs'] = a
        yield t


RULES = [None, '$NP$FG', '($NP$FG)', '$FG', '$NP-$FG', '9$NP $FG', '']
CARRIER = [None, '$NP$CC $FG', '$CC ($FG)', '']


def one_format(deep):
    for a in product({'nationalPrefix': [None, '0', '06', '8'], 'nationalPrefixFormattingRule': RULES,
                      'nationalPrefixOptionalWhenFormatting': [None, 'true'], 'carrierCodeFormattingRule': CARRIER}):
        for f in product({'nationalPrefixFormattingRule': [None, '$NP $FG', '($FG)'], 'nationalPrefixOptionalWhenFormatting': [None, 'true', 'false'],
                          'carrierCodeFormattingRule': [None, '$NP $CC-$FG']}):
            for intl in ([], ['NA'], ['$1 $2']):
                for leading in ([], ['1'], ['1', '1[2-4]', '\n  1[2-4]|\n  5(?:6|\n7)\n']):
                    yield terr(a, [fmt(intl=intl, leading=leading, **f)])


def many_formats(deep):
    few = [fmt(intl=i, leading=l, **f) for i in ([], ['NA'], ['$2 $1']) for l in ([], ['7'])
           for f in product({'nationalPrefixFormattingRule': [None, '$NP $FG'], 'nationalPrefixOptionalWhenFormatting': [None, 'true'],
                             'carrierCodeFormattingRule': [None, '$CC $FG']})]
    tops = list(product({'nationalPrefix': [None, '0'], 'nationalPrefixFormattingRule': [None, '($NP$FG)'],
                         'nationalPrefixOptionalWhenFormatting': [None, 'true'], 'carrierCodeFormattingRule': [None, '$NP$CC$FG']}))
    for a in tops:
        for two in itertools.product(few, repeat=2):
            yield terr(a, two)
    least = [fmt(p, intl=i, **f) for p in ('(\\d{3})', '(\\d)(\\d{2})') for i in ([], ['NA'], ['$1'])
             for f in product({'nationalPrefixOptionalWhenFormatting': [None, 'true']})]
    for a in tops[:6] if deep else tops[:2]:
        for three in itertools.product(least, repeat=3):
            yield terr(a, three)
    if deep:
        for four in itertools.product(least[::2], repeat=4):
            yield terr({'nationalPrefix': '0', 'nationalPrefixFormattingRule': '$NP$FG'}, four)


LENGTHS = [None, [], [('6', None)], [('6,7', None)], [('[5-7]', None)], [('7', '5')], [('6', '7')], [('5', None), ('7,8', None)], [('10,9', '[4-6]')]]


def length_sets(deep):
    tags = ['fixedLine', 'mobile', 'noInternationalDialling', 'uan'] + (['voip'] if deep else [])
    for choice in itertools.product(LENGTHS, repeat=len(tags)):
        descs = [dsc(t, l, '\\d{6}', None) for t, l in zip(tags, choice) if l is not None]
        yield terr({}, [], [dsc('generalDesc', [], '\\d+')] + descs)
    for choice in itertools.product(LENGTHS, repeat=3):
        for general in (LENGTHS[1], LENGTHS[2]):
            yield terr({}, [], [dsc('generalDesc', general, '\\d+')] + [dsc(t, l) for t, l in zip(['fixedLine', 'pager', 'tollFree'], choice) if l is not None])


def short_lengths(deep):
    tags = ['shortCode', 'emergency', 'tollFree', 'smsServices']
    for choice in itertools.product(LENGTHS, repeat=len(tags) if deep else 3):
        yield terr({}, [], [dsc('generalDesc', [], '\\d+')] + [dsc(t, l, '1\\d\\d') for t, l in zip(tags, choice) if l is not None])


ALL_TAGS = sorted({t for t, _ in ref.NORMAL + ref.SHORT})
KINDS = [dsc_ for dsc_ in itertools.product(([], [('4', None)], [('4,5', '3')]), (None, '1\\d{3}', '\n  1(?:\n   2|\n   3\n  )\\d\n'), (None, '1234'))]


def types(deep):
    """Every type alone and every pair of types, with every kind of description, over a base that allows the lengths."""
    base = [dsc('generalDesc', [], '[1-9]\\d+', None)]
    gen2 = [dsc('generalDesc', [], '\n [1-9]\\d+\n', '12345')]
    for tag in ALL_TAGS:
        for l, p, e in KINDS:
            for g in (base, gen2, []):
                others = [dsc(t, [('[2-6]', None)], '\\d+', '77') for t in ('fixedLine', 'shortCode') if t != tag]
                yield terr({}, [], g + others + [dsc(tag, l, p, e)])
                yield terr({}, [], g + [dsc(tag, l, p, e)] + others)
                yield terr({}, [], g + [dsc(tag, l, p, e)])
    for one, two in itertools.permutations(ALL_TAGS, 2):
        for (l, p, e), (m, q, f) in itertools.product(KINDS[::4] if not deep else KINDS, KINDS[1::5] if not deep else KINDS[::3]):
            others = [dsc(t, [('[2-6]', None)], '\\d+', '77') for t in ('fixedLine', 'shortCode') if t not in (one, two)]
            yield terr({}, [], base + others + [dsc(one, l, p, e), dsc(two, m, q, f)])
    for p, q in itertools.product([None, '1\\d', '1 \\d', '\n1\\d', '2\\d'], repeat=2):
        yield terr({}, [], base + [dsc('fixedLine', [('4', None)], p), dsc('mobile', [('4', None)], q)])


def twice(deep):
    for tag in ALL_TAGS + ['generalDesc']:
        yield terr({}, [], [dsc('generalDesc', [], '\\d')] + [dsc(tag, [], '\\d'), dsc(tag, [], '\\d')])


def length_words(deep):
    for n in range(0, 7 if deep else 6):
        for w in itertools.product('34,[]-' if n > 5 else '347,[]- ' if n > 4 else '0347,[]- d', repeat=n):
            w = ''.join(w)
            if w.startswith('-') or ',-' in w:
                continue  # a negative length: the documentation does not say
            yield w
    for a in range(0, 22):
        for b in range(0, 22):
            yield '[%d-%d]' % (a, b)
            yield '%d,%d' % (a, b)
            for c in range(0, 22, 1 if deep else 3):
                yield '%d,[%d-%d]' % (c, a, b)
                yield '[%d-%d],%d' % (a, b, c)
                for d in (3, 9):
                    yield '[%d-%d],[%d-%d]' % (a, b, c, c + d)


def national_words(deep):
    for w in length_words(deep):
        yield terr({}, [], [dsc('generalDesc'), dsc('fixedLine', [(w, None)])])


def local_words(deep):
    for n in range(0, 5 if deep else 4):
        for w in itertools.product('0347,[]- d', repeat=n):
            w = ''.join(w)
            if not (w.startswith('-') or ',-' in w):
                yield terr({}, [], [dsc('generalDesc'), dsc('voip', [('10,4', w)])])


def spelled(lengths):
    """A set of lengths ascending, descending and, where it is one, as a range."""
    yield ','.join(map(str, lengths))
    if len(lengths) > 1:
        yield ','.join(map(str, reversed(lengths)))
    if len(lengths) > 2 and lengths[-1] - lengths[0] == len(lengths) - 1:
        yield '[%d-%d]' % (lengths[0], lengths[-1])


def national_and_local(deep):
    """Every set of lengths with every set of local-only ones: in one element, in two, in two types, and in a type that does not count."""
    words = [w for n in range(1, 5) for c in itertools.combinations([5, 6, 7, 10], n) for w in spelled(c)] + ['[5-8]', '[4-6]']
    for n, l in itertools.product(words, repeat=2):
        for tag in ('fixedLine', 'noInternationalDialling', 'generalDesc'):
            yield terr({}, [], [dsc('generalDesc')] * (tag != 'generalDesc') + [dsc(tag, [(n, l)]), dsc('uan', [('8', None)])])
            yield terr({}, [], [dsc('generalDesc')] * (tag != 'generalDesc') + [dsc(tag, [(n, '9'), ('11', l)]), dsc('uan', [('[5-8]', '4')])])
        for one, two in [('fixedLine', 'mobile'), ('mobile', 'fixedLine'), ('voip', 'noInternationalDialling')]:
            yield terr({}, [], [dsc('generalDesc'), dsc(one, [(n, None)]), dsc(two, [('11', l)])])
            yield terr({}, [], [dsc('generalDesc'), dsc(one, [('8', l)]), dsc(two, [(n, None)])])


def short_national_and_local(deep):
    words = [w for n in range(1, 4) for c in itertools.combinations([3, 4, 5], n) for w in spelled(c)]
    for n, m in itertools.product(words, repeat=2):
        for tag in ('shortCode', 'emergency', 'tollFree'):
            for l in [None] + words:
                yield terr({}, [], [dsc('generalDesc'), dsc('shortCode', [(n, l if tag == 'shortCode' else None)])]
                           + ([dsc(tag, [(m, l)])] if tag != 'shortCode' else [dsc('emergency', [(m, None)])]))


PATTERNS = ['', '1', '[1-4]', '(?:1|2)', '\\d{3}', '(1|2)3', '1|2', '(?:1|2)?', ' 1 ', '1|'] + sorted(ref.BROKEN)


def patterns(deep):
    """Every pattern of the alphabet in every place that takes one."""
    for p in PATTERNS:
        for name in ('leadingDigits', 'internationalPrefix', 'nationalPrefixForParsing'):
            yield terr({name: p})
            yield terr({name: p, 'nationalPrefix': '0'})
        yield terr({}, [fmt(p)])
        yield terr({}, [fmt(), fmt(p)])
        yield terr({}, [fmt(p, intl=['$1'])])
        if p:
            yield terr({}, [fmt(leading=[p])])
            yield terr({}, [fmt(leading=['1', p])])
            yield terr({}, [fmt(leading=[p, '1'], intl=['$1'])])
            for tag in ALL_TAGS + ['generalDesc']:
                yield terr({}, [], [dsc(tag, [], p)])
    for n in range(0, 4):
        for i in range(0, 4):
            yield terr({}, [fmt(format_=['$1'] * n, intl=['$2'] * i)])
            yield terr({}, [fmt(), fmt(format_=['$1'] * n, intl=['$2'] * i)])
            yield terr({'id': ''}, [fmt(format_=['$1'] * n, intl=['$2'] * i), fmt()])
    for cc in ('', ' ', 'x', '1x', '1.0', '99999999999', '0', '001', '2147483647', '2147483648'):
        t = terr({'countryCode': cc})
        yield t


def neighbours(deep):
    """A refused plan stays refused with good territories before and after it."""
    good = [terr(), terr({'id': 'CA'}, [fmt()], [dsc('generalDesc'), dsc('mobile', [('7', None)], '\\d{7}')])]
    bad = [terr({'countryCode': 'x'}), terr({'leadingDigits': '('}), terr({}, [fmt(format_=[])]),
           terr({}, [], [dsc('fixedLine', [('7,7', None)])]), terr({}, [], [dsc('voip'), dsc('voip')])]
    for b in bad:
        for before in range(0, 3):
            for after in range(0, 3):
                yield good[:before] + [b] + good[:after]
    for n in range(0, 4):
        for ts in itertools.product(good, repeat=n):
            yield list(ts)


def sizes(deep):
    """Files of every size modulo the line length, and every byte value."""
    for n in range(0, 400):
        yield terr({'id': 'U' * n})
    for n in range(0, 3000 if deep else 1200):
        yield terr({'id': ''.join(chr(0x80 + (n * 7 + k) % 0x780) for k in range(n % 40))})
    for n in range(0, 70000 if deep else 20000):
        yield terr({'countryCode': str(n)})
    for c in 'aß€\U0001F4DE"\\\'/*\u2028\u200b\ufeff':
        yield terr({'preferredExtnPrefix': c, 'preferredInternationalPrefix': c * 3})


CLI_WORDS = ['{in}', '{out}', 'metadata', 'lite_metadata', 'test_metadata', 'alternate_format', 'lite_alternate_format', 'short_numbers',
             'test_short_numbers', 'metadata_lite', 'Metadata', 'lite_', 'lite_test_metadata', 'full_metadata', '', 'x']
CONSTS = ['--const-name=X', '--const-name A_b', '--const-name=METADATA', '--const-name=_', '--const-name=', '-const-name=X', '--const-name:X', '--const-nameX', 'y']


def options(args):
    """The constant's name and the variant, or None: usage. args[1] and args[2] are the files."""
    if not args or args[0] != CMD:
        return None
    a, const = list(args), 'METADATA'
    if len(a) == 5:
        import re
        for x in a[1:]:
            m = re.fullmatch('--const-name[ =]([A-Za-z_]+)', x)
            if m:
                const = m[1]
                a.remove(x)
                break
    if len(a) != 4 or a[1:3] != ['{in}', '{out}']:
        return None
    variant, _, base = a[3].rpartition('metadata' if a[3].endswith('metadata') else 'alternate_format' if a[3].endswith('alternate_format') else 'short_numbers') \
        if a[3].endswith(('metadata', 'alternate_format', 'short_numbers')) else ('?', '', '')
    return (const, variant) if variant in ('', 'lite_', 'test_') else None


def cli(deep):
    for n in range(0, 4):
        for w in itertools.product([CMD, CMD.lower(), 'metadata', '{in}', '{out}'], repeat=n):
            yield list(w)
    for name in [CMD, CMD + ' ', 'EntryPoint', '']:
        for base in CLI_WORDS:
            args = [name, '{in}', '{out}', base]
            yield args
            for c in CONSTS:
                for at in range(1, 5):
                    yield args[:at] + [c] + args[at:]
                    if at < 4:
                        yield args[:at] + [c] + args[at:-1]
                for d in CONSTS:
                    yield args + [c, d]
    for perm in itertools.permutations(['{in}', '{out}', 'metadata', '--const-name=X']):
        if perm.index('{in}') < perm.index('{out}') or perm.index('metadata') < perm.index('--const-name=X'):
            a = [CMD] + list(perm)
            # only orders whose third word is not taken for the kind, or that are right
            yield a


def maps(deep):
    codes = ['1', '7', '44']
    for n in range(0, 6 if deep else 5):
        for w in itertools.product(itertools.product(codes, (False, True)), repeat=n):
            if any(sum(1 for c, m in w if m and c == x) > 1 for x in codes):
                continue
            yield [terr({'id': chr(65 + i) * 2, 'countryCode': c, **({'mainCountryForCode': 'true'} if m else {})}) for i, (c, m) in enumerate(w)]


def want_map(ts):
    by = {}
    for t in ts:
        a = t['attrs']
        l = by.setdefault(int(a['countryCode']), [])
        l.insert(0, a['id']) if 'mainCountryForCode' in a else l.append(a['id'])
    return ''.join(t['attrs']['id'] + ' ' for t in ts) + ''.join('|%d:%s' % (c, ''.join(x + ' ' for x in by[c])) for c in sorted(by))


VARIANTS = [CLI, LITE, 'api:false:true']

# name -> (property, generator, kinds of plan, how)
SPACES = {
    'attributes': ('C31', territory_attributes, ['normal'], [CLI]),
    'one format': ('C31', one_format, ['normal'], [CLI]),
    'one format, alternate': ('C31', one_format, ['alternate'], [CLI]),
    'several formats': ('C31', many_formats, ['normal'], [CLI]),
    'lengths of types': ('C31', length_sets, ['normal'], [CLI]),
    'lengths of short numbers': ('C31', short_lengths, ['short'], [CLI]),
    'types': ('C31', types, ['normal', 'short', 'alternate'], VARIANTS),
    'filtered attributes': ('C31', lambda deep: itertools.islice(territory_attributes(deep), 0, None, 1 if deep else 17), ['normal', 'short'], VARIANTS[1:]),
    'types twice': ('C32', twice, ['normal', 'short', 'alternate'], [CLI]),
    'length words': ('C32', national_words, ['normal'], [CLI]),
    'local length words': ('C32', local_words, ['normal'], [CLI]),
    'national and local lengths': ('C32', national_and_local, ['normal'], [CLI]),
    'lengths of short codes': ('C32', short_national_and_local, ['short'], [CLI]),
    'patterns and counts': ('C32', patterns, ['normal', 'short', 'alternate'], VARIANTS + ['api:true:true']),
    'sizes and bytes': ('C32', sizes, ['normal'], [CLI]),
}


# ---- exploring -------------------------------------------------------------------------------

class Worker:
    def __init__(self, cls, work, number):
        self.java = Java(cls, '%s/w%d' % (work, number))
        self.schema = ref.proto(RES + '/phonemetadata.proto')
        self.bad, self.n, self.calls, self.refused, self.told, self.samples = [], 0, 0, 0, 0, []

    def one(self, case, expected):
        """One case as it is; a difference is a violation."""
        self.calls += 1
        got = run(self.java, self.schema, case)
        if got != expected and len(self.bad) < 20:
            self.bad.append({'case': case, 'expected': expected, 'got': got})
        return got == expected

    def batch(self, group, kind, how):
        ts = [t for t, _ in group]
        case = {'plan': ref.xml(ts), 'name': NAMES[kind], 'how': how}
        self.calls += 1
        expected = [e for _, e in group]
        if run(self.java, self.schema, case) != expected:
            before = len(self.bad)
            for t, e in group:
                self.one({**case, 'plan': ref.xml([t])}, [e])
            if len(self.bad) == before:
                self.one(case, expected)

    def space(self, gen, kind, how, number, of):
        deep = TIER == 'thorough'
        group = []
        for i, t in enumerate(gen(deep)):
            if i % of != number:
                continue
            self.n += 1
            e = want([t], kind, how)
            if i % 4001 == number:
                self.samples.append({'territory': t, 'kind': kind, 'outcome': 'refused' if e == 'refused' else 'tables'})
            if e == 'refused':
                self.refused += 1
                self.one({'plan': ref.xml([t]), 'name': NAMES[kind], 'how': how}, 'refused')
            else:
                self.told += 1
                group.append((t, e[0]))
                if len(group) == BATCH:
                    self.batch(group, kind, how)
                    group = []
            if len(self.bad) >= 20:
                break
        if group:
            self.batch(group, kind, how)


def work(args):
    number, cls, dir_, prop = args
    w = Worker(cls, dir_, number)
    per = {}
    for name, (p, gen, kinds, hows) in SPACES.items():
        if p != prop:
            continue
        before = w.n
        for kind in kinds:
            for how in hows:
                w.space(gen, kind, how, number, WORKERS)
        per[name] = w.n - before
    deep = TIER == 'thorough'
    if prop == 'C31':
        for i, ts in enumerate(maps(deep)):
            if i % WORKERS == number:
                w.n += 1
                w.told += 1
                w.one({'plan': ref.xml(ts), 'name': NAMES['normal'], 'how': 'map'}, want_map(ts))
        for i, (file, kind, how) in enumerate(itertools.product(
                [('PhoneNumberMetadata.xml', 'normal'), ('PhoneNumberMetadataForTesting.xml', 'normal'), ('ShortNumberMetadata.xml', 'short'),
                 ('PhoneNumberAlternateFormats.xml', 'alternate')], [None], VARIANTS)):
            if i % WORKERS == number:
                file, kind = file
                ts = ref.read('%s/%s' % (RES, file))
                w.n += len(ts)
                w.told += len(ts)
                # under the name it has: it says what kind of plan it is
                w.one({'plan': open('%s/%s' % (RES, file), encoding='utf-8').read(), 'name': file, 'how': how}, want(ts, kind, how))
        if number == 0:
            for file, const, rs in [('PhoneNumberMetadata.xml', 'METADATA', 'metadata'), ('PhoneNumberMetadataForTesting.xml', 'TEST_METADATA', 'test_metadata')]:
                committed = ref.rust_array(open('%s/src/generated/metadata/%s.rs' % (REPO, rs)).read(), const)
                case = {'plan': open('%s/%s' % (RES, file), encoding='utf-8').read(), 'name': file, 'how': CLI}
                got = run(w.java, w.schema, case)
                try:
                    committed = ref.decode(committed, w.schema, 'PhoneMetadataCollection')['metadata']
                except Exception as e:
                    committed = 'the committed %s.rs does not decode: %r %r' % (rs, committed if isinstance(committed, str) else '', e)
                w.n += 1
                if committed != got:
                    w.bad.append({'case': case, 'expected': committed, 'got': got})
    else:
        for i, ts in enumerate(neighbours(deep)):
            if i % WORKERS == number:
                w.n += 1
                for how in VARIANTS:
                    w.one({'plan': ref.xml(ts), 'name': NAMES['normal'], 'how': how}, want(ts, 'normal', how))
        ts = [terr({'nationalPrefix': '0'}, [fmt()], [dsc('generalDesc', [], '\\d+'), dsc('mobile', [('7', None)], '\\d{7}', '1234567')])]
        for i, args_ in enumerate(cli(deep)):
            if i % WORKERS == number:
                w.n += 1
                o = options(args_)
                case = {'plan': ref.xml(ts), 'name': NAMES['normal'], 'how': args_, 'const': o[0] if o else ''}
                w.one(case, want(ts, 'normal', LITE if o[1] == 'lite_' else CLI) if o else 'refused')
        if number == 0:
            programs(w, cls, dir_)
    w.java.close()
    return {'bad': w.bad, 'n': w.n, 'calls': w.calls, 'refused': w.refused, 'told': w.told, 'samples': w.samples[:3], 'per': per}


def programs(w, cls, dir_):
    """The program as it is run: its exit status, and the file it wrote as rustc reads it."""
    plan, bad, out = dir_ + '/p.xml', dir_ + '/b.xml', dir_ + '/p.rs'
    open(plan, 'w').write(ref.xml([terr({'preferredExtnPrefix': 'ß€' + 'x' * 200}, [fmt()])]))
    open(bad, 'w').write(ref.xml([terr({'countryCode': 'x'})]))
    for args, status in [([CMD, plan, out, 'metadata', '--const-name=X'], 0), ([CMD, bad, out + '2', 'metadata'], 1), ([CMD, plan + '?', out + '2', 'metadata'], 1),
                         ([CMD, plan, out + '2', 'nothing'], 1), ([], 1), (['x'], 1), ([CMD, plan, dir_ + '/none/x.rs', 'metadata'], 1)]:
        p = subprocess.run(['java', '-cp', cls, 'com.google.i18n.phonenumbers.EntryPoint'] + args, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        w.n += 1
        w.calls += 1
        if p.returncode != status or os.path.exists(out + '2'):
            w.bad.append({'case': {'plan': None, 'name': '', 'how': args}, 'expected': 'exit status %d' % status, 'got': 'exit status %d' % p.returncode})
    if os.path.exists(out):
        data = ref.rust_array(open(out).read(), 'X')
        open(dir_ + '/main.rs', 'w').write('include!("p.rs"); fn main() { for b in X { print!("{b} "); } }')
        p = subprocess.run(['rustc', '-o', dir_ + '/main', dir_ + '/main.rs'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        got = bytes(map(int, subprocess.run([dir_ + '/main'], stdout=subprocess.PIPE).stdout.split())) if p.returncode == 0 else p.stdout
        w.n += 1
        if got != data:
            w.bad.append({'case': {'plan': open(plan).read(), 'name': 'plan.xml', 'how': CLI}, 'expected': 'a file rustc reads as the tables', 'got': str(got)[:500]})


# ---- main ------------------------------------------------------------------------------------

def replay(path):
    r = json.load(open(path))
    w = tempfile.mkdtemp(prefix='gen')
    try:
        java = Java(build(w), w + '/w')
        got = run(java, ref.proto(RES + '/phonemetadata.proto'), r['case'])
        java.close()
    finally:
        shutil.rmtree(w, ignore_errors=True)
    print('case     ', json.dumps(r['case'])[:3000])
    print('expected ', json.dumps(r['expected'])[:3000])
    print('got      ', json.dumps(got)[:3000])
    sys.exit(0 if got == r['expected'] else 1)


def difference(a, b):
    """Where two answers differ, in short."""
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return '%d entries instead of %d' % (len(b), len(a))
        for x, y in zip(a, b):
            if x != y:
                return difference(x, y)
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if a.get(k) != b.get(k):
                return k + ': ' + difference(a.get(k), b.get(k))
    return 'expected %s, got %s' % (json.dumps(a)[:200], json.dumps(b)[:200])


def main():
    global TIER
    if sys.argv[1] == '--replay':
        return replay(sys.argv[2])
    prop, TIER = sys.argv[1:3]
    start = time.time()
    dir_ = tempfile.mkdtemp(prefix='gen')
    try:
        cls = build(dir_)
        with multiprocessing.Pool(WORKERS) as pool:
            parts = pool.map(work, [(i, cls, dir_, prop) for i in range(WORKERS)], 1)
    finally:
        shutil.rmtree(dir_, ignore_errors=True)
    bad = [b for p in parts for b in p['bad']]
    total = lambda k: sum(p[k] for p in parts)
    per = {}
    for p in parts:
        for k, n in p['per'].items():
            per[k] = per.get(k, 0) + n
    replays = os.path.join(VERIF, 'work', 'replay')
    shown = 0
    for i, b in enumerate(bad[:5]):
        os.makedirs(replays, exist_ok=True)
        path = '%s/%s-%d.json' % (replays, prop, i)
        json.dump(b, open(path, 'w'))
        print('  %s' % difference(b['expected'], b['got']))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        shown += 1
    wall = time.time() - start
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    json.dump({
        'property': prop, 'tier': TIER, 'level': 'model_checking', 'seed': int(os.environ.get('VERIF_SEED', '1')), 'violations': len(bad), 'wall_s': round(wall, 3),
        'assumptions': ['the reference model (gen/ref.py) states the intended tables',
                        'gen/stub.py stands in for the class protoc generates; on the committed plans its output is compared with the committed tables',
                        'exhaustive within the stated spaces; nothing is claimed beyond them'],
        'coverage': {'exhaustive': True, 'states': total('n'), 'transitions': total('n'), 'traces_validated_against_impl': total('n'), 'implementation_calls': total('calls'),
                     'outcomes': {'tables': total('told'), 'refused': total('refused')}, 'spaces': per, 'samples': [s for p in parts for s in p['samples']][:5]},
    }, open('%s/evidence/%s.json' % (VERIF, prop), 'w'), sort_keys=True)
    print('%s: states %d, runs of the generator %d (tables %d, refused %d), wall %.1fs' % (prop, total('n'), total('calls'), total('told'), total('refused'), wall))
    sys.exit(1 if bad else 0)


TIER = 'quick'
if __name__ == '__main__':
    main()
