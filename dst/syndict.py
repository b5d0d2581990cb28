"""
Generated dictionaries, with a model of what they contain.

A Model is a list of directives and entries. It can be rendered into bytes in several ways (line ends, byte-order
marks, blank lines, comments...) and says what a reader must find in these bytes (``expected``); the latter is
written from the documented file format, independently of the reader.
"""

from dst.core import rng
from dst.corpus import DictFiles, typos

ALPHABETS = {
    # name: (letters, encodings that have them)
    'latin': ('abcdeghiklmnoprst', ['UTF-8', 'ISO8859-1', 'ISO8859-15', 'Windows-1252', None]),
    'few': ('abcot', ['UTF-8', 'ISO8859-1', None]),
    'french': ('aeéèçlmnrst', ['UTF-8', 'ISO8859-1', 'Windows-1252', None]),
    'german': ('aeinrsßtuüö', ['UTF-8', 'ISO8859-1']),
    'turkish': ('aıiklmnrşü', ['UTF-8', 'ISO8859-9']),
    'czech': ('aeiklmnořšv', ['UTF-8', 'ISO8859-2']),
    'cyrillic': ('абвеиклнорст', ['UTF-8', 'KOI8-R', 'Windows-1251', 'ISO8859-5']),
    'greek': ('αβεικλνορστ', ['UTF-8', 'ISO8859-7']),
    'korean': ('가나다라마바사', ['UTF-8']),
    'astral': ('abc𐐨𐐩𐐪', ['UTF-8']),
}

ROLES = ['NOSUGGEST', 'FORBIDDENWORD', 'KEEPCASE', 'NEEDAFFIX', 'ONLYINCOMPOUND', 'COMPOUNDFLAG', 'COMPOUNDBEGIN',
         'COMPOUNDMIDDLE', 'COMPOUNDEND', 'COMPOUNDPERMITFLAG', 'COMPOUNDFORBIDFLAG', 'FORCEUCASE', 'WARN', 'CIRCUMFIX',
         'SUBSTANDARD']


class Model:
    def __init__(self):
        self.encoding = None        # declared in SET, if any
        self.flag_format = None
        self.aff = []               # directives, see ``lines``
        self.entries = []           # (stem, flags, [(tag, value)], alias number of flags or None, alias of tags or None)
        self.queries = []
        self.alphabet = 'abc'

    @property
    def codec(self):
        if self.flag_format == 'UTF-8':
            return 'UTF-8'
        return self.encoding or 'Windows-1252'

    def flags_text(self, flags):
        return ','.join(flags) if self.flag_format == 'num' else ''.join(flags)

    def directive_lines(self, item):
        kind, name, *rest = item
        if kind == 'text':
            return [name]
        if kind == 'value':
            return [f'{name} {rest[0]}']
        if kind == 'bool':
            return [name]
        if kind == 'affix':
            flag, cross, rows = rest
            lines = [f'{name} {flag} {"Y" if cross else "N"} {len(rows)}']
            for strip, add, cond, flags in rows:
                cont = '/' + self.flags_text(flags) if flags else ''
                lines.append(f'{name} {flag} {strip or 0} {add or 0}{cont} {cond}')
            return lines
        if kind == 'table':
            return [f'{name} {len(rest[0])}', *[f'{name} ' + ' '.join(row) for row in rest[0]]]
        raise ValueError(kind)

    def aff_blocks(self):
        return [self.directive_lines(item) for item in self.aff]

    def dic_lines(self):
        lines = []
        for stem, flags, tags, flag_alias, tag_alias in self.entries:
            line = stem.replace('/', '\\/')
            if flag_alias:
                line += f'/{flag_alias}'
            elif flags:
                line += '/' + self.flags_text(flags)
            if tag_alias:
                line += f'\t{tag_alias}'
            elif tags:
                line += '\t' + ' '.join(f'{tag}:{value}' for tag, value in tags)
            lines.append(line)
        return lines

    def render(self, newline='\n', bom=(False, False), blank=None, final=True, count=True):
        """Bytes of both files. ``blank`` is a random generator to sprinkle blank lines, spaces and comments."""
        aff = []
        for block in self.aff_blocks():
            for num, line in enumerate(block):
                if blank is not None:
                    if blank.random() < 0.15:
                        aff.append(blank.choice(['', '  ', '\t']))
                    if num == 0 and blank.random() < 0.1:
                        aff.append(blank.choice(['# comment', '#', 'just some text', '_']))
                    if blank.random() < 0.1:
                        line = line + blank.choice([' ', '\t', '  '])
                    if blank.random() < 0.05:
                        line = blank.choice([' ', '\t', '   ']) + line
                aff.append(line)
        # a first line that is a number is the count
        dic = [str(len(self.entries))] if count or self.entries and self.entries[0][0].isdigit() else []
        for line in self.dic_lines():
            if blank is not None and dic and blank.random() < 0.1:
                dic.append(blank.choice(['', ' ']))
            if blank is not None and blank.random() < 0.08:
                line = blank.choice([' ' + line, '\t' + line, line + ' ', line + '\t'])
            dic.append(line)
        res = []
        for lines, mark in ((aff, bom[0]), (dic, bom[1])):
            text = newline.join(lines) + (newline if final else '')
            res.append((b'\xef\xbb\xbf' if mark else b'') + text.encode(self.codec, 'surrogateescape'))
        return res

    # -- what a reader must find ---------------------------------------------------------------

    def expected_words(self):
        res = []
        for stem, flags, tags, _fa, _ta in self.entries:
            data = {}
            for tag, value in tags:
                data.setdefault(tag, []).append(value)
            res.append([stem, sorted(set(flags)), data])
        return res

    def expected_settings(self):
        """{directive: value}; only what is written in the file."""
        res = {}
        for kind, name, *rest in self.aff:
            if kind == 'value':
                res[name] = int(rest[0]) if name in INTS else rest[0]
            elif kind == 'bool':
                res[name] = True
            elif kind == 'affix':
                flag, cross, rows = rest
                res.setdefault(name, {})[flag] = [
                    (flag, cross, strip, add, cond, sorted(set(flags))) for strip, add, cond, flags in rows
                ]
            elif kind == 'table':
                res[name] = [list(row) for row in rest[0]]
        if self.flag_format == 'UTF-8':
            res['SET'] = 'UTF-8'
        rep = [tuple(row[:2]) for row in res.get('REP', [])]
        for stem, _flags, tags, _fa, _ta in self.entries:
            for tag, value in tags:
                if tag != 'ph':
                    continue
                if value.endswith('*'):
                    rep.append((value[:-2], stem[:-1]))
                elif '->' in value:
                    rep.append(tuple(value.split('->')))
                else:
                    rep.append((value, stem))
        res['REP'] = [list(pair) for pair in rep]
        return res


INTS = ['MAXDIFF', 'MAXNGRAMSUGS', 'MAXCPDSUGS', 'COMPOUNDMIN', 'COMPOUNDWORDMAX']


def observed_settings(aff, names):
    """The same view of a loaded dictionary. Directives whose representation is not recognized are left out."""
    def affixes(value):
        return {flag: [(a.flag, a.crossproduct, a.strip, a.add, a.condition, sorted(a.flags)) for a in rules]
                for flag, rules in value.items()}

    views = {
        'PFX': affixes, 'SFX': affixes,
        'REP': lambda v: [[r.pattern, r.replacement] for r in v],
        'BREAK': lambda v: [[b.pattern] for b in v],
        'COMPOUNDRULE': lambda v: [[r.text] for r in v],
        'MAP': lambda v: [list(chars) for chars in v],
        'ICONV': lambda v: [list(pair) for pair in v.pairs],
        'OCONV': lambda v: [list(pair) for pair in v.pairs],
        'PHONE': lambda v: [list(pair) for pair in v.table],
        'CHECKCOMPOUNDPATTERN': lambda v: [[p.left, p.right] for p in v],
        'IGNORE': lambda v: v.chars,
        'AF': lambda v: [sorted(v[str(i + 1)]) for i in range(len(v))],
        'AM': lambda v: [sorted(v[str(i + 1)]) for i in range(len(v))],
    }
    res = {}
    for name in names:
        try:
            res[name] = views.get(name, lambda v: v)(getattr(aff, name))
        except (AttributeError, KeyError, TypeError):
            pass
    return res


def normalize_expected(name, value, model):
    if name == 'MAP':
        return [list(row[0]) for row in value]
    if name == 'AF':
        def split(text):
            if model.flag_format == 'long':
                return [text[i:i + 2] for i in range(0, len(text), 2)]
            return text.split(',') if model.flag_format == 'num' else list(text)
        return [sorted(set(split(row[0]))) for row in value]
    if name == 'AM':
        return [sorted(row) for row in value]
    if name == 'PHONE':
        return [[a, '' if b == '_' else b] for a, b in value]
    return value


class Gen:
    """Draws one Model. Every feature is switched on or off per dictionary (swarm testing)."""

    def __init__(self, rand, size=None, exotic=False):
        self.rand = rand
        self.exotic = exotic
        self.model = Model()
        self.raw_flags = False
        self.size = size or rand.choice([6, 12, 25, 40])

    def chance(self, p):
        return self.rand.random() < p

    def word(self, low=2, high=5):
        letters = self.letters
        return ''.join(self.rand.choice(letters) for _ in range(self.rand.randint(low, high)))

    def new_flag(self):
        fmt = self.model.flag_format
        while True:
            if fmt == 'long':
                flag = ''.join(self.rand.choice('ABCDEFGabcdefg') for _ in range(2))
            elif fmt == 'num':
                flag = str(self.rand.randint(1, 999))
            elif self.raw_flags and self.chance(0.4):
                # a byte that is no UTF-8; this is how old dictionaries with byte flags look in that encoding
                flag = chr(0xdc80 + self.rand.choice([0, 1, 10, 0x1c, 0x20, 0x3f, 0x7e, 0x7f]))
            elif fmt == 'UTF-8':
                flag = self.rand.choice('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopéíøλж')
            else:
                flag = self.rand.choice('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnop')
            if flag not in self.used:
                self.used.add(flag)
                return flag

    def generate(self):                                     # pylint: disable=too-many-statements,too-many-branches
        rand, model = self.rand, self.model
        alphabet = rand.choice(sorted(ALPHABETS))
        letters, encodings = ALPHABETS[alphabet]
        if alphabet != 'few' and len(letters) > 8 and self.chance(0.6):
            letters = ''.join(rand.sample(letters, 7))
        model.encoding = rand.choice(encodings)
        if self.exotic and self.chance(0.3):
            # what encodings that are nearly the same differ in, and parts of byte-order marks
            more = [ch for ch in '\x80\x81\x90\x92\x9f\u20ac\u2019\u0153\xef\xbb\xbf\xa4\xac' if encodable(ch, model.codec)]
            letters += ''.join(rand.sample(more, min(len(more), 2)))
        self.letters = model.alphabet = letters
        model.flag_format = rand.choice([None, None, 'long', 'num', 'UTF-8' if model.encoding == 'UTF-8' else None])
        self.used = set()
        self.raw_flags = self.exotic and model.encoding == 'UTF-8' and model.flag_format is None and self.chance(0.4)

        header = []
        if model.encoding:
            header.append(('value', 'SET', model.encoding))
        if model.flag_format:
            header.append(('value', 'FLAG', model.flag_format))
        if alphabet == 'turkish' and self.chance(0.8):
            header.append(('value', 'LANG', 'tr_TR'))
        if alphabet == 'german' and self.chance(0.8):
            header.append(('bool', 'CHECKSHARPS'))
        body = []

        # roles of flags
        roles = {}
        for role in ROLES:
            if self.chance(0.3):
                roles[role] = self.new_flag()
                body.append(('value', role, roles[role]))
        if 'COMPOUNDFLAG' not in roles and self.chance(0.3):
            roles['COMPOUNDFLAG'] = self.new_flag()
            body.append(('value', 'COMPOUNDFLAG', roles['COMPOUNDFLAG']))

        # affixes
        affix_flags = []
        affixes = []
        for kind in ('PFX', 'SFX'):
            for _ in range(rand.randint(0, 3)):
                flag = self.new_flag()
                rows = []
                for _ in range(rand.randint(1, 3)):
                    strip = rand.choice(['', '', rand.choice(letters)])
                    add = self.word(1, 2) if self.chance(0.9) else ''
                    cond = rand.choice(['.', '.', f'[{self.word(1, 3)}]', f'[^{self.word(1, 2)}]', rand.choice(letters)])
                    if strip:
                        cond = strip
                    flags = [rand.choice(affix_flags)] if affix_flags and self.chance(0.3) else []
                    for role in ('NEEDAFFIX', 'CIRCUMFIX', 'COMPOUNDPERMITFLAG', 'COMPOUNDFORBIDFLAG', 'ONLYINCOMPOUND'):
                        if role in roles and self.chance(0.1):
                            flags.append(roles[role])
                    rows.append((strip, add, cond, flags))
                affix_flags.append(flag)
                affixes.append(('affix', kind, flag, self.chance(0.7), rows))

        # entries
        stems = []
        while len(stems) < self.size:
            base = typos(rand, rand.choice(stems), letters) if stems and self.chance(0.45) else self.word(2, 5)
            stem = rand.choice([base] * 8 + [base.capitalize(), base.upper(), base + '-' + self.word(1, 3),
                                             base + "'" + rand.choice(letters), base + ' ' + self.word(2, 3),
                                             base[:1] + base[1:].capitalize(), base + '.'])
            if self.exotic and not stems and self.chance(0.15):
                stem = str(rand.randint(0, 99))
            elif self.exotic and not stems and self.chance(0.2):
                stem = rand.choice(['\xef', '\xbb', '\xbf', '\xef\xbb']) + base
                stem = stem if encodable(stem, model.codec) else base
            elif self.exotic and self.chance(0.08):
                stem = base + rand.choice(['/', '\x0b', '\x1c', '\x85', ' ', ' ', '1']) + rand.choice(letters)
                stem = stem if encodable(stem, model.codec) else base
            if stem and stem == stem.strip() and not stem.startswith('/'):
                stems.append(stem)
        all_flags = affix_flags + sorted(roles.values())

        flag_sets = [[rand.choice(all_flags) for _ in range(rand.randint(1, 4))] for _ in range(rand.randint(1, 5))] \
            if all_flags else []
        use_af = bool(flag_sets) and self.chance(0.2)
        tag_sets = [[('ph', typos(rand, rand.choice(stems), letters).replace(' ', '').replace('\t', '') or 'x')
                     for _ in range(rand.randint(1, 3))] + [('po', 'noun')] for _ in range(rand.randint(1, 3))]
        tag_sets = [[(tag, value) for tag, value in tags if plain(value)] for tags in tag_sets]
        use_am = self.chance(0.2)
        use_ph = self.chance(0.4)

        for stem in stems:
            flags, tags, fa, ta = [], [], None, None
            if all_flags and self.chance(0.75):
                if flag_sets and (use_af or self.chance(0.3)):
                    num = rand.randrange(len(flag_sets))
                    flags = flag_sets[num]
                    fa = num + 1 if use_af else None
                else:
                    flags = [rand.choice(affix_flags or all_flags) for _ in range(rand.randint(1, 3))]
                    if self.chance(0.25):
                        flags = flags + [rand.choice(all_flags)]
                    if 'COMPOUNDFLAG' in roles and self.chance(0.5):
                        flags = flags + [roles['COMPOUNDFLAG']]
            if use_am and self.chance(0.3):
                num = rand.randrange(len(tag_sets))
                tags, ta = tag_sets[num], num + 1
            elif use_ph and self.chance(0.3):
                miss = typos(rand, stem, letters).strip()
                if plain(miss):
                    miss = rand.choice([miss, miss, miss + '*', f'{miss}->{self.word(2, 4)}'])
                    tags = [('ph', miss)]
                    if self.chance(0.3):
                        tags.append(('ph', typos(rand, miss.strip('*'), letters)))
                        tags = [t for t in tags if plain(t[1].replace('->', '').replace('*', ''))]
            # flags of an entry are only comma-less, numeric aliases are for AF only
            if use_af and fa is None:
                flags = []
            model.entries.append((stem, list(flags), list(tags), fa, ta))
            if self.chance(0.08) and all_flags and not use_af:
                model.entries.append((stem, [rand.choice(all_flags)], [], None, None))

        # other directives
        other = []
        if self.chance(0.8):
            other.append(('value', 'TRY', ''.join(rand.sample(letters, len(letters)))))
        if self.chance(0.3):
            other.append(('value', 'KEY', '|'.join([''.join(rand.sample(letters, min(3, len(letters)))) for _ in range(2)])))
        if self.chance(0.5):
            rows = []
            for _ in range(rand.randint(1, 4)):
                left, right = self.word(1, 2), self.word(1, 2)
                if self.chance(0.2):
                    left = rand.choice(['^' + left, left + '$'])
                if self.chance(0.1):
                    right += '_' + self.word(1, 2)
                rows.append([left, right])
            other.append(('table', 'REP', rows))
        if self.chance(0.4):
            other.append(('table', 'MAP', [[''.join(rand.sample(letters, min(rand.randint(2, 3), len(letters))))]
                                           for _ in range(rand.randint(1, 3))]))
        if self.chance(0.25):
            other.append(('table', 'BREAK', [[b] for b in rand.sample(['-', '^-', '-$', '.', "'", '='], rand.randint(1, 3))]))
        if self.chance(0.25):
            other.append(('table', 'ICONV', [[self.word(1, 2), self.word(1, 2)] for _ in range(rand.randint(1, 3))]))
        if self.chance(0.25):
            other.append(('table', 'OCONV', [[self.word(1, 2), self.word(1, 2)] for _ in range(rand.randint(1, 3))]))
        if self.chance(0.25) and alphabet in ('latin', 'few'):
            rows = []
            for _ in range(rand.randint(2, 6)):
                search = self.word(1, 2).upper()
                if not search.isalnum():
                    continue
                search += rand.choice(['', '', '^', '$', '-' if len(search) > 1 else ''])
                rows.append([search, rand.choice(['_', self.word(1, 1).upper()])])
            if rows:
                other.append(('table', 'PHONE', rows))
        if self.chance(0.2):
            other.append(('value', 'IGNORE', rand.choice(["'", '-'])))
        if self.chance(0.2):
            other.append(('value', 'MAXDIFF', rand.randint(0, 10)))
        if self.chance(0.2):
            other.append(('value', 'MAXNGRAMSUGS', rand.randint(0, 6)))
        if self.chance(0.2):
            other.append(('value', 'MAXCPDSUGS', rand.randint(0, 4)))
        if self.chance(0.5):
            other.append(('value', 'COMPOUNDMIN', rand.randint(1, 3)))
        if self.chance(0.1):
            other.append(('value', 'COMPOUNDWORDMAX', rand.randint(2, 3)))
        for name in ('ONLYMAXDIFF', 'NOSPLITSUGS', 'FULLSTRIP', 'COMPLEXPREFIXES', 'CHECKCOMPOUNDCASE', 'CHECKCOMPOUNDDUP',
                     'CHECKCOMPOUNDREP', 'CHECKCOMPOUNDTRIPLE', 'SIMPLIFIEDTRIPLE', 'COMPOUNDMORESUFFIXES'):
            if self.chance(0.15):
                other.append(('bool', name))
        if self.chance(0.2):
            other.append(('table', 'CHECKCOMPOUNDPATTERN', [[rand.choice(letters), rand.choice(letters)]]))
        if self.chance(0.2) and not model.flag_format and all_flags:
            flags = rand.sample(all_flags, min(len(all_flags), 3))
            other.append(('table', 'COMPOUNDRULE', [[''.join(f + rand.choice(['', '*', '?']) for f in flags)]]))
        if self.chance(0.3):
            other.append(('value', 'WORDCHARS', rand.choice(["'", '-.', '0123456789'])))

        rand.shuffle(body)
        rand.shuffle(other)
        aliases = []
        if use_af:
            aliases.append(('table', 'AF', [[model.flags_text(flags)] for flags in flag_sets]))
        if use_am:
            aliases.append(('table', 'AM', [[f'{tag}:{value}' for tag, value in tags] for tags in tag_sets]))
        # With AF any numeric flag text is an alias, so affix flags are left out there
        if use_af:
            affixes = [(*a[:4], [(s, d, c, []) for s, d, c, _f in a[4]]) for a in affixes]
            if model.flag_format == 'num':
                body = []
        ignore = [item for item in other if item[1] == 'IGNORE']
        if ignore:
            # characters to ignore are removed from stems and affixes on reading
            chars = ignore[0][2]
            affixes = [(*a[:4], [(s, clean(d, chars), c, f) for s, d, c, f in a[4]]) for a in affixes]
            model.entries = [(clean(stem, chars), *rest) for stem, *rest in model.entries]
            model.entries = [e for e in model.entries if e[0].strip()]
        model.aff = header + aliases + body + other + affixes
        if self.chance(0.3):
            # the encoding may be declared anywhere before it matters
            model.aff.insert(0, ('text', '# -*- generated -*-'))
            model.aff.insert(0, ('bool', 'NOSPLITSUGS'))
        if self.exotic:
            self.long_lines()
        self.late_encoding()
        self.queries(stems, affixes)
        return model

    def long_lines(self):
        """Lines longer than buffers."""
        rand, model = self.rand, self.model
        if self.chance(0.1):
            model.aff.insert(rand.randint(0, len(model.aff)), ('text', '# ' + 'NOSPLITSUGS ' * rand.choice([700, 1500, 6000])))
        if self.chance(0.1) and model.entries:
            num = rand.randrange(len(model.entries))
            stem, flags, tags, flag_alias, tag_alias = model.entries[num]
            if tag_alias is None:
                tags = [*tags, ('po', 'x' * rand.choice([8200, 17000, 70000]))]
                model.entries[num] = (stem, flags, tags, flag_alias, None)

    def late_encoding(self):
        """The encoding may be declared anywhere before it matters: what comes before has ASCII characters only."""
        rand, model = self.rand, self.model
        declared = [item for item in model.aff if item[:2] == ('value', 'SET')]
        if not declared or not self.chance(0.4):
            return
        rest = [item for item in model.aff if item not in declared]
        fmt = [item for item in rest if item[:2] in (('value', 'FLAG'), ('table', 'AF'))]
        early = [item for item in rest if item not in fmt and all(line.isascii() for line in model.directive_lines(item))]
        if not all(line.isascii() for item in fmt for line in model.directive_lines(item)):
            return
        early = early[:rand.randint(0, len(early))]
        model.aff = fmt + early + declared + [item for item in rest if item not in fmt and item not in early]

    def queries(self, stems, affixes):
        rand, model = self.rand, self.model
        letters = self.letters
        pool = []
        sample = rand.sample(stems, min(len(stems), 8))
        for stem in sample:
            pool.append(stem)
            pool.append(typos(rand, stem, letters))
            pool.append(rand.choice([stem.upper(), stem.capitalize(), stem.lower(), stem.swapcase(), stem.title()]))
            if self.chance(0.4):
                pool.append(typos(rand, typos(rand, stem, letters), letters))
            for _, kind, _flag, _cross, rows in rand.sample(affixes, min(len(affixes), 2)):
                strip, add, _cond, _flags = rand.choice(rows)
                if kind == 'SFX':
                    pool.append((stem[:-len(strip)] if strip else stem) + add)
                else:
                    pool.append(add + stem[len(strip):])
            if self.chance(0.3):
                pool.append(pool[-1].upper())
        for _ in range(6):
            left, right = rand.choice(stems), rand.choice(stems)
            if len(left) + len(right) <= 9:
                pool.append(rand.choice([left + right, left + right, f'{left}-{right}', f'{left} {right}', typos(rand, left + right, letters)]))
        pool += [self.word(1, 6), self.word(1, 6).capitalize(), '1' + self.word(1, 2), rand.choice(['12', '1.5', '-', '.', 'a-'])]
        pool = [w for w in dict.fromkeys(pool) if 0 < len(w) <= 14]
        model.queries = pool


class SimilarGen(Gen):
    """Long words which are much alike, so that suggestions come from n-gram similarity and many have the same score."""

    def generate(self):
        rand, model = self.rand, self.model
        self.used = set()
        self.letters = model.alphabet = ''.join(rand.sample('abcdefghilmnoprst', rand.choice([4, 6, 9])))
        model.encoding = rand.choice(['UTF-8', None])
        if model.encoding:
            model.aff.append(('value', 'SET', model.encoding))
        if self.chance(0.5):
            model.flag_format = rand.choice(['long', 'num'])
            model.aff.append(('value', 'FLAG', model.flag_format))
        if self.chance(0.7):
            model.aff.append(('value', 'MAXDIFF', rand.choice([7, 10, 10])))
        phonetic = self.chance(0.45)
        if phonetic:
            rows = [[letter.upper(), rand.choice(['_', letter.upper(), rand.choice(self.letters).upper()])] for letter in self.letters]
            rows += [[self.word(2, 2).upper() + rand.choice(['', '', '^', '$', '-']), self.word(1, 1).upper()] for _ in range(rand.randint(0, 3))]
            rand.shuffle(rows)
            model.aff.append(('table', 'PHONE', rows))
        if self.chance(0.7):
            model.aff.append(('value', 'MAXNGRAMSUGS', rand.choice([0, 0, 0, 2] if phonetic else [6, 10, 20])))
        if self.chance(0.3):
            model.aff.append(('bool', 'NOSPLITSUGS'))
        if self.chance(0.3):
            model.aff.append(('table', 'MAP', [[''.join(rand.sample(self.letters, 3))] for _ in range(2)]))
        endings = [self.word(1, 1), self.word(1, 2)]
        affixes = []
        for kind, most in (('SFX', 6), ('PFX', 2)):
            for _ in range(rand.randint(most // 2, most)):
                rows = []
                for _ in range(rand.randint(1, 3)):
                    ending = rand.choice([*endings, self.word(1, 2)])
                    strip = rand.choice(['', '', rand.choice(self.letters)])
                    rows.append((strip, rand.choice([ending, ending[-1:]]) if kind == 'SFX' else self.word(1, 1),
                                 strip or rand.choice(['.', '.', f'[^{rand.choice(self.letters)}]']), []))
                affixes.append(('affix', kind, self.new_flag(), self.chance(0.8), rows))
        model.aff += affixes
        flags = [item[2] for item in affixes]
        bases = [self.word(5, 7) for _ in range(rand.randint(2, 4))]
        stems = {}
        for _ in range(2000):
            if len(stems) >= self.size:
                break
            base = rand.choice(bases)
            pos, other = rand.randrange(1, len(base)), rand.randrange(1, len(base))
            stem = list(base)
            dice = rand.random()
            if dice < 0.35:
                stem[pos], stem[other] = stem[other], stem[pos]
            elif dice < 0.9:
                stem[pos] = rand.choice(self.letters)
                if self.chance(0.4):
                    stem[other] = rand.choice(self.letters)
            stems[''.join(stem)] = True
        for stem in stems:
            chosen = rand.sample(flags, min(len(flags), rand.choice([0, 1, 2, 4, 6])))
            tags = [('ph', typos(rand, typos(rand, stem, self.letters), self.letters))] if self.chance(0.1) else []
            model.entries.append((stem, chosen, tags, None, None))
        pool = []
        for _ in range(30):
            word = rand.choice(bases) if self.chance(0.5) else rand.choice(list(stems))
            for _ in range(rand.choice([1, 2, 2, 3])):
                word = typos(rand, word, self.letters) if self.chance(0.8) else word + rand.choice(endings)
            pool.append(rand.choice([word, word, word, word.capitalize(), word + rand.choice(endings)]))
        model.queries = [w for w in dict.fromkeys(pool) if 3 < len(w) <= 12]
        return model


def encodable(text, codec):
    try:
        text.encode(codec)
    except UnicodeEncodeError:
        return False
    return True


def plain(text):
    """Can be a regular expression, a tag value and a table cell without surprises."""
    return bool(text) and text.replace('-', '').replace("'", '').isalpha()


def clean(text, chars):
    return ''.join(ch for ch in text if ch not in chars)


PADDING = {'pad': 3000, 'vast': 9000}


def model(key):
    """
    Model of the dictionary named ``syn:<int>``, ``exo:<int>`` (with unusual characters), ``sim:<int>`` (similar words) or
    ``pad:<int>`` (the first with 3000 further words, which have no letter in common with it), ``vast:<int>`` (the same with 9000) or
    ``big:<int>`` (the same with up to 12000 words).
    """
    kind, _, num = key.partition(':')
    if kind == 'sim':
        rand = rng('similar', num)
        return SimilarGen(rand, rand.choice([20, 40, 80, 130])).generate()
    res = Gen(rng('dictionary', num), exotic=kind == 'exo').generate()
    if kind in ('pad', 'vast', 'big'):
        rand = rng('padding', num)
        count = PADDING.get(kind) or int(1500 * 8 ** rand.random())
        used = {ch for ch in ''.join(stem for stem, *_ in res.entries) + res.alphabet + ''.join(res.queries)}
        letters = [ch for ch in 'fjqvwxyz' if ch not in used]
        known = [(flags, alias) for _, flags, _, alias, _ in res.entries] or [([], None)]
        low, high = rand.choice([(4, 9), (4, 9), (4, 5), (7, 9), (10, 18), (2, 18)])
        if len(letters) ** high < 50000:
            low, high = 12, 18
        last = rand.random() < 0.6
        stems = dict.fromkeys(''.join(rand.choice(letters) for _ in range(rand.randint(low, high))) for _ in range(count))
        padding = []
        for stem in stems:
            flags, alias = rand.choice(known) if rand.random() < 0.3 else ([], None)
            padding.append((stem, flags, [], alias, None))
        res.entries = res.entries + padding if last else padding + res.entries
    return res


def generate(key):
    mod = model(key)
    aff, dic = mod.render()
    return DictFiles(key, aff, dic, mod.queries, mod.codec)
