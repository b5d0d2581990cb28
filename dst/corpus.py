"""
Dictionaries the simulations run on. A dictionary is named by a key, and the key determines its bytes:

* ``fx:<name>``   hunspell's own test dictionaries, copied from the repository's fixtures into /verif/corpus;
* ``syn:<int>``   generated by dst.syndict from this seed (also ``exo:``, ``sim:`` and ``pad:``, see there);
* ``var:<int>:<key>``  a version of another dictionary (with an odd number its files have the same sizes);

A replay file carries the bytes of the dictionaries it uses, see ``EMBEDDED``.
"""

import os

from dst.core import VERIF, rng

CORPUS = os.path.join(VERIF, 'corpus')
EMBEDDED = {}
_cache = {}

# single queries of these take too long for tracing
SLOW = {'i35725', 'opentaal_cpdpat2'}


class DictFiles:
    def __init__(self, key, aff, dic, words, encoding):
        self.key = key
        self.aff = aff
        self.dic = dic
        self.words = words          # pool of words to query
        self.encoding = encoding


def fixture_names():
    return sorted(
        name[:-4] for name in os.listdir(CORPUS)
        if name.endswith('.aff') and os.path.exists(os.path.join(CORPUS, name[:-4] + '.dic'))
        and name[:-4] not in SLOW
    )


# directives that do not matter for queries, or that nearly all have
COMMON = {'SET', 'SFX', 'PFX', 'TRY', 'FLAG', 'LANG', 'WORDCHARS', 'NAME', 'HOME', 'VERSION'}


def by_directive():
    """For each directive the names of the fixtures that have it."""
    if 'directives' not in _cache:
        found = {}
        for name in fixture_names():
            for line in _read(os.path.join(CORPUS, name + '.aff')).splitlines():
                word = line.split()[:1]
                if word and word[0].isalpha() and word[0].isupper() and word[0].decode() not in COMMON:
                    found.setdefault(word[0].decode(), {})[name] = True
        _cache['directives'] = [sorted(found[directive]) for directive in sorted(found)]
    return _cache['directives']


def _read(path):
    try:
        with open(path, 'rb') as file:
            return file.read()
    except FileNotFoundError:
        return b''


def declared_encoding(aff):
    for line in aff.replace(b'\xef\xbb\xbf', b'').splitlines():
        parts = line.split()
        if len(parts) > 1 and parts[0] == b'SET':
            return parts[1].decode()
        if len(parts) > 1 and parts[0] == b'FLAG' and parts[1] == b'UTF-8':
            return 'UTF-8'
    return 'Windows-1252'


def typos(rand, word, alphabet):
    """A misspelling of the word."""
    if not word:
        return rand.choice(alphabet)
    pos = rand.randrange(len(word))
    kind = rand.randrange(6)
    if kind == 0:
        return word[:pos] + word[pos + 1:]
    if kind == 1:
        return word[:pos] + rand.choice(alphabet) + word[pos:]
    if kind == 2:
        return word[:pos] + rand.choice(alphabet) + word[pos + 1:]
    if kind == 3 and pos + 1 < len(word):
        return word[:pos] + word[pos + 1] + word[pos] + word[pos + 2:]
    if kind == 4:
        return word[:pos] + word[pos] + word[pos:]
    return word[::-1]


def _fixture(name):
    base = os.path.join(CORPUS, name)
    aff, dic = _read(base + '.aff'), _read(base + '.dic')
    encoding = declared_encoding(aff)
    words = []
    for ext in ('.good', '.wrong'):
        for line in _read(base + ext).decode(encoding, 'surrogateescape').replace('﻿', '').split('\n'):
            word = line.strip()
            if word and len(word) <= 24:
                words.append(word)
    for line in dic.decode(encoding, 'surrogateescape').replace('﻿', '').split('\n')[1:]:
        stem = line.strip().split('/')[0].split('\t')[0].strip()
        if stem and len(stem) <= 24:
            words.append(stem)
    words = list(dict.fromkeys(words))
    rand = rng('fixture words', name)
    if len(words) > 60:
        words = rand.sample(words, 60)
    alphabet = sorted({ch for word in words for ch in word}) or ['a']
    extra = []
    for word in words[:30]:
        extra += [typos(rand, word, alphabet), rand.choice([word.upper(), word.capitalize(), word.lower(), word.swapcase()])]
    extra += [f'{a}{sep}{b}' for sep in ('', ' ', '-', '.') for a, b in [(rand.choice(words), rand.choice(words))]
              if len(a) + len(b) < 20]
    return DictFiles('fx:' + name, aff, dic, list(dict.fromkeys(words + extra)), encoding)


def _version(key, arg):
    """
    Another version of a dictionary: with an odd number some words, values, replacements, conditions and flags are exchanged and
    files keep their sizes; with an even number lines may also come and go.
    """
    number, _, base = arg.partition(':')
    files = get(base)
    rand = rng('version', number, base)
    words = []

    def turned(text):
        return text[::-1] if text.isalpha() else text

    def often(p=0.5):
        return rand.random() < p

    # word list: other words, and flags exchanged between words
    lines = files.dic.decode(files.encoding, 'surrogateescape').split('\n')
    for num, line in enumerate(lines):
        stem, slash, rest = line.partition('/')
        if num and often(0.4):
            stem = turned(stem)
            lines[num] = stem + slash + rest
            words.append(stem)
    flagged = [num for num, line in enumerate(lines) if num and line.count('/') == 1 and '\\' not in line]
    for num in flagged:
        other = rand.choice(flagged)
        if often(0.3):
            (one, flags), (two, others) = lines[num].split('/'), lines[other].split('/')
            if num != other and len(flags) == len(others):
                lines[num], lines[other] = f'{one}/{others}', f'{two}/{flags}'
    if not int(number) % 2 and len(lines) > 4:
        for _ in range(rand.randint(1, 3)):
            pos = rand.randrange(1, len(lines))
            if often():
                words.append(lines.pop(pos).partition('/')[0].strip())
            elif flagged:
                lines.insert(pos, turned(lines[pos].partition('/')[0].strip()) or 'new')
    dic = '\n'.join(lines)

    # affix file
    lines = files.aff.decode(files.encoding, 'surrogateescape').split('\n')
    letters = [ch for ch in dict.fromkeys(''.join(files.words)) if ch.isalpha() and len(ch.encode(files.encoding)) == 1] or ['a']
    roles = {}
    for num, line in enumerate(lines):
        body = line.rstrip('\r')
        end = line[len(body):]
        parts = body.split(' ')
        if len(parts) == 2 and parts[0] in ('TRY', 'KEY', 'WORDCHARS') and often(0.7):
            parts[1] = turned(parts[1])
        elif len(parts) == 3 and parts[0] in ('REP', 'ICONV', 'OCONV') and parts[1].isalpha() and parts[2].isalpha() and often(0.7):
            parts[1:] = parts[:0:-1]
        elif len(parts) == 2 and (parts[0].startswith('MAX') or parts[0] in ('COMPOUNDMIN', 'COMPOUNDWORDMAX')) and parts[1].isdigit():
            if parts[0].startswith('MAX'):
                parts[1] = parts[1][:-1] + str(rand.randrange(10))
        elif len(parts) == 2 and parts[0] in ROLES and often(0.6):
            # two roles exchange their flags
            roles.setdefault(len(parts[1]), []).append((num, parts[1], end))
        elif len(parts) == 2 and parts[0] in ('MAP', 'BREAK') and parts[1].isalpha():
            parts[1] = parts[1][1:] + parts[1][:1]
        elif len(parts) == 4 and parts[0] in ('SFX', 'PFX') and parts[2] in 'YN' and often(0.25):
            parts[2] = 'N' if parts[2] == 'Y' else 'Y'
        elif len(parts) == 5 and parts[0] in ('SFX', 'PFX'):
            dice = rand.random()
            if dice < 0.25:
                parts[3] = turned(parts[3])
            elif dice < 0.55 and parts[2] == '0':
                # other conditions
                if parts[4] == '.':
                    parts[4] = rand.choice(letters)
                elif parts[4].startswith('[^') and parts[4].endswith(']'):
                    parts[4] = f'[{parts[4][2:-1]}{parts[4][-2]}]'
                elif parts[4].startswith('[') and len(parts[4]) > 3 and parts[4][2].isascii() and parts[4][1].isascii():
                    parts[4] = f'[^{parts[4][2:]}'
                elif len(parts[4]) == 1:
                    parts[4] = '.'
        lines[num] = ' '.join(parts) + end
    for places in roles.values():
        flags = [flag for _, flag, _ in places]
        rand.shuffle(flags)
        for (num, _, end), flag in zip(places, flags):
            lines[num] = f'{lines[num].split(" ")[0]} {flag}{end}'
    if not int(number) % 2:
        simple = [num for num, line in enumerate(lines) if line.split(' ')[0] in DROPPABLE and line.count(' ') < 2]
        for num in rand.sample(simple, min(len(simple), rand.randint(0, 2))):
            lines[num] = '# ' + lines[num]
        for num, line in enumerate(lines):
            # letters of another language
            if line.split(' ')[0].rstrip() in ('LANG', 'CHECKSHARPS') and often():
                lines[num] = '# ' + line
    aff = '\n'.join(lines)
    changed = rand.choice(['aff', 'dic', 'both', 'both'])
    return DictFiles(
        key, files.aff if changed == 'dic' else aff.encode(files.encoding, 'surrogateescape'),
        files.dic if changed == 'aff' else dic.encode(files.encoding, 'surrogateescape'),
        list(dict.fromkeys(files.words + words)), files.encoding)


ROLES = {'NOSUGGEST', 'FORBIDDENWORD', 'KEEPCASE', 'NEEDAFFIX', 'ONLYINCOMPOUND', 'COMPOUNDFLAG', 'COMPOUNDBEGIN', 'COMPOUNDMIDDLE',
         'COMPOUNDEND', 'COMPOUNDPERMITFLAG', 'COMPOUNDFORBIDFLAG', 'FORCEUCASE', 'WARN', 'CIRCUMFIX', 'SUBSTANDARD'}
DROPPABLE = ROLES | {'TRY', 'KEY', 'WORDCHARS', 'LANG', 'COMPLEXPREFIXES', 'FULLSTRIP', 'CHECKSHARPS', 'NOSPLITSUGS', 'ONLYMAXDIFF',
                     'CHECKCOMPOUNDCASE', 'CHECKCOMPOUNDDUP', 'CHECKCOMPOUNDREP', 'CHECKCOMPOUNDTRIPLE', 'SIMPLIFIEDTRIPLE',
                     'COMPOUNDMORESUFFIXES', 'MAXDIFF', 'MAXNGRAMSUGS', 'MAXCPDSUGS'}


def get(key):
    if key in EMBEDDED:
        return EMBEDDED[key]
    if key not in _cache:
        if len(_cache) > 400:
            _cache.clear()
        kind, _, arg = key.partition(':')
        if kind == 'fx':
            _cache[key] = _fixture(arg)
        elif kind == 'var':
            _cache[key] = _version(key, arg)
        else:
            from dst import syndict
            _cache[key] = syndict.generate(key)
    return _cache[key]


def write(key, folder, name='dict'):
    """Put the files of the dictionary into the folder, return path for from_files."""
    files = get(key)
    os.makedirs(folder, exist_ok=True)
    for ext, data in (('.aff', files.aff), ('.dic', files.dic)):
        with open(os.path.join(folder, name + ext), 'wb') as file:
            file.write(data)
    return os.path.join(folder, name)
