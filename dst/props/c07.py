"""C07: damaged archives."""

import os
import zipfile

from dst import loading
from dst.base import Property, choose_dictionary, drop_from
from dst.core import HarnessError, content, rng
from dst.simio import SimIO


def damage(data, ops):
    """Apply damages to the bytes of an archive."""
    for op in ops:
        kind, pos, arg = op
        if not data:
            break
        pos %= len(data)
        if kind == 'flip':
            data = data[:pos] + bytes([data[pos] ^ (1 << arg)]) + data[pos + 1:]
        elif kind == 'byte':
            data = data[:pos] + bytes([arg]) + data[pos + 1:]
        elif kind == 'zero':
            data = data[:pos] + b'\0' * min(arg, len(data) - pos) + data[pos + arg:]
        elif kind == 'cut':
            data = data[:pos]
        elif kind == 'lose':
            data = data[:pos] + data[pos + arg:]
        elif kind == 'repeat':
            data = data[:pos + arg] + data[pos:]
        elif kind == 'swap':
            data = data[:pos] + data[pos + arg:pos + 2 * arg] + data[pos:pos + arg] + data[pos + 2 * arg:]
        elif kind == 'behead':
            data = data[pos:]
    return data


def draw_damage(rand, data, regions):
    """Damages aimed at regions of the archive (member data, headers, directory) in equal shares."""
    start, end = rand.choice(regions)
    pos = rand.randrange(start, end)
    kind = rand.choice(['flip'] * 5 + ['byte', 'byte', 'zero', 'cut', 'lose', 'repeat', 'swap', 'behead'])
    arg = {'flip': rand.randrange(8), 'byte': rand.randrange(256)}.get(kind, rand.choice([1, 2, 5, 20, 100]))
    return [kind, pos, arg]


def regions_of(path):
    """Parts of an archive: local headers, data of members, central directory and the end record."""
    size = os.path.getsize(path)
    res = []
    with zipfile.ZipFile(path) as file:
        directory = file.start_dir
        infos = file.infolist()
    for info in infos:
        name = info.filename
        head = info.header_offset
        body = head + 30 + len(name.encode())
        res.append((head, body))
        if info.compress_size and name.endswith(('.aff', '.dic')):
            res += [(body, body + info.compress_size)] * 3
    res += [(directory, size), (directory, size)]
    return res


def consistent(path, members):
    """Whether the damaged archive is a valid archive with other contents: no reader can tell that it was damaged."""
    try:
        with zipfile.ZipFile(path) as file:
            names = [n for n in file.namelist() if n.endswith(('.aff', '.dic'))]
            return {name: file.read(name) for name in names} != members
    except Exception:                                   # pylint: disable=broad-except
        return False


class Damage(Property):
    id = 'C07'
    size = {'quick': (480, 50), 'thorough': (2000, 60)}
    rule = ('one run: one archive with one dictionary, damaged at rest (bits, bytes, blocks, cuts, losses, repetitions) or in '
            'transit (a read returns damaged bytes), loaded; distinct = distinct (archive, damages, damaged reads); trivial = '
            'the damage changed nothing')
    real = ['spylls (all of it)', 'zipfile, zlib, io buffering and decoding']
    stub = ['medium of the archive (damaged bytes)', 'operating system calls on files (damaged reads, sizes of reads)']
    assumptions = ['the archive has one .aff and one .dic member', 'damage after which every check value of the archive fits its data (for instance '
                   'zeroed checksum and size of a member) cannot be detected by any reader and is left out; whether it is so is '
                   'decided by zipfile alone']

    def block(self, rand):
        key = choose_dictionary(rand, fixtures=0.35)
        container = rand.choice(['stored', 'deflated'])
        seed = rand.randrange(10 ** 6)
        folder = os.path.join(self.env.scratch.root, 'c07-' + key.replace(':', '-'))
        path = loading.build(folder, *loading.bytes_of(key), container, seed)
        return {'dict': key, 'container': container, 'names': seed, 'path': path, 'regions': regions_of(path)}

    def plan(self, rand, block):
        with open(block['path'], 'rb') as file:
            data = file.read()
        style, seed = loading.style_for(rand)
        ops, transit = [], []
        if rand.random() < 0.65:
            ops = [draw_damage(rand, data, block['regions']) for _ in range(rand.choice([1, 1, 1, 2, 5]))]
        else:
            events, spans = loading.dry_run(block['container'], block['path'], style, seed, True)
            for _ in range(rand.choice([1, 1, 2])):
                number, offset = loading.draw_event(rand, events, ['read']), rand.randrange(10 ** 6)
                if rand.random() < 0.6:
                    # one of the reads of a chosen place
                    start, end = rand.choice(block['regions'])
                    place = start + rand.randrange(min(end - start, rand.choice([40, 200, end - start])))
                    found = [(num, place - pos) for num, pos, size in spans if pos <= place < pos + size]
                    number, offset = rand.choice(found) if found else (number, offset)
                transit.append([number, offset, 1 << rand.randrange(8)])
        return {'dicts': [block['dict']], 'container': block['container'], 'names': block['names'], 'damage': ops,
                'transit': transit, 'style': style, 'seed': seed, 'mode': 'transit' if transit else 'rest'}

    def prepare(self, plan):
        key = plan['dicts'][0]
        aff, dic = loading.bytes_of(key)
        folder = os.path.join(self.env.scratch.root, 'c07-' + key.replace(':', '-'))
        path = loading.build(folder, aff, dic, plan['container'], plan['names'])
        with open(path, 'rb') as file:
            data = file.read()
        with zipfile.ZipFile(path) as file:
            members = {name: file.read(name) for name in file.namelist() if name.endswith(('.aff', '.dic'))}
        expected = self.env.memo(('c07', key, plan['container'], plan['names']), lambda: loading.reference(
            folder, aff, dic, (), plan['container'], plan['names']))
        if expected[0] is None:
            raise HarnessError('the intact archive cannot be loaded')
        return {'expected': expected[0][0], 'data': data, 'members': members, 'path': os.path.join(folder, 'run.zip')}

    def execute(self, plan, prepared):
        data = damage(prepared['data'], plan['damage'])
        loading.put(prepared['path'], data)
        undetectable = bool(plan['damage']) and consistent(prepared['path'], prepared['members'])
        sim = SimIO([os.path.dirname(prepared['path'])], {n: ['corrupt', pos, mask] for n, pos, mask in plan['transit']},
                    plan['style'], rng('reads', plan['seed'])).install()
        violation, outcome = None, 'raised'
        try:
            with sim:
                dictionary = loading.load('zip', prepared['path'])
        except Exception as exc:                        # pylint: disable=broad-except
            outcome = type(exc).__name__
        else:
            outcome = 'loaded'
            got = content(dictionary)
            if got != prepared['expected'] and not undetectable:
                violation = {'kind': 'misread', 'difference': loading.first_difference(prepared['expected'], got)}
        faults = dict(sim.fired)
        for op in plan['damage']:
            faults['damage: ' + op[0]] = faults.get('damage: ' + op[0], 0) + 1
        return {'violation': violation, 'faults': faults, 'steps': len(sim.events),
                'trace': (plan['dicts'], plan['container'], plan['damage'], plan['transit'], plan['style'], outcome),
                'extra': {'loaded in spite of the damage' if outcome == 'loaded' else 'rejected': 1,
                          'not detectable by checksums': int(undetectable)},
                'trivial': data == prepared['data'] and not sim.fired}

    def shrink(self, plan):
        yield from drop_from(plan, 'damage')
        yield from drop_from(plan, 'transit')
        for name in sorted(plan['style']):
            yield dict(plan, style={k: v for k, v in plan['style'].items() if k != name})


PROPERTY = Damage
