"""
One process of C10: loads dictionaries, answers queries, prints content and answers. Its world (clock, random state, memory)
is arranged before the library is imported.
"""

import json
import os
import sys


class Clock:
    """A clock that runs as it likes: every look at it moves it by the next of ``moves`` seconds."""

    def __init__(self, start, moves):
        self.now = start
        self.moves = moves
        self.looks = 0

    def look(self):
        self.now += self.moves[self.looks % len(self.moves)]
        self.looks += 1
        return self.now

    def install(self):
        import time

        class Steady:
            """Monotonic clocks never go back."""
            top = 0.0

        def steady():
            Steady.top = max(Steady.top, self.look())
            return Steady.top

        time.time = self.look
        time.time_ns = lambda: int(self.look() * 1e9)
        for name in ('monotonic', 'perf_counter', 'process_time', 'thread_time'):
            setattr(time, name, steady)
            setattr(time, name + '_ns', lambda: int(steady() * 1e9))
        time.sleep = lambda seconds: None


def main():
    with open(sys.argv[1], encoding='utf-8') as file:
        job = json.load(file)
    sys.path[:0] = job['path']
    clock = None
    if job['clock']:
        clock = Clock(*job['clock'])
        clock.install()
    import gc
    import random
    random.seed(job['random'])
    if job['gc'] is None:
        gc.disable()
    else:
        gc.set_threshold(*job['gc'])
    rand = random.Random(job['garbage'])
    garbage = [bytes(rand.randrange(600)) for _ in range(rand.randrange(3000))]
    garbage = [g for g in garbage if rand.random() < 0.7]
    os.chdir(job['cwd'])
    if job['setlocale']:
        import locale
        try:
            locale.setlocale(locale.LC_ALL, '')
        except locale.Error:
            pass

    from dst.core import content, query
    out = sys.stdout
    if not job['stdio']:
        sys.stdin = sys.stdout = sys.stderr = None
    try:
        from spylls.hunspell import Dictionary
    except Exception as exc:                            # pylint: disable=broad-except
        out.write(f'{type(exc).__name__}: {exc}')
        out.flush()
        os._exit(3)                                     # pylint: disable=protected-access
    res = []
    for path, queries in job['dictionaries']:
        try:
            if job['relative']:
                # named from where the process is at the moment, then the process goes elsewhere
                os.chdir(job['cwd'])
                dictionary = Dictionary.from_files(os.path.relpath(path))
                os.chdir('/')
            else:
                dictionary = Dictionary.from_files(path)
        except Exception as exc:                        # pylint: disable=broad-except
            res.append(['raised', f'{type(exc).__name__}: {exc}'])
            continue
        res.append(['loaded', content(dictionary), [query(dictionary, kind, word) for kind, word in queries]])
    with open(job['out'], 'w', encoding='utf-8') as file:
        json.dump({'results': res, 'looks': clock.looks if clock else 0}, file, ensure_ascii=True)
    del garbage


if __name__ == '__main__':
    main()
