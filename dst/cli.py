"""
    python -m dst.cli check C01        the check: VERIF_SEED, VERIF_TIER
    python -m dst.cli replay FILE      replay a violation
    python -m dst.cli work ...         one shard of a check (internal)

Exit status of a check: 0 held, 1 violated (VIOLATION line), 2 the check itself failed.
"""

import base64
import collections
import gc
import hashlib
import json
import os
import subprocess
import sys
import time
import traceback

from dst.core import LIB, REPO, VERIF, HarnessError, Scratch, digest, isolated, real_monotonic, rng

SHARDS = 8
WALL_BUDGET = {'quick': 480, 'thorough': 3 * 3600}      # of all shards; a normal quick run needs a tenth of it
SHRINK_TRIALS = 300
SHRINK_SECONDS = 60


def hash_seed(seed, shard):
    """Shards differ in the hash seed of their interpreter; it is a part of the run's identity."""
    return 0 if shard % 4 == 0 else rng('hash seed', seed, shard % 4).randrange(1, 2 ** 32)


def environment(hashseed):
    env = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
    env.update(PYTHONHASHSEED=str(hashseed), PYTHONUTF8='1', LC_ALL='C.UTF-8', PYTHONDONTWRITEBYTECODE='1',
               PYTHONPYCACHEPREFIX='/nonexistent/pycache', PYTHONPATH=REPO + os.pathsep + VERIF)
    return env


# -- worker ----------------------------------------------------------------------------------------

class Worker:
    """A process that only imports the library; everything is executed in forked children of it."""

    def __init__(self):
        from dst import sched
        sched.install_locks()
        import spylls.hunspell
        if not os.path.realpath(spylls.hunspell.__file__).startswith(LIB):
            raise HarnessError(f'wrong library: {spylls.hunspell.__file__}')
        from dst.refs import Refs
        self.scratch = Scratch()
        self.refs = Refs(self.scratch)
        self.memory = {}

    def memo(self, key, compute):
        """References that several runs of a block share."""
        if key not in self.memory:
            if len(self.memory) > 300:
                self.memory.clear()
            self.memory[key] = compute()
        return self.memory[key]

    def freeze(self):
        gc.collect()
        gc.freeze()


def _child(prop, plan, prepared):
    from dst.sched import SimDeadlock
    try:
        res = prop.execute(plan, prepared)
    except SimDeadlock as exc:
        res = {'violation': {'kind': 'deadlock', 'detail': str(exc)}, 'faults': {}, 'trace': 'deadlock', 'steps': 0,
               'trivial': False}
    res['trace'] = digest(res['trace'])
    return res


def execute(prop, plan):
    """Run the plan; the result has 'violation' set or not."""
    prepared = prop.prepare(plan)
    out = isolated(_child, prop, plan, prepared, timeout=prop.guard)
    if out.kind == 'ok':
        return out.value
    if out.kind == 'error':
        raise HarnessError(out.value)
    if out.kind == 'timeout' and not prop.hang_is_violation:
        raise HarnessError('the run takes too long')
    detail = 'the run does not end' if out.kind == 'timeout' else f'the process died: {out.value}'
    return {'violation': {'kind': 'hang' if out.kind == 'timeout' else 'crash', 'detail': detail}, 'faults': {},
            'trace': out.kind, 'steps': 0, 'trivial': False}


def minimise(prop, plan, found):
    """Greedy: keep any smaller plan that shows a violation of the same kind."""
    trials, deadline = 0, real_monotonic() + SHRINK_SECONDS
    violation = found['violation']
    if violation['kind'] == 'hang':
        return plan, violation, trials
    explicit = prop.explicit(plan, found)
    if explicit:
        res = execute(prop, explicit)
        if res['violation'] and res['violation']['kind'] == violation['kind']:
            plan, violation = explicit, res['violation']
    improved = True
    while improved:
        improved = False
        for candidate in prop.shrink(plan):
            if trials >= SHRINK_TRIALS or real_monotonic() > deadline:
                return plan, violation, trials
            trials += 1
            try:
                res = execute(prop, candidate)
            except (HarnessError, KeyError, IndexError, ValueError):
                continue
            if res['violation'] and res['violation']['kind'] == violation['kind']:
                plan, violation = candidate, res['violation']
                improved = True
                break
    return plan, violation, trials


def work(prop_id, seed, tier, shard):
    from dst import corpus, props
    worker = Worker()
    prop = props.load(prop_id, worker)
    worker.freeze()
    blocks, runs = prop.size[tier]
    started = real_monotonic()
    stats = {
        'shard': shard, 'runs': 0, 'trivial': 0, 'steps': 0, 'faults': collections.Counter(), 'traces': [], 'samples': [],
        'errors': [], 'skipped_blocks': 0, 'blocks': 0, 'replayed': 0, 'replay_mismatch': 0, 'truncated': False,
        'modes': collections.Counter(), 'dictionaries': set(), 'violation': None, 'extra': collections.Counter(),
    }
    try:
        for block_no in range(shard, blocks, SHARDS):
            if real_monotonic() - started > WALL_BUDGET[tier] * jobs() / SHARDS:
                stats['truncated'] = True
                break
            stats['blocks'] += 1
            try:
                block = prop.block(rng(seed, prop_id, 'block', block_no))
                for run_no in range(runs):
                    rand = rng(seed, prop_id, 'run', block_no, run_no)
                    plan = prop.plan(rand, block)
                    if plan is None:
                        continue
                    res = execute(prop, plan)
                    stats['runs'] += 1
                    stats['steps'] += res['steps']
                    stats['faults'].update(res['faults'])
                    stats['extra'].update(res.get('extra', {}))
                    stats['dictionaries'].update(plan['dicts'])
                    for mode in ('mode', 'strategy', 'container'):
                        if mode in plan:
                            stats['modes'][f'{mode}={plan[mode]}'] += 1
                    if res['trivial']:
                        stats['trivial'] += 1
                    else:
                        stats['traces'].append(res['trace'])
                        if len(stats['samples']) < 1:
                            stats['samples'].append({'block': block_no, 'run': run_no, 'plan': shorten(plan)})
                    if run_no == 0 and block_no % 3 == 0 and not res['violation']:
                        again = execute(prop, plan)
                        stats['replayed'] += 1
                        if (again['trace'], again['steps']) != (res['trace'], res['steps']):
                            stats['replay_mismatch'] += 1
                    if res['violation']:
                        small, violation, trials = minimise(prop, plan, res)
                        stats['violation'] = {
                            'property': prop_id, 'seed': seed, 'tier': tier, 'hashseed': os.environ.get('PYTHONHASHSEED'),
                            'block': block_no, 'run': run_no, 'violation': violation, 'first_seen': res['violation'],
                            'minimised_in': trials, 'plan': small, 'original_plan': plan,
                            'dictionaries': embed(small, plan),
                        }
                        break
            except HarnessError as exc:
                stats['skipped_blocks'] += 1
                if len(stats['errors']) < 3:
                    stats['errors'].append(f'block {block_no}: {exc}')
            if stats['violation']:
                break
        stats['lines'] = sorted(f'{p}:{n}' for p, n in worker.refs.lines)
        stats['skipped_queries'] = worker.refs.skipped
    finally:
        worker.scratch.remove()
    stats['dictionaries'] = sorted(stats['dictionaries'])
    stats['wall'] = real_monotonic() - started
    del corpus
    return stats


def shorten(obj, limit=14):
    if isinstance(obj, list):
        return [shorten(o, limit) for o in obj[:limit]] + ([f'... {len(obj) - limit} more'] if len(obj) > limit else [])
    if isinstance(obj, dict):
        return {k: shorten(v, limit) for k, v in obj.items()}
    if isinstance(obj, str) and len(obj) > 200:
        return obj[:200] + '...'
    return obj


def embed(*plans):
    from dst import corpus
    res = {}
    for plan in plans:
        for key in plan['dicts']:
            files = corpus.get(key)
            res[key] = {'aff': base64.b64encode(files.aff).decode(), 'dic': base64.b64encode(files.dic).decode(),
                        'words': files.words, 'encoding': files.encoding}
    return res


# -- replay ----------------------------------------------------------------------------------------

def replay(path, which='plan'):
    with open(path, encoding='utf-8') as file:
        record = json.load(file)
    if os.environ.get('PYTHONHASHSEED') != str(record['hashseed']):
        env = environment(record['hashseed'])
        os.execve(sys.executable, [sys.executable, '-m', 'dst.cli', 'replay', path, which], env)
    from dst import corpus, props
    for key, data in record['dictionaries'].items():
        corpus.EMBEDDED[key] = corpus.DictFiles(key, base64.b64decode(data['aff']), base64.b64decode(data['dic']),
                                                data['words'], data['encoding'])
    worker = Worker()
    try:
        prop = props.load(record['property'], worker)
        res = execute(prop, record[which])
    finally:
        worker.scratch.remove()
    print(json.dumps(res, ensure_ascii=True, indent=1))
    if res['violation']:
        same = res['violation'] == record['violation' if which == 'plan' else 'first_seen']
        print('reproduced exactly' if same else 'reproduced (details differ)')
        print(f'VIOLATION property={record["property"]} replay={path}')
        return 1
    print('not reproduced')
    return 0


# -- the check -------------------------------------------------------------------------------------

def library_lines():
    """All lines of functions of the library."""
    res = set()

    def walk(code, path):
        for const in code.co_consts:
            if hasattr(const, 'co_lines'):
                res.update((path, line) for _, _, line in const.co_lines() if line and line != const.co_firstlineno)
                walk(const, path)

    for folder, _, files in os.walk(os.path.join(LIB, 'hunspell')):
        for name in files:
            if name.endswith('.py'):
                path = os.path.join(folder, name)
                with open(path, encoding='utf-8') as file:
                    walk(compile(file.read(), path, 'exec'), path[len(LIB):])
    return res


def jobs():
    return max(1, min(SHARDS, int(os.environ.get('VERIF_JOBS') or len(os.sched_getaffinity(0)))))


def run_shards(prop_id, seed, tier, folder):
    pending = list(range(SHARDS))
    running, results, failures = {}, [], []
    limit = jobs()
    deadline = real_monotonic() + WALL_BUDGET[tier] * 1.7
    while pending or running:
        while pending and len(running) < limit:
            shard = pending.pop(0)
            out = os.path.join(folder, f'shard-{shard}.json')
            err = open(os.path.join(folder, f'shard-{shard}.err'), 'wb')        # pylint: disable=consider-using-with
            proc = subprocess.Popen(                                           # pylint: disable=consider-using-with
                [sys.executable, '-m', 'dst.cli', 'work', prop_id, str(seed), tier, str(shard), out],
                env=environment(hash_seed(seed, shard)), cwd=folder, stdout=err, stderr=err, stdin=subprocess.DEVNULL)
            err.close()
            running[shard] = proc
        for shard, proc in list(running.items()):
            if proc.poll() is None:
                continue
            del running[shard]
            try:
                with open(os.path.join(folder, f'shard-{shard}.json'), encoding='utf-8') as file:
                    results.append(json.load(file))
            except (OSError, ValueError):
                with open(os.path.join(folder, f'shard-{shard}.err'), encoding='utf-8', errors='replace') as file:
                    failures.append(f'shard {shard} (status {proc.returncode}): {file.read()[-3000:]}')
        if real_monotonic() > deadline:
            for proc in running.values():
                proc.kill()
                proc.wait()
            failures.append('wall-clock guard of the check')
            break
        time.sleep(0.02)
    return sorted(results, key=lambda r: r['shard']), failures


def check(prop_id):                                             # pylint: disable=too-many-locals,too-many-statements
    seed = int(os.environ.get('VERIF_SEED') or 1)
    tier = os.environ.get('VERIF_TIER') or 'quick'
    started = real_monotonic()
    from dst import props
    module_prop = props.load(prop_id, None)
    scratch = Scratch()
    try:
        results, failures = run_shards(prop_id, seed, tier, scratch.root)
    finally:
        scratch.remove()
    wall = real_monotonic() - started

    faults, modes, extra = collections.Counter(), collections.Counter(), collections.Counter()
    traces, lines, dictionaries = set(), set(), set()
    for res in results:
        faults.update(res['faults'])
        modes.update(res['modes'])
        extra.update(res['extra'])
        traces.update(res['traces'])
        lines.update(res.get('lines', []))
        dictionaries.update(res['dictionaries'])
    total = {k: sum(r[k] for r in results) for k in ('runs', 'trivial', 'steps', 'blocks', 'skipped_blocks', 'replayed',
                                                     'replay_mismatch')}
    violations = [r['violation'] for r in results if r['violation']]
    errors = failures + [e for r in results for e in r['errors']]
    evidence = {
        'property': prop_id, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': total['runs'],
            'distinct_nontrivial': len(traces),
            'rule': module_prop.rule,
            'samples': [s for r in results for s in r['samples']][:4],
            'runs_per_hour': round(total['runs'] / wall * 3600) if wall else 0,
            'seeds': total['runs'],
            'simulated_time_steps': total['steps'],
            'trivial_runs': total['trivial'],
            'faults_injected': dict(sorted(faults.items())),
            'modes': dict(sorted(modes.items())),
            'measured': dict(sorted(extra.items())),
            'dictionaries': len(dictionaries),
            'generated_dictionaries': sum(not d.startswith('fx:') for d in dictionaries),
            'blocks': total['blocks'],
            'blocks_without_reference': total['skipped_blocks'],
            'runs_executed_twice': total['replayed'],
            'runs_that_differed_the_second_time': total['replay_mismatch'],
            'interpreter_hash_seeds': sorted({hash_seed(seed, r['shard']) for r in results}),
            'budget_truncated': any(r['truncated'] for r in results),
            'ran_real_code': module_prop.real,
            'simulated': module_prop.stub,
        },
        'wall_s': round(wall, 2),
        'assumptions': module_prop.assumptions,
        'violations': len(violations),
    }
    if lines:
        all_lines = {f'{p}:{n}' for p, n in library_lines()}
        evidence['coverage']['library_lines_reached'] = len(lines & all_lines)
        evidence['coverage']['library_lines'] = len(all_lines)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop_id + '.json'), 'w', encoding='utf-8') as file:
        json.dump(evidence, file, indent=1, ensure_ascii=True)

    for error in errors[:3]:
        print('note:', error[-1500:], file=sys.stderr)
    print(f'{prop_id}: {total["runs"]} runs, {len(traces)} distinct, {dict(faults)} in {wall:.1f} s; '
          f'{len(violations)} violations, {len(errors)} errors')
    if violations:
        return report(violations)
    if failures or not total['runs'] or total['skipped_blocks'] * 4 > total['blocks']:
        return 2
    return 0


def report(violations):
    """Write replay files, confirm in fresh processes, print the first violation that replays."""
    folder = os.path.join(VERIF, 'replays')
    os.makedirs(folder, exist_ok=True)
    chosen = None
    for record in sorted(violations, key=lambda v: (v['block'], v['run'])):
        name = hashlib.sha256(json.dumps(record, sort_keys=True).encode()).hexdigest()[:8]
        path = os.path.join(folder, f'{record["property"]}-{record["seed"]}-{record["block"]}-{record["run"]}-{name}.json')
        with open(path, 'w', encoding='utf-8') as file:
            json.dump(record, file, indent=1, ensure_ascii=True)
        ok = False
        for which in ('plan', 'original_plan'):
            proc = subprocess.run([sys.executable, '-m', 'dst.cli', 'replay', path, which], cwd=VERIF, check=False,
                                  env=environment(record['hashseed']), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if proc.returncode == 1 and b'VIOLATION' in proc.stdout:
                ok = True
                if which != 'plan':
                    record['plan'] = record['original_plan']
                    record['violation'] = record['first_seen']
                    with open(path, 'w', encoding='utf-8') as file:
                        json.dump(record, file, indent=1, ensure_ascii=True)
                break
        if chosen is None or ok:
            chosen = (path, record, ok)
        if ok:
            break
    path, record, ok = chosen
    print(json.dumps({'violation': record['violation'], 'plan': shorten(record['plan'])}, ensure_ascii=True, indent=1)[:4000])
    if not ok:
        print('note: the violation did not show again when replayed in a fresh process')
    print(f'VIOLATION property={record["property"]} replay={path}')
    return 1


def main(argv):
    if argv[0] == 'check':
        if os.environ.get('PYTHONHASHSEED') != '0' or os.environ.get('PYTHONPATH', '').split(os.pathsep)[0] != REPO:
            os.execve(sys.executable, [sys.executable, '-m', 'dst.cli', *argv], environment(0))
        return check(argv[1])
    if argv[0] == 'replay':
        return replay(*argv[1:])
    if argv[0] == 'work':
        _, prop_id, seed, tier, shard, out = argv
        stats = work(prop_id, int(seed), tier, int(shard))
        with open(out + '.part', 'w', encoding='utf-8') as file:
            json.dump(stats, file)
        os.rename(out + '.part', out)
        return 0
    print(__doc__)
    return 2


if __name__ == '__main__':
    try:
        status = main(sys.argv[1:])
    except Exception:                                           # pylint: disable=broad-except
        traceback.print_exc()
        status = 2
    sys.exit(status)
