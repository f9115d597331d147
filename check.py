#!/usr/bin/env python3
"""Decide one property by symbolic execution of the code in /repo.

    check.py PROPERTY [quick|thorough]

The crate in /repo and the harnesses of the property are compiled to LLVM IR, which is executed
symbolically by the engine in /verif/engine with Z3 deciding branches, assertions, memory accesses,
and panics. Counterexamples are run natively against the crate before they are reported.

Exit status: 0 the property holds on everything explored, which is everything within the bounds
unless there is a line starting with PARTIAL, 1 it is violated, 2 there is no verdict.
"""

import fcntl
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
BUILD = os.path.join(ROOT, '.build')
ENGINE = os.path.join(ROOT, 'engine', 'target', 'release', 'sxe')
IR = os.path.join(BUILD, 'ir', 'release', 'deps', 'harness.ll')
REPLAY = os.path.join(BUILD, 'replay', 'debug', 'replay')
REPLAYS = os.path.join(ROOT, 'replays')

# seconds in total for the engine, and milliseconds for a query
LIMITS = {'quick': (600, 60000), 'thorough': (3000, 120000)}

ASSUMPTIONS = [
    'The encoding is the LLVM IR that rustc 1.99.1 emits for the crate, its dependency, and the parts of '
    'the standard library they use (optimisation level 1, overflow checks and debug assertions on, panics abort); '
    'code generation from IR to machine code is outside.',
    'Inputs come from memory (std::io::Cursor) except for the readers that the harnesses of C28 define.',
    'Allocation never fails; the keys of hash maps are fixed.',
    'Nothing is claimed outside the bounds listed per harness.',
    'Trusted: the engine in /verif/engine, Z3, rustc; the first is cross-checked by running sampled paths natively.',
]


# what the solver or the time left open, as opposed to what the engine cannot do
UNDECIDED = r'time limit|undecided |too many values'


class Stop(Exception):
    pass


def digest():
    value = hashlib.sha256()
    places = [os.path.join(REPO, 'Cargo.toml'), os.path.join(ROOT, 'harness', 'Cargo.toml')]
    for top in (os.path.join(REPO, 'src'), os.path.join(ROOT, 'harness', 'src')):
        for folder, folders, files in os.walk(top):
            folders.sort()
            places.extend(os.path.join(folder, name) for name in sorted(files))
    for place in places:
        value.update(place.encode() + b'\0')
        with open(place, 'rb') as file:
            value.update(file.read())
        value.update(b'\0')
    return value.hexdigest()


def build():
    """Build from the current sources, whatever the dates of the files are."""
    os.makedirs(BUILD, exist_ok=True)
    stamp = os.path.join(BUILD, 'stamp')
    current = digest()
    previous = open(stamp).read() if os.path.exists(stamp) else ''
    if previous != current:
        if os.path.exists(stamp):
            os.remove(stamp)
        for name in ('ir', 'replay'):
            shutil.rmtree(os.path.join(BUILD, name), ignore_errors=True)
    result = subprocess.run([os.path.join(ROOT, 'build_ir.sh')], capture_output=True, text=True)
    if result.returncode != 0 or not os.path.exists(IR):
        raise Stop('the build fails:\n' + result.stdout[-2000:] + result.stderr[-6000:])
    with open(stamp, 'w') as file:
        file.write(current)


def replay(harness, data, limit=20):
    """Run natively; return what happened and the labels of the checks that fail."""
    try:
        result = subprocess.run(
            [REPLAY, 'run', harness, data], capture_output=True, text=True, timeout=limit, errors='replace',
            preexec_fn=lambda: __import__('resource').setrlimit(__import__('resource').RLIMIT_AS, (8 << 30, 8 << 30)),
        )
    except subprocess.TimeoutExpired:
        return 'hang', [], f'no end within {limit} s'
    labels = re.findall(r'^FAIL (.*)$', result.stdout, re.M)
    detail = panic(result.stderr)
    if result.returncode == 10:
        return 'check', labels, detail
    if result.returncode == 12:
        return 'panic', labels, detail
    if result.returncode == 0:
        return 'nothing', labels, detail
    if result.returncode == 11:
        return 'unmet', labels, detail
    return f'crash ({result.returncode})', labels, detail


def panic(text):
    """The message of a panic."""
    match = re.search(r"panicked at (.*?:\d+:\d+):\n(.*)", text)
    return f'{match.group(2)} at {match.group(1)}' if match else text[-300:]


def findings(identifier):
    with open(os.path.join(ROOT, 'known_findings.json')) as file:
        entries = json.load(file)
    return [entry for entry in entries['open'] if entry['property'] == identifier]


def main():
    identifier = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    start = time.time()
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    build()
    registry = [
        entry for entry in json.loads(subprocess.check_output([REPLAY, 'list']))
        if entry['property'] == identifier and (entry['tier'] == 'Both' or entry['tier'].lower() == tier or tier == 'thorough')
    ]
    if not registry:
        raise Stop(f'no harness for {identifier}')
    out = os.path.join(BUILD, f'{identifier}.json')
    if os.path.exists(out):
        os.remove(out)
    seconds, query = LIMITS[tier]
    command = [ENGINE, IR, '--threads', str(os.cpu_count() or 4), '--time', str(seconds), '--query-ms', str(query),
               '--samples', '24', '--out', out]
    for entry in registry:
        command += ['--harness', entry['name']]
    try:
        run = subprocess.run(command, capture_output=True, text=True, timeout=seconds + 120, errors='replace')
    except subprocess.TimeoutExpired:
        raise Stop('the engine does not end in time')
    if run.returncode != 0 or not os.path.exists(out):
        raise Stop(f'the engine fails ({run.returncode}): {run.stderr[-3000:]}')
    with open(out) as file:
        report = json.load(file)

    # what does not allow for a verdict, what is violated, and what is known to be
    problems, partial, violations, known = [], [], {}, {}
    opened = findings(identifier)
    for entry, result in zip(registry, report['harnesses']):
        name = entry['name']
        if result['pending']:
            partial.append(f'{name}: {result["pending"]} paths are unexplored')
        for message, count in result['errors'].items():
            (partial if re.match(UNDECIDED, message) else problems).append(f'{name}: {message} ({count})')
        cut = any(line.startswith(f'{name}:') for line in partial)
        for label, code in entry['reach']:
            if str(code) not in result['reached']:
                (partial if cut else problems).append(f'{name}: "{label}" is never reached')
        if not result['paths']:
            problems.append(f'{name}: no path is explored')
        seen = {}
        for item in result['violations']:
            key = (item['kind'], item['id'], item['detail'])
            if seen.get(key, 0) >= 3 or len(violations) >= 8 or time.time() - start > seconds + 150:
                continue
            seen[key] = seen.get(key, 0) + 1
            outcome, labels, detail = replay(name, item['input'])
            fine = outcome == 'check' if item['kind'] == 'check' else outcome not in ('nothing', 'unmet')
            if not fine:
                problems.append(f'{name}: {item["kind"]} {item["detail"]} on {item["input"]} is not confirmed natively ({outcome})')
                continue
            failed = labels if outcome == 'check' and labels else [f'{outcome}: {detail.splitlines()[0] if detail else ""}']
            for label in dict.fromkeys(failed):
                match = next((e for e in opened if e['harness'] == name and e['label'] == label), None)
                if match:
                    known[match['what']] = known.get(match['what'], 0) + 1
                else:
                    violations.setdefault((name, label), (item, outcome, detail))

    # the engine against the real code on sampled paths
    lines, expected = [], []
    for entry, result in zip(registry, report['harnesses']):
        for sample in result['samples']:
            lines.append(f'{entry["name"]} {sample["input"]}')
            expected.append(sample['obs'])
    agreed = 0
    batch = subprocess.run([REPLAY, 'batch'], input='\n'.join(lines) + '\n', capture_output=True, text=True, timeout=300)
    actual = batch.stdout.splitlines()
    for line, one, other in zip(lines, expected, actual + [''] * len(lines)):
        code, _, observed = other.partition(' ')
        if code in ('0', '10') and re.findall(r'\d+', observed) == one:
            agreed += 1
        else:
            problems.append(f'the engine and the real code disagree on {line}: {one} and {other}')

    for what in known:
        print(f'KNOWN-FINDING: property={identifier} {what}')
    shutil.rmtree(os.path.join(REPLAYS, identifier), ignore_errors=True)
    for k, ((name, label), (item, outcome, detail)) in enumerate(sorted(violations.items())):
        os.makedirs(os.path.join(REPLAYS, identifier), exist_ok=True)
        path = os.path.join(REPLAYS, identifier, f'{k}.json')
        with open(path, 'w') as file:
            json.dump({
                'property': identifier, 'harness': name, 'failed': label, 'input': item['input'],
                'kind': item['kind'], 'native': outcome, 'detail': detail, 'trace': item['trace'],
                'reproduce': f'{ROOT}/build_ir.sh && {REPLAY} run {name} {item["input"]}',
            }, file, indent=1)
        print(f'{label} ({name} on {item["input"]})')
        print(f'VIOLATION property={identifier} replay={path}')

    total = lambda key: sum(result[key] for result in report['harnesses'])
    functions = sorted({name for result in report['harnesses'] for name in result['functions']})
    evidence = {
        'property': identifier,
        'tier': tier,
        'seed': seed,
        'level': 'model_checking',
        'coverage': {
            'states': total('paths'),
            'transitions': total('forks'),
            'traces_validated_against_impl': agreed,
            'samples': [line for line in lines[:: max(1, len(lines) // 12)]][:12],
            'exhaustive': not problems and not partial,
            'explanation': 'states: feasible paths that were executed symbolically, each for all inputs that follow it; '
                           'transitions: forks among them; traces: sampled paths rerun natively with the same observations; '
                           'samples: a harness and the bytes given to it',
            'bounds': {entry['name']: entry['bound'] for entry in registry},
            'per_harness': {
                entry['name']: {
                    'paths': result['paths'],
                    'longest_path_in_instructions': result['max_steps'],
                    'assertions_decided_by_solver': result['checks'],
                    'assertions_decided_by_folding': result['checks_const'],
                    'symbolic_bytes': result['symbols'],
                    'witnesses_reached': {label: result['reached'].get(str(code), 0) for label, code in entry['reach']},
                } for entry, result in zip(registry, report['harnesses'])
            },
            'instructions': total('steps'),
            'queries': {key: total(key) for key in ('queries', 'sat', 'unsat', 'unknown', 'cached', 'other')},
            'queries_in_floating_point': total('fp'),
            'solver': report['solver'],
            'solver_s': round(total('solver_s'), 2),
            'slowest_query_s': max(result['slowest_s'] for result in report['harnesses']),
            'functions_executed': len(functions),
            'functions_encoded': readable(functions),
            'problems': problems[:50],
            'unexplored': partial[:50],
            'known_findings': known,
        },
        'assumptions': ASSUMPTIONS,
        'wall_s': round(time.time() - start, 2),
        'violations': len(violations),
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', f'{identifier}.json'), 'w') as file:
        json.dump(evidence, file, indent=1)
    if violations:
        return 1
    if problems:
        raise Stop('\n'.join(problems[:20]))
    for line in partial[:20]:
        print(f'PARTIAL: {line}')
    print(f'{identifier}: holds {"on what is explored" if partial else "within the bounds"}; {len(registry)} harnesses, {total("paths")} paths, '
          f'{total("queries")} queries, {agreed} paths validated, {time.time() - start:.1f} s')
    return 0


def readable(names):
    """Those in the crate and its dependency, which include what is inlined in them."""
    try:
        text = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True).stdout
    except OSError:
        text = '\n'.join(names)
    lines = (re.sub(r'\[[0-9a-f]{8,}\]', '', line) for line in text.splitlines())
    return sorted({line for line in lines if re.search(r'postscript|typeface', line)})


if __name__ == '__main__':
    try:
        sys.exit(main())
    except Stop as stop:
        print(f'no verdict: {stop}')
        sys.exit(2)
    except Exception as error:
        import traceback
        traceback.print_exc()
        sys.exit(2)
