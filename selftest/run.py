import json
import re
import subprocess

BUILD = '../.build/selftest'
bad = 0
for entry in json.loads(subprocess.check_output([f'{BUILD}/debug/replay', 'list'])):
    name, expected = entry['name'], entry['property']
    out = f'{BUILD}/out.json'
    subprocess.run(['../engine/target/release/sxe', f'{BUILD}/release/deps/harness.ll', '--harness', name, '--out', out,
                    '--samples', '40', '--time', '100', '--steps', '3000000'], check=True, capture_output=True)
    result = json.load(open(out))['harnesses'][0]
    actual = 'fails' if result['violations'] else 'none' if result['errors'] or result['pending'] else 'holds'
    lines = ''.join(f'{name} {sample["input"]}\n' for sample in result['samples'])
    native = subprocess.run([f'{BUILD}/debug/replay', 'batch'], input=lines, capture_output=True, text=True).stdout.splitlines()
    wrong = [(sample, line) for sample, line in zip(result['samples'], native) if re.findall(r'\d+', line)[1:] != sample['obs']]
    fine = actual == expected and not wrong
    bad += not fine
    print('ok ' if fine else 'BAD', name, actual, result['paths'], 'paths', result['errors'] or '', wrong[:2] or '',
          result['violations'][:1] if not fine else '')
raise SystemExit(bad != 0)
