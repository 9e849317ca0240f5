"""Runs, against copies of /repo with each planted bug, its own check and the others anchored in the files it touches; writes seeded.json"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(VERIF, 'tools', 'seeded.json')
PROPS = [json.loads(x) for x in open(os.path.join(VERIF, 'properties.jsonl'))]


def files(p):
    return (p.get('anchors') or p.get('code'))['files']


def caught(repo, where, ident):
    env = dict(os.environ, SEMREC_REPO=repo, VERIF_SEED='1')
    r = subprocess.run(['bash', os.path.join(where, 'run.sh'), ident, '--tier', 'quick'], env=env, cwd='/', capture_output=True, text=True, timeout=900)
    return r.returncode == 1 and 'VIOLATION property={} '.format(ident) in r.stdout


def one(bug):
    folder = tempfile.mkdtemp()
    try:
        repo, where = os.path.join(folder, 'repo'), os.path.join(folder, 'verif')
        shutil.copytree('/repo', repo, symlinks=True)
        os.makedirs(where)
        shutil.copytree(os.path.join(VERIF, 'pbt'), os.path.join(where, 'pbt'))
        for f in ('run.sh', 'KNOWN_FINDINGS.txt'):
            shutil.copy(os.path.join(VERIF, f), where)
        patch = os.path.join(VERIF, 'seeded', bug, 'patch.diff')
        subprocess.run(['git', 'apply', patch], cwd=repo, check=True)
        touched = set(re.findall(r'^\+\+\+ b/(.*?)\s*$', open(patch).read(), re.M))
        own = json.load(open(os.path.join(VERIF, 'seeded', bug, 'meta.json')))['property']
        others = [p['id'] for p in PROPS if p['id'] != own and touched & set(files(p))]
        return bug, {'own': 'yes' if caught(repo, where, own) else 'NO', 'others': [x for x in others if caught(repo, where, x)]}
    finally:
        shutil.rmtree(folder)


if __name__ == '__main__':
    result = json.load(open(OUT)) if os.path.exists(OUT) else {}
    bugs = sorted(os.listdir(os.path.join(VERIF, 'seeded')))
    result = {k: v for k, v in result.items() if k in bugs}
    with ThreadPoolExecutor(int(os.environ.get('PAR', '6'))) as ex:
        for k, r in ex.map(one, sys.argv[1:] or [b for b in bugs if b not in result]):
            result[k] = r
            print(k, r, flush=True)
            json.dump(result, open(OUT, 'w'), indent=1, sort_keys=True)
