#!/usr/bin/env python3
"""phase2.py P1.jsonl OUT.jsonl WORKERS [FILE-REGEX]: runs the checks against the surviving mutations until one reports it (development aid)."""
import sys, os, json, subprocess, threading, queue, time, re
IN, OUT, W = sys.argv[1], sys.argv[2], int(sys.argv[3])
pat = re.compile(sys.argv[4] if len(sys.argv) > 4 else '.')
ORDER = {
 'lexer': 'L02 L01 L04 L05 T01 H06', 'parser': 'L02 L01 L04 T01 H06 T07 T08', 'token': 'L02 L03 L05 H06 T01 L01', 'evaluator': 'L03 L04 L05 T01 H01 H05 H07 T03 L01 H06 T08',
 'native': 'L05 L04 T08', 'value': 'L03 L04 L05 H01 T01 H06 L01', 'context': 'T01 L04 H01 T05 T03 T08 L01', 'syntax': 'H06 T01 L02 L04 L01 T09', 'writer': 'T02 T03 T06', 'stat': 'T04 T03 T06',
 'client': 'H10 H02 H05 H07 H04 H08 H09 T02', 'content': 'H02 H01', 'error': 'H07 H04 H08 L01', 'header': 'H02 H05 H01', 'mod': 'H01 H05 T01 T02 H02', 'request': 'H02 H01 H03 H04 H07',
 'response': 'H05 H07 H06 L01', 'stream': 'H09 H04 H08 H07 H10 H05 H02', 'time': 'H10', 'url': 'H04 H01 H02', 'command': 'T03 T09 T07 T08 T01 T05 T06 T04', 'main': 'T09 T08 T03 T07 T06', 'lib': 'L04',
}
done = set()
if os.path.exists(OUT): done = {json.loads(l)['id'] for l in open(OUT)}
q = queue.Queue()
import random
ms = [json.loads(l) for l in open(IN)]
ms = [m for m in ms if m['result'] == 'survived' and m['id'] not in done and pat.search(m['file'])]
# at most two mutations of a line
random.seed(1); random.shuffle(ms)
per = {}; keep = []
for m in ms:
    if 'Relaxed' in m['new'] and 'SeqCst' in m['old']: continue
    k = (m['file'], m['line']); per[k] = per.get(k, 0) + 1
    if per[k] <= int(os.environ.get('PER_LINE', '2')): keep.append(m)
ms = keep
for m in ms: q.put(m)
print(len(ms), 'to do', flush=True)
lock = threading.Lock()
def work(k):
    d = f'/tmp/mut/v{k}'
    if not os.path.exists(d + '/repo'):
        os.makedirs(d)
        subprocess.run(['cp', '-a', '/tmp/plant/repo', d + '/repo'])
        subprocess.run(['rm', '-rf', d + '/repo/target'])
    subprocess.run(['git', '-C', d + '/repo', 'checkout', '-q', '--', '.'])
    os.makedirs(d + '/verif', exist_ok=True)
    subprocess.run(f'rsync -a --delete --exclude target --exclude .git --exclude seeded --exclude evidence --exclude replays /verif/ {d}/verif/ || (rm -rf {d}/verif/harness && cp -a /verif/harness /verif/check.sh /verif/*.json* {d}/verif/)', shell=True, capture_output=True)
    with open(d + '/verif/harness/Cargo.toml', 'a') as h: h.write('\n[profile.dev.package.harness]\nopt-level = 0\n')
    env = dict(os.environ, VERIF_REPO=d + '/repo', VERIF_SEED='1', VERIF_TIER='quick', VERIF_NO_SHRINK='1', VERIF_PERCENT=os.environ.get('PERCENT', '20'), CARGO_BUILD_JOBS='3')
    while True:
        try: m = q.get_nowait()
        except queue.Empty: break
        p = os.path.join(d, 'repo', m['file'])
        text = open(p).read(); lines = text.split('\n')
        assert lines[m['line'] - 1] == m['old'], m
        lines[m['line'] - 1] = m['new']
        open(p, 'w').write('\n'.join(lines))
        res = []; t0 = time.time()
        for c in ORDER.get(os.path.basename(m['file'])[:-3], 'L03').split():
            try:
                r = subprocess.run(['./check.sh', c], cwd=d + '/verif', env=env, capture_output=True, text=True, timeout=900)
                rc = r.returncode; msg = (r.stdout if rc == 1 else r.stderr).strip()[:300] if rc else ''
            except subprocess.TimeoutExpired:
                rc = 124; msg = ''
            res.append([c, rc, msg])
            if rc == 1: break
        open(p, 'w').write(text)
        m['checks'] = res; m['caught'] = res[-1][1] == 1; m['s'] = round(time.time() - t0)
        with lock:
            with open(OUT, 'a') as h: h.write(json.dumps(m) + '\n')
            print(m['id'], f"{m['file']}:{m['line']}", 'caught ' + res[-1][0] if m['caught'] else 'MISSED ' + str([x[:2] for x in res]), m['s'], m['old'].strip(), '=>', m['new'].strip(), flush=True)
ts = [threading.Thread(target=work, args=(k,)) for k in range(W)]
[t.start() for t in ts]; [t.join() for t in ts]
