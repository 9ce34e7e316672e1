#!/usr/bin/env python3
"""phase1.py IN.jsonl OUT.jsonl WORKERS: keeps the mutations that compile and pass the stable tests (development aid)."""
import sys, os, json, subprocess, threading, queue, time
IN, OUT, W = sys.argv[1], sys.argv[2], int(sys.argv[3])
base = json.load(open('/opt/vp/BASELINE.json'))['stable']
q = queue.Queue()
done = set()
if os.path.exists(OUT):
    done = {json.loads(l)['id'] for l in open(OUT)}
for l in open(IN):
    m = json.loads(l)
    if m['id'] not in done:
        q.put(m)
lock = threading.Lock()
env = dict(os.environ, CARGO_NET_OFFLINE='true', RUSTC_WRAPPER='', CARGO_INCREMENTAL='1', CARGO_TERM_COLOR='never', CARGO_PROFILE_DEV_DEBUG='line-tables-only', RUSTFLAGS='-Awarnings', CARGO_BUILD_JOBS='2')
def work(k):
    d = f'/tmp/mut/w{k}'
    if not os.path.exists(d + '/repo'): os.makedirs(d)
    if not os.path.exists(d + '/repo'): subprocess.run(['cp', '-a', '/tmp/plant/repo', d + '/repo'])
    r = d + '/repo'
    subprocess.run(['git', '-C', r, 'checkout', '-q', '--', '.'])
    e = dict(env)
    while True:
        try: m = q.get_nowait()
        except queue.Empty: break
        p = os.path.join(r, m['file'])
        text = open(p).read(); lines = text.split('\n')
        assert lines[m['line'] - 1] == m['old'], m
        lines[m['line'] - 1] = m['new']
        open(p, 'w').write('\n'.join(lines))
        try:
            c = subprocess.run(['cargo', 'test', '--workspace', '--no-run', '--offline', '--quiet'], cwd=r, env=e, capture_output=True, text=True, timeout=120)
            if c.returncode != 0:
                res = 'nobuild'
            else:
                try:
                    log = d + '/log'
                    with open(log, 'w') as h:
                        subprocess.run(['unshare', '-Urn', '--kill-child', 'sh', '-c', 'ip link set lo up; ulimit -v 4000000; exec timeout -k 2 60 cargo test --workspace --no-fail-fast --offline -- --test-threads 4'], cwd=r, env=e, stdout=h, stderr=subprocess.STDOUT, timeout=90)
                    subprocess.run(['python3', '/opt/vp/results.py', d + '/o.json', 'cargo:' + log], capture_output=True)
                    passed = json.load(open(d + '/o.json'))['passed']
                    res = 'killed' if any(t not in passed for t in base) else 'survived'
                except subprocess.TimeoutExpired:
                    res = 'killed'
        except subprocess.TimeoutExpired:
            res = 'nobuild'
        open(p, 'w').write(text)
        with lock:
            m['result'] = res
            with open(OUT, 'a') as h: h.write(json.dumps(m) + '\n')
ts = [threading.Thread(target=work, args=(k,)) for k in range(W)]
[t.start() for t in ts]; [t.join() for t in ts]
