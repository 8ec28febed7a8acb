#!/usr/bin/env python3
"""sweep.py EDITS OUT [WORKERS]: runs every edit of mutgen that builds and passes the stable tests
against the checks, until one alarms; writes one JSON line each with the outcome."""
import json, os, subprocess, sys, shutil, threading, queue
edits = [json.loads(l) for l in open(sys.argv[1])]
out = open(sys.argv[2], 'a')
done = set()
for l in open(sys.argv[2]):
    e = json.loads(l); done.add((e['file'], e['off'], e['end'], e['new'], e['kind']))
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
env = dict(os.environ, HOME='/root', GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod')
cheap = 'C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C17 C18 C19 C20 C21 C30 C32 C33 C34 C15 C16 C31 C22 C23 C24 C25 C27 C28 C26 C29'.split()
roll = 'C24 C25 C28 C27 C31 C26 C29 C23 C22 C15 C16 C33'.split()
first = {'internal/output_rollingwriter.go': roll, 'internal/output_fsutil.go': roll, 'internal/output_rolling.go': ['C23', 'C22', 'C31'] + roll,
    'internal/output_base.go': ['C12', 'C10', 'C11', 'C13', 'C23', 'C15', 'C16'], 'internal/logger_manager.go': ['C18', 'C19', 'C20', 'C21', 'C15', 'C16']}
lock = threading.Lock()
q = queue.Queue()
for e in edits:
    if (e['file'], e['off'], e['end'], e['new'], e['kind']) not in done: q.put(e)
def work(i):
    d = '/tmp/sw/w%d' % i
    if os.path.exists(d): shutil.rmtree(d)
    os.makedirs(d + '/v/evidence')
    subprocess.run(['cp', '-a', '/repo', d + '/repo'], check=True)
    shutil.copy('/verif/KNOWN_FINDINGS.txt', d + '/v')
    while True:
        try: e = q.get_nowait()
        except queue.Empty: return
        p = d + '/repo/' + e['file']
        src = open(p, 'rb').read()
        end = e['end']
        if e['kind'] == 'kv-drop' and src[end:end+1] == b',': end += 1
        open(p, 'wb').write(src[:e['off']] + e['new'].encode() + src[end:])
        try: e['result'], e['by'] = one(d)
        finally: open(p, 'wb').write(src)
        with lock:
            out.write(json.dumps(e) + '\n'); out.flush()
def one(d):
    if subprocess.run(['go', 'build', './...'], cwd=d + '/repo', env=env, capture_output=True).returncode: return 'nobuild', ''
    try: r = subprocess.run(['go', 'test', '-json', '-vet=off', '-count=1', '-timeout', '60s', './...'], cwd=d + '/repo', env=env, capture_output=True, text=True, timeout=120)
    except subprocess.TimeoutExpired: return 'tests', ''
    ok = set()
    for l in r.stdout.split('\n'):
        try: x = json.loads(l)
        except Exception: continue
        if x.get('Test') and x['Action'] == 'pass': ok.add(x['Package'] + '/' + x['Test'])
    if stable - ok: return 'tests', ''
    e = env | {'VERIF_REPO': d + '/repo', 'VERIF_DIR': d + '/v', 'GOMAXPROCS': '2'}
    odd = ''
    for c in order_for(d):
        try: r = subprocess.run(['/tmp/checker', c], env=e, capture_output=True, text=True, timeout=300)
        except subprocess.TimeoutExpired: odd = odd or 'timeout ' + c; continue
        if r.returncode == 1: return 'caught', c
        if r.returncode: odd = odd or 'exit %d %s' % (r.returncode, c)
    return ('odd', odd) if odd else ('quiet', '')
def order_for(d):
    r = subprocess.run(['git', 'diff', '--name-only'], cwd=d + '/repo', capture_output=True, text=True).stdout.split()
    o = []
    for f in r: o += first.get(f, [])
    seen = []
    for c in o + cheap:
        if c not in seen: seen.append(c)
    return seen
ts = [threading.Thread(target=work, args=(i,)) for i in range(int(sys.argv[3]) if len(sys.argv) > 3 else 7)]
for t in ts: t.start()
for t in ts: t.join()
shutil.rmtree('/tmp/sw')
