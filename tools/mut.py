#!/usr/bin/env python3
"""mut.py FILE.py [NAME...]: mutation experiments. FILE defines
M = [(name, props, file, old, new), ...]; old must occur once (or (old, k) for
the k-th occurrence). Runs the checks of props from a copy of /verif on a copy
of /repo and tells which of them notice."""
import sys, os, subprocess, shutil, tempfile, time
spec = {}
exec(open(sys.argv[1]).read(), spec)
want = set(sys.argv[2:])
w = tempfile.mkdtemp(prefix='mut.', dir='/tmp')
try:
    subprocess.check_call(['git', 'clone', '-q', '/repo', w + '/repo'])
    os.makedirs(w + '/verif')
    subprocess.check_call('cp -a bin checks harness harness-mod known-findings.json gosym check.sh %s/verif/' % w, shell=True, cwd='/verif')
    env = dict(os.environ)
    for name, props, f, old, new in spec['M']:
        if want and name not in want:
            continue
        p = w + '/repo/' + f
        src = open(p).read()
        k = None
        if isinstance(old, tuple):
            old, k = old
        n = src.count(old)
        if n == 0 or (k is None and n != 1):
            print('%-28s BAD SPEC (%d)' % (name, n), flush=True)
            continue
        if k is None:
            out = src.replace(old, new)
        else:
            parts = src.split(old)
            out = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
        open(p, 'w').write(out)
        r = subprocess.run('. /opt/vp/env.sh; cd %s/repo && go build ./%s && go vet ./%s >/dev/null 2>&1; go build ./%s' % ((w,) + (os.path.dirname(f),) * 3), shell=True, capture_output=True, text=True, executable='/bin/bash')
        if r.returncode:
            print('%-28s DOES NOT BUILD %s' % (name, r.stderr[:300]), flush=True)
        else:
            res = []
            for pr in props.split():
                t = time.time()
                o = subprocess.run(['nice', '-n', '5', w + '/verif/bin/gosym', '-verif', w + '/verif', '-repo', w + '/repo', '-prop', pr, '-tier', 'quick'], capture_output=True, text=True,
                                   env=dict(env, GOMEMLIMIT='12GiB', GOGC='800', GOFLAGS='-mod=mod', GOPROXY='off', GOSUMDB='off', GOTOOLCHAIN='local', GOWORK='off'))
                why = [l.strip() for l in o.stdout.splitlines() if 'counterexample' in l or 'INCONCLUSIVE' in l]
                res.append('%s:%s(%ds)%s' % (pr, {0: 'missed', 1: 'CAUGHT', 2: 'inconclusive', 3: 'builderr'}.get(o.returncode, o.returncode), time.time() - t, (' ' + why[0][:110]) if why else ''))
                if o.returncode == 1:
                    break
            print('%-28s %s' % (name, '; '.join(res)), flush=True)
        open(p, 'w').write(src)
finally:
    shutil.rmtree(w)
