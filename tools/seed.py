#!/usr/bin/env python3
"""tools/seed.py ID PROPERTY PATCHSCRIPT: make seeded/ID from a python script that edits files under /tmp/sd (cwd), with
seeded/ID/main.rs already written; writes patch.diff, demo.sh, meta.json and tries the demo on the scratch copy both ways.
Headers of the demo: '//@dep' lines name path dependencies, '//@needs', '//@breaks' the text of meta.json."""
import sys, os, subprocess, json, re, shutil
id, prop, script = sys.argv[1:4]
D = '/verif/seeded/' + id
S = '/tmp/sd'
sh = lambda c, **k: subprocess.run(c, shell=True, text=True, **k)
if not os.path.isdir(S): sh('cp -a /repo ' + S)
sh('git -C %s checkout -q -- . && git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD' % (S, S, S))
src = open(D + '/main.rs').read()
deps = re.findall(r'^//@dep (.*)$', src, re.M)
meta = {'property': prop, 'needs': ' '.join(re.findall(r'^//@needs (.*)$', src, re.M)), 'what_it_breaks': ' '.join(re.findall(r'^//@breaks (.*)$', src, re.M))}
json.dump(meta, open(D + '/meta.json', 'w'), indent=1)
shutil.copy('/verif/harness/Cargo.lock', D + '/lock.toml')
dl = '\\n'.join(d.replace('REPO', '$PWD') for d in deps).replace('"', '\\"')
open(D + '/demo.sh', 'w').write('''#!/bin/bash
# exit 0: as it should be; 1: broken. Run in the repository.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
cp "$here/lock.toml" "$t/Cargo.lock"
printf "[package]\\nname = \\"demo\\"\\nversion = \\"0.1.0\\"\\nedition = \\"2018\\"\\n[workspace]\\n[dependencies]\\n%s\\n[profile.dev]\\nopt-level = 1\\n" > "$t/Cargo.toml"
export HOME=/root RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true PATH=/root/.cargo/bin:$PATH RUSTFLAGS="--cap-lints allow"
export HERE="$here"
cd "$t" && cargo build --offline -q 2> "$t/log" || { tail -30 "$t/log"; exit 3; }
./target/debug/demo
''' % dl)
os.chmod(D + '/demo.sh', 0o755)
r0 = sh('bash %s/demo.sh' % D, cwd=S)
print('unchanged: demo', r0.returncode)
exec(open(script).read(), {'ed': lambda p, a, b, n=1: (lambda s: (s.count(a) >= 1 or sys.exit('not found: ' + a)) and open(S + '/' + p, 'w').write(s.replace(a, b, n)))(open(S + '/' + p).read())})
open(D + '/patch.diff', 'w').write(sh('git -C %s diff' % S, stdout=subprocess.PIPE).stdout)
r1 = sh('bash %s/demo.sh' % D, cwd=S)
print('changed: demo', r1.returncode, '(build error!)' if r1.returncode == 3 else '')
