#!/usr/bin/env python3
"""Author planted bugs: python3 tools/mkseed.py SPEC.py [id...]
SPEC.py defines SEEDS = [dict(id, prop, needs, what, edits=[(file, old, new)], demo=C++ text, src=[repo sources], std, libs, np)].
For each: writes seeded/<id>/, applies the patch to /repo, builds, tests, runs the demo and the property's check, undoes it, runs the demo again."""
import sys, os, subprocess, json, re, shutil
V = '/verif'; R = os.environ.get('MKREPO', '/repo')  # MKREPO: try the demo and the check on a copy, without the repository's tests
sys.path.insert(0, V + "/tools"); ns = {"__file__": sys.argv[1]}; exec(open(sys.argv[1]).read(), ns); only = sys.argv[2:]
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
assert sh(f'git -C {R} status --short').stdout == '', 'repo dirty'
for s in ns['SEEDS']:
    if only and s['id'] not in only: continue
    d = f"{V}/seeded/{s['id']}"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    try:
        for f, a, b in s['edits']:
            t = open(f'{R}/{f}').read()
            if t.count(a) != 1: raise Exception(f"{s['id']}: {f}: {t.count(a)} matches for {a!r}")
            open(f'{R}/{f}', 'w').write(t.replace(a, b))
        open(f'{d}/patch.diff', 'w').write(subprocess.run(f'git -C {R} diff', shell=True, stdout=subprocess.PIPE, text=True).stdout)
        open(f'{d}/meta.json', 'w').write(json.dumps(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['what']), indent=1) + '\n')
        open(f'{d}/demo.cpp', 'w').write(s['demo'])
        for k, v in s.get('files', {}).items(): os.makedirs(f'{d}/inc', exist_ok=True); open(f'{d}/inc/{k}', 'w').write(v)
        if s.get('mdspan', 'macis/' in s['demo'] and 'sparsexx' not in s['demo'].split('macis/')[0]):
            os.makedirs(f'{d}/inc', exist_ok=True); shutil.copytree(f'{V}/stubs/mdspan', f'{d}/inc', dirs_exist_ok=True)
            shutil.copytree(f'{V}/stubs/misc', f'{d}/inc2', dirs_exist_ok=True)
            if not s.get('nospdlog'): shutil.copytree(f'{V}/stubs/spdlog', f'{d}/inc', dirs_exist_ok=True)
        srcs = ' '.join('"$PWD/%s"' % x for x in s.get('src', []))
        cxx = s.get('cxx', 'mpicxx'); run = './demo' if not s.get('np') else f"mpirun --allow-run-as-root --oversubscribe -np {s['np']} ./demo"
        open(f'{d}/demo.sh', 'w').write(f'''#!/bin/bash
# {s['what']}
d=$(cd "$(dirname "$0")" && pwd); r=$PWD; t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
export OMP_NUM_THREADS=1 OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self,vader OMPI_MCA_pml=ob1 OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_plm_rsh_agent=/bin/false TMPDIR=$t
{cxx} -std={s.get('std', 'c++17')} -O1 -w {s.get('flags', '')} -I"$d/inc" -I"$r/include" -I"$r/_build/include" -I"$r/src/sparsexx/include" -I"$r/_build/src/sparsexx/include" -I"$r/src/lobpcgxx/include" -I"$r/attic/include" -I"$d/inc2" "$d/demo.cpp" {srcs} -o "$t/demo" {s.get('libs', '')} || exit 3
cd "$t" && timeout 120 {run}
''')
        os.chmod(f'{d}/demo.sh', 0o755)
        if R != '/repo': ok_b, bad = True, []
        else:
         out = sh('bash /opt/vp/build.sh'); ok_b = out.returncode == 0
         t = sh('bash /opt/vp/test.sh /tmp/seed_t.json'); res = json.load(open('/tmp/seed_t.json')); base = set(json.load(open('/opt/vp/BASELINE.json'))['stable']); bad = base - set(res['passed'])
        dm = sh(f'bash {d}/demo.sh', cwd=R)
        ck = sh(f"timeout 890 {V}/check {s.get('check', s['prop'])}", env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick', **({} if R == '/repo' else dict(VX_REPO=R))))
        viol = [l for l in ck.stdout.split('\n') if l.startswith('VIOLATION')]
    finally:
        sh(f'git -C {R} checkout -- .')
    dm0 = sh(f'bash {d}/demo.sh', cwd=R)
    cj = f'{V}/tools/caught.json'; cd = json.load(open(cj)) if os.path.exists(cj) else {}; cd[s['id']] = 'caught' if ck.returncode == 1 and viol else 'missed'; json.dump(cd, open(cj, 'w'), indent=0, sort_keys=True)
    good = ok_b and not bad and dm.returncode not in (0,) and dm0.returncode == 0
    print(f"{s['id']:28} {'VALID ' if good else 'BAD   '} build={ok_b} testsbroken={len(bad)} demo(mut)={dm.returncode} demo(orig)={dm0.returncode} check={ck.returncode} {'CAUGHT' if ck.returncode == 1 and viol else 'MISSED'} {viol[0][:90] if viol else ck.stdout[-200:]}", flush=True)
    if dm.returncode == 3 or dm0.returncode: print(dm.stdout[-600:], dm0.stdout[-600:])
