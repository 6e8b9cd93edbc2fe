"""mkbug.bug(...): write /verif/seeded/<id>/ from a text replacement and a demonstration."""
import json, os, shutil, subprocess, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def bug(id, prop, edits, needs, breaks, main):
    d = os.path.join(V, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    try:
        for path, old, new in edits:
            s = open('/repo/' + path).read()
            q = os.path.join(t, path)
            if os.path.exists(q):
                s = open(q).read()
            assert s.count(old) == 1, (id, path, s.count(old))
            os.makedirs(os.path.dirname(q) or t, exist_ok=True)
            open(q, 'w').write(s.replace(old, new))
        diff = ''
        for path in dict.fromkeys(e[0] for e in edits):
            r = subprocess.run(['git', 'diff', '--no-index', '--no-color', '/repo/' + path, os.path.join(t, path)],
                               capture_output=True, text=True)
            o = r.stdout.splitlines(True)
            body = [l for l in o if not l.startswith(('diff --git', 'index ', '--- ', '+++ ', 'old mode', 'new mode'))]
            diff += f'diff --git a/{path} b/{path}\n--- a/{path}\n+++ b/{path}\n' + ''.join(body)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    finally:
        shutil.rmtree(t)
    for f in ('lib.go', 'demo.sh'):
        shutil.copy(os.path.join(V, 'tools', 'demolib', f), os.path.join(d, f))
    open(os.path.join(d, 'main.go'), 'w').write(main)
    subprocess.run(['gofmt', '-w', os.path.join(d, 'main.go')], check=True,
                   env=dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH']))
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks},
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)
