#!/usr/bin/env python3
"""mkseed.py FILE.py...: writes seeded/<id>/ from specs and verifies each in a scratch copy of /repo.

A spec file calls seed(id, property, [(file, old, new), ...], demo-go-body, needs, breaks, imports).
"""
import os, subprocess, sys, json, shutil, textwrap

SCRATCH = '/tmp/seedrepo'
ENV = dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'], GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local', GOWORK='off')
ENV.pop('GOROOT', None)
DEMO = '''#!/bin/bash
# Exit 0: the property holds for the input of this demonstration; 1: it does not.
D="$(cd "$(dirname "$0")" && pwd)"
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
%s
'''
HEAD = '''package main

import (
%s)

const mod = "github.com/JohannesKaufmann/html-to-markdown/v2"

func fail(format string, a ...any) { fmt.Printf(format+"\\n", a...); os.Exit(1) }

'''
CONV = '''func convert(input string, opts ...converter.ConvertOptionFunc) string {
	conv := converter.NewConverter(converter.WithPlugins(base.NewBasePlugin(), commonmark.NewCommonmarkPlugin(), strikethrough.NewStrikethroughPlugin(), table.NewTablePlugin()))
	out, err := conv.ConvertString(input, opts...)
	if err != nil {
		fail("error: %v", err)
	}
	return out
}

'''
GM = '''func read(md string) string {
	var buf bytes.Buffer
	if err := goldmark.New(goldmark.WithExtensions(extension.GFM)).Convert([]byte(md), &buf); err != nil {
		fail("error: %v", err)
	}
	return buf.String()
}

'''
M = 'github.com/JohannesKaufmann/html-to-markdown/v2/'
PKG = {k: M + v for k, v in dict(converter='converter', base='plugin/base', commonmark='plugin/commonmark', strikethrough='plugin/strikethrough', table='plugin/table', collapse='collapse', marker='marker').items()}
PKG.update(html='golang.org/x/net/html', goldmark='github.com/yuin/goldmark', extension='github.com/yuin/goldmark/extension', dom='github.com/JohannesKaufmann/dom', htmltomarkdown=M[:-1], atom='golang.org/x/net/html/atom', url='net/url', exec='os/exec', filepath='path/filepath')

ONLY = set()
def sh(cmd, cwd=SCRATCH, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout

def fresh():
    if not os.path.exists(SCRATCH):
        sh(['cp', '-a', '/repo', SCRATCH], cwd='/')
    sh(['git', 'checkout', '-q', '--detach'], SCRATCH)
    head = sh(['git', '-C', '/repo', 'rev-parse', 'HEAD'], '/')[1].strip()
    sh(['git', 'fetch', '-q', '/repo', head]); sh(['git', 'reset', '-q', '--hard', head])

def seed(id, prop, edits, body, needs, breaks, helpers='', run='go run "$D/demo.go"'):
    if ONLY and id not in ONLY: return
    fresh()
    for path, old, new in edits:
        p = os.path.join(SCRATCH, path); s = open(p).read()
        if s.count(old) != 1: print(id, 'EDIT MISMATCH', path, s.count(old)); return
        open(p, 'w').write(s.replace(old, new))
    rc, diff = sh(['git', 'diff'])
    rc, out = sh(['go', 'build', './...'])
    if rc: print(id, 'DOES NOT BUILD', out[:800]); return
    rc, out = sh(['go', 'test', '-vet=off', '-count=1', './...'])
    if rc: print(id, 'CAUGHT BY TESTS', '\n'.join(l for l in out.split('\n') if 'FAIL' in l)[:600]); return
    d = '/verif/seeded/' + id
    os.makedirs(d, exist_ok=True)
    code = helpers
    nobody = body is None; body = body or ''
    if body and 'func main(' not in body: body = 'func main() {\n' + body.strip('\n') + '\n}'
    if 'convert(' in body and 'func convert(' not in body: code += CONV
    if 'read(' in body and 'func read(' not in body: code += GM
    code += textwrap.dedent(body).strip('\n') + '\n'
    full = code + HEAD
    imps = ['fmt', 'os']
    import re
    for name in ('bytes', 'strings', 'slices', 'sync', 'errors', 'context', 'unicode', 'time', 'io', 'regexp', 'sort', 'reflect', 'bufio'):
        if re.search(r'\b%s\.' % name, code): imps.append(name)
    for name, path in PKG.items():
        if re.search(r'\b%s\.' % name, code): imps.append(path)
    go = HEAD % ''.join('\t"%s"\n' % i if not i.endswith('/v2') else '\thtmltomarkdown "%s"\n' % i for i in imps) + code
    go = go.replace('const mod = "github.com/JohannesKaufmann/html-to-markdown/v2"\n\n', '')
    if not nobody:
        open(d + '/demo.go', 'w').write(go)
        sh(['gofmt', '-w', d + '/demo.go'])
    open(d + '/demo.sh', 'w').write(DEMO % run)
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/patch.diff', 'w').write(diff)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    rb, ob = sh(['bash', d + '/demo.sh'])
    sh(['git', 'checkout', '-q', '--', '.'])
    ra, oa = sh(['bash', d + '/demo.sh'])
    ok = ra == 0 and rb != 0 and 'demo.go:' not in ob
    print(id, prop, 'OK' if ok else 'BAD', '| patched: rc', rb, ob.strip()[:200], '| clean: rc', ra, oa.strip()[:200])
    if not ok:
        shutil.rmtree('/tmp/badseed', ignore_errors=True); shutil.move(d, '/tmp/badseed')

if __name__ == '__main__':
    files = [a for a in sys.argv[1:] if a.endswith('.py')]
    ONLY.update(a for a in sys.argv[1:] if not a.endswith('.py'))
    for f in files: exec(open(f).read())
