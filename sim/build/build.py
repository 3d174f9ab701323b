#!/usr/bin/env python3
"""Builds the simulator from the repository's current working tree.

  build.py [--repo /repo] [--out /verif/.build]

Generates the patched Abseil headers and the protobuf sources, writes a
build.ninja that compiles every non-test C++ source of the repository (ASan,
libstdc++ assertions, basic-block tracing for simulated time and coverage)
against the shims and the simulated third-party libraries, and runs ninja.
Nothing is written outside --out.
"""
import argparse
import os
import re
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.dirname(HERE)


def run(cmd, **kw):
  r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
  if r.returncode:
    sys.stderr.write(r.stdout[-6000:])
    sys.exit('build.py: %s failed' % cmd[0])


def sources(repo):
  out = []
  for base in ('iamf', 'validation'):
    for d, dirs, files in os.walk(os.path.join(repo, base)):
      dirs[:] = sorted(x for x in dirs if x not in ('tests', 'test', 'testdata'))
      for f in sorted(files):
        if not f.endswith('.cc') or f.endswith(('_test.cc', '_benchmark.cc')):
          continue
        p = os.path.relpath(os.path.join(d, f), repo)
        if p.startswith('validation/'):
          continue
        out.append(p)
  return out


LINK = re.compile(r'^// link: (\S+)', re.M)  # a program a harness runs
INC = re.compile(r'^\s*#\s*include\s+"([^"]+)"', re.M)


def closure(roots, repo, sim):
  """Repository / harness / generated sources a harness file needs: every
  included header pulls in the source file of the same name, transitively."""
  seen, todo = set(), list(roots)
  while todo:
    f = todo.pop()
    if f in seen:
      continue
    seen.add(f)
    text = open(f, errors='replace').read()
    for h in INC.findall(text) + LINK.findall(text):
      for base in (repo, sim + '/harness', sim + '/tp'):
        p = os.path.normpath(os.path.join(base, h))
        if not os.path.exists(p):
          continue
        todo.append(p)
        if p.endswith('.h') and os.path.exists(p[:-2] + '.cc'):
          todo.append(p[:-2] + '.cc')
  return seen


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('--repo', default='/repo')
  ap.add_argument('--out', default='/verif/.build')
  ap.add_argument('-j', default=str(os.cpu_count() or 8))
  ap.add_argument('--prop', help='build only dst-<prop>, from the sources its harness needs')
  a = ap.parse_args()
  out, repo = a.out, a.repo
  os.makedirs(out + '/proto', exist_ok=True)
  run([sys.executable, HERE + '/genabsl.py', out + '/absl'])
  run([sys.executable, HERE + '/proto2ify.py', repo, out + '/proto'])
  protos = sorted('iamf/cli/proto/' + f for f in os.listdir(repo + '/iamf/cli/proto') if f.endswith('.proto'))
  tmp = out + '/gen.new'
  os.makedirs(tmp, exist_ok=True)
  run(['protoc', '--cpp_out=' + tmp, '-I.'] + protos, cwd=out + '/proto')
  for p in protos:  # keep timestamps of unchanged files
    for ext in ('.pb.h', '.pb.cc'):
      rel = p[:-6] + ext
      dst = out + '/gen/' + rel
      os.makedirs(os.path.dirname(dst), exist_ok=True)
      new = open(tmp + '/' + rel).read()
      if not os.path.exists(dst) or open(dst).read() != new:
        open(dst, 'w').write(new)

  inc = ['-I' + out + '/absl', '-I' + SIM + '/shims', '-I' + SIM + '/tp', '-I' + repo,
         '-I' + repo + '/iamf/include', '-I' + out + '/gen', '-I/usr/include/eigen3',
         '-I' + SIM + '/tp/include', '-I' + SIM + '/harness']
  base = ('-std=c++20 -w -O1 -g1 -fsanitize=address -fno-omit-frame-pointer '
          '-D_GLIBCXX_ASSERTIONS ' + ' '.join(inc) + ' ' + os.environ.get('VERIF_CXXFLAGS', ''))
  cov = '-fsanitize-coverage=trace-pc-guard'
  pre = out + '/prelude.h'
  # A precompiled header older than the generated headers is refused, not rebuilt.
  if os.path.exists(pre + '.pch'):
    t = os.path.getmtime(pre + '.pch')
    if any(os.path.getmtime(os.path.join(d, f)) >= t for d, _, fs in os.walk(out + '/absl') for f in fs):
      os.remove(pre + '.pch')
  w = []
  w.append('cxx = clang++')
  w.append('base = ' + base)
  w.append('''rule pch
  command = $cxx $base -x c++-header -MMD -MF $out.d %s/shims/prelude.h -o $out
  depfile = $out.d
  deps = gcc
rule cc
  command = $cxx $base $extra -include-pch %s.pch -MMD -MF $out.d -c $in -o $out
  depfile = $out.d
  deps = gcc
rule ccplain
  command = $cxx $base $extra -MMD -MF $out.d -c $in -o $out
  depfile = $out.d
  deps = gcc
rule ar
  command = rm -f $out && ar rcsT $out $in
rule link
  command = $cxx -fsanitize=address -fuse-ld=lld $in $extra -o $out -Wl,--start-group $libs -Wl,--end-group -lpthread -ldl -lrt -lz
''' % (SIM, pre))
  w.append('build %s.pch: pch' % pre)
  objs, protos_o, by_src = [], [], {}
  for s in sources(repo):
    o = '%s/o/%s.o' % (out, s.replace('/', '_')[:-3])
    extra = cov
    if s.endswith('_main.cc'):
      name = os.path.basename(s)[:-3]
      extra += ' -Dmain=verif_%s -include %s/shims/sim_flags.h' % (name, SIM)
    w.append('build %s: cc %s/%s | %s.pch\n  extra = %s' % (o, repo, s, pre, extra))
    objs.append(o)
    by_src[repo + '/' + s] = o
  for p in protos:
    rel = p[:-6] + '.pb'
    o = '%s/o/%s.o' % (out, rel.replace('/', '_'))
    w.append('build %s: cc %s/gen/%s.cc | %s.pch' % (o, out, rel, pre))
    objs.append(o)
    protos_o.append(o)
  o = out + '/o/sim_tp.o'
  w.append('build %s: cc %s/tp/sim_tp.cc | %s.pch' % (o, SIM, pre))
  objs.append(o)
  h = SIM + '/harness'
  hobjs = []
  for f in sorted(os.listdir(h)):
    if f.endswith('.cc'):
      o = '%s/o/harness_%s.o' % (out, f[:-3])
      if f.startswith('rt_'):  # runtime: hooks below the sanitizer, no prelude
        w.append('build %s: ccplain %s/%s' % (o, h, f))
      else:
        w.append('build %s: cc %s/%s | %s.pch' % (o, h, f, pre))
      hobjs.append(o)
      by_src[h + '/' + f] = o
  libdir = '/usr/lib/x86_64-linux-gnu'
  libs = sorted(libdir + '/' + f for f in os.listdir(libdir) if f.startswith('libabsl_') and f.endswith('.a'))
  libs += [libdir + '/libprotobuf.a', libdir + '/libexpat.a']
  w.append('libs = ' + ' '.join(libs))
  w.append('build %s/dst: link %s' % (out, ' '.join(hobjs + objs)))
  always = [h + '/core.cc', h + '/rt_hooks.cc']
  tpo = out + '/o/sim_tp.o'
  for f in sorted(os.listdir(h)):
    if not (f.startswith('prop_') and f.endswith('.cc')):
      continue
    need = closure([h + '/' + f] + always, repo, SIM)
    mine = sorted(by_src[x] for x in need if x in by_src)
    if any('.pb.h"' in open(x, errors='replace').read() for x in need):
      mine += protos_o
    w.append('build %s/dst-%s: link %s' % (out, f[5:-3].upper(), ' '.join(mine + [tpo])))
  w.append('default %s/dst' % out)
  txt = '\n'.join(w) + '\n'
  nf = out + '/build.ninja'
  if not os.path.exists(nf) or open(nf).read() != txt:
    open(nf, 'w').write(txt)
  os.makedirs(out + '/o', exist_ok=True)
  if a.prop:
    target = '%s/dst-%s' % (out, a.prop)
    r = subprocess.run(['ninja', '-C', out, '-j', a.j, target],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode == 0:
      print(target)
      return
    # A source the include closure does not see: link everything instead.
  run(['ninja', '-C', out, '-j', a.j])
  print(out + '/dst')


main()
