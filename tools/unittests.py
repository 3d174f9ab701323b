#!/usr/bin/env python3
"""Runs existing unit tests of the repository that /opt/vp cannot build here,
against the simulated third-party libraries (used to validate repairs).

  unittests.py [--repo R] [--out D] iamf/.../foo_test.cc ...
"""
import argparse, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = V + '/sim'
sys.path.insert(0, SIM + '/build')
ap = argparse.ArgumentParser()
ap.add_argument('--repo', default='/repo')
ap.add_argument('--out', default='/tmp/ut')
ap.add_argument('--filter', default='*')
ap.add_argument('tests', nargs='+')
a = ap.parse_args()
B = V + '/.build'
out, repo = a.out, a.repo
os.makedirs(out + '/shim/absl/status', exist_ok=True)
os.makedirs(out + '/o', exist_ok=True)
open(out + '/shim/absl/status/status_matchers.h', 'w').write('''#pragma once
#include <gmock/gmock.h>
#include "absl/status/status.h"
#include "absl/status/statusor.h"
namespace absl_testing {
inline const absl::Status& GetS(const absl::Status& s) { return s; }
template <typename T> const absl::Status& GetS(const absl::StatusOr<T>& s) { return s.status(); }
MATCHER(IsOk, "") { return GetS(arg).ok(); }
MATCHER_P(StatusIs, c, "") { return testing::ExplainMatchResult(testing::Eq(c), GetS(arg).code(), result_listener); }
MATCHER_P2(StatusIs, c, m, "") { return testing::ExplainMatchResult(testing::Eq(c), GetS(arg).code(), result_listener) && testing::ExplainMatchResult(m, std::string(GetS(arg).message()), result_listener); }
MATCHER_P(IsOkAndHolds, m, "") { return arg.ok() && testing::ExplainMatchResult(m, *arg, result_listener); }
}
''')
srcs = []
for d, dirs, files in os.walk(repo + '/iamf'):
  dirs[:] = [x for x in dirs if x not in ('tests', 'test', 'testdata')]
  srcs += [os.path.relpath(os.path.join(d, f), repo) for f in files
           if f.endswith('.cc') and not f.endswith(('_test.cc', '_benchmark.cc', '_main.cc'))]
extra = ['iamf/tests/test_utils.cc', 'iamf/cli/tests/cli_test_utils.cc', 'iamf/obu/tests/obu_test_utils.cc',
         'iamf/cli/user_metadata_builder/tests', 'iamf/common/tests/test_utils.cc']
for d, dirs, files in os.walk(repo + '/iamf'):
  if os.path.basename(d) == 'tests':
    srcs += [os.path.relpath(os.path.join(d, f), repo) for f in files if f.endswith(('_utils.cc', '_base.cc', '_test_base.cc'))]
inc = ['-I' + out + '/shim', '-I' + B + '/absl', '-I' + SIM + '/shims', '-I' + SIM + '/tp', '-I' + repo, '-I' + repo + '/iamf/include',
       '-I' + B + '/gen', '-I/usr/include/eigen3', '-I' + SIM + '/tp/include', '-I' + SIM + '/harness']
base = '-std=c++20 -w -O0 -g1 -include ' + SIM + '/shims/prelude.h ' + ' '.join(inc)
w = ['base = ' + base, '''rule cc
  command = clang++ $base -MMD -MF $out.d -c $in -o $out
  depfile = $out.d
  deps = gcc
rule link
  command = clang++ -fuse-ld=lld $in -o $out -Wl,--start-group $libs -Wl,--end-group -lgmock -lgtest -lgtest_main -lpthread -lz -lrt
rule ar
  command = rm -f $out && ar rcsT $out $in''']
objs = []
def o(path):
  x = out + '/o/' + os.path.relpath(path, '/').replace('/', '_') + '.o'
  w.append('build %s: cc %s' % (x, path))
  return x
objs = [o(repo + '/' + s) for s in sorted(set(srcs))]
for d, _, files in os.walk(B + '/gen'):
  objs += [o(os.path.join(d, f)) for f in sorted(files) if f.endswith('.pb.cc')]
objs.append(o(SIM + '/tp/sim_tp.cc'))
open(out + '/salt.cc', 'w').write('namespace verif_tp_x {} extern "C" unsigned long verif_seed_salt; unsigned long verif_seed_salt = 0; extern "C" unsigned long verif_hash_salt; unsigned long verif_hash_salt = 0;\n'
  '#include <mutex>\n#include <map>\nstatic std::mutex g; static std::map<void*, std::recursive_mutex> m;\n'
  'static std::recursive_mutex& get(void* p) { std::lock_guard<std::mutex> l(g); return m[p]; }\n'
  'static void lock(void* p) { get(p).lock(); }\nstatic void unlock(void* p) { get(p).unlock(); }\n'
  'namespace verif_sched { void (*mutex_lock_hook)(void*) = lock; void (*mutex_unlock_hook)(void*) = unlock; }\n'
  '#include <string>\n#include <string_view>\n#include "absl/strings/string_view.h"\n'
  'namespace iamf_tools { std::string GetRunfilesPath(absl::string_view p) { return "' + repo + '/" + std::string(p); }\n'
  'std::string GetRunfilesFile(absl::string_view p, std::string_view f) { return GetRunfilesPath(p) + "/" + std::string(f); } }\n'
  'namespace verif_log { void (*fatal_hook)(const char*, int, const char*) = nullptr; }\n')
objs.append(o(out + '/salt.cc'))
libdir = '/usr/lib/x86_64-linux-gnu'
libs = sorted(libdir + '/' + f for f in os.listdir(libdir) if f.startswith('libabsl_') and f.endswith('.a'))
w.append('libs = ' + ' '.join(libs + [libdir + '/libprotobuf.a', libdir + '/libexpat.a']))
w.append('build %s/all.a: ar %s' % (out, ' '.join(objs)))
bins = []
for t in a.tests:
  b = out + '/' + os.path.basename(t)[:-3]
  src = repo + '/' + t
  text = open(src).read()
  if 'std::string_view' in text or 'GetRunfilesFile' in text:  # the installed Abseil has a type of its own
    src = out + '/' + os.path.basename(t)
    if 'GetRunfilesFile' in text:
      k = text.rindex('#include')
      k = text.index('\n', k) + 1
      text = text[:k] + '''#include <filesystem>
namespace iamf_tools {
template <typename T> requires std::is_same_v<T, absl::string_view> std::string GetRunfilesFile(absl::string_view p, T f) { return GetRunfilesFile(p, std::string_view(f.data(), f.size())); }
template <typename T> requires std::is_same_v<T, absl::string_view> std::filesystem::path operator/(const std::filesystem::path& a, T b) { return a / std::string(b); }
}
''' + text[k:]
    else:
      text = text.replace('std::string_view', 'absl::string_view')
    open(src, 'w').write(text)
  w.append('build %s: link %s %s/all.a' % (b, o(src), out))
  bins.append(b)
open(out + '/build.ninja', 'w').write('\n'.join(w) + '\n')
r = subprocess.run(['ninja', '-k', '0', '-C', out] + bins, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
if r.returncode:
  print(r.stdout[-3000:])
for b in bins:
  if os.path.exists(b):
    shutil.rmtree(out + '/tmp', ignore_errors=True)
    os.makedirs(out + '/tmp')
    env = dict(os.environ, TEST_TMPDIR=out + '/tmp/', TMPDIR=out + '/tmp')
    r = subprocess.run([b, '--gtest_brief=1', '--gtest_filter=' + a.filter], cwd=repo, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print(os.path.basename(b), 'exit', r.returncode)
    print(r.stdout[-1500:] if r.returncode else '\n'.join(r.stdout.splitlines()[-2:]))
