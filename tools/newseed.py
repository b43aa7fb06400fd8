"""newseed(id, prop, edits=[(file, old, new)], demo, needs, breaks): write seeded/<id>/ from a scratch copy"""
import json, os, subprocess, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# run with cwd = the repository; compiles and runs the demonstration beside this script
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
g++ -std=c++11 -O0 -w -I. "$here"/demo*.cpp -o "$t/demo" -lmpfr -lgmp -pthread || exit 3
timeout 120 "$t/demo"
'''
HEAD = '''#include <cstdio>
#include <cmath>
#include <limits>
#include "p1788/decoration/decoration.hpp"
#include "p1788/exception/exception.hpp"
#include "p1788/io/io_manip.hpp"
#include "p1788/overlapping/overlapping.hpp"
#include "p1788/infsup/interval.hpp"
#include "p1788/infsup/decorated_interval.hpp"
#include "p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor.hpp"
#include "p1788/reduction/reduction.hpp"
template<typename T> using F = p1788::flavor::infsup::setbased::mpfr_bin_ieee754_flavor<T>;
template<typename T> using IV = p1788::infsup::interval<T, F>;
template<typename T> using DI = p1788::infsup::decorated_interval<T, F>;
using p1788::infsup::inf;
using p1788::infsup::sup;
typedef p1788::decoration::decoration DEC;
static int bad = 0;
#define REQUIRE(c) do { if (!(c)) { std::printf("failed: %s\\n", #c); bad = 1; } } while (0)
'''


def newseed(id, prop, edits, demo, needs, breaks, head=True):
    d = os.path.join(V, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    w = '/tmp/newseed'
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(['git', 'clone', '-q', '/repo', w], check=True)
    for f, old, new in edits:
        p = os.path.join(w, f)
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old))
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.run(['git', '-C', w, 'diff'], capture_output=True, text=True, check=True).stdout
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.cpp', 'w').write((HEAD if head else '') + demo)
    open(d + '/demo.sh', 'w').write(DEMO)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    shutil.rmtree(w, ignore_errors=True)
