# The typed tests of auto_test, instantiated; which of its registration macros can be used at all is found out first.
import os, subprocess
PRE = '''#include "auto_test/auto_test.h"
typedef void* UTP; static int id(int n) { return n; }
static void create(int, int, int64_t*, int64_t, void*, unsigned, UTP*) {} static void resolve(UTP, int*, int*, int64_t**, int64_t*, void**, unsigned*) {}
static void bin(UTP, UTP, UTP*) {} static void un(UTP, UTP*) {}
static void conv(UTP, UTP, const int*, const int*, const int*, int, UTP*) {}
static void conv10(UTP, UTP, const int*, int, const int*, int, const int*, int, int, UTP*) {}
REGISTER_BASIC(UTP, int, id, id, int, id, id, create, resolve);
'''
TRY = [("REGISTER_BASIC", "HAVE_BASIC", [""]), ("REGISTER_BINARY_OP", "HAVE_BINARY_OP", ["REGISTER_BINARY_OP(bin, bin, bin, bin);"]), ("REGISTER_MATMUL", "HAVE_MATMUL", ["REGISTER_MATMUL(bin);"]),
       ("REGISTER_ACTIVATION", "HAVE_ACTIVATION", ["REGISTER_ACTIVATION(un, un, un);"]), ("REGISTER_CONV2D", "HAVE_CONV2D", ["REGISTER_CONV2D(conv);", "REGISTER_CONV2D(conv10);"]),
       ("REGISTER_OP", "HAVE_OP", ["REGISTER_OP(bin, bin, bin, bin, bin, conv);", "REGISTER_OP(bin, bin, bin, bin, bin, conv10);"]), ("GET_SAMPLE_MATMUL", "HAVE_SAMPLE", ["void f() { GET_SAMPLE_MATMUL(s, 0); }"])]
def configure(conf, g):
    R = g["REPO"]
    def works(t):
        return any(subprocess.run(["g++", "-std=c++14", "-w", "-fsyntax-only", "-I" + R, "-x", "c++", "-"], input=PRE + x, text=True, capture_output=True).returncode == 0 for x in t[2])
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(8) as ex:
        ok = list(ex.map(works, TRY))
    d = g["scratch"]
    open(os.path.join(d, "have.h"), "w").write("".join('HAVE("%s", %s),\n' % (t[0], "true" if o else "false") for t, o in zip(TRY, ok)))
    conf["per"] = {"c24.cpp": ["-fno-access-control", "-I" + d] + ["-D" + t[1] for t, o in zip(TRY, ok) if o]}
    conf["files"] = conf["files"] + [os.path.join(R, "auto_test", f) for f in ("sample.cpp", "basic.cpp")]
    conf["libs"] = ["-lgtest"]
