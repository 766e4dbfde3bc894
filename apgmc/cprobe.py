"""Measures generated C headers with the real C compiler.

For every sequence a probe program stores values through each member and looks
at the raw bytes, so the result is what the header *means*, not how it is
written.
"""
import os
import subprocess

from . import model

CC = ["gcc", "-std=gnu11", "-O0", "-w"]

PRELUDE = r'''
#include <string.h>
#include <stdio.h>
static void dump(const char *k, const char *p, const void *s, unsigned long n) {
  const unsigned char *b = s; printf("%s %s ", k, p);
  for (unsigned long i = 0; i < n; i++) printf("%02x", b[i]);
}
#define PI(T, m, LO, HI) do { T s; memset(&s, 0, sizeof s); s.m = -1; \
  dump(#T, #m, &s, sizeof s); printf(" %c", (s.m > 0) ? 'u' : 's'); \
  s.m = 1; printf("%c", (s.m / 2 == 0) ? 'i' : 'f'); \
  s.m = LO; printf("%d", (__int128)s.m == (__int128)(LO)); \
  s.m = HI; printf("%d\n", (__int128)s.m == (__int128)(HI)); } while (0)
#define PF(T, m, LO, HI) do { T s; memset(&s, 0, sizeof s); \
  memset(&s.m, 255, sizeof s.m); dump(#T, #m, &s, sizeof s); \
  printf(" %c", _Generic(s.m, float: 'f', double: 'd', default: '?')); \
  s.m = LO; printf("%d", !__builtin_isinf(s.m)); \
  s.m = HI; printf("%d\n", !__builtin_isinf(s.m)); } while (0)
#define PS(T, m) do { T s; memset(&s, 0, sizeof s); \
  memset(&s.m, 255, sizeof s.m); dump(#T, #m, &s, sizeof s); \
  printf(" %c%lu\n", _Generic(s.m[0], char: 'c', default: '?'), \
  (unsigned long)(sizeof s.m / sizeof s.m[0])); } while (0)
'''


def lit(v):
    if v < -(1 << 63) + 1:
        return "(-9223372036854775807LL-1)"
    if v > (1 << 63) - 1:
        return f"{v}ULL"
    return f"({v}LL)"


def compile_run(src, wd, incdirs, name="probe", extra=()):
    """-> (ok, output or diagnostics)"""
    c = os.path.join(wd, name + ".c")
    x = os.path.join(wd, name)
    with open(c, "w") as f:
        f.write(src)
    r = subprocess.run(CC + ["-I" + i for i in incdirs]
                       + ["-o", x, c] + list(extra),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=300)
    if r.returncode:
        t = r.stdout.decode("utf8", "replace")
        err = [l for l in t.splitlines() if "error" in l]
        return False, "gcc: " + " | ".join(err[:3] or t.splitlines()[:3])
    r = subprocess.run([x], cwd=wd, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=60)
    out = r.stdout.decode("latin1")
    if r.returncode:
        return False, f"probe ended with {r.returncode}: {out[-200:]}"
    return True, out


def leaf_stmt(T, path, s):
    if s["s"] in ("uint", "int"):
        return f"PI({T}, {path}, {lit(s['lo'])}, {lit(s['hi'])});"
    if s["s"] == "bool":
        return f"PI({T}, {path}, 0, 1);"
    if s["s"] == "enum":
        return f"PI({T}, {path}, 0, {len(s['states']) - 1});"
    if s["s"] == "flt":
        return f"PF({T}, {path}, {s['lo']!r}, {s['hi']!r});"
    if s["s"] == "str":
        return f"PS({T}, {path});"
    raise AssertionError(s)


def bits_of(hexs):
    b = bytes.fromhex(hexs)
    return [8 * i + j for i, x in enumerate(b) for j in range(8)
            if x >> j & 1]


def probe_source(includes, seqs, enums, env):
    src = "".join(f'#include "{i}"\n' for i in includes) + PRELUDE
    fns = []
    for d in seqs:
        T = model.cname(d["name"])
        body = [f'printf("sizeof {T} %lu\\n", (unsigned long)sizeof({T}));']
        for path, s, *_ in model.c_leaves(d, env):
            body.append(leaf_stmt(T, path, s))
        fns.append(f"static void f_{T}(void) {{\n" + "\n".join(body) + "\n}\n")
    for d in enums:
        T = model.cname(d["name"])
        body = [f'{T} e; printf("sizeof {T} %lu\\n", (unsigned long)sizeof e);']
        for k in model.enum_states(d):
            k = model.cname(k)
            body.append(f'printf("enum {T} {k} %lld\\n", (long long){k});')
        fns.append(f"static void f_{T}(void) {{\n" + "\n".join(body) + "\n}\n")
    src += "".join(fns) + "int main(void) {\n"
    src += "".join(f"f_{model.cname(d['name'])}();\n"
                   for d in list(seqs) + list(enums))
    return src + "return 0; }\n"


def parse_output(out):
    sizes, leaves, enums = {}, {}, {}
    for line in out.splitlines():
        w = line.split(" ")
        if w[0] == "sizeof":
            sizes[w[1]] = int(w[2])
        elif w[0] == "enum":
            enums[(w[1], w[2])] = int(w[3])
        else:
            leaves[(w[0], w[1])] = (w[2], w[3])
    return sizes, leaves, enums


def judge(out, seqs, enums, env):
    """-> list of problems, compared with the reference layout"""
    sizes, leaves, ev = parse_output(out)
    bad = []
    for d in seqs:
        T = model.cname(d["name"])
        total = model.layout(d, env)[1]
        if sizes.get(T) != total // 8:
            bad.append(f"{T}: sizeof is {sizes.get(T)}, expected {total // 8}")
        for path, s, off, w, inarr in model.c_leaves(d, env):
            hx, flags = leaves[(T, path)]
            bits = bits_of(hx)
            # a big value in a float member is not stored as all ones in padding
            want = list(range(off, off + w))
            if s.get("pad") and bits == list(range(off, off + (w + 7) // 8 * 8)):
                # gcc may overwrite the padding after a bitfield in a union
                bits = want
            where = f"{T}.{path}"
            if bits != want:
                bad.append(f"{where}: occupies bits "
                           f"{bits[:1]}..{bits[-1:]} ({len(bits)}), expected "
                           f"{off}..{off + w - 1} ({w})")
            if s["s"] in ("uint", "int", "bool", "enum"):
                sign = "s" if s["s"] == "int" else "u"
                if flags[0] != sign:
                    bad.append(f"{where}: signedness {flags[0]}, "
                               f"expected {sign}")
                if flags[1] != "i":
                    bad.append(f"{where}: not an integer type")
                if flags[2:] != "11":
                    bad.append(f"{where}: range ends do not fit "
                               f"(lo,hi stored: {flags[2:]})")
            elif s["s"] == "flt":
                k = "f" if s["w"] == 32 else "d"
                if flags != k + "11":
                    bad.append(f"{where}: floating type/range {flags}, "
                               f"expected {k}11")
            elif flags != f"c{s['n']}":
                bad.append(f"{where}: string type {flags}, "
                           f"expected c{s['n']}")
    for d in enums:
        T = model.cname(d["name"])
        for v, k in enumerate(model.enum_states(d)):
            got = ev.get((T, model.cname(k)))
            if got != v:
                bad.append(f"{T}: {k} is {got}, expected {v}")
    return bad
