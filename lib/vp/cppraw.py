"""Driving the raw C++ header and swap generated by --cpp_out."""
import os
import subprocess

from . import cpp, env, schema

PRELUDE = r"""
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <stdint.h>

enum { GUARD = 64 };
template <class T> static size_t do_swap(uint8_t* p)
{
    return reinterpret_cast<uint8_t*>(prophy::swap(reinterpret_cast<T*>(p))) - p;
}
struct Entry
{
    const char* name;
    size_t (*swap)(uint8_t*);
    void (*layout)();
};
"""

TAIL = r"""
static int nib(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }

int main()
{
    static char line[1 << 22];
    while (fgets(line, sizeof line, stdin))
    {
        int idx; char op; int off = 0;
        if (sscanf(line, "%d %c x%n", &idx, &op, &off) < 2) return 99;
        if (op == 'l') { table[idx].layout(); putchar('\n'); fflush(stdout); continue; }
        const char* h = line + off;
        size_t n = strcspn(h, "\n") / 2;
        uint8_t* block = static_cast<uint8_t*>(aligned_alloc(64, (n + 2 * GUARD + 63) / 64 * 64));
        uint8_t* buf = block + GUARD;
        for (int i = 0; i < GUARD; ++i) { block[i] = uint8_t(0xA0 + i); buf[n + i] = uint8_t(0x51 + 3 * i); }
        for (size_t i = 0; i < n; ++i) buf[i] = uint8_t(nib(h[2 * i]) * 16 + nib(h[2 * i + 1]));
        size_t ret = table[idx].swap(buf);
        int intact = 1;
        for (int i = 0; i < GUARD; ++i)
            if (block[i] != uint8_t(0xA0 + i) || buf[n + i] != uint8_t(0x51 + 3 * i)) intact = 0;
        printf("%lld %d x", static_cast<long long>(ret), intact);
        for (size_t i = 0; i < n; ++i) printf("%02x", buf[i]);
        putchar('\n');
        fflush(stdout);
        free(block);
    }
    return 0;
}
"""


def gen_layout(info, d):
    """Prints sizeof and the offsets in wire order, every block relative to its own start."""
    name = d["name"]
    out = ["static void layout_%s()" % name, "{", '    printf("%%zu", sizeof(%s));' % name]

    def off(owner, field):
        out.append('    printf(" %%zu", offsetof(%s, %s));' % (owner, field))

    if d["k"] == "union":
        off(name, "discriminator")
        for m in d["m"]:
            off(name, m["name"])
    else:
        ms = d["m"]
        for w in info.wire[name]:
            owner = name if w["blk"] == 0 else "%s::part%d" % (name, w["blk"] + 1)
            if w["src"] is None:
                off(owner, "num_of_" + ms[w["cnt"][0]]["name"])
                continue
            if w["a"] == "opt":
                off(owner, "has_" + ms[w["src"]]["name"])
            off(owner, ms[w["src"]]["name"])
    out.append("}")
    return "\n".join(out) + "\n"


class RawDriver(object):
    def __init__(self, program, work, tag, swap=True, layout=True, std="c++11"):
        self.program = program
        self.info = program.info
        self.dir = os.path.join(work, tag)
        os.makedirs(self.dir)
        self.index = {t: i for i, t in enumerate(program.types)}
        src = os.path.join(self.dir, "s.prophy")
        with open(src, "w") as f:
            f.write(schema.render(program.defs))
        rc, so, se = env.prophyc(["--cpp_out", self.dir, src])
        if rc != 0:
            raise cpp.Unusable("prophyc: " + (se or so)[-2000:])
        with open(os.path.join(self.dir, "d.cpp"), "w") as f:
            f.write('#include "s.pp.hpp"\n' + PRELUDE)
            for t in program.types:
                if layout:
                    f.write(gen_layout(self.info, self.info.defs[t]))
            f.write("static Entry table[] = {\n")
            for t in program.types:
                f.write('    {"%s", %s, %s},\n' % (t, "&do_swap<%s>" % t if swap else "0",
                                                   "&layout_%s" % t if layout else "0"))
            f.write("};\n" + TAIL)
        self.exe = os.path.join(self.dir, "d")
        flags = ["-g0", "-O0", "-std=" + std, "-I" + cpp.INCLUDE, "-I" + self.dir, "-w"]
        files = ["d.cpp"] + (["s.pp.cpp"] if swap else [])
        ps = [subprocess.Popen(["g++"] + flags + ["-c", os.path.join(self.dir, x), "-o",
                                                  os.path.join(self.dir, x + ".o")],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT) for x in files]
        outs = [p.communicate()[0].decode("utf-8", "replace") for p in ps]
        if any(p.returncode for p in ps):
            raise cpp.Unusable("g++: " + "\n".join(outs)[:3000])
        rc, so, se = env.run(["g++"] + [os.path.join(self.dir, x + ".o") for x in files] + ["-o", self.exe])
        if rc:
            raise cpp.Unusable("link: " + (so + se)[:3000])

    def run(self, requests, timeout=60, crashes=12):
        """requests: (type, op, bytes) -> replies (list of fields, or ("crash", text))."""
        lines = [("%d %s x%s\n" % (self.index[t], op, data.hex())).encode() for t, op, data in requests]
        out = []
        bad = 0
        while len(out) < len(lines) and bad < crashes:
            try:
                p = subprocess.run([self.exe], input=b"".join(lines[len(out):]), stdout=subprocess.PIPE,
                                   stderr=subprocess.PIPE, timeout=timeout)
                so, rc = p.stdout, p.returncode
            except subprocess.TimeoutExpired as x:
                so, rc = x.stdout or b"", "timeout"
            got = so.decode("latin-1").split("\n")[:-1]
            out.extend(g.split() for g in got)
            if len(out) < len(lines):
                if rc in (0, 99):
                    raise env.MachineryError("raw driver stopped early (rc %s)" % rc)
                bad += crashes if rc in (-1, "timeout") else 1
                out.append(("crash", "rc %s" % rc))
        return out
