"""Driving the generated C++ full codec: generate, compile with sanitizers, run a line protocol."""
import os
import subprocess

from . import env, schema
from .schema import WIDTH

INCLUDE = os.path.join(env.REPO, "prophy_cpp", "include")
WARN = ["-Wno-address-of-packed-member", "-Wno-packed-not-aligned"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=enum", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
CTYPE = {"u8": "uint8_t", "u16": "uint16_t", "u32": "uint32_t", "u64": "uint64_t", "i8": "int8_t", "i16": "int16_t",
         "i32": "int32_t", "i64": "int64_t", "float": "float", "double": "double", "byte": "uint8_t"}

PRELUDE = r"""
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <string>
#include <unistd.h>

static size_t g_live, g_peak;
static bool g_meter;
static const size_t HUGE_REQUEST = size_t(1) << 28;

static void* take(size_t n)
{
    if (g_meter)
    {
        g_live += n;
        if (g_live > g_peak) g_peak = g_live;
        if (n > HUGE_REQUEST)
        {
            fprintf(stderr, "ALLOCATION %zu\n", n);
            fflush(0);
            _exit(77);
        }
    }
    size_t* p = static_cast<size_t*>(malloc(n + 16));
    if (!p) abort();
    *p = n;
    return reinterpret_cast<char*>(p) + 16;
}
static void give(void* p)
{
    if (!p) return;
    size_t* q = reinterpret_cast<size_t*>(static_cast<char*>(p) - 16);
    if (g_meter) g_live -= *q;
    free(q);
}
#ifdef VP_METER
void* operator new(size_t n) { return take(n); }
void* operator new[](size_t n) { return take(n); }
void operator delete(void* p) noexcept { give(p); }
void operator delete[](void* p) noexcept { give(p); }
void operator delete(void* p, size_t) noexcept { give(p); }
void operator delete[](void* p, size_t) noexcept { give(p); }
#else
void* use_take = reinterpret_cast<void*>(&take);
void* use_give = reinterpret_cast<void*>(&give);
#endif

struct Feed
{
    const uint8_t* p;
    template <class T> void num(T& x) { memcpy(&x, p, sizeof(T)); p += sizeof(T); }
    uint32_t u32() { uint32_t x; num(x); return x; }
};

static void hex(const void* data, size_t n)
{
    static const char d[] = "0123456789abcdef";
    const uint8_t* p = static_cast<const uint8_t*>(data);
    putchar('x');
    for (size_t i = 0; i < n; ++i) { putchar(d[p[i] >> 4]); putchar(d[p[i] & 15]); }
    putchar(' ');
}
static void hex(const std::vector<uint8_t>& v) { hex(v.data(), v.size()); }

template <class T>
static void observe(const T& x, const std::string& what)
{
    size_t n = x.get_byte_size();
    printf("%zu %d ", n, int(T::encoded_byte_size));
    if (what.find('v') != std::string::npos)
    {
        hex(x.template encode<prophy::little>());
        hex(x.template encode<prophy::big>());
        hex(x.encode());
    }
    if (what.find('p') != std::string::npos)
    {
        uint8_t* a = static_cast<uint8_t*>(malloc(n ? n : 1));
        size_t l = x.template encode<prophy::little>(a);
        size_t b = x.template encode<prophy::big>(a);
        size_t m = x.encode(a);
        free(a);
        printf("%zu %zu %zu ", l, b, m);
    }
    if (what.find('t') != std::string::npos)
    {
        std::string s = x.print();
        hex(s.data(), s.size());
    }
}

struct Ops
{
    virtual ~Ops() { }
    virtual void build(Feed f, const std::string& what) = 0;
    virtual void decode(char e, const uint8_t* p, size_t n, const std::string& what, const uint8_t* before = 0, size_t m = 0) = 0;
    virtual void decode_vec(char e, const std::vector<uint8_t>& v, const std::string& what) = 0;
};
"""

MAIN = r"""
template <class T> void get(T& x, Feed& f);
template <class T>
struct OpsOf : Ops
{
    static bool copied(const std::string& what) { return what.find('c') != std::string::npos; }
    static void observe_copy(const T& x, T used, const std::string& what)
    {
        const std::vector<T> many(2, x);    // copies of copies, the last one over an object which holds something
        T y(many.back());
        used = y;
        y = T();
        observe(used, what);
    }
    void build(Feed f, const std::string& what)
    {
        T x;
        vp_get(x, f);
        if (copied(what)) observe_copy(x, T(), what);
        else observe(x, what);
    }
    void decode(char e, const uint8_t* p, size_t n, const std::string& what, const uint8_t* before, size_t m)
    {
        T x;
        T used;
        if (before && copied(what)) e == '>' ? used.template decode<prophy::big>(before, m) : used.template decode<prophy::little>(before, m);
        else if (before) e == '>' ? x.template decode<prophy::big>(before, m) : x.template decode<prophy::little>(before, m);
        g_live = g_peak = 0;
        g_meter = true;
        bool ok = e == '<' ? x.template decode<prophy::little>(p, n)
                : e == '>' ? x.template decode<prophy::big>(p, n) : x.decode(p, n);
        g_meter = false;
        printf("%d %zu ", int(ok), g_peak);
        if (ok && copied(what)) observe_copy(x, used, what);
        else if (ok) observe(x, what);
    }
    void decode_vec(char e, const std::vector<uint8_t>& v, const std::string& what)
    {
        T x;
        bool ok = e == '<' ? x.template decode<prophy::little>(v)
                : e == '>' ? x.template decode<prophy::big>(v) : x.decode(v);
        printf("%d 0 ", int(ok));
        if (ok) observe(x, what);
    }
};
"""

TAIL = r"""
static int nib(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }

int main()
{
    static char line[1 << 22];
    while (fgets(line, sizeof line, stdin))
    {
        int idx; char op; char e; char what[16]; int off = 0;
        if (sscanf(line, "%d %c %c %15s x%n", &idx, &op, &e, what, &off) < 4) return 99;
        const char* h = line + off;
        size_t n = strcspn(h, "\n") / 2;
        uint8_t* buf = static_cast<uint8_t*>(malloc(n ? n : 1));
        for (size_t i = 0; i < n; ++i) buf[i] = uint8_t(nib(h[2 * i]) * 16 + nib(h[2 * i + 1]));
        if (n == 0) { free(buf); buf = static_cast<uint8_t*>(malloc(0)); }
        if (op == 'b') { Feed f = {buf}; table[idx]->build(f, what); }
        else if (op == 'v') { std::vector<uint8_t> v(buf, buf + n); table[idx]->decode_vec(e, v, what); }
        else if (op == 'r')     // into an object which has decoded something else, whose length comes first
        {
            size_t m = buf[0] | buf[1] << 8 | buf[2] << 16;
            uint8_t* before = static_cast<uint8_t*>(malloc(m ? m : 1));
            memcpy(before, buf + 3, m);
            uint8_t* after = static_cast<uint8_t*>(malloc(n - m - 3));
            memcpy(after, buf + 3 + m, n - m - 3);
            table[idx]->decode(e, after, n - m - 3, what, before, m);
            free(before);
            free(after);
        }
        else table[idx]->decode(e, buf, n, what);
        free(buf);
        putchar('\n');
        fflush(stdout);
    }
    return 0;
}
"""


def again(before, data):
    """Payload of the driver's operation decoding into a used object."""
    return len(before).to_bytes(3, "little") + before + data


def feed(info, t, v):
    """The value as the driver's build operation reads it."""
    r = info.resolved(t)
    d = info.defs.get(r)
    if d is None or d["k"] == "enum":
        return bytes(v)
    if d["k"] == "union":
        m = d["m"][v[0] - 1]
        return bytes(m["v"]) + feed(info, m["t"], v[1])
    out = b""
    for m, x in zip(d["m"], v):
        a, t = m["a"], m["t"]
        if a == "plain":
            if not is_sizer(d["m"], m):
                out += feed(info, t, x)
            continue
        if a != "fix":
            out += len(x).to_bytes(4, "little")
        out += bytes(x) if t == "byte" else b"".join(feed(info, t, e) for e in x)
    return out


def is_sizer(ms, m):
    return any(o["a"] in ("ext", "xlim") and o["s"] == m["name"] for o in ms)


def cname(t):
    return CTYPE.get(t, t)


def gen_get(info, d):
    """C++ text of vp_get for a struct or union."""
    lines = ["static void vp_get(%s& x, Feed& f)" % d["name"], "{"]

    def one(t, expr):
        r = info.resolved(t)
        k = info.kind(t)
        if k == "scalar":
            return "f.num(%s);" % expr
        if k == "enum":
            return "%s = static_cast<%s>(f.u32());" % (expr, r)
        return "vp_get(%s, f);" % expr

    if d["k"] == "union":
        lines.append("    uint32_t d = f.u32();")
        for m in d["m"]:
            disc = schema.disc_of(m)
            lines.append("    if (d == %du) { x.discriminator = %s::discriminator_%s; %s }" % (
                disc, d["name"], m["name"], one(m["t"], "x." + m["name"])))
    else:
        if not d["m"]:
            lines.append("    (void)x; (void)f;")
        for m in d["m"]:
            a, t, n = m["a"], m["t"], m["name"]
            if a == "plain":
                if is_sizer(d["m"], m):
                    continue
                lines.append("    " + one(t, "x." + n))
            elif a == "opt":
                lines.append("    if (f.u32()) { %s v = %s(); %s x.%s = v; }" % (cname(t), cname(t), one(t, "v"), n))
            else:
                if a != "fix":
                    lines.append("    x.%s.resize(f.u32());" % n)
                lines.append("    for (size_t i = 0; i < x.%s.size(); ++i) { %s }" % (n, one(t, "x.%s[i]" % n)))
    lines.append("}")
    return "\n".join(lines) + "\n"


class Unusable(Exception):
    """prophyc or g++ refused a schema meant to be valid."""


class FullDriver(object):
    def __init__(self, program, work, tag, sanitize=True, meter=False, std="c++11", opt="-O0", flags=()):
        self.program = program
        self.info = program.info
        self.dir = os.path.join(work, tag)
        os.makedirs(self.dir)
        self.index = {t: i for i, t in enumerate(program.types)}
        rc, so, se = env.prophyc(["--cpp_full_out", self.dir] + program.put(self.dir, "s"))
        if rc != 0:
            raise Unusable("prophyc: " + (se or so)[-2000:])
        with open(os.path.join(self.dir, "d.cpp"), "w") as f:
            f.write('#include "s.ppf.hpp"\n' + PRELUDE)
            f.write("using namespace prophy::generated;\n")
            for d in program.defs:
                if d["k"] in ("struct", "union"):
                    f.write(gen_get(self.info, d))
            f.write(MAIN)
            for t in program.types:
                f.write("static OpsOf<%s> ops_%s;\n" % (t, t))
            f.write("static Ops* table[] = { %s };\n" % ", ".join("&ops_%s" % t for t in program.types))
            f.write(TAIL)
        self.exe = os.path.join(self.dir, "d")
        extra_flags = flags
        flags = ["-g0", opt, "-std=" + std, "-I" + INCLUDE, "-I" + self.dir] + WARN + \
            (SAN if sanitize else []) + (["-DVP_METER"] if meter else []) + list(extra_flags)
        gen_o, drv_o = os.path.join(self.dir, "g.o"), os.path.join(self.dir, "d.o")
        extra = ["-Wno-unused-function", "-Wno-unused-variable", "-Wno-unused-const-variable"]
        ps = [subprocess.Popen(["g++"] + flags + ["-c", os.path.join(self.dir, "s.ppf.cpp"), "-o", gen_o],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT),
              subprocess.Popen(["g++"] + flags + extra + ["-c", os.path.join(self.dir, "d.cpp"), "-o", drv_o],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)]
        outs = [p.communicate()[0].decode("utf-8", "replace") for p in ps]
        if any(p.returncode for p in ps):
            raise Unusable("g++: " + "\n".join(outs)[:3000])
        rc, so, se = env.run(["g++"] + (SAN if sanitize else []) + [gen_o, drv_o, "-o", self.exe])
        if rc:
            raise Unusable("link: " + (so + se)[:3000])

    def run(self, requests, timeout=60, crashes=12):
        """requests: list of (type, op, endianness, what, bytes) -> list of replies (list of fields or
        ("crash", text))."""
        lines = [("%d %s %s %s x%s\n" % (self.index[t], op, e, what or "-", data.hex())).encode()
                 for t, op, e, what, data in requests]
        out = []
        e = env.child_env(ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=66:max_allocation_size_mb=2048",
                          UBSAN_OPTIONS="print_stacktrace=0")
        e.pop("LD_PRELOAD", None)
        bad = 0
        while len(out) < len(lines) and bad < crashes:
            try:
                p = subprocess.run([self.exe], input=b"".join(lines[len(out):]), stdout=subprocess.PIPE,
                                   stderr=subprocess.PIPE, timeout=timeout, env=e)
                so, se, rc = p.stdout, p.stderr, p.returncode
            except subprocess.TimeoutExpired as x:
                so, se, rc = x.stdout or b"", b"TIMEOUT", -1
            got = so.decode("latin-1").split("\n")[:-1]
            out.extend(g.split() for g in got)
            if len(out) < len(lines):
                if rc == 0 or rc == 99:
                    raise env.MachineryError("driver stopped early (rc %s)" % rc)
                text = se.decode("utf-8", "replace")
                bad += crashes if rc in (-1, "timeout") else 1
                out.append(("crash", "\n".join(x for x in text.splitlines() if "ERROR" in x or "runtime error" in x or
                                               "ALLOCATION" in x or x == "TIMEOUT")[:600] or "rc %s" % rc))
        return out


def unhex(s):
    return list(bytes.fromhex(s[1:]))
