"""C13: prophyc ends with outputs or with a diagnostic."""
import contextlib
import io
import json
import os
import random
import re
import subprocess
import traceback

from .. import check, corrupt, env, gen, guard, headers, isar, legal, schema, tlc

SECONDS = 40
TARGETS = {"python": ("--python_out", ("%s.py",)), "cpp": ("--cpp_out", ("%s.pp.hpp", "%s.pp.cpp")),
           "cpp_full": ("--cpp_full_out", ("%s.ppf.hpp", "%s.ppf.cpp")), "prophy": ("--prophy_out", ("%s.prophy",)),
           "void": ("--void_out", ())}


class Case(object):
    """files: {name: text or bytes}; args: command line without outputs; stems: inputs whose outputs are due."""

    def __init__(self, mode, files, inputs, targets, args=(), want="", option=False, due=True, spot=None):
        self.spot = spot        # what has to be named: (file, line, column)
        self.mode, self.files, self.inputs, self.targets = mode, files, list(inputs), list(targets)
        self.args, self.want, self.option, self.due = list(args), want, option, due

    def command(self, targets=None):
        out = list(self.args)
        for t in self.targets if targets is None else targets:
            out += [TARGETS[t][0]] + (["out/" + t] if t != "void" else [])
        if self.mode in ("isar", "sack"):
            out.append("--" + self.mode)
        return out + self.inputs

    def put(self, work):
        for t in self.targets:
            os.makedirs(os.path.join(work, "out", t))
        for name, text in self.files.items():
            path = os.path.join(work, name)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "wb") as f:
                f.write(text if isinstance(text, bytes) else text.encode("utf-8", "surrogatepass"))

    def wrote(self, work):
        if not self.due:
            return []
        return [int(os.path.isfile(os.path.join(work, "out", t, n % os.path.splitext(os.path.basename(i))[0])))
                for i in self.inputs for t in self.targets for n in TARGETS[t][1]]

    def replay(self, note):
        return {"command": self.command(), "files": {k: (v if isinstance(v, str) else repr(v))[:4000] for k, v in self.files.items()},
                "outcome": note}


def call(args):
    """(how, message): done, refused, usage or internal."""
    env.use_repo()
    import prophyc
    with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
        try:
            prophyc.main(args)
            return "done", ""
        except prophyc.ProphycError as e:
            return "refused", str(e)
        except SystemExit as e:
            if "--help" in args or "-h" in args:
                return "usage", ""
            return "internal", "SystemExit: %s" % (e,)
        except (KeyboardInterrupt, GeneratorExit):
            raise
        except BaseException as e:
            at = traceback.extract_tb(e.__traceback__)[-1]
            return "internal", "%s: %s (%s:%s)" % (type(e).__name__, str(e)[:300], os.path.basename(at.filename), at.name)


LINE = re.compile(r"(?:prophyc: error: )?(.+?):(\d+):(\d+): error: .+", re.S)


def located(message):
    """Every diagnostic of a refused text names a place in a file."""
    first = True
    for line in message.split("\n"):
        m = LINE.match(line)
        if m and os.path.isfile(m.group(1)):
            with open(m.group(1), "rb") as f:
                n = len(re.split(b"\r\n|\r|\n", f.read()))
            if not (1 <= int(m.group(2)) <= n and int(m.group(3)) >= 1):
                return False
        elif first:
            return False
        first = False
    return True


def decodable(files):
    for text in files.values():
        try:
            text.decode("utf-8") if isinstance(text, bytes) else text.encode("utf-8")
        except UnicodeError:
            return False
    return True


def run(case):
    work = env.scratch("run")
    cwd = os.getcwd()
    try:
        case.put(work)
        os.chdir(work)
        how, message = call(case.command())
        place = 2
        if how == "refused" and case.mode == "prophy" and not case.option and not located(message):
            place = 0
            if not decodable(case.files):
                place = 2
            elif case.targets != ["void"] and call(case.command(["void"]))[0] == "done":
                place = 2
        if how == "refused" and case.spot:
            place = int(any("%s:%d:%d: error: " % case.spot in line for line in message.split("\n")))
        wrote = case.wrote(work) if how == "done" else []
        return {"how": how, "text": int(bool(re.match(r"prophyc: error: .", message))), "located": place, "wrote": wrote,
                "want": case.want}, message
    finally:
        os.chdir(cwd)
        env.drop(work)


def run_entry(case):
    """The same through python -m prophyc."""
    work = env.scratch("run")
    try:
        case.put(work)
        try:
            rc, so, se = env.prophyc(case.command(), cwd=work, timeout=SECONDS * 2)
        except subprocess.TimeoutExpired:
            return {"how": "hangs", "text": 0, "located": 2, "wrote": [], "want": case.want}, "hangs"
        last = "" if rc == 0 else se
        if rc == 0:
            how = "done"
        elif rc == 1 and "prophyc: error: " in se and "Traceback" not in se:
            how = "refused"
        else:
            how = "internal"
        return {"how": how, "text": int("prophyc: error: " in se), "located": 2, "wrote": case.wrote(work) if rc == 0 else [],
                "want": case.want}, last[-600:]
    finally:
        env.drop(work)


# ------------------------------------------------------------ the pipeline
GOOD = """\
const K = 2;
enum E { E_a = 1, E_b = K };
struct Target { u8 a; u16 b[K]; E c; };
union U { 1: Target t; 2: u8 n; };
"""
PROPHY = {
    "good": GOOD,
    "blank": "",
    "comment": "// nothing\n",
    "lambda": "struct Target { u8 a; };\nconst lambda = 1;",
    "template": "struct Target { u8 a; u8 template; };",
    "shared": "struct Target { u8 a; u8 x<@a>; u8 y<@a>; };",
    "includes": '#include "good_{n}.prophy"\nstruct Target { Inner_{n} a; };',
    "nested": '#include "dir/{n}/mid_{n}.prophy"\nstruct Target { u8 a; Mid_{n} m; };',
    "character": "struct Target { u8 $a; };",
    "syntax": "struct Target { u8 a; ",
    "unknown": "struct Target { u8 a; Nowhere b; };",
    "self": "struct Target { u8 a; Target b; };",
    "later": "struct Target { u8 a; Other b; };\nstruct Other { Target t; };",
    "again": "struct Target { u8 a; };\nstruct Target { u8 a; };",
    "fieldtwice": "struct Target { u8 a; u8 a; };",
    "zero": "const Z = 1 / 0;\nstruct Target { u8 a; };",
    "shift": "const Z = 1 << 99999999999;\nstruct Target { u8 a; };",
    "size": "struct Target { u8 a; u8 b[-1]; };",
    "greedy": "struct Target { u8 a; u8 g<...>; u8 z; };",
    "missing": '#include "nowhere.prophy"\nstruct Target { u8 a; };',
    "cyclic": '#include "cycle_{n}.prophy"\nstruct Target { u8 a; };',
    "itself": '#include "in{n}.prophy"\nstruct Target { u8 a; };',
    "badinclude": '#include "bad_{n}.prophy"\nstruct Target { u8 a; };',
    "badnested": '#include "dir/{n}/badmid_{n}.prophy"\nstruct Target { u8 a; };',
    "undecodable": b"struct Target { u8 a; };\n// \xff\xfe\n",
    "undecodableinclude": '#include "raw_{n}.prophy"\nstruct Target { u8 a; };',
    "directory": '#include "dir"\nstruct Target { u8 a; };',
}
PROPHY_AUX = {
    "good_{n}.prophy": "struct Inner_{n} { u8 a; };",
    "dir/{n}/mid_{n}.prophy": '#include "low_{n}.prophy"\nstruct Mid_{n} { Low_{n} a; };',
    "dir/{n}/low_{n}.prophy": "struct Low_{n} { u8 a; };",
    "dir/{n}/badmid_{n}.prophy": '#include "badlow_{n}.prophy"\nstruct Mid_{n} { Low_{n} a; };',
    "dir/{n}/badlow_{n}.prophy": "struct Low_{n} { Nope a; };",
    "cycle_{n}.prophy": '#include "in{n}.prophy"\nstruct C_{n} { u8 a; };',
    "bad_{n}.prophy": "struct Bad_{n} { Nope a; };",
    "raw_{n}.prophy": b"// \xff\n",
}
ISAR_GOOD = ('<x><constant name="K" value="2"/><enum name="E"><enum-member name="E_a" value="1"/></enum>'
             '<struct name="Target"><member name="a" type="u8"/><member name="b" type="u16"><dimension size="K"/></member></struct></x>')
TARGET = '<struct name="Target"><member name="a" type="u8"/></struct>'
ISAR = {
    "good": ISAR_GOOD,
    "blank": "<x/>",
    "includes": '<x><xi:include xmlns:xi="http://www.w3.org/2001/XInclude" href="good_{n}.xml"/>'
                '<struct name="Target"><member name="a" type="u8"/><member name="b" type="Inner_{n}"/></struct></x>',
    "lambda": '<x><constant name="lambda" value="1"/>' + TARGET + "</x>",
    "missing": '<x><inc href="nowhere.xml"/>' + TARGET + "</x>",
    "cyclic": '<x><inc href="cycle_{n}.xml"/>' + TARGET + "</x>",
    "itself": '<x><inc href="in{n}.xml"/>' + TARGET + "</x>",
    "empty": "", "malformed": "<x><struct name='Target'></x>", "entity": "<x>&nope;</x>",
    "encoding": '<?xml version="1.0" encoding="nonesuch"?><x>' + TARGET + "</x>",
    "undecodable": b"<x>\xff" + TARGET.encode() + b"</x>",
    "noname": '<x><struct><member name="a" type="u8"/></struct></x>',
    "notype": '<x><struct name="Target"><member name="a"/></struct></x>',
    "novalue": '<x><constant name="A"/>' + TARGET + "</x>",
    "nodisc": '<x><union name="U"><member name="a" type="u8"/></union>' + TARGET + "</x>",
    "primitive": '<x><typedef name="T" primitiveType="9 bit"/>' + TARGET + "</x>",
    "self": '<x><struct name="Target"><member name="a" type="u8"/><member name="b" type="Target"/></struct></x>',
    "mutual": '<x><struct name="Target"><member name="a" type="u8"/><member name="b" type="B"/></struct><struct name="B"><member name="a" type="Target"/></struct></x>',
    "typedefs": '<x><typedef name="A" type="B"/><typedef name="B" type="A"/>' + TARGET + "</x>",
    "round": '<x><struct name="Target"><member name="a" type="u8"/><member name="b" type="T"/></struct><typedef name="T" type="Target"/></x>',
    "constants": '<x><constant name="A" value="B"/><constant name="B" value="A"/><struct name="Target"><member name="a" type="u8"/>'
                 '<member name="b" type="u8"><dimension size="A"/></member></struct></x>',
    "duplicate": '<x><enum name="E"><enum-member name="a" value="1"/><enum-member name="b" value="1"/></enum>' + TARGET + "</x>",
    "badinclude": '<x><inc href="bad_{n}.xml"/>' + TARGET + "</x>",
}
ISAR["missing"], ISAR["cyclic"], ISAR["itself"], ISAR["badinclude"] = (
    ISAR[k].replace("<inc ", '<xi:include xmlns:xi="http://www.w3.org/2001/XInclude" ') for k in ("missing", "cyclic", "itself", "badinclude"))
ISAR_AUX = {
    "good_{n}.xml": '<x><struct name="Inner_{n}"><member name="a" type="u8"/></struct></x>',
    "cycle_{n}.xml": '<x><xi:include xmlns:xi="http://www.w3.org/2001/XInclude" href="in{n}.xml"/></x>',
    "bad_{n}.xml": "<x>",
}
SACK = {
    "good": "#include <stdint.h>\nenum E { E_a = 1 };\nstruct Target { uint8_t a; uint16_t b[2]; E c; };\n",
    "blank": "",
    "union": "#include <stdint.h>\nunion U { uint8_t a; uint32_t b; };\nstruct Target { uint8_t a; U b; };\n",
    "pointers": "struct Node { Node* next; int a; };\nstruct Target { unsigned a; Node* n; };\n",
    "syntax": "struct Target { unsigned a; \n",
    "unknown": "struct Target { unsigned a; Nowhere b; };\n",
    "includes": '#include "good_{n}.hpp"\nstruct Target { unsigned a; Inner_{n} b; };\n',
    "lambda": "struct Target { unsigned a; int lambda; };\n",
    "undecodable": b"// \xff\nstruct Target { unsigned a; };\n",
    "self": "struct Target { unsigned a; Target b; };\n",
    "mutual": "struct Target; struct B { Target t; }; struct Target { unsigned a; B b; };\n",
    "int128": "struct Target { unsigned a; __int128 b; };\n",
    "reference": "struct Target { unsigned a; int& b; };\n",
    "longdouble": "struct Target { unsigned a; long double b; };\n",
    "char16": "struct Target { unsigned a; char16_t b; wchar_t c; };\n",
    "member": "struct Target { unsigned a; int Target::* b; };\n",
}
SACK.update(headers.HEADERS)
SACK_AUX = {"good_{n}.hpp": "struct Inner_{n} { int a; };\n"}
LANGUAGES = {
    "prophy": dict(ext="prophy", kinds=PROPHY, aux=PROPHY_AUX, fine=["good", "blank", "comment", "lambda", "template", "shared", "includes", "nested"],
                   blank=["blank", "comment"],
                   cannot=[("lambda", "python"), ("template", "cpp"), ("template", "cpp_full"), ("shared", "cpp_full")]),
    "isar": dict(ext="xml", kinds=ISAR, aux=ISAR_AUX, fine=["good", "blank", "includes", "lambda", "missing", "cyclic", "itself"], blank=["blank"],
                 cannot=[("lambda", "python")]),
    "sack": dict(ext="hpp", kinds=SACK, aux=SACK_AUX, fine=[], blank=["blank"], cannot=[]),
}
BAD_OPTIONS = ["unknown", "both", "nodir", "noarg", "nofile", "dirfile", "nopatch", "isardefs", "incdir", "filedir"]
PATCHES = {"": None, "fits": "Target type a u32\nNowhere type a u32\n", "misfits": "Target remove nothing\n", "short": "Target\n",
           "undecodable": b"Target \xff type a u32\n"}


def number(text, n):
    return text if isinstance(text, bytes) else text.replace("{n}", str(n))


def arranged(mode, conf, result):
    """A finished run of the model as a case."""
    lang = LANGUAGES[mode]
    files, inputs = {"dir/x.txt": ""}, []
    for n, kind in enumerate(conf["files"]):
        for name, text in lang["aux"].items():
            files[number(name, n)] = number(text, n)
        name = "in%d.%s" % (n, lang["ext"])
        files[name] = number(lang["kinds"][kind], n)
        inputs.append(name)
    args, opt = [], conf["opt"]
    if opt == "version":
        args.append("--version")
    elif opt == "unknown":
        args.append("--nonesuch")
    elif opt == "both":
        args += ["--isar", "--sack"]
    elif opt == "nodir":
        args += ["--python_out", "nowhere"]
    elif opt == "noarg":
        inputs.append("--cpp_out")
    elif opt == "nofile":
        inputs.append("nowhere." + lang["ext"])
    elif opt == "dirfile":
        inputs.append("dir")
    elif opt == "nopatch":
        args += ["-p", "nowhere.patch"]
    elif opt == "isardefs":
        args += ["-S", "dir/x.txt"]
    elif opt == "incdir":
        args += ["-I", "nowhere"]
    elif opt == "filedir":
        args += ["--cpp_full_out", "dir/x.txt"]
    if conf["patch"]:
        files["p.patch"] = PATCHES[conf["patch"]]
        args += ["--patch", "p.patch"]
    located = conf["files"] and not opt and not conf["patch"] and conf["outs"]
    return Case(mode, files, inputs, conf["outs"], args, want=result, option=not located, due=opt == "")


def pipeline(c, mode, work):
    lang = LANGUAGES[mode]
    lib = {"fine": lang["fine"], "blank": lang["blank"], "files": sorted(lang["kinds"]), "outs": sorted(TARGETS),
           "cannot": [{"f": f, "t": t} for f, t in lang["cannot"]],
           "opts": ["", "version"] + [o for o in BAD_OPTIONS if not (mode == "sack" and o == "isardefs")], "patches": sorted(PATCHES)}
    path = os.path.join(work, "lib-%s.json" % mode)
    with open(path, "w") as f:
        json.dump(lib, f)
    res = tlc.model("MCPipeline", LIB=path, PRINT="1")
    c.add_model(res)
    out = []
    for line in re.findall(r'^<<"RUN", "(.*)">>$', res["out"], re.M):
        b = json.loads(line.encode().decode("unicode_escape"))
        out.append(arranged(mode, b["conf"], b["result"]))
    if len(out) < 200:
        raise env.MachineryError("MCPipeline %s: only %d runs" % (mode, len(out)))
    return out


# -------------------------------------------------------------- corruption
def targets_of(rng):
    r = rng.random()
    if r < 0.5:
        return rng.sample(["python", "cpp", "cpp_full", "prophy"], rng.choice([1, 1, 2]))
    return ["python", "cpp", "cpp_full", "prophy"] if r < 0.7 else ["void"]


def valid_defs(rng):
    return gen.SchemaGen(rng).schema(rng.randint(1, 6), "P")


def prophy_case(seed):
    rng = random.Random("prophy/%s" % seed)
    r = rng.random()
    files = {}
    if r < 0.12:
        files = {"m.prophy": corrupt.random_text(rng)}
    elif r < 0.55:
        files = {"m.prophy": corrupt.damage_text(rng, legal.text_of(rng, valid_defs(rng)), rng.choice([1, 1, 1, 2, 3, 6]))}
    elif r < 0.65:
        files = {"m.prophy": corrupt.damage_bytes(rng, legal.text_of(rng, valid_defs(rng)).encode("utf-8"))}
    elif r < 0.8:
        files = {"m.prophy": legal.text_of(rng, legal.edited(rng, valid_defs(rng))[1])}
    else:
        parts = legal.chain(rng, valid_defs(rng) + valid_defs(random.Random(rng.random())), rng.choice([2, 3]))
        files = dict(parts)
        name = rng.choice(sorted(files))
        op = rng.randrange(4)
        if op == 0:
            files[name] = corrupt.damage_text(rng, files[name], rng.choice([1, 1, 3]))
        elif op == 1:
            files[name] = '#include "%s"\n' % rng.choice(sorted(files)) + files[name]
        elif op == 2 and len(files) > 1:
            del files[name]
        else:
            files[name] = files[name].replace(".prophy", rng.choice(["", ".xml", "/x", "\\", "x.prophy"]))
        inputs = [n for n in sorted(files) if rng.random() < 0.5] or [sorted(files)[-1]]
        return Case("prophy", files, inputs, targets_of(rng), ["--quiet"] if rng.random() < 0.1 else [])
    args = []
    if rng.random() < 0.15:
        names = corrupt.tokens(files["m.prophy"]) if isinstance(files["m.prophy"], str) else ["x"]
        names = [n for n in names if re.match(r"[A-Za-z_]\w*$", n)] or ["x"]
        files["p.patch"] = corrupt.damage_patch(rng, [], names)
        args = ["-p", "p.patch"]
    case = Case("prophy", files, ["m.prophy"], targets_of(rng), args)
    case.option = bool(args)
    return case


def isar_text(rng):
    defs = valid_defs(rng)
    rd = isar.Renderer(rng, rng.random() < 0.5)
    rd.render(defs)
    names = [d["name"] for d in defs] + [m["name"] for d in defs for m in d["m"]]
    return rd.xml, rd.patch, names


def isar_case(seed):
    rng = random.Random("isar/%s" % seed)
    xml, patch, names = isar_text(rng)
    r = rng.random()
    files, args = {}, []
    inputs = ["m.xml"]
    if r < 0.55:
        files["m.xml"] = corrupt.damage_xml(rng, xml, rng.choice([1, 1, 1, 2, 3, 6]))
    elif r < 0.65:
        files["m.xml"] = corrupt.damage_text(rng, xml, rng.choice([1, 2]))
    elif r < 0.7:
        files["m.xml"] = corrupt.damage_bytes(rng, xml.encode("utf-8"))
    elif r < 0.8:
        files["m.xml"] = xml
        inc = '<xi:include xmlns:xi="http://www.w3.org/2001/XInclude" href="%s"/>'
        root = re.match(r"(?s)(.*?<\w+[^>/]*>)(.*)$", xml)
        if root:
            files["m.xml"] = root.group(1) + inc % rng.choice(["f.xml", "nowhere.xml", "m.xml", ""]) + root.group(2)
        other = isar_text(random.Random("%s/f" % seed))[0]
        files["f.xml"] = rng.choice([other, corrupt.damage_xml(rng, other, 1), "<x>", "<x>%s</x>" % (inc % "m.xml"), ""])
        if rng.random() < 0.3:
            inputs.append("f.xml")
            inputs.reverse() if rng.random() < 0.5 else None
    else:
        files["m.xml"] = xml
    if patch or r >= 0.8:
        text = patch if r < 0.8 and rng.random() < 0.7 else corrupt.damage_patch(rng, patch.splitlines(), names)
        files["p.patch"] = text
        args = ["-p", "p.patch"]
    return Case("isar", files, inputs, targets_of(rng), args)


CPP_TYPES = ["int", "unsigned", "char", "signed char", "long", "long long", "unsigned short", "float", "double", "bool", "void*", "uint8_t",
             "E", "In", "Un", "Td", "In*", "int&", "long double", "__int128", "char16_t", "wchar_t", "Nowhere", "struct In", "Target",
             "Tmpl<int>", "decltype(nullptr)", "auto", "void", "int (*)(int)", "const In", "volatile int", "Cl", "Ns::In", "EC", "Arr", "_Complex float"]


def sack_text(rng):
    base = ["#include <stdint.h>", "enum E { E_a = %s, E_b };" % rng.choice(["0", "-1", "1 << 31", "4294967295u", "1LL << 40"]),
            "struct In { int a; unsigned char b[%s]; };" % rng.choice(["1", "3", "0", ""]),
            "union Un { int a; In b; };", "typedef In Td;", "typedef int Arr[3];", "template <class T> struct Tmpl { T a; };",
            "class Cl { int a; public: int b; };", "namespace Ns { struct In { short a; }; }", "enum class EC : %s { a = 1 };" % rng.choice(["char", "int", "long"])]
    fields = []
    for n in range(rng.randrange(1, 5)):
        t = rng.choice(CPP_TYPES)
        dim = rng.choice(["", "", "", "[2]", "[0]", "[]", "[2][3]", " : 3", "[1 << 20]", "[-1]", "[x]"])
        if "(*)" in t:
            fields.append("int (*f%d)(int);" % n)
        else:
            fields.append("%s f%d%s;" % (t, n, dim))
    if rng.random() < 0.3:
        fields.append(rng.choice(["struct { int x; } anon;", "union { int x; float y; };", "enum { P, Q } e;", "static int s;", "void f();",
                                  "struct Nest { int n; } nest;", "int;", "friend class X;", "struct Inner; Inner* p;"]))
    base.append("struct Target%s { %s };" % (rng.choice(["", "", " : In", " : Nowhere"]), " ".join(fields)))
    if rng.random() < 0.2:
        base.append(rng.choice(['extern "C" { struct Ext { int a; }; }', "struct Target { int b; };", "struct Fwd;", "struct;", "struct Empty {};",
                                "union Top { int a; };", "typedef struct { int a; } Anon; struct UsesAnon { Anon a; };"]))
    return "\n".join(base) + "\n"


def sack_case(seed):
    rng = random.Random("sack/%s" % seed)
    text = sack_text(rng)
    if rng.random() < 0.4:
        text = corrupt.damage_text(rng, text, rng.choice([1, 1, 2, 4]))
    files, args = {"m.hpp": text}, []
    if rng.random() < 0.2:
        xml = isar_text(rng)[0]
        files["d.xml"] = corrupt.damage_xml(rng, xml, 1) if rng.random() < 0.4 else xml
        args += ["-S", "d.xml"]
    if rng.random() < 0.2:
        files["p.patch"] = corrupt.damage_patch(rng, [], ["Target", "In", "E", "Un", "f0", "f1", "a", "b"])
        args += ["-p", "p.patch"]
    return Case("sack", files, ["m.hpp"], targets_of(rng), args)


def option_case(seed):
    """Any options in any order."""
    rng = random.Random("option/%s" % seed)
    files = {"m.prophy": GOOD, "n.prophy": "struct N { u8 a; };", "m.xml": ISAR_GOOD, "m.hpp": SACK["good"], "p.patch": PATCHES["fits"], "q.patch": "x\n",
             "dir/e.prophy": "struct Q { u8 a; };", "e.txt": "", "o/x": ""}
    words = ["--isar", "--sack", "-I", "--include_dir", "-S", "--include_isar", "-p", "--patch", "--python_out", "--prophy_out", "--cpp_out",
             "--cpp_full_out", "--void_out", "--version", "--quiet", "--python", "--cpp", "--", "-", "-x", "--out", "-h", "--help",
             "m.prophy", "n.prophy", "m.xml", "m.hpp", "p.patch", "q.patch", "dir/e.prophy", "dir", "o", ".", "nowhere", "", "e.txt", "--isar=1",
             "--python_out=o", "--cpp_out=nowhere", "-Idir", "-I=dir", "--patch=p.patch", "m.prophy", "--python_out=o", "--cpp_full_out=o", "@m.prophy"]
    args = [rng.choice(words) for _ in range(rng.randrange(0, 6))]
    if rng.random() < 0.5:
        args += ["--%s_out" % rng.choice(["python", "cpp", "cpp_full", "prophy"]), "o", "m.prophy"]
    return Case("options", files, args, [], option=True, due=False)


# definitions with one token nothing is right about
WRONG = ["struct Zz { @Nope a ; } ;", "typedef @Nope Zz ;", "const Zz = @NOPE ;", "const Zz = 1 + @NOPE * 2 ;", "struct Zz { u8 a [ @NOPE ] ; } ;",
         "enum Zz { Zz_1 = @NOPE } ;", "union Zz { 1 : @Nope a ; } ;", "struct Zz { u8 a ; u8 @a ; } ;", "const Zz = 1 ; const @Zz = 2 ;",
         "enum Zz { Zz_1 = 1 , @Zz_1 = 2 } ;", "union Zz { 1 : u8 a ; 2 : u8 @a ; } ;", "struct Zz { u8 a @} ;", "struct Zz { u8 a ; } @struct",
         "struct Zz { u8 a [ @0 ] ; } ;", "enum Zz { Zz_1 = @4294967296 } ;", "union Zz { @4294967296 : u8 a ; } ;", "typedef u8 Zz ; struct @Zz { u8 a ; } ;",
         "struct Zz { u8 a ; @Zz b ; } ;", "struct @Last { u8 a ; } ;", "enum Zz { @Last_a = 1 } ;",
         "struct Zz { u8 a ; u8 @a [ 2 ] ; } ;", "struct Zz { u8 a ; bytes @a [ 2 ] ; } ;", "struct Zz { u8 a ; u16 @a < > ; } ;",
         "struct Zz { u8 a ; u16 @a < 3 > ; } ;", "struct Zz { u8 a ; u16 @a < ... > ; } ;", "struct Zz { u8 a ; u16 * @a ; } ;",
         "struct Zz { u8 n ; u8 a ; bytes @a < @ n > ; } ;", "struct Zz { bytes @a < @ n > ; } ;", "struct Zz { u16 @a < @ n > ; u8 n ; } ;",
         "struct Zz { float n ; u8 @a < @ n > ; } ;", "struct Zz { u8 * n ; u8 @a < @ n > ; } ;", "struct Zz { u8 n [ 2 ] ; u8 @a < @ n > ; } ;",
         "struct Zz { u8 @a < ... > ; u8 b ; } ;", "struct Zz { bytes @a < ... > ; u8 b ; u8 c ; } ;", "struct Zz { u32 b ; bytes a < @ b > ; u8 @b ; } ;",
         "struct Zy { u8 a < > ; } ; struct Zz { Zy @a [ 2 ] ; } ;", "struct Zy { u8 a < > ; } ; struct Zz { Zy * @a ; } ;",
         "struct Zy { u8 a < > ; } ; struct Zz { u8 b ; Zy @a < 2 > ; } ;", "struct Zy { u8 a < > ; } ; union Zz { 1 : u8 b ; 2 : Zy @a ; } ;",
         "struct Zy { u8 a < ... > ; } ; struct Zz { Zy @a ; u8 b ; } ;", "struct Zy { u8 a < ... > ; } ; struct Zz { u8 b ; Zy @a < > ; } ;",
         "union Zz { 1 : u8 a ; 1 : u8 @b ; } ;", "union Zz { 1 : u8 a ; 2 : u8 b ; 4 / 4 : u8 @c ; } ;", "struct Zz { u8 a < @0 > ; } ;",
         "struct Zz { u8 a [ @- 1 ] ; } ;", "struct Zz { u8 a [ @( 1 - 1 ) * 2 ] ; } ;", "struct Zz { u8 a [ @1 / 0 ] ; } ;",
         "const Zz = 2 * ( @1 / 0 ) ;", "const Zz = @18446744073709551616 ;", "enum Zz { Zz_1 = 1 , Zz_2 = @- 4294967297 } ;",
         "union Zz { @- 1 : u8 a ; } ;", "const Zz = 1 @1 ;", "typedef u8 @; ", "enum Zz { @} ;", "struct Zz { @} ;", "union Zz { 1 : @bytes a ; } ;",
         "struct Zz { u8 a < @ @3 > ; } ;", "enum Zz { Zz_1 = 1 @; } ;", "struct Zz { u8 a [ @] ; } ;", "struct Zz { bytes a @; } ;"]


def spot_case(seed):
    """A stray character or wrong token among tokens, blanks and comments of a valid text: its place is to be named."""
    rng = random.Random("spot/%s" % seed)
    files = dict(legal.chain(rng, valid_defs(rng) + [schema.enum("LastE", [schema.enumerator("Last_a", 1)]), schema.struct("Last", [schema.member("a", "u8")])], rng.choice([1, 1, 2, 3])))
    name = rng.choice(sorted(files))
    tokens = re.findall(r"#include[^\n]*\n|\w+|<<|>>|\.\.\.|\S", files[name])
    heads = sum(t.startswith("#") for t in tokens)
    at = rng.randrange(heads, len(tokens))
    wrong = rng.random() < 0.5
    if wrong:
        # between definitions, or after all of them when it refers to them
        depth, tops = 0, [heads]
        for k, t in enumerate(tokens):
            depth += (t == "{") - (t == "}")
            if t == ";" and not depth:
                tops.append(k + 1)
        insert = rng.choice([w for w in WRONG if "Last" not in w or {"Last", "Last_a"} <= set(tokens)])
        top = len(tokens) if "Last" in insert else rng.choice(tops)
        tokens[top:top] = insert.split()
        at = next(k for k, t in enumerate(tokens) if t.startswith("@") and len(t) > 1)
        tokens[at] = tokens[at][1:]
    fill = [" ", " ", "\n", "\t", "\n\n", "  ", "// a $ b\n", "/* a */", "/* a\n$ */", "/*\n\n*/ ", "//\n", " \r\n", "/***/",
            "/* page\f break \v */", "// \x1c \x1d\n", "/* \x85\u2028\n\u2029 \u00e9 */", "/* \u6f22 \U0001f600 */", "/* // */", "// /*\n",
            "/* \" ' ** / */", "// \\\n", "//" + 300 * "long " + "\n"]
    out = ""
    for k, t in enumerate(tokens):
        out += rng.choice(fill)
        if k == at:
            spot = (name, out.count("\n") + 1, len(out) - (out.rfind("\n") + 1) + 1)
            out += "" if wrong else rng.choice("$%^&~`?!") + rng.choice(fill)
        out += t + (" " if t == "/" else "")
    files[name] = out + "\n"
    return Case("prophy", files, [sorted(files)[-1]], targets_of(rng), want="refused", spot=spot)


def include_case(seed):
    """Files including each other in any way."""
    rng = random.Random("include/%s" % seed)
    n = rng.randint(1, 5)
    lang = rng.choice(["prophy", "prophy", "isar"])
    ext = {"prophy": "prophy", "isar": "xml"}[lang]
    names = ["%sf%d.%s" % (rng.choice(["", "", "d/"]), i, ext) for i in range(n)]
    files = {}
    for i, name in enumerate(names):
        incs = [rng.choice(names + ["nowhere." + ext, "../f0." + ext, "d/../f0." + ext, "./f0." + ext]) for _ in range(rng.choice([0, 1, 1, 2]))]
        incs = [x if rng.random() < 0.6 else os.path.basename(x) for x in incs]
        if lang == "prophy":
            files[name] = "".join('#include "%s"\n' % x for x in incs) + "struct S%d { u8 a; };\n" % i
        else:
            files[name] = '<x xmlns:xi="http://www.w3.org/2001/XInclude">' + "".join('<xi:include href="%s"/>' % x for x in incs) + \
                          '<struct name="S%d"><member name="a" type="u8"/></struct></x>' % i
    inputs = rng.sample(names, rng.randint(1, len(names)))
    args = ["-I", "d"] if rng.random() < 0.4 else []
    files["d/x"] = ""
    return Case(lang, files, inputs, targets_of(rng), args)


def graph_case(seed):
    """isar definitions referring to each other in any way, cycles included."""
    rng = random.Random("graph/%s" % seed)
    n = rng.randint(2, 9)
    kinds = [rng.choice(["struct", "union", "typedef", "constant", "enum", "message"]) for _ in range(n)]
    types = [i for i in range(n) if kinds[i] in ("struct", "union", "typedef", "enum", "message")]
    values = [i for i in range(n) if kinds[i] in ("constant", "enum")]
    order = list(range(n))
    rng.shuffle(order)
    rank = {k: p for p, k in enumerate(order)}
    back = rng.choice([0.0, 0.1, 0.5])

    def pick(i, among, default):
        if not among or rng.random() < 0.3:
            return default
        k = rng.choice(among)
        if rank[k] >= rank[i] and rng.random() > back:
            return default
        return ("D%d" if among is types else "D%d" if kinds[k] == "constant" else "D%d_e") % k

    out = []
    for i in range(n):
        name, k = "D%d" % i, kinds[i]
        if k == "constant":
            out.append(isar.element(k, [("name", name), ("value", pick(i, values, "3") + rng.choice(["", " + 1", " * 2"]))]))
        elif k == "enum":
            out.append(isar.element(k, [("name", name)], isar.element("enum-member", [("name", name + "_e"), ("value", pick(i, values, "4"))])))
        elif k == "typedef":
            out.append(isar.element(k, [("name", name), ("type", pick(i, types, "u8"))]))
        elif k == "union":
            out.append(isar.element(k, [("name", name)], "".join(
                isar.element("member", [("name", "a%d" % j), ("type", pick(i, types, "u16")), ("discriminatorValue", str(j + 5) if j else pick(i, values, "5"))])
                for j in range(rng.randint(1, 2)))))
        else:
            ms = []
            for j in range(rng.randint(1, 3)):
                dim = rng.choice(["", "", isar.element("dimension", [("size", pick(i, values, "2"))]),
                                  isar.element("dimension", [("isVariableSize", "true"), ("size", pick(i, values, "2"))])])
                ms.append(isar.element("member", [("name", "a%d" % j), ("type", pick(i, types, "u32"))] + ([("optional", "true")] if rng.random() < 0.1 else []), dim))
            out.append(isar.element(k, [("name", name)], "".join(ms)))
    return Case("isar", {"m.xml": "<x>%s</x>" % "".join(out)}, ["m.xml"], targets_of(rng))


def fixed_cases():
    out = []
    rng = random.Random("stress/%s" % env.SEED)
    for n in range(corrupt.STRESSES * (1 if env.TIER == "quick" else 3)):
        out.append(Case("prophy", {"m.prophy": corrupt.stress(rng, n)}, ["m.prophy"], ["python", "cpp", "cpp_full", "prophy"]))
    for n in range(corrupt.ISAR_STRESSES * (1 if env.TIER == "quick" else 3)):
        out.append(Case("isar", {"m.xml": corrupt.isar_stress(rng, n)}, ["m.xml"], ["python", "cpp", "cpp_full", "prophy"]))
    for text in corrupt.RECURSIONS:
        for t in (["python", "cpp", "cpp_full", "prophy"], ["void"]):
            out.append(Case("isar", {"m.xml": text}, ["m.xml"], t))
    return out


MAKERS = [(prophy_case, 1), (isar_case, 1), (include_case, 0.25), (graph_case, 0.4), (option_case, 0.2), (sack_case, 0.35),
          (spot_case, 0.2)]


def judge(c, cases, runner, seconds, label):
    events = []
    for case, res in zip(cases, guard.guarded(runner, cases, seconds)):
        if res in (guard.HANGS, guard.DIED):
            res = {"how": "hangs" if res == guard.HANGS else "internal", "text": 0, "located": 2, "wrote": [], "want": case.want}, res
        e, message = res
        events.append((case, e, message))
        c.count("%s_%s" % (case.mode, e["how"]))
    c.count("runs_" + label, len(events))
    return events


def body(c):
    quick = env.TIER == "quick"
    work = env.scratch("c13")
    rng = random.Random("c13/%s" % env.SEED)
    events = []
    for mode in ("prophy", "isar"):
        cases = pipeline(c, mode, work)
        events += judge(c, cases, run, SECONDS, "pipeline")
        events += judge(c, rng.sample(cases, 24 if quick else 160), run_entry, SECONDS * 5, "entry")
    sack = [Case("sack", dict({number(k, 0): number(v, 0) for k, v in SACK_AUX.items()}, **{"in0.hpp": number(SACK[k], 0)}), ["in0.hpp"], [t])
            for k in sorted(SACK) for t in sorted(TARGETS)]
    events += judge(c, sack + fixed_cases(), run, SECONDS, "chosen")
    total = 3200 if quick else 40000
    cases = [make("%s/%s" % (env.SEED, i)) for make, share in MAKERS for i in range(int(total * share))]
    rng.shuffle(cases)
    events += judge(c, cases, run, SECONDS, "corrupted")
    events += judge(c, rng.sample(cases, 24 if quick else 240), run_entry, SECONDS * 5, "entry")
    parts = [events[k::8] for k in range(8)]
    rejections, stats = tlc.validate("TracePipeline", [{"ev": [e for _, e, _ in p]} for p in parts])
    c.add_trace(stats, len(events))
    for p, i, why in rejections:
        case, e, message = parts[p][i]
        c.violation("%s: %s" % ("; ".join(why), (message or e["how"])[:300]), case.replay([e, message]))
    for case, e, message in events[:2000:500]:
        c.sample({"command": case.command(), "how": e["how"], "message": message[:200]})
    c.assume("a run of more than %d s counts as one that does not end" % SECONDS)
    env.drop(work)


if __name__ == "__main__":
    check.main("C13", body)
