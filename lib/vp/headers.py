"""C++ headers as sack inputs: what clang can tell of them, and what prophy has no counterpart for."""

HEADERS = {
    "nestedinunion": "union U { struct In { int a; int b; }; In c; unsigned char d; };\nstruct Target { unsigned a; U b; };\n",
    "anoninunion": "union U { struct { int a; int b; } c; unsigned char d; };\nstruct Target { unsigned a; U b; };\n",
    "anonmember": "struct Target { unsigned a; struct { int x; }; union { int y; char z; }; };\n",
    "enuminunion": "union U { enum E { E_a } e; int b; };\nstruct Target { unsigned a; U b; };\n",
    "methodinunion": "union U { int a; void f(); static int g(); };\nstruct Target { unsigned a; U b; };\n",
    "externc": "extern \"C\" { struct X { int a; }; struct { int q; } v; enum { Z_a = 1 }; union UU { int a; }; }\nstruct Target { unsigned a; X b; };\n",
    "fwd": "struct Q; enum F : int; union W;\nstruct Target { unsigned a; Q* q; };\n",
    "fwdenum": "enum F : int;\nstruct Target { unsigned a; F q; };\n",
    "incomplete": "struct Q;\nstruct Target { unsigned a; Q q; };\n",
    "ns": "namespace n { struct X { int a; }; namespace m { enum E { E_a = 1 }; } }\nstruct Target { unsigned a; n::X b; n::m::E e; };\n",
    "template": "template <class T> struct V { T t; };\nstruct Target { unsigned a; V<int> b; V<V<char> > c; };\n",
    "class": "class K { int a; public: int b; };\nstruct Target { unsigned a; K b; };\n",
    "base": "struct B { int x; };\nstruct Target : B { unsigned a; };\n",
    "virtual": "struct Target { virtual ~Target() {} unsigned a; };\n",
    "static": "struct Target { static const int s = 4; unsigned a; int b[s]; };\n",
    "bitfield": "struct Target { unsigned a; unsigned b : 3; unsigned : 0; unsigned c : 5; };\n",
    "fn": "int f(int); int g() { return 1; } int v; extern int w[];\nstruct Target { unsigned a; int (*p)(int); int (*q)[3]; };\n",
    "multidim": "struct Target { unsigned a; int b[2][3]; };\n",
    "flex": "struct Target { unsigned a; int b[]; };\n",
    "zero": "struct Target { unsigned a; int b[0]; };\n",
    "enumclass": "enum class E : unsigned char { a, b = 200 };\nstruct Target { unsigned a; E e; };\n",
    "bigenum": "enum E { E_a = -1, E_b = 0x7fffffff };\nenum F : unsigned long long { F_a = 0xffffffffffffffffULL };\nstruct Target { unsigned a; E e; F f; };\n",
    "emptyenum": "enum E {};\nstruct Target { unsigned a; E e; };\n",
    "anonenum": "enum { A_a = 3 };\nstruct Target { unsigned a; enum { B_b } e; int c[A_a]; };\n",
    "emptystruct": "struct X {}; union Y {};\nstruct Target { unsigned a; X x; Y y; };\n",
    "typedefs": "typedef struct { int a; } X; typedef X Y; typedef Y Z[3]; typedef int I; typedef I* P;\nstruct Target { unsigned a; Y y; Z z; I i; P p; };\n",
    "usingalias": "using I = unsigned; struct X { int a; }; using Y = X;\nstruct Target { unsigned a; I i; Y y; };\n",
    "auto": "struct Target { unsigned a; decltype(1 + 1) b; };\n",
    "volatile": "struct Target { unsigned a; const volatile int b; const int c[2]; };\n",
    "bool": "struct Target { unsigned a; bool b; char c; signed char d; unsigned char e; long f; unsigned long long g; short h; float i; double j; };\n",
    "vector": "typedef int v4 __attribute__((vector_size(16)));\nstruct Target { unsigned a; v4 b; };\n",
    "complex": "struct Target { unsigned a; _Complex double b; };\n",
    "nullptr": "struct Target { unsigned a; decltype(nullptr) b; };\n",
    "void": "struct Target { unsigned a; void* b; void c; };\n",
    "rvalue": "struct Target { unsigned a; int&& b; };\n",
    "deep": "struct A0 { int a; };\n" + "".join("struct A%d { A%d a; };\n" % (k, k - 1) for k in range(1, 120)) + "struct Target { unsigned a; A119 b; };\n",
    "unicode": "struct Target { unsigned a; int \u00e9; };\n",
    "dupe": "struct X { int a; }; namespace n { struct X { char b; }; }\nstruct Target { unsigned a; X x; n::X y; };\n",
    "local": "void f() { struct L { int a; }; }\nstruct Target { unsigned a; };\n",
    "friend": "struct Target { unsigned a; friend struct X; struct X { int a; } x; typedef int I; I i; enum E { E_a }; E e; };\n",
    "block": "struct Target { unsigned a; int __attribute__((aligned(16))) b; } __attribute__((packed));\n",
    "macro": "#define N 3\n#if N > 2\nstruct Target { unsigned a; int b[N]; };\n#endif\n",
    "error": "#error no\nstruct Target { unsigned a; };\n",
    "include": "#include \"nowhere.h\"\nstruct Target { unsigned a; };\n",
    "longname": "struct Target { unsigned a; int %s; };\n" % ("x" * 5000),
    "bigarray": "struct Target { unsigned a; char b[0x7fffffffff]; };\n",
    "negative": "struct Target { unsigned a; char b[-1]; };\n",
    "pointerself": "struct Target { unsigned a; Target* b; Target* c[2]; };\n",
    "unionrec": "union U; struct S { U* u; }; union U { S s; int a; };\nstruct Target { unsigned a; U u; };\n",
    "lambdafield": "struct Target { unsigned a; int class_; int import; int None; };\n",
    "emptyused": "struct X {};\nstruct Target { unsigned a; X x; };\n",
    "unionarray": "union U { int a; unsigned char b[3]; };\nstruct Target { unsigned a; U u[2]; };\n",
}
FORMS = ["struct %s { unsigned a; };\nstruct T9 { %s b; };\n", "struct T9 { unsigned a; unsigned %s; };\n", "enum %s { X9 = 1 };\nstruct T9 { %s e; };\n",
         "enum E9 { %s = 1 };\nstruct T9 { E9 e; };\n", "union %s { int a; char b; };\nstruct T9 { %s u; };\n", "union U9 { int a; char %s; };\nstruct T9 { U9 u; };\n",
         "namespace %s { struct A9 { int a; }; }\nstruct T9 { %s::A9 a; };\n", "typedef struct { int a; } %s;\nstruct T9 { %s a[2]; };\n"]
# (text, patch) of structs which patches leave without members
EMPTIED = [("struct A9 { u8 x; };\nstruct B9 { A9 a; u8 b; };\n", "A9 remove x\n"), ("struct A9 { u8 x; u8 y; };\n", "A9 remove x\nA9 remove y\n"),
           ("struct A9 { u8 x<>; };\nstruct B9 { A9 a<>; };\n", "A9 remove x\nA9 remove num_of_x\n")]


def named(rng, names, n):
    """Headers with the names in any place."""
    for _ in range(n):
        text, name = rng.choice(FORMS), rng.choice(names)
        yield text.replace("%s", name)
