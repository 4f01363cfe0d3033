"""Source texts: the project's own parser cases, mutated, plus hand-made nasty fragments."""
import functools, glob, os, re, xml.etree.ElementTree as ET

SRC = "{http://www.srcML.org/srcML/src}"
LANGS = ["C", "C++", "C#", "Java", "Objective-C"]

FRAG = {
 "*": ["", " ", "\n", "\t", "\n\n\n", "  \t \n", "a", "a b", "a;", "a = b;", "a(b, c);", "int a;", "int a = 0;", "int f(int a, int b) { return a + b; }",
       "if (a) b; else c;", "if (a) { b; } else if (c) { d; } else { e; }", "while (a) b;", "for (i = 0; i < n; ++i) { a[i] = \"<&>\\\"\"; }",
       "do { a; } while (b && c);", "switch (a) { case 1: b; break; default: c; }", "return;", "return a < b && c > d;", "goto l; l: a;",
       "/* block */", "/* unterminated", "// line", "// line\n", "/** doc <b>&amp;</b> */", "/// doxy\n", "//! x\n", "/*! y */", "/**/", "/***/", "/*/",
       "\"string\"", "\"unterminated", "'c'", "'", "\"", "\"a\\\nb\"", "'\\''", "\"\\\"\"", "0x1F", "1.0e-5f", "'\\n'",
       "{", "}", "(", ")", "[", "]", ";", ",", ":", "::", "?", "...", "->", ".", "<", ">", "<<", ">>", "<<=", "&&", "&", "]]>", "&lt;", "&#10;", "<![CDATA[", "<unit>", "</unit>", "<!--", "-->",
       "{{{{", "}}}}", "((((", "))))", "a ? b : c;", "a = b ? c : d ? e : f;", "struct s { int a; };", "enum e { A, B = 2, C };", "class c { int m; };",
       "#", "#define A", "#define A(x) x < 1\n", "#define A \\\n b \\\n c\n", "#include <a.h>\n", "#include \"a.h\"", "#if A\nint a;\n#else\nint b;\n#endif\n",
       "#if 0\n<junk> '\n#endif\n", "#ifdef A\nif (a) {\n#else\nif (b) {\n#endif\n}\n", "#elif B\n", "#endif\n", "#pragma omp parallel\n", "#error \"x", "#line 3 \"f\"\n", "# 12\n", "#if A // c\n#elif B /* d */\n#endif", "#unknown <x>\n",
       "\f", "\v", "\x01", "\x1f", "\x7f", "\x02a\x03", "\x1b[0m", "\u00e9", "\u00e9t\u00e9 = 1;", "\"\u4e2d\u6587\"", "// \u00fc\n", "\u2028", "\U0001f600", "\u0085",
       "@", "$", "`", "\\", "\\\n", "~", "!", "%", "^", "|", "a\\\nb;", "  trailing  ", "\tint\ta\t;", "x\ty\n\tz"],
 "C": ["struct s { int a : 3; } t = { .a = 1 };", "_Generic(a, int: 1, default: 2);", "_Static_assert(1, \"x\");", "int (*f)(int);", "void f(a, b) int a; int b; { }", "extern \"C\" { int a; }", "typedef struct { int x; } T;", "int a[] = { [1] = 2 };", "asm(\"nop\");", "sizeof(int);", "_Alignas(8) int a;", '_Generic(a, default: 2, int: 1);', 'typedef enum a { B, C = 2 } d;', 'int a[] = { [0] = 1, [2 ... 4] = 5 };', 'if (a) MACRO(b) else c;'],
 "C++": ["template <typename T, int N = (1 > 2)> class A : public B<T>, private C { public: A() : b(1), c{2} {} ~A(); };", "namespace a { using namespace b; }", "auto f = [&, x](int a) mutable -> int { return x; };", "a<b<c>> d;", "a<b, c>(d);", "try { a; } catch (const e& x) { throw; } catch (...) { }", "operator<<(a, b);", "R\"(raw <string>)\"", "R\"x(a)x\"", "new int[3];", "delete[] a;", "constexpr int a = 1;", "for (auto& x : y) z;", "static_assert(a, \"b\");", "enum class E : int { A };", "int f() noexcept(true) = delete;", "using T = int;", "template<> struct X<int> {};", "decltype(a) b;", "a.template b<c>();", "[[nodiscard]] int f();", "class A final { void f() override; };", "if constexpr (a) b;", "friend class X;", "typename T::x y;", "signals: void f();", "foreach (a, b) c;", "concept x = y;", "co_await a;", "int operator()(int) const &;", "1'000'000", "a <=> b;", 'typedef enum a { B, C = 2 } d;', 'auto f(int a) -> decltype(a) { return a; }', 'template <class T> requires A<T> void f(T t);', 'if constexpr (a) { } else { }', 'for (auto [a, b] : c) { }', 'int a = { }, b{ };', 'if (a) MACRO(b) else c;', 'class A { public: #if B\n int a; #endif\n };', 'a = [] { return 1; }();', 'enum class A : int { B };', 'R"x(a " )" )x"', 'u8"a" L\'b\' R"(\n)"', "1'000", 'co_await a;'],
 "C#": ["using System; namespace A { public class B : C { [Attr(1)] int P { get; set; } event E e; } }", "lock (a) { b; }", "foreach (var x in y) z;", "from a in b where c select d;", "checked { a; }", "unsafe { int* p; }", "fixed (int* p = a) b;", "@\"verbatim \"\" <x>\"", "$\"a{b}c\"", "a ?? b;", "a?.b;", "delegate int D(int a);", "async Task f() { await g(); }", "yield return a;", "x => x + 1;", "int this[int i] { get { return 1; } }", "#region a\n#endregion\n", "class A<T> where T : new() { }", "using (a) b;", "var x = new { A = 1 };", "@if", "implicit operator int(A a) { }", "goto case 1;", "a is b;", "typeof(int);", "int? a;", "extern alias x;", "partial class A {}", "default(T);", 'class A { int this[int a, int b] { get; set; } int B => c; }', 'var a = b switch { 1 => c, _ => d };', '$"a{b:c}d{{" + @"a""b\\" + $@"c{d}";', 'a?.b ?? c ?[0];', '#region a "b\n#endregion\n', 'int? a = null; b!.c();', 'record A(int b);', 'using var a = b;'],
 "Java": ["package a.b; import a.*; import static a.b;", "public class A<T extends B & C> extends D implements E, F { @Override int f() throws X { } static { } }", "for (int x : y) z;", "synchronized (a) { b; }", "try (A a = b) { } finally { }", "assert a : b;", "@interface A { int b() default 1; }", "enum E { A(1) { }, B; int x; }", "a -> b;", "A::b;", "List<? super T> x;", "new A() { int b; };", "int a[] = {1, 2};", "a >>> b;", "throw new E();", "class A { A() { super(); } }", "label: for (;;) break label;", "interface A { void f(); }", "final int a = 0;", "x instanceof Y;", 'enum A { B(1) { int c() { return d; } }, E; }', 'var a = switch (b) { case 1 -> c; default -> { yield d; } };', '"""\n a "b" \n"""', 'int[] a = { 1, 2 }, b[];', 'A::b; a.new B();', '@interface A { int b() default 1; }', 'class A<T> { <U> A(U u) { this(u, 1); } }', 'record A(int b) { }', 'l: for (;;) break l;'],
 "Objective-C": ["@interface A : B <C> { int a; } @property (nonatomic) int b; - (void)c:(int)d e:(int)f; @end", "@implementation A @synthesize b; + (id)c { return [self d:1 e:2]; } @end", "@\"str\"", "@selector(a:b:)", "@protocol P @optional @end", "@try { } @catch (id e) { } @finally { }", "^(int a) { return a; };", "[a b];", "[[a b] c:d];", "@class A;", "@autoreleasepool { }", "@synchronized (a) { }", '@compatibility_alias A B;', '@implementation A @dynamic a, b; @dynamic c; @end', '@property (getter=isA, setter=setA:) int a;', '- (void)a:(int)b c:(char*)d, ...;', '@synthesize a = _a, b;', '[[A b] c:^(int d) { e; } f:g];', 'for (a in b) { c; }', '@"a" @"b";', '@{ @"a": b };', '@[ a, b ];', 'a = { b, c };', '#import "a.h"\n', '@try { a; } @catch (B *c) { } @finally { }', '- a { if (b) { c; } else { d; } }', '+ (A<B> *)c;'],
}

# statements cut by a conditional.  With the text of its other branches not marked up, that text is not a part of them,
# but it is within their elements, so the place of an element is not judged by these (C19)
SPLIT = ['#if A\nif (a)\n#else\nelse\n#endif\nb;\n',
         'if (a)\n#if B\n{ b;\n#else\n{ c;\n#endif\n}\nelse d;\n',
         'do { a; }\n#ifdef A\nwhile (b);\n#else\nwhile (c);\n#endif\n',
         'a = b\n#if C\n+ c\n#endif\n;\n',
         'void f(\n#if A\nint a)\n#else\nint b)\n#endif\n{ }\n',
         'else\n#if A\nif (b)\n#endif\nc;\n',
         'switch (a) {\n#if A\ncase 1:\n#elif B\ncase 2:\n#else\ndefault:\n#endif\nb; }\n',
         'x(a,\n#if B\nb\n#else\nc\n#endif\n);\n',
         '#if A\nwhile (a)\n#else\nfor (;;)\n#endif\nb;\n',
         'if (a) {\n#if B\n} else {\n#endif\n}\n']


@functools.lru_cache(None)
def corpus(repo="/repo"):
    """(language, text) of every unit of the parser cases"""
    out = []
    for f in sorted(glob.glob(os.path.join(repo, "test/parser/testsuite/*.xml"))):
        try:
            root = ET.parse(f).getroot()
        except ET.ParseError:
            continue
        for u in root.iter(SRC + "unit"):
            if u.get("language") and not len(u.findall(SRC + "unit")):
                t = "".join(u.itertext())
                if t:
                    out.append((u.get("language"), t))
    return out


TOK = re.compile(r"\w+|\s+|[^\w\s]")


def text(rng, lang=None, size=1, hostile=.25, bmp=False, split=True):
    """a source text: (language, text)"""
    cases = corpus()
    if lang is None:
        lang = rng.choice(LANGS[:4] if rng.random() < .9 else LANGS)
    parts = []
    for _ in range(rng.choice([1, 1, 2, 3, 4]) * size):
        k = rng.random()
        if k < .5 and cases:
            l, t = rng.choice(cases)
            if l != lang and rng.random() < .8:
                l, t = rng.choice(cases)
            if len(t) > 1500 and rng.random() < .8:
                i = rng.randrange(len(t))
                t = t[i:i + rng.randrange(1, 600)]
        else:
            t = rng.choice([" ", "\n", "", " "]).join(rng.choice(FRAG["*"] if rng.random() < .55 else FRAG[lang]) for _ in range(rng.randrange(1, 7)))
        if split and lang in ("C", "C++", "C#") and rng.random() < .06:
            t = rng.choice(["\n", "{\n", t]) + rng.choice(SPLIT) + rng.choice(["", "}", t])
        if rng.random() < hostile:
            m = rng.random()
            toks = TOK.findall(t)
            if m < .3:
                t = t[:rng.randrange(len(t) + 1)]
            elif m < .5 and toks:
                i = rng.randrange(len(toks))
                del toks[i]
                t = "".join(toks)
            elif m < .65 and toks:
                i = rng.randrange(len(toks))
                toks.insert(i, rng.choice(toks))
                t = "".join(toks)
            elif m < .8:
                i = rng.randrange(len(t) + 1)
                t = t[:i] + rng.choice(FRAG["*"]) + t[i:]
            elif m < .9 and len(toks) > 2:
                i, j = rng.randrange(len(toks)), rng.randrange(len(toks))
                toks[i], toks[j] = toks[j], toks[i]
                t = "".join(toks)
            else:
                t = t[rng.randrange(len(t) + 1):]
        parts.append(t)
    s = rng.choice(["\n", "", " ", "\n\n"]).join(parts)
    e = rng.random()
    if e < .12:
        s = s.replace("\n", "\r\n")
    elif e < .18:
        s = s.replace("\n", "\r")
    elif e < .24:
        s = "".join(c if c != "\n" else rng.choice(["\n", "\r", "\r\n"]) for c in s)
    if bmp:
        s = "".join(c for c in s if ord(c) < 0x10000)
    return lang, s


def nested(rng, lang, depth):
    k = rng.randrange(6)
    o, c = [("if (a) { ", "}"), ("(", ")"), ("{", "}"), ("f(", ")"), ("while (x) {\n", "}\n"), ("a[", "]")][k]
    if o == "a[" and lang in ("C#", "Java"):
        depth = min(depth, 8)       # time doubles with each level (see DESIGN.md)
    return o * depth + "b" + c * depth


class Program:
    """well-formed programs in the common subset of C, C++, C# and Java, with random blanks, tabs and comments"""

    def __init__(self, rng, lang, ws=None):
        self.r, self.lang = rng, lang
        self.ws = ws or ["", " ", " ", "\n", "\t", "  ", "\n\t", " /* c */ ", "/*\t*/", " // x\n", "\t\t", "\r\n", "/* a\n\tb */"]

    def w(self, must=False):
        s = self.r.choice(self.ws)
        return s if s and s != "" or not must else " "

    def j(self, *xs):
        return "".join(x + self.w(True) for x in xs)

    def name(self):
        return self.r.choice(["a", "b", "count", "x1", "_v", "value", "i", "Thing"])

    def expr(self, d=2):
        r = self.r
        k = r.randrange(9 if d else 3)
        if k < 2:
            return self.name()
        if k == 2:
            return r.choice(["1", "0x1F", "\"s\"", "\"t\\tx\"", "'c'", "2.5", "\"a\tb\""])
        if k == 3:
            return self.j(self.expr(d - 1), r.choice(["+", "-", "*", "/", "==", "<=", "&&", "||", "%"])) + self.expr(d - 1)
        if k == 4:
            return self.name() + self.w() + "(" + self.w() + (self.w() + "," + self.w()).join(self.expr(d - 1) for _ in range(r.randrange(3))) + ")"
        if k == 5:
            return "(" + self.w() + self.expr(d - 1) + self.w() + ")"
        if k == 6:
            return self.name() + "[" + self.w() + self.expr(d - 1) + self.w() + "]"
        if k == 7:
            return self.name() + "." + self.name()
        return self.j(self.name(), "=") + self.expr(d - 1)

    def stmt(self, d=2):
        r = self.r
        k = r.randrange(12 if d else 5)
        if k == 0:
            return self.j("int", self.name(), "=", self.expr(1)) + ";"
        if k == 1:
            return self.j(self.name(), "=", self.expr()) + ";"
        if k == 2:
            return self.name() + self.w() + "(" + self.expr(1) + ")" + self.w() + ";"
        if k == 3:
            return self.j("return", self.expr(1)) + ";"
        if k == 4:
            return r.choice(["break", "continue"]) + self.w() + ";"
        if k == 5:
            return self.j("if", "(", self.expr(1), ")") + self.stmt(d - 1)
        if k == 6:
            return self.j("if", "(", self.expr(1), ")", self.block(d - 1), "else") + self.block(d - 1)
        if k == 7:
            return self.j("while", "(", self.expr(1), ")") + self.block(d - 1)
        if k == 8:
            return self.j("for", "(", "int", "i", "=", "0", ";", "i", "<", self.expr(0), ";") + "++i" + self.w() + ")" + self.w() + self.block(d - 1)
        if k == 9:
            return self.j("do", self.block(d - 1), "while", "(", self.expr(1), ")") + ";"
        if k == 10:
            return self.j("switch", "(", self.expr(0), ")", "{", "case", "1", ":", self.stmt(0), "default", ":", self.stmt(0)) + "}"
        return self.block(d - 1)

    def block(self, d=1):
        return "{" + self.w() + "".join(self.stmt(d) + self.w() for _ in range(self.r.randrange(4))) + "}"

    def function(self):
        ps = (self.w() + "," + self.w()).join("int " + self.name() for _ in range(self.r.randrange(3)))
        return self.j("int", self.name()) + "(" + self.w() + ps + ")" + self.w() + self.block(2)

    def cpp(self):
        return self.r.choice(["#define A\n", "#define F(x) x + 1\n", "#include <a.h>\n", "#include \"b.h\"\n", "#ifdef A\n", "#endif\n", "#pragma once\n", "# if A\n", "#undef A\n"])

    def text(self, n=None):
        r = self.r
        o = []
        for _ in range(n or r.randrange(1, 5)):
            if self.lang in ("Java", "C#"):
                o.append(self.j("class", self.name()) + "{" + self.w() + "".join(self.function() + self.w() for _ in range(r.randrange(3))) + "}")
            elif r.random() < .2:
                o.append(("\n" if o else "") + self.cpp())
            elif r.random() < .3:
                o.append(self.j("struct", self.name()) + "{" + self.w() + "int a" + self.w() + ";" + self.w() + "}" + self.w() + ";")
            else:
                o.append(self.function())
            o.append(self.w())
        return self.w() + "".join(o)
