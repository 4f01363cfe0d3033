// Parses texts in histories of one thread and in threads at the same time.
// Lines of the standard input:  ID MODE BOUND RUNS SEED DIR WORD...
// MODE: s schedules at synchronisation, e switches at entries of functions, n the threads run freely.
// DIR/t<x> is text x.  Words: before T by the main thread; T begins another thread; J the main thread goes on when all have ended.
//   new:A opt:A:V tab:A:V ns:A:V enc:A:V             archive A (0, 1) and its settings
//   parse:A:X:LANG:HOW[:again]                 HOW mem, io, file, fd; again: into the unit of the previous parse of this thread in A
//   other:KIND                                 another use of the library
//   write:KEY                                  the units parsed by the threads, in order of their texts, written to archive 0
#include "sched.hpp"
#include <srcml.h>
#include <algorithm>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <map>
#include <pthread.h>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>

static std::string dir;
static std::vector<std::string> words;
static std::map<std::string, std::string> texts;
static srcml_archive* ar[2];
static std::atomic_flag busy = ATOMIC_FLAG_INIT;

static std::vector<std::string> split(const std::string& s, char c) {
    std::vector<std::string> r;
    std::stringstream ss(s);
    for (std::string x; std::getline(ss, x, c);) r.push_back(x);
    return r;
}

struct Sum {
    unsigned long h = 1469598103934665603ul;
    void add(const char* s, size_t n) { for (size_t i = 0; i < n; ++i) { h ^= (unsigned char) s[i]; h *= 1099511628211ul; } h ^= n; h *= 1099511628211ul; }
    void add(const char* s) { if (s) add(s, strlen(s)); else add("", 0), h += 7; }
    std::string str() const { char b[20]; snprintf(b, sizeof b, "%016lx", h); return b; }
};

struct Src { const std::string* s; size_t pos; size_t piece; };
static ssize_t rd(void* c, void* buf, size_t len) {
    Src* s = (Src*) c;
    sched_point();
    size_t n = std::min({len, s->piece, s->s->size() - s->pos});
    memcpy(buf, s->s->data() + s->pos, n);
    s->pos += n;
    return n;
}
static int cl(void*) { return 0; }

static void say(const std::string& s) {
    while (busy.test_and_set()) {}
    emit(s);
    busy.clear();
}

static int settle(srcml_archive* a, const std::string& p) {
    const bool d = p == "-";
    const size_t was = srcml_archive_get_options(a);        // registering these turns options on
    int st = srcml_archive_register_namespace(a, d ? "" : p.c_str(), "http://www.srcML.org/srcML/src");
    st |= srcml_archive_register_namespace(a, d ? "pos" : ("p" + p).c_str(), "http://www.srcML.org/srcML/position");
    st |= srcml_archive_register_namespace(a, d ? "cpp" : ("c" + p).c_str(), "http://www.srcML.org/srcML/cpp");
    return st | srcml_archive_set_options(a, was);
}

// every setting given, as its defaults are not the question here
static srcml_archive* first() {
    srcml_archive* a = srcml_archive_create();
    srcml_archive_set_src_encoding(a, "UTF-8");
    srcml_archive_set_options(a, 0);
    srcml_archive_set_tabstop(a, 8);
    settle(a, "-");
    return a;
}

struct Worker { int t; std::vector<std::string> ops; std::map<int, srcml_unit*> unit; std::map<std::string, srcml_unit*> made; };

static srcml_archive* fresh() {
    srcml_archive* a = srcml_archive_create();
    srcml_archive_set_src_encoding(a, "UTF-8");
    return a;
}

static void other(Worker& w, const std::string& k) {
    const std::string t0 = dir + "/t0";
    if (k == "fail") {              // no language
        srcml_archive* a = fresh();
        srcml_unit* u = srcml_unit_create(a);
        srcml_unit_parse_memory(u, "a;", 2);
        srcml_unit_set_language(u, "C");
        srcml_unit_parse_filename(u, (dir + "/none.c").c_str());
        srcml_unit_free(u);
        srcml_archive_free(a);
    } else if (k == "glob") {       // process-wide
        srcml_set_options(SRCML_OPTION_POSITION | SRCML_OPTION_CPP_MARKUP_IF0);
        srcml_set_tabstop(3);
        srcml_set_language("Java");
        srcml_register_namespace("zz", "http://www.srcML.org/srcML/src");
        srcml_register_namespace("yy", "http://www.srcML.org/srcML/position");
        srcml_register_file_extension("t", "C#");
        srcml_set_src_encoding("ISO-8859-1");
    } else if (k == "one") {
        std::string o = dir + "/one" + std::to_string(getpid()) + "-" + std::to_string(w.t) + ".xml";
        srcml_set_language("C++");
        srcml(t0.c_str(), o.c_str());
        unlink(o.c_str());
    } else if (k == "odd") {        // every setting different, the text broken off, and freed early
        srcml_archive* a = fresh();
        srcml_archive_set_options(a, SRCML_OPTION_POSITION | SRCML_OPTION_CPP_TEXT_ELSE | SRCML_OPTION_CPP_MARKUP_IF0);
        srcml_archive_set_tabstop(a, 2);
        srcml_archive_register_namespace(a, "q", "http://www.srcML.org/srcML/src");
        srcml_archive_register_namespace(a, "qc", "http://www.srcML.org/srcML/cpp");
        srcml_archive_register_namespace(a, "qp", "http://www.srcML.org/srcML/position");
        srcml_archive_register_file_extension(a, "t0", "Java");
        for (const char* l : {"Java", "C#", "C", "Objective-C"}) {
            srcml_unit* u = srcml_unit_create(a);
            srcml_unit_set_language(u, l);
            const char* s = "#if 0\nint f(\n#else\nclass A { @\"x";
            srcml_unit_parse_memory(u, s, strlen(s));
            srcml_unit_get_srcml(u);
            srcml_unit_free(u);
        }
        srcml_archive_free(a);
    } else if (k == "xpath" || k == "read" || k == "src") {
        const char* doc = "<unit xmlns=\"http://www.srcML.org/srcML/src\" revision=\"1.0.0\" language=\"C\" filename=\"a.c\"><name>a</name>;\n</unit>";
        srcml_archive* a = fresh();
        srcml_archive_read_open_memory(a, doc, strlen(doc));
        if (k == "xpath") srcml_append_transform_xpath(a, "//src:name");
        srcml_unit* u = srcml_archive_read_unit(a);
        if (k == "xpath") {
            srcml_transform_result* r = nullptr;
            srcml_unit_apply_transforms(a, u, &r);
            srcml_transform_free(r);
        } else if (k == "read") {
            srcml_unit_get_srcml(u);
            srcml_unit_parse_memory(u, "b;", 2);        // a unit that was read
        } else {
            char* b = nullptr; size_t n = 0;
            srcml_unit_unparse_memory(u, &b, &n);
            srcml_memory_free(b);
        }
        srcml_unit_free(u);
        srcml_archive_close(a);
        srcml_archive_free(a);
    } else if (k == "build") {
        srcml_archive* a = fresh();
        srcml_unit* u = srcml_unit_create(a);
        srcml_unit_set_language(u, "C");
        srcml_write_start_unit(u);
        srcml_write_start_element(u, "q", "name", "http://www.srcML.org/srcML/src");
        srcml_write_string(u, "n");
        srcml_write_end_unit(u);
        srcml_unit_get_srcml(u);
        srcml_unit_free(u);
        srcml_archive_free(a);
    } else exit(71);
}

static std::string put(srcml_archive* a, const std::vector<srcml_unit*>& us) {
    srcml_archive* c = srcml_archive_clone(a);
    char* b = nullptr; size_t n = 0;
    srcml_archive_write_open_memory(c, &b, &n);
    Sum s;
    for (auto u : us) s.add(std::to_string(srcml_archive_write_unit(c, u)).c_str());
    srcml_archive_close(c);
    srcml_archive_free(c);
    s.add(b, n);
    if (getenv("SHOW")) fprintf(stdout, "%.*s\n", (int) n, b);
    srcml_memory_free(b);
    return s.str();
}

static void perform(Worker& w, const std::string& word) {
    auto f = split(word, ':');
    const std::string& op = f[0];
    int a = f.size() > 1 ? f[1][0] - '0' : 0;
    std::string head = "{\"op\": \"" + op + "\", \"t\": " + std::to_string(w.t), r = "-";
    if (op == "new") {
        if (w.unit[a]) srcml_unit_free(w.unit[a]);
        w.unit[a] = nullptr;
        srcml_archive_free(ar[a]);
        ar[a] = first();
        head += ", \"a\": \"" + f[1] + "\"";
    } else if (op == "opt" || op == "tab" || op == "ns" || op == "enc") {
        int st = 0;
        if (op == "opt") st = srcml_archive_set_options(ar[a], atoi(f[2].c_str()));
        else if (op == "tab") st = srcml_archive_set_tabstop(ar[a], atoi(f[2].c_str()));
        else if (op == "enc") st = srcml_archive_set_src_encoding(ar[a], f[2].c_str());
        else st = settle(ar[a], f[2]);
        r = st == 0 ? "OK" : "status " + std::to_string(st);
        head += ", \"a\": \"" + f[1] + "\", \"v\": \"" + f[2] + "\"";
    } else if (op == "parse") {
        const std::string& x = f[2];
        const std::string& s = texts.at(x);
        srcml_unit*& u = w.unit[a];
        const bool again = f.size() > 5 && u;
        if (!again) {
            if (u && !w.made.count(x)) srcml_unit_free(u);
            u = srcml_unit_create(ar[a]);
        }
        srcml_unit_set_language(u, f[3].c_str());
        int st;
        if (f[4] == "mem") st = srcml_unit_parse_memory(u, s.data(), s.size());
        else if (f[4] == "io") { Src c{&s, 0, 61}; st = srcml_unit_parse_io(u, &c, rd, cl); }
        else if (f[4] == "fd") { int fd = open((dir + "/t" + x).c_str(), O_RDONLY); st = srcml_unit_parse_fd(u, fd); close(fd); }
        else st = srcml_unit_parse_filename(u, (dir + "/t" + x).c_str());
        Sum sum;
        sum.add(std::to_string(st).c_str());
        sum.add(srcml_unit_get_language(u));
        sum.add(srcml_unit_get_src_encoding(u));
        sum.add(srcml_unit_get_hash(u));
        sum.add(std::to_string(srcml_unit_get_loc(u)).c_str());
        sum.add(srcml_unit_get_srcml_outer(u));
        sum.add(srcml_unit_get_srcml_inner(u));
        if (getenv("SHOW")) fprintf(stdout, "%s\n", srcml_unit_get_srcml_outer(u));
        char* b = nullptr; size_t n = 0;
        sum.add(std::to_string(srcml_unit_unparse_memory(u, &b, &n)).c_str());
        if (b) { sum.add(b, n); srcml_memory_free(b); }
        sum.add(put(ar[a], {u}).c_str());
        r = sum.str();
        head += ", \"a\": \"" + f[1] + "\", \"x\": \"" + x + "\", \"lang\": \"" + f[3] + "\", \"how\": \"" + f[4] + (again ? " again" : "") + "\"";
        if (a == 0 && w.t) { w.made[x] = u; w.unit[a] = nullptr; }
    } else if (op == "other") {
        other(w, f[1]);
        head += ", \"what\": \"" + f[1] + "\"";
    } else exit(71);
    say(head + ", \"r\": \"" + r + "\"}");
}

static void* worker(void* p) {
    Worker& w = *(Worker*) p;
    for (auto& o : w.ops) perform(w, o);
    return nullptr;
}

static void body() {
    ar[0] = first();
    ar[1] = first();
    Worker m{0, {}, {}, {}};
    size_t i = 0;
    for (; i < words.size() && words[i] != "T" && words[i] != "J"; ++i) perform(m, words[i]);
    std::vector<Worker> ws;
    for (; i < words.size() && words[i] != "J"; ++i) {
        if (words[i] == "T") ws.push_back({(int) ws.size() + 1, {}, {}, {}});
        else ws.back().ops.push_back(words[i]);
    }
    std::vector<pthread_t> th(ws.size());
    for (size_t k = 0; k < ws.size(); ++k) pthread_create(&th[k], nullptr, worker, &ws[k]);
    for (auto t : th) pthread_join(t, nullptr);
    for (++i; i < words.size(); ++i) {
        if (words[i].compare(0, 6, "write:")) { perform(m, words[i]); continue; }
        std::vector<std::pair<std::string, srcml_unit*>> us;
        for (auto& w : ws) for (auto& u : w.made) us.push_back(u);
        std::stable_sort(us.begin(), us.end(), [](const std::pair<std::string, srcml_unit*>& a, const std::pair<std::string, srcml_unit*>& b) { return a.first < b.first; });
        std::vector<srcml_unit*> v;
        for (auto& u : us) v.push_back(u.second);
        say("{\"op\": \"write\", \"k\": \"" + words[i].substr(6) + "\", \"r\": \"" + put(ar[0], v) + "\"}");
    }
}

int main() {
    if (!freopen("/dev/null", "w", stderr)) return 70;
    const char* s = getenv("SCHED");
    for (std::string line; std::getline(std::cin, line);) {
        std::istringstream in(line);
        SearchOptions o;
        std::string id, mode, d;
        in >> id >> mode >> o.bound >> o.max_runs >> o.seed >> d;
        o.native = mode[0] == 'n';
        o.entries = mode[0] == 'e';
        o.spurious = 0;
        o.wall_ms = 30000;
        words.clear();
        for (std::string x; in >> x;) words.push_back(x);
        if (d != dir) {
            dir = d;
            texts.clear();
            for (int i = 0; i < 1000; ++i) {
                std::ifstream f(dir + "/t" + std::to_string(i), std::ios::binary);
                if (!f) break;
                std::stringstream ss;
                ss << f.rdbuf();
                texts[std::to_string(i)] = ss.str();
            }
        }
        printf("{\"id\": \"%s\"}\n", id.c_str());
        if (s) {
            std::vector<int> v;
            std::stringstream ss(s);
            for (std::string x; std::getline(ss, x, ',');) v.push_back(atoi(x.c_str()));
            replay(v, o, body);
        } else explore(o, body);
        fflush(stdout);
    }
}
