// Runs a sequence of reading operations on archives under explored schedules.
// Lines of the standard input:  ID BOUND RUNS SEED CHUNK DOC0 DOC1 OP...      (environment SCHED: replay that schedule)
// Operations on archive a (0 or 1): io<a> open with callbacks, mem<a>, file<a>; read<a>, skip<a>, again<a> (content of the last
// unit once more), free<a> the last unit, close<a>, gone<a> free the archive.
#include "sched.hpp"
#include <srcml.h>
#include <cstdio>
#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>

static std::string doc[2], path[2];
static std::vector<std::string> ops;
static size_t chunk = 1;

struct Source { size_t pos = 0; int which = 0; int closes = 0; };
static Source source[2];

static std::string slurp(const std::string& p) {
    std::ifstream f(p, std::ios::binary);
    std::stringstream ss;
    ss << f.rdbuf();
    return ss.str();
}

static int rd(void* c, char* buf, int len) {
    Source* s = (Source*) c;
    sched_point();
    size_t n = std::min({(size_t) len, chunk, doc[s->which].size() - s->pos});
    memcpy(buf, doc[s->which].data() + s->pos, n);
    s->pos += n;
    return n;
}
static int cl(void* c) { ++((Source*) c)->closes; return 0; }

static std::string q(const char* s, size_t n) {
    std::string r = "\"";
    for (size_t i = 0; i < n; ++i) {
        unsigned char c = s[i];
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c == 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}
static std::string q(const char* s) { return s ? q(s, strlen(s)) : "null"; }

static std::string content(srcml_unit* u) {
    if (!u) return "null";
    char* b = nullptr; size_t n = 0;
    int st = srcml_unit_unparse_memory(u, &b, &n);
    std::string src = b ? q(b, n) : "null";
    if (b) srcml_memory_free(b);
    return "{\"st\": " + std::to_string(st) + ", \"file\": " + q(srcml_unit_get_filename(u)) + ", \"language\": " + q(srcml_unit_get_language(u))
        + ", \"outer\": " + q(srcml_unit_get_srcml_outer(u)) + ", \"src\": " + src + "}";
}

static srcml_archive* fresh() {
    srcml_archive* a = srcml_archive_create();
    srcml_archive_set_src_encoding(a, "UTF-8");
    return a;
}

static void body() {
    srcml_archive* ar[2] = {fresh(), fresh()};
    srcml_unit* unit[2] = {nullptr, nullptr};
    bool closed[2] = {false, false};
    for (auto& op : ops) {
        if (op.compare(0, 3, "doc") == 0) {         // another document from here on
            path[op[3] - '0'] = op.substr(5);
            doc[op[3] - '0'] = slurp(op.substr(5));
            continue;
        }
        int a = op.back() - '0';
        std::string name = op.substr(0, op.size() - 1), r;
        if (name == "io" || name == "mem" || name == "file") {
            // a unit may be freed after its archive was closed
            if (unit[a] && closed[a]) { srcml_unit_free(unit[a]); unit[a] = nullptr; }
            closed[a] = false;
        }
        if (name == "io") {
            source[a].pos = 0; source[a].which = a; source[a].closes = 0;
            r = std::to_string(srcml_archive_read_open_io(ar[a], &source[a], rd, cl));
        } else if (name == "mem") r = std::to_string(srcml_archive_read_open_memory(ar[a], doc[a].data(), doc[a].size()));
        else if (name == "file") r = std::to_string(srcml_archive_read_open_filename(ar[a], path[a].c_str()));
        else if (name == "read") { unit[a] = srcml_archive_read_unit(ar[a]); r = content(unit[a]); }
        else if (name == "again") r = content(unit[a]);
        else if (name == "skip") r = std::to_string(srcml_archive_skip_unit(ar[a]));
        else if (name == "free") { if (unit[a]) srcml_unit_free(unit[a]); unit[a] = nullptr; r = "0"; }
        else if (name == "close") { srcml_archive_close(ar[a]); closed[a] = true; r = std::to_string(source[a].closes); source[a].closes = 0; }
        else if (name == "gone") { if (unit[a]) srcml_unit_free(unit[a]); unit[a] = nullptr; srcml_archive_free(ar[a]); ar[a] = fresh(); r = std::to_string(source[a].closes); source[a].closes = 0; }
        else exit(71);
        emit("{\"op\": \"" + name + "\", \"a\": " + std::to_string(a) + ", \"r\": " + r + "}");
    }
    emit("{\"op\": \"threads\", \"r\": " + std::to_string(sched_threads_alive()) + "}");
}

int main() {
    if (!freopen("/dev/null", "w", stderr)) return 70;
    const char* s = getenv("SCHED");
    for (std::string line; std::getline(std::cin, line);) {
        std::istringstream in(line);
        SearchOptions o;
        std::string id;
        in >> id >> o.bound >> o.max_runs >> o.seed >> chunk >> path[0] >> path[1];
        for (int i = 0; i < 2; ++i) doc[i] = slurp(path[i]);
        ops.clear();
        for (std::string x; in >> x;) ops.push_back(x);
        printf("{\"id\": \"%s\"}\n", id.c_str());
        if (s) {
            std::vector<int> v;
            std::stringstream ss(s);
            for (std::string x; std::getline(ss, x, ',');) v.push_back(atoi(x.c_str()));
            replay(v, o, body);
        } else explore(o, body);
        fflush(stdout);
    }
}
