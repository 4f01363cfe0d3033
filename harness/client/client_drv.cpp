// Runs the command-line client, its queues, and its limit of open inputs, under explored schedules or freely.
//
// Lines of the standard input:  ID MODE BOUND RUNS SEED DIR WHAT...      (environment SCHED: replay that schedule)
//   MODE   s: explored schedules, n: the threads run freely; f: files are points of a schedule as well,
//          e: threads change at entries of functions, instead
//   DIR    working directory; DIR/out is emptied before every run, and what is in it afterwards is reported
//   WHAT   client ARG...              the client with these arguments, see parseCLI11 below; %XX in an argument is that byte
//          queue THREADS ITEM...      the queues with these inputs: k:NAME with k of o(k) e(rror) u(nknown language) l(anguage
//                                     that does not exist) m(issing file)
//          limit PREFILL MAIN WORD... threads that open and close places
#include "sched.hpp"
#include <srcml.h>
#include <srcml_cli.hpp>
#include <srcml_options.hpp>
#include <ParseQueue.hpp>
#include <WriteQueue.hpp>
#include <OpenFileLimiter.hpp>
#include <SRCMLStatus.hpp>
#include <curl/curl.h>
#include <dirent.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
#include <algorithm>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

int client_main(int argc, char* argv[]);

static std::string dir;
static std::vector<std::string> what;
static int err = -1, out = -1;
static size_t most = 0;         // inputs open at the same time
static bool count_open = false, native = false;

static std::string q(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}

static std::string slurp(const std::string& p) {
    std::ifstream f(p, std::ios::binary);
    std::stringstream ss;
    ss << f.rdbuf();
    return ss.str();
}

static std::string slurp(int fd) {
    std::string r;
    char b[65536];
    lseek(fd, 0, SEEK_SET);
    for (ssize_t n; (n = read(fd, b, sizeof b)) > 0;) r.append(b, n);
    return r;
}

static void walk(const std::string& base, const std::string& rel, bool remove, std::map<std::string, std::string>& files) {
    DIR* d = opendir((base + rel).c_str());
    if (!d) return;
    std::vector<std::string> names;
    while (dirent* e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) names.push_back(e->d_name);
    closedir(d);
    for (auto& n : names) {
        std::string r = rel + "/" + n, p = base + r;
        struct stat s;
        if (lstat(p.c_str(), &s)) continue;
        if (S_ISDIR(s.st_mode)) {
            walk(base, r, remove, files);
            if (remove) rmdir(p.c_str());
        } else if (remove) unlink(p.c_str());
        else if (S_ISREG(s.st_mode)) files[r.substr(1)] = slurp(p);
        else files[r.substr(1)] = "?";
    }
}

// inputs open now
static void opened() {
    if (!count_open) return;
    static bool inside = false;
    if (inside) return;
    inside = true;
    size_t n = 0;
    if (DIR* d = opendir("/proc/self/fd")) {
        while (dirent* e = readdir(d)) {
            char b[4096];
            ssize_t k = readlink((std::string("/proc/self/fd/") + e->d_name).c_str(), b, sizeof b);
            if (k > 0 && std::string(b, k).compare(0, dir.size() + 4, dir + "/in/") == 0) ++n;
        }
        closedir(d);
    }
    most = std::max(most, n);
    inside = false;
}

static void begin() {
    std::map<std::string, std::string> none;
    mkdir((dir + "/out").c_str(), 0755);
    walk(dir + "/out", "", true, none);
    if (chdir(dir.c_str())) _exit(71);
    err = memfd_create("err", 0);
    out = memfd_create("out", 0);
    dup2(err, 2);
    dup2(out, 1);
    for (auto& w : what) if (w == "--full") {
        int full = open("/dev/full", O_WRONLY);
        dup2(full, 1);
        close(full);
    }
    // files can have so many bytes
    for (auto& w : what) if (w.compare(0, 7, "--room=") == 0) {
        signal(SIGXFSZ, SIG_IGN);
        rlimit l;
        getrlimit(RLIMIT_FSIZE, &l);
        l.rlim_cur = atol(w.c_str() + 7);
        setrlimit(RLIMIT_FSIZE, &l);
    }
    int in = open((dir + "/stdin").c_str(), O_RDONLY);
    if (in < 0) in = open("/dev/null", O_RDONLY);
    dup2(in, 0);
    close(in);
}

// what can be seen from outside
static void report(int status) {
    std::cout.flush();
    std::cerr.flush();
    fflush(stdout);
    std::map<std::string, std::string> files;
    walk(dir + "/out", "", false, files);
    std::string r = "{\"op\": \"client\", \"status\": " + std::to_string(status) + ", \"stdout\": " + q(slurp(out)) + ", \"stderr\": " + q(slurp(err)) + ", \"files\": {";
    bool first = true;
    for (auto& f : files) { r += (first ? "" : ", ") + q(f.first) + ": " + q(f.second); first = false; }
    emit(r + "}}");
}

// all places are free: as many as there are can be taken, and no more
static void places() {
    const int n = OpenFileLimiter::MAX_OPEN_FILES;
    for (int i = 0; i < n; ++i) OpenFileLimiter::open();
    bool got = false;
    std::thread t([&] { OpenFileLimiter::open(); got = true; });
    sched_quiesce();
    bool early = got;
    OpenFileLimiter::close();
    t.join();
    for (int i = 0; i < n; ++i) OpenFileLimiter::close();
    emit(std::string("{\"op\": \"places\", \"more\": ") + (early ? "1" : "0") + "}");
}

// the client ends the process where it finds an error
extern "C" void __wrap_exit(int status) {
    report(status);
    emit("{\"op\": \"exit\", \"open\": " + std::to_string(most) + "}");
    sched_end();
    for (;;) pause();
}

// ---------------------------------------------------------------- the client

// the arguments of the client that are used here, as in srcml_cli.cpp
srcml_request_t parseCLI11(int argc, char* argv[]) {
    srcml_request_t r;
    r.markup_options = 0;
    r.max_threads = 4;
    r.tabs = 8;
    r.att_xml_encoding = std::string("UTF-8");
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto next = [&]() -> std::string { return argv[++i]; };
        if (a == "-j") r.max_threads = atoi(next().c_str());
        else if (a == "-o") {
            r.output_filename = srcml_output_dest(next());
            if (r.output_filename.isdirectory || (r.output_filename.extension.empty() && r.output_filename.filename.back() == '/'))
                r.command |= SRCML_COMMAND_TO_DIRECTORY | SRCML_COMMAND_NOARCHIVE;
        }
        else if (a == "--to-dir") { r.output_filename = srcml_output_dest(next()); r.command |= SRCML_COMMAND_TO_DIRECTORY | SRCML_COMMAND_NOARCHIVE; }
        else if (a == "-v") r.command |= SRCML_COMMAND_VERBOSE;
        else if (a == "-q") r.command |= SRCML_COMMAND_QUIET;
        else if (a == "-X") r.command |= SRCML_COMMAND_XML;
        else if (a == "--full" || a.compare(0, 7, "--room=") == 0) {}
        else if (a == "-S") r.command |= SRCML_COMMAND_SRC;
        else if (a == "-r") *r.markup_options |= SRCML_ARCHIVE;
        else if (a == "--cat") r.command |= SRCML_COMMAND_CAT_XML;
        else if (a == "--hash") *r.markup_options |= SRCML_HASH;
        else if (a == "--position") *r.markup_options |= SRCML_OPTION_POSITION;
        else if (a == "--tabs") { r.tabs = atoi(next().c_str()); *r.markup_options |= SRCML_OPTION_POSITION; }
        else if (a == "--cpp") *r.markup_options |= SRCML_OPTION_CPP;
        else if (a == "--cpp-markup-if0") *r.markup_options |= SRCML_OPTION_CPP_MARKUP_IF0;
        else if (a == "--cpp-nomarkup-else") *r.markup_options |= SRCML_OPTION_CPP_TEXT_ELSE;
        else if (a == "--no-xml-declaration") *r.markup_options |= SRCML_OPTION_NO_XML_DECL;
        else if (a == "-t") r.input_sources.push_back(src_prefix_add_uri("text", next()));
        else if (a == "-l") r.att_language = next();
        else if (a == "-f") r.att_filename = next();
        else if (a == "-s") r.att_version = next();
        else if (a == "-U") r.unit = atoi(next().c_str());
        else if (a == "--url") r.att_url = next();
        else if (a == "--files-from") { std::string v = next(); r.files_from.push_back(v); r.input_sources.push_back(src_prefix_add_uri("filelist", v)); }
        else if (a == "--register-ext") r.language_ext.push_back(next());
        else if (a == "--src-encoding") r.src_encoding = next();
        else if (a == "--xml-encoding") r.att_xml_encoding = next();
        else if (a == "--revision") r.revision = (size_t) atoi(next().c_str());
        else if (a == "--eol") { std::string v = next(); r.eol = v == "lf" ? SOURCE_OUTPUT_EOL_LF : v == "cr" ? SOURCE_OUTPUT_EOL_CR : v == "crlf" ? SOURCE_OUTPUT_EOL_CRLF : SOURCE_OUTPUT_EOL_AUTO; }
        else if (a == "--xpath") { r.transformations.push_back(src_prefix_add_uri("xpath", next())); r.xpath_query_support.push_back(std::make_pair(boost::none, boost::none)); }
        else if (a == "--element") { std::string v = next(); r.xpath_query_support.back().first = element{ v.substr(0, v.find(':')), v.substr(v.find(':') + 1) }; }
        else if (a == "--attribute") {
            std::string v = next();
            size_t c = v.find(':'), e = v.find('=');
            attribute t;
            t.prefix = v.substr(0, c);
            t.name = v.substr(c + 1, e - c - 1);
            t.value = v.substr(e + 1);
            r.xpath_query_support.back().second = t;
        }
        else if (a == "--xslt") r.transformations.push_back(src_prefix_add_uri("xslt", next()));
        else if (a == "--xslt-param") r.transformations.push_back(src_prefix_add_uri("xslt-param", next()));
        else if (a == "--relaxng") r.transformations.push_back(src_prefix_add_uri("relaxng", next()));
        else if (a == "--xmlns") { std::string v = next(); r.xmlns_namespaces[v.substr(0, v.find('='))] = v.substr(v.find('=') + 1); r.xmlns_namespace_uris[v.substr(v.find('=') + 1)] = v.substr(0, v.find('=')); }
        else if (a == "--outer") r.command |= SRCML_COMMAND_XML_FRAGMENT | SRCML_COMMAND_XML;
        else if (a == "--inner") r.command |= SRCML_COMMAND_XML_RAW | SRCML_COMMAND_XML;
        else if (a == "--show-url") r.command |= SRCML_COMMAND_DISPLAY_SRCML_URL;
        else if (a == "--show-src-version") r.command |= SRCML_COMMAND_DISPLAY_SRCML_SRC_VERSION;
        else if (a == "--show-timestamp") r.command |= SRCML_COMMAND_DISPLAY_SRCML_TIMESTAMP;
        else if (a == "--show-hash") r.command |= SRCML_COMMAND_DISPLAY_SRCML_HASH;
        else if (a == "--show-encoding") r.command |= SRCML_COMMAND_DISPLAY_SRCML_ENCODING;
        else if (a == "--show-prefix") r.xmlns_prefix_query = next();
        else if (a == "-L") r.command |= SRCML_COMMAND_LIST;
        else if (a == "-i") r.command |= SRCML_COMMAND_INFO;
        else if (a == "-I") r.command |= SRCML_COMMAND_LONGINFO;
        else if (a == "--show-unit-count") r.command |= SRCML_COMMAND_UNITS;
        else if (a == "--show-language") r.command |= SRCML_COMMAND_DISPLAY_SRCML_LANGUAGE;
        else if (a == "--show-filename") r.command |= SRCML_COMMAND_DISPLAY_SRCML_FILENAME;
        else {
            if (a == "-" || a == "stdin://-") r.stdindex = (int) r.input_sources.size();
            r.input_sources.push_back(srcml_input_src(a));
        }
    }
    if (r.output_filename == "")
        r.output_filename = std::string("stdout://-");
    if (r.input_sources.empty()) {
        r.stdindex = 0;
        r.input_sources.push_back(srcml_input_src("stdin://-"));
    }
    if (r.input_sources.size() == 1 && r.input_sources[0].isdirectory) {
        auto url = r.input_sources[0].resource;
        while (url.length() > 0 && (url[0] == '.' || url[0] == '/')) url.erase(0, 1);
        r.att_url = url;
    }
    return r;
}

static void client() {
    begin();
    std::vector<char*> argv;
    std::string name = "srcml";
    argv.push_back(&name[0]);
    for (size_t i = 1; i < what.size(); ++i) argv.push_back(&what[i][0]);
    int n = argv.size();
    argv.push_back(nullptr);
    report(client_main(n, argv.data()));
    if (count_open) emit("{\"op\": \"open\", \"most\": " + std::to_string(most) + "}");
    if (!native) places();
}

// ---------------------------------------------------------------- the queues

// (not every queue can be waited for)
template <class Q> static auto wait_written(Q& pq, int) -> decltype(pq.waitWritten(), true) { pq.waitWritten(); return true; }
template <class Q> static bool wait_written(Q&, long) { return false; }

static void queues() {
    begin();
    SRCMLOptions::set(SRCML_COMMAND_XML | SRCML_COMMAND_VERBOSE);
    srcml_archive* a = srcml_archive_create();
    srcml_archive_set_src_encoding(a, "UTF-8");
    srcml_archive_enable_hash(a);
    char* buf = nullptr;
    size_t size = 0;
    srcml_archive_write_open_memory(a, &buf, &size);
    TraceLog log;
    srcml_output_dest dest;
    int written = -1;
    {
        WriteQueue wq(log, dest);
        ParseQueue pq(atoi(what[1].c_str()), &wq);
        for (size_t i = 2; i < what.size(); ++i) {
            char k = what[i][0];
            if (k == 'w') {
                if (wait_written(pq, 0)) {
                    std::cerr.flush();
                    emit("{\"op\": \"waited\", \"text\": " + q(slurp(err)) + "}");
                }
                continue;
            }
            std::string n = what[i].substr(2);
            std::shared_ptr<ParseRequest> r(new ParseRequest);
            r->srcml_arch = a;
            r->filename = n;
            r->language = "C";
            std::string src = n + ";\n";
            r->buffer.assign(src.begin(), src.end());
            if (k == 'e') { r->status = SRCML_STATUS_IO_ERROR; r->errormsg = "cannot read " + n; }
            else if (k == 'u') { r->status = SRCML_STATUS_UNSET_LANGUAGE; r->language = ""; }
            else if (k == 'l') r->language = "nonesuch";
            else if (k == 'm') r->disk_filename = dir + "/none/" + "absent";
            pq.schedule(r);
        }
        pq.wait();
        wq.stop();
        written = wq.numWritten();
        std::cerr.flush();
        emit("{\"op\": \"log\", \"text\": " + q(slurp(err)) + ", \"count\": " + std::to_string(written) + "}");
    }
    srcml_archive_close(a);
    emit("{\"op\": \"units\", \"xml\": " + q(std::string(buf ? buf : "", size)) + "}");
    srcml_archive_free(a);
    emit("{\"op\": \"threads\", \"n\": " + std::to_string(sched_threads_alive()) + "}");
}

// ---------------------------------------------------------------- the places

static void word(int id, const std::string& w) {
    std::string me = std::to_string(id);
    for (char c : w) {
        if (c == 'o') {
            emit("{\"op\": \"want\", \"t\": " + me + "}");
            OpenFileLimiter::open();
            emit("{\"op\": \"got\", \"t\": " + me + "}");
        } else if (c == 'c') {
            emit("{\"op\": \"gave\", \"t\": " + me + "}");
            OpenFileLimiter::close();
        } else if (c == 'y') sched_point();
        else if (c == 'q') {
            sched_quiesce();
            emit("{\"op\": \"quiet\", \"t\": " + me + "}");
        }
    }
}

static void limit() {
    int pre = atoi(what[1].c_str());
    for (int i = 0; i < pre; ++i) OpenFileLimiter::open();
    emit("{\"op\": \"held\", \"n\": " + std::to_string(pre) + ", \"max\": " + std::to_string((int) OpenFileLimiter::MAX_OPEN_FILES) + "}");
    std::vector<std::thread> ts;
    for (size_t i = 3; i < what.size(); ++i) ts.emplace_back(word, (int) i - 2, what[i]);
    word(0, what[2]);
    for (auto& t : ts) t.join();
    int left = pre + std::count(what[2].begin(), what[2].end(), 'o') - std::count(what[2].begin(), what[2].end(), 'c');
    for (int i = 0; i < left; ++i) OpenFileLimiter::close();
    emit("{\"op\": \"end\", \"n\": " + std::to_string(left) + "}");
    places();
}

static std::string plain(const std::string& s) {
    std::string r;
    for (size_t i = 0; i < s.size(); ++i)
        if (s[i] == '%' && i + 2 < s.size()) { r += (char) strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; }
        else r += s[i];
    return r;
}

int main() {
    if (!freopen("/dev/null", "w", stderr)) return 70;
    const char* s = getenv("SCHED");
    curl_global_init(CURL_GLOBAL_ALL);
    { srcml_archive* a = srcml_archive_create(); srcml_archive_free(a); }
    sched_hook = opened;
    for (std::string line; std::getline(std::cin, line);) {
        std::istringstream in(line);
        SearchOptions o;
        std::string id, mode;
        in >> id >> mode >> o.bound >> o.max_runs >> o.seed >> dir;
        what.clear();
        for (std::string x; in >> x;) what.push_back(plain(x));
        o.native = native = mode[0] == 'n';
        o.entries = mode.find('e') != std::string::npos;
        o.order = mode.find('o') != std::string::npos;
        sched_files = mode.find('f') != std::string::npos;
        count_open = mode.find('c') != std::string::npos;
        o.wall_ms = 30000;
        auto body = what[0] == "client" ? client : what[0] == "queue" ? queues : limit;
        printf("{\"id\": \"%s\"}\n", id.c_str());
        if (s) {
            std::vector<int> v;
            std::stringstream ss(s);
            for (std::string x; std::getline(ss, x, ',');) v.push_back(atoi(x.c_str()));
            replay(v, o, body);
        } else explore(o, body);
        fflush(stdout);
    }
}
