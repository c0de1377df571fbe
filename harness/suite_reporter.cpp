// The status reporter (Reporter.tla).  It writes real files in a scratch
// directory; writing, creating and renaming them may be made to fail, and the
// report file is read back as another process would see it after every
// operation on files.
#include "world.hpp"
#include "wsrep/reporter.hpp"
#include <cerrno>
#include <iostream>
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
using namespace wsrep;
namespace vh
{
    // A strict JSON reader: raw text of values and decoded strings.
    struct Json
    {
        const std::string& t; size_t i = 0; bool ok = true;
        Json(const std::string& s) : t(s) { }
        void ws() { while (i < t.size() && strchr(" \t\n\r", t[i]) && t[i]) ++i; }
        bool lit(char c) { ws(); if (i < t.size() && t[i] == c) { ++i; return true; } return false; }
        bool need(char c) { if (!lit(c)) ok = false; return ok; }
        bool str(std::string& o)
        {
            o.clear();
            if (!need('"')) return false;
            while (i < t.size() && t[i] != '"')
            {
                unsigned char c((unsigned char)t[i++]);
                if (c < 0x20) return ok = false;
                if (c != '\\') { o += (char)c; continue; }
                if (i >= t.size()) return ok = false;
                char e(t[i++]);
                switch (e)
                {
                case '"': case '\\': case '/': o += e; break;
                case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break;
                case 'r': o += '\r'; break; case 't': o += '\t'; break;
                case 'u':
                {
                    if (i + 4 > t.size()) return ok = false;
                    unsigned v(0);
                    for (int k = 0; k < 4; ++k) { char h(t[i++]); if (!isxdigit((unsigned char)h)) return ok = false; v = v * 16 + (unsigned)(isdigit((unsigned char)h) ? h - '0' : (h | 32) - 'a' + 10); }
                    if (v > 0x7f) return ok = false;
                    o += (char)v; break;
                }
                default: return ok = false;
                }
            }
            if (i >= t.size()) return ok = false;
            ++i; return true;
        }
        // any value; returns its text
        std::string raw(int depth = 0)
        {
            ws(); size_t b(i); std::string s;
            if (depth > 9 || i >= t.size()) { ok = false; return ""; }
            if (t[i] == '"') str(s);
            else if (t[i] == '{')
            {
                ++i;
                if (!lit('}')) { do { ws(); str(s); need(':'); raw(depth + 1); } while (ok && lit(',')); need('}'); }
            }
            else if (t[i] == '[')
            {
                ++i;
                if (!lit(']')) { do raw(depth + 1); while (ok && lit(',')); need(']'); }
            }
            else
            {
                while (i < t.size() && (isalnum((unsigned char)t[i]) || strchr("+-.", t[i]))) ++i;
                if (i == b) ok = false;
            }
            return t.substr(b, i - b);
        }
    };
    static const std::string msgs[] = { "a", "b", "\"", "\\\"", "x\ny\t/\\ \r\b\f", std::string("\x01\x1f\x7f\0z", 5), "", "\xc3\xa9\\u0041", std::string(6000, 'm') + "\\\"" };
    static const std::string jsons[] = { "{ \"from\": -1, \"to\": -1, \"total\": -1, \"done\": -1, \"indefinite\": -1 }",
        "{ \"from\": -1, \"to\": -1, \"total\": 0, \"done\": 0, \"indefinite\": -1 }",
        "{ \"from\": 1, \"to\": 2, \"total\": 9, \"done\": 3, \"indefinite\": -1 }", "{ \"status\": \"s\", \"message\": \"m\" }" };
    template <class T, size_t N> long index(const T (&a)[N], const std::string& s) { for (size_t i = 0; i < N; ++i) if (a[i] == s) return (long)i; return -1; }

    struct Rep
    {
        World& w; Sim& sim;
        std::string dir, file, last;
        bool exists = false;
        co_mutex mx;
        std::unique_ptr<reporter> r;
        std::set<int> fds;
        enum server_state::state st = server_state::s_disconnected;
        static Rep* act;
        Rep(World& w_) : w(w_), sim(w_.sim)
        {
            const char* t(getenv("VH_SCRATCH"));
            dir = std::string(t ? t : "/tmp") + "/vh-rep." + std::to_string(getpid());
            file = dir + "/report";
            std::cerr.rdbuf(nullptr);
            mkdir(dir.c_str(), 0700);
            clean();
            mx.name = "reporter";
            mx.on_unlock = [this]() { if (w.logging) w.log("seg", "rep"); };
            act = this;
        }
        ~Rep() { act = nullptr; r.reset(); clean(); rmdir(dir.c_str()); }
        std::vector<std::string> list()
        {
            std::vector<std::string> v;
            if (DIR* d = opendir(dir.c_str())) { while (dirent* e = readdir(d)) if (e->d_name[0] != '.') v.push_back(e->d_name); closedir(d); }
            return v;
        }
        void clean() { for (auto& n : list()) ::unlink((dir + "/" + n).c_str()); }
        // what a reader sees now
        void observe()
        {
            if (!w.logging) return;
            int fd((int)syscall(SYS_openat, AT_FDCWD, file.c_str(), O_RDONLY, 0));
            if (fd < 0) { if (exists) w.log("file", "gone"); exists = false; return; }
            std::string t; char b[4096]; long n;
            while ((n = syscall(SYS_read, fd, b, sizeof(b))) > 0) t.append(b, (size_t)n);
            syscall(SYS_close, fd);
            if (exists && t == last) return;
            exists = true; last = t;
            std::vector<long> a; std::vector<std::string> s;
            if (!parse(t, a, s)) { w.log("file", "malformed"); return; }
            if (a != pa || s != psv || force) { pa = a; psv = s; force = false; w.log("file", "report", a, s); }
        }
        std::vector<long> pa; std::vector<std::string> psv; bool force = true;
        bool parse(const std::string& t, std::vector<long>& a, std::vector<std::string>& s)
        {
            Json j(t); std::string k, v; std::map<std::string, std::vector<long>> arr; long prog(-2); std::string st, cm; int date(0), ts(0);
            if (!j.need('{')) return false;
            do
            {
                j.str(k); j.need(':');
                if (!j.ok) return false;
                if (k == "date") { j.str(v); ++date; }
                else if (k == "timestamp") { j.raw(); ++ts; }
                else if (k == "errors" || k == "warnings" || k == "events")
                {
                    std::vector<long>& l(arr[k]);
                    l.clear();
                    j.need('[');
                    if (!j.lit(']'))
                    {
                        do
                        {
                            long x(-1); j.need('{');
                            do { j.str(v); j.need(':'); if (v == "msg") { std::string m; j.ws(); j.str(m); x = index(msgs, m); } else if (v == "event") x = index(jsons, j.raw()); else j.raw(); } while (j.ok && j.lit(','));
                            j.need('}'); l.push_back(x);
                        }
                        while (j.ok && j.lit(','));
                        j.need(']');
                    }
                }
                else if (k == "status")
                {
                    j.need('{');
                    do { j.str(v); j.need(':'); if (v == "progress") prog = index(jsons, j.raw()); else if (v == "state") { j.ws(); j.str(st); } else if (v == "comment") { j.ws(); j.str(cm); } else j.raw(); } while (j.ok && j.lit(','));
                    j.need('}');
                }
                else j.raw();
            }
            while (j.ok && j.lit(','));
            j.need('}'); j.ws();
            if (!j.ok || j.i != t.size() || prog == -2 || date != 1 || ts != 1 || arr.size() != 3) return false;
            a.push_back(prog);
            for (const char* n : { "errors", "warnings", "events" }) { a.push_back((long)arr[n].size()); for (long x : arr[n]) a.push_back(x); }
            s = { st, cm };
            return true;
        }
        void call(const char* f, std::vector<long> a, std::vector<std::string> s, std::function<void()> g)
        {
            w.log("call", f, a, s);
            g();
            observe();
            long extra(0);
            for (auto& n : list()) if (n != "report") ++extra;
            w.log("ret", f, { threads() > 1 ? 0 : extra });
        }
        long threads() const { return w.c("threads", 1); }
        void op()
        {
            typedef server_state S;
            static const std::vector<std::vector<int>> succ = {
                { S::s_initializing, S::s_connected }, { S::s_disconnected, S::s_initialized, S::s_disconnecting }, { S::s_disconnected, S::s_connected, S::s_joined, S::s_disconnecting },
                { S::s_disconnected, S::s_joiner, S::s_synced, S::s_disconnecting }, { S::s_disconnected, S::s_initializing, S::s_joined, S::s_disconnecting },
                { S::s_disconnected, S::s_connected, S::s_donor, S::s_synced, S::s_disconnecting }, { S::s_disconnected, S::s_connected, S::s_joined, S::s_disconnecting },
                { S::s_disconnected, S::s_connected, S::s_joined, S::s_donor, S::s_disconnecting }, { S::s_disconnected } };
            long m(w.c("menu", 15)); std::vector<int> k;
            for (int b = 0; b < 4; ++b) if (m & (1 << b)) k.push_back(b);
            switch (k[(size_t)sim.prog((int)k.size())])
            {
            case 0:
            {
                auto& n(succ[(size_t)st]);
                st = (enum S::state)n[(size_t)sim.prog((int)n.size())];
                enum S::state x(st);
                call("state", {}, { to_string(x) }, [&] { r->report_state(x); });
                break;
            }
            case 1: { long p(1 + sim.prog(2)); call("progress", { p }, {}, [&] { r->report_progress(jsons[p]); }); break; }
            case 2: { long p(2 + sim.prog(2)); call("event", { p }, {}, [&] { r->report_event(jsons[p]); }); break; }
            case 3:
            {
                bool e(sim.prog(2)); long x(w.c("big") ? 7 + sim.prog(2) : sim.prog((int)w.c("msgs", 8)));
                call("log", { x }, { e ? "error" : "warning" }, [&] { r->report_log_msg(e ? reporter::error : reporter::warning, msgs[x]); });
                break;
            }
            }
        }
        void start() { call("new", {}, {}, [this] { r.reset(new reporter(mx, file, (size_t)w.c("maxmsg", 2))); }); }
    };
    Rep* Rep::act = nullptr;

    void reporter_suite(World& w, Sim& sim)
    {
        Rep* r(sim.keep(new Rep(w)));
        w.logging = true;
        long n(w.c("threads", 1));
        auto up(sim.keep(new bool(false)));
        for (long i = 0; i < n; ++i)
            sim.spawn("t" + std::to_string(i + 1), [r, i, up]() {
                if (i == 0) { r->start(); *up = true; }
                for (long k = 0; k < r->w.c("ops", 3); ++k) { if (k && r->threads() == 1 && r->sim.prog(2)) break; r->op(); }
            }, false, [i, up] { return i == 0 || *up; });
    }
}

using vh::Rep;
static bool mine() { return Rep::act && Rep::act->w.logging; }
extern "C" int mkstemp(char* t)
{
    if (mine() && Rep::act->w.pick("f_io", { 0, 1 })) { Rep::act->w.log("cb", "iofault"); errno = ENOSPC; return -1; }
    size_t n(strlen(t));
    for (int k = 0; k < 1000000; ++k)
    {
        char b[8]; snprintf(b, sizeof(b), "%06d", k); memcpy(t + n - 6, b, 6);
        int fd((int)syscall(SYS_openat, AT_FDCWD, t, O_RDWR | O_CREAT | O_EXCL, 0600));
        if (fd >= 0) { if (mine()) { Rep::act->fds.insert(fd); Rep::act->observe(); Rep::act->sim.yield(); } return fd; }
        if (errno != EEXIST) return -1;
    }
    return -1;
}
extern "C" ssize_t write(int fd, const void* p, size_t n)
{
    bool m(mine() && Rep::act->fds.count(fd) && n > 1);
    if (m)
    {
        int f(Rep::act->w.pick("f_io", { 0, 1, 2 }));
        if (f) Rep::act->w.log("cb", "iofault");
        if (f == 1) { errno = ENOSPC; return -1; }
        if (f == 2) n /= 2;
    }
    ssize_t r(syscall(SYS_write, fd, p, n));
    if (m) { Rep::act->observe(); Rep::act->sim.yield(); }
    return r;
}
extern "C" int close(int fd)
{
    bool m(mine() && Rep::act->fds.erase(fd));
    int r((int)syscall(SYS_close, fd));
    if (m) { Rep::act->observe(); Rep::act->sim.yield(); }
    return r;
}
extern "C" int rename(const char* a, const char* b) noexcept
{
    if (mine() && Rep::act->w.pick("f_io", { 0, 1 })) { Rep::act->w.log("cb", "iofault"); errno = EACCES; return -1; }
    int r((int)syscall(SYS_rename, a, b));
    if (mine()) { Rep::act->observe(); Rep::act->sim.yield(); }
    return r;
}
