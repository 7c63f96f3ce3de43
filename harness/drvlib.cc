#include "drvlib.h"
#include "sysint.h"
#include <arki/runtime.h>
#include <cstdio>
#include <cstring>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <csignal>

namespace verif {

std::map<std::string, Command>& commands()
{
    static std::map<std::string, Command> c;
    return c;
}

static int out_fd = -1;
static int in_fd  = 0;

void reply(const std::string& line)
{
    std::string l = line + "\n";
    size_t p      = 0;
    while (p < l.size())
    {
        ssize_t r = ::write(out_fd, l.data() + p, l.size() - p);
        if (r <= 0)
            _exit(3);
        p += r;
    }
}

static std::string inbuf;
bool read_line(std::string& line)
{
    while (true)
    {
        size_t p = inbuf.find('\n');
        if (p != std::string::npos)
        {
            line  = inbuf.substr(0, p);
            inbuf = inbuf.substr(p + 1);
            return true;
        }
        char b[65536];
        ssize_t r = ::read(in_fd, b, sizeof b);
        if (r <= 0)
            return false;
        inbuf.append(b, r);
    }
}

Args split_args(const std::string& s, char c)
{
    Args res;
    size_t b = 0;
    while (true)
    {
        size_t e = s.find(c, b);
        if (e == std::string::npos)
        {
            res.push_back(s.substr(b));
            return res;
        }
        res.push_back(s.substr(b, e - b));
        b = e + 1;
    }
}

static std::string run_command(const Args& a)
{
    Obj o;
    o.str("cmd", a.empty() ? "" : a[0]);
    try
    {
        auto i = commands().find(a[0]);
        if (i == commands().end())
            throw std::logic_error("verif: unknown command " + a[0]);
        i->second(a, o);
        o.boolean("ok", true);
    }
    catch (std::exception& e)
    {
        o.boolean("ok", false);
        o.str("error", e.what());
    }
    return o.done();
}

static std::string json_events(const std::vector<sysint::Event>& ev)
{
    Arr arr;
    for (auto& e : ev)
    {
        Obj o;
        o.num("n", e.n).str("op", e.op).str("path", e.path);
        if (!e.path2.empty())
            o.str("path2", e.path2);
        o.num("arg", e.arg).num("arg2", e.arg2).num("res", e.res);
        arr.raw(o.done());
    }
    return arr.done();
}

static Args tail(const Args& a, size_t n) { return Args(a.begin() + n, a.end()); }

// Run a command in a forked child; its outcome is what it writes on a pipe
static void run_forked(const Args& cmd, Obj& o, std::function<void()> setup)
{
    if (!sysint::at_buf)
        sysint::at_buf = (char*)mmap(nullptr, sysint::AT_SIZE, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    sysint::at_buf[0] = 0;
    int p[2];
    if (pipe(p) < 0)
        throw std::runtime_error("verif: pipe");
    pid_t pid = fork();
    if (pid == 0)
    {
        alarm(60);
        close(p[0]);
        setup();
        std::string r = run_command(cmd);
        int steps     = sysint::disarm();
        r             = "{\"steps\":" + std::to_string(steps) + ",\"res\":" + r + "}";
        size_t pos    = 0;
        while (pos < r.size())
        {
            ssize_t n = ::write(p[1], r.data() + pos, r.size() - pos);
            if (n <= 0)
                break;
            pos += n;
        }
        _exit(0);
    }
    close(p[1]);
    std::string res;
    char b[65536];
    ssize_t n;
    while ((n = ::read(p[0], b, sizeof b)) > 0) res.append(b, n);
    close(p[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    o.num("status", WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st));
    o.str("at", sysint::at_buf);
    o.raw("child", res.empty() ? "null" : res);
}

static void sched_yield_cb(const char* op, const char* path, long arg)
{
    // SQLite gives up if what it locks in these takes too long: its locks on
    // them are only held for moments, so nobody stops there
    std::string p(path);
    if (p.size() > 4 && p.compare(p.size() - 4, 4, "-shm") == 0)
        return;
    Obj o;
    o.str("yield", op).str("path", path).num("arg", arg);
    reply(o.done());
    std::string l;
    if (!read_line(l))
        _exit(4);
}

static Register r_sysroot("sysroot", [](const Args& a, Obj&) { sysint::set_root(a.at(1)); });
static Register r_chdir("chdir", [](const Args& a, Obj&) {
    if (::chdir(a.at(1).c_str()) < 0)
        throw std::runtime_error("verif: chdir");
});
static Register r_setenv("setenv", [](const Args& a, Obj&) { ::setenv(a.at(1).c_str(), a.at(2).c_str(), 1); });
static Register r_trace("trace", [](const Args& a, Obj& o) {
    sysint::start_trace();
    std::string r = run_command(tail(a, 1));
    auto ev       = sysint::stop_trace();
    o.raw("res", r).raw("events", json_events(ev));
});
// crashat N partial CMD...: run CMD in a child that exits at step N
static Register r_crash("crashat", [](const Args& a, Obj& o) {
    int n     = std::stoi(a.at(1));
    bool part = a.at(2) == "1";
    run_forked(tail(a, 3), o, [=] { sysint::crash_at(n, part); });
});
// failat N ERRNO sticky partial OPS CMD...: run CMD in a child, where step N fails
static Register r_fail("failat", [](const Args& a, Obj& o) {
    int n       = std::stoi(a.at(1));
    int err     = std::stoi(a.at(2));
    bool sticky = a.at(3) == "1", part = a.at(4) == "1";
    std::string ops = a.at(5) == "-" ? "" : a.at(5);
    run_forked(tail(a, 6), o, [=] { sysint::fail_at(n, err, sticky, part, ops); });
});
static Register r_fork("fork", [](const Args& a, Obj& o) { run_forked(tail(a, 1), o, [] {}); });
static Register r_sched("sched", [](const Args& a, Obj&) {
    if (a.at(1) == "1")
        sysint::set_sched(sched_yield_cb);
    else
        sysint::set_sched(nullptr);
});

int main_loop()
{
    // Keep stdout for ourselves, so nothing printed by the library gets in the way
    out_fd = fcntl(1, F_DUPFD_CLOEXEC, 50);
    int dn = open("/dev/null", O_WRONLY);
    dup2(dn, 1);
    close(dn);
    signal(SIGPIPE, SIG_IGN);
    register_scanners();
    arki::init();
    std::string line;
    while (read_line(line))
    {
        if (line.empty())
            continue;
        Args a = split_args(line, '\t');
        if (a[0] == "quit")
            break;
        reply(run_command(a));
    }
    return 0;
}

}
