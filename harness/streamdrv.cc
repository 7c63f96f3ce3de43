// Driver for output streams: runs a sequence of sends, with or without a
// filter, against a scripted environment.
//
// The filter is a helper process (this same program) that reads, writes,
// closes and exits one step at a time when told to, and the reader of the
// destination is here. What they do, and when, is decided by a pseudo random
// scheduler that gets control when the code under test calls poll() or waits
// for the filter, so that the same seed gives the same schedule. A call that
// would wait forever, because nobody else can do anything, is found at once.
#include "drvlib.h"
#include "arki/core/file.h"
#include "arki/stream.h"
#include "arki/stream/base.h"
#include "arki/stream/filter.h"
#include <cerrno>
#include <csignal>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <memory>
#include <poll.h>
#include <random>
#include <sys/ioctl.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace verif;
using namespace arki;

namespace {

struct Hang
{
};

// Bytes at a position of a stream: short sequences are not repeated, so that
// one can tell where some data comes from
uint8_t noise(uint64_t stream, uint64_t pos)
{
    uint64_t x = (pos / 8 + 1) * 0x9E3779B97F4A7C15ull + stream * 0xD1B54A32D192ED03ull;
    x ^= x >> 30;
    x *= 0xBF58476D1CE4E5B9ull;
    x ^= x >> 27;
    x *= 0x94D049BB133111EBull;
    x ^= x >> 31;
    return x >> (8 * (pos % 8));
}

// ---------------------------------------------------------------- helper

struct Request
{
    char op;
    uint32_t n;
};

const unsigned CHUNK = 32768;

struct Reply
{
    int32_t res;
    char data[CHUNK];
};

struct sockaddr_un address(const std::string& path)
{
    struct sockaddr_un a;
    memset(&a, 0, sizeof(a));
    a.sun_family = AF_UNIX;
    strncpy(a.sun_path, path.c_str(), sizeof(a.sun_path) - 1);
    return a;
}

int filter_main(const char* path)
{
    for (int fd = 3; fd < 256; ++fd)
        close(fd);
    int ctl = socket(AF_UNIX, SOCK_SEQPACKET, 0);
    auto to = address(path);
    if (connect(ctl, (struct sockaddr*)&to, sizeof(to)) < 0)
        _exit(98);
    signal(SIGPIPE, SIG_IGN);
    for (int fd = 0; fd < 3; ++fd)
        fcntl(fd, F_SETFL, fcntl(fd, F_GETFL) | O_NONBLOCK);
    uint64_t out = 0;
    static Reply rep;
    static char buf[CHUNK];
    while (true)
    {
        Request r;
        if (recv(ctl, &r, sizeof(r), 0) != sizeof(r))
            _exit(99);
        unsigned n  = r.n > CHUNK ? CHUNK : r.n;
        size_t size = sizeof(int32_t);
        rep.res     = 0;
        switch (r.op)
        {
            case 'r':
                rep.res = read(0, rep.data, n);
                if (rep.res > 0)
                    size += rep.res;
                break;
            case 'w':
                for (unsigned i = 0; i < n; ++i)
                    buf[i] = noise(2, out + i);
                rep.res = write(1, buf, n);
                if (rep.res > 0)
                    out += rep.res;
                break;
            case 'e':
                memset(buf, 'E', n);
                rep.res = write(2, buf, n);
                break;
            case 'i': close(0); break;
            case 'o': close(1); break;
            case 'c': close(2); break;
        }
        if (rep.res < 0)
            rep.res = -errno;
        send(ctl, &rep, size, 0);
        if (r.op == 'x')
            _exit(r.n);
        if (r.op == 'k')
        {
            signal(SIGTERM, SIG_DFL);
            kill(getpid(), r.n);
        }
    }
}

// ----------------------------------------------------------- environment

struct Env
{
    std::mt19937_64 rng;
    std::map<std::string, std::string> conf;
    Arr events;
    bool inside = false;
    bool running = false;

    // What was given to the filter, and what the destination should get
    std::string input, output;
    uint64_t inpos = 0; ///< position in the noise for what gets sent

    // Destination
    std::string kind;
    int dest_r = -1;
    bool dest_open = true;
    std::string path;
    size_t base = 0;
    std::vector<uint8_t> memory;
    long close_dest_at = -1;
    size_t dread = 0;
    unsigned pipecap = 65536;
    double reader_speed = 1, filter_speed = 1;
    bool stall = false;

    // Filter
    pid_t fpid = 0;
    int ctl = -1;
    bool exited = false, seen_eof = false, fin = false, fout = false, ferr = false;
    size_t fread = 0, fwritten = 0, ewritten = 0;
    size_t fout_base = 0;
    long num = 1, den = 1, extra = 0;
    long read_limit = -1; ///< stop reading after this
    long close_out_at = -1;
    size_t held = 65536;  ///< how much input it holds before it has to write
    bool slurp = false, closes = false;
    size_t errsize = 0, err_at = 0;
    int status = 0;
    bool killed = false;
    unsigned idle_polls = 0;

    long num_conf(const std::string& k, long d)
    {
        auto i = conf.find(k);
        return i == conf.end() ? d : atol(i->second.c_str());
    }
    std::string str_conf(const std::string& k, const std::string& d)
    {
        auto i = conf.find(k);
        return i == conf.end() ? d : i->second;
    }

    double rnd() { return std::uniform_real_distribution<double>(0, 1)(rng); }
    size_t upto(size_t n) { return n < 1 ? 0 : std::uniform_int_distribution<size_t>(1, n)(rng); }
    size_t some()
    {
        static const size_t sizes[] = {1, 7, 100, 1000, 4096, 5000, 16384, 32768};
        return upto(sizes[upto(8) - 1]);
    }

    void ev(Obj& o) { events.raw(o.done()); }
    Obj mk(const std::string& op)
    {
        Obj o;
        o.str("op", op).boolean("err", false);
        return o;
    }

    // Which intervals of expected does data come from, if it should start at pos
    static std::string intervals(const std::string& expected, size_t pos, const char* data, size_t size)
    {
        Arr res;
        size_t i = 0;
        unsigned count = 0;
        while (i < size)
        {
            size_t len = 0;
            while (i + len < size && pos + len < expected.size() && expected[pos + len] == data[i + len])
                ++len;
            if (len)
            {
                Arr a;
                a.num(pos).num(pos + len);
                res.raw(a.done());
                i += len;
                pos += len;
                if (i == size)
                    break;
            }
            // Not what comes next: look where it is from
            size_t w   = std::min<size_t>(8, size - i);
            auto found = expected.find(std::string(data + i, w));
            if (found == std::string::npos || ++count > 20)
            {
                Arr a;
                a.num(-1).num(-1);
                res.raw(a.done());
                break;
            }
            pos = found;
        }
        return res.done();
    }

    // -- filter

    Reply* ask(char op, uint32_t n = 0)
    {
        static Reply rep;
        Request r;
        memset(&r, 0, sizeof(r));
        r.op = op;
        r.n  = n;
        if (send(ctl, &r, sizeof(r), MSG_NOSIGNAL) < 0)
        {
            reap();
            rep.res = -EPIPE;
            return &rep;
        }
        if (recv(ctl, &rep, sizeof(rep), 0) <= 0)
        {
            reap();
            rep.res = -EPIPE;
        }
        return &rep;
    }

    void reap()
    {
        if (exited)
            return;
        siginfo_t si;
        while (waitid(P_PID, fpid, &si, WEXITED | WNOWAIT) < 0 && errno == EINTR)
            ;
        exited = true;
        fin = fout = ferr = false;
        Obj o = mk("FExit");
        o.num("st", si.si_code == CLD_EXITED ? si.si_status : 1000 + si.si_status);
        ev(o);
    }

    bool input_over() const { return seen_eof || !fin; }
    long target() const
    {
        if (close_out_at >= 0 && (long)fread >= close_out_at)
            return fwritten;
        return (long)fread * num / den + (input_over() ? extra : 0);
    }

    bool f_read()
    {
        size_t n = some();
        if (read_limit >= 0)
            n = std::min<size_t>(n, read_limit - fread);
        if (!n)
            return false;
        Reply* r = ask('r', n);
        if (r->res < 0)
            return false;
        Obj o = mk("FRead");
        o.raw("iv", intervals(input, fread, r->data, r->res));
        o.boolean("eof", r->res == 0);
        ev(o);
        fread += r->res;
        if (r->res == 0)
            seen_eof = true;
        return true;
    }

    bool f_write()
    {
        size_t n = std::min<size_t>(target() - fwritten, some());
        Reply* r = ask('w', n);
        if (r->res == -EPIPE && !exited)
        {
            // Nobody wants our output any more
            Obj o = mk("FPipe");
            ev(o);
            f_exit();
            return true;
        }
        if (r->res <= 0)
            return false;
        for (int i = 0; i < r->res; ++i)
            output += noise(2, fwritten + i);
        fwritten += r->res;
        Obj o = mk("FWrite");
        o.num("n", r->res);
        ev(o);
        return true;
    }

    bool f_err()
    {
        Reply* r = ask('e', std::min<size_t>(errsize - ewritten, some()));
        if (r->res == -EPIPE && !exited)
        {
            f_exit();
            return true;
        }
        if (r->res <= 0)
            return false;
        ewritten += r->res;
        Obj o = mk("FErr");
        o.num("n", r->res);
        ev(o);
        return true;
    }

    void f_close(char op)
    {
        bool& flag = op == 'i' ? fin : op == 'o' ? fout : ferr;
        if (!flag)
            return;
        ask(op);
        flag = false;
        Obj o = mk("FClose");
        o.str("fd", op == 'i' ? "in" : op == 'o' ? "out" : "err");
        ev(o);
    }

    void f_exit()
    {
        ask(killed ? 'k' : 'x', killed ? SIGTERM : status);
        reap();
    }

    bool f_step()
    {
        if (!fpid || exited)
            return false;
        bool stops  = read_limit >= 0 && (long)fread >= read_limit;
        if (stops && fin && closes)
        {
            f_close('i');
            return true;
        }
        if (close_out_at >= 0 && (long)fread >= close_out_at && fout)
        {
            f_close('o');
            return true;
        }
        bool over      = input_over() || stops;
        size_t pending = fout ? target() - fwritten : 0;
        bool can_read  = fin && !seen_eof && !stops && (slurp || pending < held);
        bool can_write = pending > 0 && (!slurp || over);
        bool can_err   = ferr && ewritten < errsize && (fread >= err_at || over);
        for (unsigned turn = upto(3), i = 0; i < 3; ++i, ++turn)
        {
            if (turn % 3 == 0 && can_read && f_read())
                return true;
            if (turn % 3 == 1 && can_write && f_write())
                return true;
            if (turn % 3 == 2 && can_err && f_err())
                return true;
        }
        if (over && !pending && !can_err)
        {
            if (closes && fout && rnd() < 0.5)
                f_close('o');
            else if (closes && ferr && rnd() < 0.5)
                f_close('c');
            else
                f_exit();
            return true;
        }
        return false;
    }

    // -- destination

    size_t queued()
    {
        if (kind == "pipe")
        {
            int n = 0;
            if (dest_open)
                ioctl(dest_r, FIONREAD, &n);
            return n;
        }
        if (kind == "memory")
            return memory.size() - dread;
        struct stat st;
        if (stat(path.c_str(), &st) < 0)
            return 0;
        return st.st_size - base - dread;
    }

    void got(const char* data, size_t size)
    {
        Obj o = mk("DRead");
        o.raw("iv", intervals(output, dread, data, size));
        ev(o);
        dread += size;
    }

    bool d_close()
    {
        close(dest_r);
        dest_open = false;
        Obj o = mk("DClose");
        ev(o);
        return true;
    }

    bool d_step(size_t n)
    {
        if (kind != "pipe" || !dest_open)
            return false;
        if (close_dest_at >= 0 && (long)dread >= close_dest_at)
            return d_close();
        if (stall && (long)dread > (long)output.size() / 2)
            return false;
        std::string buf(n, 0);
        if (close_dest_at >= 0)
            n = std::min<size_t>(n, close_dest_at - dread);
        ssize_t r = ::read(dest_r, &buf[0], n);
        if (r <= 0)
            return false;
        got(buf.data(), r);
        return true;
    }

    void d_rest()
    {
        if (kind == "pipe")
        {
            stall = false;
            close_dest_at = -1;
            while (d_step(65536))
                ;
        }
        else if (kind == "memory")
            got((const char*)memory.data() + dread, memory.size() - dread);
        else
        {
            int fd = open(path.c_str(), O_RDONLY);
            std::string buf(queued() + 1, 0);
            ssize_t r = pread(fd, &buf[0], buf.size(), base);
            if (r > 0)
                got(buf.data(), r);
            close(fd);
        }
    }

    // One step of somebody; false if nobody can do anything
    bool step()
    {
        bool first_filter = rnd() * (reader_speed + filter_speed) < filter_speed;
        if (first_filter)
            return f_step() || d_step(some());
        return d_step(some()) || f_step();
    }

    void hang(const char* where)
    {
        Obj o = mk("Hang");
        o.str("where", where);
        ev(o);
        running = false;
        if (fpid && !exited)
            kill(fpid, SIGKILL);
        throw Hang();
    }
};

Env* env = nullptr;

template <typename F> F next(const char* name)
{
    return (F)dlsym(RTLD_NEXT, name);
}

int sched_poll(struct pollfd* fds, nfds_t nfds, int timeout)
{
    static auto real = next<int (*)(struct pollfd*, nfds_t, int)>("poll");
    if (!env || !env->running || env->inside)
        return real(fds, nfds, timeout);
    env->inside = true;
    struct Out
    {
        ~Out() { env->inside = false; }
    } out;
    bool progress = false;
    while (env->rnd() < 0.6 && env->step())
        progress = true;
    while (true)
    {
        int r = real(fds, nfds, 0);
        if (r != 0)
        {
            if (progress)
                env->idle_polls = 0;
            else if (++env->idle_polls > 500)
            {
                // It is going in circles: it is a hang if it is not waiting for somebody who can do something
                env->idle_polls = 0;
                if (!env->step())
                {
                    if (timeout < 0)
                        env->hang("circles");
                    Obj o = env->mk("Timeout");
                    env->ev(o);
                    return 0;
                }
            }
            return r;
        }
        if (timeout >= 0 && env->stall && env->rnd() < 0.05)
        {
            Obj o = env->mk("Timeout");
            env->ev(o);
            return 0;
        }
        progress = true;
        env->idle_polls = 0;
        if (!env->step())
        {
            if (timeout >= 0)
            {
                Obj o = env->mk("Timeout");
                env->ev(o);
                return 0;
            }
            env->hang("poll");
        }
    }
}

} // namespace

extern "C" {

int poll(struct pollfd* fds, nfds_t nfds, int timeout) { return sched_poll(fds, nfds, timeout); }

pid_t waitpid(pid_t pid, int* st, int flags)
{
    static auto real = next<pid_t (*)(pid_t, int*, int)>("waitpid");
    if (!env || !env->running || env->inside || pid != env->fpid)
        return real(pid, st, flags);
    env->inside = true;
    struct Out
    {
        ~Out() { env->inside = false; }
    } out;
    while (!env->exited)
    {
        if (env->step())
            continue;
        // Ended by somebody else?
        siginfo_t si;
        si.si_pid = 0;
        if (waitid(P_PID, pid, &si, WEXITED | WNOWAIT | WNOHANG) == 0 && si.si_pid == pid)
            env->reap();
        else if (flags & WNOHANG)
            break;
        else
            env->hang("wait");
    }
    return real(pid, st, flags);
}

int pipe(int* fds) __THROW
{
    static auto real = next<int (*)(int*)>("pipe");
    int r            = real(fds);
    if (r == 0 && env && env->running)
        fcntl(fds[1], F_SETPIPE_SZ, env->pipecap);
    return r;
}
}

namespace {

std::string what_of(const std::exception& e) { return e.what(); }

// episode SEED DIR key=value... ; op op op
//  b:SIZE l:SIZE f:SIZE:OFFSET:MISSING  F (start filter)  S (stop filter)
Register r_episode("episode", [](const Args& a, Obj& o) {
    Env e;
    env = &e;
    e.rng.seed(std::stoull(a.at(1)));
    std::string dir = a.at(2);
    size_t i = 3;
    for (; i < a.size() && a[i] != ";"; ++i)
    {
        auto p = a[i].find('=');
        e.conf[a[i].substr(0, p)] = a[i].substr(p + 1);
    }
    Args ops(a.begin() + i + 1, a.end());
    signal(SIGPIPE, SIG_IGN);
    alarm(40);

    e.kind          = e.str_conf("dest", "pipe");
    e.pipecap       = e.num_conf("cap", 65536);
    e.close_dest_at = e.num_conf("dclose", -1);
    e.reader_speed  = e.num_conf("rspeed", 10);
    e.filter_speed  = e.num_conf("fspeed", 10);
    e.stall         = e.num_conf("stall", 0);
    e.num           = e.num_conf("num", 1);
    e.den           = e.num_conf("den", 1);
    e.extra         = e.num_conf("extra", 0);
    e.read_limit    = e.num_conf("limit", -1);
    e.close_out_at  = e.num_conf("outclose", -1);
    e.held          = e.num_conf("held", 65536);
    e.slurp         = e.num_conf("slurp", 0);
    e.closes        = e.num_conf("closes", 0);
    e.errsize       = e.num_conf("errsize", 0);
    e.err_at        = e.num_conf("errat", 0);
    e.status        = e.num_conf("status", 0);
    e.killed        = e.num_conf("killed", 0);
    int timeout     = e.num_conf("timeout", 0);
    long fsize      = e.num_conf("fsize", -1);

    std::unique_ptr<StreamOutput> out;
    std::shared_ptr<core::NamedFileDescriptor> fd;
    if (e.kind == "pipe")
    {
        int p[2];
        if (pipe2(p, 0) < 0)
            throw std::runtime_error("verif: pipe");
        fcntl(p[1], F_SETPIPE_SZ, e.num_conf("dcap", e.pipecap));
        fcntl(p[0], F_SETFL, O_NONBLOCK);
        e.dest_r = p[0];
        fd       = std::make_shared<core::NamedFileDescriptor>(p[1], "destination");
    }
    else if (e.kind != "memory")
    {
        e.path = dir + "/out";
        e.base = e.num_conf("base", 0);
        {
            int f = open(e.path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666);
            std::string b(e.base, 'b');
            if (write(f, b.data(), b.size()) != (ssize_t)b.size())
                throw std::runtime_error("verif: write");
            close(f);
        }
        int f = open(e.path.c_str(), O_WRONLY | (e.kind == "append" ? O_APPEND : 0));
        if (e.kind != "append")
            lseek(f, e.base, SEEK_SET);
        fd = std::make_shared<core::NamedFileDescriptor>(f, "destination");
        if (fsize >= 0)
        {
            signal(SIGXFSZ, SIG_IGN);
            struct rlimit rl;
            getrlimit(RLIMIT_FSIZE, &rl);
            rl.rlim_cur = e.base + fsize;
            setrlimit(RLIMIT_FSIZE, &rl);
        }
    }
    out = e.kind == "memory" ? StreamOutput::create(e.memory) : StreamOutput::create(fd, timeout);

    // Where filtered data begins in what is expected
    bool filtered = false, broken = false;
    stream::FilterProcess* flt = nullptr;

    auto measure = [&](Obj& o) {
        o.num("queued", e.queued());
        int n = -1;
        if (filtered && flt && flt->cmd.get_stdin() != -1)
            ioctl(flt->cmd.get_stdin(), FIONREAD, &n);
        o.num("fqueued", n);
    };

    std::vector<uint8_t> data;
    auto make = [&](size_t n) {
        data.resize(n);
        for (size_t k = 0; k < n; ++k)
            data[k] = noise(1, e.inpos++);
    };
    auto offer = [&](const std::string& s) { (filtered ? e.input : e.output) += s; };

    try
    {
        e.running = true;
        for (const auto& op : ops)
        {
            if (broken)
                break;
            auto p = split_args(op, ':');
            if (p[0] == "F")
            {
                std::string path = dir + "/ctl";
                unlink(path.c_str());
                int s   = socket(AF_UNIX, SOCK_SEQPACKET, 0);
                auto at = address(path);
                if (bind(s, (struct sockaddr*)&at, sizeof(at)) < 0 || listen(s, 1) < 0)
                    throw std::runtime_error("verif: socket");
                flt   = out->start_filter({"/proc/self/exe", "filter", path});
                e.ctl = accept(s, nullptr, nullptr);
                close(s);
                e.fpid = flt->cmd.pid();
                e.fin = e.fout = e.ferr = true;
                filtered                = true;
                Obj o = e.mk("Start");
                e.ev(o);
                continue;
            }
            if (p[0] == "S")
            {
                Obj b = e.mk("StopBegin");
                e.ev(b);
                Obj o = e.mk("StopEnd");
                try
                {
                    auto f = out->stop_filter();
                    o.num("rc", f->cmd.raw_returncode());
                    o.num("errors", f->errors.str().size());
                    o.num("insize", f->size_stdin).num("outsize", f->size_stdout);
                    try
                    {
                        f->check_for_errors();
                        o.str("res", "ok");
                    }
                    catch (std::exception& ex)
                    {
                        o.str("res", "filter").str("what", what_of(ex));
                    }
                }
                catch (stream::TimedOut& ex)
                {
                    o.str("res", "timeout").str("what", what_of(ex));
                    broken = true;
                }
                catch (std::exception& ex)
                {
                    o.str("res", "err").str("what", what_of(ex));
                    broken = true;
                }
                filtered = false;
                flt = nullptr;
                measure(o);
                e.ev(o);
                // What has to come now is no more for the filter
                e.fpid = 0;
                continue;
            }
            size_t size  = std::stoul(p.at(1));
            size_t begin = filtered ? e.input.size() : e.output.size();
            make(size);
            std::string s((const char*)data.data(), size);
            size_t missing = 0;
            if (p[0] == "l")
                s += "\n";
            if (p[0] == "f")
            {
                missing = std::stoul(p.at(3));
                s.resize(s.size() - missing);
            }
            offer(s);
            {
                Obj o = e.mk("SendBegin");
                o.str("how", p[0]).num("size", s.size()).num("missing", missing);
                e.ev(o);
            }
            (void)begin;
            Obj o = e.mk("SendEnd");
            bool eof = false;
            try
            {
                stream::SendResult r;
                if (p[0] == "b")
                    r = out->send_buffer(data.data(), size);
                else if (p[0] == "l")
                    r = out->send_line(data.data(), size);
                else
                {
                    size_t off       = std::stoul(p.at(2));
                    std::string path = dir + "/in";
                    struct rlimit rl, big;
                    getrlimit(RLIMIT_FSIZE, &rl);
                    big          = rl;
                    big.rlim_cur = rl.rlim_max;
                    setrlimit(RLIMIT_FSIZE, &big);
                    {
                        int f = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666);
                        std::string c = std::string(off, 'x') + s + (missing ? "" : std::string(size % 7, 'y'));
                        if (write(f, c.data(), c.size()) != (ssize_t)c.size())
                            throw std::runtime_error("verif: write");
                        close(f);
                    }
                    setrlimit(RLIMIT_FSIZE, &rl);
                    core::File in(path, O_RDONLY);
                    r = out->send_file_segment(in, off, size);
                }
                eof = r.flags & stream::SendResult::SEND_PIPE_EOF_DEST;
                o.str("res", eof ? "eofdst" : (r.flags & stream::SendResult::SEND_PIPE_EOF_SOURCE) ? "eofsrc" : "ok");
                if (r.flags & stream::SendResult::SEND_PIPE_EOF_SOURCE)
                    broken = true;
                measure(o);
                e.ev(o);
            }
            catch (std::exception& ex)
            {
                broken = true;
                o.str("res", dynamic_cast<stream::TimedOut*>(&ex) ? "timeout" : "err").str("what", what_of(ex));
                measure(o);
                e.ev(o);
            }
            if (broken && filtered)
            {
                // As when a query fails
                Obj b = e.mk("AbortBegin");
                e.ev(b);
                out->abort_filter();
                filtered = false;
                Obj o = e.mk("AbortEnd");
                o.boolean("gone", waitid(P_PID, e.fpid, nullptr, WEXITED | WNOWAIT | WNOHANG) < 0);
                e.ev(o);
                e.fpid = 0;
            }
            if (eof)
            {
                // There is nobody to send more data to
                if (!filtered)
                    break;
                Args rest = {"S"};
                Obj b     = e.mk("StopBegin");
                e.ev(b);
                Obj o = e.mk("StopEnd");
                try
                {
                    auto f = out->stop_filter();
                    o.num("rc", f->cmd.raw_returncode()).num("errors", f->errors.str().size());
                    o.num("insize", f->size_stdin).num("outsize", f->size_stdout);
                    try
                    {
                        f->check_for_errors();
                        o.str("res", "ok");
                    }
                    catch (std::exception& ex)
                    {
                        o.str("res", "filter");
                    }
                }
                catch (std::exception& ex)
                {
                    o.str("res", "err").str("what", what_of(ex));
                }
                filtered = false;
                measure(o);
                e.ev(o);
                e.fpid = 0;
                break;
            }
        }
        e.running = false;
        e.d_rest();
        Obj end = e.mk("End");
        e.ev(end);
    }
    catch (Hang&)
    {
    }
    env = nullptr;
    o.raw("events", e.events.done());
});

} // namespace

int main(int argc, char* argv[])
{
    if (argc == 3 && std::string(argv[1]) == "filter")
        return filter_main(argv[2]);
    return main_loop();
}
