#include "sysint.h"
#include <climits>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <errno.h>
#include <fcntl.h>
#include <mutex>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

namespace sysint {

static std::string root;
static bool tracing = false;
static std::vector<Event> events;
static int counter      = 0;
static int crash_n      = -1;
static bool crash_part  = false;
static int fail_n       = -1;
static int fail_err     = 0;
static bool fail_sticky = false, fail_part = false;
static std::string fail_ops;
static bool armed = false;
static void (*sched_yield_fn)(const char*, const char*, long) = nullptr;
static std::recursive_mutex mx;
static thread_local int inside = 0;

void set_root(const std::string& r) { root = r; }
void start_trace()
{
    events.clear();
    counter = 0;
    tracing = true;
}
std::vector<Event> stop_trace()
{
    tracing = false;
    return std::move(events);
}
void crash_at(int n, bool partial)
{
    counter = 0, crash_n = n, crash_part = partial, armed = true;
}
void fail_at(int n, int err, bool sticky, bool partial, const std::string& ops)
{
    counter = 0, fail_n = n, fail_err = err, fail_sticky = sticky, fail_part = partial, fail_ops = ops, armed = true;
}
int disarm()
{
    int r   = counter;
    armed   = false;
    crash_n = fail_n = -1;
    return r;
}
void set_sched(void (*y)(const char*, const char*, long)) { sched_yield_fn = y; }
void sched_point(const char* op, const char* path)
{
    if (!sched_yield_fn || inside)
        return;
    inside++;
    sched_yield_fn(op, path, 0);
    inside--;
}

static bool active() { return !root.empty() && !inside && (tracing || armed || sched_yield_fn); }

static bool under(const char* p, std::string& rel)
{
    std::string s(p);
    // Normalise duplicate slashes
    std::string o;
    for (char c : s)
        if (c != '/' || o.empty() || o.back() != '/')
            o += c;
    if (o.compare(0, root.size(), root) != 0)
        return false;
    if (o.size() == root.size())
    {
        rel = ".";
        return true;
    }
    if (o[root.size()] != '/')
        return false;
    rel = o.substr(root.size() + 1);
    return true;
}

static bool path_of(const char* path, int dirfd, std::string& rel)
{
    if (!path)
        return false;
    if (path[0] == '/')
        return under(path, rel);
    char buf[PATH_MAX];
    if (dirfd == AT_FDCWD)
    {
        if (syscall(SYS_getcwd, buf, sizeof buf) < 0)
            return false;
    }
    else
    {
        char lnk[64];
        snprintf(lnk, 64, "/proc/self/fd/%d", dirfd);
        ssize_t r = syscall(SYS_readlink, lnk, buf, sizeof buf - 1);
        if (r < 0)
            return false;
        buf[r] = 0;
    }
    std::string p(path);
    while (p.compare(0, 2, "./") == 0) p = p.substr(2);
    return under((std::string(buf) + "/" + p).c_str(), rel);
}

static bool path_of_fd(int fd, std::string& rel)
{
    char lnk[64], buf[PATH_MAX];
    snprintf(lnk, 64, "/proc/self/fd/%d", fd);
    ssize_t r = syscall(SYS_readlink, lnk, buf, sizeof buf - 1);
    if (r < 0)
        return false;
    buf[r] = 0;
    return under(buf, rel);
}

enum Action { PROCEED, FAIL, PARTIAL_EXIT, PARTIAL_FAIL };

static bool opmatch(const char* op)
{
    if (fail_ops.empty())
        return true;
    return ("," + fail_ops + ",").find(std::string(",") + op + ",") != std::string::npos;
}

char* at_buf = nullptr;

// Called for each step. Returns what to do
static Action step(const char* op, const std::string& path, const std::string& path2, long arg, long arg2)
{
    inside++;
    if (sched_yield_fn)
        sched_yield_fn(op, path.c_str(), arg);
    std::lock_guard<std::recursive_mutex> l(mx);
    Action res = PROCEED;
    if (armed)
    {
        if (at_buf && ((crash_n >= 0 && counter == crash_n) || (fail_n >= 0 && opmatch(op) && counter == fail_n)))
            snprintf(at_buf, AT_SIZE, "%s %s", op, path.c_str());
        if (crash_n >= 0 && counter == crash_n)
        {
            if (crash_part && strcmp(op, "write") == 0)
                res = PARTIAL_EXIT;
            else
                _exit(77);
        }
        if (fail_n >= 0 && opmatch(op) && (counter == fail_n || (fail_sticky && counter > fail_n)))
            res = fail_part && strcmp(op, "write") == 0 ? PARTIAL_FAIL : FAIL;
    }
    bool count = fail_n < 0 || opmatch(op);
    if (tracing)
    {
        Event e;
        e.n = counter, e.op = op, e.path = path, e.path2 = path2, e.arg = arg, e.arg2 = arg2;
        e.res = res == PROCEED ? 0 : fail_err;
        events.push_back(e);
    }
    if (count)
        ++counter;
    inside--;
    return res;
}

static void note_unlocked(const char* op, const std::string& path, long arg)
{
    inside++;
    if (tracing)
    {
        std::lock_guard<std::recursive_mutex> l(mx);
        Event e;
        e.n = counter, e.op = op, e.path = path, e.arg = arg;
        events.push_back(e);
    }
    inside--;
}

}

using namespace sysint;

#define FAIL_IF(cond) \
    if (cond)         \
    {                 \
        errno = fail_err; \
        return -1;    \
    }

extern "C" {

ssize_t write(int fd, const void* buf, size_t n)
{
    std::string p;
    if (active() && path_of_fd(fd, p))
    {
        off_t pos = syscall(SYS_lseek, fd, 0, SEEK_CUR);
        switch (step("write", p, "", pos, n))
        {
            case PROCEED:      break;
            case FAIL:         errno = fail_err; return -1;
            case PARTIAL_EXIT: syscall(SYS_write, fd, buf, n / 2); _exit(77);
            case PARTIAL_FAIL:
            {
                static bool second = false;
                if (n > 1 && !second)
                {
                    second = !fail_sticky;
                    return syscall(SYS_write, fd, buf, n / 2);
                }
                errno = fail_err;
                return -1;
            }
        }
    }
    return syscall(SYS_write, fd, buf, n);
}

static ssize_t do_pwrite(int fd, const void* buf, size_t n, off_t off)
{
    std::string p;
    if (active() && path_of_fd(fd, p))
        switch (step("write", p, "", off, n))
        {
            case PROCEED:      break;
            case FAIL:         
            case PARTIAL_FAIL: errno = fail_err; return -1;
            case PARTIAL_EXIT: syscall(SYS_pwrite64, fd, buf, n / 2, off); _exit(77);
        }
    return syscall(SYS_pwrite64, fd, buf, n, off);
}
ssize_t pwrite(int fd, const void* buf, size_t n, off_t off) { return do_pwrite(fd, buf, n, off); }
ssize_t pwrite64(int fd, const void* buf, size_t n, off64_t off) { return do_pwrite(fd, buf, n, off); }

ssize_t writev(int fd, const struct iovec* iov, int cnt)
{
    std::string p;
    if (active() && path_of_fd(fd, p))
    {
        off_t pos = syscall(SYS_lseek, fd, 0, SEEK_CUR);
        size_t n  = 0;
        for (int i = 0; i < cnt; ++i) n += iov[i].iov_len;
        switch (step("write", p, "", pos, n))
        {
            case PROCEED:      break;
            case FAIL:         
            case PARTIAL_FAIL: errno = fail_err; return -1;
            case PARTIAL_EXIT: syscall(SYS_writev, fd, iov, cnt > 1 ? cnt - 1 : cnt); _exit(77);
        }
    }
    return syscall(SYS_writev, fd, iov, cnt);
}

ssize_t sendfile(int out, int in, off_t* off, size_t n)
{
    std::string p;
    if (active() && path_of_fd(out, p))
        FAIL_IF(step("write", p, "", syscall(SYS_lseek, out, 0, SEEK_CUR), n) != PROCEED);
    return syscall(SYS_sendfile, out, in, off, n);
}
ssize_t sendfile64(int out, int in, off64_t* off, size_t n) { return sendfile(out, in, (off_t*)off, n); }

int ftruncate(int fd, off_t len)
{
    std::string p;
    if (active() && path_of_fd(fd, p))
        FAIL_IF(step("truncate", p, "", len, 0) != PROCEED);
    return syscall(SYS_ftruncate, fd, len);
}
int ftruncate64(int fd, off64_t len) { return ftruncate(fd, len); }
int truncate(const char* path, off_t len)
{
    std::string p;
    if (active() && path_of(path, AT_FDCWD, p))
        FAIL_IF(step("truncate", p, "", len, 0) != PROCEED);
    return syscall(SYS_truncate, path, len);
}

int fsync(int fd)
{
    std::string p;
    if (active() && path_of_fd(fd, p))
        FAIL_IF(step("fsync", p, "", 0, 0) != PROCEED);
    return syscall(SYS_fsync, fd);
}
int fdatasync(int fd)
{
    std::string p;
    if (active() && path_of_fd(fd, p))
        FAIL_IF(step("fsync", p, "", 1, 0) != PROCEED);
    return syscall(SYS_fdatasync, fd);
}

static int do_renameat(int d1, const char* a, int d2, const char* b)
{
    std::string p, p2;
    if (active() && path_of(a, d1, p))
    {
        path_of(b, d2, p2);
        FAIL_IF(step("rename", p, p2, 0, 0) != PROCEED);
    }
    return syscall(SYS_renameat, d1, a, d2, b);
}
int renameat2(int d1, const char* a, int d2, const char* b, unsigned flags)
{
    std::string p, p2;
    if (active() && path_of(a, d1, p))
    {
        path_of(b, d2, p2);
        FAIL_IF(step("rename", p, p2, 0, 0) != PROCEED);
    }
    return syscall(SYS_renameat2, d1, a, d2, b, flags);
}
int rename(const char* a, const char* b) { return do_renameat(AT_FDCWD, a, AT_FDCWD, b); }
int renameat(int d1, const char* a, int d2, const char* b) { return do_renameat(d1, a, d2, b); }
int link(const char* a, const char* b)
{
    std::string p;
    if (active() && path_of(b, AT_FDCWD, p))
        FAIL_IF(step("create", p, "", 2, 0) != PROCEED);
    return syscall(SYS_linkat, AT_FDCWD, a, AT_FDCWD, b, 0);
}

static int do_unlinkat(int d, const char* a, int flags)
{
    std::string p;
    if (active() && path_of(a, d, p))
        FAIL_IF(step(flags & AT_REMOVEDIR ? "rmdir" : "unlink", p, "", 0, 0) != PROCEED);
    return syscall(SYS_unlinkat, d, a, flags);
}
int unlink(const char* a) { return do_unlinkat(AT_FDCWD, a, 0); }
int unlinkat(int d, const char* a, int flags) { return do_unlinkat(d, a, flags); }
int rmdir(const char* a) { return do_unlinkat(AT_FDCWD, a, AT_REMOVEDIR); }
int remove(const char* a)
{
    struct stat st;
    if (syscall(SYS_newfstatat, AT_FDCWD, a, &st, AT_SYMLINK_NOFOLLOW) < 0)
        return -1;
    return do_unlinkat(AT_FDCWD, a, S_ISDIR(st.st_mode) ? AT_REMOVEDIR : 0);
}

int mkdirat(int d, const char* a, mode_t m)
{
    std::string p;
    struct stat st;
    if (active() && path_of(a, d, p) && syscall(SYS_newfstatat, d, a, &st, 0) < 0)
        FAIL_IF(step("mkdir", p, "", 0, 0) != PROCEED);
    return syscall(SYS_mkdirat, d, a, m);
}
int mkdir(const char* a, mode_t m) { return mkdirat(AT_FDCWD, a, m); }

static int do_open(int d, const char* path, int flags, mode_t mode)
{
    std::string p;
    if (active() && path_of(path, d, p))
    {
        struct stat st;
        bool exists = syscall(SYS_newfstatat, d, path, &st, 0) == 0;
        if ((flags & O_CREAT) && (!exists || (flags & O_EXCL)))
        {
            FAIL_IF(step("create", p, "", (flags & O_EXCL) ? 1 : 0, 0) != PROCEED);
        }
        else if (exists && (flags & O_TRUNC) && st.st_size > 0)
        {
            FAIL_IF(step("truncate", p, "", 0, 0) != PROCEED);
        }
        else if (fail_n >= 0 && armed && (flags & O_ACCMODE) != O_RDONLY)
        {
            FAIL_IF(step("open", p, "", flags, 0) != PROCEED);
        }
        else if (sched_yield_fn && !(flags & O_DIRECTORY))
        {
            inside++;
            sched_yield_fn("open", p.c_str(), flags);
            inside--;
        }
    }
    return syscall(SYS_openat, d, path, flags, mode);
}
int open(const char* path, int flags, ...)
{
    mode_t mode = 0;
    if (flags & (O_CREAT | O_TMPFILE))
    {
        va_list ap;
        va_start(ap, flags);
        mode = va_arg(ap, mode_t);
        va_end(ap);
    }
    return do_open(AT_FDCWD, path, flags, mode);
}
int open64(const char* path, int flags, ...)
{
    mode_t mode = 0;
    if (flags & (O_CREAT | O_TMPFILE))
    {
        va_list ap;
        va_start(ap, flags);
        mode = va_arg(ap, mode_t);
        va_end(ap);
    }
    return do_open(AT_FDCWD, path, flags, mode);
}
int openat(int d, const char* path, int flags, ...)
{
    mode_t mode = 0;
    if (flags & (O_CREAT | O_TMPFILE))
    {
        va_list ap;
        va_start(ap, flags);
        mode = va_arg(ap, mode_t);
        va_end(ap);
    }
    return do_open(d, path, flags, mode);
}
int openat64(int d, const char* path, int flags, ...)
{
    mode_t mode = 0;
    if (flags & (O_CREAT | O_TMPFILE))
    {
        va_list ap;
        va_start(ap, flags);
        mode = va_arg(ap, mode_t);
        va_end(ap);
    }
    return do_open(d, path, flags, mode);
}
int creat(const char* path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }

int close(int fd)
{
    if (sched_yield_fn && active())
    {
        std::string p;
        if (path_of_fd(fd, p))
        {
            int r = syscall(SYS_close, fd);
            inside++;
            sched_yield_fn("close", p.c_str(), 0);
            inside--;
            return r;
        }
    }
    return syscall(SYS_close, fd);
}

static int do_fcntl(int fd, int cmd, long arg)
{
    if ((cmd == F_OFD_SETLK || cmd == F_OFD_SETLKW || cmd == F_SETLK || cmd == F_SETLKW) && active())
    {
        std::string p;
        if (path_of_fd(fd, p))
        {
            struct flock* l = (struct flock*)arg;
            bool ofd        = cmd == F_OFD_SETLK || cmd == F_OFD_SETLKW;
            if (!ofd)
                return syscall(SYS_fcntl, fd, cmd, arg);
            long code = (l->l_type == F_RDLCK ? 0 : l->l_type == F_WRLCK ? 1 : 2) * 10000 + l->l_start * 100 + l->l_len;
            if (sched_yield_fn)
            {
                const char* nm = l->l_type == F_UNLCK ? "unlock" : "lock";
                inside++;
                sched_yield_fn(nm, p.c_str(), code);
                inside--;
                while (true)
                {
                    int r = syscall(SYS_fcntl, fd, F_OFD_SETLK, arg);
                    if (r == 0 || cmd == F_OFD_SETLK || (errno != EAGAIN && errno != EACCES))
                    {
                        if (r == 0)
                        {
                            inside++;
                            sched_yield_fn(l->l_type == F_UNLCK ? "unlocked" : "locked", p.c_str(), code);
                            inside--;
                        }
                        return r;
                    }
                    inside++;
                    sched_yield_fn("blocked", p.c_str(), code);
                    inside--;
                }
            }
            int r  = syscall(SYS_fcntl, fd, cmd, arg);
            int se = errno;
            if (r == 0)
                note_unlocked(l->l_type == F_UNLCK ? "unlock" : "lock", p, code);
            errno = se;
            return r;
        }
    }
    return syscall(SYS_fcntl, fd, cmd, arg);
}
int fcntl(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    long arg = va_arg(ap, long);
    va_end(ap);
    return do_fcntl(fd, cmd, arg);
}
int fcntl64(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    long arg = va_arg(ap, long);
    va_end(ap);
    return do_fcntl(fd, cmd, arg);
}

// SQLite waits like this when the database is busy
static int do_sleep(const struct timespec* ts)
{
    if (sched_yield_fn && active())
    {
        sched_point("sleep", "-");
        return 0;
    }
    return syscall(SYS_clock_nanosleep, CLOCK_MONOTONIC, 0, ts, nullptr);
}
int usleep(useconds_t us)
{
    struct timespec ts = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
    return do_sleep(&ts);
}
int nanosleep(const struct timespec* ts, struct timespec*) { return do_sleep(ts); }

int futimens(int fd, const struct timespec ts[2])
{
    std::string p;
    if (active() && path_of_fd(fd, p))
        FAIL_IF(step("utime", p, "", 0, 0) != PROCEED);
    return syscall(SYS_utimensat, fd, nullptr, ts, 0);
}

}
