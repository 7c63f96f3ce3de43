#ifndef VERIF_SYSINT_H
#define VERIF_SYSINT_H
// Interposition of the system calls that change the file system or take
// locks, limited to files below a given scratch directory.
//
// Each interposed call below the root is a numbered step; depending on mode
// it can be recorded, made to fail, made to be the last thing the process
// does, or made to wait for a controller to give it the turn.
#include <string>
#include <vector>

namespace sysint {

struct Event
{
    int n;
    std::string op;   // write,truncate,fsync,rename,unlink,create,mkdir,rmdir,link,utime,lock,unlock,open
    std::string path; // relative to root
    std::string path2;
    long arg = 0, arg2 = 0;
    int res  = 0; // errno
};

/// Set the directory under which calls are interposed (absolute path). Empty disables.
void set_root(const std::string& root);

void start_trace();
std::vector<Event> stop_trace();

/// _exit(code) when reaching mutating step n (0-based) from now.
/// partial: for writes, write half of the buffer before exiting
void crash_at(int n, bool partial);

/// Make mutating step n (0-based) from now fail with the given errno
/// (and the following ones too if sticky); only counts steps matching
/// opmask (comma-separated op names, or empty for all)
/// Where to write the step that crashed or failed, if not null
static const int AT_SIZE = 512;
extern char* at_buf;
void fail_at(int n, int err, bool sticky, bool partial, const std::string& ops);

/// Disable all injection; returns the number of steps seen since armed
int disarm();

/// Turn on scheduler mode: at each yield point call this function, which
/// returns when the process may proceed
void set_sched(void (*yield)(const char* op, const char* path, long arg));

/// Another yield point, not at a system call
void sched_point(const char* op, const char* path);

}
#endif
