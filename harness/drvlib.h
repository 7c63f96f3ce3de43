#ifndef VERIF_DRVLIB_H
#define VERIF_DRVLIB_H
#include "synth.h"
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <vector>

namespace verif {
typedef std::vector<std::string> Args;

/// JSON object builder
struct Obj
{
    std::string s = "{";
    bool first    = true;
    Obj& raw(const std::string& k, const std::string& v)
    {
        if (!first)
            s += ",";
        first = false;
        s += json_str(k) + ":" + v;
        return *this;
    }
    Obj& str(const std::string& k, const std::string& v) { return raw(k, json_str(v)); }
    Obj& num(const std::string& k, long long v) { return raw(k, std::to_string(v)); }
    Obj& boolean(const std::string& k, bool v) { return raw(k, v ? "true" : "false"); }
    std::string done() const { return s + "}"; }
};
struct Arr
{
    std::string s = "[";
    bool first    = true;
    Arr& raw(const std::string& v)
    {
        if (!first)
            s += ",";
        first = false;
        s += v;
        return *this;
    }
    Arr& str(const std::string& v) { return raw(json_str(v)); }
    Arr& num(long long v) { return raw(std::to_string(v)); }
    std::string done() const { return s + "]"; }
};

typedef std::function<void(const Args&, Obj&)> Command;
extern std::map<std::string, Command>& commands();
struct Register
{
    Register(const std::string& name, Command c) { commands()[name] = c; }
};

/// Read commands from stdin, write replies to the original stdout
int main_loop();
/// Write a line to the controller
void reply(const std::string& line);
/// Read a line from the controller
bool read_line(std::string& line);
Args split_args(const std::string& s, char c);

}
#endif
