#!/usr/bin/env python3
"""Build libarkimet objects from /repo's current working tree, plus the
harness drivers, into /verif/.build (git-ignored, content-hash incremental).

Environment: VERIF_REPO (default /repo), VERIF_BUILD (default /verif/.build).
"""
import concurrent.futures
import fcntl
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.abspath(os.environ.get("VERIF_REPO", "/repo"))
BUILD = os.path.abspath(os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build")))
HARNESS = os.path.join(VERIF, "harness")
JOBS = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 4))

# Optional dependencies that are not installed here: same set upstream's build
# leaves out.  harness/stubs.cc stands in for what they would have defined.
SKIP = {"data/bufr.cc", "data/vm2.cc", "utils/vm2.cc"}

CXX = "g++"
CXXFLAGS = ["-std=c++17", "-O0", "-w", "-pthread", "-D_FILE_OFFSET_BITS=64",
            "-I/usr/include/lua5.1", "-I/usr/include/lzo"]
LIBS = ["-lgeos_c", "-llzo2", "-leccodes", "-larchive", "-lzip", "-lz", "-lcurl",
        "-lsqlite3", "-lssl", "-lcrypto", "-llua5.1", "-lpthread", "-ldl"]


class BuildError(Exception):
    pass


def sha(data):
    return hashlib.sha256(data).hexdigest()


_fhash = {}


def file_hash(path):
    try:
        return _fhash[path]
    except KeyError:
        pass
    try:
        with open(path, "rb") as f:
            res = sha(f.read())
    except OSError:
        res = None
    _fhash[path] = res
    return res


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise BuildError("command failed: " + " ".join(cmd) + "\n" + p.stdout[-6000:])
    return p.stdout


def lib_sources():
    """The library's list of sources, as its own build files give it"""
    res = []
    text = open(os.path.join(REPO, "arki/meson.build")).read()
    for m in re.finditer(r"libarkimet_sources\s*\+?=\s*(?:files\(|\[)(.*?)[\])]", text, re.S):
        res += re.findall(r"'([^']+\.cc)'", m.group(1))
    out = []
    for s in res:
        if s in SKIP or s in out:
            continue
        if os.path.exists(os.path.join(REPO, "arki", s)):
            out.append(s)
    sub = os.path.join(REPO, "arki/matcher/reftime")
    for s in ("lexer.cc", "parser.cc"):
        if os.path.exists(os.path.join(sub, s)):
            out.append("matcher/reftime/" + s)
    return out


class Builder:
    def __init__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.lockf = open(os.path.join(BUILD, ".lock"), "w")
        fcntl.flock(self.lockf, fcntl.LOCK_EX)
        self.dbfile = os.path.join(BUILD, "db.json")
        try:
            self.db = json.load(open(self.dbfile))
        except (OSError, ValueError):
            self.db = {}
        self.gen = os.path.join(BUILD, "gen")
        self.flags = CXXFLAGS + [
            "-I" + os.path.join(BUILD, "pch"),
            "-I" + self.gen,
            "-I" + os.path.join(self.gen, "arki/matcher/reftime"),
            "-I" + REPO, "-I" + os.path.join(REPO, "arki"), "-I" + HARNESS]

    def save(self):
        tmp = self.dbfile + ".tmp"
        with open(tmp, "w") as f:
            json.dump(self.db, f)
        os.rename(tmp, self.dbfile)

    def copy_if_changed(self, src, dst):
        data = open(src, "rb").read()
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        try:
            if open(dst, "rb").read() == data:
                return
        except OSError:
            pass
        with open(dst, "wb") as f:
            f.write(data)

    def generate(self):
        self.copy_if_changed(os.path.join(HARNESS, "gen/config.h"), os.path.join(self.gen, "config.h"))
        self.copy_if_changed(os.path.join(HARNESS, "gen/arki/libconfig.h"),
                             os.path.join(self.gen, "arki/libconfig.h"))
        rt = os.path.join(self.gen, "arki/matcher/reftime")
        os.makedirs(rt, exist_ok=True)
        src = os.path.join(REPO, "arki/matcher/reftime")
        for name, ext, cmd in (
                ("reftime-lex", "ll", ["flex", "--outfile=" + rt + "/reftime-lex.cc",
                                       "--header-file=" + rt + "/reftime-lex.h"]),
                ("reftime-parse", "yy", ["bison", "--output=" + rt + "/reftime-parse.cc"])):
            infile = os.path.join(src, name + "." + ext)
            h = file_hash(infile)
            if self.db.get("gen:" + name) != h or not os.path.exists(os.path.join(rt, name + ".cc")):
                run(cmd + [infile])
                self.db["gen:" + name] = h
        self.gen_sources = [os.path.join(rt, n) for n in ("reftime-lex.cc", "reftime-parse.cc")]

    def pch(self):
        d = os.path.join(BUILD, "pch")
        os.makedirs(d, exist_ok=True)
        h = os.path.join(d, "vpch.h")
        self.copy_if_changed(os.path.join(HARNESS, "vpch.h"), h)
        self.compile(h, os.path.join(d, "vpch.h.gch"), ["-x", "c++-header"], pch=False)
        _fhash.pop(os.path.join(d, "vpch.h.gch"), None)

    def compile(self, src, obj, extra=(), pch=True):
        cmd = [CXX] + self.flags + list(extra)
        if pch:
            cmd += ["-include", "vpch.h"]
        key = "obj:" + obj
        ent = self.db.get(key)
        cmdh = sha(" ".join(cmd).encode())
        if ent and ent["cmd"] == cmdh and os.path.exists(obj):
            if all(file_hash(p) == h for p, h in ent["deps"].items()):
                return False
        os.makedirs(os.path.dirname(obj), exist_ok=True)
        run(cmd + ["-MD", "-MF", obj + ".d", "-c", src, "-o", obj])
        deps = open(obj + ".d").read().replace("\\\n", " ").split(":", 1)[1].split()
        self.db[key] = {"cmd": cmdh,
                        "deps": {p: file_hash(p) for p in deps if not p.startswith("/usr/") and not p.endswith(".gch")}}
        self.db[key]["deps"][src] = file_hash(src)
        return True

    def build_all(self, drivers):
        self.generate()
        self.pch()
        jobs = []
        for s in lib_sources():
            jobs.append((os.path.join(REPO, "arki", s), os.path.join(BUILD, "obj", s + ".o"), ()))
        for s in self.gen_sources:
            jobs.append((s, os.path.join(BUILD, "obj/gen", os.path.basename(s) + ".o"), ()))
        libobjs = [j[1] for j in jobs]
        grib = os.path.join(REPO, "arki/data/grib.cc")
        if os.path.exists(grib):
            o = os.path.join(BUILD, "obj/data/grib.cc.o")
            if o not in libobjs:
                jobs.append((grib, o, ()))
                libobjs.append(o)
        common = ["stubs.cc", "synth.cc", "sysint.cc", "drvlib.cc"]
        hobjs = []
        for s in common:
            o = os.path.join(BUILD, "hobj", s + ".o")
            if s == "sysint.cc":
                # Defines both foo() and foo64(): no aliasing, no precompiled header
                jobs.append((os.path.join(HARNESS, s), o, ("-U_FILE_OFFSET_BITS",), False))
            else:
                jobs.append((os.path.join(HARNESS, s), o, ()))
            hobjs.append(o)
        dobjs = {}
        for name, srcs in drivers.items():
            dobjs[name] = []
            for s in srcs:
                o = os.path.join(BUILD, "hobj", s + ".o")
                if o not in [j[1] for j in jobs]:
                    jobs.append((os.path.join(HARNESS, s), o, ()))
                dobjs[name].append(o)
        # Biggest first
        jobs.sort(key=lambda j: -os.path.getsize(j[0]))
        changed = set()
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            futs = {ex.submit(self.compile, *j): j for j in jobs}
            err = None
            for f in concurrent.futures.as_completed(futs):
                try:
                    if f.result():
                        changed.add(futs[f][1])
                except BuildError as e:
                    err = e
        self.save()
        if err:
            raise err
        lib = os.path.join(BUILD, "libarki.a")
        liblist = sha("\n".join(libobjs).encode())
        if (not os.path.exists(lib)) or changed.intersection(libobjs) or self.db.get("liblist") != liblist:
            if os.path.exists(lib):
                os.unlink(lib)
            run(["ar", "rcsT", lib] + libobjs)
            self.db["liblist"] = liblist
            self.db["libstamp"] = sha(os.urandom(16))
        for name, objs in dobjs.items():
            exe = os.path.join(BUILD, name)
            stamp = [self.db.get("libstamp")] + [json.dumps(self.db["obj:" + o]["deps"], sort_keys=True) + self.db["obj:" + o]["cmd"]
                                                 for o in objs + hobjs] + LIBS
            stamp = sha(json.dumps(stamp).encode())
            if self.db.get("exe:" + name) != stamp or not os.path.exists(exe):
                ld = ["-fuse-ld=lld"] if shutil.which("ld.lld") else []
                run([CXX, "-o", exe + ".tmp", "-pthread", "-rdynamic"] + ld + objs + hobjs +
                    ["-Wl,--start-group", lib, "-Wl,--end-group"] + LIBS)
                os.rename(exe + ".tmp", exe)
                self.db["exe:" + name] = stamp
        self.save()
        return len(changed)


def load_drivers():
    return json.load(open(os.path.join(HARNESS, "drivers.json")))


def build(names=None):
    drivers = load_drivers()
    if names:
        drivers = {k: v for k, v in drivers.items() if k in names}
    b = Builder()
    try:
        return b.build_all(drivers)
    finally:
        b.save()
        fcntl.flock(b.lockf, fcntl.LOCK_UN)
        b.lockf.close()


def exe(name):
    return os.path.join(BUILD, name)


if __name__ == "__main__":
    try:
        n = build(sys.argv[1:] or None)
        print("built, %d compiled" % n)
    except BuildError as e:
        print(e)
        sys.exit(2)
