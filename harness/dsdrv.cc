// Dataset driver: runs dataset operations and reports what is observable
#include "drvlib.h"
#include "sysint.h"
#include <arki/core/cfg.h>
#include <arki/core/lock.h>
#include <arki/core/file.h>
#include <arki/dataset.h>
#include <arki/dataset/pool.h>
#include <arki/dataset/reporter.h>
#include <arki/dataset/segmented.h>
#include <arki/dataset/session.h>
#include <arki/dataset/time.h>
#include <arki/dispatcher.h>
#include <arki/metadata/collection.h>
#include <arki/metadata/data.h>
#include <arki/metadata/inbound.h>
#include <arki/metadata/reader.h>
#include <arki/metadata/sort.h>
#include <arki/metadata/validator.h>
#include <arki/query.h>
#include <arki/segment.h>
#include <arki/stream.h>
#include <arki/summary.h>
#include <arki/summary/stats.h>
#include <arki/types/area.h>
#include <arki/types/assigneddataset.h>
#include <arki/types/origin.h>
#include <arki/types/product.h>
#include <arki/types/source.h>
#include <arki/types/source/blob.h>
#include <arki/types/task.h>
#include <list>
#include <sstream>
#include <sys/stat.h>

using namespace arki;
using namespace verif;

// Current time as set with the now command
static long long fake_time = -1;

extern "C" time_t time(time_t* t)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    time_t res = fake_time >= 0 ? fake_time : ts.tv_sec;
    if (t)
        *t = res;
    return res;
}

namespace {

std::shared_ptr<dataset::Session> session;
std::shared_ptr<dataset::Pool> pool;
std::map<std::string, std::shared_ptr<core::cfg::Section>> configs;
std::vector<std::string> config_order;

std::shared_ptr<dataset::Dataset> get_ds(const std::string& name)
{
    auto i = configs.find(name);
    if (i == configs.end())
        throw std::logic_error("verif: unknown dataset " + name);
    return session->dataset(*i->second);
}

std::string attr_of(const Metadata& md, types::Code code)
{
    auto t = md.get(code);
    if (!t)
        return "-";
    return t->to_string();
}

/// Describe an item sent by a query
std::string describe(std::shared_ptr<Metadata> md, bool with_data)
{
    Obj o;
    Item i;
    bool decoded  = false;
    const char* k = "src";
    (void)k;
    if (with_data)
    {
        try
        {
            const auto& d = md->get_data();
            auto buf      = d.read();
            decoded       = Item::decode(buf, i);
            o.boolean("bytes", decoded);
            o.boolean("szok", md->data_size() == buf.size());
        }
        catch (std::exception& e)
        {
            o.boolean("bytes", false).str("err", e.what());
        }
        o.str("id", decoded ? i.id : "?");
        o.boolean("md", decoded && i.matches(*md));
    }
    if (md->has_source())
    {
        const auto& s = md->source();
        o.str("fmt", format_name(s.format));
        if (auto b = md->has_source_blob())
            o.str("file", b->filename.string()).num("ofs", b->offset).num("size", b->size).str("base", b->basedir.string());
        else
            o.str("file", "inline");
    }
    o.str("rt", attr_of(*md, TYPE_REFTIME));
    if (!with_data)
    {
        o.str("o", attr_of(*md, TYPE_ORIGIN)).str("p", attr_of(*md, TYPE_PRODUCT));
        o.str("a", attr_of(*md, TYPE_AREA)).str("t", attr_of(*md, TYPE_TASK));
        o.num("dsize", md->data_size());
    }
    return o.done();
}

struct Visitor : public summary::Visitor
{
    Arr arr;
    static std::string num(const std::string& s)
    {
        return s;
    }
    bool operator()(const std::vector<const types::Type*>& md, const summary::Stats& st) override
    {
        Obj o;
        auto put = [&](const char* k, types::Code c) {
            int p = posForCode(c);
            o.str(k, p >= 0 && md[p] ? md[p]->to_string() : "-");
        };
        put("o", TYPE_ORIGIN);
        put("p", TYPE_PRODUCT);
        put("a", TYPE_AREA);
        put("t", TYPE_TASK);
        o.num("count", st.count).num("size", st.size).str("begin", fmt_time(st.begin)).str("end", fmt_time(st.end));
        arr.raw(o.done());
        return true;
    }
};

void describe_summary(const Summary& s, Obj& o)
{
    Visitor v;
    s.visit(v);
    o.raw("items", v.arr.done());
    o.num("count", s.count());
    o.num("size", s.size());
}

void describe_batch(metadata::InboundBatch& batch, Obj& o, bool with_data = false)
{
    Arr res;
    for (auto& e : batch)
    {
        Obj i;
        i.str("r", e->result == metadata::Inbound::Result::OK          ? "OK"
                   : e->result == metadata::Inbound::Result::DUPLICATE ? "DUP"
                                                                       : "ERR");
        i.str("dest", e->destination);
        if (with_data)
            i.raw("md", describe(e->md, true));
        res.raw(i.done());
    }
    o.raw("results", res.done());
}

metadata::InboundBatch make_batch(const Args& a, size_t start)
{
    metadata::InboundBatch batch;
    for (size_t i = start; i < a.size(); ++i) batch.add(Item::parse(a[i]).make_inline());
    return batch;
}

ReplaceStrategy parse_replace(const std::string& s)
{
    if (s == "default")
        return ReplaceStrategy::DEFAULT;
    if (s == "never")
        return ReplaceStrategy::NEVER;
    if (s == "always")
        return ReplaceStrategy::ALWAYS;
    if (s == "usn")
        return ReplaceStrategy::HIGHER_USN;
    throw std::logic_error("verif: bad replace " + s);
}

query::Data make_query(const std::string& matcher, const std::string& sort, bool with_data)
{
    query::Data q(session->matcher(matcher == "-" ? "" : matcher), with_data);
    if (sort != "-")
        q.sorter = metadata::sort::Compare::parse(sort);
    return q;
}

struct RecReporter : public dataset::Reporter
{
    Arr arr;
    void op(const char* kind, const std::string& ds, const std::string& o, const std::string& msg)
    {
        Obj ob;
        ob.str("k", kind).str("ds", ds).str("op", o).str("msg", msg);
        arr.raw(ob.done());
    }
    void seg(const char* kind, const std::string& ds, const std::filesystem::path& relpath, const std::string& msg)
    {
        Obj ob;
        ob.str("k", kind).str("ds", ds).str("seg", relpath.string()).str("msg", msg);
        arr.raw(ob.done());
    }
    void operation_progress(const std::string& ds, const std::string& o, const std::string& m) override { op("progress", ds, o, m); }
    void operation_manual_intervention(const std::string& ds, const std::string& o, const std::string& m) override { op("op_manual", ds, o, m); }
    void operation_aborted(const std::string& ds, const std::string& o, const std::string& m) override { op("aborted", ds, o, m); }
    void operation_report(const std::string& ds, const std::string& o, const std::string& m) override { op("report", ds, o, m); }
    void segment_info(const std::string& ds, const std::filesystem::path& r, const std::string& m) override { seg("info", ds, r, m); }
    void segment_repack(const std::string& ds, const std::filesystem::path& r, const std::string& m) override { seg("repack", ds, r, m); }
    void segment_archive(const std::string& ds, const std::filesystem::path& r, const std::string& m) override { seg("archive", ds, r, m); }
    void segment_remove(const std::string& ds, const std::filesystem::path& r, const std::string& m) override { seg("remove", ds, r, m); }
    void segment_deindex(const std::string& ds, const std::filesystem::path& r, const std::string& m) override { seg("deindex", ds, r, m); }
    void segment_rescan(const std::string& ds, const std::filesystem::path& r, const std::string& m) override { seg("rescan", ds, r, m); }
    void segment_tar(const std::string& ds, const std::filesystem::path& r, const std::string& m) override { seg("tar", ds, r, m); }
    void segment_compress(const std::string& ds, const std::filesystem::path& r, const std::string& m) override { seg("compress", ds, r, m); }
    void segment_issue51(const std::string& ds, const std::filesystem::path& r, const std::string& m) override { seg("issue51", ds, r, m); }
    void segment_manual_intervention(const std::string& ds, const std::filesystem::path& r, const std::string& m) override { seg("manual", ds, r, m); }
};

// flags: letters: f = fix (not readonly), a = accurate, n = not online, o = not offline
void setup_checker(dataset::CheckerConfig& c, const std::string& flags, const std::string& filter)
{
    c.readonly = flags.find('f') == std::string::npos;
    c.accurate = flags.find('a') != std::string::npos;
    c.online   = flags.find('n') == std::string::npos;
    c.offline  = flags.find('o') == std::string::npos;
    if (filter != "-")
        c.segment_filter = session->matcher(filter);
}

// session [now-epoch]
Register r_session("session", [](const Args& a, Obj&) {
    pool.reset();
    configs.clear();
    config_order.clear();
    session = std::make_shared<dataset::Session>(false);
});

static std::unique_ptr<dataset::SessionTimeOverride> time_override;
Register r_now("now", [](const Args& a, Obj&) {
    time_override.reset();
    fake_time = a.at(1) == "-" ? -1 : std::stoll(a.at(1));
    if (a.at(1) != "-")
        time_override.reset(new dataset::SessionTimeOverride(dataset::SessionTime::local_override(std::stoll(a.at(1)))));
});

// nowait 0|1
Register r_nowait("nowait", [](const Args& a, Obj&) { core::lock::test_set_nowait_default(a.at(1) == "1"); });

// ds NAME key=val...
Register r_ds("ds", [](const Args& a, Obj&) {
    auto cfg = std::make_shared<core::cfg::Section>();
    cfg->set("name", a.at(1));
    for (size_t i = 2; i < a.size(); ++i)
    {
        size_t p = a[i].find('=');
        cfg->set(a[i].substr(0, p), a[i].substr(p + 1));
    }
    configs[a.at(1)] = cfg;
    for (auto& n : config_order)
        if (n == a.at(1))
            return;
    config_order.push_back(a.at(1));
});

// import DS REPLACE ITEM...
Register r_import("import", [](const Args& a, Obj& o) {
    auto batch  = make_batch(a, 3);
    auto writer = get_ds(a.at(1))->create_writer();
    dataset::AcquireConfig cfg(parse_replace(a.at(2)));
    std::exception_ptr ex;
    try
    {
        writer->acquire_batch(batch, cfg);
        writer->flush();
    }
    catch (...)
    {
        ex = std::current_exception();
    }
    describe_batch(batch, o, true);
    if (ex)
        std::rethrow_exception(ex);
});

// import2 DS REPLACE N ITEM...: import the first N items, then stop injecting
// faults, and import the rest with the same writer
Register r_import2("import2", [](const Args& a, Obj& o) {
    size_t n = std::stoul(a.at(3));
    Args a1(a.begin(), a.begin() + 4 + n), a2(a.begin() + 4 + n, a.end());
    auto batch1 = make_batch(a1, 4);
    auto batch2 = make_batch(a2, 0);
    dataset::AcquireConfig cfg(parse_replace(a.at(2)));
    std::shared_ptr<dataset::Writer> writer;
    auto part = [&](metadata::InboundBatch& batch) {
        Obj p;
        try
        {
            if (!writer)
                writer = get_ds(a.at(1))->create_writer();
            writer->acquire_batch(batch, cfg);
            writer->flush();
            p.boolean("ok", true);
        }
        catch (std::exception& e)
        {
            p.boolean("ok", false).str("error", e.what());
        }
        describe_batch(batch, p, true);
        return p.done();
    };
    o.raw("first", part(batch1));
    sysint::disarm();
    o.raw("second", part(batch2));
});

// ack DS REPLACE ITEM...: as import, but without reading back
Register r_ack("ack", [](const Args& a, Obj& o) {
    auto batch  = make_batch(a, 3);
    auto writer = get_ds(a.at(1))->create_writer();
    dataset::AcquireConfig cfg(parse_replace(a.at(2)));
    writer->acquire_batch(batch, cfg);
    writer->flush();
    describe_batch(batch, o, false);
});

// test_acquire DS ITEM...
Register r_test("test_acquire", [](const Args& a, Obj& o) {
    auto batch = make_batch(a, 2);
    dataset::Writer::test_acquire(session, *configs.at(a.at(1)), batch);
    describe_batch(batch, o, false);
});

std::map<std::string, std::shared_ptr<dataset::Reader>> readers;
std::map<std::string, std::shared_ptr<dataset::Writer>> writers;

Register r_open("open_reader", [](const Args& a, Obj&) { readers[a.at(1)] = get_ds(a.at(2))->create_reader(); });
Register r_openw("open_writer", [](const Args& a, Obj&) { writers[a.at(1)] = get_ds(a.at(2))->create_writer(); });
Register r_close("close", [](const Args& a, Obj&) {
    readers.erase(a.at(1));
    writers.erase(a.at(1));
});
Register r_wflush("wflush", [](const Args& a, Obj&) { writers.at(a.at(1))->flush(); });
// wimport HANDLE REPLACE ITEM...
Register r_wimport("wimport", [](const Args& a, Obj& o) {
    auto batch = make_batch(a, 3);
    dataset::AcquireConfig cfg(parse_replace(a.at(2)));
    writers.at(a.at(1))->acquire_batch(batch, cfg);
    describe_batch(batch, o, true);
});

void do_query(dataset::Reader& reader, const Args& a, Obj& o)
{
    bool with_data = a.at(4) == "1";
    auto q         = make_query(a.at(2), a.at(3), with_data);
    int limit      = a.size() > 5 ? std::stoi(a[5]) : -1;
    Arr items;
    int n = 0;
    std::exception_ptr ex;
    bool r = true;
    try
    {
        r = reader.query_data(q, [&](std::shared_ptr<Metadata> md) {
            sysint::sched_point("item", "-");
            items.raw(describe(md, with_data));
            ++n;
            return limit < 0 || n < limit;
        });
    }
    catch (...)
    {
        ex = std::current_exception();
    }
    o.raw("items", items.done());
    if (ex)
        std::rethrow_exception(ex);
    o.boolean("complete", r);
}

// query DS MATCHER SORT WITHDATA [LIMIT]
Register r_query("query", [](const Args& a, Obj& o) {
    auto reader = get_ds(a.at(1))->create_reader();
    do_query(*reader, a, o);
});
Register r_rquery("rquery", [](const Args& a, Obj& o) { do_query(*readers.at(a.at(1)), a, o); });

// After: items kept until the query is finished and then their data read
Register r_lquery("latequery", [](const Args& a, Obj& o) {
    auto reader = get_ds(a.at(1))->create_reader();
    auto q      = make_query(a.at(2), a.at(3), true);
    std::vector<std::shared_ptr<Metadata>> mds;
    bool r = reader->query_data(q, [&](std::shared_ptr<Metadata> md) {
        mds.push_back(md);
        return true;
    });
    Arr items;
    for (auto& m : mds) items.raw(describe(m, true));
    o.raw("items", items.done());
    o.boolean("complete", r);
});

// query_bytes DS MATCHER SORT
Register r_qbytes("query_bytes", [](const Args& a, Obj& o) {
    auto reader = get_ds(a.at(1))->create_reader();
    query::Bytes q;
    q.setData(session->matcher(a.at(2) == "-" ? "" : a.at(2)));
    if (a.at(3) != "-")
        q.sorter = metadata::sort::Compare::parse(a.at(3));
    std::vector<uint8_t> buf;
    auto out = StreamOutput::create(buf);
    reader->query_bytes(q, *out);
    // Split into payloads
    Arr items;
    size_t pos = 0, len = 0, junk = 0, last = 0;
    while (find_payload(buf.data(), buf.size(), pos, len))
    {
        Item i;
        for (size_t k = last; k < pos; ++k)
            if (buf[k] != '\n')
                ++junk;
        if (Item::decode(buf.data() + pos, len, i))
            items.str(i.id);
        else
            items.str("?");
        pos += len;
        last = pos;
    }
    for (size_t k = last; k < buf.size(); ++k)
        if (buf[k] != '\n')
            ++junk;
    o.raw("ids", items.done()).num("junk", junk).num("size", buf.size());
});

// query_post DS MATCHER SORT mem|FILE COMMAND
Register r_qpost("query_post", [](const Args& a, Obj& o) {
    auto reader = get_ds(a.at(1))->create_reader();
    query::Bytes q;
    q.setPostprocess(session->matcher(a.at(2) == "-" ? "" : a.at(2)), a.at(5));
    if (a.at(3) != "-")
        q.sorter = metadata::sort::Compare::parse(a.at(3));
    std::vector<uint8_t> buf;
    std::string error;
    bool failed = false;
    auto run    = [&](std::unique_ptr<StreamOutput> out) {
        try
        {
            reader->query_bytes(q, *out);
        }
        catch (std::exception& e)
        {
            failed = true;
            error  = e.what();
        }
    };
    if (a.at(4) == "mem")
        run(StreamOutput::create(buf));
    else
    {
        auto fd = std::make_shared<core::File>(a.at(4), O_RDWR | O_CREAT | O_TRUNC, 0600);
        run(StreamOutput::create(fd));
        fd->lseek(0, SEEK_SET);
        char piece[4096];
        while (size_t n = fd->read(piece, sizeof(piece)))
            buf.insert(buf.end(), piece, piece + n);
    }
    // What arrived whole
    Arr items;
    std::string junk;
    try
    {
        core::MemoryFile in(buf.data(), buf.size(), "output");
        metadata::AbstractFileBinaryReader br(in);
        br.read_all([&](std::shared_ptr<Metadata> md) {
            items.raw(describe(md, true));
            return true;
        });
    }
    catch (std::exception& e)
    {
        junk = e.what();
    }
    o.boolean("failed", failed).str("why", error).str("junk", junk).raw("items", items.done());
});

// summary DS MATCHER
Register r_summary("summary", [](const Args& a, Obj& o) {
    auto reader = get_ds(a.at(1))->create_reader();
    Summary s;
    reader->query_summary(session->matcher(a.at(2) == "-" ? "" : a.at(2)), s);
    describe_summary(s, o);
});
Register r_rsummary("rsummary", [](const Args& a, Obj& o) {
    Summary s;
    readers.at(a.at(1))->query_summary(session->matcher(a.at(2) == "-" ? "" : a.at(2)), s);
    describe_summary(s, o);
});

// stored_interval DS
Register r_interval("stored_interval", [](const Args& a, Obj& o) {
    auto reader = get_ds(a.at(1))->create_reader();
    auto i      = reader->get_stored_time_interval();
    o.str("begin", i.begin.is_set() ? fmt_time(i.begin) : "-");
    o.str("end", i.end.is_set() ? fmt_time(i.end) : "-");
});

typedef std::function<void(dataset::Checker&, dataset::CheckerConfig&)> CheckFunc;
void run_checker(const Args& a, Obj& o, CheckFunc f)
{
    auto checker  = get_ds(a.at(1))->create_checker();
    auto reporter = std::make_shared<RecReporter>();
    dataset::CheckerConfig c(reporter, true);
    setup_checker(c, a.size() > 2 ? a[2] : "", a.size() > 3 ? a[3] : "-");
    std::exception_ptr ex;
    try
    {
        f(*checker, c);
    }
    catch (...)
    {
        ex = std::current_exception();
    }
    o.raw("reports", reporter->arr.done());
    if (ex)
        std::rethrow_exception(ex);
}

// check DS FLAGS [FILTER]
Register r_check("check", [](const Args& a, Obj& o) { run_checker(a, o, [](dataset::Checker& c, dataset::CheckerConfig& g) { c.check(g); }); });
Register r_repack("repack", [](const Args& a, Obj& o) { run_checker(a, o, [](dataset::Checker& c, dataset::CheckerConfig& g) { c.repack(g); }); });
Register r_rold("remove_old", [](const Args& a, Obj& o) { run_checker(a, o, [](dataset::Checker& c, dataset::CheckerConfig& g) { c.remove_old(g); }); });
Register r_rall("remove_all", [](const Args& a, Obj& o) { run_checker(a, o, [](dataset::Checker& c, dataset::CheckerConfig& g) { c.remove_all(g); }); });
Register r_tar("tar", [](const Args& a, Obj& o) { run_checker(a, o, [](dataset::Checker& c, dataset::CheckerConfig& g) { c.tar(g); }); });
Register r_zip("zip", [](const Args& a, Obj& o) { run_checker(a, o, [](dataset::Checker& c, dataset::CheckerConfig& g) { c.zip(g); }); });
// compress DS FLAGS FILTER GROUPSIZE
Register r_compress("compress", [](const Args& a, Obj& o) {
    unsigned gs = std::stoul(a.at(4));
    run_checker(a, o, [=](dataset::Checker& c, dataset::CheckerConfig& g) { c.compress(g, gs); });
});
Register r_state("state", [](const Args& a, Obj& o) { run_checker(a, o, [](dataset::Checker& c, dataset::CheckerConfig& g) { c.state(g); }); });

// remove DS MATCHER: remove all items that match
Register r_remove("remove", [](const Args& a, Obj& o) {
    auto ds = get_ds(a.at(1));
    metadata::Collection mds;
    {
        auto reader = ds->create_reader();
        auto q      = make_query(a.at(2), "-", false);
        auto local  = std::dynamic_pointer_cast<dataset::local::Dataset>(ds);
        reader->query_data(q, [&](std::shared_ptr<Metadata> md) {
            // Archived data cannot be removed
            if (!md->has_source_blob() || md->sourceBlob().basedir == local->path)
                mds.push_back(md);
            return true;
        });
        // The sources hold a read lock on their segment
        for (auto& md : mds)
            if (auto b = md->has_source_blob())
                const_cast<types::source::Blob*>(b)->unlock();
    }
    Arr items;
    auto checker = ds->create_checker();
    o.num("count", mds.size());
    checker->remove(mds);
});

// segments DS: list all segments known, via recursive iteration: relpath
Register r_segs("segments", [](const Args& a, Obj& o) {
    auto checker = get_ds(a.at(1))->create_checker();
    auto* sc     = dynamic_cast<dataset::segmented::Checker*>(checker.get());
    if (!sc)
        throw std::runtime_error("not segmented");
    Arr t, u;
    sc->segments_tracked([&](dataset::segmented::CheckerSegment& s) { t.str(s.path_relative().string()); });
    sc->segments_untracked([&](dataset::segmented::CheckerSegment& s) { u.str(s.path_relative().string()); });
    o.raw("tracked", t.done()).raw("untracked", u.done());
});

// archive DS RELPATH / unarchive DS RELPATH
void with_segment(const Args& a, std::function<void(dataset::segmented::CheckerSegment&)> f)
{
    auto ds      = get_ds(a.at(1));
    auto checker = ds->create_checker();
    auto* sc     = dynamic_cast<dataset::segmented::Checker*>(checker.get());
    if (!sc)
        throw std::runtime_error("not segmented");
    auto* sd = dynamic_cast<dataset::segmented::Dataset*>(ds.get());
    auto seg = sc->segment(sd->segment_session->segment_from_relpath(a.at(2)));
    f(*seg);
}
Register r_archive("archive", [](const Args& a, Obj& o) { with_segment(a, [](dataset::segmented::CheckerSegment& s) { s.archive(); }); });
Register r_unarchive("unarchive", [](const Args& a, Obj& o) { with_segment(a, [](dataset::segmented::CheckerSegment& s) { s.unarchive(); }); });
Register r_rescan("rescan", [](const Args& a, Obj& o) {
    with_segment(a, [&](dataset::segmented::CheckerSegment& s) {
        RecReporter rep;
        s.rescan(rep);
    });
});
// segment-level operations
Register r_segrepack("seg_repack", [](const Args& a, Obj& o) { with_segment(a, [&](dataset::segmented::CheckerSegment& s) { s.repack(); }); });
Register r_segtar("seg_tar", [](const Args& a, Obj& o) { with_segment(a, [&](dataset::segmented::CheckerSegment& s) { s.tar(); }); });
Register r_segzip("seg_zip", [](const Args& a, Obj& o) { with_segment(a, [&](dataset::segmented::CheckerSegment& s) { s.zip(); }); });
Register r_seggz("seg_compress", [](const Args& a, Obj& o) { with_segment(a, [&](dataset::segmented::CheckerSegment& s) { s.compress(std::stoul(a.at(3))); }); });
Register r_segrm("seg_remove", [](const Args& a, Obj& o) { with_segment(a, [&](dataset::segmented::CheckerSegment& s) { s.remove(a.at(3) == "1"); }); });
// fsck DS RELPATH ACCURATE
Register r_fsck("fsck", [](const Args& a, Obj& o) {
    with_segment(a, [&](dataset::segmented::CheckerSegment& s) {
        RecReporter rep;
        auto st = s.fsck(rep, a.at(3) != "1");
        o.str("state", st.state.to_string());
        o.str("begin", st.interval.begin.is_set() ? fmt_time(st.interval.begin) : "-");
        o.str("end", st.interval.end.is_set() ? fmt_time(st.interval.end) : "-");
    });
});

// parse payload ids out of a file, for projections of what is on disk
Register r_items("payload_size", [](const Args& a, Obj& o) { o.num("size", Item::parse(a.at(1)).encode().size()); });
// Write the raw payload of an item to a file: rawdata PATH ITEM...
Register r_raw("rawdata", [](const Args& a, Obj& o) {
    FILE* f = fopen(a.at(1).c_str(), "ab");
    for (size_t i = 2; i < a.size(); ++i)
    {
        auto it = Item::parse(a[i]);
        auto b  = it.encode();
        fwrite(b.data(), 1, b.size(), f);
        if (it.format == DataFormat::VM2)
            fputc('\n', f);
    }
    fclose(f);
});

//
// Pools, merged datasets, dispatch
//

Register r_pool("pool", [](const Args& a, Obj&) {
    pool = std::make_shared<dataset::Pool>(session);
    for (size_t i = 1; i < a.size(); ++i) pool->add_dataset(*configs.at(a[i]), false);
});
// mquery - MATCHER SORT WITHDATA [LIMIT]
Register r_mquery("mquery", [](const Args& a, Obj& o) {
    auto reader = pool->merged()->create_reader();
    do_query(*reader, a, o);
});
Register r_msummary("msummary", [](const Args& a, Obj& o) {
    auto reader = pool->merged()->create_reader();
    Summary s;
    reader->query_summary(session->matcher(a.at(2) == "-" ? "" : a.at(2)), s);
    describe_summary(s, o);
});

struct FailingValidator : public metadata::Validator
{
    std::string task;
    FailingValidator(const std::string& t) : task(t)
    {
        name = "verif";
        desc = "reject items with a given task";
    }
    bool operator()(const Metadata& v, std::vector<std::string>& errors) const override
    {
        auto t = v.get(TYPE_TASK);
        if (t && t->to_string() == task)
        {
            errors.push_back("task " + task + " rejected");
            return false;
        }
        return true;
    }
};

// dispatch real|test VALIDATOR_TASK[+VALIDATOR_TASK...]|- ITEM...
Register r_dispatch("dispatch", [](const Args& a, Obj& o) {
    auto batch = make_batch(a, 3);
    std::unique_ptr<Dispatcher> d;
    if (a.at(1) == "real")
        d.reset(new RealDispatcher(pool));
    else
        d.reset(new TestDispatcher(pool));
    std::list<FailingValidator> vs;
    std::istringstream tasks(a.at(2));
    for (std::string t; a.at(2) != "-" && std::getline(tasks, t, '+');)
        d->add_validator(vs.emplace_back(t));
    d->dispatch(batch, false);
    d->flush();
    describe_batch(batch, o, a.at(1) == "real");
    o.num("outfail", d->outboundFailures());
});

}

int main() { return main_loop(); }
