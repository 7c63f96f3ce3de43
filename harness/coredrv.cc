// Driver for the parts of arkimet that are functions from values to values:
// matchers, types, summaries, sorting, segment names, batches, streams
#include "drvlib.h"
#include "arki/core/binary.h"
#include "arki/core/cfg.h"
#include "arki/core/time.h"
#include "arki/matcher.h"
#include "arki/matcher/parser.h"
#include "arki/matcher/utils.h"
#include "arki/core/file.h"
#include "arki/dataset/step.h"
#include "arki/metadata.h"
#include "arki/metadata/clusterer.h"
#include "arki/metadata/collection.h"
#include "arki/metadata/data.h"
#include "arki/metadata/reader.h"
#include "arki/metadata/sort.h"
#include "arki/metadata/stream.h"
#include "arki/metadata/xargs.h"
#include "arki/structured/json.h"
#include "arki/structured/keys.h"
#include "arki/structured/memory.h"
#include "arki/types.h"
#include "arki/types/itemset.h"
#include "arki/summary.h"
#include "arki/summary/stats.h"
#include "arki/types/note.h"
#include "arki/types/reftime.h"
#include "arki/types/source.h"
#include "arki/types/source/blob.h"
#include <sqlite3.h>
#include <algorithm>
#include <fcntl.h>
#include <map>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>

using namespace arki;
using namespace verif;

namespace {

matcher::Parser* parser = nullptr;

Matcher parse(const std::string& s) { return parser->parse(s == "-" ? "" : s); }

/// type=value|type=value...
std::shared_ptr<Metadata> make_md(const std::string& s)
{
    auto res = std::make_shared<Metadata>();
    if (s != "-")
        for (const auto& i : split_args(s, '|'))
        {
            size_t p = i.find('=');
            std::string key = i.substr(0, p), val = i.substr(p + 1);
            if (key == "data" || key == "blob")
            {
                // FORMAT:SIZE[:TEXT], with data made of the text, repeated
                size_t c = val.find(':'), d = val.find(':', c + 1);
                DataFormat fmt = format_from_string(val.substr(0, c));
                uint64_t size = std::stoull(val.substr(c + 1));
                std::string text = d == std::string::npos ? std::string("MD\0\0data", 8) : val.substr(d + 1);
                if (key == "blob")
                    res->set_source(types::Source::createBlobUnlocked(fmt, "/nonexistent", "file." + val.substr(0, c), 7, size));
                else
                {
                    std::vector<uint8_t> buf(size);
                    for (size_t n = 0; n < size; ++n)
                        buf[n] = text[n % text.size()];
                    res->set_source_inline(fmt, metadata::DataManager::get().to_data(fmt, std::move(buf)));
                }
            }
            else if (key == "note")
                res->add_note(types::Note::create(core::Time(2020, 1, 2, 3, 4, 5), val));
            else
                res->test_set(key, val);
        }
    return res;
}

bool match_buffers(const Matcher& m, const Metadata& md)
{
    bool res = true;
    m.foreach_type([&](types::Code code, const matcher::OR&) {
        const types::Type* t = md.get(code);
        if (!t)
        {
            res = false;
            return;
        }
        std::vector<uint8_t> buf;
        core::BinaryEncoder enc(buf);
        t->encodeWithoutEnvelope(enc);
        if (!m(code, buf.data(), buf.size()))
            res = false;
    });
    return res;
}

/// aliases TYPE NAME VALUE [TYPE NAME VALUE...]: replace aliases
Register r_aliases("aliases", [](const Args& a, Obj& o) {
    core::cfg::Sections cfg;
    for (size_t i = 1; i + 2 < a.size(); i += 3)
        cfg.obtain(a[i])->set(a[i + 1], a[i + 2]);
    delete parser;
    parser = new matcher::Parser;
    parser->load_aliases(cfg);
});

/// match EXPR ITEM...: match in all ways that there are
Register r_match("match", [](const Args& a, Obj& o) {
    Matcher m = parse(a[1]);
    std::string str = m.toString(), exp = m.toStringExpanded();
    o.str("str", str).str("exp", exp);
    std::vector<Matcher> ms{m, parse(str)};
    // The expanded form does not need aliases
    matcher::Parser plain;
    ms.push_back(plain.parse(exp));
    ms.push_back(plain.parse(ms[2].toStringExpanded()));
    o.boolean("stable", ms[2].toStringExpanded() == exp);
    Arr res;
    for (size_t i = 2; i < a.size(); ++i)
    {
        auto md = make_md(a[i]);
        Arr r;
        for (const auto& x : ms)
            r.raw(x(*md) ? "1" : "0");
        types::ItemSet is;
        m.foreach_type([&](types::Code code, const matcher::OR&) {
            if (const types::Type* t = md->get(code))
                is.set(*t);
        });
        r.raw(m(is) ? "1" : "0");
        r.raw(match_buffers(m, *md) ? "1" : "0");
        res.raw(r.done());
    }
    o.raw("res", res.done());
});

/// combine EXPR1 EXPR2 ITEM...: merge, update and split
Register r_combine("combine", [](const Args& a, Obj& o) {
    Matcher m1 = parse(a[1]), m2 = parse(a[2]);
    Matcher merged = parse(a[1]).merge(m2);
    Matcher updated = parse(a[1]).update(m2);
    std::set<types::Code> codes;
    m2.foreach_type([&](types::Code code, const matcher::OR&) { codes.insert(code); });
    Matcher with, without;
    m1.split(codes, with, without);
    Arr res;
    for (size_t i = 3; i < a.size(); ++i)
    {
        auto md = make_md(a[i]);
        Arr r;
        for (const auto& x : {m1, m2, merged, updated, with, without})
            r.raw(x(*md) ? "1" : "0");
        res.raw(r.done());
    }
    o.raw("res", res.done());
});

core::Time parse_time(const std::string& s)
{
    if (s == "-")
        return core::Time();
    core::Time res;
    res.ye = stoi(s.substr(0, 4));
    res.mo = stoi(s.substr(4, 2));
    res.da = stoi(s.substr(6, 2));
    res.ho = stoi(s.substr(8, 2));
    res.mi = stoi(s.substr(10, 2));
    res.se = stoi(s.substr(12, 2));
    return res;
}

/// reftime EXPR T...: what it matches, interval, SQL, and all pairs of times
/// that follow each other as intervals
Register r_reftime("reftime", [](const Args& a, Obj& o) {
    Matcher m = parse(a[1]);
    std::string str = m.toString(), exp = m.toStringExpanded();
    Matcher again = parse(str);
    matcher::Parser plain;
    Matcher expanded = plain.parse(exp);
    auto rt = m.get(TYPE_REFTIME);
    std::string sql = rt ? rt->toReftimeSQL("r") : "1";
    if (sql.empty())
        sql = "1";
    o.str("str", str).str("exp", exp);
    sqlite3* db;
    sqlite3_open(":memory:", &db);
    sqlite3_exec(db, "CREATE TABLE t (r TEXT, n INT)", nullptr, nullptr, nullptr);
    Arr ms, as, es, bs, is, sq;
    std::vector<core::Time> ts;
    for (size_t i = 2; i < a.size(); ++i)
    {
        core::Time t = parse_time(a[i]);
        ts.push_back(t);
        Metadata md;
        md.set(types::Reftime::createPosition(t));
        ms.num(m(md));
        as.num(again(md));
        es.num(expanded(md));
        bs.num(match_buffers(m, md));
        std::string q = "INSERT INTO t VALUES ('" + t.to_sql() + "', 0)";
        sqlite3_exec(db, q.c_str(), nullptr, nullptr, nullptr);
    }
    for (size_t i = 0; i + 1 < ts.size(); ++i)
        is.num(m(core::Interval(ts[i], ts[i + 1])));
    sqlite3_stmt* stm = nullptr;
    std::string q = "SELECT " + sql + " FROM t ORDER BY rowid";
    if (sqlite3_prepare_v2(db, q.c_str(), -1, &stm, nullptr) != SQLITE_OK)
        o.str("sqlerr", sqlite3_errmsg(db));
    else
    {
        while (sqlite3_step(stm) == SQLITE_ROW)
            sq.num(sqlite3_column_int(stm, 0));
        sqlite3_finalize(stm);
    }
    sqlite3_close(db);
    o.raw("m", ms.done()).raw("again", as.done()).raw("exp_m", es.done()).raw("buf", bs.done());
    o.raw("int", is.done()).raw("sql", sq.done());
    core::Interval i;
    bool found = m.intersect_interval(i);
    o.boolean("some", found);
    o.str("lo", found && i.begin.is_set() ? fmt_time(i.begin) : "");
    o.str("hi", found && i.end.is_set() ? fmt_time(i.end) : "");
});

/// types TYPE VALUE...: forms of values, and how they compare
Register r_types("types", [](const Args& a, Obj& o) {
    auto code = types::parseCodeName(a[1]);
    std::vector<std::shared_ptr<types::Type>> vals;
    Arr res;
    for (size_t i = 2; i < a.size(); ++i)
    {
        std::shared_ptr<types::Type> t(types::decodeString(code, a[i]).release());
        vals.push_back(t);
        Obj r;
        std::string str = t->to_string();
        r.str("str", str);
        // All forms give back the same value
        auto s = types::decodeString(code, str);
        r.boolean("string", *s == *t && s->compare(*t) == 0 && s->to_string() == str);
        std::vector<uint8_t> buf = t->encodeBinary();
        core::BinaryDecoder dec(buf);
        auto b = types::Type::decode(dec);
        r.boolean("binary", *b == *t && b->compare(*t) == 0 && b->to_string() == str && dec.size == 0);
        auto inner = std::vector<uint8_t>();
        core::BinaryEncoder enc(inner);
        t->encodeWithoutEnvelope(enc);
        core::BinaryDecoder idec(inner);
        auto n = types::Type::decodeInner(code, idec);
        r.boolean("inner", *n == *t && n->compare(*t) == 0);
        structured::Memory mem;
        t->serialise(mem, structured::keys_json);
        auto j = types::decode_structure(structured::keys_json, mem.root());
        r.boolean("memory", *j == *t && j->compare(*t) == 0 && j->to_string() == str);
        std::stringstream ss;
        structured::JSON json(ss);
        t->serialise(json, structured::keys_json);
        structured::Memory parsed;
        structured::JSON::parse(ss.str(), parsed);
        auto k = types::decode_structure(structured::keys_json, parsed.root());
        r.boolean("json", *k == *t && k->compare(*t) == 0 && k->to_string() == str);
        auto c = t->cloneType();
        r.boolean("clone", *c == *t && c->compare(*t) == 0);
        std::string query;
        try
        {
            query = t->exactQuery();
        }
        catch (std::exception&)
        {
        }
        r.str("query", query);
        res.raw(r.done());
    }
    Arr cmp, eq;
    for (const auto& x : vals)
    {
        Arr c, e;
        for (const auto& y : vals)
        {
            int v = x->compare(*y);
            c.num(v < 0 ? -1 : v > 0 ? 1 : 0);
            e.num(*x == *y);
        }
        cmp.raw(c.done());
        eq.raw(e.done());
    }
    o.raw("res", res.done()).raw("cmp", cmp.done()).raw("eq", eq.done());
});

std::string summary_rows(const Summary& s)
{
    struct V : public summary::Visitor
    {
        std::vector<std::string> rows;
        bool operator()(const std::vector<const types::Type*>& md, const summary::Stats& st) override
        {
            Obj k;
            for (const auto& t : md)
                if (t)
                    k.str(t->tag().c_str(), t->to_string());
            Obj r;
            r.raw("k", k.done()).num("n", st.count).str("size", std::to_string(st.size));
            r.str("lo", fmt_time(st.begin)).str("hi", fmt_time(st.end));
            rows.push_back(r.done());
            return true;
        }
    } v;
    s.visit(v);
    std::sort(v.rows.begin(), v.rows.end());
    Arr a;
    for (const auto& r : v.rows)
        a.raw(r);
    return a.done();
}

/// All the encoded forms of a summary, decoded. NUMBER chooses which
std::shared_ptr<Summary> reencoded(const Summary& s, unsigned how)
{
    auto res = std::make_shared<Summary>();
    switch (how % 7)
    {
        case 0: res->add(s); break;
        case 1:
        case 2: {
            auto buf = s.encode(how % 7 == 2);
            core::BinaryDecoder dec(buf);
            res->read(dec, "memory");
            break;
        }
        case 3: {
            std::string y = s.to_yaml();
            auto in = core::LineReader::from_chars(y.data(), y.size());
            res->readYaml(*in, "memory");
            break;
        }
        case 4: {
            std::stringstream ss;
            structured::JSON json(ss);
            s.serialise(json, structured::keys_json);
            structured::Memory parsed;
            structured::JSON::parse(ss.str(), parsed);
            res->read(structured::keys_json, parsed.root());
            break;
        }
        case 5: {
            // With keys_python it can be written but not read
            structured::Memory mem;
            s.serialise(mem, structured::keys_json);
            res->read(structured::keys_json, mem.root());
            break;
        }
        case 6: {
            auto buf = s.encode(true);
            core::MemoryFile f(buf.data(), buf.size(), "memory");
            res->read(f);
            break;
        }
    }
    return res;
}

/// summary EXPR CODES ORDER GROUPS ITEM...: summaries of items, added in
/// different orders and ways; filtered, and of only some types
Register r_summary("summary", [](const Args& a, Obj& o) {
    Matcher m = parse(a[1]);
    std::vector<std::shared_ptr<Metadata>> mds;
    for (size_t i = 5; i < a.size(); ++i)
        mds.push_back(make_md(a[i]));
    Arr keys;
    for (const auto& md : mds)
    {
        Obj k;
        for (const auto& c : {TYPE_ORIGIN, TYPE_PRODUCT, TYPE_LEVEL, TYPE_TIMERANGE, TYPE_AREA, TYPE_PRODDEF, TYPE_RUN, TYPE_QUANTITY, TYPE_TASK})
            if (const types::Type* t = md->get(c))
                k.str(t->tag().c_str(), t->to_string());
        keys.raw(k.done());
    }
    o.raw("keys", keys.done());
    Summary base;
    for (const auto& md : mds)
        base.add(*md);
    o.raw("rows", summary_rows(base));
    o.num("count", base.count()).str("size", std::to_string(base.size()));
    std::string lo, hi;
    try
    {
        core::Interval i = base.get_reference_time();
        lo = fmt_time(i.begin);
        hi = fmt_time(i.end);
    }
    catch (std::exception&)
    {
        if (!base.empty())
            throw;
    }
    o.str("lo", lo).str("hi", hi);
    // In another order, in groups added in different ways
    std::vector<unsigned> order, groups;
    if (a[3] != "-")
        for (const auto& s : split_args(a[3], ','))
            order.push_back(stoul(s));
    for (const auto& s : split_args(a[4], ','))
        groups.push_back(stoul(s));
    Summary other;
    size_t pos = 0;
    for (unsigned n = 0; n + 1 < groups.size(); n += 2)
    {
        Summary g;
        for (unsigned c = 0; c < groups[n] && pos < order.size(); ++c)
            g.add(*mds[order[pos++]]);
        other.add(*reencoded(g, groups[n + 1]));
    }
    while (pos < order.size())
        other.add(*mds[order[pos++]]);
    o.raw("other", summary_rows(other)).boolean("equal", base == other && !(base != other));
    Arr forms;
    for (unsigned n = 0; n < 7; ++n)
    {
        auto r = reencoded(base, n);
        forms.num(*r == base && summary_rows(*r) == summary_rows(base) && r->count() == base.count() && r->size() == base.size());
    }
    o.raw("forms", forms.done());
    Summary filtered;
    base.filter(m, filtered);
    o.raw("filtered", summary_rows(filtered)).boolean("match", base.match(m));
    std::set<types::Code> codes;
    if (a[2] != "-")
        for (const auto& s : split_args(a[2], ','))
            codes.insert(types::parseCodeName(s));
    Summary only;
    only.add(base, codes);
    o.raw("only", summary_rows(only));
    Summary less;
    for (size_t n = 0; n + 1 < mds.size(); ++n)
        less.add(*mds[n]);
    o.boolean("equal_less", base == less || less == base);
});

/// sort EXPR MODE STOP ITEM...: indices of the items in the order in which they
/// get out. MODE is collection, segment or stream. The consumer says to stop
/// after STOP items
Register r_sort("sort", [](const Args& a, Obj& o) {
    auto cmp = metadata::sort::Compare::parse(a[1] == "-" ? "" : a[1]);
    o.str("str", cmp->toString());
    auto again = metadata::sort::Compare::parse(cmp->toString());
    std::map<const Metadata*, int> idx;
    metadata::Collection coll;
    Arr out;
    int stop = stoi(a[3]), sent = 0;
    auto dest = [&](std::shared_ptr<Metadata> md) {
        out.num(idx[md.get()]);
        return ++sent != stop;
    };
    for (size_t i = 4; i < a.size(); ++i)
    {
        auto md = make_md(a[i]);
        idx[md.get()] = i - 3;
        coll.push_back(md);
    }
    metadata::Collection keep(coll);
    bool res = true;
    if (a[2] == "stream")
    {
        metadata::sort::Stream stream(*cmp, dest);
        for (const auto& md : coll)
            if (!(res = stream.add(md)))
                break;
        if (res)
            res = stream.flush();
    }
    else
    {
        if (a[2] == "again")
            coll.sort(*again);
        else
            coll.sort(*cmp);
        res = coll.move_to(dest);
    }
    o.raw("out", out.done()).boolean("completed", res);
});

/// cluster COUNT BYTES INTERVAL TIMERANGE ITEM...: indices of the items in
/// each batch
Register r_cluster("cluster", [](const Args& a, Obj& o) {
    struct C : public metadata::Clusterer
    {
        std::map<const Metadata*, int> idx;
        std::vector<std::vector<int>> batches;
        /// How many items had been seen when each batch was closed
        std::vector<int> closed;
        bool open = false;
        int seen = 0;
        void start_batch(DataFormat f) override
        {
            Clusterer::start_batch(f);
            if (open)
                throw std::runtime_error("batch started inside another");
            open = true;
            batches.emplace_back();
        }
        void add_to_batch(std::shared_ptr<Metadata> md) override
        {
            Clusterer::add_to_batch(md);
            batches.back().push_back(idx[md.get()]);
        }
        void flush_batch() override
        {
            Clusterer::flush_batch();
            if (!open)
                throw std::runtime_error("batch closed before it is started");
            open = false;
            closed.push_back(seen);
        }
    } c;
    c.max_count = stoul(a[1]);
    c.max_bytes = stoul(a[2]);
    c.max_interval = stoul(a[3]);
    c.split_timerange = a[4] == "1";
    std::vector<std::shared_ptr<Metadata>> mds;
    for (size_t i = 5; i < a.size(); ++i)
    {
        mds.push_back(make_md(a[i]));
        c.idx[mds.back().get()] = i - 4;
    }
    for (const auto& md : mds)
    {
        ++c.seen;
        c.eat(md);
    }
    ++c.seen;
    c.flush();
    Arr b, cl;
    for (const auto& x : c.batches)
    {
        Arr r;
        for (int i : x)
            r.num(i);
        b.raw(r.done());
    }
    for (int x : c.closed)
        cl.num(x);
    o.raw("batches", b.done()).raw("closed", cl.done());
});

/// xargs COUNT BYTES INTERVAL TIMERANGE DIR ITEM...: like cluster, but runs a
/// script, that writes what it is given to a directory
Register r_xargs("xargs", [](const Args& a, Obj& o) {
    std::string dir = a[5];
    setenv("TMPDIR", dir.c_str(), 1);
    metadata::Xargs x;
    x.max_count = stoul(a[1]);
    x.set_max_bytes(stoul(a[2]));
    if (a[3] != "-")
        x.set_interval(a[3]);
    x.split_timerange = a[4] == "1";
    x.command = {"/bin/sh", "-c",
                 "n=$(ls $0/*.env 2>/dev/null | wc -l); cat \"$1\" > $0/$n.data; "
                 "printf '%s\\n' \"$1\" \"$ARKI_XARGS_FILENAME\" \"$ARKI_XARGS_FORMAT\" \"$ARKI_XARGS_COUNT\" "
                 "\"$ARKI_XARGS_TIME_START\" \"$ARKI_XARGS_TIME_END\" > $0/$n.env", dir};
    for (size_t i = 6; i < a.size(); ++i)
        x.eat(make_md(a[i]));
    x.flush();
});

/// step STEP TIME...: names of segments, and their intervals
Register r_step("step", [](const Args& a, Obj& o) {
    auto step = dataset::Step::create(a[1]);
    Arr res;
    for (size_t i = 2; i < a.size(); ++i)
    {
        core::Time t = parse_time(a[i]);
        auto path = (*step)(t);
        core::Interval iv;
        Obj r;
        r.str("path", path.native());
        bool ok = step->path_timespan(path.native() + ".grib", iv);
        r.boolean("ok", ok).str("lo", fmt_time(iv.begin)).str("hi", fmt_time(iv.end));
        r.boolean("in", iv.contains(t));
        res.raw(r.done());
    }
    o.raw("res", res.done());
});

/// step_list STEP DIR FORMAT EXPR PATH...: segments in a directory that can
/// have data that matches, and which paths are for segments that can
Register r_step_list("step_list", [](const Args& a, Obj& o) {
    auto step = dataset::Step::create(a[1]);
    Matcher m = parse(a[4]);
    dataset::step::SegmentQuery q(a[2], format_from_string(a[3]), m);
    std::vector<std::string> found;
    step->list_segments(q, [&](std::filesystem::path&& p) { found.push_back(p.native()); });
    std::sort(found.begin(), found.end());
    Arr res;
    for (const auto& p : found)
        res.str(p);
    o.raw("found", res.done());
    core::Interval i;
    dataset::step::SegmentQuery all(a[2], format_from_string(a[3]));
    step->time_extremes(all, i);
    o.str("lo", fmt_time(i.begin)).str("hi", fmt_time(i.end));
    Arr pm;
    auto rt = m.get(TYPE_REFTIME);
    for (size_t n = 5; n < a.size(); ++n)
        pm.num(rt ? step->pathMatches(a[n], *rt) : true);
    o.raw("path_matches", pm.done());
});

core::Time opt_time(const std::string& s) { return s == "-" ? core::Time() : parse_time(s); }
std::string fmt_opt(const core::Time& t) { return t.is_set() ? fmt_time(t) : "-"; }
std::string fmt_iv(const core::Interval& i) { return fmt_opt(i.begin) + " " + fmt_opt(i.end); }

/// time T YE MO DA HO MI SE: operations on times, and what is T with something
/// added to its fields
Register r_time("time", [](const Args& a, Obj& o) {
    core::Time t = parse_time(a[1]);
    core::Time n = t;
    n.ye += stoi(a[2]);
    n.mo += stoi(a[3]);
    n.da += stoi(a[4]);
    n.ho += stoi(a[5]);
    n.mi += stoi(a[6]);
    n.se += stoi(a[7]);
    n.normalise();
    o.str("norm", fmt_time(n));
    o.str("som", fmt_time(t.start_of_month())).str("sonm", fmt_time(t.start_of_next_month()));
    o.str("sopm", fmt_time(t.start_of_previous_month())).str("eom", fmt_time(t.end_of_month()));
    o.str("prev", fmt_time(t.prev_instant())).str("next", fmt_time(t.next_instant()));
    o.boolean("is_som", t.is_start_of_month());
    o.str("iso", fmt_time(core::Time::create_iso8601(t.to_iso8601()))).str("iso_", fmt_time(core::Time::create_iso8601(t.to_iso8601(' '))));
    o.str("sql", fmt_time(core::Time::create_sql(t.to_sql())));
    std::vector<uint8_t> buf;
    core::BinaryEncoder enc(buf);
    t.encodeWithoutEnvelope(enc);
    core::BinaryDecoder dec(buf);
    o.str("bin", fmt_time(core::Time::decode(dec)));
    o.num("dim", core::Time::days_in_month(t.ye, t.mo)).num("diy", core::Time::days_in_year(t.ye));
    auto d = core::Time::duration(t, n);
    o.num("days", d >= 0 ? d / 86400 : -((-d + 86399) / 86400)).num("secs", ((d % 86400) + 86400) % 86400);
    o.num("cmp", t.compare(n) < 0 ? -1 : t.compare(n) > 0 ? 1 : 0).boolean("eq", t == n);
    Arr lb, ub;
    lb.str(fmt_time(core::Time::create_lowerbound(t.ye))).str(fmt_time(core::Time::create_lowerbound(t.ye, t.mo)))
      .str(fmt_time(core::Time::create_lowerbound(t.ye, t.mo, t.da))).str(fmt_time(core::Time::create_lowerbound(t.ye, t.mo, t.da, t.ho)))
      .str(fmt_time(core::Time::create_lowerbound(t.ye, t.mo, t.da, t.ho, t.mi))).str(fmt_time(core::Time::create_lowerbound(t.ye, t.mo, t.da, t.ho, t.mi, t.se)));
    ub.str(fmt_time(core::Time::create_upperbound(t.ye))).str(fmt_time(core::Time::create_upperbound(t.ye, t.mo)))
      .str(fmt_time(core::Time::create_upperbound(t.ye, t.mo, t.da))).str(fmt_time(core::Time::create_upperbound(t.ye, t.mo, t.da, t.ho)))
      .str(fmt_time(core::Time::create_upperbound(t.ye, t.mo, t.da, t.ho, t.mi))).str(fmt_time(core::Time::create_upperbound(t.ye, t.mo, t.da, t.ho, t.mi, t.se)));
    o.raw("lb", lb.done()).raw("ub", ub.done());
});

/// interval B1 E1 B2 E2 TIME...: operations on intervals
Register r_interval("interval", [](const Args& a, Obj& o) {
    core::Interval i1(opt_time(a[1]), opt_time(a[2])), i2(opt_time(a[3]), opt_time(a[4]));
    Arr in;
    for (size_t n = 5; n < a.size(); ++n)
        in.num(i1.contains(parse_time(a[n])));
    o.raw("in", in.done());
    o.boolean("contains", i1.contains(i2)).boolean("intersects", i1.intersects(i2)).boolean("spans", i1.spans_one_whole_month());
    core::Interval x = i1;
    o.boolean("isect", x.intersect(i2)).str("isect_iv", fmt_iv(x));
    x = i1;
    x.extend(i2);
    o.str("extend", fmt_iv(x));
    Arr months;
    if (i1.begin.is_set() && i1.end.is_set())
        i1.iter_months([&](const core::Interval& m) {
            months.str(fmt_iv(m));
            return true;
        });
    o.raw("months", months.done());
});

/// Name of an item: the bytes of its metadata and data
std::string md_bytes(const Metadata& md)
{
    std::vector<uint8_t> buf;
    core::BinaryEncoder enc(buf);
    // The directory of the source is not encoded
    md.encodeBinary(enc);
    std::string res(buf.begin(), buf.end());
    if (md.has_source() && md.source().style() == types::Source::Style::INLINE)
    {
        auto data = const_cast<Metadata&>(md).get_data().read();
        res.append(data.begin(), data.end());
    }
    return res;
}

/// mdstream MODE CUT CHUNKS ITEM...: decode a sequence of metadata, that is cut
/// at CUT bytes if CUT >= 0. Mode stream feeds it CHUNKS at a time to the
/// incremental decoder, fd and memory to the readers. Groups are for fd and
/// memory, and have metadata without inline data only. With CHUNKS like
/// "garble:N:V" byte N of the stream is V
Register r_mdstream("mdstream", [](const Args& a, Obj& o) {
    std::vector<std::string> items;
    metadata::Collection coll;
    std::string stream;
    Arr ends;
    bool group = a[1] == "group";
    for (size_t i = 4; i < a.size(); ++i)
    {
        auto md = make_md(a[i]);
        items.push_back(md_bytes(*md));
        coll.push_back(md);
        stream += items.back();
        if (!group)
            ends.num(stream.size());
    }
    std::string fname = "/dev/shm/verif-mdstream." + std::to_string(getpid());
    if (group)
    {
        coll.writeAtomically(fname);
        core::File f(fname, O_RDONLY);
        struct stat st;
        f.fstat(st);
        stream.resize(st.st_size);
        f.read_all_or_throw(const_cast<char*>(stream.data()), stream.size());
        unlink(fname.c_str());
    }
    o.raw("ends", ends.done()).num("total", stream.size());
    int cut = stoi(a[2]);
    if (cut >= 0 && (size_t)cut < stream.size())
        stream.resize(cut);
    std::vector<size_t> chunks;
    if (a[3].substr(0, 7) == "garble:")
    {
        auto g = split_args(a[3], ':');
        stream[stoul(g[1]) % stream.size()] = stoul(g[2]);
    }
    else if (a[3] != "-")
        for (const auto& s : split_args(a[3], ','))
            chunks.push_back(stoul(s));
    size_t fed = 0, got = 0;
    Arr out;
    auto dest = [&](std::shared_ptr<Metadata> md) {
        std::string b = md_bytes(*md);
        Arr r;
        // The same item, and how much has been seen of the stream
        r.num(got < items.size() && items[got] == b).num(fed);
        out.raw(r.done());
        ++got;
        return true;
    };
    std::string error;
    size_t left = 0;
    try
    {
        if (a[1] == "stream")
        {
            metadata::Stream s(dest, "stream");
            size_t n = 0;
            while (fed < stream.size())
            {
                size_t size = std::min(stream.size() - fed, chunks.empty() ? stream.size() : chunks[n++ % chunks.size()]);
                size_t from = fed;
                fed += size;
                s.readData(stream.data() + from, size);
                left = s.countBytesUnprocessed();
            }
        }
        else if (a[1] == "memory")
        {
            core::MemoryFile f(stream.data(), stream.size(), "/nonexistent/file");
            metadata::AbstractFileBinaryReader reader(f);
            reader.read_all(dest);
        }
        else
        {
            {
                core::File f(fname, O_WRONLY | O_CREAT | O_TRUNC, 0666);
                f.write_all_or_throw(stream.data(), stream.size());
            }
            core::File f(fname, O_RDONLY);
            unlink(fname.c_str());
            metadata::BinaryReader reader(f);
            reader.read_all(dest);
        }
    }
    catch (std::exception& e)
    {
        error = e.what();
    }
    unlink(fname.c_str());
    o.raw("out", out.done()).num("left", left).boolean("error", !error.empty()).str("message", error.substr(0, 200));
});

/// mdforms ITEM...: forms of items
Register r_mdforms("mdforms", [](const Args& a, Obj& o) {
    Arr res;
    for (size_t i = 1; i < a.size(); ++i)
    {
        auto md = make_md(a[i]);
        std::string bytes = md_bytes(*md), yaml = md->to_yaml();
        Obj r;
        std::string y = yaml + "\n";
        auto f = core::MemoryFile(y.data(), y.size(), "/nonexistent/file");
        metadata::YamlReader yr(f, "/nonexistent");
        auto m1 = yr.read();
        r.boolean("yaml", m1 && m1->to_yaml() == yaml);
        std::stringstream ss;
        structured::JSON json(ss);
        md->serialise(json, structured::keys_json);
        structured::Memory parsed;
        structured::JSON::parse(ss.str(), parsed);
        auto m2 = Metadata::read_structure(structured::keys_json, parsed.root());
        r.boolean("json", m2->to_yaml() == yaml && m2->items_equal(*md));
        structured::Memory mem;
        md->serialise(mem, structured::keys_python);
        auto m3 = Metadata::read_structure(structured::keys_python, mem.root());
        r.boolean("memory", m3->to_yaml() == yaml && m3->items_equal(*md));
        auto c = md->clone();
        r.boolean("clone", *c == *md && md_bytes(*c) == bytes);
        core::MemoryFile mf(bytes.data(), bytes.size(), "/nonexistent/file");
        metadata::AbstractFileBinaryReader br(mf);
        auto b = br.read();
        r.boolean("binary", b && *b == *md && md_bytes(*b) == bytes);
        res.raw(r.done());
    }
    o.raw("res", res.done());
});

} // namespace

int main()
{
    parser = nullptr;
    commands()["init"] = [](const Args&, Obj&) {};
    parser = new matcher::Parser;
    return main_loop();
}
