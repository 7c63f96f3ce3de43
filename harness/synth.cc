#include "synth.h"
#include <arki/core/file.h>
#include <arki/data/bufr.h>
#include <arki/data/vm2.h>
#include <arki/metadata/data.h>
#include <arki/types/reftime.h>
#include <arki/types/source.h>
#include <arki/types/source/blob.h>
#include <arki/types/values.h>
#include <arki/types/value.h>
#include <arki/types/area.h>
#include <arki/types/origin.h>
#include <arki/types/product.h>
#include <arki/types/task.h>
#include <cstring>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

using namespace arki;

namespace verif {

static std::vector<std::string> split(const std::string& s, char c)
{
    std::vector<std::string> res;
    size_t b = 0;
    while (true)
    {
        size_t e = s.find(c, b);
        if (e == std::string::npos)
        {
            res.push_back(s.substr(b));
            return res;
        }
        res.push_back(s.substr(b, e - b));
        b = e + 1;
    }
}

std::string json_str(const std::string& s)
{
    std::string r = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\')
        {
            r += '\\';
            r += c;
        }
        else if (c < 32 || c > 126)
        {
            char b[8];
            snprintf(b, 8, "\\u%04x", c);
            r += b;
        }
        else
            r += c;
    }
    return r + "\"";
}

std::string fmt_time(const core::Time& t)
{
    char b[40];
    snprintf(b, 40, "%04d%02d%02d%02d%02d%02d", t.ye, t.mo, t.da, t.ho, t.mi, t.se);
    return b;
}

Item Item::parse(const std::string& s)
{
    auto f = split(s, ',');
    if (f.size() != 10)
        throw std::runtime_error("bad item spec " + s);
    Item i;
    i.id     = f[0];
    i.format = format_from_string(f[1]);
    i.time   = f[2];
    i.o = f[3], i.p = f[4], i.a = f[5], i.t = f[6], i.usn = f[7], i.flags = f[8];
    i.pad = std::stoul(f[9]);
    return i;
}

static const uint8_t hdf5sign[8] = {0x89, 0x48, 0x44, 0x46, 0x0d, 0x0a, 0x1a, 0x0a};

// Payload: <magic>@LLLLLL;id;fmt;time;o;p;a;t;usn;flags;pad;xxxx#<trailer>
static std::string magic(DataFormat f)
{
    switch (f)
    {
        case DataFormat::GRIB:   return "GRIB";
        case DataFormat::BUFR:   return "BUFR";
        case DataFormat::VM2:    return "VM2:";
        case DataFormat::ODIMH5: return std::string((const char*)hdf5sign, 8);
        case DataFormat::NETCDF: return "CDF\x01....";
        case DataFormat::JPEG:   return "\xff\xd8";
        default:                 throw std::runtime_error("bad format");
    }
}

static std::string trailer(DataFormat f)
{
    switch (f)
    {
        case DataFormat::GRIB:
        case DataFormat::BUFR: return "7777";
        case DataFormat::JPEG: return "\xff\xd9";
        default:               return "";
    }
}

std::vector<uint8_t> Item::encode() const
{
    std::string body = ";" + id + ";" + format_name(format) + ";" + time + ";" + o + ";" + p + ";" + a + ";" + t +
                       ";" + usn + ";" + flags + ";" + std::to_string(pad) + ";";
    // Deterministic padding
    unsigned x = 17;
    for (auto c : id) x = x * 31 + c;
    for (unsigned i = 0; i < pad; ++i)
    {
        x = x * 1103515245 + 12345;
        body += (char)('a' + ((x >> 16) % 26));
    }
    body += "#";
    std::string m  = magic(format);
    std::string tr = trailer(format);
    if (flags.find('B') != std::string::npos)
    {
        // Fails validation
        if (!tr.empty())
            tr.replace(0, tr.size(), std::string(tr.size(), '0'));
    }
    size_t total = m.size() + 7 + body.size() + tr.size();
    char len[16];
    snprintf(len, 16, "@%06zu", total);
    std::string all = m + len + body + tr;
    if (flags.find('B') != std::string::npos && tr.empty())
        all[0] = 'X';
    return std::vector<uint8_t>(all.begin(), all.end());
}

bool Item::decode(const uint8_t* buf, size_t size, Item& dest)
{
    std::string s((const char*)buf, size);
    size_t at = s.find("@");
    if (at == std::string::npos || s.size() < at + 8)
        return false;
    auto f = split(s.substr(at + 7), ';');
    if (f.size() != 12)
        return false;
    Item i;
    try
    {
        i.id     = f[1];
        i.format = format_from_string(f[2]);
        i.time   = f[3];
        i.o = f[4], i.p = f[5], i.a = f[6], i.t = f[7], i.usn = f[8], i.flags = f[9];
        i.pad = std::stoul(f[10]);
    }
    catch (std::exception&)
    {
        return false;
    }
    auto enc = i.encode();
    if (enc.size() != size || memcmp(enc.data(), buf, size) != 0)
        return false;
    dest = i;
    return true;
}

bool Item::decode(const std::vector<uint8_t>& buf, Item& dest) { return decode(buf.data(), buf.size(), dest); }

static core::Time parse_time(const std::string& s)
{
    return core::Time(std::stoi(s.substr(0, 4)), std::stoi(s.substr(4, 2)), std::stoi(s.substr(6, 2)),
                      std::stoi(s.substr(8, 2)), std::stoi(s.substr(10, 2)), std::stoi(s.substr(12, 2)));
}

void Item::to_metadata(Metadata& md) const
{
    if (time != "-")
        md.set(types::Reftime::createPosition(parse_time(time)));
    if (o != "-")
        md.set(types::Origin::createGRIB1(std::stoi(o), 0, 1));
    if (p != "-")
        md.set(types::Product::createGRIB1(1, 2, std::stoi(p)));
    if (a != "-")
    {
        types::ValueBag vb = types::ValueBag::parse("x=" + a);
        md.set(types::area::GRIB::create(vb));
    }
    if (t != "-")
        md.set(types::Task::create(t));
    if (format == DataFormat::VM2)
    {
        auto d = encode();
        md.set(types::Value::create(std::string(d.begin(), d.end())));
    }
}

std::shared_ptr<Metadata> Item::make_inline() const
{
    auto md = std::make_shared<Metadata>();
    to_metadata(*md);
    md->set_source_inline(format, metadata::DataManager::get().to_data(format, encode()));
    return md;
}

bool Item::matches(const Metadata& md) const
{
    Metadata exp;
    to_metadata(exp);
    static const types::Code codes[] = {TYPE_ORIGIN, TYPE_PRODUCT, TYPE_LEVEL, TYPE_TIMERANGE, TYPE_REFTIME, TYPE_AREA,
                                        TYPE_PRODDEF, TYPE_RUN, TYPE_TASK, TYPE_QUANTITY};
    for (auto c : codes)
    {
        auto a = exp.get(c), b = md.get(c);
        if (!a && !b)
            continue;
        if (!a || !b || !(*a == *b))
            return false;
    }
    return true;
}

bool find_payload(const uint8_t* buf, size_t size, size_t& pos, size_t& len)
{
    for (size_t i = pos; i + 4 <= size; ++i)
    {
        size_t m = 0;
        if (memcmp(buf + i, "GRIB", 4) == 0 || memcmp(buf + i, "BUFR", 4) == 0 || memcmp(buf + i, "VM2:", 4) == 0)
            m = 4;
        else if (i + 8 <= size && (memcmp(buf + i, "CDF\x01....", 8) == 0 || memcmp(buf + i, hdf5sign, 8) == 0))
            m = 8;
        else if (buf[i] == 0xff && buf[i + 1] == 0xd8 && buf[i + 2] == '@')
            m = 2;
        else
            continue;
        if (i + m + 7 > size)
            throw std::runtime_error("truncated message header at offset " + std::to_string(i));
        if (buf[i + m] != '@')
            continue;
        len = std::stoul(std::string((const char*)buf + i + m + 1, 6));
        if (i + len > size)
            throw std::runtime_error("truncated message at offset " + std::to_string(i));
        pos = i;
        return true;
    }
    return false;
}

static std::vector<uint8_t> slurp(const std::filesystem::path& p)
{
    int fd = open(p.c_str(), O_RDONLY | O_CLOEXEC);
    if (fd == -1)
        throw std::runtime_error("cannot open " + p.string() + ": " + strerror(errno));
    std::vector<uint8_t> res;
    uint8_t buf[65536];
    ssize_t r;
    while ((r = read(fd, buf, sizeof buf)) > 0) res.insert(res.end(), buf, buf + r);
    close(fd);
    if (r < 0)
        throw std::runtime_error("cannot read " + p.string());
    return res;
}

static std::shared_ptr<Metadata> scan_buf(const uint8_t* buf, size_t size)
{
    Item i;
    if (!Item::decode(buf, size, i))
        throw std::runtime_error("synthetic scanner: cannot decode message");
    auto md = std::make_shared<Metadata>();
    i.to_metadata(*md);
    return md;
}

class SynthScanner : public data::Scanner
{
    DataFormat fmt;
    bool multi;

public:
    SynthScanner(DataFormat fmt, bool multi) : fmt(fmt), multi(multi) {}
    DataFormat name() const override { return fmt; }
    std::shared_ptr<Metadata> scan_data(const std::vector<uint8_t>& data) override
    {
        auto md = scan_buf(data.data(), data.size());
        md->set_source_inline(fmt, metadata::DataManager::get().to_data(fmt, std::vector<uint8_t>(data)));
        return md;
    }
    bool scan_file_multi(const std::filesystem::path& abspath, data::scan_file_multi_dest_func dest) override
    {
        auto buf = slurp(abspath);
        if (!multi)
        {
            if (buf.empty())
                return true;
            return dest(scan_buf(buf.data(), buf.size()), 0, std::move(buf));
        }
        size_t pos = 0, len = 0;
        while (find_payload(buf.data(), buf.size(), pos, len))
        {
            if (!dest(scan_buf(buf.data() + pos, len), pos,
                      std::vector<uint8_t>(buf.begin() + pos, buf.begin() + pos + len)))
                return false;
            pos += len;
        }
        return true;
    }
    std::shared_ptr<Metadata> scan_file_single(const std::filesystem::path& abspath) override
    {
        auto buf = slurp(abspath);
        return scan_buf(buf.data(), buf.size());
    }
    bool scan_pipe(core::NamedFileDescriptor& in, metadata_dest_func dest) override
    {
        std::vector<uint8_t> buf;
        uint8_t b[4096];
        while (size_t r = in.read(b, sizeof b)) buf.insert(buf.end(), b, b + r);
        size_t pos = 0, len = 0;
        while (find_payload(buf.data(), buf.size(), pos, len))
        {
            if (!dest(scan_data(std::vector<uint8_t>(buf.begin() + pos, buf.begin() + pos + len))))
                return false;
            pos += len;
        }
        return true;
    }
    bool update_sequence_number(Metadata& md, int& usn) const override
    {
        auto d = md.get_data().read();
        Item i;
        if (!Item::decode(d, i) || i.usn == "-")
            return false;
        usn = std::stoi(i.usn);
        return true;
    }
    bool update_sequence_number(const types::source::Blob& source, int& usn) const override
    {
        Item i;
        std::vector<uint8_t> d = source.read_data();
        if (!Item::decode(d, i) || i.usn == "-")
            return false;
        usn = std::stoi(i.usn);
        return true;
    }
    std::vector<uint8_t> reconstruct(const Metadata& md, const std::string& value) const override
    {
        return std::vector<uint8_t>(value.begin(), value.end());
    }
};

void register_scanners()
{
    data::Scanner::register_init([] {
        for (unsigned f = (unsigned)DataFormat::GRIB; f < (unsigned)DataFormat::__END__; ++f)
            data::Scanner::register_scanner((DataFormat)f,
                                            std::make_shared<SynthScanner>((DataFormat)f, f <= (unsigned)DataFormat::VM2));
    });
}

}
