#ifndef VERIF_SYNTH_H
#define VERIF_SYNTH_H
// Synthetic self-describing data items, and scanners for them.
//
// The payload of each item carries all the attributes its metadata should have,
// so what a dataset returns can be decoded and compared with no reference to
// the code under test.
#include <arki/core/time.h>
#include <arki/data.h>
#include <arki/defs.h>
#include <arki/metadata.h>
#include <cstdint>
#include <memory>
#include <string>
#include <vector>

namespace verif {

struct Item
{
    std::string id;
    arki::DataFormat format = arki::DataFormat::GRIB;
    std::string time; // YYYYMMDDhhmmss, or '-'
    std::string o = "-", p = "-", a = "-", t = "-";
    std::string usn = "-";
    std::string flags = "-"; // B: fails validation
    unsigned pad = 0;

    /// Parse from id,fmt,time,o,p,a,t,usn,flags,pad
    static Item parse(const std::string& s);
    /// Encode as a data payload
    std::vector<uint8_t> encode() const;
    /// Fill metadata items (not source) as a scanner would
    void to_metadata(arki::Metadata& md) const;
    /// Decode from a payload. Returns false if it's not a valid payload
    static bool decode(const std::vector<uint8_t>& buf, Item& dest);
    static bool decode(const uint8_t* buf, size_t size, Item& dest);
    /// Full inline metadata
    std::shared_ptr<arki::Metadata> make_inline() const;
    /// Check that md describes this item
    bool matches(const arki::Metadata& md) const;
};

/// Find the first payload in buf starting at or after pos. Returns false if
/// there is none. Throws if there is a truncated one.
bool find_payload(const uint8_t* buf, size_t size, size_t& pos, size_t& len);

void register_scanners();

std::string json_str(const std::string& s);
std::string fmt_time(const arki::core::Time& t);

}
#endif
