// Stand-ins for the parts of libarkimet that need libraries this system does
// not have (DB-All.e, meteo-vm2): upstream's build leaves them out too, which
// leaves their symbols undefined.
#include <arki/core/file.h>
#include <arki/data/bufr.h>
#include <arki/data/vm2.h>
#include <arki/metadata.h>
#include <cstring>
#include <string>

namespace arki::data {

namespace {
struct SynthValidator : public Validator
{
    DataFormat fmt;
    const char* head;
    const char* tail;
    SynthValidator(DataFormat fmt, const char* head, const char* tail) : fmt(fmt), head(head), tail(tail) {}
    DataFormat format() const override { return fmt; }
    void validate_file(core::NamedFileDescriptor& fd, off_t offset, size_t size) const override
    {
        std::string buf(size, 0);
        ssize_t res = fd.pread(&buf[0], size, offset);
        if ((size_t)res != size)
            throw_check_error(fd, offset, "short read");
        if (size < 8 || buf.compare(0, strlen(head), head) != 0)
            throw_check_error(fd, offset, "bad header");
        if (buf.compare(size - strlen(tail), strlen(tail), tail) != 0)
            throw_check_error(fd, offset, "bad trailer");
    }
    void validate_buf(const void* b, size_t size) const override
    {
        std::string buf((const char*)b, size);
        if (size < 8 || buf.compare(0, strlen(head), head) != 0)
            throw_check_error("bad header");
        if (buf.compare(size - strlen(tail), strlen(tail), tail) != 0)
            throw_check_error("bad trailer");
    }
};
}

namespace bufr {
static SynthValidator v(DataFormat::BUFR, "BUFR", "7777");
const Validator& validator() { return v; }
static void na() { throw std::runtime_error("BUFR scanner not available"); }
Scanner::Scanner() {}
Scanner::~Scanner() {}
std::shared_ptr<Metadata> Scanner::scan_data(const std::vector<uint8_t>&) { na(); return nullptr; }
bool Scanner::scan_file_multi(const std::filesystem::path&, scan_file_multi_dest_func) { na(); return false; }
std::shared_ptr<Metadata> Scanner::scan_file_single(const std::filesystem::path&) { na(); return nullptr; }
bool Scanner::scan_pipe(core::NamedFileDescriptor&, metadata_dest_func) { na(); return false; }
bool Scanner::update_sequence_number(Metadata&, int&) const { na(); return false; }
bool Scanner::update_sequence_number(const types::source::Blob&, int&) const { na(); return false; }
void MockScanner::scan_extra(dballe::BinaryMessage&, std::shared_ptr<dballe::Message>, std::shared_ptr<Metadata>) {}
}

namespace vm2 {
static SynthValidator v(DataFormat::VM2, "VM2:", "#");
const Validator& validator() { return v; }
static void na() { throw std::runtime_error("VM2 scanner not available"); }
std::shared_ptr<Metadata> Scanner::scan_data(const std::vector<uint8_t>&) { na(); return nullptr; }
bool Scanner::scan_file_multi(const std::filesystem::path&, scan_file_multi_dest_func) { na(); return false; }
std::shared_ptr<Metadata> Scanner::scan_file_single(const std::filesystem::path&) { na(); return nullptr; }
bool Scanner::scan_pipe(core::NamedFileDescriptor&, metadata_dest_func) { na(); return false; }
void Scanner::normalize_before_dispatch(Metadata&) {}
std::vector<uint8_t> Scanner::reconstruct(const Metadata&, const std::string&) const { na(); return {}; }
}

}
