#pragma once
// A reference model of the standard file streams (include after
// model_vector.h): a file is its name; every effect on it is one call.
#ifndef MF_NO_FAILURE
#define MF_NO_FAILURE false
#endif
extern "C" {
size_t mf_id(const char* name);                                    // which file (pure)
bool mf_opens(size_t file, int how);                                // open succeeded; 0 reading, 1 new contents, 2 append, 3 keep contents
size_t mf_size(size_t file);                                        // bytes of the file (pure)
bool mf_read(size_t file, size_t pos, void* p, size_t n);           // n bytes from pos
bool mf_write(size_t file, size_t pos, const void* p, size_t n);
bool mf_close(size_t file);
bool mf_broken(size_t file);                                        // a failure is one of the device (rather than the end of the file)
}
namespace std {
struct model_file {
    using char_type = char;
    static constexpr std::ios_base::openmode binary = std::ios_base::binary, in = std::ios_base::in, out = std::ios_base::out, ate = std::ios_base::ate, trunc = std::ios_base::trunc;
    static constexpr std::ios_base::seekdir beg = std::ios_base::beg, end = std::ios_base::end, cur = std::ios_base::cur;
    size_t id;
    long pos;
    bool ok, opened, text;
    void start(const char* name, std::ios_base::openmode m, bool w) {
        id = mf_id(name);
        opened = ok = mf_opens(id, !w ? 0 : (m & std::ios_base::app) ? 2 : (m & std::ios_base::in) && !(m & std::ios_base::trunc) ? 3 : 1) || MF_NO_FAILURE;
        pos = (m & std::ios_base::ate) ? long(mf_size(id)) : 0;
        text = !(m & std::ios_base::binary);
    }
    bool good() const { return ok; }
    bool fail() const { return !ok; }
    bool bad() const { return !ok && mf_broken(id); }
    bool is_open() const { return opened; }
    explicit operator bool() const { return ok; }
    bool operator!() const { return !ok; }
    void close() { if (opened) { opened = false; if (!mf_close(id) && !MF_NO_FAILURE) ok = false; } else ok = false; }
    ~model_file() { if (opened) { mf_close(id); } }
    model_file() : id(0), pos(0), ok(true), opened(false), text(false) {}
    model_file(const model_file&) = delete;
    long tell() const { return ok ? pos : -1; }
    void seek(long p) { if (ok) pos = p; }
    void seek(long p, std::ios_base::seekdir d) { if (ok) pos = (d == std::ios_base::beg ? 0 : d == std::ios_base::cur ? pos : long(mf_size(id))) + p; }
};
struct model_ifstream : model_file {
    model_ifstream() {}
    explicit model_ifstream(const std::string& f, std::ios_base::openmode m = std::ios_base::in) { start(f.c_str(), m, false); }
    explicit model_ifstream(const char* f, std::ios_base::openmode m = std::ios_base::in) { start(f, m, false); }
    void open(const std::string& f, std::ios_base::openmode m = std::ios_base::in) { start(f.c_str(), m, false); }
    model_ifstream& seekg(long p) { seek(p); return *this; }
    model_ifstream& seekg(long p, std::ios_base::seekdir d) { seek(p, d); return *this; }
    long tellg() { return tell(); }
    model_ifstream& read(char* p, long n) { if (ok) { if (!mf_read(id, pos, p, n) && !MF_NO_FAILURE) ok = false; else pos += n; } return *this; }
};
struct model_ofstream : model_file {
    model_ofstream() {}
    explicit model_ofstream(const std::string& f, std::ios_base::openmode m = std::ios_base::out) { start(f.c_str(), m, true); }
    explicit model_ofstream(const char* f, std::ios_base::openmode m = std::ios_base::out) { start(f, m, true); }
    void open(const std::string& f, std::ios_base::openmode m = std::ios_base::out) { start(f.c_str(), m, true); }
    model_ofstream& write(const char* p, long n) { if (ok) { if (!mf_write(id, pos, p, n) && !MF_NO_FAILURE) ok = false; else pos += n; } return *this; }
    model_ofstream& flush() { return *this; }
    long tellp() { return tell(); }
};
}
#define ifstream model_ifstream
#define ofstream model_ofstream
