// Stand-in for <bits/ios_base.h>: format flags and stream states, without locales, callbacks and synchronisation.
#ifndef _IOS_BASE_H
#define _IOS_BASE_H 1
#include <bits/c++config.h>
#include <bits/localefwd.h>
#include <iosfwd>
#include <stdexcept>
#include <string>
#include <system_error>
namespace std {
enum class io_errc { stream = 1 };
class ios_base {
public:
    typedef unsigned fmtflags;
    typedef unsigned iostate;
    typedef unsigned openmode;
    typedef int seekdir;
    static constexpr fmtflags boolalpha = 1, dec = 2, fixed = 4, hex = 8, internal = 16, left = 32, oct = 64, right = 128, scientific = 256,
        showbase = 512, showpoint = 1024, showpos = 2048, skipws = 4096, unitbuf = 8192, uppercase = 16384, adjustfield = 16 | 32 | 128,
        basefield = 2 | 8 | 64, floatfield = 4 | 256;
    static constexpr iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
    static constexpr openmode app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32;
    static constexpr seekdir beg = 0, cur = 1, end = 2;
    class failure : public runtime_error { public: explicit failure(const string &s) : runtime_error(s) {} };
    ios_base(const ios_base &) = delete;
    ios_base &operator=(const ios_base &) = delete;
    virtual ~ios_base() {}
    fmtflags flags() const { return flags_; }
    fmtflags flags(fmtflags f) { fmtflags o = flags_; flags_ = f; return o; }
    fmtflags setf(fmtflags f) { fmtflags o = flags_; flags_ |= f; return o; }
    fmtflags setf(fmtflags f, fmtflags m) { fmtflags o = flags_; flags_ = (flags_ & ~m) | (f & m); return o; }
    void unsetf(fmtflags m) { flags_ &= ~m; }
    streamsize precision() const { return prec_; }
    streamsize precision(streamsize p) { streamsize o = prec_; prec_ = p; return o; }
    streamsize width() const { return width_; }
    streamsize width(streamsize w) { streamsize o = width_; width_ = w; return o; }
    static bool sync_with_stdio(bool = true) { return true; }
protected:
    ios_base() {}
    fmtflags flags_ = 2 | 4096;
    streamsize prec_ = 6, width_ = 0;
};
inline ios_base &boolalpha(ios_base &b) { b.setf(ios_base::boolalpha); return b; }
inline ios_base &noboolalpha(ios_base &b) { b.unsetf(ios_base::boolalpha); return b; }
inline ios_base &showbase(ios_base &b) { b.setf(ios_base::showbase); return b; }
inline ios_base &noshowbase(ios_base &b) { b.unsetf(ios_base::showbase); return b; }
inline ios_base &showpoint(ios_base &b) { b.setf(ios_base::showpoint); return b; }
inline ios_base &noshowpoint(ios_base &b) { b.unsetf(ios_base::showpoint); return b; }
inline ios_base &showpos(ios_base &b) { b.setf(ios_base::showpos); return b; }
inline ios_base &noshowpos(ios_base &b) { b.unsetf(ios_base::showpos); return b; }
inline ios_base &skipws(ios_base &b) { b.setf(ios_base::skipws); return b; }
inline ios_base &noskipws(ios_base &b) { b.unsetf(ios_base::skipws); return b; }
inline ios_base &uppercase(ios_base &b) { b.setf(ios_base::uppercase); return b; }
inline ios_base &nouppercase(ios_base &b) { b.unsetf(ios_base::uppercase); return b; }
inline ios_base &unitbuf(ios_base &b) { b.setf(ios_base::unitbuf); return b; }
inline ios_base &nounitbuf(ios_base &b) { b.unsetf(ios_base::unitbuf); return b; }
inline ios_base &internal(ios_base &b) { b.setf(ios_base::internal, ios_base::adjustfield); return b; }
inline ios_base &left(ios_base &b) { b.setf(ios_base::left, ios_base::adjustfield); return b; }
inline ios_base &right(ios_base &b) { b.setf(ios_base::right, ios_base::adjustfield); return b; }
inline ios_base &dec(ios_base &b) { b.setf(ios_base::dec, ios_base::basefield); return b; }
inline ios_base &hex(ios_base &b) { b.setf(ios_base::hex, ios_base::basefield); return b; }
inline ios_base &oct(ios_base &b) { b.setf(ios_base::oct, ios_base::basefield); return b; }
inline ios_base &fixed(ios_base &b) { b.setf(ios_base::fixed, ios_base::floatfield); return b; }
inline ios_base &scientific(ios_base &b) { b.setf(ios_base::scientific, ios_base::floatfield); return b; }
inline ios_base &hexfloat(ios_base &b) { b.setf(ios_base::fixed | ios_base::scientific, ios_base::floatfield); return b; }
inline ios_base &defaultfloat(ios_base &b) { b.unsetf(ios_base::floatfield); return b; }
} // namespace std
#endif
