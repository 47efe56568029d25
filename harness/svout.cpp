// Output of string views (C29).
//
// The stream is the standard library's own basic_ostream, instantiated for a character traits class of this file so
// that its code is part of what is executed. What the library keeps in its shared object (ios_base, locale) is
// defined below for symbolic execution; a replay uses the library's.
#include "vxlib.hpp"
#include <ostream>
#include <streambuf>
#include <cetl/pf17/string_view.hpp>

#ifndef VX_N
#    define VX_N 3
#endif
#ifndef VX_NATIVE
namespace
{
alignas(16) char       fake_impl[256];
alignas(16) char       fake_ctype[sizeof(std::ctype<char>)];
struct Peek : std::ctype<char>
{
    static const std::ctype<char>* get()
    {
        auto& c  = reinterpret_cast<std::ctype<char>&>(fake_ctype);
        auto ok  = static_cast<char std::ctype<char>::*>(&Peek::_M_widen_ok);
        auto map = static_cast<char(std::ctype<char>::*)[256]>(&Peek::_M_widen);
        c.*ok    = 1;
        for (int i = 0; i < 256; ++i) (c.*map)[i] = static_cast<char>(i);
        return &c;
    }
};
}  // namespace
namespace std
{
locale::locale() noexcept : _M_impl(reinterpret_cast<_Impl*>(&fake_impl)) {}
locale::locale(const locale& o) noexcept : _M_impl(o._M_impl) {}
locale::~locale() noexcept {}
size_t locale::id::_M_id() const noexcept { return 0; }
ios_base::ios_base() noexcept
    : _M_precision(), _M_width(), _M_flags(), _M_exception(), _M_streambuf_state(), _M_callbacks(nullptr), _M_word_zero(), _M_word_size(_S_local_word_size), _M_word(_M_local_word), _M_ios_locale()
{
}
ios_base::~ios_base() {}
void ios_base::_M_init() noexcept
{
    _M_precision = 6;
    _M_width     = 0;
    _M_flags     = skipws | dec;
}
}  // namespace std
/// What the library has for a character class table.
extern "C" const std::ctype<char>* vxext__ZSt15__try_use_facetISt5ctypeIcEEPKT_RKSt6locale(const std::locale&) { return Peek::get(); }
extern "C" bool                    vxext__ZSt9has_facetISt5ctypeIcEEbRKSt6locale(const std::locale&) { return true; }
extern "C" const std::ctype<char>& vxext__ZSt9use_facetISt5ctypeIcEERKT_RKSt6locale(const std::locale&) { return *Peek::get(); }
#endif

using namespace vx;
namespace
{
struct Traits : std::char_traits<char> {};
using V = cetl::pf17::basic_string_view<char, Traits>;

constexpr int Max = VX_N + 4;
/// Takes a limited number of characters, unbuffered or in bulk.
struct Buf : std::basic_streambuf<char, Traits>
{
    char       data[Max];
    int        n    = 0;
    int        room = Max;
    int_type   overflow(int_type c) override
    {
        if (n >= room) return traits_type::eof();
        data[n++] = traits_type::to_char_type(c);
        return traits_type::not_eof(c);
    }
    std::streamsize xsputn(const char* s, std::streamsize k) override
    {
        std::streamsize done = 0;
        while (done < k && n < room) data[n++] = s[done++];
        return done;
    }
};
void run()
{
    using Base = std::ios_base;
    const int len = static_cast<int>(choice("n", VX_N + 1));
    __vx_shard(static_cast<u64>(len));
    char* const p = static_cast<char*>(std::malloc(static_cast<std::size_t>(len) + 1)) + 1;
    for (int i = 0; i < len; ++i) p[i] = static_cast<char>(sym8("c"));
    Buf                               b;
    std::basic_ostream<char, Traits>  os(&b);
    const int                         width = static_cast<int>(choice("width", Max + 2)) - 1;
    __vx_shard(static_cast<u64>(width + 1));
    const char fill = static_cast<char>(sym8("fill"));
    os.width(width);
    const bool filled = flag("filled");
    if (filled) os.fill(fill);
    const u64 adjust = choice("adjust", 4);
    if (adjust == 1) os.setf(Base::left, Base::adjustfield);
    if (adjust == 2) os.setf(Base::right, Base::adjustfield);
    if (adjust == 3) os.setf(Base::internal, Base::adjustfield);
    const u32 others = sym32("flags") & static_cast<u32>(Base::boolalpha | Base::showpos | Base::hex | Base::uppercase);
    os.setf(static_cast<Base::fmtflags>(others));
    // what should come out
    char      want[Max];
    int       total = 0;
    const int pad   = width > len ? width - len : 0;
    const char f    = filled ? fill : ' ';
    if (adjust != 1)
        for (int i = 0; i < pad; ++i) want[total++] = f;
    for (int i = 0; i < len; ++i) want[total++] = p[i];
    if (adjust == 1)
        for (int i = 0; i < pad; ++i) want[total++] = f;
    const u64 how = choice("how", 3);
    if (how == 1)
    {
        // a stream that fails part of the way
        b.room = static_cast<int>(choice("room", Max));
        __vx_assume(b.room < total);
        VX_REACH("cut");
    }
    if (how == 2) os.setstate(Base::failbit);
    std::basic_ostream<char, Traits>& r = (os << V(p, static_cast<std::size_t>(len)));
    VX_ASSERT(&r == &os, "the stream is not returned");
    if (how == 2)
        VX_ASSERT(b.n == 0, "something was written to a failed stream");
    else
    {
        VX_ASSERT(os.good() == (how == 0), "the state of the stream does not tell whether all was written");
        VX_ASSERT(b.n == (how == 0 ? total : b.room), "another number of characters was written");
        for (int i = 0; i < b.n; ++i) VX_ASSERT(b.data[i] == want[i], "another character was written");
        if (how == 0) VX_ASSERT(os.width() == 0, "the field width was not reset");
        VX_ASSERT(os.fill() == f, "the fill character was changed");
    }
    std::free(p - 1);
    end_checks();
    end_path();
}
}  // namespace
VX_HARNESS(sv_output) { run(); }
