// Text utilities. case: kind ... with texts as "len code*"
// 0 int: type text | 1 real: type text | 2 view: i j text | 3 cmp: text text | 4 file: path nlines text
#include "jlog.hpp"
#include <cfloat>
#include <cctype>
#include <cstring>
#include <typeinfo>
#include <fmt/format.h>
#include "utils/parse_utils.hpp"
#include "utils/StringView.hpp"
#include <fstream>
using namespace cft;
static std::string text(std::ifstream& in) { long n; in >> n; std::string s; for (long i = 0; i < n; ++i) { int c; in >> c; s += (char)c; } return s; }
static std::vector<int> codes(StringView v) { std::vector<int> r; for (char const* p = v.start; p < v.finish; ++p) r.push_back((unsigned char)*p); return r; }
static std::vector<int> codes(std::string const& v) { std::vector<int> r; for (char c : v) r.push_back((unsigned char)c); return r; }
static std::vector<int> digits(std::string const& s) { std::vector<int> r; for (char c : s) if (c >= '0' && c <= '9') r.push_back(c - '0'); return r; }
template <class T> static std::string dec(T v) { return std::is_signed<T>::value ? std::to_string((long long)v) : std::to_string((unsigned long long)v); }
template <class T> static void integer(std::string const& s) {
    StringView v(s); T x = 0, y = 0; bool c = true, p = true;
    try { x = string_to<T>::consume(v); } catch (std::exception const&) { c = false; }
    try { y = string_to<T>::parse(StringView(s)); } catch (std::exception const&) { p = false; }
    jl::Ev e("int"); e.ints("s", codes(s)).boolean("cok", c).boolean("pok", p).ints("left", codes(v)).boolean("cneg", dec(x)[0] == '-').ints("cd", digits(dec(x)))
        .boolean("pneg", dec(y)[0] == '-').ints("pd", digits(dec(y))).ints("lo", std::is_signed<T>::value ? digits(dec(std::numeric_limits<T>::min())) : std::vector<int>()).ints("hi", digits(dec(std::numeric_limits<T>::max()))); e.emit();
}
// exact decimal expansion times 10^220, as digits
static std::vector<int> exact(long double x) { char b[6000]; snprintf(b, sizeof b, "%.220Lf", x < 0 ? -x : x); return digits(b); }
// values below the one halfway to the next power of two are rounded to the largest one
static std::vector<int> exact0(long double x) { char b[6000]; snprintf(b, sizeof b, "%.0Lf", x); return digits(b); }
template <class T> static void real(std::string const& s) {
    StringView v(s); T x = 0, y = 0; bool c = true, p = true;
    try { x = string_to<T>::consume(v); } catch (std::exception const&) { c = false; }
    try { y = string_to<T>::parse(StringView(s)); } catch (std::exception const&) { p = false; }
    T a = std::fabs(x), up = std::nextafter(a, std::numeric_limits<T>::infinity()), dn = a == 0 ? 0 : std::nextafter(a, (T)0);
    long double lo = a - ((long double)a - dn) * 0.51L, hi = a + (std::isinf(up) ? (long double)a - dn : (long double)up - a) * 0.51L;
    jl::Ev e("real"); e.ints("s", codes(s)).boolean("cok", c).boolean("pok", p).ints("left", codes(v)).boolean("cneg", std::signbit(x)).boolean("czero", x == 0)
        .ints("clo", exact(lo)).ints("chi", exact(hi)).num("cf", -220).boolean("same", !p || !c || x == y).ints("maxd", exact0((long double)std::numeric_limits<T>::max() + ((long double)std::numeric_limits<T>::max() - std::nextafter(std::numeric_limits<T>::max(), (T)0)) / 2)); e.emit();
}
int main(int, char** argv) {
    std::ifstream in(argv[1]);
    jl::out() = fopen(argv[2], "w");
    int kind;
    while (in >> kind) {
        if (kind == 0) { int t; in >> t; std::string s = text(in); switch (t) { case 0: integer<int8_t>(s); break; case 1: integer<uint8_t>(s); break; case 2: integer<int16_t>(s); break; case 3: integer<uint16_t>(s); break;
            case 4: integer<int32_t>(s); break; case 5: integer<uint32_t>(s); break; case 6: integer<int64_t>(s); break; default: integer<uint64_t>(s); } }
        else if (kind == 1) { int t; in >> t; std::string s = text(in); if (t == 0) real<float>(s); else real<double>(s); }
        else if (kind == 2) { long i, j; in >> i >> j; std::string s = text(in); StringView v = i % 2 ? StringView(s) : StringView(s.data(), s.size()); 
            auto sp = split(v); std::vector<std::vector<int>> parts; for (auto x : sp) parts.push_back(codes(x));
            std::vector<int> chars; for (char c : v) chars.push_back((unsigned char)c); for (size_t q = 0; q < v.size(); ++q) if ((unsigned char)v[q] != chars[q]) chars[q] = -1;
            jl::Ev e("view"); e.ints("s", codes(s)).ints("ltrim", codes(ltrim(v))).ints("rtrim", codes(rtrim(v))).ints("trim", codes(trim(v))).mat("split", parts).num("size", (long long)v.size()).boolean("empty", v.empty())
                .ints("copy", codes(v.to_cpp_string())).ints("chars", chars).num("i", i).num("j", j).ints("pre", codes(v.remove_prefix(i))).ints("suf", codes(v.remove_suffix(i))).ints("sub", codes(v.get_substr(i, j)))
                .num("first", (long long)v.find_first_true(IsSpace{})).num("last", (long long)v.find_last_true(IsSpace{})); e.emit(); }
        else if (kind == 3) { std::string s = text(in), r = text(in); StringView a(s), b(r.data(), r.data() + r.size()); int c = a.compare(b);
            jl::Ev e("cmp"); e.ints("a", codes(s)).ints("b", codes(r)).boolean("eq", a == b).boolean("ne", a != b).boolean("lt", a < b).boolean("le", a <= b).boolean("gt", a > b).boolean("ge", a >= b).num("cmp", c < 0 ? -1 : c > 0 ? 1 : 0).boolean("ceq", a == r.c_str()); e.emit(); }
        else { std::string path; long n; in >> path >> n; std::string s = text(in); { std::ofstream o(path, std::ios::binary); o << s; }
            std::vector<std::vector<int>> ls; { FileLineIterator it(path); for (long q = 0; q < n; ++q) { StringView v = it.next(); ls.push_back(codes(v)); } }
            remove(path.c_str());
            jl::Ev e("file"); e.ints("s", codes(s)).mat("lines", ls); e.emit(); }
        jl::Ev("end").emit(); fflush(jl::out());
    }
}
