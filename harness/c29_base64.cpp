// engine: seq
// sources: Formatter exception/Exception utils math/math_extension time/time_utils
#include "enum.hpp"
#include <cpp_utils/utils.hpp>
using namespace eprosima::utils;

namespace {
const char A64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
std::string bits_of(const std::string& s) { std::string b; for (unsigned char c : s) for (int i = 7; i >= 0; --i) b += (char)('0' + (c >> i & 1)); return b; }
//! RFC 4648, through a string of bits
std::string encode(const std::string& s)
{
    std::string b = bits_of(s), o;
    while (b.size() % 6) b += '0';
    for (size_t i = 0; i < b.size(); i += 6) { int v = 0; for (int k = 0; k < 6; ++k) v = v * 2 + b[i + k] - '0'; o += A64[v]; }
    while (o.size() % 4) o += '=';
    return o;
}
std::string decode(const std::string& t)
{
    std::string b, o;
    for (char c : t)
    {
        int v = -1;
        for (int i = 0; i < 64; ++i) if (A64[i] == c) v = i;
        if (v < 0) break;
        for (int k = 5; k >= 0; --k) b += (char)('0' + (v >> k & 1));
    }
    for (size_t i = 0; i + 8 <= b.size(); i += 8) { int v = 0; for (int k = 0; k < 8; ++k) v = v * 2 + b[i + k] - '0'; o += (char)v; }
    return o;
}
void round(const std::string& s)
{
    en::begin(en::q(s));
    std::string e = base64_encode(s);
    en::same(e, encode(s), "base64_encode");
    en::same(base64_decode(e), s, "decoding the encoding");
}
void text(const std::string& t) { en::begin(en::q(t)); en::same(base64_decode(t), decode(t), "base64_decode"); }
}
MC_SCENARIO("C29", "short")
{
    round("");
    for (int a = 0; a < 256; ++a) { round(std::string(1, (char)a)); for (int b = 0; b < 256; ++b) round(std::string{(char)a, (char)b}); }
    // three bytes: the middle ones exhaustively for boundary neighbours
    for (int a : {0, 1, 3, 4, 15, 16, 63, 64, 127, 128, 192, 252, 255}) for (int c : {0, 1, 62, 63, 64, 128, 250, 255}) for (int b = 0; b < 256; ++b) round(std::string{(char)a, (char)b, (char)c});
    if (mc::thorough()) for (int n = 0; n < (1 << 24); n += 1 + n % 7) round(std::string{(char)(n >> 16), (char)(n >> 8), (char)n});
}
MC_SCENARIO("C29", "long")
{
    std::string B("\x00\x01\x7f\x80\xfe\xff", 6);
    en::strings(B, 3, mc::thorough() ? 8 : 6, round);
    for (int n = 0; n < 600; ++n) for (int k : {0, 7, 255, 129}) { std::string s; for (int i = 0; i < n; ++i) s += (char)(k == 7 ? i * 37 + n : k); round(s); }
}
MC_SCENARIO("C29", "every_text")
{
    en::strings(std::string("AZaz09+/=- \n\x80\xff\0", 15), 0, mc::thorough() ? 6 : 5, text);
    // a character outside the alphabet at every place of a text
    for (int c = 0; c < 256; ++c) for (int n = 0; n < 24; ++n) for (int p = 0; p <= n; ++p) { std::string t; for (int i = 0; i < n; ++i) t += A64[(i * 29 + n) % 64]; t.insert(p, 1, (char)c); text(t); }
}

MC_SCENARIO("C29", "very_long")
{
    // sizes around those of common buffers, whole and cut at every remainder
    for (int big : {999, 1022, 2046, 3070, 4093, 6141, 8189, 16381, 32764, 49150, 65533, 98302, 131069}) for (int d = 0; d < (mc::thorough() ? 12 : 6); ++d)
    {
        std::string s; s.reserve(big + d);
        unsigned x = big * 7 + d; for (int i = 0; i < big + d; ++i) s += (char)((x = x * 1103515245 + 12345) >> 16);
        mc::ctx(mc::str(s.size(), " bytes")); mc::count("cases");
        std::string e = base64_encode(s);
        mc::check(e == encode(s), "base64_encode");
        mc::check(base64_decode(e) == s, "decoding the encoding");
    }
}
