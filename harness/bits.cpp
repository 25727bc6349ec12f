// Bit fields and checksums.
//   get t|r u|s POS LEN hex     getBit (template or run-time width)
//   set t|r POS LEN VALUE hex   setBit
//   mag POS LEN hex             getBitGlo
//   crc hex                     crc24
//   ham hex                     gloTest
#include "drv.h"
#include "common/ephemeris/bit_tools.h"
#include "utils/crc.h"
#include <array>
#include <memory>
#include <utility>
using namespace mc;
using namespace mc::ephemeris;
using Get = int64_t (*)(const uint8_t*, int);
using Put = void (*)(uint8_t*, int, unsigned);
using Mag = double (*)(const uint8_t*, int);
template <int N, int S> int64_t get1(const uint8_t* b, int p) { return (int64_t)getBit<N, S>(b, p); }
template <int N> void set1(uint8_t* b, int p, unsigned v) { setBit<N>(b, p, v); }
template <int N> double mag1(const uint8_t* b, int p) { return getBitGlo<N>(b, p); }
template <int S, size_t... I> std::array<Get, sizeof...(I)> gets(std::index_sequence<I...>) { return {{&get1<I + 1, S>...}}; }
template <size_t... I> std::array<Put, sizeof...(I)> sets(std::index_sequence<I...>) { return {{&set1<I + 1>...}}; }
template <size_t... I> std::array<Mag, sizeof...(I)> mags(std::index_sequence<I...>) { return {{&mag1<I + 2>...}}; }
static void run(const std::vector<drv::Cmd>& seg)
{
    static const auto U = gets<mc::ephemeris::Unsigned>(std::make_index_sequence<56>());
    static const auto S = gets<mc::ephemeris::Signed>(std::make_index_sequence<56>());
    static const auto W = sets(std::make_index_sequence<32>());
    static const auto M = mags(std::make_index_sequence<31>());
    for (const auto& c : seg)
    {
        if (c[0] == "new") { drv::J("new").emit(); continue; }
        const std::string hex = c.back();
        const size_t n = hex.size() / 2;
        std::unique_ptr<uint8_t[]> buf(new uint8_t[n]);
        for (size_t k = 0; k < n; ++k) buf[k] = (uint8_t)strtol(hex.substr(2 * k, 2).c_str(), nullptr, 16);
        drv::J j(c[0]);
        j.a("b", std::vector<int>(buf.get(), buf.get() + n));
        if (c[0] == "get")
        {
            const int p = drv::num(c[3]), len = drv::num(c[4]);
            const bool sign = c[2] == "s";
            int64_t v;
            if (c[1] == "t") v = (sign ? S : U)[len - 1](buf.get(), p);
            else v = sign ? (int64_t)getBit<mc::ephemeris::Signed>(buf.get(), p, len) : (int64_t)getBit<mc::ephemeris::Unsigned>(buf.get(), p, len);
            j.i("p", p).i("n", len).b("s", sign).w("v", (uint64_t)v);
        }
        else if (c[0] == "set")
        {
            const int p = drv::num(c[2]), len = drv::num(c[3]);
            const unsigned v = (unsigned)drv::num(c[4]);
            if (c[1] == "t") W[len - 1](buf.get(), p, v);
            else setBit(buf.get(), p, v, len);
            j.i("p", p).i("n", len).w("v", v).a("after", std::vector<int>(buf.get(), buf.get() + n));
        }
        else if (c[0] == "mag")
        {
            const int p = drv::num(c[1]), len = drv::num(c[2]);
            const double v = M[len - 2](buf.get(), p);
            j.i("p", p).i("n", len).w("v", (uint64_t)(int64_t)v).b("exact", v == (double)(int64_t)v);
        }
        else if (c[0] == "crc") j.w("v", utils::crc24(buf.get(), (int)n));
        else j.b("ok", utils::gloTest(buf.get()));
        j.emit();
    }
}
int main(int argc, char** argv) { return drv::run(argc, argv, run); }
