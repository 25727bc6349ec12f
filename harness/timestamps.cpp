// Drives mc::UTCTime / mc::QuantizedTime.
#include "drv.h"
#include "common/quantized_time.h"
#include "common/utctime.h"
using namespace drv;
using mc::UTCTime;

static UTCTime mk(long long sec, long long ns) { UTCTime t; t.sec = sec; t.nsec = ns; return t; }
static std::string T(const UTCTime& t)
{
    const int64_t s = t.sec;
    return "[" + std::to_string(s >> 40) + "," + std::to_string((s >> 20) & 0xFFFFF) + "," +
           std::to_string(s & 0xFFFFF) + "," + std::to_string((long long)t.nsec) + "]";
}
static std::string D(const UTCTime& t)  // day, second of day, ns
{
    int64_t d = t.sec / 86400, r = t.sec % 86400;
    if (r < 0) { r += 86400; --d; }
    return "[" + std::to_string(d) + "," + std::to_string(r) + "," + std::to_string((long long)t.nsec) + "]";
}
static std::string ofNs(int64_t n)  // a duration in nanoseconds
{
    int64_t s = n / 1000000000, r = n % 1000000000;
    if (r < 0) { r += 1000000000; --s; }
    return T(mk(s, r));
}
template <class A, class B> std::string six(const A& a, const B& b)
{
    auto f = [](bool x) { return x ? "true" : "false"; };
    return std::string("{\"lt\":") + f(a < b) + ",\"le\":" + f(a <= b) + ",\"gt\":" + f(a > b) + ",\"ge\":" + f(a >= b) +
           ",\"eq\":" + f(a == b) + ",\"ne\":" + f(a != b) + "}";
}
static std::string tow(double s)  // seconds of week, to the nanosecond it was made from
{
    // a time of week is below 2^20 s, where doubles resolve better than 1/4 ns
    int64_t n = llround(s * 1e9);
    int64_t q = n / 1000000000, r = n % 1000000000;
    // remove representation noise below 2 ns when the stamp has whole milliseconds
    if (r % 1000000 <= 1) r -= r % 1000000;
    else if (r % 1000000 >= 999999) { r += 1000000 - r % 1000000; if (r == 1000000000) { r = 0; ++q; } }
    return "[" + std::to_string(q) + "," + std::to_string(r) + "]";
}
int main(int argc, char** argv)
{
    return run(argc, argv, [&](const std::vector<Cmd>& seg) {
        UTCTime now = mk(0, 0);
        for (const Cmd& c : seg)
        {
            const std::string& op = c[0];
            auto n = [&](int i) { return num(c[i]); };
            J j(op);
            if (op == "new") { now = mk(n(1), n(2)); j.raw("a", T(now)); }
            else if (op == "cmp")
            {
                UTCTime a = mk(n(1), n(2)), b = mk(n(3), n(4));
                j.raw("a", T(a)).raw("b", T(b)).raw("r", six(a, b)).raw("q", six(a.quantized(), b)).raw("p", six(a, b.quantized()));
            }
            else if (op == "add") { UTCTime a = mk(n(1), n(2)), b = mk(n(3), n(4)), r = a + b; j.raw("a", T(a)).raw("b", T(b)).raw("r", T(r)).raw("back", T(r - b)); }
            else if (op == "sub") { UTCTime a = mk(n(1), n(2)), b = mk(n(3), n(4)), r = a - b; j.raw("a", T(a)).raw("b", T(b)).raw("r", T(r)).raw("back", T(r + b)); }
            else if (op == "addf") { UTCTime a = mk(n(1), n(2)); double d = n(3) * 1e-9; UTCTime r = a + d; j.raw("a", T(a)).raw("b", ofNs(n(3))).raw("r", T(r)).raw("back", T(r - d)); }
            else if (op == "subf") { UTCTime a = mk(n(1), n(2)); double d = n(3) * 1e-9; UTCTime r = a - d; j.raw("a", T(a)).raw("b", ofNs(n(3))).raw("r", T(r)).raw("back", T(r + d)); }
            else if (op == "addi") { UTCTime a = mk(n(1), n(2)); int d = n(3); UTCTime r = a + d; j.raw("a", T(a)).raw("b", T(mk(d, 0))).raw("r", T(r)).raw("back", T(r - d)); }
            else if (op == "subi") { UTCTime a = mk(n(1), n(2)); int d = n(3); UTCTime r = a - d; j.raw("a", T(a)).raw("b", T(mk(d, 0))).raw("r", T(r)).raw("back", T(r + d)); }
            else if (op == "tosec") { UTCTime a = mk(n(1), n(2)); j.raw("a", T(a)).raw("r", ofNs(llround(a.toSec() * 1e9))); }
            else if (op == "ofsec") { UTCTime r(n(1) * 1e-9); j.raw("b", ofNs(n(1))).raw("r", T(r)); }
            else if (op == "make")
            {
                UTCTime r((int64_t)n(1), (int64_t)n(2)), q = mk(n(1), n(2));
                q.wrapNsec();
                j.raw("b", T(mk(n(1), 0))).i("ns", n(2)).raw("r", T(r)).raw("q", T(q));
            }
            else if (op == "inc") { UTCTime b = mk(n(1), n(2)); now += b; j.raw("b", T(b)).raw("r", T(now)); }
            else if (op == "dec") { UTCTime b = mk(n(1), n(2)); now -= b; j.raw("b", T(b)).raw("r", T(now)); }
            else if (op == "incf") { now += n(1) * 1e-9; j.raw("b", ofNs(n(1))).raw("r", T(now)); }
            else if (op == "decf") { now -= n(1) * 1e-9; j.raw("b", ofNs(n(1))).raw("r", T(now)); }
            else if (op == "inci") { now += (int)n(1); j.raw("b", T(mk(n(1), 0))).raw("r", T(now)); }
            else if (op == "deci") { now -= (int)n(1); j.raw("b", T(mk(n(1), 0))).raw("r", T(now)); }
            else if (op == "gps")
            {
                UTCTime r = UTCTime::fromGPS(n(1), n(2)), g = UTCTime::fromGalileo(n(1), n(2));
                j.i("week", n(1)).i("ms", n(2)).raw("r", D(r)).raw("gal", D(g)).i("back", r.GpsWeek()).raw("tow", tow(r.GpsTow()));
            }
            else if (op == "glo")
            {
                UTCTime r = UTCTime::fromGlonass(n(1), n(2));
                j.i("week", n(1)).i("ms", n(2)).raw("r", D(r)).i("back", r.GlonassWeek()).i("day", r.GlonassDayOfWeek());
            }
            else if (op == "inst")
            {
                UTCTime t = mk(n(1), n(2) * 1000000);
                j.raw("t", D(t)).i("gps", t.GpsWeek()).raw("tow", tow(t.GpsTow())).i("glo", t.GlonassWeek()).i("day", t.GlonassDayOfWeek()).i("unix", t.week());
            }
            else if (op == "tod") { UTCTime r = mk(n(1), n(2) * 1000000); j.raw("ref", D(r)).i("ms", n(3)).raw("r", D(UTCTime::fromGlonassTimeOfDay(r, n(3)))); }
            else if (op == "cal")
            {
                const int ns = n(7);
                UTCTime r = UTCTime::fromCalendar(n(1), n(2), n(3), n(4), n(5), n(6) + ns * 1e-9);
                int e = (int)llabs(r.nsec - ns) <= 1 ? ns : (int)r.nsec;  // floating point seconds: to the nanosecond
                UTCTime q = mk(r.sec, e);
                j.i("y", n(1)).i("m", n(2)).i("d", n(3)).i("h", n(4)).i("mi", n(5)).i("s", n(6)).i("ns", ns).raw("r", D(q));
            }
            else _exit(98);
            j.emit();
        }
    });
}
