// Writes and reads records of every loggable type and shows the header's declared layout, the bytes
// written, the fields in memory and the fields read back.
#include <sys/stat.h>
#include <map>
#include <random>
#include "drv.h"
#include "common/ephemeris/galileo.h"
#include "common/ephemeris/glonass.h"
#include "common/ephemeris/gps.h"
#include "common/logging/log_reader.h"
#include "common/logging/log_writer.h"
#include "common/math/dquat.h"
#include "common/math/jet.h"
#include "common/math/quat.h"
#include "common/math/two_jet.h"
#include "common/matrix_defs.h"
#include "common/measurements/gnss_observation.h"
#include "common/measurements/imu.h"
using namespace drv;
using namespace mc;
using namespace mc::logging;
namespace fs = std::experimental::filesystem;
using Gen = std::mt19937_64;
using Fields = std::vector<std::pair<std::string, std::string>>;  // name -> bytes
template <class X> std::string bytesOf(const X& x) { return std::string((const char*)&x, sizeof x); }

static Gen* rnd;
static int style;
template <class X> void fill(X& x)
{
    unsigned char* p = (unsigned char*)&x;
    static int counter = 1;
    for (size_t i = 0; i < sizeof(X); ++i) p[i] = style == 0 ? (*rnd)() : style == 1 ? counter++ : 0xFF;
}
// ---- the fields of each type, by the names a header gives them
#define F1(n, x) v(n, x);
template <class V> void fields(V& v, const std::string& p, UTCTime& t) { v(p + ".sec", t.sec); v(p + ".nsec", t.nsec); }
template <class V> void fields(V& v, const std::string& p, double& t) { v(p, t); }
template <class V> void fields(V& v, const std::string& p, float& t) { v(p, t); }
template <class V> void fields(V& v, const std::string& p, int64_t& t) { v(p, t); }
template <class V> void fields(V& v, const std::string& p, int32_t& t) { v(p, t); }
template <class V> void fields(V& v, const std::string& p, int16_t& t) { v(p, t); }
template <class V> void fields(V& v, const std::string& p, int8_t& t) { v(p, t); }
template <class V> void fields(V& v, const std::string& p, uint64_t& t) { v(p, t); }
template <class V> void fields(V& v, const std::string& p, uint32_t& t) { v(p, t); }
template <class V> void fields(V& v, const std::string& p, uint16_t& t) { v(p, t); }
template <class V> void fields(V& v, const std::string& p, uint8_t& t) { v(p, t); }
template <class V, class S, int R, int C> void fields(V& v, const std::string& p, Eigen::Matrix<S, R, C>& m) { v.arr(p, m.data(), R * C); }
template <class V> void fields(V& v, const std::string& p, meas::ImuSample& s)
{ fields(v, p + ".t", s.t); fields(v, p + ".accel", s.accel); fields(v, p + ".gyro", s.gyro); }
template <class V> void fields(V& v, const std::string& p, meas::GnssObservation& s)
{
    fields(v, p + ".t", s.t); v(p + ".gnss_id", s.gnss_id); v(p + ".sat_num", s.sat_num); v(p + ".freq", s.freq);
    v(p + ".pseudorange", s.pseudorange); v(p + ".doppler", s.doppler); v(p + ".carrier_phase", s.carrier_phase);
}
template <class V, class E> void kepler(V& v, const std::string& p, E& e)
{
#define M(n) v(p + "." #n, e.n);
    v(p + ".gnss_id", e.gnssID); M(sat) fields(v, p + ".toe", e.toe); fields(v, p + ".toc", e.toc);
    M(tow) M(iodc) M(iode) M(week) M(toes) M(tocs) M(af2) M(af1) M(af0) M(m0) M(delta_n) M(ecc) M(sqrta) M(omega0) M(i0)
    M(w) M(omegadot) M(idot) M(cuc) M(cus) M(crc) M(crs) M(cic) M(cis)
}
template <class V> void fields(V& v, const std::string& p, ephemeris::GPSEphemeris& e)
{
    kepler(v, p, e);
    M(health) M(alert_flag) M(anti_spoof) M(code_on_L2) M(ura) M(L2_P_data_flag) M(fit_interval_flag) M(age_of_data_offset) M(tgd)
}
template <class V> void fields(V& v, const std::string& p, ephemeris::GalileoEphemeris& e)
{
    kepler(v, p, e);
    M(ai0) M(ai1) M(ai2) M(bgd_e1_e5a) M(bgd_e1_e5b) M(e5b_hs) M(e1b_hs) M(e5b_dvs) M(e1b_dvs)
}
template <class V> void fields(V& v, const std::string& p, ephemeris::GlonassEphemeris& e)
{
    v(p + ".gnss_id", e.gnssID); M(sat) fields(v, p + ".toe", e.toe);
    M(iode) M(slot) M(svh) M(sva) M(age) fields(v, p + ".tof", e.tof);
    fields(v, p + ".pos", e.pos); fields(v, p + ".vel", e.vel); fields(v, p + ".acc", e.acc);
    M(taun) M(gamn) M(dtaun)
}
#undef M
template <class V> void quat(V& v, const std::string& p, math::Quat<double>& q)
{ v(p + ".w", q.w()); v(p + ".x", q.x()); v(p + ".y", q.y()); v(p + ".z", q.z()); }
template <class V> void fields(V& v, const std::string& p, math::Quat<double>& q) { quat(v, p, q); }
// a rigid motion whose parts are exact in floating point, so that they survive being taken apart
static math::DQuat<double> motion(Gen& g)
{
    double q[4] = {0, 0, 0, 0};
    const unsigned k = g() % 12;
    if (k < 4) q[k] = (g() & 1) ? 1 : -1;
    else for (double& x : q) x = (g() & 1) ? .5 : -.5;
    Vec3 t(double(int(g() % 2001) - 1000) / 4, double(int(g() % 2001) - 1000) / 8, double(int(g() % 2001) - 1000));
    return math::DQuat<double>(math::Quat<double>(q[0], q[1], q[2], q[3]), t);
}
template <class V> void fields(V& v, const std::string& p, math::DQuat<double>& d)
{
    if (v.filling) { d = motion(*rnd); return; }
    math::Quat<double> r = d.real();
    quat(v, p + ".rot", r);
    Vec3 t = d.translation();
    t += Vec3::Zero();  // no negative zeros
    v.arr(p + ".trans", t.data(), 3);
}
template <class V> void tangent(V& v, const std::string& p, math::DQuat<double>::TangentVector& d)
{ v.arr(p + ".angular", d.data(), 3); v.arr(p + ".linear", d.data() + 3, 3); }
template <class V> void fields(V& v, const std::string& p, math::Jet<double>& j)
{ fields(v, p + ".x", j.x); tangent(v, p + ".dx", j.dx); }
template <class V> void fields(V& v, const std::string& p, math::TwoJet<double>& j)
{ fields(v, p + ".x", j.x); tangent(v, p + ".dx", j.dx); tangent(v, p + ".d2x", j.d2x); }

struct Filler
{
    bool filling = true;
    template <class X> void operator()(const std::string&, X& x) { fill(x); }
    template <class X> void arr(const std::string&, X* x, int n) { for (int i = 0; i < n; ++i) fill(x[i]); }
};
struct Taker
{
    bool filling = false;
    Fields out;
    template <class X> void operator()(const std::string& n, X& x) { out.emplace_back(n, bytesOf(x)); }
    template <class X> void arr(const std::string& n, X* x, int c) { out.emplace_back(n, std::string((const char*)x, sizeof(X) * c)); }
};
static void ser(std::ostream& o, const std::string& s) { o << "["; for (size_t i = 0; i < s.size(); ++i) o << (i ? "," : "") << (int)(unsigned char)s[i]; o << "]"; }
static std::string json(const Fields& f)
{
    std::ostringstream o;
    o << "{";
    for (size_t i = 0; i < f.size(); ++i) { o << (i ? "," : "") << "\"" << f[i].first << "\":"; ser(o, f[i].second); }
    o << "}";
    return o.str();
}
static void flatten(const YAML::Node& n, const std::string& pre, std::string& out)
{
    if (n["type"] && n["type"].IsScalar())
    {
        const int rows = n["rows"] ? n["rows"].as<int>() : 1, cols = n["cols"] ? n["cols"].as<int>() : 1;
        out += std::string(out.empty() ? "" : ",") + "{\"n\":\"" + pre + "\",\"t\":" + n["type"].as<std::string>() + ",\"rows\":" +
               std::to_string(rows) + ",\"cols\":" + std::to_string(cols) + "}";
        return;
    }
    for (auto it = n.begin(); it != n.end(); ++it)
        flatten(it->second, pre.empty() ? it->first.as<std::string>() : pre + "." + it->first.as<std::string>(), out);
}
static std::string slurp(const std::string& f)
{
    std::ifstream i(f, std::ios::binary);
    std::stringstream s;
    s << i.rdbuf();
    return s.str();
}

struct Kind { bool python = false; virtual void go(const std::string& root, int n, int style, uint64_t seed) = 0; };
template <class... A> struct KindOf : Kind
{
    std::array<std::string, sizeof...(A)> names;
    std::vector<std::string> shapes;
    KindOf(std::array<std::string, sizeof...(A)> n) : names(n) {}
    void go(const std::string& root, int n, int st, uint64_t seed) override
    {
        Gen g(seed);
        rnd = &g;
        style = st;
        const int key = 4711;
        std::string path;
        std::vector<Fields> mem;
        std::vector<UTCTime> stamps;
        {
            Logger l(UTCTime(1600000000, 0), root);
            l.initStream<A...>(key, names);
            path = root + "/" + l.logId();
            for (int i = 0; i < n; ++i)
            {
                std::tuple<A...> v;
                Filler f;
                Taker t;
                UTCTime stamp(1600000000 + i, (int)(g() % 1000000000));
                size_t k = 0;
                std::apply([&](auto&... x) { (fields(f, "", x), ...); (fields(t, names[k++], x), ...); l.log(key, stamp, x...); }, v);
                Fields all{{"t.sec", bytesOf(stamp.sec)}, {"t.nsec", bytesOf(stamp.nsec)}};
                all.insert(all.end(), t.out.begin(), t.out.end());
                mem.push_back(all);
                stamps.push_back(stamp);
            }
        }
        const std::string base = path + "/LOG_KEY_4711";
        YAML::Node h = YAML::LoadFile(base + ".yml");
        std::string fl;
        flatten(h["format"], "", fl);
        J("header").raw("fields", "[" + fl + "]").emit();
        std::string bytes = slurp(base + ".log");
        std::vector<Fields> back;
        {
            StreamReader r(base + ".log");
            for (int i = 0; i < n; ++i)
            {
                std::tuple<A...> v;
                Taker t;
                const UTCTime stamp = r.nextStamp();
                size_t k = 0;
                std::apply([&](auto&... x) { r.get(x...); (fields(t, names[k++], x), ...); }, v);
                Fields all{{"t.sec", bytesOf(stamp.sec)}, {"t.nsec", bytesOf(stamp.nsec)}};
                all.insert(all.end(), t.out.begin(), t.out.end());
                back.push_back(all);
            }
        }
        std::ostringstream o;
        ser(o, bytes);
        std::string ms = "[", bs = "[";
        for (int i = 0; i < n; ++i) { ms += (i ? "," : "") + json(mem[i]); bs += (i ? "," : "") + json(back[i]); }
        J("records").raw("bytes", o.str()).raw("mem", ms + "]").raw("back", bs + "]").emit();
        if (python) J("python").raw("mem", ms + "]").raw("saw", seen(path)).emit();
    }
    static std::string seen(const std::string& path)
    {
        const char* helper = getenv("PYLOG");
        std::string out;
        if (FILE* p = popen((std::string(helper) + " " + path + " 4711 2>&1").c_str(), "r"))
        {
            char buf[4096];
            for (size_t n; (n = fread(buf, 1, sizeof buf, p)) > 0;) out.append(buf, n);
            if (pclose(p) == 0) { while (!out.empty() && out.back() == '\n') out.pop_back(); return out; }
        }
        return "{\"failed\":" + J::quote(out) + "}";
    }
};
int main(int argc, char** argv)
{
    using namespace ephemeris;
    using Eigen::Matrix;
    std::vector<Kind*> kinds{
        new KindOf<GPSEphemeris>({"eph"}), new KindOf<GalileoEphemeris>({"eph"}), new KindOf<GlonassEphemeris>({"eph"}),
        new KindOf<meas::ImuSample>({"imu"}), new KindOf<meas::GnssObservation>({"obs"}), new KindOf<UTCTime>({"when"}),
        new KindOf<math::Quat<double>>({"q"}), new KindOf<math::DQuat<double>>({"pose"}), new KindOf<math::Jet<double>>({"jet"}),
        new KindOf<math::TwoJet<double>>({"jet"}),
        new KindOf<double, float, int64_t, int32_t, int16_t, int8_t, uint64_t, uint32_t, uint16_t, uint8_t>(
            {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j"}),
        new KindOf<Matrix<double, 3, 4>, Matrix<int, 7, 2>, Matrix<float, 12, 1>, Matrix<double, 1, 4>, uint8_t, Matrix<int8_t, 3, 1>,
                   Matrix<uint16_t, 2, 5>, Matrix<int64_t, 2, 2>>({"a", "b", "c", "d", "e", "f", "g", "h"}),
        new KindOf<math::DQuat<double>, Vec3, Vec3, Vec3, Vec3, Vec2, Vec2, Vec2>(
            {"pose", "vel", "omg", "acc", "p_ecef", "gps_clk", "gal_clk", "glo_clk"}),
        new KindOf<uint8_t, GlonassEphemeris, UTCTime, GPSEphemeris, GalileoEphemeris, uint8_t>({"x", "glo", "time", "gps", "gal", "y"}),
        new KindOf<meas::GnssObservation, meas::ImuSample, uint8_t, math::Quat<double>, Vec6>({"o", "i", "b", "q", "res"}),
        new KindOf<Vec6, int, math::Jet<double>, Vec1>({"res", "sat_num", "jet", "gap"})};
    int segno = 0;
    return run(argc, argv, [&](const std::vector<Cmd>& seg) {
        char cwd[4096];
        if (!getcwd(cwd, sizeof cwd)) _exit(98);
        const std::string root = std::string(cwd) + "/f" + std::to_string(getpid()) + "_" + std::to_string(segno++);
        mkdir(root.c_str(), 0755);
        for (const Cmd& c : seg)
        {
            if (c[0] == "new") J("new").emit();
            else if (c[0] == "rec") kinds.at(num(c[1]))->python = c.size() > 5,
                kinds.at(num(c[1]))->go(root, num(c[2]), num(c[3]), strtoull(c[4].c_str(), nullptr, 10));
        }
        fs::remove_all(root);
    });
}
