// Feeds navigation messages to the parsers and records what they yield.
//   gps|gal|glo SAT hexbytes
#include "drv.h"
#include "common/ephemeris/galileo.h"
#include "common/ephemeris/glonass.h"
#include "common/ephemeris/gps.h"
#include <map>
#include <memory>
using namespace mc;
using namespace mc::ephemeris;

static std::string eph;
static void put(const char* k, const std::string& v) { eph += std::string(eph.size() > 1 ? "," : "") + "\"" + k + "\":" + v; }
// value as a number of quanta, in two halves
static void num(const char* k, double v, double quantum)
{
    const double q = v / quantum;
    if (!(std::fabs(q) < 1e10) || std::fabs(q - std::round(q)) > 1e-3) { put(k, "[99999,99999]"); return; }
    const long long r = std::llround(q);
    put(k, "[" + std::to_string(r >> 16) + "," + std::to_string(r & 0xFFFF) + "]");
}
static void num(const char* k, long long v) { num(k, (double)v, 1.0); }
static double p2(int n) { return std::ldexp(1.0, -n); }
static const double PI = 3.14159265358979323846;
static void stamp(const char* k, const UTCTime& t, int64_t epoch, int64_t unit)
{
    const int64_t s = (int64_t)t.sec - epoch;
    const int64_t d = s >= 0 ? s / unit : -((-s + unit - 1) / unit);
    put(k, "[" + std::to_string(d) + "," + std::to_string(s - d * unit) + "," + std::to_string(t.nsec) + "]");
}
static const int64_t GPS0 = 315964800 + 18;
static void kepler(const KeplerianEphemeris& e)
{
    num("delta_n", e.delta_n, p2(43) * PI); num("m0", e.m0, p2(31) * PI); num("ecc", e.ecc, p2(33));
    num("sqrta", e.sqrta, p2(19)); num("omega0", e.omega0, p2(31) * PI); num("i0", e.i0, p2(31) * PI);
    num("w", e.w, p2(31) * PI); num("omegadot", e.omegadot, p2(43) * PI); num("idot", e.idot, p2(43) * PI);
    num("cuc", e.cuc, p2(29)); num("cus", e.cus, p2(29)); num("crc", e.crc, p2(5)); num("crs", e.crs, p2(5));
    num("cic", e.cic, p2(29)); num("cis", e.cis, p2(29)); num("iode", e.iode); num("iodc", e.iodc);
    stamp("toe", e.toe, GPS0, 604800); stamp("toc", e.toc, GPS0, 604800);
}
static void run(const std::vector<drv::Cmd>& seg)
{
    std::map<int, std::unique_ptr<GPSEphemeris>> gps;
    std::map<int, std::unique_ptr<GalileoEphemeris>> gal;
    std::map<int, std::unique_ptr<GlonassEphemeris>> glo;
    for (const auto& c : seg)
    {
        if (c[0] == "new") { drv::J("new").emit(); continue; }
        const int sat = drv::num(c[1]);
        const std::string hex = c.size() > 2 ? c[2] : "";
        const size_t n = hex.size() / 2;
        std::unique_ptr<uint8_t[]> buf(new uint8_t[n]);
        for (size_t k = 0; k < n; ++k) buf[k] = (uint8_t)strtol(hex.substr(2 * k, 2).c_str(), nullptr, 16);
        const std::vector<int> bytes(buf.get(), buf.get() + n);
        bool ok = false;
        eph = "{";
        if (c[0] == "gps")
        {
            auto& p = gps[sat];
            if (!p) p.reset(new GPSEphemeris(sat));
            ok = p->parse(buf.get(), n);
            if (ok)
            {
                const GPSEphemeris& e = *p;
                kepler(e);
                num("week_mod", (long long)e.week - 2048); num("code_on_L2", e.code_on_L2); num("ura", e.ura);
                num("health", e.health); num("L2_P_data_flag", e.L2_P_data_flag); num("tgd", e.tgd, p2(31));
                num("tocs", e.tocs, 16); num("toes", e.toes, 16); num("tow", e.tow, 6);
                num("af0", e.af0, p2(31)); num("af1", e.af1, p2(43)); num("af2", e.af2, p2(55));
                num("fit", e.fit_interval_flag == 0 ? 1 : e.fit_interval_flag == 4 ? 0 : 9);
                put("sat", std::to_string(e.sat)); put("gnss", e.gnssID == GnssID::GPS ? "true" : "false");
            }
        }
        else if (c[0] == "gal")
        {
            auto& p = gal[sat];
            if (!p) p.reset(new GalileoEphemeris(sat));
            ok = p->parse(buf.get(), n);
            if (ok)
            {
                const GalileoEphemeris& e = *p;
                kepler(e);
                num("week", e.week); num("tow", e.tow); num("time_f", e.time_f); num("toes", e.toes, 60); num("tocs", e.tocs, 60);
                num("af0", e.af0, p2(34)); num("af1", e.af1, p2(46)); num("af2", e.af2, p2(59));
                num("bgd_e1_e5a", e.bgd_e1_e5a, p2(32)); num("bgd_e1_e5b", e.bgd_e1_e5b, p2(32));
                num("e5b_hs", e.e5b_hs); num("e1b_hs", e.e1b_hs); num("e5b_dvs", e.e5b_dvs); num("e1b_dvs", e.e1b_dvs);
                put("sat", std::to_string(e.sat)); put("gnss", e.gnssID == GnssID::Galileo ? "true" : "false");
            }
        }
        else
        {
            auto& p = glo[sat];
            if (!p) p.reset(new GlonassEphemeris(sat));
            ok = p->parse(buf.get(), n);
            if (ok)
            {
                const GlonassEphemeris& e = *p;
                const char* pn[] = {"pos0", "pos1", "pos2"}; const char* vn[] = {"vel0", "vel1", "vel2"};
                const char* an[] = {"acc0", "acc1", "acc2"};
                for (int k = 0; k < 3; ++k)
                { num(pn[k], e.pos(k), p2(11) * 1e3); num(vn[k], e.vel(k), p2(20) * 1e3); num(an[k], e.acc(k), p2(30) * 1e3); }
                num("svh", e.svh); num("iode", e.iode); num("gamn", e.gamn, p2(40)); num("taun", e.taun, p2(30));
                num("dtaun", e.dtaun, p2(30)); num("age", e.age); num("sva", e.sva); num("slot", e.slot);
                stamp("toe", e.toe, 820454400 - 3 * 3600, 86400); stamp("tof", e.tof, 820454400 - 3 * 3600, 86400);
                put("sat", std::to_string(e.sat)); put("gnss", e.gnssID == GnssID::Glonass ? "true" : "false");
            }
        }
        drv::J j(c[0]);
        j.i("s", sat).a("b", bytes).b("ok", ok);
        if (ok) j.raw("eph", eph + "}");
        j.emit();
    }
}
int main(int argc, char** argv) { return drv::run(argc, argv, run); }
