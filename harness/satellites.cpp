// Satellites and the satellite registry: ephemerides arrive, queries are answered.
// Every ephemeris gets its own orbit, so an answer tells which ephemeris it was computed from.
#include <map>
#include <memory>
#include "drv.h"
#include "ephemerides.h"
using namespace drv;
using namespace mc;
static UTCTime at(long long ms) { return UTCTime(1600000000 + ms / 1000, (ms % 1000) * 1000000); }
struct Known { int c; int id; GPS gps; GAL gal; GLO glo; };
static std::vector<Known, Eigen::aligned_allocator<Known>> known;   // every ephemeris that has arrived anywhere

static satellite::SatelliteState fresh()
{
    satellite::SatelliteState s;
    s.t = INVALID_TIME; s.pos.setZero(); s.vel.setZero(); s.clk.setZero();
    return s;
}
// the ephemerides whose own answer at t is this answer
static std::vector<int> sources(int c, const UTCTime& t, const satellite::SatelliteState& got)
{
    std::vector<int> ids;
    if (!(got.t == t)) return ids;
    for (auto& k : known)
    {
        if (k.c != c) continue;
        satellite::SatelliteState s = fresh();
        const UTCTime& toe = c == 0 ? k.gps.toe : c == 1 ? k.glo.toe : k.gal.toe;
        if (std::abs((t - toe).toSec()) > 7200) continue;
        if (c == 0) satellite::eph2Sat(t, k.gps, Out<satellite::SatelliteState>(s));
        if (c == 1) satellite::eph2Sat(t, k.glo, Out<satellite::SatelliteState>(s));
        if (c == 2) satellite::eph2Sat(t, k.gal, Out<satellite::SatelliteState>(s));
        if ((s.pos - got.pos).norm() < 1e-2 && (s.vel - got.vel).norm() < 1e-2 && (s.clk - got.clk).norm() < 1e-12)
            ids.push_back(k.id);
    }
    return ids;
}

static void runSegment(const std::vector<Cmd>& cmds)
{
    known.clear();
    auto mgr = std::make_unique<SatelliteManager>();
    std::map<int, std::unique_ptr<satellite::Satellite<GPS>>> gps;
    std::map<int, std::unique_ptr<satellite::Satellite<GLO>>> glo;
    std::map<int, std::unique_ptr<satellite::Satellite<GAL>>> gal;
    std::map<std::string, satellite::SatelliteState, std::less<std::string>,
             Eigen::aligned_allocator<std::pair<const std::string, satellite::SatelliteState>>> kept;
    for (const Cmd& c : cmds)
    {
        const std::string& op = c[0];
        if (op == "new") { J("new").emit(); continue; }
        const int k = num(c[1]), s = num(c[2]);
        if (op == "add" || op == "reg")
        {
            const long long ms = num(c[3]);
            Known n;
            n.c = k; n.id = num(c[4]);
            n.gps = mkGps(s, at(ms), n.id); n.glo = mkGlo(s, at(ms), n.id); n.gal = mkGal(s, at(ms), n.id);
            known.push_back(n);
            bool ok = true;
            int size = 0;
            if (op == "reg")
            {
                if (k == 0) mgr->ephCb(n.gps);
                if (k == 1) mgr->ephCb(n.glo);
                if (k == 2) mgr->ephCb(n.gal);
                J("reg").i("c", k).i("s", s).i("ms", ms).i("id", n.id).emit();
                continue;
            }
            if (k == 0) { if (!gps[s]) gps[s].reset(new satellite::Satellite<GPS>(GnssID::GPS, s)); ok = gps[s]->addEph(n.gps).ok(); size = gps[s]->almanacSize(); }
            if (k == 1) { if (!glo[s]) glo[s].reset(new satellite::Satellite<GLO>(GnssID::Glonass, s)); ok = glo[s]->addEph(n.glo).ok(); size = glo[s]->almanacSize(); }
            if (k == 2) { if (!gal[s]) gal[s].reset(new satellite::Satellite<GAL>(GnssID::Galileo, s)); ok = gal[s]->addEph(n.gal).ok(); size = gal[s]->almanacSize(); }
            J("add").i("c", k).i("s", s).i("ms", ms).i("id", n.id).b("ok", ok).i("size", size).emit();
        }
        else if (op == "closest")
        {
            const long long ms = num(c[3]);
            if (k == 0 && !gps[s]) gps[s].reset(new satellite::Satellite<GPS>(GnssID::GPS, s));
            if (k == 1 && !glo[s]) glo[s].reset(new satellite::Satellite<GLO>(GnssID::Glonass, s));
            if (k == 2 && !gal[s]) gal[s].reset(new satellite::Satellite<GAL>(GnssID::Galileo, s));
            J("ask").i("c", k).i("s", s).i("ms", ms).emit();
            int id = 0;
            if (k == 0) id = std::lround(gps[s]->findClosestEphemeris(at(ms)).af0 * 1e6);
            if (k == 1) id = std::lround(glo[s]->findClosestEphemeris(at(ms)).taun * -1e6);
            if (k == 2) id = std::lround(gal[s]->findClosestEphemeris(at(ms)).af0 * 1e6);
            J("answer").a("ids", std::vector<int>{id}).emit();
        }
        else if (op == "state")
        {
            // state C S MS slot: the answer is written over whatever the caller's variable "slot" holds; "-" is a fresh one
            const long long ms = num(c[3]);
            if (k == 0 && !gps[s]) gps[s].reset(new satellite::Satellite<GPS>(GnssID::GPS, s));
            if (k == 1 && !glo[s]) glo[s].reset(new satellite::Satellite<GLO>(GnssID::Glonass, s));
            if (k == 2 && !gal[s]) gal[s].reset(new satellite::Satellite<GAL>(GnssID::Galileo, s));
            J("ask").i("c", k).i("s", s).i("ms", ms).emit();
            satellite::SatelliteState st = fresh();
            if (c[4] != "-" && kept.count(c[4])) st = kept[c[4]];
            const UTCTime t = at(ms);
            Error e = Error::none();
            if (k == 0) e = gps[s]->getState(t, make_out(st));
            if (k == 1) e = glo[s]->getState(t, make_out(st));
            if (k == 2) e = gal[s]->getState(t, make_out(st));
            if (c[4] != "-") kept[c[4]] = st;
            if (!e.ok()) J("failed").emit();
            else J("answer").a("ids", sources(k, t, st)).emit();
        }
        else if (op == "get")
        {
            // the registry: which satellite answers, and from which ephemerides at the given instants
            static const int gnss[] = {GnssID::GPS, GnssID::Glonass, GnssID::Galileo, GnssID::Beidou, GnssID::Qzss, 250};
            const satellite::SatelliteBase* sat = nullptr;
            const Error e = mgr->getSat(gnss[k], s, make_out(sat));
            if (!e.ok()) { J("get").i("c", k).i("s", s).b("ok", false).emit(); continue; }
            if (!sat) { J("get").i("c", k).i("s", s).b("ok", true).i("g", -1).emit(); continue; }
            std::string ans = "[";
            for (size_t n = 3; n < c.size(); ++n)
            {
                satellite::SatelliteState st = fresh();
                const UTCTime t = at(num(c[n]));
                std::vector<int> ids;
                if (sat->getState(t, make_out(st)).ok()) ids = sources(k, t, st);
                ans += (n > 3 ? "," : "") + std::string("{\"ms\":") + c[n] + ",\"ids\":[";
                for (size_t m = 0; m < ids.size(); ++m) ans += (m ? "," : "") + std::to_string(ids[m]);
                ans += "]}";
            }
            int g = -1;
            for (int n = 0; n < 3; ++n) if (gnss[n] == sat->gnssId()) g = n;
            J("get").i("c", k).i("s", s).b("ok", true).i("g", g).i("n", sat->sat_num()).i("size", sat->almanacSize())
                .raw("ans", ans + "]").emit();
        }
    }
}
int main(int argc, char** argv) { return run(argc, argv, runSegment); }
