// C28: satellite states from broadcast ephemerides.
#include "drv.h"
#include "common/satellite/satellite_state.h"

// a failed check ends the process; here, it is something to observe
namespace mc {
struct Failed {};
void check(bool c, const std::string, const fmt::format_args&, const std::experimental::source_location&) { if (!c) throw Failed(); }
void weak_check(bool, const std::string, const fmt::format_args&, const std::experimental::source_location&) {}
}
using namespace mc;
using drv::num;
using satellite::SatelliteState;
static const double PI = 3.14159265358979323846;
static const double OMEGA = 7.2921151467e-5;

static double off;
static long long unit(double x, double den)
{
    const double r = std::round(x * den);
    if (!(std::abs(r) < 2e9)) { off = 1; return 0; }
    off = std::max(off, std::abs(x - r / den));
    return (long long)r;
}
static std::vector<long long> units(const Vec3& v, double den) { return {unit(v(0), den), unit(v(1), den), unit(v(2), den)}; }
static long long whole(double x, double f) { const double r = std::round(x * f); return std::abs(r) < 2e9 ? (long long)r : 2000000000ll; }
static long long scaled(double x, double f) { return std::isfinite(x) ? (long long)std::min(2e9, std::round(std::abs(x) * f)) : 2000000000ll; }
// metres and millionths
static void split(drv::J& j, const char* m, const char* u, const Vec3& v)
{
    std::vector<long long> a, b;
    for (int i = 0; i < 3; ++i)
    {
        const double x = std::isfinite(v(i)) && std::abs(v(i)) < 2e9 ? v(i) : 2e9;
        const double f = std::floor(x);
        a.push_back((long long)f);
        b.push_back((long long)std::round((x - f) * 1e6));
    }
    j.a(m, a).a(u, b);
}
struct Args
{
    const drv::Cmd& c;
    size_t p = 1;
    long long n() { return num(c.at(p++)); }
    std::string s() { return c.at(p++); }
    std::vector<long long> v(int k) { std::vector<long long> o; while (k--) o.push_back(n()); return o; }
};
static double half(const std::vector<long long>& g) { return 2 * std::atan2((double)g[1], (double)g[0]); }
static double mu(int sys) { return sys == GnssID::Galileo ? 3.986004418e14 : 3.986005e14; }

struct Arc
{
    ephemeris::GlonassEphemeris eph;
    ephemeris::GlonassEphemeris last;
    double energy = 0, spin = 0;
};
// conserved along the flow: energy in the turning frame, and, without sideways pushes, angular momentum about the axis
static long double energy(const ephemeris::GlonassEphemeris& e, const Vec3& p, const Vec3& v)
{
    const long double w = 7.292115e-5L, re = 6378136.0L, j2 = 1.0826257e-3L, m = 3.9860044e14L;
    const long double x = p(0), y = p(1), z = p(2), r2 = x * x + y * y + z * z, r = std::sqrt(r2);
    const long double pot = -m / r * (1 - j2 * re * re / r2 * (3 * z * z / r2 - 1) / 2);
    return ((long double)v(0) * v(0) + (long double)v(1) * v(1) + (long double)v(2) * v(2)) / 2 - w * w * (x * x + y * y) / 2 + pot -
           (e.acc(0) * x + e.acc(1) * y + e.acc(2) * z);
}
static long double momentum(const Vec3& p, const Vec3& v)
{
    const long double w = 7.292115e-5L;
    return (long double)p(0) * (v(1) + w * p(0)) - (long double)p(1) * (v(0) - w * p(1));
}

static void segment(const std::vector<drv::Cmd>& cmds)
{
    Arc arc[4];
    for (const auto& c : cmds)
    {
        Args g{c};
        const std::string& op = c[0];
        if (op == "new") drv::J("new").emit();
        else if (op == "kep")
        {
            const int sys = g.n();
            const auto shape = g.v(4);  // sqrta en ed ew
            const auto E = g.v(3);
            const long long turns = g.n();
            const auto node = g.v(3), inc = g.v(3), peri = g.v(3), du = g.v(3), di = g.v(3);
            const std::string how = g.s();
            const auto kap = g.v(2);
            const long long dtms = g.n(), dtoc = g.n(), spin = g.n(), tilt = g.n();
            const auto af = g.v(3);
            const long long week = g.n(), toes = g.n(), D = g.n(), Dv = g.n();
            ephemeris::KeplerianEphemeris e;
            std::memset((void*)&e, 0, sizeof e);
            e.gnssID = sys;
            e.sat = 7;
            e.toe = UTCTime::fromGPS(week, toes * 1000);
            const double dt = dtms / 1000.;
            UTCTime t = e.toe + dtms / 1000.;
            e.toc = t - (double)dtoc;
            e.toes = toes;
            e.tocs = (toes + 604800 + dtms / 1000 - dtoc) % 604800;
            e.week = week % 1024;
            e.sqrta = shape[0];
            e.ecc = (double)shape[1] / shape[2];
            const double A = (double)shape[0] * shape[0], n0 = std::sqrt(mu(sys) / (A * A * A));
            e.delta_n = n0 * 1e-5 * ((toes / 16) % 7 - 3);
            const double n = n0 + e.delta_n;
            const double Ek = std::atan2((double)E[1], (double)E[0]);
            e.m0 = Ek - e.ecc * std::sin(Ek) - n * dt + 2 * PI * turns;
            e.omegadot = OMEGA + spin / 2. * n;
            e.idot = tilt / 2. * n;
            e.omega0 = half(node) - spin / 2. * n * dt + std::remainder(OMEGA * toes, 2 * PI);
            e.i0 = half(inc) - e.idot * dt;
            e.w = half(peri);
            const double nu = std::atan2((double)shape[3] / shape[2] * E[1], (double)E[0] - e.ecc * E[2]);
            const double s2 = std::sin(2 * (nu + e.w)), c2 = std::cos(2 * (nu + e.w));
            auto harmonic = [&](double amount, double& s, double& k) {
                s = k = 0;
                if (how == "s" && std::abs(s2) > .1) s = amount / s2;
                else if (how == "c" && std::abs(c2) > .1) k = amount / c2;
                else { s = amount * s2; k = amount * c2; }
            };
            harmonic(half(du), e.cus, e.cuc);
            harmonic(half(di), e.cis, e.cic);
            harmonic(A * kap[0] / kap[1], e.crs, e.crc);
            e.af0 = af[0] * 1e-9;
            e.af1 = af[1] * 1e-12;
            e.af2 = af[2] * 1e-18;
            SatelliteState s;
            s.pos.setConstant(NAN);
            s.vel.setConstant(NAN);
            s.clk.setConstant(NAN);
            drv::J j("kep");
            j.i("sqrta", shape[0]).i("en", shape[1]).i("ed", shape[2]).i("ew", shape[3]).a("E", E).a("node", node).a("inc", inc).a("peri", peri)
                .a("du", du).a("di", di).a("kap", kap).i("spin", spin).i("tilt", tilt).i("dtms", dtms).i("dtoc", dtoc).a("af", af).i("D", D).i("Dv", Dv);
            bool stale = false;
            try { stale = !satellite::eph2Sat(t, e, Out(s)).ok(); } catch (...) { stale = true; }
            j.b("stale", stale).b("current", satellite::isCurrent(t, e));
            if (!stale)
            {
                off = 0;
                j.a("pos", units(s.pos / A, D));
                j.i("off", scaled(off, 1e13));
                off = 0;
                j.a("vel", Dv ? units(s.vel / (A * n), Dv) : std::vector<long long>());
                j.i("offv", Dv ? scaled(off, 1e13) : 0).i("clk", whole(s.clk(0), 1e13)).i("drift", whole(s.clk(1), 1e15)).b("t", s.t == t);
                j.b("fin", s.vel.allFinite());
            }
            j.emit();
        }
        else if (op == "kin")
        {
            // broadcast-like numbers: the velocity is how the position changes, the drift how the clock does
            ephemeris::KeplerianEphemeris e;
            std::memset((void*)&e, 0, sizeof e);
            e.gnssID = g.n();
            e.sqrta = g.n() / 1000.;
            e.ecc = g.n() / 1e6;
            e.m0 = g.n() / 1e6;
            e.w = g.n() / 1e6;
            e.i0 = g.n() / 1e6;
            e.omega0 = g.n() / 1e6;
            e.delta_n = g.n() * 1e-12;
            e.omegadot = g.n() * 1e-12;
            e.idot = g.n() * 1e-13;
            e.cus = g.n() * 1e-9;
            e.cuc = g.n() * 1e-9;
            e.cis = g.n() * 1e-9;
            e.cic = g.n() * 1e-9;
            e.crs = g.n() / 10.;
            e.crc = g.n() / 10.;
            e.af0 = g.n() * 1e-9;
            e.af1 = g.n() * 1e-15;
            e.af2 = g.n() * 1e-18;
            const long long week = g.n(), toes = g.n(), dtms = g.n(), dtoc = g.n();
            e.toe = UTCTime::fromGPS(week, toes * 1000);
            e.toc = e.toe + (double)dtoc;
            e.toes = toes;
            const double h = 1; const UTCTime t = e.toe + dtms / 1000.;
            SatelliteState a, b, m;
            eph2Sat(t, e, Out(m));
            eph2Sat(t + h, e, Out(b));
            eph2Sat(t - h, e, Out(a));
            const Vec3 d = (b.pos - a.pos) / 2;
            const double A = e.sqrta * e.sqrta;
            drv::J("kin").a("rate", std::vector<long long>{whole(d(0), 1e4), whole(d(1), 1e4), whole(d(2), 1e4)})
                .a("vel", std::vector<long long>{whole(m.vel(0), 1e4), whole(m.vel(1), 1e4), whole(m.vel(2), 1e4)})
                .i("clkrate", whole((b.clk(0) - a.clk(0)) / 2, 1e15)).i("drift", whole(m.clk(1), 1e15))
                .i("periodic", whole(2 * std::sqrt(mu(e.gnssID) * A) / C_LIGHT / C_LIGHT * e.ecc * std::sqrt(mu(e.gnssID) / (A * A * A)) / (1 - e.ecc), 1e15))
                .i("low", whole(A * (1 - e.ecc) - std::hypot(e.crs, e.crc) - 1e-3, 1)).i("high", whole(A * (1 + e.ecc) + std::hypot(e.crs, e.crc) + 1e-3, 1))
                .i("r", whole(m.pos.norm(), 1)).emit();
        }
        else if (op == "glo")
        {
            Arc& a = arc[g.n()];
            const auto pos = g.v(3), vel = g.v(3), acc = g.v(3);
            const long long sec = g.n(), tn = g.n(), gn = g.n();
            std::memset((void*)&a.eph, 0, sizeof a.eph);
            a.eph.gnssID = GnssID::Glonass;
            a.eph.sat = 3;
            a.eph.toe = UTCTime(sec, 0);
            a.eph.pos << pos[0], pos[1], pos[2];
            a.eph.vel << vel[0] / 1e3, vel[1] / 1e3, vel[2] / 1e3;
            a.eph.acc << acc[0] * 1e-9, acc[1] * 1e-9, acc[2] * 1e-9;
            a.eph.taun = tn * 1e-13;
            a.eph.gamn = gn * 1e-15;
            a.last = a.eph;
            a.energy = energy(a.eph, a.eph.pos, a.eph.vel);
            a.spin = momentum(a.eph.pos, a.eph.vel);
            drv::J j("glo");
            j.i("k", num(c[1])).a("acc", acc).i("tn", tn).i("gn", gn);
            split(j, "pm", "pu", a.eph.pos);
            split(j, "vm", "vu", a.eph.vel);
            j.emit();
        }
        else if (op == "twin")
        {
            // arc k starts where the image of arc j starts
            const int k = g.n(), jj = g.n();
            const std::string sym = g.s();
            arc[k] = arc[jj];
            auto image = [&](const Vec3& v) { return sym == "quarter" ? Vec3(-v(1), v(0), v(2)) : sym == "half" ? Vec3(-v(0), -v(1), v(2)) : Vec3(v(0), v(1), -v(2)); };
            arc[k].eph.pos = image(arc[jj].eph.pos);
            arc[k].eph.vel = image(arc[jj].eph.vel);
            arc[k].eph.acc = image(arc[jj].eph.acc);
            arc[k].energy = energy(arc[k].eph, arc[k].eph.pos, arc[k].eph.vel);
            arc[k].spin = momentum(arc[k].eph.pos, arc[k].eph.vel);
            arc[k].last = arc[k].eph;
            drv::J("twin").i("k", k).i("j", jj).s("sym", sym).emit();
        }
        else if (op == "go")
        {
            // the state of arc k at ms after its start, from its start or from the state last computed
            const int k = g.n();
            const std::string from = g.s();
            const long long ms = g.n();
            Arc& a = arc[k];
            const UTCTime t = a.eph.toe + ms / 1000.;
            SatelliteState s, n1, n2;
            s.pos.setConstant(NAN);
            s.clk.setConstant(NAN);
            const auto& e = from == "start" ? a.eph : a.last;
            satellite::eph2Sat(t, e, Out(s));
            const double h = 1;
            satellite::eph2Sat(t + h, e, Out(n1));
            satellite::eph2Sat(t - h, e, Out(n2));
            const Vec3 d = (n1.pos - n2.pos) / 2 - s.vel;
            drv::J j("go");
            j.i("k", k).s("from", from).i("ms", ms);
            split(j, "pm", "pu", s.pos);
            split(j, "vm", "vu", s.vel);
            j.i("rate", scaled(d.cwiseAbs().maxCoeff(), 1e5)).i("energy", scaled((double)(energy(a.eph, s.pos, s.vel) - a.energy), 1e4))
                .i("spin", scaled((double)(momentum(s.pos, s.vel) - a.spin), 1)).i("clk", whole(s.clk(0), 1e13)).i("drift", whole(s.clk(1), 1e15)).b("t", s.t == t).emit();
            a.last.toe = t;
            a.last.pos = s.pos;
            a.last.vel = s.vel;
            a.last.taun = -s.clk(0);
        }
        else _exit(98);
    }
}
int main(int argc, char** argv) { return drv::run(argc, argv, segment); }
