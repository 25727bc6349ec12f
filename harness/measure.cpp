// C29: measurement models (pseudorange, carrier phase between epochs, clock dynamics, pose prior).
#include <map>
#include <memory>
#include "drv.h"
#include "common/satellite/atm_correction.h"
#include "models/gnss_dynamics_model.h"
#include "models/pose_error_model.h"
#include "models/prange_model.h"
#include "models/relative_carrier_phase_model.h"

// a failed check ends the process; here, it is something to observe
namespace mc {
struct Failed {};
void check(bool c, const std::string, const fmt::format_args&, const std::experimental::source_location&) { if (!c) throw Failed(); }
void weak_check(bool, const std::string, const fmt::format_args&, const std::experimental::source_location&) {}
}
using namespace mc;
using drv::num;
using satellite::SatelliteState;
using DQ = math::DQuat<double>;
using QD = math::Quatd;
static const double LIGHT = 299792458., TURN = 7.2921151467e-5;

static long long thousandths(double x) { const double r = std::round(x * 1e3); return std::abs(r) < 2e9 ? (long long)r : 2000000000ll; }
static std::vector<long long> thousandths(const Eigen::VectorXd& v) { std::vector<long long> o; for (int i = 0; i < v.size(); ++i) o.push_back(thousandths(v(i))); return o; }
struct Args
{
    const drv::Cmd& c;
    size_t p = 1;
    long long n() { return num(c.at(p++)); }
    std::string s() { return c.at(p++); }
    std::vector<long long> v(int k) { std::vector<long long> o; while (k--) o.push_back(n()); return o; }
};
static Vec3 vec(const std::vector<long long>& v, double d = 1) { return Vec3(v[0] / d, v[1] / d, v[2] / d); }
static QD quat(const std::vector<long long>& q) { return QD(q[0] / (double)q[4], q[1] / (double)q[4], q[2] / (double)q[4], q[3] / (double)q[4]); }

// moves evenly from one state to another; may jump to another track at some time
struct Flight : satellite::SatelliteBase
{
    SatelliteState a, b;
    UTCTime jump_at;
    double jump = 0, wave = 1;
    bool jumps = false;
    Flight() : SatelliteBase(GnssID::GPS, 7) {}
    Error getState(const UTCTime& t, Out<SatelliteState> s) const override
    {
        const double d = (b.t - a.t).toSec(), x = (t - a.t).toSec() / d;
        s->t = t;
        s->pos = a.pos + (b.pos - a.pos) * x;
        s->vel = (b.pos - a.pos) / d;
        s->clk(0) = a.clk(0) + (b.clk(0) - a.clk(0)) * x;
        s->clk(1) = (b.clk(0) - a.clk(0)) / d;
        if (jumps && t >= jump_at) s->pos += jump * s->pos.normalized();
        return Error::none();
    }
    double carrierWavelength(int) const override { return wave; }
    int almanacSize() const override { return 1; }
    bool hasEphemeris(const UTCTime&) const override { return true; }
};

struct Model
{
    std::string kind;
    Flight sat;
    DQ E = DQ::identity();
    Vec3 xi;
    std::vector<int> sizes;
    std::vector<bool> pose;
    int dim = 0;
    std::function<bool(const double* const*, double*, double**)> f;
    std::shared_ptr<void> keep;
    DQ anchor = DQ::identity();
    std::vector<Eigen::VectorXd> at;
};

static void segment(const std::vector<drv::Cmd>& cmds)
{
    std::map<int, std::shared_ptr<Model>> mods;
    for (const auto& c : cmds)
    {
        Args g{c};
        const std::string& op = c[0];
        if (op == "new") { drv::J("new").emit(); continue; }
        const int k = g.n();
        // evaluates at stored parameters: residual, and Jacobians of the blocks in mask against differences along directions
        auto look = [&](drv::J& j, Model& m, int mask, const std::vector<long long>& dir) {
            const int nb = m.sizes.size();
            // parameter blocks of whoever calls: only the pointers count
            std::vector<std::vector<double>> mem(nb);
            std::vector<const double*> par;
            for (int i = 0; i < nb; ++i)
            {
                // (dual quaternions are mapped as vectors that may be aligned)
                mem[i].assign(m.at[i].data(), m.at[i].data() + m.at[i].size());
                par.push_back(m.at[i].data());
            }
            Eigen::VectorXd res = Eigen::VectorXd::Constant(m.dim, NAN), res2 = res;
            std::vector<Eigen::VectorXd> jac(nb);
            std::vector<double*> jp(nb, nullptr);
            for (int i = 0; i < nb; ++i)
            {
                jac[i] = Eigen::VectorXd::Constant(m.sizes[i] * m.dim, NAN);
                if (mask >> i & 1) jp[i] = jac[i].data();
            }
            const bool ok = m.f(par.data(), res.data(), nullptr) && m.f(par.data(), res2.data(), jp.data());
            bool kept = true;
            for (int i = 0; i < nb; ++i) kept = kept && std::equal(mem[i].begin(), mem[i].end(), m.at[i].data());
            j.b("ok", ok).b("kept", kept).b("same", (res - res2).norm() <= 1e-6 * (1 + 1e-6 * res.norm())).a("res", thousandths(res)).i("mask", mask);
            std::string rows = "[";
            for (int i = 0; i < nb; ++i)
            {
                if (!(mask >> i & 1)) continue;
                // along a direction; motions step on the motions
                Eigen::VectorXd step(m.sizes[i]);
                auto diff = [&](double h, Eigen::VectorXd* used) {
                    Eigen::VectorXd p = m.at[i], q = p;
                    if (m.pose[i])
                    {
                        Vec6 xi;
                        for (int n = 0; n < 6; ++n) xi(n) = dir[n] / (n < 3 ? 20. : 1.) * h;
                        const DQ x(m.at[i].data());
                        Eigen::Map<Vec8>(p.data()) = (x * DQ::exp(xi)).arr_;
                        Eigen::Map<Vec8>(q.data()) = (x * DQ::exp(Vec6(-xi))).arr_;
                    }
                    else
                        for (int n = 0; n < m.sizes[i]; ++n) { p(n) += h * dir[n]; q(n) -= h * dir[n]; }
                    if (used) *used = (p - q) / (2 * h);
                    Eigen::VectorXd a(m.dim), b(m.dim);
                    auto pp = par;
                    pp[i] = p.data();
                    m.f(pp.data(), a.data(), nullptr);
                    pp[i] = q.data();
                    m.f(pp.data(), b.data(), nullptr);
                    return Eigen::VectorXd((a - b) / (2 * h));
                };
                const Eigen::VectorXd fd = diff(1e-2, nullptr);
                diff(m.kind == "pose" ? 1e-4 : 1e-3, &step);
                const Eigen::VectorXd fine = m.kind == "pose" ? diff(1e-4, nullptr) : fd;
                Eigen::VectorXd jd(m.dim);
                for (int r = 0; r < m.dim; ++r) jd(r) = jac[i].segment(r * m.sizes[i], m.sizes[i]).dot(step);
                rows += (rows.size() > 1 ? "," : "") + std::string("{\"jd\":[");
                for (int r = 0; r < m.dim; ++r) rows += (r ? "," : "") + std::to_string(thousandths(jd(r)));
                rows += "],\"fd\":[";
                for (int r = 0; r < m.dim; ++r) rows += (r ? "," : "") + std::to_string(thousandths(fine(r)));
                rows += "]}";
            }
            j.raw("rows", rows + "]");
        };
        auto frame = [&](const std::vector<long long>& q, const std::vector<long long>& t) { return DQ(quat(q), vec(t)); };
        auto put = [](const DQ& d) { Eigen::VectorXd o(8); for (int i = 0; i < 8; ++i) o(i) = d.arr_[i]; return o; };
        if (op == "prange")
        {
            auto m = std::make_shared<Model>();
            mods.erase(k);
            const auto E = g.v(5), rec = g.v(3), dir = g.v(3);
            const long long h = g.n(), R = g.n();  // 100 km
            const long long ahead = g.n();
            const auto sclk = g.v(2), vs = g.v(3);
            const long long rate = g.n();
            const auto U = g.v(6);
            const std::string how = g.s();
            const UTCTime t = UTCTime::fromGPS(2100, 1000 * (int)(1000 + 77 * R));
            const Vec3 te = vec(rec) * 1e5, at = te + vec(dir) * (R * 1e5 / h);
            const double sag = TURN * (at.x() * te.y() - at.y() * te.x()) / LIGHT, range = R * 1e5 + sag;
            m->kind = "prange";
            m->sat.a.t = t - range / LIGHT;
            m->sat.b.t = m->sat.a.t + 100.;
            m->sat.a.pos = at;
            m->sat.b.pos = at + vec(vs) * 100.;
            m->sat.a.clk << sclk[0] * 1e-9, 0;
            m->sat.b.clk << (sclk[0] + 100 * sclk[1]) * 1e-9, 0;
            if (how == "jump")
            {
                // before the switch the signal seems to have been sent after it, and after it before it
                m->sat.jumps = true;
                m->sat.jump_at = m->sat.a.t;
                m->sat.jump = 40;
                const double half = 20;
                m->sat.a.pos -= half * m->sat.a.pos.normalized();
                m->sat.b.pos -= half * m->sat.a.pos.normalized();
            }
            m->E = DQ(quat(E), te);
            meas::GnssObservation o;
            o.setZero();
            o.t = t;
            o.gnss_id = GnssID::GPS;
            o.sat_num = 7;
            o.pseudorange = R * 1e5 + ahead;
            o.doppler = rate;
            Mat3 W;
            W << U[0], U[1], U[2], 0, U[3], U[4], 0, 0, U[5];
            const Mat3 cov = (W.transpose() * W).inverse();
            auto f = std::make_shared<models::PseudorangeModel>(o, m->sat, te, cov, m->E);
            SatelliteState s;
            m->sat.getState(m->sat.a.t, Out(s));
            satellite::AtmosphericCorrection atm;
            satellite::computeAtmCorrection(t, te, s, Out(atm));
            m->keep = f;
            m->f = [f](const double* const* p, double* r, double** j) { return f->Evaluate(p, r, j); };
            m->sizes = {8, 3, 2, 8, 1, 3};
            m->pose = {true, false, false, true, false, false};
            m->dim = 3;
            mods[k] = m;
            std::vector<long long> sat;
            for (int i = 0; i < 3; ++i) sat.push_back(rec[i] + dir[i] * R / h);
            drv::J("prange").i("k", k).a("E", E).a("rec", rec).a("g", dir).i("h", h).a("sat", sat).i("ahead", ahead).a("sclk", sclk).a("vs", vs)
                .i("rate", rate).a("U", U).i("atm", thousandths(atm.ionospheric_delay_m + atm.tropospheric_delay_m)).b("jump", m->sat.jumps).emit();
        }
        else if (op == "phase")
        {
            auto m = std::make_shared<Model>();
            mods.erase(k);
            const auto E = g.v(5), rec = g.v(3), d1 = g.v(3);
            const long long h1 = g.n(), R1 = g.n();
            const auto d2 = g.v(3);
            const long long h2 = g.n(), R2 = g.n();
            const long long sclk1 = g.n(), sclk2 = g.n(), dts = g.n(), ahead = g.n(), xi = g.n(), wn = g.n(), wd = g.n();
            const std::string how = g.s();
            const Vec3 te = vec(rec) * 1e5, p1 = te + vec(d1) * (R1 * 1e5 / h1), p2 = te + vec(d2) * (R2 * 1e5 / h2);
            auto range = [&](const Vec3& p, double R) { return R * 1e5 + TURN * (p.x() * te.y() - p.y() * te.x()) / LIGHT; };
            meas::GnssObservation o1, o2;
            o1.setZero();
            o1.gnss_id = GnssID::GPS;
            o1.sat_num = 7;
            o1.freq = 1;
            o1.t = UTCTime::fromGPS(2100, 1000 * (int)(1000 + 77 * R1));
            o2 = o1;
            o2.t = o1.t + (double)dts;
            m->kind = "phase";
            m->sat.wave = (double)wn / wd;
            m->sat.a.t = o1.t - range(p1, R1) / LIGHT;
            m->sat.b.t = o2.t - range(p2, R2) / LIGHT;
            m->sat.a.pos = p1;
            m->sat.b.pos = p2;
            m->sat.a.clk << sclk1 * 1e-9, 0;
            m->sat.b.clk << sclk2 * 1e-9, 0;
            if (how == "jump")
            {
                m->sat.jumps = true;
                m->sat.jump_at = m->sat.a.t;
                m->sat.jump = 40;
            }
            m->E = DQ(quat(E), te);
            o1.carrier_phase = 12345;
            o2.carrier_phase = 12345 + ahead + m->sat.wave * (R2 - R1) * 1e5;
            if (how == "otherSat") o2.sat_num = 8;
            if (how == "otherSys") o2.gnss_id = GnssID::Galileo;
            if (how == "otherFreq") o2.freq = 2;
            if (how == "foreign") o1.sat_num = o2.sat_num = 9;
            if (how == "foreignSys") o1.gnss_id = o2.gnss_id = GnssID::Glonass;
            bool refused = false;
            std::shared_ptr<models::RelativeCarrierPhase> f;
            try { f = std::make_shared<models::RelativeCarrierPhase>(o1, o2, m->sat, te, m->E, (double)xi); } catch (const Failed&) { refused = true; }
            if (f)
            {
                m->keep = f;
                m->f = [f](const double* const* p, double* r, double** j) { return f->Evaluate(p, r, j); };
                m->sizes = {8, 8, 2, 2, 1, 1, 8, 3};
                m->pose = {true, true, false, false, false, false, true, false};
                m->dim = 1;
                mods[k] = m;
            }
            std::vector<long long> s1, s2;
            for (int i = 0; i < 3; ++i) { s1.push_back(rec[i] + d1[i] * R1 / h1); s2.push_back(rec[i] + d2[i] * R2 / h2); }
            drv::J("phase").i("k", k).s("how", how).b("refused", refused).a("E", E).a("rec", rec).a("g", d1).i("h", h1).a("sat", s1).a("g2", d2).i("h2", h2)
                .a("sat2", s2).i("sclk", sclk1).i("sclk2", sclk2).i("ahead", ahead).i("xi", xi).i("wn", wn).i("wd", wd).i("farther", (R2 - R1) * 100000).emit();
        }
        else if (op == "clock")
        {
            auto m = std::make_shared<Model>();
            mods.erase(k);
            const long long dt = g.n();
            const auto xi = g.v(3);
            m->kind = "clock";
            m->xi = vec(xi);
            const UTCTime t0 = UTCTime::fromGPS(2000, 604799000 + 750);
            auto f = std::make_shared<models::GnssDynamics>(t0, t0 + dt / 8., m->xi);
            m->keep = f;
            m->f = [f](const double* const* p, double* r, double** j) { return f->Evaluate(p, r, j); };
            m->sizes = {2, 2, 1, 1};
            m->pose = {false, false, false, false};
            m->dim = 3;
            mods[k] = m;
            drv::J("clock").i("k", k).i("dt", dt).a("xi", xi).emit();
        }
        else if (op == "prior")
        {
            auto m = std::make_shared<Model>();
            mods.erase(k);
            const auto q = g.v(5), t = g.v(3), xi = g.v(6);
            m->kind = "pose";
            m->anchor = frame(q, t);
            Vec6 x;
            for (int i = 0; i < 6; ++i) x(i) = xi[i];
            auto f = std::make_shared<models::PoseError>(m->anchor, x);
            m->keep = f;
            m->f = [f](const double* const* p, double* r, double** j) { return f->Evaluate(p, r, j); };
            m->sizes = {8};
            m->pose = {true};
            m->dim = 6;
            mods[k] = m;
            drv::J("prior").i("k", k).a("xi", xi).emit();
        }
        else
        {
            // parameters, then what to look at
            if (!mods.count(k)) { drv::J("none").emit(); continue; }
            Model& m = *mods[k];
            const int mask = g.n();
            const auto dir = g.v(8);
            drv::J j("at" + m.kind);
            j.i("k", k);
            if (m.kind == "prange")
            {
                const auto bq = g.v(5), bt = g.v(3), vel = g.v(3), clk = g.v(2), rq = g.v(5), rt = g.v(3);
                const long long sw = g.n();
                const auto arm = g.v(3);
                m.at = {put(frame(bq, bt)), vec(vel), Vec2(clk[0], clk[1]), put(frame(rq, rt)), Vec1(sw / 8.), vec(arm)};
                j.a("bq", bq).a("bt", bt).a("vel", vel).a("clk", clk).a("rq", rq).a("rt", rt).i("sw", sw).a("arm", arm);
            }
            else if (m.kind == "phase")
            {
                const auto bq = g.v(5), bt = g.v(3), cq = g.v(5), ct = g.v(3);
                const long long clk1 = g.n(), clk2 = g.n(), sw1 = g.n(), sw2 = g.n();
                const auto rq = g.v(5), rt = g.v(3), arm = g.v(3);
                m.at = {put(frame(bq, bt)), put(frame(cq, ct)), Vec2(clk1, 5), Vec2(clk2, -9), Vec1(sw1 / 8.), Vec1(sw2 / 8.), put(frame(rq, rt)), vec(arm)};
                j.a("bq", bq).a("bt", bt).a("cq", cq).a("ct", ct).i("clk1", clk1).i("clk2", clk2).i("sw1", sw1).i("sw2", sw2).a("rq", rq).a("rt", rt).a("arm", arm);
            }
            else if (m.kind == "clock")
            {
                const auto v = g.v(6);
                m.at = {Vec2(v[0], v[1]), Vec2(v[2], v[3]), Vec1(v[4] / 8.), Vec1(v[5] / 8.)};
                j.i("b1", v[0]).i("r1", v[1]).i("b2", v[2]).i("r2", v[3]).i("s1", v[4]).i("s2", v[5]);
            }
            else
            {
                const auto x = g.v(6);
                Vec6 xi;
                for (int i = 0; i < 6; ++i) xi(i) = x[i] / 1000.;
                m.at = {put(m.anchor * DQ::exp(xi))};
                j.a("x", x);
            }
            look(j, m, mask, dir);
            j.emit();
        }
    }
}
int main(int argc, char** argv) { return drv::run(argc, argv, segment); }
