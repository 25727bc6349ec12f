// The delayed-state estimator: measurements arrive, the operations it performs on its states are
// recorded as a graph. Every propagation and every update makes a new node; a state carries the
// number of the node it is in.
//   imu T ID | pp T ID | fh T ID | obs T ID c:s c:s ... | eph c s T ID      (T in units of 10 us)
#include <map>
#include <memory>
#include "drv.h"
#include "ephemerides.h"
#include "core/ekf/rtk_ekf_estimator.h"
using namespace drv;
using namespace mc;

static const UTCTime base(1600000000, 0);
static UTCTime at(long long u)
{
    long long s = u >= 0 ? u / 100000 : -((-u + 99999) / 100000);
    return UTCTime(1600000000 + s, (u - s * 100000) * 10000);
}
static long long units(const UTCTime& t)
{
    return (long long)(t.sec - base.sec) * 100000 + std::llround(t.nsec / 10000.0);
}
static const double TAG = 1.0 / (1 << 30);
static int nextNode;
struct Node { int id, parent; bool upd; long long t; int what; };
static std::vector<Node> fresh;     // nodes made by the current command
static std::string uses;      // observations fused by the current command
static int tagOf(const mc::ekf::State& x) { return std::lround(x.acc_bias(0) / TAG); }
static void tag(mc::ekf::State& x, int id) { x.acc_bias(0) = id * TAG; }
static int node(mc::ekf::State& x, int parent, bool upd, int what)
{
    const int id = nextNode++;
    tag(x, id);
    fresh.push_back({id, parent, upd, units(x.t), what});
    return id;
}
static ekf::RtkEkfEstimator* est;
struct Bundle { UTCTime t; std::vector<std::pair<int, int>> sats; };
static std::map<int, Bundle> bundles;
static const int gnss[] = {GnssID::GPS, GnssID::Glonass, GnssID::Galileo, GnssID::Beidou, GnssID::Qzss, 250};

// an update moves the receiver, by an amount of its own
static const Vec3 site(1798904.13, -4532227.1, 4099781.95);
static void move(mc::ekf::State& x, int id) { x.p_b2g = site + 2e4 * Vec3(id % 5 - 2, id % 7 - 3, id % 3 - 1); }

namespace mc {
namespace ekf {
Error real_predict(const Snapshot& snap, const UTCTime& t_new, const Input& u, const ProcessCovariance& Qx,
                   const InputCovariance& Qu, Out<Snapshot> out);
Error predict(const Snapshot& snap, const UTCTime& t_new, const Input& u, const ProcessCovariance& Qx,
              const InputCovariance& Qu, Out<Snapshot> out)
{
    const int parent = tagOf(snap.x);
    const int uid = std::lround(u.accel(0) / TAG);
    const Error e = real_predict(snap, t_new, u, Qx, Qu, out);
    node(out->x, parent, false, uid);
    return e;
}
template <> Error doUpdate<pointPosMeas>(Out<Snapshot> snap, const pointPosMeas::ZType& z, const pointPosMeas::Jac&,
                                         const pointPosMeas::Covariance&, const pointPosMeas::Residual&)
{
    node(snap->x, tagOf(snap->x), true, std::lround(z(0)));
    move(snap->x, std::lround(z(0)));
    return Error::none();
}
template <> Error doUpdate<fixAndHoldMeas>(Out<Snapshot> snap, const fixAndHoldMeas::ZType& z, const fixAndHoldMeas::Jac&,
                                           const fixAndHoldMeas::Covariance&, const fixAndHoldMeas::Residual&)
{
    node(snap->x, tagOf(snap->x), true, std::lround(z[0](0)));
    move(snap->x, std::lround(z[0](0)));
    return Error::none();
}
template <> Error doUpdate<obsMeas>(Out<Snapshot> snap, const obsMeas::ZType& z, const obsMeas::Jac& dzdx,
                                    const obsMeas::Covariance&, const obsMeas::Residual& res)
{
    const int mid = z.empty() ? -1 : std::lround(z[0].z(0)) / 64;
    auto it = bundles.find(mid);
    std::string o;
    State& x = snap->x;
    Input u = snap->u;
    obsMeas::Residual r0 = h<obsMeas>(z, x, (obsMeas::Jac*)nullptr, u), r[3];
    for (int k = 0; k < 3; ++k)
    {
        State y = x;
        (k == 0 ? y.gps_clk : k == 1 ? y.glo_clk : y.gal_clk) += Vec2(1000, 1000);
        r[k] = h<obsMeas>(z, y, (obsMeas::Jac*)nullptr, u);
    }
    const Vec3 rec = x.T_I2e.transformp(x.pose.transforma(x.p_b2g));
    for (size_t i = 0; i < z.size(); ++i)
    {
        const long code = std::lround(z[i].z(0));
        const bool dop = z[i].z(1) == code + 0.25;
        int g = -1;
        for (int k = 0; k < 6; ++k) if (gnss[k] == z[i].gnss_id) g = k;
        // which of the bundle's satellites the orbit information is of, at this instant and position
        std::vector<int> match;
        if (it != bundles.end())
            for (auto& cs : it->second.sats)
            {
                const satellite::SatelliteBase* sat = nullptr;
                if (!est->sat_manager_.getSat(gnss[cs.first], cs.second, make_out(sat)).ok()) continue;
                satellite::SatelliteCache c{};
                c.update(it->second.t, rec, *sat);
                const auto& q = z[i].sat;
                if ((c.state.pos - q.state.pos).norm() < 1e-2 && (c.state.vel - q.state.vel).norm() < 1e-3 &&
                    (c.state.clk - q.state.clk).norm() < 1e-10 && std::abs(c.sagnac - q.sagnac) < 1e-3 &&
                    std::abs(c.atm.ionospheric_delay_m - q.atm.ionospheric_delay_m) < 1e-3 &&
                    std::abs(c.atm.tropospheric_delay_m - q.atm.tropospheric_delay_m) < 1e-3 &&
                    std::abs((c.state.t - q.state.t).toSec()) < 1e-6)
                {
                    const int m = cs.first * 256 + cs.second;
                    if (std::find(match.begin(), match.end(), m) == match.end()) match.push_back(m);
                }
            }
        std::vector<int> clk, jac;
        for (int k = 0; k < 3; ++k)
        {
            const Vec2 d = (r[k] - r0).segment<2>(2 * i);
            if (d.norm() > 1) clk.push_back(std::abs(d(0) + 299.792458) < 0.01 && std::abs(d(1) + 299.792458) < 0.01 ? k : -1);
            const Mat2 j = k == 0 ? Mat2(dzdx.dGpsClk(i)) : k == 1 ? Mat2(dzdx.dGloClk(i)) : Mat2(dzdx.dGalClk(i));
            if (j.norm() > 1e-6) jac.push_back((j + 0.299792458 * Mat2::Identity()).norm() < 1e-6 ? k : -1);
        }
        auto list = [](const std::vector<int>& v) { std::string s = "["; for (size_t n = 0; n < v.size(); ++n) s += (n ? "," : "") + std::to_string(v[n]); return s + "]"; };
        o += (o.empty() ? "" : ",") + std::string("{\"code\":") + std::to_string(code) + ",\"dop\":" + (dop ? "true" : "false") +
             ",\"g\":" + std::to_string(g) + ",\"sat\":" + list(match) + ",\"clk\":" + list(clk) + ",\"jac\":" + list(jac) + "}";
    }
    uses += (uses.empty() ? "" : ",") + std::string("{\"id\":") + std::to_string(mid) + ",\"o\":[" + o + "]}";
    node(x, tagOf(x), true, mid);
    move(x, mid);
    return Error::none();
}
}  // namespace ekf
}  // namespace mc

static std::string est_on;
static void emitAdd(const std::string& kind, long long t, int id, bool ok)
{
    uint64_t fp = 1469598103934665603ull;
    auto mix = [&](const void* p, size_t n) { for (size_t k = 0; k < n; ++k) { fp ^= ((const unsigned char*)p)[k]; fp *= 1099511628211ull; } };
    std::string st = "[";
    for (size_t n = 0; n < est->states_.size(); ++n)
    {
        const auto& s = est->states_[n];
        st += (n ? ",[" : "[") + std::to_string(units(s.x.t)) + "," + std::to_string(tagOf(s.x)) + "," +
              std::to_string(std::lround(s.u.accel(0) / TAG)) + "]";
        mix(&s.x.t.sec, sizeof s.x.t.sec); mix(&s.x.t.nsec, sizeof s.x.t.nsec);
        mix(s.x.pose.data(), 64); mix(s.x.vel.data(), 24); mix(s.x.acc_bias.data(), 24); mix(s.x.gyro_bias.data(), 24);
        mix(s.x.p_b2g.data(), 24); mix(s.x.T_I2e.data(), 64); mix(s.x.sd[0].data(), 8);
        mix(s.cov.pose_pose.data(), 36 * 8); mix(s.cov.vel_vel.data(), 72); mix(s.cov.pose_vel.data(), 18 * 8);
        mix(s.u.accel.data(), 24); mix(s.u.gyro.data(), 24);
    }
    // the steps that lead to the newest state, from a node that existed before: first those that
    // update the state they start from, then the states that follow
    std::vector<Node> path;
    int from = est->states_.size() ? tagOf(est->states_.back().x) : -1;
    for (size_t n = fresh.size(); n-- > 0;)
        if (fresh[n].id == from) { path.insert(path.begin(), fresh[n]); from = fresh[n].parent; }
    std::string follow, on = "{\"node\":" + std::to_string(from), ups;
    std::vector<int> all;
    bool first = true;
    for (size_t n = 0; n <= path.size(); ++n)
    {
        if (n < path.size() && path[n].upd)
        {
            ups += (ups.empty() ? "" : ",") + std::to_string(path[n].what);
            all.push_back(path[n].what);
            continue;
        }
        const int last = n ? path[n - 1].id : from;
        on += ",\"last\":" + std::to_string(last) + ",\"ups\":[" + ups + "]}";
        if (!first) follow += (follow.empty() ? "" : ",") + on;
        else follow = "", est_on = on;
        first = false;
        ups.clear();
        if (n < path.size())
            on = "{\"node\":" + std::to_string(path[n].id) + ",\"t\":" + std::to_string(path[n].t) + ",\"u\":" + std::to_string(path[n].what);
    }
    long long oldest = est->measurements_.empty() ? 0 : units(est->measurements_.begin()->t);
    J(kind == "new" ? "new" : "add").s("kind", kind).i("t", t).i("id", id).b("ok", ok).raw("states", st + "]").i("qn", est->measurements_.size())
        .i("qold", oldest).raw("from", est_on).raw("follow", "[" + follow + "]").a("ups", all).raw("uses", "[" + uses + "]").w("fp", fp).emit();
    fresh.clear();
    uses.clear();
}

static void runSegment(const std::vector<Cmd>& cmds)
{
    std::unique_ptr<ekf::RtkEkfEstimator> e;
    for (const Cmd& c : cmds)
    {
        const std::string& op = c[0];
        if (op == "new")
        {
            e.reset(new ekf::RtkEkfEstimator);
            est = e.get();
            bundles.clear();
            nextNode = 1;
            fresh.clear(); uses.clear();
            ekf::State x0;
            x0.setIdentity();
            x0.acc_bias.setZero();
            x0.p_b2g = site;
            x0.num_sd = 1;
            x0.gps_clk = Vec2(3, 4); x0.glo_clk = Vec2(5, 6); x0.gal_clk = Vec2(7, 8);
            ekf::Covariance P0 = ekf::Covariance::Identity();
            ekf::InputCovariance Qu = ekf::InputCovariance::Zero();
            ekf::ProcessCovariance Qx = ekf::ProcessCovariance::Identity();
            Vec6 r1 = Vec6::Ones();
            Vec2 r2 = Vec2::Ones();
            Vec1 r3 = Vec1::Ones();
            e->init(at(num(c[1])), x0, P0, r1, r2, r3, Qu, Qx);
            emitAdd("new", num(c[1]), 0, true);
            continue;
        }
        if (op == "eph")
        {
            const int k = num(c[1]), s = num(c[2]), id = num(c[4]);
            const UTCTime toe = at(num(c[3]));
            if (k == 0) e->ephCb(mkGps(s, toe, id));
            if (k == 1) e->ephCb(mkGlo(s, toe, id));
            if (k == 2) e->ephCb(mkGal(s, toe, id));
            J("eph").i("c", k).i("s", s).i("t", num(c[3])).i("id", id).emit();
            continue;
        }
        const long long t = num(c[1]);
        const int id = num(c[2]);
        const UTCTime when = at(t);
        J begin("begin");
        begin.s("kind", op).i("t", t).i("id", id);
        if (op == "obs")
        {
            std::vector<meas::GnssObservation> z;
            Bundle b;
            b.t = when;
            std::vector<int> names;
            for (size_t n = 3; n < c.size(); ++n)
            {
                const size_t colon = c[n].find(':');
                meas::GnssObservation o;
                o.setZero();
                o.t = when;
                const int k = num(c[n].substr(0, colon));
                o.gnss_id = gnss[k];
                o.sat_num = num(c[n].substr(colon + 1));
                o.pseudorange = id * 64 + (int)z.size();
                o.doppler = o.pseudorange + 0.25;
                z.push_back(o);
                b.sats.push_back({k, (int)o.sat_num});
                names.push_back(k * 256 + o.sat_num);
            }
            bundles[id] = b;
            begin.a("sats", names);
            begin.emit();
            const bool ok = e->addMeasurement(when, z).ok();
            emitAdd(op, t, id, ok);
            continue;
        }
        begin.a("sats", std::vector<int>()).emit();
        bool ok = false;
        if (op == "imu")
        {
            ekf::ImuMeas m;
            m.z.accel = -GRAVITY;
            m.z.accel(0) = id * TAG;
            m.z.gyro.setZero();
            ok = e->addMeasurement(when, m).ok();
        }
        else if (op == "pp")
        {
            ekf::pointPosMeas m;
            m.z.setZero();
            m.z(0) = id;
            ok = e->addMeasurement(when, m).ok();
        }
        else if (op == "fh")
        {
            ekf::fixAndHoldMeas m;
            Vec1 v;
            v << id;
            m.z.push_back(v);
            ok = e->addMeasurement(when, m).ok();
        }
        emitAdd(op, t, id, ok);
    }
}
int main(int argc, char** argv) { return run(argc, argv, runSegment); }
