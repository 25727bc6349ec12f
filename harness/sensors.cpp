// C23: the simulated inertial and satellite sensors, on their own and inside the simulator.
#include "drv.h"
#include "ephemerides.h"
#include "common/logging/log_writer.h"
#include "sim/sim.h"

using namespace mc;
using drv::num;

static const UTCTime T0(1600000000, 250000000);
static const Vec3 LEVER(0.5, -0.25, 1.0);
static long long since(const UTCTime& t) { return std::llround(((t.sec - T0.sec) * 1e9 + (t.nsec - T0.nsec)) * 1e-3); }
static UTCTime stampOf(long long t) { UTCTime x = T0; x.sec += t / 1000000; x.nsec += (t % 1000000) * 1000; x.wrapNsec(); return x; }

struct Rec { int con, sat, id; long long t; };
static std::vector<Rec> recs;
static std::map<std::pair<int, int>, satellite::SatelliteBase*> own;

template <class E> static void put(int con, int sat, const E& e)
{
    auto*& s = own[{con, sat}];
    if (!s) s = new satellite::Satellite<E>(e.gnssID, sat);
    static_cast<satellite::Satellite<E>*>(s)->addEph(e);
}
template <class E> static long long idOf(const E& e) { return std::llround(e.af0 * 1e6); }
static long long idOf(const GLO& e) { return std::llround(-e.taun * 1e6); }
static std::string list(const std::vector<long long>& v)
{
    std::string o = "[";
    for (size_t i = 0; i < v.size(); ++i) o += (i ? "," : "") + std::to_string(v[i]);
    return o + "]";
}
static int conOf(int g) { return g == GnssID::GPS ? 0 : g == GnssID::Galileo ? 1 : g == GnssID::Glonass ? 2 : 9; }
// the observations: identity, stamp, whose range it is, and the whole cycles between phase and range
static std::string obsList(sim::sensors::GnssSim* g, const UTCTime& t, const Vec3& pos, const Vec3& vel,
                           const std::vector<meas::GnssObservation>& obs)
{
    std::string o = "[";
    for (const auto& m : obs)
    {
        std::vector<std::string> whose;
        long long amb = 999999, frac = 0;
        const auto me = own.find({conOf(m.gnss_id), m.sat_num});
        if (g)
        {
            for (const auto& s : own)
            {
                double range, rate;
                g->range(t, s.second, pos, vel, make_out(range), make_out(rate));
                if (std::abs(range - m.pseudorange) < 0.01 && std::abs(rate - m.doppler) < 0.01)
                    whose.push_back("[" + std::to_string(s.first.first) + "," + std::to_string(s.first.second) + "]");
            }
        }
        if (me != own.end())
        {
            const double c = m.carrier_phase - m.pseudorange / me->second->carrierWavelength(0);
            amb = std::abs(c) < 1e6 ? std::llround(c) : 999999;
            frac = std::min<long long>(1000, std::llround(std::abs(c - amb) * 1000));
        }
        std::string w = "[";
        for (size_t k = 0; k < whose.size(); ++k) w += (k ? "," : "") + whose[k];
        o += std::string(o.size() > 1 ? "," : "") + "{\"id\":[" + std::to_string(conOf(m.gnss_id)) + "," + std::to_string(m.sat_num) +
             "],\"t\":" + std::to_string(std::max(-1ll, std::min(2000000000ll, since(m.t)))) + ",\"whose\":" + w + "],\"amb\":" + std::to_string(amb) +
             ",\"frac\":" + std::to_string(frac) + ",\"freq\":" + std::to_string((long long)m.freq) + "}";
    }
    return o + "]";
}

static std::string writeLog()
{
    char dir[] = "/tmp/sensorsXXXXXX";
    const std::string root = mkdtemp(dir);
    logging::Logger log(T0, root);
    log.initStream<GPS>(logging::GPS_EPH, {"eph"});
    log.initStream<GAL>(logging::GAL_EPH, {"eph"});
    log.initStream<GLO>(logging::GLO_EPH, {"eph"});
    own.clear();
    for (const auto& r : recs)
    {
        const UTCTime t = stampOf(r.t), toe = T0 + (r.id % 50) * 60.0;
        if (r.con == 0) { GPS e = mkGps(r.sat, toe, r.id); log.log(logging::GPS_EPH, t, e); put(0, r.sat, e); }
        if (r.con == 1) { GAL e = mkGal(r.sat, toe, r.id); log.log(logging::GAL_EPH, t, e); put(1, r.sat, e); }
        if (r.con == 2) { GLO e = mkGlo(r.sat, toe, r.id); log.log(logging::GLO_EPH, t, e); put(2, r.sat, e); }
    }
    log.close(T0);
    return root;
}

static math::TwoJet<double> motion(const drv::Cmd& c, size_t k)
{
    // quarter turns about an axis, position (m), acceleration (mm/s^2), angular rate (mrad/s), velocity (cm/s)
    math::TwoJet<double> x = math::TwoJet<double>::Identity();
    const Vec3 axis = num(c[k]) == 1 ? Vec3(1, 0, 0) : num(c[k]) == 2 ? Vec3(0, 1, 0) : Vec3(0, 0, 1);
    const math::Quat<double> q = math::Quat<double>::from_axis_angle(axis, num(c[k + 1]) * M_PI / 2);
    x.x = math::DQuat<double>(q, Vec3(num(c[k + 2]), num(c[k + 3]), num(c[k + 4])));
    for (int i = 0; i < 3; ++i)
    {
        x.d2x.linear()(i) = num(c[k + 5 + i]) * 1e-3;
        x.dx.angular()(i) = num(c[k + 8 + i]) * 1e-3;
        x.dx.linear()(i) = num(c[k + 11 + i]) * 1e-2;
    }
    return x;
}

static void seg(const std::vector<drv::Cmd>& cmds)
{
    std::unique_ptr<sim::sensors::GnssSim> gnss;
    std::unique_ptr<sim::sensors::ImuSim> imu;
    std::unique_ptr<sim::Sim> whole;
    sim::sensors::GnssSim::Options go;
    sim::sensors::ImuSim::Options io;
    go.T_e2n = math::DQuat<double>(math::Quat<double>::from_axis_angle(Vec3(0, 1, 0), 0.5), Vec3(1e6, -4.5e6, 4.2e6));
    go.p_b2g = LEVER;
    std::string root;
    recs.clear();
    for (const auto& c : cmds)
    {
        if (c[0] == "new")
        {
            // new <sim> <noisy> <imu rate> <gnss rate>
            io.update_rate_hz = num(c[3]);
            go.update_rate_hz_ = num(c[4]);
            if (!num(c[2]))
            {
                io.accel_noise_stdev = io.accel_walk_stdev = io.gyro_noise_stdev = io.gyro_walk_stdev = 0;
                go.pseudorange_stdev_ = go.carrier_phase_stdev_ = go.doppler_stdev_ = 0;
                go.clock_walk_stdev_ = go.clock_init_stdev_ = 0;
            }
        }
        else if (c[0] == "rec") recs.push_back({(int)num(c[1]), (int)num(c[2]), (int)num(c[3]), num(c[4])});
        else if (c[0] == "start")
        {
            const bool sim = num(cmds[0][1]), noisy = num(cmds[0][2]);
            root = writeLog();
            go.ephemeris_log = root;
            for (const auto& d : std::experimental::filesystem::directory_iterator(root)) go.ephemeris_log = d.path().string();
            std::string rs = "[";
            for (const auto& r : recs) rs += (rs.size() > 1 ? "," : "") + list({r.con, r.sat, r.id, r.t});
            drv::J("new").b("sim", sim).b("noisy", noisy).i("pi", 1000000 / num(cmds[0][3])).i("pg", 1000000 / num(cmds[0][4])).raw("recs", rs + "]").emit();
            if (sim)
            {
                sim::Sim::Options o;
                o.input_noise = noisy ? 0.01 : 0;
                o.gnss_options = go;
                o.imu_options = io;
                o.car_options.t0 = T0;
                for (auto* g : {&o.car_options.heading_controller_gains, &o.car_options.velocity_controller_gains})
                    *g = {.kp = 1.0, .ki = 0.0, .kd = 0.0, .max = 5.0, .tau = 0.05};
                whole.reset(new sim::Sim(o));
            }
            else
            {
                gnss.reset(new sim::sensors::GnssSim(go, T0));
                imu.reset(new sim::sensors::ImuSim(io, T0));
            }
            if (system(("rm -rf " + root).c_str())) _exit(99);
            drv::J("started").emit();
        }
        else if (c[0] == "imu")
        {
            const UTCTime t = stampOf(num(c[1]));
            const auto x = motion(c, 2);
            meas::ImuSample s;
            s.t = UTCTime(0, 0);
            const bool got = imu->sample(t, x, Out<meas::ImuSample>(s));
            drv::J j("imu");
            j.i("t", num(c[1])).b("got", got).i("axis", num(c[2])).i("turn", num(c[3])).a("acc", std::vector<long long>{num(c[7]), num(c[8]), num(c[9])});
            j.a("rate", std::vector<long long>{num(c[10]), num(c[11]), num(c[12])}).a("vel", std::vector<long long>{num(c[13]), num(c[14]), num(c[15])});
            if (got)
            {
                std::vector<long long> a, w;
                for (int i = 0; i < 3; ++i)
                {
                    a.push_back(std::llround(std::max(-100.0, std::min(100.0, s.accel(i))) * 1e6));
                    w.push_back(std::llround(std::max(-100.0, std::min(100.0, s.gyro(i))) * 1e6));
                }
                j.i("stamp", since(s.t)).a("accel", a).a("gyro", w);
            }
            j.emit();
        }
        else if (c[0] == "gnss")
        {
            const UTCTime t = stampOf(num(c[1]));
            const auto x = motion(c, 2);
            std::vector<meas::GnssObservation> obs(num(c[16]));   // what is in there already
            const bool got = gnss->sample(t, x, make_out(obs));
            drv::J j("gnss");
            j.i("t", num(c[1])).b("got", got);
            if (got)
            {
                // where the antenna is, and how it moves, seen from the earth
                const Vec3 p = go.T_e2n.translation() + go.T_e2n.rotation().rota(x.x.translation() + x.x.rotation().rota(LEVER));
                const Vec3 v = go.T_e2n.rotation().rota(x.x.rotation().rota(x.dx.linear() + x.dx.angular().cross(LEVER)));
                j.raw("obs", obsList(gnss.get(), t, p, v, obs));
            }
            j.emit();
        }
        else if (c[0] == "eph")
        {
            const UTCTime t = stampOf(num(c[2]));
            drv::J("ask").emit();
            GPS g; GAL e; GLO o;
            bool got;
            long long id = -1, sat = -1;
            if (c[1] == "0") { got = gnss->sampleGpsEph(t, Out<GPS>(g)); if (got) { id = idOf(g); sat = g.sat; } }
            else if (c[1] == "1") { got = gnss->sampleGalEph(t, Out<GAL>(e)); if (got) { id = idOf(e); sat = e.sat; } }
            else { got = gnss->sampleGloEph(t, Out<GLO>(o)); if (got) { id = idOf(o); sat = o.sat; } }
            drv::J("eph").i("con", num(c[1])).i("t", num(c[2])).b("got", got).i("id", id).i("sat", sat).emit();
        }
        else if (c[0] == "step")
        {
            std::string im = "[]", gn = "[]";
            std::vector<std::string> out[3];
            int nImu = 0, nGnss = 0;
            std::vector<long long> imStamp;
            whole->registerImuCB([&](meas::ImuSample s) { ++nImu; imStamp.push_back(since(s.t)); });
            whole->registerGnssCB([&](std::vector<meas::GnssObservation> o) { ++nGnss; gn = obsList(nullptr, T0, Vec3(), Vec3(), o); });
            whole->registerGPSEphCb([&](const GPS& e) { out[0].push_back(list({e.sat, idOf(e)})); });
            whole->registerGalEphCb([&](const GAL& e) { out[1].push_back(list({e.sat, idOf(e)})); });
            whole->registerGloEphCb([&](const GLO& e) { out[2].push_back(list({e.sat, idOf(e)})); });
            const UTCTime before = whole->t();
            drv::J("ask").emit();
            whole->step(num(c[1]) * 1e-6);
            drv::J j("step");
            j.i("dt", num(c[1])).i("from", since(before)).i("t", since(whole->t())).a("imu", imStamp).i("ngnss", nGnss).raw("obs", gn);
            std::string e = "[";
            for (int k = 0; k < 3; ++k)
            {
                std::string l = "[";
                for (size_t i = 0; i < out[k].size(); ++i) l += (i ? "," : "") + out[k][i];
                e += (k ? "," : "") + l + "]";
            }
            j.raw("eph", e + "]").emit();
        }
    }
}
int main(int argc, char** argv) { return drv::run(argc, argv, seg); }
