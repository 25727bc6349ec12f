// C22: the simulated vehicle's controllers and waypoint follower.
#include "drv.h"
#include "sim/controllers/pid.h"
#include "sim/dynamics/car.h"

using namespace mc;
using sim::controllers::PID;
typedef sim::dynamics::SimCar::WaypointFollower Follower;

static long long r65536(double v) { return std::abs(v) < 32000 ? std::llround(v * 65536) : (v < 0 ? -2000000000ll : 2000000000ll); }
static std::vector<long long> quarters(const Vec3& v) { return {std::llround(v(0) * 4), std::llround(v(1) * 4), std::llround(v(2) * 4)}; }
static std::string list(const std::vector<long long>& v)
{
    std::string o = "[";
    for (size_t i = 0; i < v.size(); ++i) o += (i ? "," : "") + std::to_string(v[i]);
    return o + "]";
}

static void seg(const std::vector<drv::Cmd>& cmds)
{
    using drv::num;
    std::unique_ptr<PID> pid;
    std::unique_ptr<Follower> fol;
    double maxSpeed = 0, maxOmega = 0, thr = 0;
    for (const auto& c : cmds)
    {
        if (c[0] == "new")
        {
            PID::Options o;
            o.kp = num(c[1]) / 16.0;
            o.ki = num(c[2]) / 16.0;
            o.kd = num(c[3]) / 16.0;
            o.max = num(c[4]) / 65536.0;
            o.tau = num(c[5]) / 32.0;
            pid.reset(new PID(o));
            drv::J("new").i("kp", num(c[1])).i("ki", num(c[2])).i("kd", num(c[3])).i("max", num(c[4])).i("tau2", num(c[5])).emit();
        }
        else if (c[0] == "run" || c[0] == "runx")
        {
            const double dt = num(c[1]) / 16.0, x = num(c[2]) / 256.0, xc = num(c[3]) / 256.0;
            const bool upd = num(c[4]);
            double u;
            drv::J j(c[0]);
            if (c[0] == "run") u = pid->run(dt, x, xc, upd);
            else
            {
                u = pid->run(dt, x, xc, upd, num(c[5]) / 4096.0);
                j.i("xdot", num(c[5]));
            }
            PID probe(*pid);
            const double pu = probe.run(0.0, 0.0, 0.0, true, 0.0);
            j.i("dt", num(c[1])).i("x", num(c[2])).i("xc", num(c[3])).b("upd", upd).i("u", r65536(u)).i("probe", r65536(pu)).emit();
        }
        else if (c[0] == "follow")
        {
            Follower::Options o;
            thr = num(c[1]);
            o.close_enough_threshold = thr / 4.0;
            o.max_speed = maxSpeed = num(c[2]);
            o.max_omega = maxOmega = num(c[3]);
            o.waypoints.clear();
            std::string w = "[";
            for (size_t k = 4; k + 2 < c.size(); k += 3)
            {
                o.waypoints.push_back(Vec3(num(c[k]) / 4.0, num(c[k + 1]) / 4.0, num(c[k + 2]) / 4.0));
                w += (k > 4 ? "," : "") + list(quarters(o.waypoints.back()));
            }
            char* mem = (char*)::operator new(sizeof(Follower));
            memset(mem, 0x5a, sizeof(Follower));   // memory is not zero by itself
            fol.reset(new (mem) Follower(o));
            drv::J("follow").raw("way", w + "]").raw("target", list(quarters(fol->current_waypoint()))).emit();
        }
        else if (c[0] == "at")
        {
            // heading: 0 east (x), 1 north (y), 2 west, 3 south
            static const long long H[4][2] = {{1, 0}, {0, 1}, {-1, 0}, {0, -1}};
            const int h = num(c[4]);
            const Vec3 p(num(c[1]) / 4.0, num(c[2]) / 4.0, num(c[3]) / 4.0);
            const math::Quat<double> q = math::Quat<double>::exp(Vec3(0, 0, h * M_PI / 2));
            const Vec2 vw = fol->follow(math::DQuat<double>(q, p));
            const double w = vw(1), v = vw(0);
            drv::J("at").a("pos", quarters(p)).i("thr", thr).a("heading", std::vector<long long>{H[h][0], H[h][1]})
                .i("turn", w > 1e-9 ? 1 : w < -1e-9 ? -1 : 0)
                .b("within", v >= 0 && v <= maxSpeed + 1e-12 && std::abs(w) <= maxOmega + 1e-12)
                .raw("target", list(quarters(fol->current_waypoint()))).emit();
        }
    }
}
int main(int argc, char** argv) { return drv::run(argc, argv, seg); }
