// C25: preintegrated inertial intervals.
#include "drv.h"
#include "models/imu_model.h"

using namespace mc;
using models::ImuModel;
static const int64_t BASE = 1600000000ll, BASE_NS = 999900000ll;
static UTCTime at(long long us) { return UTCTime(BASE, BASE_NS + us * 1000); }
static long long us(const UTCTime& t) { return (t.sec - BASE) * 1000000 + (t.nsec - BASE_NS) / 1000; }
static long long r(double v) { return std::abs(v) < 2e9 ? std::llround(v) : 2000000000ll; }
static bool none(double v) { return std::abs(v) < 1e-9; }

struct Noise { double a, w; };
static std::string shown(const ImuModel& m, const Noise& q)
{
    const models::ImuState& s = m.state();
    const Vec3 g = s.gamma.log();
    const Mat9& P = m.covariance();
    const auto& J = m.dStatedBias();
    const double ra = q.a > 0 ? 1 : 0, rw = q.w > 0 ? 1 : 0;
    (void)ra; (void)rw;
    std::ostringstream o;
    o << "{\"t0\":" << us(m.t0()) << ",\"tf\":" << us(m.tf()) << ",\"n\":" << m.numUpdates()
      << ",\"b2\":" << r(s.beta(2) * 120e3) << ",\"al2\":" << r(s.alpha(2) * 120e6) << ",\"ang2\":" << r(g(2) * 120e3)
      << ",\"caa\":" << r(P(2, 2) * 1e12) << ",\"cab\":" << r(P(2, 5) * 1e9) << ",\"cbb\":" << r(P(5, 5) * 1e6) << ",\"cgg\":" << r(P(8, 8) * 1e6)
      << ",\"ja\":" << r(J(2, 2) * 1e6) << ",\"jb\":" << r(J(5, 2) * 1e3) << ",\"jg\":" << r(J(8, 5) * 1e3)
      << ",\"off\":" << (none(s.alpha(0)) && none(s.alpha(1)) && none(s.beta(0)) && none(s.beta(1)) && none(g(0)) && none(g(1)) &&
                         none(P(2, 5) - P(5, 2)) && std::abs(m.delta_t() * 1e6 - (us(m.tf()) - us(m.t0()))) < 1e-3 ? "true" : "false") << "}";
    return o.str();
}

static void seg(const std::vector<drv::Cmd>& cmds)
{
    using drv::num;
    std::vector<std::unique_ptr<ImuModel>> ms;
    Vec6 bias, noise;
    Noise q{0, 0};
    auto sample = [](long long t, long long a, long long w) {
        meas::ImuSample z;
        z.t = at(t);
        z.accel = Vec3(0, 0, a / 60.0);
        z.gyro = Vec3(0, 0, w / 60.0);
        return z;
    };
    for (const auto& c : cmds)
    {
        if (c[0] == "new")
        {
            // new T A W BIASA BIASW NOISEA NOISEW
            bias << 0, 0, num(c[4]) / 60.0, 0, 0, num(c[5]) / 60.0;
            q = Noise{(double)num(c[6]), (double)num(c[7])};
            noise << q.a, q.a, q.a, q.w, q.w, q.w;
            ms.emplace_back(new ImuModel(sample(num(c[1]), num(c[2]), num(c[3])), bias, noise));
            drv::J("new").i("t", num(c[1])).i("a", num(c[2])).i("w", num(c[3]))
                .raw("bias", "{\"a\":" + c[4] + ",\"w\":" + c[5] + "}").raw("noise", "{\"a\":" + c[6] + ",\"w\":" + c[7] + "}").emit();
        }
        else if (c[0] == "sample")
        {
            const size_t k = num(c[1]);
            if (k > ms.size()) continue;
            drv::J("sample").i("k", k).i("t", num(c[2])).i("a", num(c[3])).i("w", num(c[4])).emit();
            ms[k - 1]->integrate(sample(num(c[2]), num(c[3]), num(c[4])));
            drv::J("sampled").raw("it", shown(*ms[k - 1], q)).emit();
        }
        else if (c[0] == "cut")
        {
            const size_t k = num(c[1]);
            if (k > ms.size()) continue;
            drv::J("cut").i("k", k).i("t", num(c[2])).emit();
            std::unique_ptr<ImuModel> right(new ImuModel(ms[k - 1]->split(at(num(c[2])))));
            ms.insert(ms.begin() + k, std::move(right));
            drv::J("cutted").raw("left", shown(*ms[k - 1], q)).raw("right", shown(*ms[k], q)).emit();
        }
        else if (c[0] == "end")
        {
            const size_t k = num(c[1]);
            if (k > ms.size()) continue;
            ImuModel& m = *ms[k - 1];
            const double v = num(c[2]) / 60.0;
            math::DQuat<double> e;
            Vec3 ve;
            const bool ok = m.computeEndState(math::DQuat<double>::identity(), Vec3(0, 0, v), Out(e), Out(ve)).ok();
            bool zero = true;
            if (ok)
            {
                // from any start, the end computed has no residual
                srand(num(c[2]) + 12345);
                for (int n = 0; n < 2; ++n)
                {
                    const math::DQuat<double> s0 = math::DQuat<double>::Random();
                    const Vec3 v0 = Vec3::Random() * 5;
                    math::DQuat<double> s1;
                    Vec3 v1, no = Vec3::Zero();
                    Vec6 nob = Vec6::Zero();
                    (void)no;
                    m.computeEndState(s0, v0, Out(s1), Out(v1));
                    const double* par[] = {s0.data(), s1.data(), v0.data(), v1.data(), nob.data()};
                    double res[9];
                    m.Evaluate(par, res, nullptr);
                    for (double x : res) zero = zero && std::abs(x) < 1e-6;
                }
            }
            const Vec3 p = e.translation();
            drv::J("end").i("k", k).i("v", num(c[2])).b("ok", ok).b("zero", zero).i("z", r(p(2) * 120e6)).i("v1", r(ve(2) * 120e3))
                .b("off", none(p(0)) && none(p(1)) && none(ve(0)) && none(ve(1))).emit();
        }
        else if (c[0] == "look")
        {
            // look K  start(5,3)  v(3)  turn(5) dp(3) dv(3)  bias(6)  mask  dir(6)
            const size_t k = num(c[1]);
            if (k > ms.size()) continue;
            ImuModel& m = *ms[k - 1];
            size_t at = 2;
            auto n = [&] { return (double)num(c.at(at++)); };
            auto v3 = [&] { Vec3 o; for (int i = 0; i < 3; ++i) o(i) = n(); return o; };
            auto q4 = [&] { double q[5]; for (double& x : q) x = n(); return math::Quatd(q[0] / q[4], q[1] / q[4], q[2] / q[4], q[3] / q[4]); };
            using DQ = math::DQuat<double>;
            const math::Quatd r0 = q4();
            const Vec3 p0 = v3(), v0 = v3();
            const size_t turned = at;
            const math::Quatd turn = q4();
            const Vec3 dp = v3(), dv = v3();
            Vec6 bias;
            bias << v3(), v3();
            bias /= 1000;
            const int mask = n();
            Vec6 dir;
            dir << v3(), v3();
            DQ end;
            Vec3 v1;
            if (!m.computeEndState(DQ(r0, p0), v0, Out(end), Out(v1)).ok()) { drv::J("none").i("k", k).emit(); continue; }
            end = DQ(end.rotation() * turn, Vec3(end.translation() + r0.rota(dp)));
            v1 += dv;
            const bool pose[] = {true, true, false, false, false};
            const int size[] = {8, 8, 3, 3, 6};
            std::vector<Eigen::VectorXd> x(5);
            const DQ start(r0, p0);
            for (int i = 0; i < 2; ++i) { x[i].resize(8); for (int j = 0; j < 8; ++j) x[i](j) = (i ? end : start).arr_[j]; }
            x[2] = v0;
            x[3] = v1;
            x[4] = Vec6::Zero();
            auto f = [&](const std::vector<Eigen::VectorXd>& x, double** j) {
                std::vector<const double*> p;
                for (const auto& b : x) p.push_back(b.data());
                Eigen::VectorXd o = Eigen::VectorXd::Constant(9, NAN);
                m.Evaluate(p.data(), o.data(), j);
                return o;
            };
            const Eigen::VectorXd res = f(x, nullptr);
            x[4] = bias;
            std::vector<Eigen::VectorXd> jac(5);
            std::vector<double*> jp(5, nullptr);
            for (int i = 0; i < 5; ++i)
            {
                jac[i] = Eigen::VectorXd::Constant(9 * size[i], NAN);
                if (mask >> i & 1) jp[i] = jac[i].data();
            }
            const bool same = (f(x, jp.data()) - f(x, nullptr)).norm() < 1e-9;
            const math::Quatd back = math::Quatd::exp(Vec3(res.tail<3>()));
            const double w = num(c[turned + 4]);
            std::string rows = "[";
            for (int i = 0; i < 5; ++i)
            {
                if (!(mask >> i & 1)) continue;
                const double h = 1e-4;
                auto a = x, b = x;
                if (pose[i])
                {
                    const DQ at(x[i].data());
                    const Vec6 d = dir * (h / 10);
                    const DQ p = at * DQ::exp(d), q = at * DQ::exp(Vec6(-d));
                    for (int j = 0; j < 8; ++j) { a[i](j) = p.arr_[j]; b[i](j) = q.arr_[j]; }
                }
                else
                    for (int j = 0; j < size[i]; ++j) { a[i](j) += h / 10 * dir(j); b[i](j) -= h / 10 * dir(j); }
                const Eigen::VectorXd step = (a[i] - b[i]) / (2 * h), fd = (f(a, nullptr) - f(b, nullptr)) / (2 * h);
                rows += (rows.size() > 1 ? "," : "") + std::string("{\"i\":") + std::to_string(i) + ",\"jd\":[";
                for (int q = 0; q < 9; ++q) rows += (q ? "," : "") + std::to_string(r(1000 * jac[i].segment(q * size[i], size[i]).dot(step)));
                rows += "],\"fd\":[";
                for (int q = 0; q < 9; ++q) rows += (q ? "," : "") + std::to_string(r(1000 * fd(q)));
                rows += "]}";
            }
            std::vector<long long> rv, bk, tq, td, tv;
            for (int i = 0; i < 6; ++i) rv.push_back(r(1000 * res(i)));
            const double sg = back.w() * turn.w() + back.x() * turn.x() + back.y() * turn.y() + back.z() * turn.z() < 0 ? -1 : 1;
            for (double q : {back.w(), back.x(), back.y(), back.z()}) bk.push_back(r(1000 * sg * w * q));
            for (int i = 0; i < 4; ++i) tq.push_back(num(c[turned + i]));
            for (int i = 0; i < 3; ++i) { td.push_back(num(c[turned + 5 + i])); tv.push_back(num(c[turned + 8 + i])); }
            drv::J("look").i("k", k).a("dp", td).a("dv", tv).a("turn", tq).a("res", rv).a("back", bk).b("same", same).i("mask", mask).raw("rows", rows + "]").emit();
        }
    }
}
int main(int argc, char** argv) { return drv::run(argc, argv, seg); }
