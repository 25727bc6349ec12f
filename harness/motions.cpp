// C27: rotations and rigid motions (quaternions, dual quaternions and their matrix counterparts).
#include "drv.h"
#include "common/math/dquat.h"
#include "common/math/quat.h"
#include "common/math/se3.h"
#include "common/math/so3.h"

using namespace mc;
using drv::num;
using Q = math::Quat<double>;
using D = math::DQuat<double>;
using R3 = math::SO3<double>;
using T3 = math::SE3<double>;

static double off;
static long long unit(double x, double den)
{
    const double r = std::round(x * den);
    if (!(std::abs(r) < 2e9)) { off = 1; return 0; }
    off = std::max(off, std::abs(x - r / den));
    return (long long)r;
}
template <class V> static std::vector<long long> units(const V& v, double den)
{
    std::vector<long long> o;
    for (int i = 0; i < v.size(); ++i) o.push_back(unit(v(i), den));
    return o;
}
static long long scaled(double x, double f) { return std::isfinite(x) ? (long long)std::min(2e9, std::round(std::abs(x) * f)) : 2000000000ll; }
static std::string list(const std::vector<std::vector<long long>>& vs)
{
    std::string o = "[";
    for (size_t i = 0; i < vs.size(); ++i)
    {
        o += i ? ",[" : "[";
        for (size_t j = 0; j < vs[i].size(); ++j) o += (j ? "," : "") + std::to_string(vs[i][j]);
        o += "]";
    }
    return o + "]";
}
struct Args
{
    const drv::Cmd& c;
    size_t p = 1;
    long long n() { return num(c.at(p++)); }
    std::string s() { return c.at(p++); }
    std::vector<long long> v(int k) { std::vector<long long> o; while (k--) o.push_back(n()); return o; }
};
static Vec3 vec(const std::vector<long long>& v, double d) { return Vec3(v[0] / d, v[1] / d, v[2] / d); }
// the active matrix of an integer quaternion
static Mat3 active(const std::vector<long long>& q, double n)
{
    const double w = q[0], x = q[1], y = q[2], z = q[3];
    Mat3 m;
    m << w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y),
        2 * (x * y + w * z), w * w - x * x + y * y - z * z, 2 * (y * z - w * x),
        2 * (x * z - w * y), 2 * (y * z + w * x), w * w - x * x - y * y + z * z;
    return m / (n * n);
}
static T3 se3(const D& a) { return T3(R3(a.rotation()).inverse(), a.translation()); }
static D back(const T3& t) { return D(t.R().inverse().q(), t.translation()); }

template <class G, class X> static std::vector<long long> jacobians(const X& x, const std::function<G(const X&)>& exp,
    const std::function<X(const G&)>& log, const Eigen::MatrixXd& left, const Eigen::MatrixXd& right, const Eigen::MatrixXd& ll, const Eigen::MatrixXd& lr)
{
    const int n = x.size();
    const double h = 1e-4;
    Eigen::MatrixXd fl(n, n), fr(n, n);
    for (int i = 0; i < n; ++i)
    {
        X p = x, m = x;
        p(i) += h;
        m(i) -= h;
        fl.col(i) = (log(exp(p) * exp(x).inverse()) - log(exp(m) * exp(x).inverse())) / (2 * h);
        fr.col(i) = (log(exp(x).inverse() * exp(p)) - log(exp(x).inverse() * exp(m))) / (2 * h);
    }
    const Eigen::MatrixXd I = Eigen::MatrixXd::Identity(n, n);
    std::vector<long long> e;
    const double mag = 1e6 / std::max(1., std::max(fl.cwiseAbs().maxCoeff(), 1.));
    auto add = [&](const Eigen::MatrixXd& m) { e.push_back(m.allFinite() ? scaled(m.cwiseAbs().maxCoeff(), mag) : 2000000000ll); };
    if (left.size()) { add(fl - left); add(ll * left - I); }
    if (right.size()) { add(fr - right); add(lr * right - I); }
    return e;
}

static void segment(const std::vector<drv::Cmd>& cmds)
{
    alignas(64) static double qmem[4], dmem[8];
    for (int i = 0; i < 4; ++i) qmem[i] = i == 0;
    for (int i = 0; i < 8; ++i) dmem[i] = i == 0;
    Q r1, r2((const double*)qmem), r3;
    D m1, m2((const double*)dmem), m3(m1);
    Q* r[5] = {nullptr, &r1, &r2, &r3, &m3.real()};
    D* m[4] = {nullptr, &m1, &m2, &m3};
    auto showR = [&](drv::J j, const Q& q, long long den) {
        off = 0;
        j.i("D", den).a("q", units(q.elements(), den)).i("off", scaled(off, 1e9)).emit();
    };
    auto showM = [&](drv::J j, const D& a, long long dq, long long dt, bool raw) {
        off = 0;
        Vec8 e = a.arr_;
        if (raw) for (int i = 0; i < 8; ++i) e(i) = i < 4 ? a.real()[i] : a.dual()[i - 4];
        j.i("D", dq).i("Dt", dt).a("q", units(Vec4(e.head<4>()), dq)).a("dual", units(Vec4(e.tail<4>()), 2. * dq * dt))
            .a("t", units(a.translation(), dt)).i("off", scaled(off, 1e9)).emit();
    };
    auto angle = [](long long a, long long b) { return 2 * std::atan2((double)b, (double)a); };
    for (const auto& c : cmds)
    {
        Args g{c};
        const std::string& op = c[0];
        if (op == "new") drv::J("new").emit();
        else if (op == "rset")
        {
            const int k = g.n();
            const std::string how = g.s();
            const auto q = g.v(4);
            const long long n = g.n(), den = g.n();
            const double d = n;
            const Vec4 e(q[0] / d, q[1] / d, q[2] / d, q[3] / d);
            if (how == "ctor") *r[k] = Q(e(0), e(1), e(2), e(3));
            else if (how == "arr") *r[k] = e;
            else if (how == "fields") { r[k]->w() = e(0); r[k]->x() = e(1); (*r[k])[2] = e(2); r[k]->z() = e(3); }
            else if (how == "map") { const Eigen::Ref<const Vec4> ref(e); *r[k] = Q(ref); }
            else if (how == "mat") *r[k] = Q::from_R(active(q, n).transpose());
            else if (how == "so3") *r[k] = Q(R3(Mat3(active(q, n).transpose())));
            else if (how == "cast") *r[k] = Q(e(0), e(1), e(2), e(3)).cast<long double>().cast<double>();
            else std::memcpy(r[k]->data(), e.data(), 32);
            showR(drv::J("rset").i("k", k).a("set", q).i("n", n), *r[k], den);
        }
        else if (op == "raxis")
        {
            const int k = g.n();
            const std::string how = g.s();
            const auto ax = g.v(3);
            const long long mm = g.n(), a = g.n(), b = g.n(), h = g.n(), hv = g.n(), den = g.n();
            const Vec3 axis = vec(ax, mm);
            const double th = std::ldexp(angle(a, b), -(int)hv);
            Mat3 jac;
            if (how.substr(0, 3) == "so3")
            {
                R3 x = how == "so3" ? R3::exp(axis * th).inverse() : how == "so3j" ? R3::exp(axis * th, &jac).inverse() : R3::from_axis_angle(axis, th);
                for (int i = 0; i < hv; ++i) x = i % 2 ? x.times(x) : x * x;
                *r[k] = x.q();
            }
            else
            {
                *r[k] = how == "exp" ? Q::exp(axis * th) : how == "expL" ? Q::exp<JacobianSide::LEFT>(axis * th, &jac) :
                        how == "expR" ? Q::exp<JacobianSide::RIGHT>(axis * th, &jac) : Q::from_axis_angle(axis, th);
                for (int i = 0; i < hv; ++i) *r[k] *= *r[k];
            }
            showR(drv::J("raxis").i("k", k).a("axis", ax).i("m", mm).i("a", a).i("b", b).i("h", h), *r[k], den);
        }
        else if (op == "reuler")
        {
            const int k = g.n();
            const std::string how = g.s();
            const auto ro = g.v(3), pi = g.v(3), ya = g.v(3);
            const long long den = g.n();
            const double x = angle(ro[0], ro[1]), y = angle(pi[0], pi[1]), z = angle(ya[0], ya[1]);
            *r[k] = how == "ctor" ? Q(x, y, z) : Q::from_euler(x, y, z);
            showR(drv::J("reuler").i("k", k).a("roll", ro).a("pitch", pi).a("yaw", ya), *r[k], den);
        }
        else if (op == "rtwo")
        {
            const int k = g.n();
            const std::string how = g.s();
            const auto u = g.v(3);
            const long long un = g.n();
            const auto v = g.v(3);
            const long long vn = g.n(), s = g.n(), den = g.n();
            if (how == "so3") *r[k] = R3::from_two_unit_vectors(vec(u, un), vec(v, vn)).q();
            else *r[k] = Q::from_two_unit_vectors(vec(u, un), vec(v, vn));
            showR(drv::J("rtwo").i("k", k).a("u", u).i("un", un).a("v", v).i("vn", vn).i("s", s), *r[k], den);
        }
        else if (op == "rflip")
        {
            const int k = g.n();
            const std::string how = g.s();
            const auto u = g.v(3);
            const long long un = g.n(), den = g.n();
            if (how == "so3") *r[k] = R3::from_two_unit_vectors(vec(u, un), -vec(u, un)).q();
            else *r[k] = Q::from_two_unit_vectors(vec(u, un), -vec(u, un));
            off = 0;
            const auto image = units(r[k]->rotp(vec(u, un)), den);
            drv::J("rflip").i("k", k).a("u", u).i("un", un).i("D", den).a("image", image).i("off", scaled(off, 1e9))
                .i("w", scaled(r[k]->w(), 1e9)).i("len", scaled(r[k]->norm() - 1, 1e9)).emit();
            *r[k] = Q::Identity();
        }
        else if (op == "rmul")
        {
            const int i = g.n(), j = g.n(), k = g.n();
            const std::string how = g.s();
            const long long den = g.n();
            if (how == "so3") *r[k] = (R3(*r[j]) * R3(*r[i])).q();
            else if (how == "otimes") *r[k] = r[i]->otimes(*r[j]);
            else *r[k] = *r[i] * *r[j];
            showR(drv::J("rmul").i("i", i).i("j", j).i("k", k), *r[k], den);
        }
        else if (op == "rmuleq")
        {
            const int i = g.n(), j = g.n();
            const long long den = g.n();
            *r[i] *= *r[j];
            showR(drv::J("rmuleq").i("i", i).i("j", j), *r[i], den);
        }
        else if (op == "rinv")
        {
            const int i = g.n(), k = g.n();
            const std::string how = g.s();
            const long long den = g.n();
            if (how == "so3") *r[k] = R3(*r[i]).inverse().q();
            else if (how == "T") *r[k] = R3(*r[i]).transpose().q();
            else *r[k] = r[i]->inverse();
            showR(drv::J("rinv").i("i", i).i("k", k), *r[k], den);
        }
        else if (op == "rinvert")
        {
            const int k = g.n();
            const long long den = g.n();
            showR(drv::J("rinvert").i("k", k), r[k]->invert(), den);
        }
        else if (op == "rcopy")
        {
            const int i = g.n(), k = g.n();
            const std::string how = g.s();
            const long long den = g.n();
            if (how == "ctor") { Q t(*r[i]); *r[k] = t; }
            else if (how == "copy") *r[k] = r[i]->copy();
            else if (how == "elems") *r[k] = r[i]->elements();
            else if (how == "so3") *r[k] = r[i]->R().q();
            else if (how == "mat") *r[k] = Q::from_R(r[i]->R());
            else if (how == "rect") *r[k] = r[i]->R().rectified().q();
            else if (how == "norm") { *r[k] = 3.0 * *r[i]; r[k]->normalize(); }
            else if (how == "lin") *r[k] = (*r[i] + *r[i] - *r[i] * 0.5) * (2.0 / 3.0);
            else *r[k] = *r[i];
            showR(drv::J("rcopy").i("i", i).i("k", k), *r[k], den);
        }
        else if (op == "rlog")
        {
            const int i = g.n(), k = g.n();
            const std::string how = g.s();
            const bool neg = g.n();
            const long long den = g.n();
            Q q = r[i]->copy();
            if (neg) q = q * -1.0;
            Mat3 jac;
            if (how == "so3") *r[k] = R3::exp(q.R().log()).q();
            else if (how == "so3j") *r[k] = R3::exp(q.R().log(&jac)).q();
            else *r[k] = Q::exp(how == "L" ? q.log<JacobianSide::LEFT>(&jac) : how == "R" ? q.log<JacobianSide::RIGHT>(&jac) : q.log());
            showR(drv::J("rlog").i("i", i).i("k", k), *r[k], den);
        }
        else if (op == "reul")
        {
            const int i = g.n(), k = g.n();
            const std::string how = g.s();
            const long long den = g.n();
            if (how == "e") { const Vec3 e = r[i]->euler(); *r[k] = Q(e(0), e(1), e(2)); }
            else *r[k] = Q::from_euler(r[i]->roll(), r[i]->pitch(), r[i]->yaw());
            showR(drv::J("reul").i("i", i).i("k", k), *r[k], den);
        }
        else if (op == "rshow")
        {
            const int i = g.n();
            const long long den = g.n();
            const Q mapped((const double*)qmem);
            const Q inside((const double*)(m3.data()));
            showR(drv::J("rshow").i("i", i), i == 2 ? mapped : i == 4 ? inside : *r[i], den);
        }
        else if (op == "ract")
        {
            const int i = g.n();
            const std::string dir = g.s(), how = g.s();
            const long long den = g.n();
            const int cols = g.n();
            Eigen::Matrix<double, 3, Eigen::Dynamic> v(3, cols), o(3, cols);
            std::vector<std::vector<long long>> vs, outs;
            for (int k = 0; k < cols; ++k) { vs.push_back(g.v(3)); v.col(k) = vec(vs[k], 1); }
            const Q& q = *r[i];
            const bool act = dir == "a";
            if (how == "cols") o = act ? q.rota(v) : q.rotp(v);
            else if (how == "two") { Eigen::Matrix<double, 3, 2> t = v; o = act ? q.doublerota(t) : q.doublerotp(t); }
            else
                for (int k = 0; k < cols; ++k)
                {
                    const Vec3 x = v.col(k);
                    if (how == "mat") o.col(k) = act ? Vec3(q.R().transpose() * x) : Vec3(q.R() * x);
                    else if (how == "ad") o.col(k) = act ? q.Ad() * x : q.inverse().Ad() * x;
                    else if (how == "so3") o.col(k) = act ? R3(q).rota(x) : R3(q).rotp(x);
                    else if (how == "so3ad") o.col(k) = act ? R3(q).inverse().Ad() * x : R3(q).Ad() * x;
                    else if (how == "row") o.col(k) = (act ? x.transpose() * q.R() : x.transpose() * q.inverse().R()).transpose();
                    else if (how == "pure") o.col(k) = (act ? q * Q::make_pure(x) * q.inverse() : q.inverse() * Q::make_pure(x) * q).bar();
                    else if (how == "seg") { Vec6 y; y << 9, x, 9, 9; o.col(k) = act ? q.rota(y.segment<3>(1)) : q.rotp(y.segment<3>(1)); }
                    else o.col(k) = act ? q.rota(x) : q.rotp(x);
                }
            off = 0;
            for (int k = 0; k < cols; ++k) outs.push_back(units(Vec3(o.col(k)), den));
            drv::J("ract").i("i", i).s("dir", dir).i("D", den).raw("vs", list(vs)).raw("outs", list(outs)).i("off", scaled(off, 1e9)).emit();
        }
        else if (op == "rparam")
        {
            const int i = g.n();
            const long long den = g.n();
            const Eigen::Matrix<double, 4, 3> p = r[i]->dParamDGen();
            const Mat3 b = r[i]->dGenDParam() * p - Mat3::Identity();
            off = 0;
            std::vector<std::vector<long long>> cols;
            for (int k = 0; k < 3; ++k) cols.push_back(units(Vec4(p.col(k)), den));
            drv::J("rparam").i("i", i).i("D", den).raw("cols", list(cols)).i("off", scaled(off, 1e9)).i("back", scaled(b.cwiseAbs().maxCoeff(), 1e9)).emit();
        }
        else if (op == "rjac")
        {
            const std::string how = g.s();
            const auto ax = g.v(3);
            const long long mm = g.n(), a = g.n(), b = g.n(), h = g.n();
            const auto u = g.v(3);
            const long long ud = g.n(), den = g.n();
            const double th = angle(a, b);
            const Vec3 w = vec(ax, mm) * th;
            Mat3 jac, lj;
            if (how == "L") { const Q q = Q::exp<JacobianSide::LEFT>(w, &jac); q.log<JacobianSide::LEFT>(&lj); }
            else if (how == "R") { const Q q = Q::exp<JacobianSide::RIGHT>(w, &jac); q.log<JacobianSide::RIGHT>(&lj); }
            else { const R3 q = R3::exp(w, &jac); q.log(&lj); }
            off = 0;
            const auto along = units(Vec3(jac * vec(ax, mm)), den), across = units(Vec3(jac * vec(u, ud) * th), den);
            // at half a turn the matrix logarithm may choose either sense
            const bool undone = th < M_PI - 1e-3 || how != "S";
            drv::J("rjac").a("axis", ax).i("m", mm).i("a", a).i("b", b).i("h", h).a("u", u).i("ud", ud).i("side", how == "R" ? -1 : 1).i("D", den)
                .a("along", along).a("across", across).i("off", scaled(off, 1e9))
                .i("back", undone ? ((lj * jac).allFinite() ? scaled((lj * jac - Mat3::Identity()).cwiseAbs().maxCoeff(), 1e9) : 2000000000) : 0).emit();
        }
        else if (op == "mset")
        {
            const int k = g.n();
            const std::string how = g.s();
            const auto q = g.v(4);
            const long long n = g.n();
            const auto t = g.v(3);
            const long long td = g.n(), dq = g.n(), dt = g.n();
            const double d = n;
            const Q qq(q[0] / d, q[1] / d, q[2] / d, q[3] / d);
            const Vec3 tt = vec(t, td);
            const Vec3 u(q[1] / d, q[2] / d, q[3] / d);
            Vec8 e;
            e << q[0] / d, u, -0.5 * tt.dot(u), 0.5 * (q[0] / d * tt + tt.cross(u));
            const Q dual(e(4), e(5), e(6), e(7));
            if (how == "eight") *m[k] = D(e(0), e(1), e(2), e(3), e(4), e(5), e(6), e(7));
            else if (how == "map") { const Eigen::Ref<const Vec8> ref(e); *m[k] = D(ref); }
            else if (how == "pair") *m[k] = D(qq, dual);
            else if (how == "set") { m[k]->setReal(qq); m[k]->setDual(dual); }
            else if (how == "parts") { m[k]->dual() = dual; m[k]->real() = qq; }
            else if (how == "arr") m[k]->arr_ = e;
            else if (how == "vec") *m[k] = e;
            else if (how == "se3") *m[k] = back(T3(active(q, n), tt));
            else if (how == "index") for (int i = 0; i < 8; ++i) (*m[k])[i] = e(i);
            else *m[k] = D(qq, tt);
            showM(drv::J("mset").i("k", k).a("set", q).i("n", n).a("tt", t).i("td", td), *m[k], dq, dt, false);
        }
        else if (op == "mexp" || op == "lg" || op == "mjac")
        {
            const int k = g.n();
            const std::string how = g.s();
            const auto ax = g.v(3);
            const long long mm = g.n(), a = g.n(), b = g.n(), h = g.n(), cc = g.n();
            const auto u = g.v(3);
            const long long ud = g.n(), hv = g.n(), dq = g.n(), dt = g.n();
            const double th = angle(a, b), s = std::ldexp(1.0, -(int)hv);
            Vec6 x;
            x << vec(ax, mm) * th, vec(ax, mm) * (double)cc + th * vec(u, ud);
            x *= s;
            Mat6 jac, jl, jr, ll, lr;
            if (op == "mexp")
            {
                if (how.substr(0, 3) == "se3")
                {
                    T3 y = how == "se3" ? T3::exp(x) : T3::exp(x, &jac);
                    for (int i = 0; i < hv; ++i) y = y * y;
                    *m[k] = back(y);
                }
                else
                {
                    *m[k] = how == "L" ? D::exp<JacobianSide::LEFT>(x, &jac) : how == "R" ? D::exp<JacobianSide::RIGHT>(x, &jac) : D::exp(x);
                    for (int i = 0; i < hv; ++i) *m[k] = *m[k] * *m[k];
                }
                showM(drv::J("mexp").i("k", k).a("axis", ax).i("m", mm).i("a", a).i("b", b).i("h", h).i("c", cc).a("u", u).i("ud", ud), *m[k], dq, dt, true);
            }
            else if (op == "lg")
            {
                Vec6 y = x;
                Mat3 j3;
                if (how == "se3") y = T3::exp(x).log();
                else if (how == "se3j") y = T3::exp(x).log(&jac);
                else if (how == "L") y = D::exp(x).log<JacobianSide::LEFT>(&jac);
                else if (how == "R") y = D::exp(x).log<JacobianSide::RIGHT>(&jac);
                else if (how == "q") y.head<3>() = Q::exp(x.head<3>()).log();
                else if (how == "qL") y.head<3>() = Q::exp(x.head<3>()).log<JacobianSide::LEFT>(&j3);
                else if (how == "qR") y.head<3>() = Q::exp(x.head<3>()).log<JacobianSide::RIGHT>(&j3);
                else if (how == "so3") y.head<3>() = R3::exp(x.head<3>()).log();
                else if (how == "so3j") y.head<3>() = R3::exp(x.head<3>()).log(&j3);
                else y = D::exp(x).log();
                drv::J("lg").s("how", how).i("err", y.allFinite() ? scaled((y - x).cwiseAbs().maxCoeff() / x.cwiseAbs().maxCoeff(), 1e9) : 2000000000).emit();
            }
            else
            {
                std::vector<long long> errs;
                const Vec3 w = x.head<3>();
                Mat3 l3, r3_, ll3, lr3;
                if (how == "se3")
                {
                    T3::exp(x, &jl);
                    T3::exp(x).log(&ll);
                    errs = jacobians<T3, Vec6>(x, [](const Vec6& v) { return T3::exp(v); }, [](const T3& y) { return y.log(); }, jl, MatX(), ll, MatX());
                }
                else if (how == "so3")
                {
                    R3::exp(w, &l3);
                    R3::exp(w).log(&ll3);
                    errs = jacobians<R3, Vec3>(w, [](const Vec3& v) { return R3::exp(v); }, [](const R3& y) { return y.log(); }, l3, MatX(), ll3, MatX());
                }
                else if (how == "q")
                {
                    Q::exp<JacobianSide::LEFT>(w, &l3);
                    Q::exp<JacobianSide::RIGHT>(w, &r3_);
                    Q::exp(w).log<JacobianSide::LEFT>(&ll3);
                    Q::exp(w).log<JacobianSide::RIGHT>(&lr3);
                    errs = jacobians<Q, Vec3>(w, [](const Vec3& v) { return Q::exp(v); }, [](const Q& y) { return y.log(); }, l3, r3_, ll3, lr3);
                }
                else
                {
                    D::exp<JacobianSide::LEFT>(x, &jl);
                    D::exp<JacobianSide::RIGHT>(x, &jr);
                    D::exp(x).log<JacobianSide::LEFT>(&ll);
                    D::exp(x).log<JacobianSide::RIGHT>(&lr);
                    errs = jacobians<D, Vec6>(x, [](const Vec6& v) { return D::exp(v); }, [](const D& y) { return y.log(); }, jl, jr, ll, lr);
                    const D e = D::exp(x);
                    const Eigen::Matrix<double, 6, 6> id = e.dGenDParam() * e.dParamDGen();
                    errs.push_back(scaled((id - Mat6::Identity()).cwiseAbs().maxCoeff(), 1e6));
                    // the elements change as the small motions say
                    const Eigen::Matrix<double, 8, 6> p = e.dParamDGen();
                    double worst = 0;
                    for (int i = 0; i < 6; ++i)
                    {
                        const D f = e * D::exp(Vec6::Unit(i) * 1e-4), b2 = e * D::exp(Vec6::Unit(i) * -1e-4);
                        worst = std::max(worst, (Vec8((f.arr_ - b2.arr_) / 2e-4) - p.col(i)).cwiseAbs().maxCoeff() / std::max(1., p.cwiseAbs().maxCoeff()));
                    }
                    errs.push_back(scaled(worst, 1e6));
                }
                drv::J("mjac").s("how", how).a("errs", errs).emit();
            }
        }
        else if (op == "mmul")
        {
            const int i = g.n(), j = g.n(), k = g.n();
            const std::string how = g.s();
            const long long dq = g.n(), dt = g.n();
            if (how == "se3") *m[k] = back(se3(*m[i]) * se3(*m[j]));
            else if (how == "mat") *m[k] = back(T3(Mat4(se3(*m[i]).matrix() * se3(*m[j]).matrix())));
            else if (how == "otimes") *m[k] = m[i]->otimes(*m[j]);
            else *m[k] = *m[i] * *m[j];
            showM(drv::J("mmul").i("i", i).i("j", j).i("k", k), *m[k], dq, dt, true);
        }
        else if (op == "minv")
        {
            const int i = g.n(), k = g.n();
            const std::string how = g.s();
            const long long dq = g.n(), dt = g.n();
            if (how == "se3") *m[k] = back(se3(*m[i]).inverse());
            else *m[k] = m[i]->inverse();
            showM(drv::J("minv").i("i", i).i("k", k), *m[k], dq, dt, false);
        }
        else if (op == "mcopy")
        {
            const int i = g.n(), k = g.n();
            const std::string how = g.s();
            const long long dq = g.n(), dt = g.n();
            if (how == "ctor") { D t(*m[i]); *m[k] = t; }
            else if (how == "rt") *m[k] = D(m[i]->rotation(), m[i]->translation());
            else if (how == "pair") *m[k] = D(m[i]->real(), m[i]->dual());
            else if (how == "mat") *m[k] = back(T3(se3(*m[i]).matrix()));
            else if (how == "rect") *m[k] = back(se3(*m[i]).rectified());
            else if (how == "mem") std::memmove(m[k]->data(), m[i]->data(), 64);
            else *m[k] = *m[i];
            showM(drv::J("mcopy").i("i", i).i("k", k), *m[k], dq, dt, true);
        }
        else if (op == "mlog")
        {
            const int i = g.n(), k = g.n();
            const std::string how = g.s();
            const bool neg = g.n();
            const long long dq = g.n(), dt = g.n();
            D q(*m[i]);
            if (neg) q.arr_ *= -1;
            Mat6 jac;
            if (how == "se3") *m[k] = back(T3::exp(se3(q).log()));
            else if (how == "se3j") *m[k] = back(T3::exp(se3(q).log(&jac)));
            else *m[k] = D::exp(how == "L" ? q.log<JacobianSide::LEFT>(&jac) : how == "R" ? q.log<JacobianSide::RIGHT>(&jac) : q.log());
            showM(drv::J("mlog").i("i", i).i("k", k), *m[k], dq, dt, false);
        }
        else if (op == "home")
        {
            // a motion after its own inverse, with whatever rounding leaves in it, goes nowhere
            const int i = g.n();
            const std::string how = g.s();
            D q = m[i]->inverse() * *m[i];
            const T3 e = how == "rect" ? (se3(*m[i]) * se3(*m[i]).inverse()).rectified() : se3(*m[i]) * se3(*m[i]).inverse();
            Vec6 y = Vec6::Zero(), z = Vec6::Zero();
            Mat6 jac = Mat6::Identity();
            Mat3 j3 = Mat3::Identity();
            if (how == "so3" || how == "rect") { y.head<3>() = e.R().log(&j3); z.head<3>() = e.R().log(); }
            else if (how == "so3q")
            {
                const R3 o = q.rotation().R();
                y.head<3>() = o.log(&j3);
                z.head<3>() = o.log();
            }
            else if (how == "q") { y.head<3>() = q.rotation().log(&j3); z.head<3>() = q.rotation().log(); }
            else if (how == "se3") { y = e.log(&jac); z = e.log(); }
            else { y = q.log(&jac); z = q.log(); }
            jac.topLeftCorner<3, 3>() += j3 - Mat3::Identity();
            drv::J("home").s("how", how).i("log", y.allFinite() && z.allFinite() ? scaled(std::max(y.cwiseAbs().maxCoeff(), z.cwiseAbs().maxCoeff()), 1e9) : 2000000000)
                .i("jac", jac.allFinite() ? scaled((jac - Mat6::Identity()).cwiseAbs().maxCoeff(), 1e9) : 2000000000).emit();
        }
        else if (op == "mshow")
        {
            const int i = g.n();
            const long long dq = g.n(), dt = g.n();
            const D mapped((const double*)dmem);
            showM(drv::J("mshow").i("i", i), i == 2 ? mapped : *m[i], dq, dt, i == 1);
        }
        else if (op == "mact")
        {
            const int i = g.n();
            const std::string dir = g.s(), how = g.s();
            const long long vd = g.n(), den = g.n();
            const int cols = g.n();
            Eigen::Matrix<double, 3, Eigen::Dynamic> v(3, cols), o(3, cols);
            std::vector<std::vector<long long>> vs, outs;
            for (int k = 0; k < cols; ++k) { vs.push_back(g.v(3)); v.col(k) = vec(vs[k], vd); }
            const D& q = *m[i];
            const bool act = dir == "a";
            if (how == "cols") o = act ? q.transforma(v) : q.transformp(v);
            else
                for (int k = 0; k < cols; ++k)
                {
                    const Vec3 x = v.col(k);
                    if (how == "se3") o.col(k) = act ? se3(q).transformp(x) : se3(q).transforma(x);
                    else if (how == "se3op") o.col(k) = act ? se3(q) * x : se3(q).inverse() * x;
                    else if (how == "inv") o.col(k) = act ? q.inverse().transformp(x) : q.inverse().transforma(x);
                    else if (how == "rot") o.col(k) = act ? Vec3(q.rota(x) + q.translation()) : Vec3(q.rotp(Vec3(x - q.translation())));
                    else if (how == "R") o.col(k) = act ? Vec3(q.R().transpose() * x + q.translation()) : Vec3(q.R() * Vec3(x - q.translation()));
                    else o.col(k) = act ? q.transforma(x) : q.transformp(x);
                }
            off = 0;
            for (int k = 0; k < cols; ++k) outs.push_back(units(Vec3(o.col(k)), den));
            drv::J("mact").i("i", i).s("dir", dir).i("vd", vd).i("D", den).raw("vs", list(vs)).raw("outs", list(outs)).i("off", scaled(off, 1e9)).emit();
        }
        else if (op == "mad")
        {
            const int i = g.n();
            const std::string how = g.s();
            const auto w = g.v(3), v = g.v(3);
            const long long den = g.n();
            Vec6 x;
            x << vec(w, 1), vec(v, 1);
            const Vec6 y = how == "se3" ? Vec6(se3(*m[i]).Ad() * x) : Vec6(m[i]->Ad() * x);
            off = 0;
            const auto a = units(Vec3(y.head<3>()), den), b = units(Vec3(y.tail<3>()), den);
            drv::J("mad").i("i", i).a("w", w).a("v", v).i("D", den).raw("outs", list({a, b})).i("off", scaled(off, 1e9)).emit();
        }
        else _exit(98);
    }
}
int main(int argc, char** argv) { return drv::run(argc, argv, segment); }
