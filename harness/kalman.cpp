// C20: drives the filter code generated from one model description (GLUE).
#include <Eigen/Dense>
#include <string>
#include <vector>

#include "common/check.h"
#include "common/matrix_defs.h"
#include "common/out.h"
#include "common/utctime.h"
#include "drv.h"

using namespace mc;
typedef Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic> M;
struct Dim { const char* name; int d, var, max, man; };

struct G
{
    std::vector<int> cnt;
    std::vector<double> P, A, B, H, x, f, u, qx, qu, r, res;
    int nz = 0;
    bool jacs = true, resOk = true;
    int sd(int i) const;   // dimension of a state
    int so(int i) const;   // its offset
    int uo(int i) const;
    int n() const;
    int nu() const;
};
static G g;
static M blk(const std::vector<double>& m, int cols, int r0, int c0, int r, int c)
{
    M o(r, c);
    for (int i = 0; i < r; ++i)
        for (int j = 0; j < c; ++j) o(i, j) = m[(r0 + i) * cols + c0 + j];
    return o;
}
static int outcome(bool ok, const std::string& what)
{
    if (ok) return 1;
    if (what == "Measurement Gated") return 2;
    if (what == "Empty Measurement") return 3;
    return 0;
}
#include GLUE
int G::sd(int i) const
{
    if (!kStates[i].var) return kStates[i].d;
    int k = 0;
    for (int j = 0; j < i; ++j) k += kStates[j].var;
    return kStates[i].d * cnt[k];
}
int G::so(int i) const { int o = 0; for (int j = 0; j < i; ++j) o += sd(j); return o; }
int G::n() const { return so(kStates.size()); }
int G::uo(int i) const { int o = 0; for (int j = 0; j < i; ++j) o += kInputs[j].d; return o; }
int G::nu() const { return uo(kInputs.size()); }

struct Rd
{
    const drv::Cmd& c;
    size_t k;
    long long i() { return drv::num(c.at(k++)); }
    std::vector<double> v(size_t n, double scale = 1)
    {
        std::vector<double> o(n);
        for (auto& x : o) x = i() / scale;
        return o;
    }
};
static long long kPrime = 32749;
// integers modulo the prime of the segment; exact is cleared when a value is not (almost) an integer
struct Ints
{
    bool exact = true;
    double tol;
    explicit Ints(double t) : tol(t) {}
    long long operator()(double v)
    {
        if (!(std::abs(v) < 4e15)) { exact = false; return 0; }
        const double r = std::nearbyint(v);
        if (std::abs(v - r) > tol) exact = false;
        const long long k = (long long)r % kPrime;
        return k < 0 ? k + kPrime : k;
    }
    std::vector<long long> operator()(const M& m, double scale)
    {
        std::vector<long long> o;
        for (int i = 0; i < m.rows(); ++i)
            for (int j = 0; j < m.cols(); ++j) o.push_back((*this)(m(i, j) * scale));
        return o;
    }
    std::vector<long long> operator()(const std::vector<double>& m, double scale)
    {
        std::vector<long long> o;
        for (double x : m) o.push_back((*this)(x * scale));
        return o;
    }
};
static std::vector<long long> given(const std::vector<double>& v, double scale = 1)
{
    std::vector<long long> o;
    for (double x : v) o.push_back((long long)std::nearbyint(x * scale));
    return o;
}
static bool same(const M& a, const M& b) { return a.rows() == b.rows() && a.cols() == b.cols() && (a.array() == b.array()).all(); }
// up to rounding (the upper and the lower half of a block are computed separately)
static bool close(const M& a, const M& b)
{
    return a.rows() == b.rows() && a.cols() == b.cols() && (a.size() == 0 || (a - b).cwiseAbs().maxCoeff() <= 1e-9 * (1 + b.cwiseAbs().maxCoeff()));
}
static std::vector<long long> dims()
{
    std::vector<long long> o;
    for (size_t i = 0; i < kStates.size(); ++i) o.push_back(g.sd(i));
    return o;
}
static int baseSum() { int k = 0; for (auto& s : kStates) k += s.d; return k; }
// per-element initial or process variances, repeated for every element of a variable state
static std::vector<double> spread(const std::vector<double>& q)
{
    std::vector<double> o;
    int k = 0;
    for (size_t i = 0; i < kStates.size(); ++i)
    {
        for (int e = 0; e < g.sd(i); ++e) o.push_back(q[k + e % kStates[i].d]);
        k += kStates[i].d;
    }
    return o;
}
static double diffMax(const std::vector<double>& a, const std::vector<double>& b)
{
    if (a.size() != b.size()) return 1e9;
    double m = 0;
    for (size_t i = 0; i < a.size(); ++i)
    {
        const double d = std::abs(a[i] - b[i]);
        if (!(d <= m)) m = d != d ? 1e9 : d;
    }
    return m;
}

static void seg(const std::vector<drv::Cmd>& cmds)
{
    // kept over the commands: results overwrite what earlier ones left behind
    auto* out = new Snapshot;
    auto* in = new Snapshot;
    const UTCTime t0(1561988124, 0);
    for (const auto& c : cmds)
    {
        Rd rd{c, 1};
        g.jacs = g.resOk = true;
        if (c[0] == "new")
        {
            kPrime = rd.i();
            std::vector<long long> d, v;
            for (auto& s : kStates) { d.push_back(s.d); v.push_back(s.var); }
            drv::J("new").i("prime", kPrime).emit();
            continue;
        }
        g.cnt.clear();
        for (auto& s : kStates) if (s.var) g.cnt.push_back(rd.i());
        if (c[0] == "initial")
        {
            g.qx = rd.v(baseSum());
            g.qu = rd.v(g.nu());
            ProcessCovariance Q;
            setQ(Q);
            InputCovariance U;
            setQ(U);
            Covariance P(Q);
            Ints q(0);
            const auto cov = q(getCov(P), 1), dense = q(denseCov(P), 1), dqx = q(denseQx(Q), 1), dqu = q(denseQu(U), 1);
            drv::J("initial").i("n", g.n()).i("nu", g.nu()).a("qx", given(spread(g.qx))).a("qu", given(g.qu))
                .a("cov", cov).a("dense", dense).a("dqx", dqx).a("dqu", dqu).b("exact", q.exact).emit();
            continue;
        }
        const int n = g.n();
        if (c[0] == "predict")
        {
            const int h = rd.i();
            g.P = rd.v(n * n);
            g.A = rd.v(n * n);
            g.B = rd.v(n * g.nu());
            g.x = rd.v(n);
            g.f = rd.v(n, 16);
            g.u = rd.v(g.nu());
            g.qx = rd.v(baseSum());
            g.qu = rd.v(g.nu());
            ProcessCovariance Qx;
            setQ(Qx);
            InputCovariance Qu;
            setQ(Qu);
            setState(in->x);
            setCov(in->cov);
            in->x.t = t0;
            In u;
            setInput(u);
            const Error e = predict(*in, t0 + 0.5 * h, u, Qx, Qu, make_out(*out));
            Ints q(0), qs(1e-6);
            const auto delta = getDelta(out->x);
            const M cov = getCov(out->cov);
            const auto covI = q(cov, 64);
            const auto dx = qs(delta, 32);
            const auto inI = q(getInput(out->u), 1);
            drv::J("predict").i("n", n).i("nu", g.nu()).i("h", h).a("P", given(g.P)).a("A", given(g.A)).a("B", given(g.B))
                .a("f", given(g.f, 16)).a("u", given(g.u)).a("qx", given(spread(g.qx))).a("qu", given(g.qu))
                .b("ok", e.ok()).a("cov", covI).a("dx", dx).a("uout", inI)
                .b("exact", q.exact && qs.exact).i("dt_us", std::llround((out->x.t - t0).toSec() * 1e6))
                .b("dense", close(denseCov(out->cov), cov) && diffMax(denseInput(out->u), g.u) == 0)
                .b("minus", diffMax(genDelta(out->x, in->x), delta) < 1e-9)
                .b("jacs", g.jacs).b("kept", same(getCov(in->cov), blk(g.P, n, 0, 0, n, n))).emit();
        }
        else if (c[0] == "update")
        {
            const int k = rd.i();
            g.nz = rd.i();
            const int m = kMeas[k].d * g.nz;
            g.P = rd.v(n * n);
            g.H = rd.v(m * n);
            g.x = rd.v(n);
            g.r = rd.v(kMeas[k].d);
            g.res = rd.v(m, 64);
            const long long D = rd.i();
            const long long dis = rd.i(), prob = rd.i(), dof = rd.i();   // as declared
            std::vector<double> gm = rd.v(m), GM = rd.v(m * n);
            std::vector<double> rr;
            for (int e = 0; e < m; ++e) rr.push_back(g.r[e % kMeas[k].d]);
            setState(in->x);
            setCov(in->cov);
            in->x.t = t0;
            const int o = update(k, *in);
            Ints q(.25);
            const auto delta = getDelta(in->x);
            const M cov = getCov(in->cov);
            const bool untouched = same(cov, blk(g.P, n, 0, 0, n, n)) && diffMax(delta, std::vector<double>(n, 0.0)) == 0;
            const auto covI = q(cov, (double)D);
            const auto dx = q(delta, 64.0 * D);
            drv::J("update").s("meas", kMeas[k].name).i("m", m).i("n", n).i("D", prob < 100 ? D : D % kPrime).b("disabled", dis).i("prob", prob).i("dof", dof).a("P", given(g.P)).a("H", given(g.H))
                .a("r", given(rr)).a("res", given(g.res, 64)).a("g", given(gm)).a("G", given(GM))
                .i("outcome", o).a("cov", covI).a("dx", dx).b("exact", q.exact).b("untouched", untouched)
                .b("dense", close(denseCov(in->cov), cov)).b("jacs", g.jacs).b("res_ok", g.resOk)
                .b("time", in->x.t == t0).emit();
        }
    }
}
int main(int argc, char** argv) { return drv::run(argc, argv, seg); }
