// Integer ambiguity resolution.
//   lambda K JSON A.. Q..   JSON: what the specification needs to know about the problem (no spaces);
//                           A: n numbers, Q: n*n numbers, as hexadecimal floats; then n shifts and the
//                           factor from squared norms to costs
#include "drv.h"
#include "core/solver/lambda.h"
#include <Eigen/LU>
using namespace mc::core::solver;
static void run(const std::vector<drv::Cmd>& seg)
{
    for (const auto& c : seg)
    {
        if (c[0] == "new") { drv::J("new").emit(); continue; }
        const int k = drv::num(c[1]), n = drv::num(c[2]);
        size_t at = 4;
        auto next = [&]() { return strtod(c[at++].c_str(), nullptr); };
        Eigen::VectorXd a(n), shift(n), fixed(n);
        Eigen::MatrixXd Q(n, n);
        for (int i = 0; i < n; ++i) a(i) = next();
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) Q(i, j) = next();
        for (int i = 0; i < n; ++i) shift(i) = next();
        const double scale = next();
        double ratio = -1;
        fixed.setConstant(-777777);
        lambda(a, Q, fixed, mc::Out(ratio), k);
        auto ints = [&](const Eigen::VectorXd& v) {
            std::vector<long long> o;
            for (int i = 0; i < n; ++i)
            {
                const double x = v(i);
                // what is not an integer, or far away, cannot be a best vector
                o.push_back(x == std::floor(x) && std::abs(x) < 1e6 ? (long long)x : 1000003);
            }
            return o;
        };
        auto clip = [](double x) { return std::isfinite(x) && std::abs(x) < 1e9 ? (long long)std::llround(x) : -999999999LL; };
        drv::J j("lambda");
        j.i("k", k).i("n", n).raw("problem", c[3]);
        j.a("fixed", ints(fixed - shift)).i("ratio", clip(ratio * 4096));
        // the candidates of the search, in the original coordinates (moderate problems only)
        Eigen::VectorXd z(n), D(n), norms(k);
        Eigen::MatrixXd L(n, n), Z(n, n), cands(n, k);
        reduction(Q, a - shift, z, L, D, Z);
        search(z, L, D, k, cands, norms);
        const Eigen::MatrixXd back = Z.inverse().array().round().matrix().transpose();
        std::string s = "[";
        for (int i = 0; i < k; ++i)
        {
            const auto v = ints(back * cands.col(i));
            s += i ? ",[" : "[";
            for (int q = 0; q < n; ++q) s += (q ? "," : "") + std::to_string(v[q]);
            s += "]";
        }
        std::vector<long long> ns;
        for (int i = 0; i < k; ++i) ns.push_back(clip(norms(i) * scale));
        j.b("searched", true).raw("cands", s + "]").a("norms", ns);
        j.emit();
    }
}
int main(int argc, char** argv) { return drv::run(argc, argv, run); }
