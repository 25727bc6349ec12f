// C21: lookups in configuration files.
#include "drv.h"
#include "common/matrix_defs.h"
#include "utils/config.h"

using namespace mc;
using utils::Config;
static std::string unhex(const std::string& h)
{
    std::string o;
    for (size_t i = 1; i + 1 < h.size(); i += 2) o += (char)strtol(h.substr(i, 2).c_str(), nullptr, 16);
    return o;
}
static std::string text(const std::string& s)
{
    std::string o = "[";
    for (unsigned char c : s) o += (o.size() > 1 ? "," : "") + std::to_string((int)c);
    return o + "]";
}
// values as the specification writes them
static std::string out(int v) { return std::to_string(v); }
static std::string out(bool v) { return v ? "1" : "0"; }
static std::string out(double v) { return std::abs(v) < 2e6 ? std::to_string(std::llround(v * 1000)) : "2000000000"; }
static std::string out(const std::string& v) { return text(v); }
static std::string out(const Vec3& m) { return "[" + out(m(0)) + "," + out(m(1)) + "," + out(m(2)) + "]"; }
template <typename T> static std::string out(const std::vector<T>& v)
{
    std::string o = "[";
    for (size_t i = 0; i < v.size(); ++i) o += (i ? "," : "") + out(T(v[i]));
    return o + "]";
}
template <typename D> static std::string out(const Eigen::MatrixBase<D>& m)
{
    std::vector<double> v;
    for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) v.push_back(m(i, j));
    return out(v);
}

struct Run
{
    std::unique_ptr<Config> cfg;
    std::string dump;
    template <typename T> void get(const std::string& key, T& value, bool required, const bool& rest)
    {
        const std::string dflt = out(value);
        const bool found = cfg->get(key, make_out(value), required);
        fin(found, out(value), dflt, rest);
    }
    void fin(bool found, const std::string& v, const std::string& dflt, bool rest)
    {
        drv::J("got").b("found", found).raw("v", v).raw("dflt", dflt).b("rest", rest).b("same", YAML::Dump(cfg->yaml_) == dump).emit();
    }
    template <int R, int C> void mat(const std::string& key, bool required)
    {
        // the matrix stands in the middle of a bigger one
        Eigen::Matrix<double, R + 2, C + 2> big = Eigen::Matrix<double, R + 2, C + 2>::Constant(7.5);
        Eigen::Matrix<double, R, C> m;
        for (int i = 0; i < R * C; ++i) m(i / C, i % C) = i + 0.5;
        const bool whole = key.size() % 2;
        const std::string dflt = out(m);
        bool found;
        if (whole) found = cfg->get(key, make_out(m), required);
        else
        {
            big.template block<R, C>(1, 1) = m;
            found = cfg->get(key, make_out(big.template block<R, C>(1, 1)), required);
            m = big.template block<R, C>(1, 1);
            big.template block<R, C>(1, 1).setConstant(7.5);
        }
        fin(found, out(m), dflt, (big.array() == 7.5).all());
    }
};

static void seg(const std::vector<drv::Cmd>& cmds)
{
    using drv::num;
    Run r;
    for (const auto& c : cmds)
    {
        if (c[0] == "new")
        {
            const std::string yaml = unhex(c[2]);
            if (c[1] == "file")
            {
                const std::string name = "cfg_" + std::to_string(getpid()) + ".yaml";
                std::ofstream(name) << yaml;
                r.cfg.reset(new Config(name));
                unlink(name.c_str());
            }
            else r.cfg.reset(new Config(YAML::Load(yaml)));
            r.dump = YAML::Dump(r.cfg->yaml_);
            drv::J("new").raw("tree", unhex(c[3])).emit();
        }
        else if (c[0] == "get")
        {
            // get TYPE ROWS COLS REQUIRED KEY
            const std::string ty = c[1], key = unhex(c[5]);
            const int R = num(c[2]), C = num(c[3]);
            const bool req = num(c[4]);
            drv::J("ask").raw("key", text(key)).s("type", ty).i("rows", R).i("cols", C).b("required", req).emit();
            const bool yes = true;
            if (ty == "int") { int v = 4711; r.get(key, v, req, yes); }
            else if (ty == "dbl") { double v = 47.125; r.get(key, v, req, yes); }
            else if (ty == "bool") { bool v = key.size() % 3 == 0; r.get(key, v, req, yes); }
            else if (ty == "str") { std::string v = "by default"; r.get(key, v, req, yes); }
            else if (ty == "ints") { std::vector<int> v = {9, 8, 7, 6}; r.get(key, v, req, yes); }
            else if (ty == "dbls") { std::vector<double> v = {9.5, 8.25}; r.get(key, v, req, yes); }
            else if (ty == "strs") { std::vector<std::string> v = {"nine"}; r.get(key, v, req, yes); }
            else if (ty == "vecs") { std::vector<Vec3> v = {Vec3(1, 2, 3), Vec3(4, 5, 6.5)}; r.get(key, v, req, yes); }
            else if (ty == "mat")
            {
                if (R == 1 && C == 1) r.mat<1, 1>(key, req);
                else if (R == 2 && C == 1) r.mat<2, 1>(key, req);
                else if (R == 3 && C == 1) r.mat<3, 1>(key, req);
                else if (R == 6 && C == 1) r.mat<6, 1>(key, req);
                else if (R == 1 && C == 3) r.mat<1, 3>(key, req);
                else if (R == 2 && C == 2) r.mat<2, 2>(key, req);
                else if (R == 2 && C == 3) r.mat<2, 3>(key, req);
                else if (R == 3 && C == 3) r.mat<3, 3>(key, req);
                else if (R == 4 && C == 2) r.mat<4, 2>(key, req);
            }
        }
    }
}
int main(int argc, char** argv) { return drv::run(argc, argv, seg); }
