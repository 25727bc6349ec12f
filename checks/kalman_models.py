"""Filter model descriptions for C20, and the C++ glue that drives the code generated from them."""
import os
import re
import yaml as Y

MANIFOLD = {"DQuat": 6, "Quat": 3, "SO3": 3, "SE3": 6}
INC = {"DQuat": "common/math/dquat.h", "Quat": "common/math/quat.h", "SO3": "common/math/so3.h",
       "SE3": "common/math/se3.h"}


def camel(snake, cap=False):
    w = snake.split("_")
    o = w[0] + "".join(x.capitalize() for x in w[1:])
    return o[0].upper() + o[1:] if cap else o


def snake(c):
    return re.sub(r"(?<!^)(?=[A-Z])", "_", c).lower()


def edim(t):
    return MANIFOLD.get(t) or int(t[3:])


class S:
    """a state, an input or a measurement"""
    def __init__(self, name, kind):
        m = re.match(r"Var<(\w+),\s*(\d+)>", kind)
        self.name, self.kind = name, kind
        self.var = bool(m)
        self.base = m.group(1) if m else kind
        self.max = int(m.group(2)) if m else 1
        self.d = edim(self.base)
        self.man = self.base in MANIFOLD
        self.num = "num_" + snake(name)


class Model:
    def __init__(self, name, cfg):
        self.name, self.cfg = name, cfg
        st = [S(k, v) for k, v in cfg["state_composition"].items()]
        self.states = [s for s in st if not s.var] + [s for s in st if s.var]
        self.inputs = [S(k, v) for k, v in cfg["input"].items()]
        self.ix = {s.name: i for i, s in enumerate(self.states)}
        self.iu = {s.name: i for i, s in enumerate(self.inputs)}
        self.adecl = [(self.ix[r], self.ix[c]) for r, l in cfg["dynamics"].items() for c in l[0]]
        self.bdecl = [(self.ix[r], self.iu[c]) for r, l in cfg["dynamics"].items() for c in l[1]]
        self.meas = []
        for k, m in cfg["measurements"].items():
            s = S(k, m["type"])
            s.prob = m["gating_probability"]
            s.disabled = bool(m.get("disabled"))
            s.h = [self.ix[c] for c in m["states"]]
            s.meta = "metadata" in m
            self.meas.append(s)
        self.ns = "::".join(cfg["namespaces"])

    def dims(self, counts):
        """dimension of every state when the variable ones have the given numbers of elements"""
        c = iter(counts)
        return [s.d * next(c) if s.var else s.d for s in self.states]

    def yaml(self):
        return Y.safe_dump(self.cfg, sort_keys=False, default_flow_style=None, width=10000)

    def glue(self, incdir):
        o = []
        w = o.append
        stem = snake(camel(self.name, True))
        w('#include "%s/%s.h"' % (incdir, stem))
        w("using namespace %s;" % self.ns)
        w("typedef %s St; typedef %s Er; typedef %s In;" % (self.cfg["state_name"], self.cfg["error_state_name"], self.cfg["input_name"]))
        vs = [s for s in self.states if s.var]
        vn = {s.name: "g.cnt[%d]" % i for i, s in enumerate(vs)}

        def d(s):
            return "%d*%s" % (s.d, vn[s.name]) if s.var else str(s.d)

        def args(ss, mx=False, z=None):
            seen = []
            for s in ss:
                if s.var:
                    a = str(s.max) if mx else (z if s.name not in vn else vn[s.name])
                    if s.name not in [x[0] for x in seen]:
                        seen.append((s.name, a))
            return ", ".join(a for _, a in seen)
        w("static const std::vector<Dim> kStates = {%s};" % ", ".join(
            '{"%s", %d, %d, %d, %d}' % (s.name, s.d, int(s.var), s.max, int(s.man)) for s in self.states))
        w("static const std::vector<Dim> kInputs = {%s};" % ", ".join(
            '{"%s", %d, 0, 1, 0}' % (s.name, s.d) for s in self.inputs))
        w("static const std::vector<Dim> kMeas = {%s};" % ", ".join(
            '{"%s", %d, %d, %d, 0}' % (s.name, s.d, int(s.var), s.max) for s in self.meas))
        allv = ", ".join(vn[s.name] for s in vs)
        # state
        w("static void setState(St& x) {")
        for i, s in enumerate(vs):
            w("  x.%s = %s;" % (s.num, vn[s.name]))
        for i, s in enumerate(self.states):
            n = ("[k]", s.max) if s.var else ("", 1)
            w("  for (int k = 0; k < %d; ++k) {" % n[1])
            if s.man:
                w("    x.%s%s = math::%s<double>::Identity();" % (s.name, n[0], s.base))
            else:
                w("    if (k * %d >= g.sd(%d)) x.%s%s.setConstant(-321); else" % (s.d, i, s.name, n[0]))
                w("    for (int e = 0; e < %d; ++e) x.%s%s(e) = g.x[g.so(%d) + k * %d + e];" % (s.d, s.name, n[0], i, s.d))
            w("  }")
        w("}")
        # state after, relative to the state set
        w("static std::vector<double> getDelta(const St& x) {")
        w("  std::vector<double> o(g.n());")
        for i, s in enumerate(self.states):
            n = ("[k]", vn[s.name]) if s.var else ("", "1")
            w("  for (int k = 0; k < %s; ++k) for (int e = 0; e < %d; ++e)" % (n[1], s.d))
            v = "x.%s%s.log()(e)" % (s.name, n[0]) if s.man else "x.%s%s(e) - g.x[g.so(%d) + k * %d + e]" % (s.name, n[0], i, s.d)
            w("    o[g.so(%d) + k * %d + e] = %s;" % (i, s.d, v))
        for s in vs:
            w("  if ((int)x.%s != %s) o.clear();" % (s.num, vn[s.name]))
        w("  return o; }")
        # state difference as the generated code gives it
        w("static std::vector<double> genDelta(const St& a, const St& b) { const auto v = (a - b).dense(%s); return std::vector<double>(v.data(), v.data() + v.size()); }" % allv)
        # covariance
        w("static void setCov(Covariance& P) {")
        for i, a in enumerate(self.states):
            for j, b in enumerate(self.states):
                if j < i:
                    continue
                nm = camel(a.name) + "_" + camel(b.name)
                if a.var or b.var:
                    w("  P.%s(%s).setConstant(12345.0);" % (nm, args([a, b], True)))
                    w("  P.%s(%s) = blk(g.P, g.n(), g.so(%d), g.so(%d), %s, %s);" % (nm, args([a, b]), i, j, d(a), d(b)))
                else:
                    w("  P.%s = blk(g.P, g.n(), g.so(%d), g.so(%d), %s, %s);" % (nm, i, j, d(a), d(b)))
        w("}")
        w("static M getCov(const Covariance& P) { M o = M::Zero(g.n(), g.n());")
        for i, a in enumerate(self.states):
            for j, b in enumerate(self.states):
                if j < i:
                    continue
                nm = camel(a.name) + "_" + camel(b.name)
                get = "P.%s(%s)" % (nm, args([a, b])) if a.var or b.var else "P.%s" % nm
                w("  o.block(g.so(%d), g.so(%d), %s, %s) = %s;" % (i, j, d(a), d(b), get))
                if i != j:
                    w("  o.block(g.so(%d), g.so(%d), %s, %s) = %s.transpose();" % (j, i, d(b), d(a), get))
        w("  return o; }")
        w("static M denseCov(const Covariance& P) { return P.dense(%s); }" % allv)
        for cls, ss, g in (("ProcessCovariance", self.states, "qx"), ("InputCovariance", self.inputs, "qu")):
            w("static void setQ(%s& Q) {" % cls)
            k = 0
            for s in ss:
                w("  for (int e = 0; e < %d; ++e) Q.%s(e) = g.%s[%d + e];" % (s.d, camel(s.name), g, k))
                k += s.d
            w("}")
        w("static M denseQx(const ProcessCovariance& Q) { return Q.dense(%s); }" % allv)
        w("static M denseQu(const InputCovariance& Q) { return Q.dense(); }")
        # input
        w("static void setInput(In& u) {")
        k = 0
        for s in self.inputs:
            w("  for (int e = 0; e < %d; ++e) u.%s(e) = g.u[%d + e];" % (s.d, s.name, k))
            k += s.d
        w("}")
        w("static std::vector<double> getInput(const In& u) { std::vector<double> o;")
        for s in self.inputs:
            w("  for (int e = 0; e < %d; ++e) o.push_back(u.%s(e));" % (s.d, s.name))
        w("  return o; }")
        w("static std::vector<double> denseInput(const In& u) { const auto v = u.dense(); return std::vector<double>(v.data(), v.data() + v.size()); }")
        # dynamics
        w("namespace %s {" % " { namespace ".join(self.cfg["namespaces"]))
        w("%s dynamics(const %s& x, const %s& u, StateJac* dxdx, InputJac* dxdu) {" % (self.cfg["error_state_name"], self.cfg["state_name"], self.cfg["input_name"]))
        for mem, decl, cols, g, nc, coff in (("dxdx", self.adecl, self.states, "A", "g.n()", "g.so(%d)"), ("dxdu", self.bdecl, self.inputs, "B", "g.nu()", "g.uo(%d)")):
            for i, j in decl:
                a, b = self.states[i], cols[j]
                nm = "d%s_d%s" % (camel(a.name, True), camel(b.name, True))
                if a.var or b.var:
                    w("  %s->%s(%s).setConstant(777.0);" % (mem, nm, args([a, b], True)))
                    w("  %s->%s(%s) = blk(g.%s, %s, g.so(%d), %s, %s, %s);" % (mem, nm, args([a, b]), g, nc, i, coff % j, d(a), d(b) if cols is self.states else b.d))
                else:
                    w("  %s->%s = blk(g.%s, %s, g.so(%d), %s, %d, %d);" % (mem, nm, g, nc, i, coff % j, a.d, b.d))
        w("  g.jacs &= (dxdx->dense(%s) - blk(g.A, g.n(), 0, 0, g.n(), g.n())).cwiseAbs().sum() == 0;" % allv)
        w("  g.jacs &= (dxdu->dense(%s) - blk(g.B, g.nu(), 0, 0, g.n(), g.nu())).cwiseAbs().sum() == 0;" % allv)
        w("  %s f;" % self.cfg["error_state_name"])
        for i, s in enumerate(self.states):
            if s.var:
                w("  f.%s_vec(%d).setConstant(-55);" % (s.name, s.max))
            n = ("(k)", vn[s.name]) if s.var else ("", "1")
            w("  for (int k = 0; k < %s; ++k) for (int e = 0; e < %d; ++e) f.%s%s(e) = g.f[g.so(%d) + k * %d + e];" % (n[1], s.d, s.name, n[0], i, s.d))
        w("  return f; }")
        w("}" * len(self.cfg["namespaces"]))
        # measurements
        for k, m in enumerate(self.meas):
            T = camel(m.name) + "Meas"
            w("static void fill(%s::Jac* J) { const int nz = g.nz;" % T)
            for j in m.h:
                b = self.states[j]
                nm = "d" + camel(b.name, True)
                dm = "%d*nz" % m.d if m.var else str(m.d)
                if m.var or b.var:
                    suf = "_all" if m.var else ""
                    mx = ", ".join([str(m.max)] * m.var + [str(b.max)] * b.var)
                    ac = ", ".join(["nz"] * m.var + [vn.get(b.name)] * b.var)
                    w("  J->%s%s(%s).setConstant(888.0);" % (nm, suf, mx))
                    if m.var:
                        ac1 = "k" + (", " + vn[b.name] if b.var else "")
                        w("  for (int k = 0; k < nz; ++k) J->%s(%s) = blk(g.H, g.n(), k * %d, g.so(%d), %d, %s);" % (nm, ac1, m.d, j, m.d, d(b)))
                    else:
                        w("  J->%s(%s) = blk(g.H, g.n(), 0, g.so(%d), %s, %s);" % (nm, ac, j, dm, d(b)))
                else:
                    w("  J->%s = blk(g.H, g.n(), 0, g.so(%d), %d, %d);" % (nm, j, m.d, b.d))
            da = ", ".join((["nz"] if m.var else []) + [vn[s.name] for s in vs])
            w("  g.jacs &= (J->dense(%s) - blk(g.H, g.n(), 0, 0, g.H.size() / g.n(), g.n())).cwiseAbs().sum() == 0;" % da)
            w("}")
            w("static %s::Residual resOf%d() { %s::Residual r = %s::Residual::Constant(99.0); for (size_t e = 0; e < g.res.size(); ++e) r(e) = g.res[e]; return r; }" % (T, k, T, T))
            if not m.meta:
                w("namespace %s {" % " { namespace ".join(self.cfg["namespaces"]))
                w("template<> %s::Residual h<%s>(const %s::ZType&, const %s&, %s::Jac* J) { fill(J); return resOf%d(); }" % (T, T, T, self.cfg["state_name"], T, k))
                w("}" * len(self.cfg["namespaces"]))
            w("static int update%d(Snapshot& s) {" % k)
            w("  %s::Covariance R; for (int e = 0; e < %d; ++e) R(e) = g.r[e];" % (T, m.d))
            if m.meta:
                # the update itself looks at nothing in the measurement but the number of its elements
                e = T + ("::Data" if m.var else "::ZType")
                w("  alignas(64) static char zero[sizeof(%s)] = {}; const %s& e0 = *reinterpret_cast<const %s*>(zero);" % (e, e, e))
                w("  const std::vector<%s> z(g.nz, e0);" % e if m.var else "  const %s& z = e0;" % e)
                w("  %s::Jac J; fill(&J);" % T)
                w("  const Error e = doUpdate<%s>(make_out(s), z, J, R, resOf%d());" % (T, k))
                w("  return outcome(e.ok(), e.ok() ? std::string() : std::string(e.what()));")
            else:
                zval = "math::%s<double>::Identity()" % m.base if m.man else "%s::Zero()" % m.base
                if m.var:
                    w("  %s::ZType z(g.nz, %s);" % (T, zval))
                else:
                    w("  %s::ZType z = %s;" % (T, zval))
                w("  const auto e = update<%s>(make_out(s), z, R);" % T)
                w("  if (e.ok()) g.resOk = (e.res() - resOf%d()).cwiseAbs().sum() == 0;" % k)
                w("  return outcome(e.ok(), e.ok() ? std::string() : std::string(e.err().what()));")
            w("}")
        w("static int update(int k, Snapshot& s) { switch (k) {")
        for k in range(len(self.meas)):
            w("  case %d: return update%d(s);" % (k, k))
        w("  } return -1; }")
        return "\n".join(o) + "\n"
