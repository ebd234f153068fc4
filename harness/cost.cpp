// Simulation of cost functions and constraint containers as solvers use them: several users (threads) each run a long
// history of operations - setting the point, shifting time, moving references, adding terms and constraints, changing
// weights, cloning, numerical derivative tests, failing terms and allocations - on objects cloned from a shared
// prototype. Every value, derivative, bound and pattern is compared with a model of the object made of plain formulas.
#include "common.h"
#include <thread>

using namespace h;
using namespace ct::optcon;

namespace {

const int N = 3, M = 2;
typedef ct::core::StateVector<N> X;
typedef ct::core::ControlVector<M> U;
typedef Eigen::Matrix<double, N, N> XX;
typedef Eigen::Matrix<double, M, M> UU;
typedef Eigen::Matrix<double, M, N> UX;
typedef Eigen::VectorXd VX;
typedef Eigen::MatrixXd MX;
typedef TermBase<N, M> Term;
typedef std::shared_ptr<Term> TermPtr;
typedef CostFunctionAnalytical<N, M> Cost;

bool near(double a, double b, double tol = 1e-10)
{
    if (std::isnan(a) || std::isnan(b))
        return std::isnan(a) && std::isnan(b);
    if (a == b)
        return true;
    return std::fabs(a - b) <= tol * (1 + std::fabs(a) + std::fabs(b));
}
template <class A, class B>
bool nearM(const A& a, const B& b)
{
    if (a.rows() != b.rows() || a.cols() != b.cols())
        return false;
    for (int i = 0; i < a.rows(); i++)
        for (int j = 0; j < a.cols(); j++)
            if (!near(a(i, j), b(i, j)))
                return false;
    return true;
}
template <class A>
std::string str(const A& a)
{
    std::string s = "[";
    for (int i = 0; i < a.rows(); i++)
        for (int j = 0; j < a.cols(); j++)
        {
            char b[40];
            snprintf(b, sizeof b, "%s%.9g", i || j ? (j ? "," : ";") : "", a(i, j));
            s += b;
        }
    return s + "]";
}

struct Op
{
    int kind, a, n;
    double v[8];
    bool alloc;
};
std::vector<Op> drawOps(int lo, int hi, int kinds, int allocPercent)
{
    std::vector<Op> r((size_t)sim::P("n_ops", lo, hi));
    for (auto& o : r)
    {
        o.kind = (int)sim::P("op", 0, kinds - 1);
        int64_t x = sim::P("op.x", 0, 143), v = sim::P("op.v", 0, 33 * 33 * 33 * 33 - 1), w = sim::P("op.w", 0, 33 * 33 * 33 * 33 - 1);
        o.a = (int)(x % 12);
        o.n = (int)(x / 12);
        for (int i = 0; i < 8; i++)
        {
            int64_t& q = i < 4 ? v : w;
            o.v[i] = 0.125 * (double)(q % 33 - 16);
            q /= 33;
        }
        o.alloc = allocPercent && sim::PB("op.alloc", allocPercent);
    }
    return r;
}
X vx(const Op& o, int i = 0)
{
    X x;
    x << o.v[i % 8], o.v[(i + 1) % 8], o.v[(i + 2) % 8];
    return x;
}
U vu(const Op& o, int i = 3)
{
    U u;
    u << o.v[i % 8], o.v[(i + 1) % 8];
    return u;
}
XX vxx(const Op& o)
{
    XX q;
    for (int i = 0; i < N; i++)
        for (int j = 0; j < N; j++)
            q(i, j) = i == j ? 1 + o.v[i] : 0.25 * o.v[(2 * i + 3 * j) % 8];
    return q;
}
UU vuu(const Op& o)
{
    UU r;
    r << 1 + o.v[5], 0.25 * o.v[6], -0.5 * o.v[7], 0.5 + o.v[4];
    return r;
}
UX vp(const Op& o)
{
    UX p;
    p << o.v[1], o.v[2], o.v[3], o.v[4], o.v[5], o.v[6];
    return p;
}

template <class F>
bool failedAlloc(const Op& o, const char* what, F f)
{
    if (!o.alloc)
    {
        f();
        return false;
    }
    uint64_t before = sim::faults_fired("alloc_fail");
    sim::enable_fault("alloc_fail", 0.3);
    bool bad = false;
    try
    {
        f();
    } catch (std::bad_alloc&)
    {
        bad = true;
    } catch (...)
    {
        sim::enable_fault("alloc_fail", 0);
        throw;
    }
    sim::enable_fault("alloc_fail", 0);
    if (bad)
    {
        SIM_CHECK(sim::faults_fired("alloc_fail") != before, "spurious-failure", "%s reports missing memory though there was enough", what);
        sim::probe("alloc_failed");
    }
    return bad;
}

// what happened inside the user's own term or constraint
struct Record
{
    struct Pt
    {
        X x;
        U u;
        double t;
    };
    std::vector<Pt> pts;
    bool on = false;
    int threw = 0;
    int fail_in = 0;  // the n-th call from now fails
    void call(const X& x, const U& u, double t)
    {
        if (on)
            pts.push_back({x, u, t});
        sim::yield();
        if (fail_in > 0 && --fail_in == 0)
        {
            threw++;
            throw UserError("injected failure of a term");
        }
    }
};

// ------------------------------------------------------------------------------------------------- cost terms
// w (1 + sin 3t) (x0 - c)^2 + p u0 u1 + r x2 u1
class OwnTerm : public Term
{
public:
    EIGEN_MAKE_ALIGNED_OPERATOR_NEW
    double w, c, p, r;
    std::shared_ptr<Record> rec;
    OwnTerm(double w_, double c_, double p_, double r_) : Term("own"), w(w_), c(c_), p(p_), r(r_), rec(new Record) {}
    OwnTerm(const OwnTerm& o) : Term(o), w(o.w), c(o.c), p(o.p), r(o.r), rec(o.rec) {}
    OwnTerm* clone() const override { return new OwnTerm(*this); }
    double evaluate(const Eigen::Matrix<double, N, 1>& x, const Eigen::Matrix<double, M, 1>& u, const double& t) override
    {
        tmp_ = w * (1 + std::sin(3 * t));
        rec->call(X(x), U(u), t);
        return tmp_ * (x(0) - c) * (x(0) - c) + p * u(0) * u(1) + r * x(2) * u(1);
    }
    X stateDerivative(const X& x, const U& u, const double& t) override
    {
        tmp_ = 2 * w * (1 + std::sin(3 * t));
        rec->call(x, u, t);
        X d;
        d << tmp_ * (x(0) - c), 0, r * u(1);
        return d;
    }
    XX stateSecondDerivative(const X& x, const U& u, const double& t) override
    {
        rec->call(x, u, t);
        XX d = XX::Zero();
        d(0, 0) = 2 * w * (1 + std::sin(3 * t));
        return d;
    }
    U controlDerivative(const X& x, const U& u, const double& t) override
    {
        rec->call(x, u, t);
        U d;
        d << p * u(1), p * u(0) + r * x(2);
        return d;
    }
    UU controlSecondDerivative(const X& x, const U& u, const double& t) override
    {
        rec->call(x, u, t);
        UU d;
        d << 0, p, p, 0;
        return d;
    }
    UX stateControlDerivative(const X& x, const U& u, const double& t) override
    {
        rec->call(x, u, t);
        UX d = UX::Zero();
        d(1, 2) = r;
        return d;
    }

private:
    double tmp_ = 0;
};

struct Full  // value and derivatives
{
    double l = 0;
    X lx = X::Zero();
    U lu = U::Zero();
    XX lxx = XX::Zero();
    UU luu = UU::Zero();
    UX lux = UX::Zero();
    void add(const Full& f, double s)
    {
        l += s * f.l;
        lx += s * f.lx;
        lu += s * f.lu;
        lxx += s * f.lxx;
        luu += s * f.luu;
        lux += s * f.lux;
    }
};
enum Kind
{
    QUAD,
    QUADMULT,
    LINEAR,
    MIXED,
    SMOOTHABS,
    TRACKING,
    OWN,
    N_KINDS
};
struct RTerm
{
    int kind = QUAD;
    std::string name;
    XX Q = XX::Zero();
    UU R = UU::Zero();
    UX P = UX::Zero();
    X xr = X::Zero(), a = X::Zero();
    U ur = U::Zero(), b = U::Zero();
    double c = 0, alpha2 = 1, w = 0, p = 0, r = 0;
    std::vector<double> tt, tut;
    bool linX = false, linU = false;
    std::vector<X, Eigen::aligned_allocator<X>> tx;
    std::vector<U, Eigen::aligned_allocator<U>> tu;
    bool trackU = false;
    int act = 0;  // 0 always, 1 single, 2 linear
    double on = 0, off = 0, slope = 0;
    bool active(double t) const { return act == 0 || (t >= on && t < off); }
    double activation(double t) const { return act == 2 ? 0.5 + slope * (t - on) : 1.0; }
    void refX(const X& x)
    {
        if (kind == QUAD || kind == QUADMULT || kind == MIXED || kind == SMOOTHABS)
            xr = x;
    }
    void refU(const U& u)
    {
        if (kind == QUAD || kind == QUADMULT || kind == MIXED || kind == SMOOTHABS)
            ur = u;
    }
    template <class V>
    static typename V::value_type interpolate(const std::vector<double>& tt, const V& v, bool lin, double t)
    {
        size_t i = 0;
        while (i + 1 < tt.size() && tt[i + 1] <= t)
            i++;
        if (!lin || t <= tt[0] || i + 1 == tt.size())
            return v[i];
        double f = (t - tt[i]) / (tt[i + 1] - tt[i]);
        return (1 - f) * v[i] + f * v[i + 1];
    }
    Full at(const X& x, const U& u, double t) const
    {
        Full f;
        X d = x - xr;
        U e = u - ur;
        if (kind == TRACKING)
        {
            d = x - interpolate(tt, tx, linX, t);
            e = trackU ? U(u - interpolate(tut, tu, linU, t)) : u;
        }
        switch (kind)
        {
            case QUAD:
            case TRACKING:
                f.l = d.dot(Q * d) + e.dot(R * e);
                f.lx = (Q + Q.transpose()) * d;
                f.lu = (R + R.transpose()) * e;
                f.lxx = Q + Q.transpose();
                f.luu = R + R.transpose();
                break;
            case QUADMULT:
            {
                double q = d.dot(Q * d), s = e.dot(R * e);
                X gx = (Q + Q.transpose()) * d;
                U gu = (R + R.transpose()) * e;
                f.l = q * s;
                f.lx = gx * s;
                f.lu = gu * q;
                f.lxx = (Q + Q.transpose()) * s;
                f.luu = (R + R.transpose()) * q;
                f.lux = gu * gx.transpose();
                break;
            }
            case LINEAR:
                f.l = a.dot(x) + b.dot(u) + c;
                f.lx = a;
                f.lu = b;
                break;
            case MIXED:
                f.l = e.dot(P * d);
                f.lx = P.transpose() * e;
                f.lu = P * d;
                f.lux = P;
                break;
            case SMOOTHABS:
                for (int i = 0; i < N; i++)
                {
                    double s = std::sqrt(d(i) * d(i) + alpha2);
                    f.l += a(i) * s;
                    f.lx(i) = a(i) * d(i) / s;
                    f.lxx(i, i) = a(i) * alpha2 / (s * s * s);
                }
                for (int i = 0; i < M; i++)
                {
                    double s = std::sqrt(e(i) * e(i) + alpha2);
                    f.l += b(i) * s;
                    f.lu(i) = b(i) * e(i) / s;
                    f.luu(i, i) = b(i) * alpha2 / (s * s * s);
                }
                break;
            case OWN:
            {
                double k = w * (1 + std::sin(3 * t));
                f.l = k * (x(0) - c) * (x(0) - c) + p * u(0) * u(1) + r * x(2) * u(1);
                f.lx << 2 * k * (x(0) - c), 0, r * u(1);
                f.lu << p * u(1), p * u(0) + r * x(2);
                f.lxx(0, 0) = 2 * k;
                f.luu << 0, p, p, 0;
                f.lux(1, 2) = r;
                break;
            }
        }
        return f;
    }
};

// the reference of a tracking term: state and control each on a grid of their own
void track(TermQuadTracking<N, M>& q, RTerm& r, const Op& o)
{
    r.tt.clear();
    r.tut.clear();
    r.tx.clear();
    r.tu.clear();
    r.linX = (o.n / 2) % 2;
    r.linU = (o.n / 3) % 2;
    ct::core::StateTrajectory<N> xt;
    ct::core::ControlTrajectory<M> ut;
    xt.setInterpolationType(r.linX ? ct::core::LIN : ct::core::ZOH);
    ut.setInterpolationType(r.linU ? ct::core::LIN : ct::core::ZOH);
    int nx = 2 + (o.a + o.n) % 3, nu = 2 + o.n % 4;
    for (int i = 0; i < nx; i++)
    {
        r.tt.push_back(-0.5 + 0.75 * i);
        r.tx.push_back(vx(o, i));
        xt.push_back(r.tx.back(), r.tt.back(), true);
    }
    for (int i = 0; i < nu; i++)
    {
        r.tut.push_back(-0.4 + (o.a % 2 ? 0.75 : 0.4) * i);
        r.tu.push_back(vu(o, i + 2));
        ut.push_back(r.tu.back(), r.tut.back(), true);
    }
    q.setStateAndControlReference(xt, ut);
}

// the toolbox's term and its model
TermPtr makeTerm(int kind, const Op& o, RTerm& r)
{
    r = RTerm();
    r.kind = kind;
    TermPtr t;
    switch (kind)
    {
        case QUAD:
            r.Q = vxx(o);
            r.R = vuu(o);
            if (o.n % 2)
            {
                r.xr = vx(o, 2);
                r.ur = vu(o, 5);
                t.reset(new TermQuadratic<N, M>(r.Q, r.R, r.xr, r.ur));
            }
            else
                t.reset(new TermQuadratic<N, M>(r.Q, r.R));
            break;
        case QUADMULT:
            r.Q = vxx(o);
            r.R = vuu(o);
            if (o.n % 2)
            {
                r.xr = vx(o, 2);
                r.ur = vu(o, 5);
                t.reset(new TermQuadMult<N, M>(r.Q, r.R, r.xr, r.ur));
            }
            else
                t.reset(new TermQuadMult<N, M>(r.Q, r.R));
            break;
        case LINEAR:
            r.a = vx(o);
            r.b = vu(o);
            r.c = o.v[6];
            t.reset(new TermLinear<N, M>(r.a, r.b, r.c));
            break;
        case MIXED:
            r.P = vp(o);
            if (o.n % 2)
            {
                r.xr = vx(o, 2);
                r.ur = vu(o, 5);
                t.reset(new TermMixed<N, M>(r.P, r.xr, r.ur));
            }
            else
                t.reset(new TermMixed<N, M>(r.P));
            break;
        case SMOOTHABS:
        {
            r.a = vx(o);
            r.b = vu(o);
            r.xr = vx(o, 2);
            r.ur = vu(o, 5);
            double al = 0.25 * (1 + o.n % 5);
            r.alpha2 = al * al;
            t.reset(new TermSmoothAbs<N, M>(r.a, r.xr, r.b, r.ur, al));
            break;
        }
        case TRACKING:
        {
            r.Q = vxx(o);
            r.R = vuu(o);
            r.trackU = o.n % 2;
            auto* q = new TermQuadTracking<N, M>(r.Q, r.R, ct::core::ZOH, ct::core::ZOH, r.trackU);
            t.reset(q);
            track(*q, r, o);
            break;
        }
        case OWN:
            r.w = o.v[0];
            r.c = o.v[1];
            r.p = o.v[2];
            r.r = o.v[3];
            t.reset(new OwnTerm(r.w, r.c, r.p, r.r));
            break;
    }
    if (o.a % 3)
    {
        r.on = o.v[7];
        r.off = r.on + std::fabs(o.v[6]);
        if (o.a % 3 == 1)
        {
            r.act = 1;
            t->setTimeActivation(std::shared_ptr<ct::core::ActivationBase>(new ct::core::SingleActivation(r.on, r.off)));
        }
        else
        {
            r.act = 2;
            r.slope = o.v[5];
            t->setTimeActivation(std::shared_ptr<ct::core::ActivationBase>(new ct::core::LinearActivation(r.on, r.off, r.slope, 0.5)));
        }
    }
    return t;
}

struct RCost
{
    std::vector<RTerm, Eigen::aligned_allocator<RTerm>> inter, fin;
    X x = X::Zero();
    U u = U::Zero();
    double t = 0, shift = 0;
    bool fresh = true;  // the point was set after the last change of the shift
    Full at(bool terminal) const
    {
        Full s;
        for (const RTerm& r : terminal ? fin : inter)
        {
            if (terminal)
                s.add(r.at(x, u, t), 1);
            else if (r.active(t))
                s.add(r.at(x, u, t), r.activation(t));
        }
        return s;
    }
};

// one query of the cost function: the answer is right, or the failure of a term came through
template <class F>
bool asked(Record& rec, const char* what, F f)
{
    int before = rec.threw;
    bool thrown = false;
    try
    {
        f();
    } catch (UserError&)
    {
        thrown = true;
    }
    SIM_CHECK(thrown == (rec.threw != before), "failure-lost", "%s: a term %s", what, thrown ? "did not fail, but the call did" : "failed, but the call returned");
    sim::probe_if(thrown, "failed_call");
    rec.fail_in = 0;
    return !thrown;
}

template <class C>
void query(C& c, const RCost& m, Record& rec, bool terminal, int what)
{
    Full w = m.at(terminal);
    const char* ph = terminal ? "terminal" : "intermediate";
    auto where = [&] {
        char b[300];
        snprintf(b, sizeof b, "at x=%s u=%s t=%.9g with %zu %s terms", str(m.x).c_str(), str(m.u).c_str(), m.t, (terminal ? m.fin : m.inter).size(), ph);
        return std::string(b);
    };
    auto deriv = [&](const char* name, auto call, const auto& want) {
        auto got = want;
        bool refused = false;
        if (!asked(rec, name, [&] {
                try
                {
                    got = call();
                } catch (UserError&)
                {
                    throw;
                } catch (std::runtime_error&)
                {
                    refused = true;
                }
            }))
            return;
        SIM_CHECK(!refused, "cost-derivative", "%s of the %s cost is refused", name, ph);
        if (!refused)
            SIM_CHECK(nearM(got, want), "cost-derivative", "%s of the %s cost is %s, the terms give %s; %s", name, ph, str(got).c_str(), str(want).c_str(), where().c_str());
    };
    switch (what)
    {
        case 0:
        {
            double v = 0;
            if (!asked(rec, "evaluate", [&] { v = terminal ? c.evaluateTerminal() : c.evaluateIntermediate(); }))
                return;
            SIM_CHECK(near(v, w.l), "cost-value", "the %s cost is %.12g, the terms give %.12g; %s", ph, v, w.l, where().c_str());
            sim::probe_if(m.t != 0, "evaluated");
            break;
        }
        case 1: deriv("state derivative", [&]() -> X { return terminal ? c.stateDerivativeTerminal() : c.stateDerivativeIntermediate(); }, w.lx); break;
        case 2: deriv("second state derivative", [&]() -> XX { return terminal ? c.stateSecondDerivativeTerminal() : c.stateSecondDerivativeIntermediate(); }, w.lxx); break;
        case 3: deriv("control derivative", [&]() -> U { return terminal ? c.controlDerivativeTerminal() : c.controlDerivativeIntermediate(); }, w.lu); break;
        case 4: deriv("second control derivative", [&]() -> UU { return terminal ? c.controlSecondDerivativeTerminal() : c.controlSecondDerivativeIntermediate(); }, w.luu); break;
        default: deriv("mixed derivative", [&]() -> UX { return terminal ? c.stateControlDerivativeTerminal() : c.stateControlDerivativeIntermediate(); }, w.lux); break;
    }
}
template <class C>
void point(C& c, const X& mx, const U& mu, double mt, const char* after)
{
    Eigen::Matrix<double, N, 1> x;
    Eigen::Matrix<double, M, 1> u;
    double t = -77;
    c.getCurrentStateAndControl(x, u, t);
    SIM_CHECK(nearM(x, mx) && nearM(u, mu) && near(t, mt), "cost-point", "%s the current point is x=%s u=%s t=%.9g instead of x=%s u=%s t=%.9g", after, str(x).c_str(),
        str(u).c_str(), t, str(mx).c_str(), str(mu).c_str(), mt);
}
// numerical derivatives must be taken at the current point and leave it alone
template <class C>
void numDiff(C& c, const X& x, const U& u, double t, Record& rec, bool state, bool recorded)
{
    rec.pts.clear();
    rec.on = true;
    bool res = true, refused = false;
    bool ok = asked(rec, "derivative test", [&] {
        try
        {
            res = state ? c.stateDerivativeIntermediateTest() : c.controlDerivativeIntermediateTest();
        } catch (UserError&)
        {
            throw;
        } catch (std::runtime_error&)
        {
            refused = true;
        }
    });
    rec.on = false;
    if (recorded)
        for (auto& p : rec.pts)
            SIM_CHECK((p.x - x).norm() < 1e-5 && (p.u - u).norm() < 1e-5 && near(p.t, t), "derivative-test-point",
                "a numerical derivative at x=%s u=%s t=%.9g evaluates a term at x=%s u=%s t=%.9g", str(x).c_str(), str(u).c_str(), t, str(p.x).c_str(), str(p.u).c_str(), p.t);
    if (ok)
        SIM_CHECK(!refused, "cost-derivative", "the derivative test is refused though all terms have derivatives");
    sim::probe(ok ? "derivative_test" : "derivative_test_failed");
    point(c, x, u, t, ok ? "after a derivative test" : "after a derivative test in which a term failed");
}

void costUser(const Cost& proto, const RCost& m0, int who, const std::vector<Op>& ops)
{
    std::unique_ptr<Cost> c(proto.clone());
    RCost m = m0;
    std::shared_ptr<Record> rec(new Record);
    auto adopt = [&](Cost& k) {
        for (size_t i = 0; i < m.inter.size(); i++)
            if (m.inter[i].kind == OWN)
                std::static_pointer_cast<OwnTerm>(k.getIntermediateTermById(i))->rec = rec;
        for (size_t i = 0; i < m.fin.size(); i++)
            if (m.fin[i].kind == OWN)
                std::static_pointer_cast<OwnTerm>(k.getFinalTermById(i))->rec = rec;
    };
    adopt(*c);
    int named = 0;
    for (const Op& o : ops)
    {
        sim::yield();
        bool needPoint = o.kind >= 10;
        if (needPoint && !m.fresh)
        {
            c->setCurrentStateAndControl(m.x, m.u, 0.25);
            m.t = 0.25 + m.shift;
            m.fresh = true;
        }
        switch (o.kind)
        {
            case 0:
            case 1:
                m.x = vx(o);
                m.u = vu(o);
                m.t = o.v[5] + m.shift;
                m.fresh = true;
                c->setCurrentStateAndControl(m.x, m.u, o.v[5]);
                break;
            case 2:
                m.shift = o.n % 3 ? o.v[0] : 0;
                m.fresh = false;
                c->shiftTime(m.shift);
                break;
            case 3:
            {
                X r = vx(o);
                c->updateReferenceState(r);
                for (auto& k : m.inter)
                    k.refX(r);
                sim::probe("reference_moved");
                break;
            }
            case 4:
            {
                X r = vx(o);
                c->updateFinalState(r);
                for (auto& k : m.fin)
                    k.refX(r);
                break;
            }
            case 5:
            {
                U r = vu(o);
                c->updateReferenceControl(r);
                for (auto& k : m.inter)
                    k.refU(r);
                break;
            }
            case 6:
            case 7:
            {
                bool terminal = o.kind == 7;
                auto& l = terminal ? m.fin : m.inter;
                if (l.size() >= 5)
                    break;
                RTerm r;
                TermPtr t = makeTerm(o.n % N_KINDS, o, r);
                r.name = "t" + std::to_string(named++);
                t->setName(r.name);
                if (r.kind == OWN)
                    std::static_pointer_cast<OwnTerm>(t)->rec = rec;
                size_t id = 99;
                if (!failedAlloc(o, "adding a term", [&] { id = terminal ? c->addFinalTerm(t) : c->addIntermediateTerm(t); }))
                {
                    SIM_CHECK(id == l.size(), "term-id", "the %zu. term gets id %zu", l.size(), id);
                    l.push_back(r);
                }
                break;
            }
            case 8:  // change a term in place
            {
                bool terminal = o.a % 2;
                auto& l = terminal ? m.fin : m.inter;
                if (l.empty())
                    break;
                size_t i = (size_t)o.n % l.size();
                RTerm& r = l[i];
                TermPtr t;
                if (o.a % 4 < 2 && !r.name.empty())
                    t = terminal ? c->getFinalTermByName(r.name) : c->getIntermediateTermByName(r.name);
                else
                    t = terminal ? c->getFinalTermById(i) : c->getIntermediateTermById(i);
                XX Q = vxx(o);
                UU R = vuu(o);
                X xr = vx(o, 1);
                U ur = vu(o, 4);
                switch (r.kind)
                {
                    case QUAD:
                    {
                        auto q = std::static_pointer_cast<TermQuadratic<N, M>>(t);
                        if (o.a < 6)
                        {
                            q->setWeights(Q, R);
                            r.Q = Q;
                            r.R = R;
                        }
                        else
                        {
                            q->setStateAndControlReference(xr, ur);
                            r.xr = xr;
                            r.ur = ur;
                        }
                        SIM_CHECK(nearM(q->getReferenceState(), r.xr) && nearM(q->getStateWeight(), r.Q) && nearM(q->getControlWeight(), r.R), "term-content",
                            "a quadratic term shows other weights or another reference than it was given");
                        break;
                    }
                    case QUADMULT:
                    {
                        auto q = std::static_pointer_cast<TermQuadMult<N, M>>(t);
                        if (o.a < 6)
                        {
                            q->setWeights(Q, R);
                            r.Q = Q;
                            r.R = R;
                        }
                        else
                        {
                            q->setStateAndControlReference(xr, ur);
                            r.xr = xr;
                            r.ur = ur;
                        }
                        break;
                    }
                    case MIXED:
                    {
                        auto q = std::static_pointer_cast<TermMixed<N, M>>(t);
                        if (o.a < 6)
                        {
                            r.P = vp(o);
                            q->setWeights(r.P);
                        }
                        else
                        {
                            q->setStateAndControlReference(xr, ur);
                            r.xr = xr;
                            r.ur = ur;
                        }
                        break;
                    }
                    case TRACKING:
                    {
                        auto q = std::static_pointer_cast<TermQuadTracking<N, M>>(t);
                        if (o.a < 5)
                        {
                            q->setWeights(Q, R);
                            r.Q = Q;
                            r.R = R;
                        }
                        else
                            track(*q, r, o);
                        break;
                    }
                    default:
                        t->setTimeActivation(std::shared_ptr<ct::core::ActivationBase>(new ct::core::SingleActivation(o.v[0], o.v[0] + 1)));
                        r.act = 1;
                        r.on = o.v[0];
                        r.off = o.v[0] + 1;
                }
                sim::probe("term_changed");
                break;
            }
            case 9:
            {
                std::unique_ptr<Cost> k;
                if (!failedAlloc(o, "cloning a cost function", [&] { k.reset(c->clone()); }))
                {
                    adopt(*k);
                    c = std::move(k);
                    sim::probe("cloned");
                }
                bool thrown = false;
                try
                {
                    if (o.n % 2)
                        c->getIntermediateTermByName("no such term");
                    else
                        c->getFinalTermByName("no such term");
                } catch (std::runtime_error&)
                {
                    thrown = true;
                }
                SIM_CHECK(thrown, "term-id", "a term that does not exist is found");
                break;
            }
            case 10:
                rec->fail_in = o.n % 4 == 0 ? 1 + o.a % 7 : 0;
                numDiff(*c, m.x, m.u, m.t, *rec, o.n % 2, true);
                break;
            case 11:
                c->initialize();
                point(*c, m.x, m.u, m.t, "after initialize()");
                break;
            default:
                rec->fail_in = o.n == 0 ? 1 + o.a % 3 : 0;
                query(*c, m, *rec, o.kind % 2, o.a % 6);
                if (o.n == 0)
                    query(*c, m, *rec, o.kind % 2, o.a % 6);
                break;
        }
    }
    // in the end, everything
    if (!m.fresh)
    {
        c->setCurrentStateAndControl(m.x, m.u, -0.5);
        m.t = -0.5 + m.shift;
    }
    point(*c, m.x, m.u, m.t, "in the end");
    for (int k = 0; k < 6; k++)
        for (int z = 0; z < 2; z++)
            query(*c, m, *rec, z, k);
}

// the simple quadratic cost: half the weighted squares of the deviations
void simpleUser(const CostFunctionQuadraticSimple<N, M>& proto, XX Q, UU R, X xn, U un, X xf, XX Qf, const std::vector<Op>& ops)
{
    typedef CostFunctionQuadraticSimple<N, M> C;
    std::unique_ptr<C> c(proto.clone());
    X x = X::Zero();
    U u = U::Zero();
    double t = 0, shift = 0;
    Record rec;
    bool fresh = true, set = false;
    for (const Op& o : ops)
    {
        sim::yield();
        switch (o.kind)
        {
            case 0:
            case 1:
                x = vx(o);
                u = vu(o);
                t = o.v[5] + shift;
                c->setCurrentStateAndControl(x, u, o.v[5]);
                fresh = set = true;
                break;
            case 2:
                shift = o.n % 3 ? o.v[0] : 0;
                c->shiftTime(shift);
                fresh = false;
                break;
            case 3:
                xn = vx(o);
                c->updateReferenceState(xn);
                sim::probe("reference_moved");
                break;
            case 4:
                xf = vx(o);
                c->updateFinalState(xf);
                break;
            case 5:
                un = vu(o);
                c->updateReferenceControl(un);
                break;
            case 6:
            case 7: c->initialize(); break;
            case 8:
            case 9:
            {
                std::unique_ptr<C> k;
                if (!failedAlloc(o, "cloning a cost function", [&] { k.reset(c->clone()); }))
                    c = std::move(k);
                break;
            }
            case 10:
                if (fresh && set)
                    numDiff(*c, x, u, t, rec, o.n % 2, false);
                break;
            default:
            {
                if (!set)
                    break;
                X d = x - xn, g = x - xf;
                U e = u - un;
                SIM_CHECK(near(c->evaluateIntermediate(), 0.5 * d.dot(Q * d) + 0.5 * e.dot(R * e)), "cost-value", "simple quadratic cost %.12g instead of %.12g",
                    c->evaluateIntermediate(), 0.5 * d.dot(Q * d) + 0.5 * e.dot(R * e));
                SIM_CHECK(near(c->evaluateTerminal(), 0.5 * g.dot(Qf * g)), "cost-value", "simple quadratic terminal cost %.12g instead of %.12g", c->evaluateTerminal(),
                    0.5 * g.dot(Qf * g));
                SIM_CHECK(nearM(c->stateDerivativeIntermediate(), X(Q * d)) && nearM(c->controlDerivativeIntermediate(), U(R * e)) && nearM(c->stateDerivativeTerminal(), X(Qf * g)),
                    "cost-derivative", "wrong derivative of the simple quadratic cost");
                SIM_CHECK(nearM(c->stateSecondDerivativeIntermediate(), Q) && nearM(c->controlSecondDerivativeIntermediate(), R) && nearM(c->stateSecondDerivativeTerminal(), Qf) &&
                              nearM(c->stateControlDerivativeIntermediate(), UX::Zero()),
                    "cost-derivative", "wrong second derivative of the simple quadratic cost");
                sim::probe("evaluated_simple");
            }
        }
    }
}

template <class F>
void users(int n, F f)
{
    std::vector<std::thread> th;
    for (int i = 1; i < n; i++)
        th.emplace_back(f, i);
    f(0);
    for (auto& t : th)
        t.join();
    sim::probe_if(n > 1, "several_users");
}
void environment()
{
    hooks().yields = true;
    hooks().armed = false;
    sim::race_detection(true);
    if (sim::PB("plain_preempt", 50))
        sim::preempt_plain((int)sim::P("plain_mean", 3, 400));
    sim::set_step_budget(400000, 200000000ull);
    for (int i = 0; i < 40; i++)  // memory that was used before is not zero
    {
        size_t sz = 8 + 16 * (size_t)(i % 20);
        void* p = ::operator new(sz);
        for (size_t k = 0; k < sz; k++)
            static_cast<volatile unsigned char*>(p)[k] = 0xc7;
        ::operator delete(p);
    }
}

void run_cost()
{
    int n = (int)sim::P("users", 1, 3);
    bool simple = sim::PB("simple", 20);
    int alloc = n == 1 && sim::PB("alloc_faults", 40) ? 20 : 0;
    std::vector<Op> po = drawOps(1, 4, 1, 0);
    std::vector<std::vector<Op>> ops;
    for (int i = 0; i < n; i++)
        ops.push_back(drawOps(1, 50, 24, alloc));
    environment();
    if (simple)
    {
        XX Q = vxx(po[0]), Qf = vxx(po.back()) * 2;
        Q = (Q + Q.transpose()).eval();
        Qf = (Qf + Qf.transpose()).eval();
        UU R = vuu(po[0]);
        R = (R + R.transpose()).eval();
        X xn = vx(po[0], 1), xf = vx(po[0], 3);
        U un = vu(po[0], 2);
        std::unique_ptr<CostFunctionQuadraticSimple<N, M>> proto(new CostFunctionQuadraticSimple<N, M>(Q, R, xn, un, xf, Qf));
        users(n, [&](int i) { simpleUser(*proto, Q, R, xn, un, xf, Qf, ops[i]); });
    }
    else
    {
        std::unique_ptr<Cost> proto(new Cost());
        RCost m;
        for (const Op& o : po)
        {
            RTerm r;
            TermPtr t = makeTerm(o.n % (N_KINDS - 1), o, r);
            if (o.n % 2)
            {
                proto->addIntermediateTerm(t);
                m.inter.push_back(r);
            }
            else
            {
                proto->addFinalTerm(t);
                m.fin.push_back(r);
            }
        }
        users(n, [&](int i) { costUser(*proto, m, i, ops[i]); });
    }
    sim::disable_faults();
}

// ------------------------------------------------------------------------------------------------- constraints
typedef ConstraintBase<N, M> Con;
typedef std::shared_ptr<Con> ConP;
typedef ConstraintContainerAnalytical<N, M> Box;
typedef LinearConstraintContainer<N, M> Lin;

// rows: a x0^2 + b x1 u0 + sin(2t);  x2 + c u1   (the second row is optional)
class OwnCon : public Con
{
public:
    EIGEN_MAKE_ALIGNED_OPERATOR_NEW
    double a, b, c;
    int rows;
    std::shared_ptr<Record> rec;
    OwnCon(double a_, double b_, double c_, int rows_, double lo, double hi) : Con("own"), a(a_), b(b_), c(c_), rows(rows_), rec(new Record)
    {
        this->lb_ = VX::Constant(rows, lo);
        this->ub_ = VX::Constant(rows, hi);
    }
    OwnCon(const OwnCon& o) : Con(o), a(o.a), b(o.b), c(o.c), rows(o.rows), rec(o.rec) {}
    OwnCon* clone() const override { return new OwnCon(*this); }
    void bounds(double lo, double hi)
    {
        this->lb_ = VX::Constant(rows, lo);
        this->ub_ = VX::Constant(rows, hi);
    }
    size_t getConstraintSize() const override { return (size_t)rows; }
    VX evaluate(const X& x, const U& u, const double t) override
    {
        rec->call(x, u, t);
        VX r(rows);
        r(0) = a * x(0) * x(0) + b * x(1) * u(0) + std::sin(2 * t);
        if (rows > 1)
            r(1) = x(2) + c * u(1);
        return r;
    }
    MX jacobianState(const X& x, const U& u, const double t) override
    {
        rec->call(x, u, t);
        MX j = MX::Zero(rows, N);
        j(0, 0) = 2 * a * x(0);
        j(0, 1) = b * u(0);
        if (rows > 1)
            j(1, 2) = 1;
        return j;
    }
    MX jacobianInput(const X& x, const U& u, const double t) override
    {
        rec->call(x, u, t);
        MX j = MX::Zero(rows, M);
        j(0, 0) = b * x(1);
        if (rows > 1)
            j(1, 1) = c;
        return j;
    }
};
struct RCon
{
    int kind;  // 0 state box, 1 input box, 2 terminal, 3 obstacle, 4 own
    VX lb, ub;
    std::vector<int> idx;
    X xf = X::Zero();
    double a = 0, b = 0, c = 0;
    std::shared_ptr<ct::core::Ellipsoid> ell;
    Eigen::Matrix<double, 3, N> J;
    int rows() const { return (int)lb.size(); }
    VX val(const X& x, const U& u, double t) const
    {
        VX r(rows());
        switch (kind)
        {
            case 0:
                for (size_t i = 0; i < idx.size(); i++)
                    r((int)i) = x(idx[i]);
                break;
            case 1:
                for (size_t i = 0; i < idx.size(); i++)
                    r((int)i) = u(idx[i]);
                break;
            case 2: r = x - xf; break;
            case 3:
            {
                Eigen::Vector3d d = J * x - ell->x0(), e = ell->A() * (ell->S().transpose() * d);
                r(0) = e.squaredNorm() - 1;
                break;
            }
            default:
                r(0) = a * x(0) * x(0) + b * x(1) * u(0) + std::sin(2 * t);
                if (rows() > 1)
                    r(1) = x(2) + c * u(1);
        }
        return r;
    }
    MX jx(const X& x, const U& u) const
    {
        MX j = MX::Zero(rows(), N);
        switch (kind)
        {
            case 0:
                for (size_t i = 0; i < idx.size(); i++)
                    j((int)i, idx[i]) = 1;
                break;
            case 1: break;
            case 2: j.setIdentity(); break;
            case 3:
            {
                Eigen::Vector3d d = J * x - ell->x0();
                Eigen::Matrix3d B = ell->A() * ell->S().transpose();
                j = 2 * d.transpose() * B.transpose() * B * J;
                break;
            }
            default:
                j(0, 0) = 2 * a * x(0);
                j(0, 1) = b * u(0);
                if (rows() > 1)
                    j(1, 2) = 1;
        }
        return j;
    }
    MX ju(const X& x, const U& u) const
    {
        MX j = MX::Zero(rows(), M);
        if (kind == 1)
            for (size_t i = 0; i < idx.size(); i++)
                j((int)i, idx[i]) = 1;
        if (kind == 4)
        {
            j(0, 0) = b * x(1);
            if (rows() > 1)
                j(1, 1) = c;
        }
        return j;
    }
};
ConP makeCon(const Op& o, RCon& r, const std::shared_ptr<Record>& rec)
{
    r = RCon();
    r.kind = o.n % 5;
    double lo = o.v[0], hi = o.v[0] + std::fabs(o.v[1]);
    switch (r.kind)
    {
        case 0:
        {
            int mask = 1 + o.a % 7;
            Eigen::VectorXi sp(N);
            for (int i = 0; i < N; i++)
            {
                sp(i) = mask >> i & 1;
                if (sp(i))
                    r.idx.push_back(i);
            }
            r.lb.resize((int)r.idx.size());
            r.ub.resize((int)r.idx.size());
            for (int i = 0; i < r.lb.size(); i++)
            {
                r.lb(i) = lo - 0.5 * i;
                r.ub(i) = hi + 0.25 * i;
            }
            if (mask == 7)
                return ConP(new StateConstraint<N, M>(X(r.lb), X(r.ub)));
            return ConP(new StateConstraint<N, M>(r.lb, r.ub, sp));
        }
        case 1:
        {
            int mask = 1 + o.a % 3;
            Eigen::VectorXi sp(M);
            for (int i = 0; i < M; i++)
            {
                sp(i) = mask >> i & 1;
                if (sp(i))
                    r.idx.push_back(i);
            }
            r.lb.resize((int)r.idx.size());
            r.ub.resize((int)r.idx.size());
            for (int i = 0; i < r.lb.size(); i++)
            {
                r.lb(i) = lo - 0.5 * i;
                r.ub(i) = hi + 0.25 * i;
            }
            if (mask == 3)
                return ConP(new ControlInputConstraint<N, M>(U(r.lb), U(r.ub)));
            return ConP(new ControlInputConstraint<N, M>(r.lb, r.ub, sp));
        }
        case 2:
            r.xf = vx(o);
            r.lb = r.ub = VX::Zero(N);
            return ConP(new TerminalConstraint<N, M>(r.xf));
        case 3:
        {
            Eigen::Vector3d x0(o.v[0], o.v[1], o.v[2]);
            Eigen::Matrix3d A = Eigen::Vector3d(0.5 + std::fabs(o.v[3]), 1, 0.5).asDiagonal();
            Eigen::Matrix3d S = Eigen::AngleAxisd(o.v[4], Eigen::Vector3d(1, 2, 2) / 3.0).toRotationMatrix();
            r.ell.reset(new ct::core::Ellipsoid(x0, A, S));
            r.J << 1, 0, o.v[5], 0, 1, 0, o.v[6], 0, 1;
            r.lb = VX::Zero(1);
            r.ub = VX::Constant(1, std::numeric_limits<double>::max());
            Eigen::Matrix<double, 3, N> J = r.J;
            return ConP(new ObstacleConstraint<N, M>(r.ell, [J](const X& x, Eigen::Vector3d& p) { p = J * x; },
                [J](const X& x, Eigen::Matrix<double, 3, N>& d) { d = J; }));
        }
        default:
        {
            int rows = 1 + o.a % 2;
            r.a = o.v[2];
            r.b = o.v[3];
            r.c = o.v[4];
            r.lb = VX::Constant(rows, lo);
            r.ub = VX::Constant(rows, hi);
            OwnCon* c = new OwnCon(r.a, r.b, r.c, rows, lo, hi);
            c->rec = rec;
            return ConP(c);
        }
    }
}
struct RBox
{
    std::vector<RCon> part[2];
    std::vector<ConP> con[2];  // the container's own constraints as far as the user holds them
    bool init[2] = {false, false};
    bool sameBounds[2] = {true, true};  // the bounds shown are those of the last initialize()
    VX lb[2], ub[2];
    int count(int z) const
    {
        int n = 0;
        for (auto& c : part[z])
            n += c.rows();
        return n;
    }
    void initialized()
    {
        for (int z = 0; z < 2; z++)
        {
            init[z] = true;
            lb[z].resize(count(z));
            ub[z].resize(count(z));
            int k = 0;
            for (auto& c : part[z])
            {
                lb[z].segment(k, c.rows()) = c.lb;
                ub[z].segment(k, c.rows()) = c.ub;
                k += c.rows();
            }
        }
    }
};
template <class F>
VX rowsOf(const RBox& m, int z, F f)
{
    VX r(m.count(z));
    int k = 0;
    for (auto& c : m.part[z])
    {
        r.segment(k, c.rows()) = f(c);
        k += c.rows();
    }
    return r;
}
template <class F>
MX matOf(const RBox& m, int z, int cols, F f)
{
    MX r(m.count(z), cols);
    int k = 0;
    for (auto& c : m.part[z])
    {
        r.block(k, 0, c.rows(), cols) = f(c);
        k += c.rows();
    }
    return r;
}

// one query: right, or refused because the constraints are not initialised, or the failure of a constraint came through
template <class F>
bool conAsked(Record& rec, bool ready, const char* what, F f)
{
    int before = rec.threw;
    bool user = false, refused = false;
    try
    {
        f();
    } catch (UserError&)
    {
        user = true;
    } catch (std::runtime_error&)
    {
        refused = true;
    }
    rec.fail_in = 0;
    SIM_CHECK(user == (rec.threw != before), "failure-lost", "%s: a constraint %s", what, user ? "did not fail, but the call did" : "failed, but the call returned");
    SIM_CHECK(refused == !ready, "constraint-refused", "%s is %s", what,
        refused ? "refused though the constraints are initialised" : "answered though constraints were added since the last initialize()");
    sim::probe_if(user, "failed_call");
    sim::probe_if(refused, "refused");
    return !user && !refused;
}
void conQuery(Lin& c, const RBox& m, Record& rec, int z, int what, const X& x, const U& u, double t, bool ready, bool boundsOk)
{
    const char* ph = z ? "terminal" : "intermediate";
    char nm[64];
    auto same = [&](const char* name, const auto& got, const auto& want) {
        SIM_CHECK(nearM(got, want), "constraint-value", "%s of the %s constraints at x=%s u=%s t=%.9g is %s, the constraints give %s", name, ph, str(x).c_str(), str(u).c_str(), t,
            str(got).c_str(), str(want).c_str());
    };
    snprintf(nm, sizeof nm, "query %d of the %s constraints", what, ph);
    VX v = rowsOf(m, z, [&](const RCon& k) { return k.val(x, u, t); });
    switch (what)
    {
        case 0:
        {
            VX g;
            if (conAsked(rec, ready, nm, [&] { g = z ? c.evaluateTerminal() : c.evaluateIntermediate(); }))
            {
                same("value", g, v);
                sim::probe_if(g.size() > 0, z ? "evaluated_terminal" : "evaluated_intermediate");
            }
            break;
        }
        case 1:
        case 2:
        {
            bool st = what == 1;
            MX w = matOf(m, z, st ? N : M, [&](const RCon& k) { return st ? k.jx(x, u) : k.ju(x, u); });
            MX g;
            if (conAsked(rec, ready, nm, [&] {
                    g = z ? (st ? c.jacobianStateTerminal() : c.jacobianInputTerminal()) : (st ? c.jacobianStateIntermediate() : c.jacobianInputIntermediate());
                }) &&
                w.rows() > 0)
                same(st ? "state Jacobian" : "input Jacobian", g, w);
            break;
        }
        case 3:
        case 4:
        {
            bool st = what == 3;
            MX w = matOf(m, z, st ? N : M, [&](const RCon& k) { return st ? k.jx(x, u) : k.ju(x, u); });
            VX g;
            Eigen::VectorXi r, q;
            if (!conAsked(rec, ready, nm, [&] {
                    g = z ? (st ? c.jacobianStateSparseTerminal() : c.jacobianInputSparseTerminal())
                          : (st ? c.jacobianStateSparseIntermediate() : c.jacobianInputSparseIntermediate());
                }))
                break;
            if (!conAsked(rec, ready, nm, [&] {
                    if (z)
                        st ? c.sparsityPatternStateTerminal(r, q) : c.sparsityPatternInputTerminal(r, q);
                    else
                        st ? c.sparsityPatternStateIntermediate(r, q) : c.sparsityPatternInputIntermediate(r, q);
                }))
                break;
            size_t nz = z ? (st ? c.getJacobianStateNonZeroCountTerminal() : c.getJacobianInputNonZeroCountTerminal())
                          : (st ? c.getJacobianStateNonZeroCountIntermediate() : c.getJacobianInputNonZeroCountIntermediate());
            if (w.rows() == 0)
                break;
            SIM_CHECK(g.size() == r.size() && r.size() == q.size() && (size_t)g.size() == nz, "constraint-pattern", "%s: %d values, %d rows, %d columns, %zu entries announced", nm,
                (int)g.size(), (int)r.size(), (int)q.size(), nz);
            MX d = MX::Zero(w.rows(), w.cols());
            for (int i = 0; i < g.size(); i++)
            {
                SIM_CHECK(r(i) >= 0 && r(i) < d.rows() && q(i) >= 0 && q(i) < d.cols(), "constraint-pattern", "%s: entry at (%d, %d)", nm, r(i), q(i));
                d(r(i), q(i)) += g(i);
            }
            same(st ? "sparse state Jacobian" : "sparse input Jacobian", d, w);
            sim::probe("sparse");
            break;
        }
        case 5:
        {
            if (!boundsOk)
                break;
            VX lo = z ? c.getLowerBoundsTerminal() : c.getLowerBoundsIntermediate(), hi = z ? c.getUpperBoundsTerminal() : c.getUpperBoundsIntermediate();
            same("lower bound", lo, m.lb[z]);
            same("upper bound", hi, m.ub[z]);
            break;
        }
        case 6:
        {
            if (!boundsOk || m.lb[z].size() != v.size())
                break;
            VX lo(v.size()), hi(v.size());
            for (int i = 0; i < v.size(); i++)
            {
                lo(i) = std::min(v(i) - m.lb[z](i), 0.0);
                hi(i) = std::max(v(i) - m.ub[z](i), 0.0);
            }
            VX g;
            int which = ((int)(std::fabs(x(0)) * 8)) % 3;
            if (!conAsked(rec, ready, nm, [&] {
                    if (which == 0)
                        g = z ? c.getLowerBoundsViolationTerminal() : c.getLowerBoundsViolationIntermediate();
                    else if (which == 1)
                        g = z ? c.getUpperBoundsViolationTerminal() : c.getUpperBoundsViolationIntermediate();
                    else
                        g = z ? c.getTotalBoundsViolationTerminal() : c.getTotalBoundsViolationIntermediate();
                }))
                break;
            same(which == 0 ? "violation of the lower bounds" : which == 1 ? "violation of the upper bounds" : "violation", g, which == 0 ? lo : which == 1 ? hi : VX(lo + hi));
            sim::probe_if(g.size() && g.norm() > 0, "violated");
            break;
        }
        default:
            SIM_CHECK((z ? c.getTerminalConstraintsCount() : c.getIntermediateConstraintsCount()) == (size_t)m.count(z), "constraint-count", "wrong number of %s constraints", ph);
    }
}
void conAll(Lin& c, const RBox& m0, const RBox& m1, Record& rec, const X& x, const U& u, double t)
{
    for (int k = 0; k < 8; k++)
    {
        conQuery(c, m0, rec, 0, k, x, u, t, true, true);
        conQuery(c, m1, rec, 1, k, x, u, t, true, true);
    }
}

void conUser(const Box* proto, const RBox& m0, X x, U u, double t, const std::vector<Op>& ops)
{
    std::shared_ptr<Record> rec(new Record);
    std::unique_ptr<Box> c;
    RBox m = m0;
    if (proto)
        c.reset(proto->clone());
    else
    {
        m = RBox();
        x = X::Zero();
        u = U::Zero();
        t = 0;
        if (ops[0].n % 2)
        {
            x = vx(ops[0]);
            u = vu(ops[0]);
            t = ops[0].v[5];
            c.reset(new Box(x, u, t));
        }
        else
            c.reset(new Box());
    }
    for (int z = 0; z < 2; z++)  // the prototype's own constraints report to its user only
        m.con[z].assign(m.part[z].size(), ConP());
    for (const Op& o : ops)
    {
        sim::yield();
        switch (o.kind)
        {
            case 0:
            case 1:
            case 2:
                x = vx(o);
                u = vu(o);
                t = o.v[5];
                c->setCurrentStateAndControl(x, u, t);
                break;
            case 3:
            case 4:
            {
                int z = o.kind == 4;
                if (m.part[z].size() >= 4)
                    break;
                RCon r;
                ConP k = makeCon(o, r, rec);
                if (!failedAlloc(o, "adding a constraint", [&] { z ? c->addTerminalConstraint(k, false) : c->addIntermediateConstraint(k, false); }))
                {
                    m.part[z].push_back(r);
                    m.con[z].push_back(k);
                    m.init[z] = false;
                }
                break;
            }
            case 5:
            case 6:
            case 7:
                // memory is not made to run out here: Eigen 3.4 itself frees twice when resizing fails
                c->initialize();
                m.initialized();
                SIM_CHECK(c->isInitialized(), "constraint-refused", "not initialised after initialize()");
                break;
            case 8:
            {
                std::unique_ptr<Box> k;
                if (!failedAlloc(o, "cloning a constraint container", [&] { k.reset(c->clone()); }))
                {
                    c = std::move(k);
                    for (int z = 0; z < 2; z++)
                        m.con[z].assign(m.part[z].size(), ConP());
                    sim::probe("cloned");
                }
                break;
            }
            case 9:  // a constraint's bounds change, or an obstacle moves
            {
                int z = o.a % 2;
                if (m.part[z].empty())
                    break;
                size_t i = (size_t)o.n % m.part[z].size();
                RCon& r = m.part[z][i];
                if (!m.con[z][i])
                    break;
                if (r.kind == 3)
                    r.ell->x0() = Eigen::Vector3d(o.v[0], o.v[1], o.v[2]);
                else if (r.kind == 4)
                {
                    double lo = o.v[0], hi = lo + std::fabs(o.v[1]);
                    std::static_pointer_cast<OwnCon>(m.con[z][i])->bounds(lo, hi);
                    r.lb = VX::Constant(r.rows(), lo);
                    r.ub = VX::Constant(r.rows(), hi);
                    c->initialize();
                    m.initialized();
                    sim::probe("bounds_changed");
                }
                break;
            }
            default:
            {
                int z = o.kind % 2;
                rec->fail_in = o.n == 0 ? 1 + o.a % 3 : 0;
                conQuery(*c, m, *rec, z, o.a % 8, x, u, t, m.init[z], m.init[z]);
                if (o.n == 0)
                    conQuery(*c, m, *rec, z, o.a % 8, x, u, t, m.init[z], m.init[z]);
            }
        }
    }
    c->initialize();
    m.initialized();
    conAll(*c, m, m, *rec, x, u, t);
}

void switchedUser(int modes, const std::vector<Op>& po, const std::vector<Op>& ops)
{
    std::shared_ptr<Record> rec(new Record);
    std::vector<RBox> m((size_t)modes);
    std::vector<std::shared_ptr<Box>> box;
    typedef SwitchedLinearConstraintContainer<N, M> Sw;
    Sw::SwitchedLinearConstraintContainers list;
    for (int i = 0; i < modes; i++)
    {
        box.emplace_back(new Box());
        list.push_back(box.back());
    }
    for (size_t i = 0; i < po.size(); i++)
    {
        RCon r;
        int k = (int)i % modes, z = po[i].a % 2;
        ConP con = makeCon(po[i], r, rec);
        z ? box[(size_t)k]->addTerminalConstraint(con, false) : box[(size_t)k]->addIntermediateConstraint(con, false);
        m[(size_t)k].part[z].push_back(r);
    }
    ct::core::ContinuousModeSequence seq(-1.0);
    std::vector<std::pair<size_t, double>> ph;
    double end = -1;
    for (int i = 0; i < 3; i++)
    {
        double d = 0.25 + std::fabs(po[0].v[i]);
        size_t k = (size_t)(po[0].n / (i + 1)) % (size_t)modes;
        seq.addPhase(k, d);
        end += d;
        ph.push_back({k, end});
    }
    std::unique_ptr<Sw> c(new Sw(list, seq));
    size_t act = 0, fin = ph.back().first;
    X x = X::Zero();
    U u = U::Zero();
    double t = 0;
    bool set = false, own = true;
    auto setAt = [&](const Op& o, double at) {
        x = vx(o);
        u = vu(o);
        t = at;
        c->setCurrentStateAndControl(x, u, t);
        act = ph.back().first;
        for (auto& p : ph)
            if (t < p.second)
            {
                act = p.first;
                break;
            }
        set = true;
    };
    auto init = [&] {
        c->initialize();
        for (auto& b : m)
            b.initialized();
    };
    for (const Op& o : ops)
    {
        sim::yield();
        switch (o.kind)
        {
            case 0:
            case 1:
            case 2:
            case 3: setAt(o, o.n % 4 == 0 ? ph[(size_t)o.a % 3].second : o.v[5] * 2); break;
            case 4:
            case 5:
            case 6: init(); break;
            case 7:
            {
                std::unique_ptr<Sw> k;
                if (!failedAlloc(o, "cloning a constraint container", [&] { k.reset(c->clone()); }))
                {
                    c = std::move(k);
                    own = false;
                    sim::probe("cloned");
                }
                break;
            }
            case 8:
            {
                int z = o.a % 2;
                size_t k = (size_t)o.a % (size_t)modes;
                if (!own || m[k].part[z].size() >= 3)
                    break;
                RCon r;
                ConP con = makeCon(o, r, rec);
                z ? box[k]->addTerminalConstraint(con, false) : box[k]->addIntermediateConstraint(con, false);
                m[k].part[z].push_back(r);
                m[k].init[z] = false;
                break;
            }
            default:
            {
                if (!set)
                    break;
                int z = o.kind % 2;
                RBox& b = m[z ? fin : act];
                rec->fail_in = o.n == 0 ? 1 + o.a % 3 : 0;
                conQuery(*c, b, *rec, z, o.a % 8, x, u, t, b.init[z], b.init[z]);
                sim::probe_if(fin != act && z && b.init[z], "terminal_of_other_mode");
            }
        }
    }
    setAt(ops[0], 0.125);
    init();
    conAll(*c, m[act], m[fin], *rec, x, u, t);
}

void run_con()
{
    int n = (int)sim::P("users", 1, 3), what = (int)sim::P("subject", 0, 3), modes = (int)sim::P("modes", 1, 3);
    int alloc = n == 1 && sim::PB("alloc_faults", 40) ? 20 : 0;
    std::vector<Op> po = drawOps(1, 6, 1, 0);
    std::vector<std::vector<Op>> ops;
    for (int i = 0; i < n; i++)
        ops.push_back(drawOps(1, 50, 20, alloc));
    environment();
    if (what == 3)
        users(n, [&](int i) { switchedUser(modes, po, ops[i]); });
    else if (what == 2)
        users(n, [&](int i) { conUser(nullptr, RBox(), X::Zero(), U::Zero(), 0, ops[i]); });
    else
    {
        std::unique_ptr<Box> proto(new Box());
        RBox m;
        std::shared_ptr<Record> quiet(new Record);
        for (const Op& o : po)
        {
            Op q = o;
            if (q.n % 5 == 4)
                q.n = 0;  // the user's own constraint has scratch data per container
            RCon r;
            ConP k = makeCon(q, r, quiet);
            o.a % 2 ? proto->addTerminalConstraint(k, false) : proto->addIntermediateConstraint(k, false);
            m.part[o.a % 2].push_back(r);
        }
        if (po[0].n % 2)
        {
            proto->initialize();
            m.initialized();
        }
        X x = vx(po[0], 2);
        U u = vu(po[0], 1);
        proto->setCurrentStateAndControl(x, u, 0.5);
        users(n, [&](int i) { conUser(proto.get(), m, x, u, 0.5, ops[i]); });
    }
    sim::disable_faults();
}

}  // namespace

extern "C" void sim_scenario(const char* sc)
{
    std::string s = sc;
    if (s == "cost")
        run_cost();
    else if (s == "con")
        run_con();
    else
        sim::violation("internal", "unknown scenario %s", sc);
}
