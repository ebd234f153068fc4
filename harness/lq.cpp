// Simulation of users of the linear-quadratic solvers (GNRiccatiSolver with LQOCProblem, FHDTLQR, DARE, CARE/LQR): every
// user keeps its solver objects for a long history of problems of changing size, settings and validity, with models that
// fail, problems that are refused and allocations that fail in between; every answer is checked against the optimality
// conditions of the problem it belongs to.
#include "common.h"
#include <functional>
#include <thread>

using namespace h;
using namespace ct::optcon;

namespace {

// reference arithmetic, independent of Eigen
struct MX
{
    int r = 0, c = 0;
    std::vector<double> a;
    MX() {}
    MX(int rr, int cc) : r(rr), c(cc), a((size_t)(rr * cc), 0.0) {}
    template <class D>
    MX(const Eigen::PlainObjectBase<D>& e) : r((int)e.rows()), c((int)e.cols()), a((size_t)e.size())
    {
        for (int i = 0; i < r; i++)
            for (int j = 0; j < c; j++)
                (*this)(i, j) = e.coeff(i, j);
    }
    double& operator()(int i, int j) { return a[(size_t)(i * c + j)]; }
    double operator()(int i, int j) const { return a[(size_t)(i * c + j)]; }
    MX t() const
    {
        MX x(c, r);
        for (int i = 0; i < r; i++)
            for (int j = 0; j < c; j++)
                x(j, i) = (*this)(i, j);
        return x;
    }
    template <class D>
    void put(D& d) const
    {
        for (int i = 0; i < r; i++)
            for (int j = 0; j < c; j++)
                d.coeffRef(i, j) = (*this)(i, j);
    }
    static MX id(int n)
    {
        MX x(n, n);
        for (int i = 0; i < n; i++)
            x(i, i) = 1;
        return x;
    }
};
typedef MX VX;
MX operator+(MX a, const MX& b)
{
    for (size_t i = 0; i < a.a.size(); i++)
        a.a[i] += b.a[i];
    return a;
}
MX operator-(MX a, const MX& b)
{
    for (size_t i = 0; i < a.a.size(); i++)
        a.a[i] -= b.a[i];
    return a;
}
MX operator*(double k, MX a)
{
    for (double& v : a.a)
        v *= k;
    return a;
}
MX operator*(const MX& a, const MX& b)
{
    MX x(a.r, b.c);
    for (int i = 0; i < a.r; i++)
        for (int j = 0; j < b.c; j++)
            for (int k = 0; k < a.c; k++)
                x(i, j) += a(i, k) * b(k, j);
    return x;
}
template <int R, int C>
Eigen::Matrix<double, R, C> EM(const MX& a)
{
    Eigen::Matrix<double, R, C> x;
    a.put(x);
    return x;
}
MX sym(const MX& a) { return 0.5 * (a + a.t()); }
MX linSolve(MX h, MX b)  // solves h x = b
{
    int n = h.r;
    for (int k = 0; k < n; k++)
    {
        int p = k;
        for (int i = k + 1; i < n; i++)
            if (std::fabs(h(i, k)) > std::fabs(h(p, k)))
                p = i;
        for (int j = 0; j < n; j++)
            std::swap(h(k, j), h(p, j));
        for (int j = 0; j < b.c; j++)
            std::swap(b(k, j), b(p, j));
        for (int i = 0; i < n; i++)
            if (i != k)
            {
                double f = h(i, k) / h(k, k);
                for (int j = 0; j < n; j++)
                    h(i, j) -= f * h(k, j);
                for (int j = 0; j < b.c; j++)
                    b(i, j) -= f * b(k, j);
            }
    }
    for (int i = 0; i < n; i++)
        for (int j = 0; j < b.c; j++)
            b(i, j) /= h(i, i);
    return b;
}
double minEig(MX a)  // smallest eigenvalue of a symmetric matrix
{
    int n = a.r;
    for (int sweep = 0; sweep < 30; sweep++)
        for (int p = 0; p < n; p++)
            for (int q = p + 1; q < n; q++)
                if (a(p, q) != 0)
                {
                    double th = 0.5 * std::atan2(2 * a(p, q), a(q, q) - a(p, p)), cs = std::cos(th), sn = std::sin(th);
                    MX j = MX::id(n);
                    j(p, p) = j(q, q) = cs;
                    j(p, q) = sn;
                    j(q, p) = -sn;
                    a = j.t() * a * j;
                }
    double m = a(0, 0);
    for (int i = 1; i < n; i++)
        m = std::min(m, a(i, i));
    return m;
}

struct Rng
{
    uint64_t s;
    Rng(int64_t seed) : s((uint64_t)seed * 0x9e3779b97f4a7c15ull + 0x1234567) {}
    uint64_t next()
    {
        s += 0x9e3779b97f4a7c15ull;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    double u(double a, double b) { return a + (b - a) * (double)(next() >> 11) / 9007199254740992.0; }
    MX m(int r, int c, double a)
    {
        MX x(r, c);
        for (int i = 0; i < r; i++)
            for (int j = 0; j < c; j++)
                x(i, j) = u(-a, a);
        return x;
    }
    MX spd(int n, double lo, double a)
    {
        MX l = m(n, n, a);
        return l * l.t() + lo * MX::id(n);
    }
};
struct Op
{
    int kind, n;
    int64_t seed;
    bool alloc;
};
std::vector<Op> drawOps(int lo, int hi, bool alloc)
{
    std::vector<Op> r((size_t)sim::P("n_ops", lo, hi));
    for (auto& o : r)
    {
        o.kind = (int)sim::P("op", 0, 15);
        o.n = (int)sim::P("op.n", 0, 11);
        o.seed = sim::P("op.seed", 1, 1 << 30);
        o.alloc = alloc && sim::PB("op.alloc", 25);
    }
    return r;
}
double maxAbs(const MX& a)
{
    double m = 0;
    for (double v : a.a)
        m = std::fabs(v) <= m ? m : std::fabs(v);
    return m;
}
bool finite(const MX& a)
{
    for (double v : a.a)
        if (!std::isfinite(v))
            return false;
    return true;
}
bool same(const MX& a, const MX& b, double tol) { return a.r == b.r && a.c == b.c && finite(a) && finite(b) && maxAbs(a - b) <= tol * (1 + maxAbs(a) + maxAbs(b)); }
template <class F>
bool throws(F f)
{
    try
    {
        f();
    } catch (std::exception&)
    {
        return true;
    }
    return false;
}

// ------------------------------------------------------------------------------------------ LQOC problems
struct Stage
{
    MX A, B, P, Q, R;
    VX b, q, r;
};
struct Prob
{
    std::vector<Stage> s;
    MX Qf;
    VX qf;
    int N() const { return (int)s.size(); }
};
Prob randomProblem(int n, int m, int N, int64_t seed)
{
    Rng g(seed);
    Prob p;
    for (int i = 0; i < N; i++)
    {
        Stage s;
        s.A = MX::id(n) + g.m(n, n, 0.3);
        s.B = g.m(n, m, 1);
        s.P = g.m(m, n, 0.05);
        s.Q = g.spd(n, 0.2, 0.7);
        s.R = g.spd(m, 0.5, 0.7);
        s.b = g.m(n, 1, 0.3);
        s.q = g.m(n, 1, 1);
        s.r = g.m(m, 1, 1);
        p.s.push_back(s);
    }
    p.Qf = g.spd(n, 0.2, 1);
    p.qf = g.m(n, 1, 1);
    return p;
}
template <int n, int m>
void write(LQOCProblem<n, m>& l, const Prob& p, bool resize)
{
    if (resize)
        l.changeNumStages(p.N());
    l.setZero();
    for (int i = 0; i < p.N(); i++)
    {
        p.s[i].A.put(l.A_[i]);
        p.s[i].B.put(l.B_[i]);
        p.s[i].P.put(l.P_[i]);
        p.s[i].Q.put(l.Q_[i]);
        p.s[i].R.put(l.R_[i]);
        p.s[i].b.put(l.b_[i]);
        p.s[i].q.put(l.qv_[i]);
        p.s[i].r.put(l.rv_[i]);
    }
    p.Qf.put(l.Q_[p.N()]);
    p.qf.put(l.qv_[p.N()]);
}
// backward recursion; reg is added to the Hessian of the controls
struct Sol
{
    std::vector<MX> L;
    std::vector<VX> l, x, u;
    double smallest = 1e300;
};
Sol recursion(const Prob& p, double reg)
{
    Sol r;
    int N = p.N();
    r.L.resize(N);
    r.l.resize(N);
    MX S = p.Qf;
    VX s = p.qf;
    for (int k = N - 1; k >= 0; k--)
    {
        const Stage& t = p.s[k];
        VX g = t.r + t.B.t() * (s + S * t.b);
        MX G = t.P + t.B.t() * S * t.A;
        MX H = sym(t.R + t.B.t() * S * t.B) + reg * MX::id(t.R.r);
        r.smallest = std::min(r.smallest, minEig(H));
        r.L[k] = -1 * linSolve(H, G);
        r.l[k] = -1 * linSolve(H, g);
        s = t.q + t.A.t() * (s + S * t.b) + G.t() * r.l[k];
        S = sym(t.Q + t.A.t() * S * t.A - r.L[k].t() * H * r.L[k]);
    }
    r.x.push_back(VX(p.s[0].A.r, 1));
    for (int k = 0; k < N; k++)
    {
        r.u.push_back(r.l[k] + r.L[k] * r.x[k]);
        r.x.push_back(p.s[k].A * r.x[k] + p.s[k].B * r.u[k] + p.s[k].b);
    }
    return r;
}

template <int n, int m>
struct LqocUser
{
    typedef LQOCProblem<n, m> LP;
    typedef GNRiccatiSolver<n, m> Solver;
    struct Shared
    {
        std::shared_ptr<LP> p;
        Prob r;
    };
    NLOptConSettings set;
    std::unique_ptr<Solver> s;
    std::shared_ptr<LP> cur;
    Prob ref;
    bool mine = true;

    static NLOptConSettings settings(int k)
    {
        NLOptConSettings t;
        t.fixedHessianCorrection = k % 2;
        t.epsilon = k % 3 == 0 ? 0 : k % 3 == 1 ? 1e-12 : 1e-3;
        if (!t.fixedHessianCorrection)
            t.epsilon = 1e-6;
        t.recordSmallestEigenvalue = k % 4 >= 2;
        return t;
    }
    void check(const Op& o, const char* what)
    {
        int N = ref.N();
        if (o.seed % 3 == 0)
            for (int k = N - 1; k >= 0; k--)
            {
                s->solveSingleStage(k);
                if (k % 2)
                    sim::yield();
            }
        else
            s->solve();
        s->computeStatesAndControls();
        s->computeFeedbackMatrices();
        s->compute_lv();
        double reg = set.fixedHessianCorrection && set.epsilon > 1e-10 ? set.epsilon : 0;
        Sol r = recursion(ref, reg);
        SIM_CHECK((int)s->getSolutionState().size() == N + 1 && (int)s->getSolutionControl().size() == N && (int)s->getSolutionFeedback().size() == N &&
                      (int)s->get_lv().size() == N,
            "lq-size", "%s: %zu states, %zu controls, %zu gains for %d stages", what, s->getSolutionState().size(), s->getSolutionControl().size(),
            s->getSolutionFeedback().size(), N);
        for (int k = 0; k < N; k++)
        {
            SIM_CHECK(same(s->getSolutionFeedback()[k], r.L[k], 1e-7), "lq-policy", "%s: the gain of stage %d of %d is not that of the optimal policy (%.9g instead of %.9g, %.3g off)",
                what, k, N, s->getSolutionFeedback()[k](0, 0), r.L[k](0, 0), maxAbs(MX(s->getSolutionFeedback()[k]) - r.L[k]));
            SIM_CHECK(same(s->get_lv()[k], r.l[k], 1e-7), "lq-policy", "%s: the feedforward of stage %d of %d is not that of the optimal policy (%.9g instead of %.9g, %.3g off)",
                what, k, N, s->get_lv()[k](0), r.l[k](0, 0), maxAbs(MX(s->get_lv()[k]) - r.l[k]));
            SIM_CHECK(same(s->getSolutionControl()[k], r.u[k], 1e-7) && same(s->getSolutionState()[k + 1], r.x[k + 1], 1e-7), "lq-trajectory",
                "%s: control %d or the state it leads to are not those of the optimal policy (%.9g instead of %.9g)", what, k, s->getSolutionControl()[k](0),
                r.u[k](0, 0));
        }
        SIM_CHECK(maxAbs(s->getSolutionState()[0]) == 0, "lq-trajectory", "%s: the first state has moved", what);
        if (reg == 0)
        {
            // independent of the recursion: the gradient of the cost with respect to every control vanishes
            VX lam = ref.Qf * MX(s->getSolutionState()[N]) + ref.qf;
            for (int k = N - 1; k >= 0; k--)
            {
                VX x(s->getSolutionState()[k]), u(s->getSolutionControl()[k]);
                const Stage& t = ref.s[k];
                VX g = t.r + t.R * u + t.P * x + t.B.t() * lam;
                SIM_CHECK(maxAbs(g) <= 1e-7 * (1 + maxAbs(lam)), "lq-optimality", "%s: the cost still changes with the control of stage %d (gradient %.3g)", what, k,
                    maxAbs(g));
                lam = t.Q * x + t.P.t() * u + t.q + t.A.t() * lam;
            }
        }
        if (set.recordSmallestEigenvalue)
            SIM_CHECK(std::fabs(s->getSmallestEigenvalue() - r.smallest) <= 1e-6 * (1 + r.smallest), "lq-eigenvalue",
                "%s: smallest eigenvalue %.9g, the smallest one of this problem is %.9g", what, s->getSmallestEigenvalue(), r.smallest);
        sim::logd(s->getSolutionControl()[0](0));
        sim::probe("lqoc_checked");
    }
    void adopt(const Op& o, std::shared_ptr<LP> p, const Prob& r, bool own, const char* what)
    {
        bool bad = false;
        if (o.alloc)
        {
            uint64_t before = sim::faults_fired("alloc_fail");
            sim::enable_fault("alloc_fail", 0.2);
            try
            {
                s->setProblem(p);
            } catch (std::bad_alloc&)
            {
                bad = true;
            }
            sim::enable_fault("alloc_fail", 0);
            SIM_CHECK(!bad || sim::faults_fired("alloc_fail") != before, "spurious-failure", "setProblem reports missing memory");
        }
        else
            s->setProblem(p);
        if (bad)
        {
            sim::probe("alloc_failed");
            // the solver can be given a problem again
            if (o.n % 2)
                s->setProblem(cur);
            else
            {
                s->setProblem(p);
                cur = p;
                ref = r;
                mine = own;
            }
            check(o, "problem set after running out of memory");
            return;
        }
        cur = p;
        ref = r;
        mine = own;
        check(o, what);
    }
    void run(const std::vector<Op>& ops, const std::vector<Shared>& pool, std::unique_ptr<Solver> first)
    {
        s = std::move(first);
        set = settings(1);
        s->configure(set);
        cur = pool[0].p;
        ref = pool[0].r;
        mine = false;
        s->setProblem(cur);
        for (const Op& o : ops)
        {
            sim::yield();
            int N = 1 + o.n % 9;
            switch (o.kind % 8)
            {
                case 0:
                {
                    Prob p = randomProblem(n, m, N, o.seed);
                    auto l = std::make_shared<LP>(N);
                    write<n, m>(*l, p, false);
                    adopt(o, l, p, true, "new problem");
                    break;
                }
                case 1:
                    adopt(o, pool[(size_t)o.n % pool.size()].p, pool[(size_t)o.n % pool.size()].r, false, "problem shared with others");
                    break;
                case 2:
                    if (!mine)
                        break;
                    ref = randomProblem(n, m, ref.N(), o.seed);
                    write<n, m>(*cur, ref, false);
                    check(o, "problem rewritten in place");
                    break;
                case 3:
                    if (!mine)
                        break;
                    {
                        Prob p = randomProblem(n, m, N, o.seed);
                        write<n, m>(*cur, p, true);
                        ref = p;
                        s->setProblem(cur);
                        check(o, "problem with a new number of stages");
                    }
                    break;
                case 4:
                    set = settings(o.n);
                    s->configure(set);
                    check(o, "problem solved with new settings");
                    break;
                case 5:
                {
                    // refused, and the solver goes on with the problem it has
                    auto l = std::make_shared<LP>(N);
                    write<n, m>(*l, randomProblem(n, m, N, o.seed), false);
                    if (o.n % 2)
                        l->nbu_[(size_t)o.n % N] = 1;
                    else
                        l->nbx_[(size_t)N] = 1;
                    SIM_CHECK(l->isConstrained() && throws([&]() { s->setProblem(l); }), "missing-error", "a constrained problem was accepted");
                    sim::probe("constrained_refused");
                    check(o, "problem kept after a refused one");
                    break;
                }
                case 6:
                    // a further solver that is handed its problem on construction
                    {
                        Prob p = randomProblem(n, m, N, o.seed);
                        auto l = std::make_shared<LP>(N);
                        write<n, m>(*l, p, false);
                        std::unique_ptr<Solver> f(new Solver(l));
                        f->configure(set);
                        std::swap(f, s);
                        std::swap(l, cur);
                        std::swap(p, ref);
                        check(o, "problem handed over on construction");
                        std::swap(f, s);
                        std::swap(l, cur);
                        std::swap(p, ref);
                        sim::probe("constructed_with_problem");
                        l->nbx_[(size_t)o.n % N] = 1;
                        SIM_CHECK(throws([&]() { Solver r(l); }), "missing-error", "a constrained problem was accepted on construction");
                    }
                    break;
                case 7:
                {
                    double dt = 0.125 * (1 + o.n % 4);
                    Rng g(o.seed);
                    MX A = MX::id(n) + g.m(n, n, 0.2), B = g.m(n, m, 1), Q = g.spd(n, 0.3, 0.5), R = g.spd(m, 0.6, 0.5), Qf = g.spd(n, 0.2, 1);
                    VX xn = g.m(n, 1, 1), un = g.m(m, 1, 1), xf = g.m(n, 1, 1), off = g.m(n, 1, 0.2);
                    struct DL : ct::core::DiscreteLinearSystem<n, m>
                    {
                        ct::core::StateMatrix<n> A;
                        ct::core::StateControlMatrix<n, m> B;
                        bool quiet = false;
                        DL* clone() const override { return new DL(*this); }
                        void getAandB(const ct::core::StateVector<n>& x, const ct::core::ControlVector<m>& u, const ct::core::StateVector<n>& xn, const int k, size_t sub,
                            ct::core::StateMatrix<n>& a, ct::core::StateControlMatrix<n, m>& b) override
                        {
                            if (!quiet)
                                hook_point();
                            a = A;
                            b = B;
                        }
                    } sys;
                    A.put(sys.A);
                    B.put(sys.B);
                    ct::core::StateVector<n> offv;
                    off.put(offv);
                    CostFunctionQuadraticSimple<n, m> cost(EM<n, n>(Q), EM<m, m>(R), EM<n, 1>(xn), EM<m, 1>(un), EM<n, 1>(xf), EM<n, n>(Qf));
                    Prob p;
                    for (int i = 0; i < N; i++)
                        p.s.push_back(Stage{A, B, MX(m, n), dt * Q, dt * R, off, -dt * (Q * xn), -dt * (R * un)});
                    p.Qf = Qf;
                    p.qf = -1 * (Qf * xf);
                    auto l = std::make_shared<LP>(N);
                    write<n, m>(*l, randomProblem(n, m, N, o.seed + 1), false);
                    try
                    {
                        l->setFromTimeInvariantLinearQuadraticProblem(sys, cost, offv, dt);
                    } catch (UserError&)
                    {
                        sim::probe("model_failed");
                        sys.quiet = true;
                        l->setFromTimeInvariantLinearQuadraticProblem(sys, cost, offv, dt);
                    }
                    adopt(o, l, p, true, "time-invariant problem");
                    break;
                }
            }
        }
    }
};

// ------------------------------------------------------------------------------------------ finite horizon LQR
template <int n, int m>
struct TvLin : ct::core::LinearSystem<n, m>
{
    EIGEN_MAKE_ALIGNED_OPERATOR_NEW
    typedef ct::core::LinearSystem<n, m> Base;
    ct::core::StateMatrix<n> A0, A;
    ct::core::StateControlMatrix<n, m> B0, B;
    bool quiet = false;
    bool foreign = false;  // called with a control the user never gave
    std::vector<double> us;
    TvLin* clone() const override { return new TvLin(*this); }
    void seen(const ct::core::ControlVector<m>& u)
    {
        bool k = false;
        for (double v : us)
            k = k || v == u(0);
        foreign = foreign || !k;
    }
    static double f(double t, double x) { return 1 + 0.5 * std::sin(3 * t) + 0.25 * std::sin(x); }
    const ct::core::StateMatrix<n>& getDerivativeState(const ct::core::StateVector<n>& x, const ct::core::ControlVector<m>& u, const double t = 0.0) override
    {
        seen(u);
        if (!quiet)
            hook_point();
        A = A0 * f(t, x(0));
        return A;
    }
    const ct::core::StateControlMatrix<n, m>& getDerivativeControl(const ct::core::StateVector<n>& x, const ct::core::ControlVector<m>& u, const double t = 0.0) override
    {
        seen(u);
        if (!quiet)
            hook_point();
        B = B0 * f(t + 0.5, x(0));
        return B;
    }
};
template <int n, int m>
void fhUser(const std::vector<Op>& ops)
{
    Rng g0(ops[0].seed);
    auto diag = [](Rng& g, int k, double lo, double hi) {
        MX d(k, k);
        for (int i = 0; i < k; i++)
            d(i, i) = g.u(lo, hi);
        return d;
    };
    MX Q = diag(g0, n, 0.1, 2), R = diag(g0, m, 1, 3), Qf = diag(g0, n, 0.1, 4);
    auto cost = std::make_shared<CostFunctionQuadraticSimple<n, m>>(
        EM<n, n>(Q), EM<m, m>(R), EM<n, 1>(g0.m(n, 1, 1)), EM<m, 1>(g0.m(m, 1, 1)), EM<n, 1>(g0.m(n, 1, 1)), EM<n, n>(Qf));
    FHDTLQR<n, m> lqr(cost);
    ct::core::FeedbackArray<n, m> K;
    for (const Op& o : ops)
    {
        sim::yield();
        Rng g(o.seed);
        int N = 1 + o.n % 9;
        double dt = 0.1 * (1 + o.kind % 2);
        ct::core::StateVectorArray<n> x(N + 1);
        ct::core::ControlVectorArray<m> u(N);
        auto lin = std::make_shared<TvLin<n, m>>();
        g.m(n, n, 1.5).put(lin->A0);
        g.m(n, m, 1.5).put(lin->B0);
        for (int i = 0; i <= N; i++)
            g.m(n, 1, 1).put(x[i]);
        for (int i = 0; i < N; i++)
        {
            g.m(m, 1, 1).put(u[i]);
            lin->us.push_back(u[i](0));
        }
        ct::core::StateMatrixArray<n> A(N);
        ct::core::StateControlMatrixArray<n, m> B(N);
        for (int i = 0; i < N; i++)
        {
            (MX::id(n) + dt * lin->f(i * dt, x[i](0)) * MX(lin->A0)).put(A[i]);
            (dt * lin->f(i * dt + 0.5, x[i](0)) * MX(lin->B0)).put(B[i]);
        }
        bool own = o.kind % 4 < 2;
        if (o.n % 3 == 2)
            K.clear();
        if (o.kind % 5 == 0)
        {
            // lengths that do not fit are refused, without looking beyond the given data
            int w = (int)(o.seed % 3);
            auto x2 = x;
            auto u2 = u;
            auto A2 = A;
            auto B2 = B;
            if (w == 0)
            {
                u2.pop_back();
                if (N > 1)
                    u2.pop_back();
                lin->us.resize(u2.size());
            }
            else if (w == 1)
                u2.push_back(u2.back());
            else if (own)
                A2.pop_back();
            else
                x2.push_back(x2.back());
            lin->quiet = true;
            bool t = throws([&]() { own ? lqr.designController(x2, u2, A2, B2, dt, K) : lqr.designController(x2, u2, lin, dt, K); });
            SIM_CHECK(t, "missing-error", "trajectories of %zu states and %zu controls were accepted", x2.size(), u2.size());
            SIM_CHECK(!lin->foreign, "foreign-data", "the model was evaluated for a control beyond the %zu given ones", u2.size());
            sim::probe("lengths_refused");
            continue;
        }
        try
        {
            if (own)
                lqr.designController(x, u, A, B, dt, K, o.n % 2);
            else
                lqr.designController(x, u, lin, dt, K, o.n % 2);
        } catch (UserError&)
        {
            sim::probe("model_failed");
            continue;
        }
        SIM_CHECK((int)K.size() == N, "fh-size", "%zu gains for %d stages", K.size(), N);
        SIM_CHECK(!lin->foreign, "foreign-data", "the model was evaluated for a control that was not given");
        MX P = Qf;
        for (int i = N - 1; i >= 0; i--)
        {
            MX a(A[i]), b(B[i]), H = dt * R + b.t() * P * b;
            MX k = -1 * linSolve(H, b.t() * P * a);
            SIM_CHECK(same(K[i], k, 5e-3), "fh-gain", "gain of stage %d of %d is %.9g, the Riccati recursion gives %.9g", i, N, K[i](0, 0), k(0, 0));
            P = sym(dt * Q + a.t() * P * a - k.t() * H * k);
        }
        sim::logd(K[0](0, 0));
        sim::probe("fh_checked");
    }
}

// ------------------------------------------------------------------------------------------ infinite horizon
template <int n, int m>
void dareUser(const std::vector<Op>& ops)
{
    DARE<n, m> d;
    for (const Op& o : ops)
    {
        sim::yield();
        Rng g(o.seed);
        Eigen::Matrix<double, n, n> A = EM<n, n>(g.m(n, n, 0.6)), Q = EM<n, n>(g.spd(n, 0.2, 0.7)), P;
        Eigen::Matrix<double, m, m> R = EM<m, m>(g.spd(m, 0.5, 0.7));
        Eigen::Matrix<double, n, m> B = EM<n, m>(g.m(n, m, 1));
        Eigen::Matrix<double, m, n> K;
        K.setConstant(std::nan(""));
        if (o.kind % 6 == 0)
        {
            // cannot be stabilised: reported, never answered
            A = EM<n, n>(1.5 * MX::id(n));
            B.setZero();
            SIM_CHECK(throws([&]() { d.computeSteadyStateRiccatiMatrix(Q, R, A, B, K); }), "missing-error", "a system that cannot be stabilised has a gain");
            sim::probe("not_stabilisable");
            continue;
        }
        if (o.kind % 6 == 1)
        {
            A = EM<n, n>(MX::id(n));
            SIM_CHECK(throws([&]() { d.computeSteadyStateRiccatiMatrix(Q, R, A, B, K, false, 1e-30, 2); }), "missing-error",
                "the iteration reports success though it was stopped before it converged");
            continue;
        }
        // own iteration, to know that the problem is benign
        MX p = Q, a = A, b = B, H, k;
        int it = 0;
        for (; it < 300; it++)
        {
            H = MX(R) + b.t() * p * b;
            k = -1 * linSolve(H, b.t() * p * a);
            MX q = MX(Q) + a.t() * p * a - k.t() * H * k;
            double df = maxAbs(q - p);
            p = sym(q);
            if (df < 1e-9)
                break;
        }
        if (it >= 300 || maxAbs(p) > 1e3)
            continue;
        try
        {
            if (o.kind % 6 < 4)
                P = d.computeSteadyStateRiccatiMatrix(Q, R, A, B, K);
            else
            {
                Eigen::Matrix<double, n, n> P0 = EM<n, n>(g.spd(n, 0.1, 1));
                P = d.computeSteadyStateRiccatiMatrix(Q, R, A, B, P0, K, false, 1e-8, 2000);
                sim::probe("dare_warm");
            }
        } catch (std::exception& e)
        {
            sim::violation("dare-failed", "a benign problem is reported as: %s", e.what());
        }
        SIM_CHECK(same(P, p, 1e-3) && same(K, k, 1e-3), "dare", "steady state cost %.9g and gain %.9g, expected %.9g and %.9g", P(0, 0), K(0, 0), p(0, 0), k(0, 0));
        sim::logd(P(0, 0));
        sim::probe("dare_checked");
    }
}
template <int n, int m>
void careUser(const std::vector<Op>& ops)
{
    CARE<n, m> c;
    LQR<n, m> l;
    for (const Op& o : ops)
    {
        sim::yield();
        Rng g(o.seed);
        Eigen::Matrix<double, n, n> A = EM<n, n>(g.m(n, n, 1)), Q = EM<n, n>(g.spd(n, 0.2, 0.7)), P;
        Eigen::Matrix<double, m, m> R = EM<m, m>(g.spd(m, 0.5, 0.7)), Ri;
        bool diag = o.n % 3 == 0;
        if (diag)
            for (int i = 0; i < m; i++)
                for (int j = 0; j < m; j++)
                    if (i != j)
                        R(i, j) = 0;
        Eigen::Matrix<double, n, m> B = EM<n, m>(g.m(n, m, 1));
        // well controllable only
        MX ctr(n, n), w = B, a = A, b = B;
        for (int i = 0; i < n; i++)
        {
            ctr = ctr + w * w.t();
            w = a * w;
        }
        if (minEig(ctr) < 0.02)
            continue;
        MX ri = linSolve(MX(R), MX::id(m));
        bool iter = o.kind % 2;
        P.setConstant(std::nan(""));
        Ri.setConstant(std::nan(""));
        Eigen::Matrix<double, m, n> K;
        K.setConstant(std::nan(""));
        const char* what = iter ? "iterative" : "direct";
        try
        {
            if (o.kind % 3 == 0)
            {
                SIM_CHECK(l.compute(Q, R, A, B, K, diag, iter), "care-failed", "LQR (%s) reports failure for a controllable system", what);
                P = c.computeSteadyStateRiccatiMatrix(Q, R, A, B, diag, !iter);
            }
            else
            {
                SIM_CHECK(c.solve(Q, R, A, B, P, diag, Ri, iter), "care-failed", "CARE (%s) reports failure for a controllable system", what);
                SIM_CHECK(same(Ri, ri, 1e-9), "care", "the returned inverse of R is wrong");
                K = EM<m, n>(ri * b.t() * MX(P));
            }
        } catch (std::runtime_error&)
        {
            // the Schur decomposition (Eigen) sometimes does not converge, which depends on the problem only
            CARE<n, m> fresh;
            SIM_CHECK(throws([&]() { fresh.solve(Q, R, A, B, P, diag, Ri, false); }), "care-failed", "the direct solution fails, while that of a new object succeeds");
            sim::probe("schur_failed");
            continue;
        }
        MX pp = P, res = a.t() * pp + pp * a - pp * b * ri * b.t() * pp + MX(Q);
        double sc = 1 + maxAbs(P);
        SIM_CHECK(finite(P) && maxAbs(res) <= 1e-6 * sc * sc, "care", "%s solution leaves a residual of %.3g in the Riccati equation (cost %.6g)", what, maxAbs(res),
            maxAbs(P));
        SIM_CHECK(maxAbs(pp - pp.t()) <= 1e-6 * sc, "care", "%s solution is not symmetric", what);
        SIM_CHECK(same(K, ri * b.t() * pp, 1e-5), "care", "%s gain %.9g does not belong to the cost matrix", what, K(0, 0));
        // the stabilising solution is the positive definite one, as Q is positive definite
        SIM_CHECK(minEig(sym(pp)) > 0, "care", "%s gain leaves the closed loop unstable", what);
        sim::logd(P(0, 0));
        sim::probe("care_checked");
    }
}

template <int n, int m>
void run()
{
    int k = (int)sim::P("users", 1, 3);
    bool alloc = k == 1 && sim::PB("alloc_faults", 50);
    std::vector<std::vector<Op>> ops;
    std::vector<int> subject;
    for (int i = 0; i < k; i++)
    {
        ops.push_back(drawOps(1, 14, alloc));
        subject.push_back((int)sim::P("subject", 0, 6));
    }
    typedef LqocUser<n, m> LU;
    std::vector<typename LU::Shared> pool;
    for (int i = 0; i < 2; i++)
    {
        int N = (int)sim::P("pool.N", 1, 6);
        Prob p = randomProblem(n, m, N, sim::P("pool.seed", 1, 1 << 30));
        auto l = std::make_shared<LQOCProblem<n, m>>(N);
        write<n, m>(*l, p, false);
        pool.push_back({l, p});
    }
    std::vector<LU> lu(k);
    std::vector<std::unique_ptr<GNRiccatiSolver<n, m>>> solvers(k);
    // memory that was in use before: an object must not rely on what it finds there
    int trash = (int)sim::P("trash", 1, 6);
    {
        size_t sz = sizeof(GNRiccatiSolver<n, m>);
        for (int rep = 0; rep < 3; rep++)
        {
            void* p = Eigen::internal::aligned_malloc(sz);
            for (size_t i = 0; i + sizeof(int) <= sz; i += sizeof(int))
                *reinterpret_cast<volatile int*>(static_cast<char*>(p) + i) = trash;
            Eigen::internal::aligned_free(p);
        }
    }
    for (int i = 0; i < k; i++)
        if (subject[i] <= 3)
            // constructing sets a global of Eigen, so it is done before the users start
            solvers[i].reset(sim::PB("sized", 50) ? new GNRiccatiSolver<n, m>(trash) : new GNRiccatiSolver<n, m>());
    hooks().yields = true;
    if (sim::PB("model_fails", 50))
    {
        hooks().armed = true;
        hooks().p_throw = 0.1;
    }
    bool construct = k > 1;  // a solver constructed while others run would race on that global
    if (construct)
        for (auto& v : ops)
            for (auto& o : v)
                if (o.kind % 8 == 6)
                    o.kind = 0;
    sim::race_detection(true);
    if (sim::PB("plain_preempt", 50))
        sim::preempt_plain((int)sim::P("plain_mean", 5, 1000));
    sim::set_step_budget(400000, 400000000ull);
    auto work = [&](int i) {
        if (subject[i] <= 3)
            lu[i].run(ops[i], pool, std::move(solvers[i]));
        else if (subject[i] == 4)
            fhUser<n, m>(ops[i]);
        else if (subject[i] == 5)
            dareUser<n, m>(ops[i]);
        else
            careUser<n, m>(ops[i]);
    };
    std::vector<std::thread> th;
    for (int i = 1; i < k; i++)
        th.emplace_back(work, i);
    work(0);
    for (auto& t : th)
        t.join();
    sim::probe_if(k > 1, "several_users");
    sim::disable_faults();
}

}  // namespace

extern "C" void sim_scenario(const char* sc)
{
    std::string s = sc;
    if (s != "solve")
        sim::violation("internal", "unknown scenario %s", sc);
    if (sim::PB("large", 50))
        run<3, 2>();
    else
        run<2, 1>();
}
