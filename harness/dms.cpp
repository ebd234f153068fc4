// Simulation of direct multiple shooting: the DMS problem as an NLP solver sees it. Shots are integrated by OpenMP teams
// (the simulator provides the OpenMP runtime); the NLP solver is a seeded caller that sets variables and asks for cost,
// gradient, constraints and Jacobian in any order, changes the problem in between and survives failing evaluations.
#include "common.h"
#include <ct/optcon/dms/dms_core/DmsProblem.h>
#include <thread>

using namespace h;
using namespace ct::optcon;
typedef ct::core::StateVector<2> SV;
typedef ct::core::ControlVector<1> CV;
typedef DmsProblem<2, 1> Problem;
typedef ContinuousOptConProblem<2, 1> OC;
typedef std::vector<double> Vec;

namespace {

struct Cfg
{
    DmsSettings s;
    int sub;  // integration steps per shot
    Plant plant;
    CostDef cost;
    double x0[2];
    bool analytic, box, sbox, general, terminal, tonly;  // tonly: only at the end
};

// g = (x0^2 + 2 u, sin(x1) u + t)
class General : public ConstraintBase<2, 1>
{
public:
    EIGEN_MAKE_ALIGNED_OPERATOR_NEW
    General()
    {
        this->lb_.resize(2);
        this->ub_.resize(2);
        this->lb_ << -3, -4;
        this->ub_ << 5, 6;
    }
    General(const General& o) : ConstraintBase<2, 1>(o) {}
    General* clone() const override { return new General(*this); }
    size_t getConstraintSize() const override { return 2; }
    VectorXs evaluate(const SV& x, const CV& u, const double t) override
    {
        VectorXs v(2);
        v << x(0) * x(0) + 2 * u(0), std::sin(x(1)) * u(0) + t;
        return v;
    }
    MatrixXs jacobianState(const SV& x, const CV& u, const double t) override
    {
        MatrixXs m(2, 2);
        m << 2 * x(0), 0, 0, std::cos(x(1)) * u(0);
        return m;
    }
    MatrixXs jacobianInput(const SV& x, const CV& u, const double t) override
    {
        MatrixXs m(2, 1);
        m << 2, std::sin(x(1));
        return m;
    }
};

Cfg draw(const char* tag, bool failing)
{
    auto nm = [&](const char* n) { return std::string(tag) + n; };
    Cfg c;
    DmsSettings& s = c.s;
    s.N_ = (size_t)sim::P(nm("N").c_str(), 1, 8);
    s.T_ = 0.1 * (double)sim::P(nm("T").c_str(), 2, 20);
    c.sub = (int)sim::P(nm("sub").c_str(), 1, 4);
    s.dt_sim_ = s.T_ / (double)s.N_ / c.sub;
    s.nThreads_ = (size_t)sim::P(nm("threads").c_str(), 1, 5);
    s.splineType_ = sim::PB(nm("linear").c_str(), 50) ? DmsSettings::PIECEWISE_LINEAR : DmsSettings::ZERO_ORDER_HOLD;
    s.costEvaluationType_ = sim::PB(nm("full").c_str(), 70) ? DmsSettings::FULL : DmsSettings::SIMPLE;
    s.objectiveType_ = DmsSettings::KEEP_TIME_AND_GRID;
    s.integrationType_ = sim::PB(nm("rk4").c_str(), 50) ? DmsSettings::RK4 : DmsSettings::EULER;
    s.h_min_ = 0.01;
    c.plant.a = sim::PR(nm("plant.a").c_str(), 0.5, 5);
    c.plant.c = sim::PR(nm("plant.c").c_str(), 0, 2);
    c.cost.xd0 = sim::PR(nm("xd").c_str(), -1, 2);
    c.x0[0] = sim::PR(nm("x0.q").c_str(), -1, 1);
    c.x0[1] = sim::PR(nm("x0.v").c_str(), -1, 1);
    c.analytic = sim::PB(nm("analytic").c_str(), 70);
    c.box = sim::PB(nm("box").c_str(), 30);
    c.sbox = sim::PB(nm("sbox").c_str(), 20);
    c.general = sim::PB(nm("general").c_str(), 30);
    c.terminal = c.general && sim::PB(nm("terminal").c_str(), 50);
    c.tonly = c.terminal && sim::PB(nm("tonly").c_str(), 40);
    return c;
}

typedef std::shared_ptr<LinearConstraintContainer<2, 1>> Con;

std::shared_ptr<Problem> make(const Cfg& c, size_t threads)
{
    DmsSettings s = c.s;
    s.nThreads_ = threads;
    std::vector<OC::DynamicsPtr_t> sys;
    std::vector<OC::LinearPtr_t> lin;
    std::vector<OC::CostFunctionPtr_t> cost;
    auto c0 = make_cost(c.cost);
    for (size_t i = 0; i < s.N_; i++)
    {
        sys.push_back(OC::DynamicsPtr_t(new PlantSystem(c.plant)));
        if (c.analytic)
            lin.push_back(OC::LinearPtr_t(new PlantLinear(c.plant)));
        else
            lin.push_back(OC::LinearPtr_t(new ct::core::SystemLinearizer<2, 1>(std::shared_ptr<ct::core::ControlledSystem<2, 1>>(new PlantSystem(c.plant)))));
        cost.push_back(OC::CostFunctionPtr_t(c0->clone()));
    }
    std::vector<OC::ConstraintPtr_t> ib, sb, ge;
    if (c.box)
    {
        auto k = std::make_shared<ConstraintContainerAnalytical<2, 1>>();
        CV lo, hi;
        lo << -1;
        hi << 2;
        k->addIntermediateConstraint(std::make_shared<ControlInputConstraint<2, 1>>(lo, hi), false);
        k->initialize();
        ib.push_back(k);
    }
    if (c.sbox)
    {
        auto k = std::make_shared<ConstraintContainerAnalytical<2, 1>>();
        SV lo, hi;
        lo << -1, -2;
        hi << 2, 3;
        k->addIntermediateConstraint(std::make_shared<StateConstraint<2, 1>>(lo, hi), false);
        k->addTerminalConstraint(std::make_shared<StateConstraint<2, 1>>(lo, hi), false);
        k->initialize();
        sb.push_back(k);
    }
    if (c.general)
    {
        auto k = std::make_shared<ConstraintContainerAnalytical<2, 1>>();
        if (!c.tonly)
            k->addIntermediateConstraint(std::make_shared<General>(), false);
        if (c.terminal)
            k->addTerminalConstraint(std::make_shared<General>(), false);
        k->initialize();
        ge.push_back(k);
    }
    SV x0;
    x0 << c.x0[0], c.x0[1];
    return std::make_shared<Problem>(s, sys, lin, cost, ib, sb, ge, x0);
}

// ---- reference: the transcription written out independently
struct Ref
{
    const Cfg& c;
    double T;
    double x0[2];
    double u(const Vec& w, size_t i, double t) const
    {
        double h = T / (double)c.s.N_, a = w[3 * i + 2];
        if (c.s.splineType_ == DmsSettings::ZERO_ORDER_HOLD || i >= c.s.N_)
            return a;
        double b = w[3 * i + 5], f = (t - (double)i * h) / h;
        return a + (b - a) * f;
    }
    // integrates shot i; returns the integrated cost
    double shot(const Vec& w, size_t i, double* x) const
    {
        double h = T / (double)c.s.N_;
        int n = (int)(h / c.s.dt_sim_ + 0.5);
        double dt = c.s.dt_sim_, cost = 0, t = (double)i * h;
        x[0] = w[3 * i];
        x[1] = w[3 * i + 1];
        for (int k = 0; k < n; k++, t += dt)
        {
            double k1[2], k2[2], k3[2], k4[2], y[2], z[2];
            double u0 = u(w, i, t), um = u(w, i, t + 0.5 * dt), u1 = u(w, i, t + dt);
            double l = c.cost.intermediate(x[0], x[1], u0);
            PlantSystem::rhs(c.plant, x, u0, k1);
            if (c.s.integrationType_ == DmsSettings::EULER)
            {
                cost += dt * l;
                x[0] += dt * k1[0];
                x[1] += dt * k1[1];
                continue;
            }
            for (int j = 0; j < 2; j++)
                y[j] = x[j] + 0.5 * dt * k1[j];
            PlantSystem::rhs(c.plant, y, um, k2);
            l += 2 * c.cost.intermediate(y[0], y[1], um);
            for (int j = 0; j < 2; j++)
                z[j] = x[j] + 0.5 * dt * k2[j];
            PlantSystem::rhs(c.plant, z, um, k3);
            l += 2 * c.cost.intermediate(z[0], z[1], um);
            for (int j = 0; j < 2; j++)
                y[j] = x[j] + dt * k3[j];
            PlantSystem::rhs(c.plant, y, u1, k4);
            l += c.cost.intermediate(y[0], y[1], u1);
            cost += dt / 6 * l;
            for (int j = 0; j < 2; j++)
                x[j] += dt / 6 * (k1[j] + 2 * k2[j] + 2 * k3[j] + k4[j]);
        }
        return cost;
    }
    double cost(const Vec& w) const
    {
        size_t N = c.s.N_;
        double J = c.cost.final(w[3 * N], w[3 * N + 1]), h = T / (double)N;
        for (size_t i = 0; i < N; i++)
        {
            double x[2];
            if (c.s.costEvaluationType_ == DmsSettings::FULL)
                J += shot(w, i, x);
            else
            {
                double a = c.cost.intermediate(w[3 * i], w[3 * i + 1], w[3 * i + 2]);
                double b = c.cost.intermediate(w[3 * i + 3], w[3 * i + 4], w[3 * i + 5]);
                J += c.s.splineType_ == DmsSettings::ZERO_ORDER_HOLD ? h * a : 0.5 * h * (a + b);
            }
        }
        return J;
    }
    Vec constraints(const Vec& w) const
    {
        size_t N = c.s.N_;
        Vec r;
        r.push_back(w[0] - x0[0]);
        r.push_back(w[1] - x0[1]);
        for (size_t i = 0; i < N; i++)
        {
            double x[2];
            shot(w, i, x);
            r.push_back(w[3 * i + 3] - x[0]);
            r.push_back(w[3 * i + 4] - x[1]);
        }
        auto gen = [&](size_t n) {
            double t = (double)n * T / (double)N;
            r.push_back(w[3 * n] * w[3 * n] + 2 * w[3 * n + 2]);
            r.push_back(std::sin(w[3 * n + 1]) * w[3 * n + 2] + t);
        };
        for (size_t n = 0; n <= N; n++)
        {
            if (c.box)
                r.push_back(w[3 * n + 2]);
            if (c.sbox)
            {
                r.push_back(w[3 * n]);
                r.push_back(w[3 * n + 1]);
            }
            if (c.general && !c.tonly)
                gen(n);
        }
        if (c.sbox)
        {
            r.push_back(w[3 * N]);
            r.push_back(w[3 * N + 1]);
        }
        if (c.terminal)
            gen(N);
        return r;
    }
};

struct Nlp
{
    const Cfg& c;
    std::shared_ptr<Problem> p;
    Ref ref;
    Vec w;
    size_t n, m, nz;
    bool failing;
    const char* who;
    bool fresh = false;  // variables were set since the last change of the problem
    bool saved = true;

    Nlp(const Cfg& cc, size_t threads, bool f, const char* wh) : c(cc), p(make(cc, threads)), ref{cc, cc.s.T_, {cc.x0[0], cc.x0[1]}}, failing(f), who(wh)
    {
        n = p->getVarCount();
        m = p->getConstraintsCount();
        nz = p->getNonZeroJacobianCount();
        SIM_CHECK(n == 3 * (c.s.N_ + 1), "dimension", "%s: %zu optimisation variables for %zu shots", who, n, c.s.N_);
        Vec z(n, 0.1);
        SIM_CHECK(m == ref.constraints(z).size(), "dimension", "%s: %zu constraints instead of %zu", who, m, ref.constraints(z).size());
    }
    void set(const Vec& x, bool isNew = true)
    {
        w = x;
        Eigen::Map<const Eigen::VectorXd> mp(w.data(), (long)w.size());
        p->extractOptimizationVars(mp, isNew);
        fresh = true;
    }
    // kinds: cost, gradient, constraints, Jacobian
    bool eval(int kind, Vec& out)
    {
        out.assign(kind == 0 ? 1 : kind == 1 ? n : kind == 2 ? m : nz, -777);
        Eigen::Map<Eigen::VectorXd> mp(out.data(), (long)out.size());
        if (kind == 0)
            out[0] = p->evaluateCostFun();
        else if (kind == 1)
            p->evaluateCostGradient(n, mp);
        else if (kind == 2)
            p->evaluateConstraints(mp);
        else
            p->evaluateConstraintJacobian((int)nz, mp);
        return true;
    }
    // an evaluation may fail only if the user's model failed during it
    bool guarded(int kind, Vec& out)
    {
        uint64_t before = sim::faults_fired("user_exception");
        bool threw = false;
        std::string what;
        if (failing)
            hooks().armed = true;
        try
        {
            eval(kind, out);
        } catch (std::exception& e)
        {
            threw = true;
            what = e.what();
        }
        if (failing)
            hooks().armed = false;
        bool fired = sim::faults_fired("user_exception") != before;
        SIM_CHECK(fired || !threw, "spurious-failure", "%s: evaluation %d failed (%s) though nothing went wrong", who, kind, what.c_str());
        SIM_CHECK(!fired || threw, "failure-lost", "%s: the model failed during evaluation %d, which reported nothing", who, kind);
        if (threw)
        {
            SIM_CHECK(what == "injected model failure", "failure-changed", "%s: the model's failure arrives as '%s'", who, what.c_str());
            sim::probe("failure_reported");
        }
        return !threw;
    }
    void check(int kind, const Vec& v)
    {
        if (kind == 0)
        {
            double r = ref.cost(w);
            SIM_CHECK(close(v[0], r, 1e-7), "wrong-cost", "%s: cost %.12g, the variables' cost is %.12g", who, v[0], r);
        }
        else if (kind == 1)
        {
            for (size_t i = 0; i < n; i++)
            {
                double d[2];
                for (int q = 0; q < 2; q++)
                {
                    double h = q ? 1e-5 : 1e-4;
                    Vec a(w), b(w);
                    a[i] -= h;
                    b[i] += h;
                    d[q] = (ref.cost(b) - ref.cost(a)) / (2 * h);
                }
                double r = d[1];
                SIM_CHECK(close(v[i], r, tolJ()) || std::fabs(v[i] - r) < 3 * std::fabs(d[0] - d[1]), "wrong-gradient", "%s: cost gradient entry %zu is %.9g, differencing the cost gives %.9g", who, i, v[i], r);
            }
        }
        else if (kind == 2)
        {
            Vec r = ref.constraints(w);
            for (size_t i = 0; i < m; i++)
                SIM_CHECK(close(v[i], r[i], 1e-7), "wrong-constraint", "%s: constraint %zu of %zu is %.12g instead of %.12g", who, i, m, v[i], r[i]);
        }
        else
        {
            std::vector<int> ir(nz), jc(nz);
            Eigen::Map<Eigen::VectorXi> mi(ir.data(), (long)nz), mj(jc.data(), (long)nz);
            p->getSparsityPatternJacobian((int)nz, mi, mj);
            Vec dense(m * n, 0.0);
            for (size_t k = 0; k < nz; k++)
            {
                SIM_CHECK(ir[k] >= 0 && ir[k] < (int)m && jc[k] >= 0 && jc[k] < (int)n, "wrong-jacobian", "%s: Jacobian entry %zu at (%d,%d)", who, k, ir[k], jc[k]);
                dense[(size_t)ir[k] * n + (size_t)jc[k]] += v[k];
            }
            for (size_t j = 0; j < n; j++)
            {
                Vec ra[2], rb[2];
                for (int q = 0; q < 2; q++)
                {
                    double h = q ? 1e-5 : 1e-4;
                    Vec a(w), b(w);
                    a[j] -= h;
                    b[j] += h;
                    ra[q] = ref.constraints(a);
                    rb[q] = ref.constraints(b);
                }
                for (size_t i = 0; i < m; i++)
                {
                    double r0 = (rb[0][i] - ra[0][i]) / 2e-4, r = (rb[1][i] - ra[1][i]) / 2e-5;
                    SIM_CHECK(close(dense[i * n + j], r, tolJ()) || std::fabs(dense[i * n + j] - r) < 3 * std::fabs(r - r0), "wrong-jacobian",
                        "%s: derivative of constraint %zu by variable %zu is %.9g, differencing the constraints gives %.9g", who, i, j, dense[i * n + j], r);
                }
            }
        }
        for (double d : v)
            sim::logd(d);
    }
    double tolJ() const { return c.analytic ? 1e-5 : 1e-4; }
};

Vec variables(const Cfg& c, const char* tag)
{
    Vec w;
    for (size_t i = 0; i < 3 * (c.s.N_ + 1); i++)
        w.push_back(sim::PR(tag, -1.5, 1.5));
    return w;
}

void history(const Cfg& c, bool failing, const char* tag)
{
    std::string t(tag);
    Nlp a(c, c.s.nThreads_, failing, "parallel");
    std::unique_ptr<Nlp> serial;
    if (!failing && sim::PB((t + "twin").c_str(), 40))
        serial.reset(new Nlp(c, 1, false, "serial"));
    auto set = [&] {
        Vec w = variables(c, (t + "w").c_str());
        a.set(w);
        if (serial)
            serial->set(w);
    };
    set();
    int ops = (int)sim::P((t + "ops").c_str(), 2, 12);
    for (int i = 0; i < ops; i++)
    {
        int k = (int)sim::P((t + "op").c_str(), 0, 8);
        if (k == 4 || k == 5)
            set();
        else if (k == 6)
        {
            a.ref.x0[0] = sim::PR((t + "nx0").c_str(), -1, 1);
            a.ref.x0[1] = sim::PR((t + "nx1").c_str(), -1, 1);
            SV x;
            x << a.ref.x0[0], a.ref.x0[1];
            a.p->changeInitialState(x);
            if (serial)
            {
                serial->p->changeInitialState(x);
                serial->ref.x0[0] = x(0);
                serial->ref.x0[1] = x(1);
            }
            set();
            sim::probe("initial_state_changed");
        }
        else if (k == 7)
        {
            int sub = (int)sim::P((t + "nsub").c_str(), 1, 5);
            double steps = sub;
            if (sim::PB((t + "uneven").c_str(), 30))  // the shots' steps then cover the interval only roughly
                steps += sim::PR((t + "rest").c_str(), -0.4, 0.4);
            double T = c.s.dt_sim_ * steps * (double)c.s.N_;
            a.ref.T = T;
            a.p->changeTimeHorizon(T);
            if (serial)
            {
                serial->p->changeTimeHorizon(T);
                serial->ref.T = T;
            }
            set();
            sim::probe("horizon_changed");
        }
        else
        {
            int kind = k == 8 ? 3 : k;
            if (sim::PB((t + "same").c_str(), 30))
                a.set(a.w, false);  // the NLP solver hands the same variables again
            Vec v;
            bool ok = a.guarded(kind, v);
            if (!ok)
            {
                if (sim::PB((t + "after").c_str(), 50))
                    set();
                int again = sim::PB((t + "other").c_str(), 50) ? (int)sim::P((t + "okind").c_str(), 0, 3) : kind;
                try
                {
                    a.eval(again, v);
                } catch (std::exception& e)
                {
                    sim::violation("not-recovered", "evaluation %d failed (%s) after an earlier failure", again, e.what());
                }
                a.check(again, v);
                sim::probe("recovered");
                continue;
            }
            a.check(kind, v);
            if (serial)
            {
                Vec s;
                serial->eval(kind, s);
                SIM_CHECK(s.size() == v.size(), "threads-differ", "different sizes");
                for (size_t j = 0; j < v.size(); j++)
                    SIM_CHECK(close(v[j], s[j], 1e-12), "threads-differ", "evaluation %d, entry %zu: %.17g with %zu threads, %.17g with one", kind, j, v[j], c.s.nThreads_, s[j]);
                sim::probe("compared");
            }
        }
    }
}

void run(bool failing)
{
    Cfg c = draw("", failing);
    hooks().yields = sim::PB("yields", 80);
    hooks().p_throw = failing ? 0.02 : 0;
    sim::set_step_budget(400000, 900000000ull);
    sim::race_detection(true);
    sim::omp_fewer_threads(sim::PB("fewer", 20));
    if (sim::PB("plain_preempt", 40))
        sim::preempt_plain((int)sim::P("plain_mean", 3, 2000));
    if (!failing && sim::PB("two_users", 15))
    {
        Cfg c2 = draw("b.", false);
        std::thread th([&] { history(c2, false, "b."); });
        history(c, false, "");
        th.join();
        sim::probe("two_users");
    }
    else
        history(c, failing, "");
    SIM_CHECK(sim::live_threads() == 1, "thread-leak", "%d threads left", sim::live_threads() - 1);
}

}  // namespace

extern "C" void sim_scenario(const char* scenario)
{
    run(std::string(scenario) == "fail");
}
