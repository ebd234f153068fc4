// Simulation of the multi-threaded optimal control solver (NLOptConSolver, nThreads > 1): worker pool, shared LQ
// approximation / shot rollout / line search phases, life cycle, failures in the user's model.
#include "common.h"

using namespace h;
using namespace ct::optcon;
typedef NLOptConSettings NS;
typedef NLOptConSolver<2, 1, 1, 1>::Policy_t Policy;

namespace {

struct Cfg
{
    NS s;
    int K;
    double T;
    Plant plant;
    CostDef cost;
    double x0[2];
    bool analytic;
    double linA = -1;  // the linear system is still the one of the plant before a change of the nonlinear system
    bool withModelYields;
    bool discrete = false;
};

Cfg draw(bool discrete)
{
    Cfg c;
    c.discrete = discrete;
    NS& s = c.s;
    static const NS::NLOCP_ALGORITHM alg[] = {NS::GNMS, NS::ILQR, NS::MS_ILQR, NS::SS_OL, NS::SS_CL, NS::GNMS_M_OL, NS::GNMS_M_CL};
    s.nlocp_algorithm = alg[sim::P("alg", 0, 6)];
    c.K = (int)sim::P("K", 2, 12);
    s.dt = 0.03 + 0.01 * (double)sim::P("dt", 0, 6);
    c.T = s.dt * c.K;
    s.K_sim = (int)sim::P("K_sim", 1, 3);
    s.K_shot = (int)sim::P("K_shot", 1, 6);
    if (s.nlocp_algorithm == NS::GNMS || s.nlocp_algorithm == NS::ILQR)
        s.K_shot = 1;
    static const ct::core::IntegrationType it[] = {ct::core::IntegrationType::RK4, ct::core::IntegrationType::EULERCT,
        ct::core::IntegrationType::RK4CT, ct::core::IntegrationType::EULER_SYM, ct::core::IntegrationType::EULER};
    s.integrator = it[sim::P("integrator", 0, 4)];
    s.useSensitivityIntegrator = sim::PB("sensitivity", 40);
    static const NS::APPROXIMATION ap[] = {NS::APPROXIMATION::FORWARD_EULER, NS::APPROXIMATION::BACKWARD_EULER,
        NS::APPROXIMATION::TUSTIN, NS::APPROXIMATION::MATRIX_EXPONENTIAL};
    s.discretization = ap[sim::P("discretization", 0, 3)];
    s.timeVaryingDiscretization = sim::PB("tvd", 20);
    s.lineSearchSettings.type = (LineSearchSettings::TYPE)sim::P("ls", 0, 2);
    s.lineSearchSettings.maxIterations = (size_t)sim::P("ls_iter", 1, 7);
    static const double a0[] = {1.0, 2.0, 4.0, 16.0};
    s.lineSearchSettings.alpha_0 = a0[sim::P("alpha0", 0, 3)];
    s.lineSearchSettings.n_alpha = sim::PB("quarter", 30) ? 0.25 : 0.5;
    s.meritFunctionRho = sim::PB("rho", 50) ? 10.0 : 0.0;
    s.max_iterations = (int)sim::P("max_it", 1, 4);
    s.min_cost_improvement = sim::PB("improve", 50) ? 1e-5 : 1e-12;
    s.fixedHessianCorrection = sim::PB("hess", 20);
    s.nThreads = 1;
    s.nThreadsEigen = 1;
    s.printSummary = false;
    s.debugPrint = false;
    s.lqocp_solver = NS::GNRICCATI_SOLVER;
    c.plant.a = sim::PR("plant.a", 0.5, 8);
    c.plant.c = sim::PR("plant.c", 0, 2);
    c.cost.r = sim::PR("cost.r", 0.01, 0.3);
    c.cost.qf0 = sim::PR("cost.qf", 1, 60);
    c.cost.xd0 = sim::PR("cost.xd", 0, 3);
    c.x0[0] = sim::PR("x0.q", -2, 2);
    c.x0[1] = sim::PR("x0.v", -1, 1);
    c.analytic = sim::PB("analytic", 50);
    if (sim::PB("wave_cost", 40))
        c.cost.wave = sim::PR("wave", 0.1, 3);
    if (discrete)
        s.K_sim = 1;
    c.withModelYields = sim::PB("yields", 80);
    return c;
}

ct::core::StateVector<2> sv(double a, double b)
{
    ct::core::StateVector<2> x;
    x << a, b;
    return x;
}

// slope: the guessed states move away from the initial one; extra: the guess is longer than the horizon
Policy guess(const Cfg& c, int K, double u0, double k0, double slope = 0, int extra = 0)
{
    ct::core::StateVectorArray<2> x(K + 1 + extra, sv(c.x0[0], c.x0[1]));
    for (int i = 0; i < K + 1 + extra; i++)
        x[i] += sv(slope * i, -0.5 * slope * i);
    K += extra;
    ct::core::ControlVector<1> u;
    u << u0;
    ct::core::ControlVectorArray<1> uff(K, u);
    ct::core::FeedbackMatrix<2, 1> f;
    f << -k0, -0.2 * k0;
    ct::core::FeedbackArray<2, 1> fb(K, f);
    return Policy(x, uff, fb, c.s.dt);
}

struct Snap
{
    std::vector<double> v;
    int ret = 0;
    std::string err;
    double cost = 0;
    int K = 0;
};

// the two kinds of solver
struct Cont
{
    typedef NLOptConSolver<2, 1, 1, 1> Solver;
    typedef ContinuousOptConProblem<2, 1> Problem;
    typedef std::shared_ptr<ct::core::ControlledSystem<2, 1>> Sys;
    typedef std::shared_ptr<ct::core::LinearSystem<2, 1>> Lin;
    static Sys sys(const Cfg& c) { return Sys(new PlantSystem(c.plant)); }
    static Lin lin(const Cfg& c) { return Lin(new PlantLinear(c.plant)); }
    static Lin numeric(const Sys& s) { return Lin(new ct::core::SystemLinearizer<2, 1>(s)); }
    static double horizon(const Cfg& c, int K) { return K * c.s.dt; }
};
struct Disc
{
    typedef NLOptConSolver<2, 1, 1, 1, double, false> Solver;
    typedef DiscreteOptConProblem<2, 1> Problem;
    typedef std::shared_ptr<ct::core::DiscreteControlledSystem<2, 1>> Sys;
    typedef std::shared_ptr<ct::core::DiscreteLinearSystem<2, 1>> Lin;
    static Sys sys(const Cfg& c) { return Sys(new PlantDiscrete(c.plant, c.s.dt)); }
    static Lin lin(const Cfg& c) { return Lin(new PlantDiscreteLinear(c.plant, c.s.dt)); }
    static Lin numeric(const Sys& s) { return Lin(new ct::core::DiscreteSystemLinearizer<2, 1>(s)); }
    static int horizon(const Cfg& c, int K) { return K; }  // a discrete-time problem counts stages
};

template <class M>
typename M::Problem problem(const Cfg& c)
{
    typename M::Sys sys = M::sys(c);
    Cfg l = c;
    if (c.linA >= 0)
        l.plant.a = c.linA;
    typename M::Lin lin = c.analytic ? M::lin(l) : M::numeric(c.linA >= 0 ? M::sys(l) : sys);
    typename M::Problem p(M::horizon(c, c.K), sv(c.x0[0], c.x0[1]), sys, make_cost(c.cost), lin);
    return p;
}

template <class Solver>
void snap(Solver& s, Snap& o)
{
    const Policy& p = s.getSolution();
    o.cost = s.getCost();
    o.v.push_back(o.cost);
    auto x = s.getStateTrajectory();
    auto u = s.getControlTrajectory();
    o.K = (int)u.size();
    o.v.push_back((double)x.size());
    o.v.push_back((double)u.size());
    for (size_t i = 0; i < x.size(); i++)
        for (int j = 0; j < 2; j++)
            o.v.push_back(x[i](j));
    for (size_t i = 0; i < u.size(); i++)
        o.v.push_back(u[i](0));
    for (size_t i = 0; i < p.uff().size(); i++)
        o.v.push_back(p.uff()[i](0));
    for (size_t i = 0; i < p.K().size(); i++)
        for (int j = 0; j < 2; j++)
            o.v.push_back(p.K()[i](0, j));
    for (size_t i = 0; i < p.x_ref().size(); i++)
        for (int j = 0; j < 2; j++)
            o.v.push_back(p.x_ref()[i](j));
    for (size_t i = 0; i < s.getTimeArray().size(); i++)
        o.v.push_back(s.getTimeArray()[i]);
}

struct Op
{
    int kind;
    int64_t a, b;
    int wide = -1;  // a changed configuration concerns more than the line search
};

NS reconfigured(NS n, const Op& op)
{
    n.lineSearchSettings.type = (LineSearchSettings::TYPE)(op.a % 3);
    n.lineSearchSettings.maxIterations = 1 + op.b % 6;
    if (op.wide < 0)
        return n;
    static const NS::NLOCP_ALGORITHM alg[] = {NS::GNMS, NS::ILQR, NS::MS_ILQR, NS::SS_OL, NS::SS_CL, NS::GNMS_M_OL, NS::GNMS_M_CL};
    static const NS::APPROXIMATION ap[] = {NS::APPROXIMATION::FORWARD_EULER, NS::APPROXIMATION::BACKWARD_EULER, NS::APPROXIMATION::TUSTIN, NS::APPROXIMATION::MATRIX_EXPONENTIAL};
    const int w = op.wide;
    if (w & 1)
    {
        n.nlocp_algorithm = alg[(op.a + op.b) % 7];
        n.K_shot = n.nlocp_algorithm == NS::GNMS || n.nlocp_algorithm == NS::ILQR ? 1 : 1 + op.b % 5;
    }
    if (w & 2)
        n.discretization = ap[op.b % 4];
    if (w & 4)
        n.K_sim = 1 + op.a % 3;
    if (w & 8)
        n.meritFunctionRho = op.b % 2 ? 10.0 : 0.0;
    if (w & 16)
        n.fixedHessianCorrection = op.b % 2;
    if (w & 32)
        n.useSensitivityIntegrator = !n.useSensitivityIntegrator;
    if (w & 64)
        n.timeVaryingDiscretization = !n.timeVaryingDiscretization;
    return n;
}
enum
{
    SOLVE,
    ITERATE,
    PREP_FINISH,
    MPC_ITER,
    NEW_STATE,
    NEW_HORIZON,
    NEW_GUESS,
    NEW_COST,
    NEW_SYSTEM,
    NEW_LINEAR,
    CONFIGURE,
    NOPS
};

// runs one operation; the record holds what the caller can observe afterwards
template <class M>
Snap apply(typename M::Solver& s, Cfg& c, int K0, const Op& op, int threads)
{
    Snap o;
    try
    {
        switch (op.kind)
        {
            case SOLVE:
                o.ret = s.solve();
                break;
            case ITERATE:
                o.ret = s.runIteration();
                break;
            case PREP_FINISH:
                s.prepareIteration();
                o.ret = s.finishIteration();
                break;
            case MPC_ITER:
                s.prepareMPCIteration();
                o.ret = s.finishMPCIteration();
                break;
            case NEW_STATE:
                if (op.b % 3 == 0)  // a small change
                    c.x0[0] += 1e-3 * (double)(op.a % 30);
                else
                {
                    c.x0[0] = -1.5 + 0.1 * (double)(op.a % 30);
                    c.x0[1] = 0.3;
                }
                s.changeInitialState(sv(c.x0[0], c.x0[1]));
                if (op.b % 2)
                    o.ret = s.solve();
                else
                    o.ret = s.runIteration();
                break;
            case NEW_HORIZON:
            {
                int K = 2 + (int)(op.a % 6);
                bool shorter = K < c.K;
                c.K = K;
                c.T = K * c.s.dt;
                s.changeTimeHorizon(c.T);
                if (shorter && op.b % 3 == 0)
                    o.ret = s.runIteration();
                else
                {
                    s.setInitialGuess(guess(c, K, 0.1, 0.5));
                    o.ret = s.solve();
                }
                break;
            }
            case NEW_GUESS:
                s.setInitialGuess(guess(c, c.K, -0.2 + 0.05 * (double)(op.a % 8), 0.3 * (double)(op.b % 4)));
                o.ret = s.runIteration();
                break;
            case NEW_COST:
                c.cost.xd0 = 0.2 * (double)(op.a % 10);
                s.changeCostFunction(make_cost(c.cost));
                o.ret = s.runIteration();
                break;
            case NEW_SYSTEM:
                if (c.linA < 0)
                    c.linA = c.plant.a;
                c.plant.a = 0.5 + (double)(op.a % 5);
                s.changeNonlinearSystem(M::sys(c));
                o.ret = s.runIteration();
                break;
            case NEW_LINEAR:
                s.changeLinearSystem(M::lin(c));
                c.linA = -1;
                c.analytic = true;
                o.ret = s.runIteration();
                break;
            case CONFIGURE:
            {
                NS n = reconfigured(c.s, op);
                c.s = n;
                n.nThreads = threads;
                s.configure(n);
                o.ret = s.runIteration();
                break;
            }
        }
        snap(s, o);
    } catch (std::exception& e)
    {
        sim::enable_fault("alloc_fail", 0);  // the harness itself needs memory to keep the message
        o.err = e.what();
        o.v.clear();
    }
    return o;
}

std::vector<Op> draw_ops()
{
    std::vector<Op> ops;
    int n = (int)sim::P("n_ops", 1, 4);
    for (int i = 0; i < n; i++)
    {
        Op op;
        op.kind = i == 0 ? (int)sim::P("op0", SOLVE, MPC_ITER) : (int)sim::P("op", 0, NOPS - 1);
        op.a = sim::P("op.a", 0, 29);
        op.b = sim::P("op.b", 0, 29);
        ops.push_back(op);
    }
    return ops;
}

const char* opname[] = {"solve", "runIteration", "prepare/finishIteration", "MPC iteration", "new initial state + solve",
    "new horizon + solve", "new guess + iteration", "new cost + iteration", "new system + iteration",
    "new linear system + iteration", "configure + iteration"};

// the returned trajectories, policy and cost must belong to each other
template <class Solver>
void consistent(const Cfg& c, Solver& s, const char* what, const Op& op, const char* who)
{
    // Multiple shooting accepts defects, MPC iterations report the cost of the trajectory before the update
    auto x = s.getStateTrajectory();
    auto u = s.getControlTrajectory();
    SIM_CHECK((int)x.size() == c.K + 1 && (int)u.size() == c.K, "inconsistent-result",
        "%s after %s: %zu states and %zu controls for %d stages", who, what, x.size(), u.size(), c.K);
    // diverged: nothing to say about the numbers
    for (int k = 0; k < c.K; k++)
        if (!fin(u[k](0)) || !fin(x[k + 1](0)) || !fin(x[k + 1](1)) || std::fabs(x[k + 1](0)) + std::fabs(u[k](0)) > 1e6)
            return;
    {
        double cost = 0;
        for (int k = 0; k < c.K; k++)
            cost += c.cost.intermediate(x[k](0), x[k](1), u[k](0), k * c.s.dt) * c.s.dt;
        cost += c.cost.final(x[c.K](0), x[c.K](1), c.K * c.s.dt);
        SIM_CHECK(close(cost, s.getCost(), 1e-6), "cost-mismatch",
            "%s after %s: reported cost %.12g, cost of the returned trajectory %.12g", who, what, s.getCost(), cost);
    }
    bool refInt = c.s.integrator == ct::core::IntegrationType::RK4 || c.s.integrator == ct::core::IntegrationType::RK4CT ||
                  c.s.integrator == ct::core::IntegrationType::EULER || c.s.integrator == ct::core::IntegrationType::EULERCT;
    bool rk4 = c.s.integrator == ct::core::IntegrationType::RK4 || c.s.integrator == ct::core::IntegrationType::RK4CT;
    if (c.s.isSingleShooting() && (refInt || c.discrete))
    {
        double y[2] = {c.x0[0], c.x0[1]};
        for (int k = 0; k < c.K; k++)
        {
            if (c.discrete)
                PlantDiscrete::step(c.plant, c.s.dt, k, u[k](0), y);
            else for (int i = 0; i < c.s.K_sim; i++)
                ref_step(c.plant, rk4, c.s.dt / c.s.K_sim, u[k](0), y);
            bool ok = close(y[0], x[k + 1](0), 1e-6) && close(y[1], x[k + 1](1), 1e-6);
            SIM_CHECK(ok, "trajectory-mismatch",
                "%s after %s: state %d of the returned trajectory is (%.9g, %.9g) but the returned controls lead to (%.9g, %.9g)",
                who, what, k + 1, x[k + 1](0), x[k + 1](1), y[0], y[1]);
            y[0] = x[k + 1](0);
            y[1] = x[k + 1](1);
        }
    }
}

void compare(const Snap& a, const Snap& b, int i, const Op& op)
{
    SIM_CHECK(a.err.empty() == b.err.empty(), "result-differs",
        "operation %d (%s): single-threaded %s%s, multi-threaded %s%s", i, opname[op.kind],
        a.err.empty() ? "succeeds" : "reports: ", a.err.c_str(), b.err.empty() ? "succeeds" : "reports: ", b.err.c_str());
    if (!a.err.empty())
        return;
    SIM_CHECK(a.v.size() == b.v.size(), "result-differs", "operation %d (%s): result sizes differ (%zu, %zu)", i,
        opname[op.kind], a.v.size(), b.v.size());
    double worst = 0;
    size_t wi = 0;
    for (size_t k = 0; k < a.v.size(); k++)
        if (!close(a.v[k], b.v[k], 1e-6))
        {
            double d = fin(a.v[k]) && fin(b.v[k]) ? std::fabs(a.v[k] - b.v[k]) : 1e300;
            if (d > worst)
            {
                worst = d;
                wi = k;
            }
        }
    SIM_CHECK(worst == 0, "result-differs",
        "operation %d (%s): value %zu of the result is %.12g single-threaded and %.12g multi-threaded (cost %.12g / %.12g)", i,
        opname[op.kind], wi, a.v[wi], b.v[wi], a.v[0], b.v[0]);
    SIM_CHECK(a.ret == b.ret, "result-differs", "operation %d (%s): returned %d single-threaded, %d multi-threaded", i,
        opname[op.kind], a.ret, b.ret);
}

// ---------------------------------------------------------------- scenarios
template <class M>
void run_solve(bool races)
{
    typedef typename M::Solver Solver;
    Cfg c = draw(std::is_same<M, Disc>::value);
    int threads = (int)sim::P("threads", 2, 5);
    std::vector<Op> ops = draw_ops();
    std::vector<Snap> ref;
    {
        Cfg r = c;
        r.s.nThreads = 1;
        Solver s(problem<M>(r), r.s);
        s.setInitialGuess(guess(r, r.K, 0.1, 0.5));
        for (auto& op : ops)
        {
            ref.push_back(apply<M>(s, r, c.K, op, 1));
            if (!ref.back().err.empty())
                break;
            if (op.kind != MPC_ITER || r.s.isSingleShooting())
                consistent(r, s, opname[op.kind], op, "single-threaded solver");
        }
    }
    if (sim::PB("spurious", 60))
        sim::enable_fault("spurious_wakeup", 0.02);
    hooks().yields = c.withModelYields;
    sim::race_detection(races);
    if (sim::PB("plain_preempt", 50))
        sim::preempt_plain((int)sim::P("plain_mean", 3, 2000));
    sim::set_step_budget(600000, 400000000ull);
    {
        NS ns = c.s;
        ns.nThreads = threads;
        Cfg m = c;
        Solver s(problem<M>(c), ns);
        s.setInitialGuess(guess(m, m.K, 0.1, 0.5));
        for (size_t i = 0; i < ref.size(); i++)
        {
            Snap o = apply<M>(s, m, c.K, ops[i], threads);
            sim::logd(o.cost);
            compare(ref[i], o, (int)i, ops[i]);
            if (!o.err.empty())
            {
                sim::probe("solver_reported_error");
                break;
            }
            sim::probe_if(o.ret, "improved");
            // an MPC iteration with multiple shooting reports the cost before its update
            if (ops[i].kind != MPC_ITER || m.s.isSingleShooting())
                consistent(m, s, opname[ops[i].kind], ops[i], "multi-threaded solver");
        }
        sim::disable_faults();
    }
    SIM_CHECK(sim::live_threads() == 1, "thread-leak", "%d threads still run after the solver was destroyed", sim::live_threads() - 1);
    SIM_CHECK(sim::unjoined_threads() == 0, "thread-leak", "%d threads were never joined", sim::unjoined_threads());
}

// Failures inside the user's model or of memory allocation while the workers run: the caller sees the failure, nothing
// hangs, and the solver can be used again.
template <class M>
void run_fail()
{
    typedef typename M::Solver Solver;
    Cfg c = draw(std::is_same<M, Disc>::value);
    int threads = (int)sim::P("threads", 2, 5);
    std::vector<Op> ops = draw_ops();
    int failing = (int)sim::P("failing_op", 0, 3);
    int kind = (int)sim::P("failure", 0, 2);  // exception, NaN, allocation
    std::vector<Snap> ref;
    Cfg fin_cfg = c;
    {
        Cfg r = c;
        Solver s(problem<M>(r), r.s);
        s.setInitialGuess(guess(r, r.K, 0.1, 0.5));
        for (auto& op : ops)
        {
            fin_cfg = r;
            ref.push_back(apply<M>(s, r, c.K, op, 1));
            if (!ref.back().err.empty())
                break;
        }
    }
    if (failing >= (int)ref.size())
        failing = (int)ref.size() - 1;
    if (sim::PB("spurious", 40))
        sim::enable_fault("spurious_wakeup", 0.02);
    hooks().yields = c.withModelYields;
    sim::set_step_budget(600000, 400000000ull);
    static const double prob[] = {0.3, 0.03, 0.005, 0.001};
    double pr = prob[sim::P("p_fail", 0, 3)];
    {
        NS ns = c.s;
        ns.nThreads = threads;
        Cfg m = c;
        Solver s(problem<M>(c), ns);
        s.setInitialGuess(guess(m, m.K, 0.1, 0.5));
        for (int i = 0; i <= failing; i++)
        {
            if (i < failing)
            {
                Snap o = apply<M>(s, m, c.K, ops[i], threads);
                compare(ref[i], o, i, ops[i]);
                if (!o.err.empty())
                    return;
                continue;
            }
            uint64_t before = sim::faults_fired("user_exception") + sim::faults_fired("user_nan") + sim::faults_fired("alloc_fail");
            hooks().armed = true;
            hooks().p_throw = kind == 0 ? pr : 0;
            hooks().p_nan = kind == 1 ? pr : 0;
            if (kind == 2)
                sim::enable_fault("alloc_fail", pr);
            Snap o = apply<M>(s, m, c.K, ops[i], threads);
            hooks().armed = false;
            sim::disable_faults();
            bool fired = sim::faults_fired("user_exception") + sim::faults_fired("user_nan") + sim::faults_fired("alloc_fail") != before;
            if (!fired)
            {
                compare(ref[i], o, i, ops[i]);
                return;
            }
            sim::probe(kind == 0 ? "failed_exception" : kind == 1 ? "failed_nan" : "failed_alloc");
            sim::probe_if(!o.err.empty(), "failure_reported");
            if (kind != 1 && o.err.empty())
            {
                // not reported: then the failure must not have had any effect
                compare(ref[i], o, i, ops[i]);
            }
            if (kind == 0 && !o.err.empty())
                SIM_CHECK(o.err == "injected model failure", "failure-lost", "the model reported 'injected model failure', the caller got '%s'", o.err.c_str());
        }
        // use the solver again; after a failed allocation it only has to be destructible
        if (kind == 2)
            return;
        Cfg r = m;
        int by = (int)sim::P("recover_by", 0, 3);
        int again = by == SOLVE ? 1 : (int)sim::P("recover_n", 1, 3);
        double slope = 0.05 * (double)sim::P("recover_slope", -3, 3);
        double gain = 0.4 * (double)sim::P("recover_gain", 0, 3);
        int extra = sim::PB("recover_long", 20) ? (int)sim::P("recover_extra", 1, 4) : 0;
        // the order in which the user hands over the parts; the guess has to fit the horizon
        int order[] = {0, 1, 2, 3, 4, 5};
        for (int i = 5; i > 0; i--)
            std::swap(order[i], order[sim::P("recover_order", 0, i)]);
        int horizonAt = 0, guessAt = 0;
        for (int i = 0; i < 6; i++)
            (order[i] == 4 ? horizonAt : order[i] == 5 ? guessAt : i) = i;
        if (horizonAt > guessAt)
            std::swap(order[horizonAt], order[guessAt]);
        auto handOver = [&](Solver& v, const Cfg& q, int more) {
            typename M::Problem pb = problem<M>(q);
            for (int i = 0; i < 6; i++)
                switch (order[i])
                {
                    case 0:
                        v.changeNonlinearSystem(pb.getNonlinearSystem());
                        break;
                    case 1:
                        v.changeLinearSystem(pb.getLinearSystem());
                        break;
                    case 2:
                        v.changeCostFunction(pb.getCostFunction());
                        break;
                    case 3:
                        v.changeInitialState(sv(q.x0[0], q.x0[1]));
                        break;
                    case 4:
                        v.changeTimeHorizon(q.T);
                        break;
                    case 5:
                        v.setInitialGuess(guess(q, q.K, 0.15, gain, slope, more));
                        break;
                }
        };
        std::vector<Snap> want;
        Op op{by, 0, 0};
        {
            Cfg q = r;
            Solver f(problem<M>(q), q.s);
            handOver(f, q, 0);
            for (int i = 0; i < again; i++)
            {
                want.push_back(apply<M>(f, q, c.K, op, 1));
                if (!want.back().err.empty())
                    break;
            }
        }
        try
        {
            handOver(s, r, extra);
        } catch (std::exception& e)
        {
            sim::violation("not-usable", "after the failure, giving the solver new problem parts and a new guess reports: %s", e.what());
        }
        for (size_t i = 0; i < want.size(); i++)
        {
            Snap got = apply<M>(s, r, c.K, op, threads);
            compare(want[i], got, failing + 1 + (int)i, op);
        }
        sim::probe("recovered");
    }
    SIM_CHECK(sim::live_threads() == 1, "thread-leak", "%d threads still run after the solver was destroyed", sim::live_threads() - 1);
}

// Construction, destruction and re-use of the worker pool
template <class M>
void run_life()
{
    typedef typename M::Solver Solver;
    Cfg c = draw(std::is_same<M, Disc>::value);
    int n = (int)sim::P("instances", 1, 3);
    bool nested = sim::PB("nested", 40);
    bool tcf = sim::PB("create_fail", 50);
    std::vector<int> th, use, fin_;
    for (int i = 0; i < n; i++)
    {
        th.push_back((int)sim::P("threads", 1, 6));
        use.push_back((int)sim::P("use", 0, 3));
        fin_.push_back((int)sim::P("first_user", 0, 1));
    }
    Snap ref;
    {
        Solver s(problem<M>(c), c.s);
        s.setInitialGuess(guess(c, c.K, 0.1, 0.5));
        try
        {
            ref.ret = s.solve();
            snap(s, ref);
        } catch (std::exception& e)
        {
            ref.err = e.what();
        }
    }
    if (sim::PB("spurious", 50))
        sim::enable_fault("spurious_wakeup", 0.02);
    hooks().yields = c.withModelYields;
    sim::race_detection(sim::PB("races", 40));
    if (sim::PB("plain_preempt", 40))
        sim::preempt_plain((int)sim::P("plain_mean", 3, 2000));
    sim::set_step_budget(600000, 400000000ull);
    std::vector<std::unique_ptr<Solver>> all;
    int expected = 0;
    for (int i = 0; i < n; i++)
    {
        int base = sim::live_threads();
        if (tcf)
            sim::enable_fault("thread_create_fail", 0.15);
        std::unique_ptr<Solver> s;
        NS ns = c.s;
        ns.nThreads = th[i];
        uint64_t before = sim::faults_fired("thread_create_fail");
        bool threw = false;
        try
        {
            s.reset(new Solver(problem<M>(c), ns));
        } catch (std::exception& e)
        {
            threw = true;
        }
        sim::enable_fault("thread_create_fail", 0);
        bool failed = sim::faults_fired("thread_create_fail") != before;
        SIM_CHECK(failed || !threw, "spurious-failure", "constructing a solver with %d threads failed though nothing went wrong", th[i]);
        if (threw)
        {
            sim::probe("construction_failed");
            SIM_CHECK(sim::live_threads() == base, "thread-leak", "%d threads left by a failed construction", sim::live_threads() - base);
            continue;
        }
        auto work = [&]() {
            Snap o;
            if (use[i] >= 1)
                s->setInitialGuess(guess(c, c.K, 0.1, 0.5));
            if (use[i] >= 2)
            {
                try
                {
                    o.ret = s->solve();
                    snap(*s, o);
                } catch (std::exception& e)
                {
                    o.err = e.what();
                }
                compare(ref, o, i, Op{SOLVE, 0, 0});
                sim::probe("solved");
            }
        };
        if (fin_[i])
        {
            std::thread t(work);
            t.join();
        }
        else
            work();
        if (nested)
            all.push_back(std::move(s));
        else
        {
            s.reset();
            SIM_CHECK(sim::live_threads() == 1, "thread-leak", "%d threads still run after the solver was destroyed", sim::live_threads() - 1);
        }
    }
    while (!all.empty())
    {
        size_t k = (size_t)sim::P("destroy", 0, (int64_t)all.size() - 1);
        all.erase(all.begin() + k);
    }
    SIM_CHECK(sim::live_threads() == 1, "thread-leak", "%d threads still run after the solvers were destroyed", sim::live_threads() - 1);
    SIM_CHECK(sim::unjoined_threads() == 0, "thread-leak", "%d threads were never joined", sim::unjoined_threads());
}


// ---------------------------------------------------------------- linear-quadratic problems
// For an affine system and a quadratic cost the sub-problem of an iteration is the whole problem: whichever algorithm,
// thread count and history, one full step from any guess gives the optimum, computed here by a Riccati recursion.
struct Opt
{
    std::vector<Eigen::Vector2d, Eigen::aligned_allocator<Eigen::Vector2d>> x;
    std::vector<double> u;
    std::vector<Eigen::RowVector2d, Eigen::aligned_allocator<Eigen::RowVector2d>> K;
    double cost = 0;
};
void flow(const Cfg& c, int k, double u, double* y)
{
    bool rk4 = c.s.integrator == ct::core::IntegrationType::RK4 || c.s.integrator == ct::core::IntegrationType::RK4CT;
    if (c.discrete)
        PlantDiscrete::step(c.plant, c.s.dt, k, u, y);
    else
        for (int i = 0; i < c.s.K_sim; i++)
            ref_step(c.plant, rk4, c.s.dt / c.s.K_sim, u, y);
}
Opt optimum(const Cfg& c)
{
    int K = c.K;
    double dt = c.s.dt;
    std::vector<Eigen::Matrix2d, Eigen::aligned_allocator<Eigen::Matrix2d>> A(K);
    std::vector<Eigen::Vector2d, Eigen::aligned_allocator<Eigen::Vector2d>> B(K), g(K);
    std::vector<double> kff(K);
    Opt o;
    o.K.resize(K);
    for (int k = 0; k < K; k++)
    {
        double z[2] = {0, 0}, e0[2] = {1, 0}, e1[2] = {0, 1}, eu[2] = {0, 0};
        flow(c, k, 0, z);
        flow(c, k, 0, e0);
        flow(c, k, 0, e1);
        flow(c, k, 1, eu);
        g[k] << z[0], z[1];
        A[k] << e0[0] - z[0], e1[0] - z[0], e0[1] - z[1], e1[1] - z[1];
        B[k] << eu[0] - z[0], eu[1] - z[1];
    }
    auto wv = [&](int k) { return c.cost.wave * (1 + std::sin(6 * k * dt)); };
    Eigen::Matrix2d P;
    Eigen::Vector2d p;
    P << 2 * (c.cost.qf0 + wv(K)), 0, 0, 2 * c.cost.qf1;
    p << -2 * (c.cost.qf0 * c.cost.xd0 + 0.2 * wv(K)), -2 * c.cost.qf1 * c.cost.xd1;
    for (int k = K - 1; k >= 0; k--)
    {
        Eigen::Matrix2d Q;
        Eigen::Vector2d q;
        Q << 2 * (c.cost.q0 + wv(k)) * dt, 0, 0, 2 * c.cost.q1 * dt;
        q << -2 * (c.cost.q0 * c.cost.xd0 + 0.2 * wv(k)) * dt, -2 * c.cost.q1 * c.cost.xd1 * dt;
        double R = 2 * c.cost.r * dt;
        Eigen::Vector2d h = P * g[k] + p;
        double H = R + B[k].dot(P * B[k]);
        o.K[k] = -(B[k].transpose() * P * A[k]) / H;
        kff[k] = -B[k].dot(h) / H;
        Eigen::Matrix2d Acl = A[k] + B[k] * o.K[k];
        Eigen::Vector2d gcl = B[k] * kff[k] + g[k];
        Eigen::Vector2d pn = q + Acl.transpose() * (P * gcl + p) + o.K[k].transpose() * R * kff[k];
        P = Q + Acl.transpose() * P * Acl + o.K[k].transpose() * R * o.K[k];
        p = pn;
    }
    Eigen::Vector2d x(c.x0[0], c.x0[1]);
    o.x.push_back(x);
    for (int k = 0; k < K; k++)
    {
        double u = o.K[k].dot(x) + kff[k];
        o.cost += c.cost.intermediate(x(0), x(1), u, k * dt) * dt;
        o.u.push_back(u);
        x = A[k] * x + B[k] * u + g[k];
        o.x.push_back(x);
    }
    o.cost += c.cost.final(x(0), x(1), K * dt);
    return o;
}

bool closedLoop(const Cfg& c)
{
    return c.s.nlocp_algorithm != NS::GNMS && c.s.nlocp_algorithm != NS::GNMS_M_OL && c.s.nlocp_algorithm != NS::SS_OL;
}

template <class Solver>
void optimal(const Cfg& c, Solver& s, bool costToo, const char* what)
{
    Opt o = optimum(c);
    auto x = s.getStateTrajectory();
    auto u = s.getControlTrajectory();
    SIM_CHECK((int)x.size() == c.K + 1 && (int)u.size() == c.K, "inconsistent-result", "after %s: %zu states and %zu controls for %d stages", what, x.size(), u.size(), c.K);
    for (int k = 0; k < c.K; k++)
    {
        SIM_CHECK(close(u[k](0), o.u[k], 1e-5), "not-optimal", "after %s: control %d of %d is %.9g, the optimal one %.9g", what, k, c.K, u[k](0), o.u[k]);
        SIM_CHECK(close(x[k](0), o.x[k](0), 1e-5) && close(x[k](1), o.x[k](1), 1e-5), "not-optimal", "after %s: state %d of %d is (%.9g, %.9g), the optimal one (%.9g, %.9g)",
            what, k, c.K, x[k](0), x[k](1), o.x[k](0), o.x[k](1));
    }
    SIM_CHECK(close(x[c.K](0), o.x[c.K](0), 1e-5) && close(x[c.K](1), o.x[c.K](1), 1e-5), "not-optimal", "after %s: the last state is (%.9g, %.9g), the optimal one (%.9g, %.9g)",
        what, x[c.K](0), x[c.K](1), o.x[c.K](0), o.x[c.K](1));
    if (costToo)
        SIM_CHECK(close(s.getCost(), o.cost, 1e-5), "not-optimal", "after %s: the cost is %.9g, the optimal one %.9g", what, s.getCost(), o.cost);
    const Policy& p = s.getSolution();
    if (closedLoop(c))
        for (int k = 0; k < c.K; k++)
            SIM_CHECK(close(p.K()[k](0, 0), o.K[k](0), 1e-4) && close(p.K()[k](0, 1), o.K[k](1), 1e-4), "not-optimal",
                "after %s: gain %d of %d is (%.9g, %.9g), the optimal one (%.9g, %.9g)", what, k, c.K, p.K()[k](0, 0), p.K()[k](0, 1), o.K[k](0), o.K[k](1));
    sim::probe_if(c.s.nThreads > 1, "optimal");
    sim::probe_if(closedLoop(c), "optimal_gains");
    sim::probe_if(!c.s.isSingleShooting(), "optimal_multiple_shooting");
}

// guesses that are trajectories of the system, for which a line search accepts the full step
Policy feasible(const Cfg& c, double u0)
{
    ct::core::StateVectorArray<2> x(1, sv(c.x0[0], c.x0[1]));
    ct::core::ControlVector<1> u;
    u << u0;
    double y[2] = {c.x0[0], c.x0[1]};
    for (int k = 0; k < c.K; k++)
    {
        flow(c, k, u0, y);
        x.push_back(sv(y[0], y[1]));
    }
    return Policy(x, ct::core::ControlVectorArray<1>(c.K, u), ct::core::FeedbackArray<2, 1>(c.K, ct::core::FeedbackMatrix<2, 1>::Zero()), c.s.dt);
}

template <class M>
void run_optimal()
{
    typedef typename M::Solver Solver;
    typedef ct::core::IntegrationType IT;
    Cfg c = draw(std::is_same<M, Disc>::value);
    c.plant.lin = true;
    c.plant.c = 0;
    c.plant.g = sim::PR("plant.g", -1, 1);
    c.s.fixedHessianCorrection = false;
    c.s.lineSearchSettings.alpha_0 = 1.0;
    if (!c.discrete)
    {
        // what the sub-problem is built from must be the derivative of what the shots are integrated with
        static const IT it[] = {IT::RK4, IT::EULERCT, IT::RK4CT, IT::EULER};
        c.s.integrator = it[sim::P("lq_integrator", 0, 3)];
        bool euler = c.s.integrator == IT::EULER || c.s.integrator == IT::EULERCT;
        c.s.useSensitivityIntegrator = true;
        if (euler && sim::PB("forward_euler", 50))
        {
            c.s.useSensitivityIntegrator = false;
            c.s.discretization = NS::APPROXIMATION::FORWARD_EULER;
            c.s.K_sim = 1;
        }
    }
    else if (c.K * c.s.dt > 1)
        c.plant.a = 1;
    int threads = (int)sim::P("threads", 1, 4);
    int n = (int)sim::P("lq_ops", 1, 7);
    struct LOp
    {
        int kind, a, b;
        bool none;
    };
    std::vector<LOp> ops;
    for (int i = 0; i < n; i++)
    {
        LOp o;
        o.kind = (int)sim::P("lq.kind", 0, 12);
        o.a = (int)sim::P("lq.a", 0, 29);
        o.b = (int)sim::P("lq.b", 0, 29);
        o.none = sim::PB("lq.none", 50);
        ops.push_back(o);
    }
    if (sim::PB("spurious", 40))
        sim::enable_fault("spurious_wakeup", 0.02);
    hooks().yields = c.withModelYields;
    if (sim::PB("plain_preempt", 50))
        sim::preempt_plain((int)sim::P("plain_mean", 3, 2000));
    sim::set_step_budget(600000, 400000000ull);
    {
        c.s.nThreads = threads;
        c.s.lineSearchSettings.type = ops[0].none ? LineSearchSettings::TYPE::NONE : (LineSearchSettings::TYPE)(1 + ops[0].a % 2);
        Solver s(problem<M>(c), c.s);
        auto aGuess = [&](const LOp& o) {
            // with a line search over a merit function the guess has to be feasible, otherwise anything will do
            if (c.s.lineSearchSettings.type != LineSearchSettings::TYPE::NONE)
                return feasible(c, -0.5 + 0.1 * (o.b % 10));
            return guess(c, c.K, -0.2 + 0.05 * (o.a % 8), 0.3 * (o.b % 4), 0.05 * (o.b % 5), o.a % 3);
        };
        s.setInitialGuess(aGuess(ops[0]));
        // a full step is taken from any policy, however small the improvement
        auto anyPolicy = [&]() { return c.s.lineSearchSettings.type == LineSearchSettings::TYPE::NONE || (c.s.isSingleShooting() && c.s.lineSearchSettings.type == LineSearchSettings::TYPE::SIMPLE); };
        bool mpc = false;  // the last iteration was one of real-time iteration multiple shooting
        auto step = [&](const LOp& o, bool plain) {
            int k = plain ? 0 : o.a % 4;
            mpc = false;
            switch (k)
            {
                case 0: s.solve(); break;
                case 1: s.runIteration(); break;
                case 2:
                    s.prepareIteration();
                    s.finishIteration();
                    break;
                default:
                    s.prepareMPCIteration();
                    s.finishMPCIteration();
                    mpc = !c.s.isSingleShooting();
                    break;
            }
            sim::probe_if(k == 3, "optimal_after_mpc_iteration");
        };
        for (const LOp& o : ops)
        {
            const char* what = "";
            switch (o.kind)
            {
                case 0:
                case 1:
                    what = "an iteration";
                    step(o, false);
                    break;
                case 2:
                    what = "a new initial state";
                    c.x0[0] = -1.5 + 0.1 * o.b;
                    c.x0[1] = 0.3;
                    s.changeInitialState(sv(c.x0[0], c.x0[1]));
                    if (!anyPolicy())
                        s.setInitialGuess(aGuess(o));
                    step(o, false);
                    break;
                case 3:
                {
                    what = "a new horizon";
                    bool shorter = 2 + o.b % 8 < c.K;
                    c.K = 2 + o.b % 8;
                    c.T = c.K * c.s.dt;
                    s.changeTimeHorizon(c.T);
                    if (!anyPolicy() || !shorter || !o.none)
                        s.setInitialGuess(aGuess(o));
                    else
                    {
                        what = "a shorter horizon";
                        sim::probe("shortened");
                    }
                    step(o, false);
                    break;
                }
                case 11:
                case 12:
                    // the state arrives between the two halves of an iteration
                    if (!anyPolicy())
                        s.setInitialGuess(aGuess(o));
                    what = o.kind == 11 ? "a state that arrived within an iteration" : "a state that arrived within an MPC iteration";
                    if (o.kind == 11)
                        s.prepareIteration();
                    else
                        s.prepareMPCIteration();
                    c.x0[0] = -1.5 + 0.1 * o.b;
                    c.x0[1] = 0.3;
                    s.changeInitialState(sv(c.x0[0], c.x0[1]));
                    if (o.kind == 11)
                        s.finishIteration();
                    else
                        s.finishMPCIteration();
                    mpc = o.kind == 12 && !c.s.isSingleShooting();
                    sim::probe("state_within_iteration");
                    if (!anyPolicy())
                    {
                        s.setInitialGuess(aGuess(o));
                        step(o, false);
                    }
                    break;
                case 4:
                    what = "a new guess";
                    s.setInitialGuess(aGuess(o));
                    step(o, false);
                    break;
                case 5:
                    what = "a new cost function";
                    c.cost.xd0 = 0.2 * (o.b % 10);
                    c.cost.r = 0.05 * (1 + o.b % 5);
                    s.changeCostFunction(make_cost(c.cost));
                    step(o, false);
                    break;
                case 6:
                case 7:
                {
                    what = "a new system";
                    c.plant.a = 0.5 + o.b % 5;
                    auto sys = M::sys(c);
                    s.changeNonlinearSystem(sys);
                    s.changeLinearSystem(c.analytic ? M::lin(c) : M::numeric(sys));
                    if (!anyPolicy() || !o.none)
                        s.setInitialGuess(aGuess(o));
                    step(o, false);
                    break;
                }
                case 8:
                    what = "a new line search";
                    c.s.lineSearchSettings.type = o.none ? LineSearchSettings::TYPE::NONE : (LineSearchSettings::TYPE)(1 + o.b % 2);
                    s.configure(c.s);
                    s.setInitialGuess(aGuess(o));
                    step(o, false);
                    break;
                case 9:
                {
                    // an iteration whose step is rejected leaves everything as it was: the next one is rejected, too
                    NS none = c.s;
                    none.lineSearchSettings.type = (LineSearchSettings::TYPE)(1 + o.b % 2);
                    none.lineSearchSettings.maxIterations = 1 + o.b % 2;
                    none.lineSearchSettings.alpha_0 = 60 + o.b;
                    c.s.lineSearchSettings.type = LineSearchSettings::TYPE::NONE;
                    s.configure(none);
                    s.setInitialGuess(aGuess(o));
                    s.runIteration();
                    Snap a, b, d;
                    snap(s, a);
                    bool again = s.runIteration();
                    snap(s, b);
                    s.runIteration();
                    snap(s, d);
                    if (a.v == b.v)
                    {
                        sim::probe_if(!again, "step_rejected_twice");
                        SIM_CHECK(b.v == d.v, "rejected-step", "an iteration after a rejected step changes the result though the one before did not");
                    }
                    s.configure(c.s);
                    s.setInitialGuess(aGuess(o));
                    mpc = false;
                    what = "rejected steps";
                    step(o, false);
                    break;
                }
                default:
                {
                    // a search that rejects every step must not spoil the next iteration
                    what = "a rejected step";
                    NS none = c.s;
                    none.lineSearchSettings.type = (LineSearchSettings::TYPE)(1 + o.b % 2);
                    none.lineSearchSettings.maxIterations = 1;
                    none.lineSearchSettings.alpha_0 = 60 + o.b;
                    s.configure(none);
                    c.s.lineSearchSettings.type = LineSearchSettings::TYPE::NONE;
                    s.setInitialGuess(aGuess(o));
                    sim::probe_if(!s.runIteration(), "step_rejected");
                    s.configure(c.s);
                    mpc = false;
                    step(o, false);
                    break;
                }
            }
            optimal(c, s, !mpc, what);
        }
        sim::disable_faults();
    }
    SIM_CHECK(sim::live_threads() == 1, "thread-leak", "%d threads still run after the solver was destroyed", sim::live_threads() - 1);
}

// An iteration depends on the current problem and policy only: a new solver that is given the current solution as its
// initial guess gives the same result for the next operation as the solver that has been at work all along.
template <class M>
void run_restart()
{
    typedef typename M::Solver Solver;
    Cfg c = draw(std::is_same<M, Disc>::value);
    int threads = (int)sim::P("threads", 1, 4), twinThreads = (int)sim::P("twin_threads", 1, 3);
    std::vector<Op> ops;
    int n = (int)sim::P("n_ops", 2, 6);
    for (int i = 0; i < n; i++)
    {
        Op op;
        op.kind = i == 0 ? (int)sim::P("op0", SOLVE, MPC_ITER) : (int)sim::P("op", 0, NOPS - 1);
        op.a = sim::P("op.a", 0, 29);
        op.b = sim::P("op.b", 0, 29);
        if (op.kind == CONFIGURE && sim::PB("wide", 60))
        {
            op.wide = (int)sim::P("wide.what", 0, 127);
            if (c.discrete)
                op.wide &= ~4;
        }
        ops.push_back(op);
    }
    double slope = sim::PB("slope", 60) ? sim::PR("guess.slope", -0.2, 0.2) : 0;
    if (sim::PB("spurious", 40))
        sim::enable_fault("spurious_wakeup", 0.02);
    hooks().yields = c.withModelYields;
    if (sim::PB("plain_preempt", 30))
        sim::preempt_plain((int)sim::P("plain_mean", 3, 2000));
    sim::set_step_budget(1200000, 800000000ull);
    {
        c.s.nThreads = threads;
        Solver s(problem<M>(c), c.s);
        s.setInitialGuess(guess(c, c.K, 0.1, 0.5, slope));
        for (size_t i = 0; i < ops.size(); i++)
        {
            Snap a, b;
            bool twin = i > 0;
            if (twin)
            {
                Cfg t = c;
                Op op = ops[i];
                if (op.kind == CONFIGURE && op.wide >= 0)
                {
                    // what the configuration became is what the new solver starts with
                    t.s = reconfigured(t.s, op);
                    op.kind = ITERATE;
                    sim::probe_if(threads > 1, "reconfigured");
                }
                t.s.nThreads = twinThreads;
                Solver f(problem<M>(t), t.s);
                f.setInitialGuess(s.getSolution());
                b = apply<M>(f, t, t.K, op, twinThreads);
            }
            double before = s.getCost();
            if (ops[i].kind == NEW_STATE && (ops[i].b % 6 == 2 || (ops[i].b % 6 == 4 && ops[i].a % 2)))
            {
                // the state arrives between the two halves of an iteration, which gives the same result
                try
                {
                    s.prepareIteration();
                    c.x0[0] = -1.5 + 0.1 * (double)(ops[i].a % 30);
                    c.x0[1] = 0.3;
                    s.changeInitialState(sv(c.x0[0], c.x0[1]));
                    a.ret = s.finishIteration();
                    snap(s, a);
                    sim::probe_if(threads > 1, "state_within_iteration");
                } catch (std::exception& e)
                {
                    a.err = e.what();
                }
            }
            else
                a = apply<M>(s, c, c.K, ops[i], threads);
            c.s.nThreads = threads;
            sim::logd(a.cost);
            if (!a.err.empty() || (twin && !b.err.empty()))
            {
                if (twin)
                    SIM_CHECK(a.err.empty() == b.err.empty(), "history-matters", "operation %d (%s): %s%s, a new solver started from the same policy %s%s", (int)i, opname[ops[i].kind],
                        a.err.empty() ? "succeeds" : "reports: ", a.err.c_str(), b.err.empty() ? "succeeds" : "reports: ", b.err.c_str());
                break;
            }
            bool wild = false;  // a diverging trajectory magnifies rounding errors
            for (double v : a.v)
                wild = wild || !(std::fabs(v) < 1e3);
            if (wild)
                break;
            if (twin)
            {
                SIM_CHECK(a.v.size() == b.v.size(), "history-matters", "operation %d (%s): result sizes differ (%zu, %zu)", (int)i, opname[ops[i].kind], a.v.size(), b.v.size());
                for (size_t k = 0; k < a.v.size(); k++)
                    SIM_CHECK(close(a.v[k], b.v[k], 1e-5), "history-matters",
                        "operation %d (%s): value %zu of the result is %.12g, that of a new solver started from the same policy %.12g (costs %.12g / %.12g, before %.12g)", (int)i,
                        opname[ops[i].kind], k, a.v[k], b.v[k], a.v[0], b.v[0], before);
                sim::probe_if(!c.s.isSingleShooting(), "restarted_multiple_shooting");
                sim::probe_if(threads > 1, "restarted");
                sim::probe_if(ops[i - 1].kind == MPC_ITER && ops[i].kind != MPC_ITER, "restarted_after_mpc_iteration");
                sim::probe_if(!ops[i - 1].kind && !a.ret, "restarted_converged");
            }
        }
        sim::disable_faults();
    }
    SIM_CHECK(sim::live_threads() == 1, "thread-leak", "%d threads still run after the solver was destroyed", sim::live_threads() - 1);
}
}  // namespace

extern "C" void sim_scenario(const char* sc)
{
    std::string s = sc;
    bool disc = sim::PB("discrete_time", 20);
    if (s == "solve")
        disc ? run_solve<Disc>(false) : run_solve<Cont>(false);
    else if (s == "race")
        disc ? run_solve<Disc>(true) : run_solve<Cont>(true);
    else if (s == "fail")
        disc ? run_fail<Disc>() : run_fail<Cont>();
    else if (s == "life")
        disc ? run_life<Disc>() : run_life<Cont>();
    else if (s == "optimal")
        disc ? run_optimal<Disc>() : run_optimal<Cont>();
    else if (s == "restart")
        disc ? run_restart<Disc>() : run_restart<Cont>();
    else
        sim::violation("internal", "unknown scenario %s", sc);
}
