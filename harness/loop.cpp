// Simulation of a complete control loop: ControlSimulator (plant thread and control thread), MPC and the multi-threaded
// solver (worker threads) together on one simulated clock. Afterwards the recorded history (what the control thread gave to
// MPC and got back, which policy drove which period of the plant) is compared with a sequential replay of the same history.
#include "common.h"
#include <algorithm>
#include <mutex>

using namespace h;
using namespace ct::optcon;
typedef NLOptConSolver<2, 1, 1, 1> Solver;
typedef ContinuousOptConProblem<2, 1> Problem;
typedef Solver::Policy_t Policy;
typedef MPC<Solver> Mpc;
typedef NLOptConSettings NS;
typedef ct::core::StateVector<2> SV;
typedef ct::core::ControlVector<1> CV;

namespace {

double nowS() { return 1e-9 * (double)sim::now(); }

// values of a policy, independent of its memory
struct Snap
{
    std::vector<double> v;
    double ts = 0;
    bool finite() const
    {
        for (double d : v)
            if (!fin(d) || std::fabs(d) > 1e5)
                return false;
        return true;
    }
};
Snap snap(const Policy& p, double ts)
{
    Snap s;
    s.ts = ts;
    for (size_t i = 0; i < p.uff().size(); i++)
    {
        s.v.push_back(p.uff()[i](0));
        s.v.push_back(p.K()[i](0, 0));
        s.v.push_back(p.K()[i](0, 1));
    }
    for (size_t i = 0; i < p.x_ref().size(); i++)
    {
        s.v.push_back(p.x_ref()[i](0));
        s.v.push_back(p.x_ref()[i](1));
    }
    for (double t : p.getFeedforwardTrajectory().getTimeArray())
        s.v.push_back(t);
    for (double t : p.getReferenceStateTrajectory().getTimeArray())
        s.v.push_back(t);
    for (double t : p.getFeedbackTrajectory().getTimeArray())
        s.v.push_back(t);
    return s;
}

// the policy as it is deployed on the plant: evaluated relative to its time stamp
class Deployed : public ct::core::Controller<2, 1>
{
public:
    EIGEN_MAKE_ALIGNED_OPERATOR_NEW
    Deployed* clone() const override { return new Deployed(*this); }
    void computeControl(const SV& x, const double& t, CV& u) override
    {
        p.computeControl(x, std::max(0.0, t - ts), u);
        if (!(std::fabs(u(0)) < 1e3))
            u(0) = 0;
    }
    Policy p;
    double ts = 0;
    int id = -1;
    Snap s;
};
typedef std::shared_ptr<Deployed> DepPtr;

struct Cfg
{
    double sim_dt, control_dt;
    Plant plant, model;
    CostDef cost;
    SV x0;
    int K;
    NS ns;
    mpc_settings ms;
    int type;
    int64_t prep_ns, fin_ns;
    double t_off;
};

struct Call  // one MPC run
{
    double ext = 0, x_ts = 0;
    SV x;
    bool prepared = false, done = false, ok = false;
    DepPtr out;
    int64_t began = 0, ended = 0;
};
struct Period
{
    double t;
    SV x;
    DepPtr next;
    int64_t at;
};

class Loop : public ct::core::ControlSimulator<PlantSystem>
{
public:
    typedef ct::core::ControlSimulator<PlantSystem> Base;
    Loop(const Cfg& c, std::shared_ptr<PlantSystem> s, Mpc& mpc, DepPtr first) : Base(c.sim_dt, c.control_dt, c.x0, s), c_(c), mpc_(mpc), newest_(first), inForce_(first), first_(first) {}
    ~Loop() { join(); }
    void finishSystemIteration(ct::core::Time t) override
    {
        Period p;
        p.t = t;
        p.at = sim::now();
        state_mtx_.lock();
        p.x = x_;
        state_mtx_.unlock();
        control_mtx_.lock();
        inForce_ = newest_;
        control_mtx_.unlock();
        std::shared_ptr<ct::core::Controller<2, 1>> up(inForce_);
        system_->setController(up);
        p.next = inForce_;
        periods.push_back(p);
    }
    void prepareControllerIteration(ct::core::Time t) override
    {
        calls.push_back(Call());
        Call& k = calls.back();
        k.ext = c_.t_off + t;
        k.began = sim::now();
        sim::busy(20000 + c_.prep_ns * sim::P("prep", 0, 100) / 100);
        mpc_.prepareIteration(k.ext);
        k.prepared = true;
    }
    void finishControllerIteration(ct::core::Time t) override
    {
        Call& k = calls.back();
        k.x_ts = c_.t_off + t;
        state_mtx_.lock();
        k.x = x_;
        state_mtx_.unlock();
        DepPtr d(new Deployed);
        k.ok = mpc_.finishIteration(k.x, k.x_ts, d->p, d->ts);
        k.done = true;
        k.out = d;
        d->id = (int)calls.size();
        d->s = snap(d->p, d->ts);
        d->ts -= c_.t_off;
        k.ended = sim::now();
        sim::busy(20000 + c_.fin_ns * sim::P("fin", 0, 100) / 100);
        control_mtx_.lock();
        newest_ = d;
        control_mtx_.unlock();
    }
    void begin()
    {
        periods.clear();
        calls.clear();
        newest_ = inForce_ = first_;
        std::shared_ptr<ct::core::Controller<2, 1>> up(first_);
        system_->setController(up);
        started = sim::now();
    }
    std::vector<Period, Eigen::aligned_allocator<Period>> periods;
    std::vector<Call, Eigen::aligned_allocator<Call>> calls;
    int64_t started = 0;

private:
    Cfg c_;
    Mpc& mpc_;
    DepPtr newest_, inForce_, first_;
};

Policy make_guess(int K, double dt, double u0, double k0)
{
    ct::core::StateVectorArray<2> xr(K + 1, SV::Zero());
    ct::core::ControlVectorArray<1> uff;
    ct::core::FeedbackArray<2, 1> fb;
    for (int i = 0; i < K; i++)
    {
        CV u;
        u << u0 + 0.02 * i;
        uff.push_back(u);
        ct::core::FeedbackMatrix<2, 1> f;
        f << -k0, -0.3 * k0;
        fb.push_back(f);
    }
    return Policy(xr, uff, fb, dt);
}

std::shared_ptr<Problem> make_problem(const Cfg& c, std::shared_ptr<ct::core::ControlledSystem<2, 1>> sys)
{
    std::shared_ptr<ct::core::LinearSystem<2, 1>> lin(new PlantLinear(c.model));
    return std::shared_ptr<Problem>(new Problem(c.K * c.ns.dt, c.x0, sys, make_cost(c.cost), lin));
}

void ref_period(const Cfg& c, double t0, Deployed& ctl, double* y)
{
    auto f = [&](const double* z, double t, double* d) {
        SV s;
        s << z[0], z[1];
        CV u;
        ctl.computeControl(s, t, u);
        PlantSystem::rhs(c.plant, z, u(0), d);
    };
    auto step = [&](double t, double dt) {
        double k1[2], k2[2], k3[2], k4[2], z[2];
        f(y, t, k1);
        if (!c.type)
        {
            for (int j = 0; j < 2; j++)
                y[j] += dt * k1[j];
            return;
        }
        for (int j = 0; j < 2; j++)
            z[j] = y[j] + 0.5 * dt * k1[j];
        f(z, t + 0.5 * dt, k2);
        for (int j = 0; j < 2; j++)
            z[j] = y[j] + 0.5 * dt * k2[j];
        f(z, t + 0.5 * dt, k3);
        for (int j = 0; j < 2; j++)
            z[j] = y[j] + dt * k3[j];
        f(z, t + dt, k4);
        for (int j = 0; j < 2; j++)
            y[j] += dt / 6 * (k1[j] + 2 * k2[j] + 2 * k3[j] + k4[j]);
    };
    int n = (int)std::floor(c.control_dt / c.sim_dt + 1e-7);
    for (int i = 0; i < n; i++)
        step(t0 + i * c.sim_dt, c.sim_dt);
}

bool same(const Snap& a, const Snap& b, double tol, size_t& where)
{
    if (a.v.size() != b.v.size())
    {
        where = (size_t)-1;
        return false;
    }
    for (size_t i = 0; i < a.v.size(); i++)
        if (!close(a.v[i], b.v[i], tol))
        {
            where = i;
            return false;
        }
    return true;
}

void verify(Loop& l, const Cfg& c, DepPtr first, const Policy& guess, std::shared_ptr<ct::core::ControlledSystem<2, 1>> modelSys, bool failed, int round)
{
    // policies handed out stay what they were
    for (size_t i = 0; i < l.calls.size(); i++)
        if (l.calls[i].out)
        {
            Snap n = snap(l.calls[i].out->p, 0);
            size_t w = 0;
            SIM_CHECK(same(n, l.calls[i].out->s, 0.0, w), "policy-changed", "round %d: the policy returned by MPC run %zu changed afterwards (value %zd)", round, i, (ssize_t)w);
        }
    // the plant: every period integrated under one policy that had been returned before
    double y[2] = {c.x0(0), c.x0(1)};
    DepPtr d = first;
    int lastId = -1;
    for (size_t i = 0; i < l.periods.size(); i++)
    {
        Period& p = l.periods[i];
        // the policy jumps at its stages: a period whose steps meet such a moment may see it a rounding error earlier or later
        double ya[2] = {y[0], y[1]}, yb[2] = {y[0], y[1]};
        ref_period(c, (double)i * c.control_dt, *d, y);
        ref_period(c, (double)i * c.control_dt - 1e-8, *d, ya);
        ref_period(c, (double)i * c.control_dt + 1e-8, *d, yb);
        double spread = 2 * (std::fabs(ya[0] - yb[0]) + std::fabs(ya[1] - yb[1]));
        SIM_CHECK(std::fabs(y[0] - p.x(0)) <= 1e-6 * (1 + std::fabs(y[0])) + spread && std::fabs(y[1] - p.x(1)) <= 1e-6 * (1 + std::fabs(y[1])) + spread, "wrong-state",
            "round %d: state after period %zu is (%.9g, %.9g), the policy of MPC run %d gives (%.9g, %.9g)", round, i, p.x(0), p.x(1), d->id, y[0], y[1]);
        y[0] = p.x(0);
        y[1] = p.x(1);
        SIM_CHECK(p.next->id >= lastId, "policy-order", "round %d: after the policy of run %d the plant was driven by that of run %d", round, lastId, p.next->id);
        lastId = p.next->id;
        d = p.next;
    }
    sim::probe_if(lastId > 0, "mpc_drove_plant");
    // MPC: the states are states of the simulation, times never go back, and a sequential controller gives the same
    size_t from = 0;
    std::vector<SV, Eigen::aligned_allocator<SV>> published(1, c.x0);
    for (auto& p : l.periods)
        published.push_back(p.x);
    for (size_t i = 0; i < l.calls.size(); i++)
    {
        if (!l.calls[i].done)
            continue;
        size_t k = from;
        while (k < published.size() && (published[k] - l.calls[i].x).norm() > 0)
            k++;
        SIM_CHECK(k < published.size(), "torn-state", "round %d: MPC run %zu was given (%.12g, %.12g), which is no state at or after the one before", round, i,
            l.calls[i].x(0), l.calls[i].x(1));
        from = k;
        SIM_CHECK(l.calls[i].x_ts >= l.calls[i].ext - 1e-9, "control-time", "round %d: MPC run %zu prepared for %.9g got a state of %.9g", round, i, l.calls[i].ext, l.calls[i].x_ts);
    }
    if (!c.ms.useExternalTiming_)
    {
        for (size_t i = 0; i < l.calls.size(); i++)
            if (l.calls[i].done)
            {
                const Snap& s = l.calls[i].out->s;
                SIM_CHECK(fin(s.ts) && s.ts >= l.calls[i].x_ts - 1e-9, "policy-timestamp", "round %d: MPC run %zu stamped its policy %.9g, before its state's time %.9g", round, i, s.ts,
                    l.calls[i].x_ts);
            }
        return;
    }
    Cfg sc = c;
    sc.ns.nThreads = 1;
    Mpc ref(*make_problem(sc, modelSys), sc.ns, sc.ms);
    ref.setInitialGuess(guess);
    bool stable = true;
    for (size_t i = 0; i < l.calls.size(); i++)
    {
        Call& k = l.calls[i];
        if (!k.done)
            break;  // a failed run; nothing after it
        Policy p;
        double ts = 0;
        ref.prepareIteration(k.ext);
        bool ok = ref.finishIteration(k.x, k.x_ts, p, ts);
        Snap s = snap(p, ts);
        if (!s.finite() || !k.out->s.finite())
        {
            stable = false;
            break;
        }
        SIM_CHECK(close(ts, k.out->s.ts, 1e-9), "policy-timestamp", "round %d: MPC run %zu: time stamp %.9g, a sequential controller gives %.9g", round, i, k.out->s.ts, ts);
        size_t w = 0;
        SIM_CHECK(ok == k.ok && same(s, k.out->s, 1e-5, w), "policy-differs",
            "round %d: MPC run %zu returned %d with a policy different from that of a sequential controller with the same states and times (which returned %d, value %zd: %.9g instead of %.9g)",
            round, i, k.ok, ok, (ssize_t)w, w < k.out->s.v.size() ? k.out->s.v[w] : 0, w < s.v.size() ? s.v[w] : 0);
        sim::probe(i ? "compared_run" : "compared_first");
    }
    sim::probe_if(stable && l.calls.size() > 2, "compared_loop");
}

void run(bool failing)
{
    Cfg c;
    NS& ns = c.ns;
    static const NS::NLOCP_ALGORITHM alg[] = {NS::ILQR, NS::GNMS, NS::MS_ILQR, NS::GNMS_M_CL};
    ns.nlocp_algorithm = alg[sim::P("alg", 0, 3)];
    ns.dt = 0.01 + 0.01 * (double)sim::P("dt", 0, 3);
    ns.K_shot = ns.nlocp_algorithm >= NS::MS_ILQR ? (int)sim::P("K_shot", 1, 4) : 1;
    ns.K_sim = 1;
    ns.integrator = sim::PB("rk4", 50) ? ct::core::IntegrationType::RK4 : ct::core::IntegrationType::EULERCT;
    ns.discretization = NS::APPROXIMATION::FORWARD_EULER;
    ns.lineSearchSettings.type = sim::PB("ls", 50) ? LineSearchSettings::TYPE::SIMPLE : LineSearchSettings::TYPE::NONE;
    ns.lineSearchSettings.maxIterations = 4;
    ns.max_iterations = 1;
    ns.nThreads = (int)sim::P("threads", 1, 4);
    ns.nThreadsEigen = 1;
    ns.printSummary = false;
    ns.debugPrint = false;
    ns.lqocp_solver = NS::GNRICCATI_SOLVER;
    c.K = (int)sim::P("K", 4, 12);
    c.control_dt = 0.002 * (double)sim::P("control_dt", 1, 6);
    static const double ratio[] = {1, 2, 4};
    c.sim_dt = c.control_dt / ratio[sim::P("ratio", 0, 2)];
    c.plant.a = sim::PR("plant.a", 0.5, 3);
    c.plant.c = sim::PR("plant.c", 0, 0.5);
    c.model = c.plant;
    bool shared = sim::PB("shared_system", 50);  // the example programs give the same object to the plant and to the optimiser
    if (!shared)
        c.model.a *= 1.2;
    c.cost.xd0 = sim::PR("cost.xd", 0, 1);
    c.x0 << sim::PR("x0.q", -0.6, 0.6), sim::PR("x0.v", -0.3, 0.3);
    c.type = (int)sim::P("type", 0, 1);
    c.prep_ns = sim::P("prep_us", 0, 8000) * 1000;
    c.fin_ns = sim::P("fin_us", 0, 8000) * 1000;
    mpc_settings& m = c.ms;
    m.useExternalTiming_ = sim::PB("external", 70);
    m.coldStart_ = false;
    m.stateForwardIntegration_ = sim::PB("forward", 60);
    m.stateForwardIntegratorType_ = sim::PB("fw_rk4", 50) ? ct::core::IntegrationType::RK4 : ct::core::IntegrationType::EULER;
    m.stateForwardIntegration_dt_ = 0.002;
    m.measureDelay_ = !m.useExternalTiming_ && sim::PB("measure", 50);
    m.delayMeasurementMultiplier_ = 1.0;
    m.fixedDelayUs_ = 1000 * (int)sim::P("fixed", 0, 20);
    m.additionalDelayUs_ = 0;
    m.postTruncation_ = sim::PB("post", 40);
    m.mpc_mode = (MPC_MODE)sim::P("mode", 0, 3);
    m.minimumTimeHorizonMpc_ = ns.dt * (double)sim::P("Tmin", 2, 8);
    c.t_off = sim::PB("t_off", 30) ? 100.0 : 0.0;

    sim::set_step_budget(6000000, 3000000000ull);
    sim::race_detection(true);
    if (sim::PB("plain_preempt", 25))
        sim::preempt_plain((int)sim::P("plain_mean", 20, 5000));
    hooks().yields = sim::PB("yields", 30);
    hooks().armed = false;

    std::shared_ptr<PlantSystem> sys(new PlantSystem(c.plant));
    std::shared_ptr<ct::core::ControlledSystem<2, 1>> modelSys;
    if (shared)
        modelSys = sys;
    else
        modelSys.reset(new PlantSystem(c.model));
    Policy guess = make_guess(c.K, ns.dt, 0.1, 0.4);
    DepPtr first(new Deployed);
    first->p = guess;
    first->ts = 0;
    first->s = snap(guess, 0);
    {
        std::shared_ptr<ct::core::Controller<2, 1>> up(first);
        sys->setController(up);
        Mpc mpc(*make_problem(c, modelSys), ns, m);
        Loop loop(c, sys, mpc, first);
        int rounds = (int)sim::P("rounds", 1, 2) + failing;
        for (int r = 0; r < rounds; r++)
        {
            bool inject = failing && r + 1 < rounds;
            if (r)
                mpc.resetMpc(c.K * ns.dt);
            mpc.setInitialGuess(guess);
            double duration = c.control_dt * (double)sim::P("periods", 2, 10);
            loop.begin();
            hooks().armed = inject;
            static const double pt[] = {0.0003, 0.001, 0.01};
            hooks().p_throw = inject ? pt[sim::P("p_throw", 0, 2)] : 0;
            uint64_t before = sim::faults_fired("user_exception");
            loop.simulate(duration, c.type ? ct::core::IntegrationType::RK4CT : ct::core::IntegrationType::EULERCT);
            bool stopped = sim::PB("stop", 25);
            if (stopped)
            {
                sim::busy(sim::P("stop_us", 0, 60000) * 1000);
                loop.stop();
            }
            bool threw = false;
            std::string what;
            try
            {
                loop.finish();
            } catch (std::exception& e)
            {
                threw = true;
                what = e.what();
            }
            hooks().armed = false;
            bool fired = sim::faults_fired("user_exception") != before;
            SIM_CHECK(fired || !threw, "spurious-failure", "round %d: the loop failed (%s) though nothing went wrong", r, what.c_str());
            SIM_CHECK(!fired || threw, "failure-lost", "round %d: the model failed, finish() reported nothing", r);
            sim::probe_if(fired, "failed");
            SIM_CHECK(sim::live_threads() == 1 + (ns.nThreads > 1 ? ns.nThreads : 0) || ns.nThreads > 1, "thread-leak", "%d threads run after finish()", sim::live_threads() - 1);
            if (!stopped && !fired)
                SIM_CHECK(nowS() - 1e-9 * loop.started >= duration - 1e-6 && !loop.calls.empty() && loop.calls.back().done, "no-progress",
                    "round %d: %zu MPC runs, %zu periods in %.6g s", r, loop.calls.size(), loop.periods.size(), duration);
            int workers = sim::live_threads();
            verify(loop, c, first, guess, modelSys, fired, r);
            SIM_CHECK(sim::live_threads() == workers, "thread-leak", "%d threads after a sequential controller was destroyed, %d before", sim::live_threads(), workers);
            sim::log(loop.periods.size());
            sim::log(loop.calls.size());
            for (auto& k : loop.calls)
                if (k.out)
                    sim::logd(k.out->s.ts);
            sim::probe_if(r > 0 && inject == false && failing, "recovered");
        }
    }
    SIM_CHECK(sim::live_threads() == 1 && sim::unjoined_threads() == 0, "thread-leak", "%d threads run after everything was destroyed", sim::live_threads() - 1);
}

}  // namespace

extern "C" void sim_scenario(const char* sc)
{
    std::string s = sc;
    if (s == "run")
        run(false);
    else if (s == "fail")
        run(true);
    else
        sim::violation("internal", "unknown scenario %s", sc);
}
