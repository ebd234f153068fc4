// Simulation of model predictive control: the real MPC class, time keeper, horizon strategies, policy handler and solver
// in a control loop whose computing times, idle times, wall-clock steps and solver failures are decided by the simulator.
// What MPC hands to the solver and to the user is compared with a small independent model of the timing.
#include "common.h"
#include <algorithm>

using namespace h;
using namespace ct::optcon;
typedef NLOptConSolver<2, 1, 1, 1> Solver;
typedef ContinuousOptConProblem<2, 1> Problem;
typedef Solver::Policy_t Policy;
typedef NLOptConSettings NS;
typedef ct::core::StateVector<2> SV;

namespace {

double nowS() { return 1e-9 * (double)sim::now(); }

struct Iv  // interval of possible values
{
    double lo, hi;
    Iv(double a = 0) : lo(a), hi(a) {}
    Iv(double a, double b) : lo(a), hi(b) {}
    Iv operator+(const Iv& o) const { return Iv(lo + o.lo, hi + o.hi); }
    Iv operator-(const Iv& o) const { return Iv(lo - o.hi, hi - o.lo); }
    Iv scaled(double f) const { return Iv(lo * f, hi * f); }
    Iv clampHi(double m) const { return Iv(std::min(lo, m), std::min(hi, m)); }
    Iv clampLo(double m) const { return Iv(std::max(lo, m), std::max(hi, m)); }
    bool has(double v, double tol) const { return v >= lo - tol && v <= hi + tol; }
};

struct Rec  // what the solver was given since the last clear()
{
    int horizons = 0, guesses = 0, states = 0, prepares = 0, finishes = 0;
    double T = 0;
    Policy guess;
    SV x0;
    Policy solution;
    bool result = false;
    double t_horizon = 0, t_fin_begin = 0, t_fin_end = 0;
    void clear() { *this = Rec(); }
};
Rec rec;
struct Load
{
    int64_t prep_ns = 0, fin_ns = 0;
    bool clockJump = false;
    double pFail = 0;
    double jump = 0;
} load;

void maybe_jump()
{
    if (load.clockJump && sim::fault("realtime_jump", load.jump))
    {
        static const int64_t js[] = {-1000000, 3000000, -50000000, 40000000, -2000000000ll, 5000000000ll, -3600000000000ll, 3600000000000ll};
        sim::jump_realtime(js[sim::P("jump", 0, 7)]);
    }
}

// the real solver behind a recorder; its run time and success are under the simulator's control
class RecSolver
{
public:
    EIGEN_MAKE_ALIGNED_OPERATOR_NEW
    static const size_t STATE_D = 2, CONTROL_D = 1, POS_DIM = 1, VEL_DIM = 1;
    typedef double Scalar_t;
    typedef Solver::Policy_t Policy_t;
    typedef NS Settings_t;
    typedef Solver::OptConProblem_t OptConProblem_t;
    RecSolver(const OptConProblem_t& p, const NS& s) : s_(p, s) {}
    void configure(const NS& s) { s_.configure(s); }
    const NS& getSettings() { return s_.getSettings(); }
    double getTimeHorizon() const { return s_.getTimeHorizon(); }
    void changeTimeHorizon(const double& T)
    {
        rec.horizons++;
        rec.T = T;
        rec.t_horizon = nowS();
        s_.changeTimeHorizon(T);
    }
    void setInitialGuess(const Policy& p)
    {
        rec.guesses++;
        rec.guess = p;
        s_.setInitialGuess(p);
    }
    void changeInitialState(const SV& x)
    {
        rec.states++;
        rec.x0 = x;
        s_.changeInitialState(x);
    }
    void prepareMPCIteration()
    {
        rec.prepares++;
        sim::busy(load.prep_ns / 2);
        maybe_jump();
        s_.prepareMPCIteration();
        sim::busy(load.prep_ns / 2);
    }
    bool finishMPCIteration()
    {
        rec.finishes++;
        rec.t_fin_begin = nowS();
        sim::busy(load.fin_ns / 2);
        maybe_jump();
        bool r = s_.finishMPCIteration();
        sim::busy(load.fin_ns - load.fin_ns / 2);
        if (sim::fault("solve_unsuccessful", load.pFail))
            r = false;
        rec.result = r;
        rec.solution = s_.getSolution();
        rec.t_fin_end = nowS();
        return r;
    }
    const Policy& getSolution() { return s_.getSolution(); }
    double getCost() const { return s_.getCost(); }
    const ct::core::StateTrajectory<2> getStateTrajectory() const { return s_.getStateTrajectory(); }
    const ct::core::ControlTrajectory<1> getControlTrajectory() const { return s_.getControlTrajectory(); }
    const ct::core::TimeArray& getTimeArray() const { return s_.getTimeArray(); }
    Solver& inner() { return s_; }

private:
    Solver s_;
};

// a user's own controller for the forward integration
class UserController : public ct::core::Controller<2, 1>
{
public:
    EIGEN_MAKE_ALIGNED_OPERATOR_NEW
    UserController(double k) : k_(k) {}
    UserController* clone() const override { return new UserController(*this); }
    void computeControl(const SV& x, const double& t, ct::core::ControlVector<1>& u) override { u(0) = -k_ * x(0) + std::sin(3 * t); }

private:
    double k_;
};

class CustomHorizon : public ct::optcon::MpcTimeHorizon
{
public:
    CustomHorizon(const mpc_settings& s, double T, double T2) : ct::optcon::MpcTimeHorizon(s, T), T2_(T2) {}
    bool computeNewTimeHorizon(const double& a, const double& b, double& new_T) override
    {
        called++;
        first = a;
        stop = b;
        new_T = T2_;
        return called > 1000;
    }
    int called = 0;
    double first = -1, stop = -1;
    double T2_;
};

Policy make_guess(int K, double dt, double u0, double k0, double x)
{
    ct::core::StateVectorArray<2> xr;
    ct::core::ControlVectorArray<1> uff;
    ct::core::FeedbackArray<2, 1> fb;
    for (int i = 0; i <= K; i++)
    {
        SV s;
        s << x + 0.01 * i, -0.02 * i;
        xr.push_back(s);
    }
    for (int i = 0; i < K; i++)
    {
        ct::core::ControlVector<1> u;
        u << u0 + 0.03 * i;
        uff.push_back(u);
        ct::core::FeedbackMatrix<2, 1> f;
        f << -k0 - 0.01 * i, -0.3 * k0;
        fb.push_back(f);
    }
    return Policy(xr, uff, fb, dt);
}

bool policy_finite(const Policy& p)
{
    for (size_t i = 0; i < p.uff().size(); i++)
        if (!fin(p.uff()[i](0)) || std::fabs(p.uff()[i](0)) > 1e6 || !fin(p.K()[i](0, 0)) || !fin(p.K()[i](0, 1)))
            return false;
    for (size_t i = 0; i < p.x_ref().size(); i++)
        if (!fin(p.x_ref()[i](0)) || !fin(p.x_ref()[i](1)) || std::fabs(p.x_ref()[i](0)) > 1e6)
            return false;
    return true;
}

// time stamps of a policy handed over by MPC: 0, dt, 2 dt, ...
void check_times(const Policy& p, double dt, const char* what, int it)
{
    const auto& tu = p.getFeedforwardTrajectory().getTimeArray();
    const auto& tk = p.getFeedbackTrajectory().getTimeArray();
    const auto& tx = p.getReferenceStateTrajectory().getTimeArray();
    SIM_CHECK(tu.size() == p.uff().size() && tk.size() == p.K().size() && tx.size() == p.x_ref().size() && tk.size() == tu.size() &&
                  tx.size() == tu.size() + 1,
        "policy-shape", "run %d: %s has %zu/%zu controls, %zu/%zu gains, %zu/%zu states", it, what, p.uff().size(), tu.size(),
        p.K().size(), tk.size(), p.x_ref().size(), tx.size());
    for (size_t i = 0; i < tx.size(); i++)
    {
        bool ok = std::fabs(tx[i] - dt * i) < 1e-6;
        if (i < tu.size())
            ok = ok && std::fabs(tu[i] - dt * i) < 1e-6 && std::fabs(tk[i] - dt * i) < 1e-6;
        SIM_CHECK(ok, "policy-times", "run %d: time stamp %zu of %s is %.9g (state), %.9g (control), %.9g (gain) instead of %.9g", it, i, what,
            tx[i], i < tu.size() ? tu[i] : 0, i < tk.size() ? tk[i] : 0, dt * i);
    }
}

// is `got` the policy `src` with the first m entries dropped, continued with its last entry up to K controls?
bool is_shift(const Policy& src, int m, int K, const Policy& got, bool extend, std::string& why)
{
    char b[200];
    int n = (int)src.uff().size();
    if ((int)got.uff().size() != K || (int)got.x_ref().size() != K + 1)
    {
        snprintf(b, sizeof b, "%zu controls instead of %d", got.uff().size(), K);
        why = b;
        return false;
    }
    for (int i = 0; i <= K; i++)
    {
        int j = std::min(m + i, n);
        if (!close(got.x_ref()[i](0), src.x_ref()[j](0), 1e-9) || !close(got.x_ref()[i](1), src.x_ref()[j](1), 1e-9))
        {
            snprintf(b, sizeof b, "reference state %d differs from state %d of the previous policy", i, j);
            why = b;
            return false;
        }
        if (i == K)
            break;
        j = std::min(m + i, n - 1);
        if (!close(got.uff()[i](0), src.uff()[j](0), 1e-9) || !close(got.K()[i](0, 0), src.K()[j](0, 0), 1e-9) ||
            !close(got.K()[i](0, 1), src.K()[j](0, 1), 1e-9))
        {
            snprintf(b, sizeof b, "entry %d (%.9g) differs from entry %d of the previous policy (%.9g)", i, got.uff()[i](0), j, src.uff()[j](0));
            why = b;
            return false;
        }
    }
    return true;
}

// independent forward integration with a controller
SV propagate(const Plant& p, bool rk4, double dt, int n, double t0, SV x, ct::core::Controller<2, 1>& c)
{
    auto f = [&](const double* y, double t, double* d) {
        SV s;
        s << y[0], y[1];
        ct::core::ControlVector<1> u;
        c.computeControl(s, t, u);
        PlantSystem::rhs(p, y, u(0), d);
    };
    double y[2] = {x(0), x(1)}, k1[2], k2[2], k3[2], k4[2], z[2];
    for (int i = 0; i < n; i++)
    {
        double t = t0 + i * dt;
        f(y, t, k1);
        if (!rk4)
        {
            y[0] += dt * k1[0];
            y[1] += dt * k1[1];
            continue;
        }
        for (int j = 0; j < 2; j++)
            z[j] = y[j] + 0.5 * dt * k1[j];
        f(z, t + 0.5 * dt, k2);
        for (int j = 0; j < 2; j++)
            z[j] = y[j] + 0.5 * dt * k2[j];
        f(z, t + 0.5 * dt, k3);
        for (int j = 0; j < 2; j++)
            z[j] = y[j] + dt * k3[j];
        f(z, t + dt, k4);
        for (int j = 0; j < 2; j++)
            y[j] += dt / 6 * (k1[j] + 2 * k2[j] + 2 * k3[j] + k4[j]);
    }
    SV r;
    r << y[0], y[1];
    return r;
}

const char* modeName(int m)
{
    static const char* n[] = {"FIXED_FINAL_TIME", "CONSTANT_RECEDING_HORIZON", "FIXED_FINAL_TIME_WITH_MIN_TIME_HORIZON",
        "RECEDING_HORIZON_WITH_FIXED_FINAL_TIME"};
    return n[m];
}

void run_loop(bool jumps)
{
    // ------------------------------------------------ problem and settings
    NS ns;
    static const NS::NLOCP_ALGORITHM alg[] = {NS::ILQR, NS::GNMS, NS::MS_ILQR, NS::GNMS_M_CL};
    ns.nlocp_algorithm = alg[sim::P("alg", 0, 3)];
    ns.dt = 0.02 + 0.01 * (double)sim::P("dt", 0, 3);
    ns.K_shot = ns.nlocp_algorithm >= NS::MS_ILQR ? (int)sim::P("K_shot", 1, 5) : 1;
    ns.K_sim = 1;
    ns.integrator = ct::core::IntegrationType::EULERCT;
    ns.discretization = NS::APPROXIMATION::FORWARD_EULER;
    ns.lineSearchSettings.type = sim::PB("ls", 50) ? LineSearchSettings::TYPE::SIMPLE : LineSearchSettings::TYPE::NONE;
    ns.max_iterations = 1;
    ns.nThreads = sim::PB("mp", 15) ? 2 : 1;
    ns.printSummary = false;
    ns.debugPrint = false;
    ns.lqocp_solver = NS::GNRICCATI_SOLVER;
    int K = (int)sim::P("K", 4, 20);
    double T0 = K * ns.dt;
    Plant plant;
    plant.a = sim::PR("plant.a", 0.5, 3);
    plant.c = sim::PR("plant.c", 0, 0.5);
    CostDef cost;
    cost.xd0 = sim::PR("cost.xd", 0, 1.5);

    mpc_settings ms;
    auto drawSettings = [&](mpc_settings& m) {
        m.stateForwardIntegration_ = sim::PB("forward", 70);
        m.stateForwardIntegratorType_ = sim::PB("fw_rk4", 50) ? ct::core::IntegrationType::RK4 : ct::core::IntegrationType::EULER;
        m.stateForwardIntegration_dt_ = 0.001 * (double)sim::P("fw_dt", 1, 5);
        m.measureDelay_ = !m.useExternalTiming_ && sim::PB("measure", 50);
        m.delayMeasurementMultiplier_ = 0.25 * (double)sim::P("mult", 1, 5);
        m.fixedDelayUs_ = 1000 * (int)sim::P("fixed", 0, 60) * sim::PB("has_fixed", 60);
        m.additionalDelayUs_ = 1000 * (int)sim::P("additional", 0, 30) * sim::PB("has_additional", 40);
        m.postTruncation_ = sim::PB("post", 50);
        m.mpc_mode = (MPC_MODE)sim::P("mode", 0, 3);
        m.minimumTimeHorizonMpc_ = ns.dt * (double)sim::P("Tmin", 2, 12);
    };
    ms.useExternalTiming_ = sim::PB("external", 35);
    ms.coldStart_ = sim::PB("cold", 15);
    drawSettings(ms);
    if (ms.coldStart_)
        ms.mpc_mode = CONSTANT_RECEDING_HORIZON;
    load.clockJump = jumps;
    load.jump = jumps ? 0.25 : 0;
    load.pFail = sim::PB("failing", 50) ? 0.3 : 0;

    std::shared_ptr<ct::core::ControlledSystem<2, 1>> sys(new PlantSystem(plant));
    std::shared_ptr<ct::core::LinearSystem<2, 1>> lin(new PlantLinear(plant));
    SV xinit;
    xinit << sim::PR("x0.q", -0.6, 0.6), sim::PR("x0.v", -0.3, 0.3);
    Problem prob(T0, xinit, sys, make_cost(cost), lin);
    std::shared_ptr<PolicyHandler<Policy, 2, 1, double>> ph;
    if (!ms.coldStart_)
        ph.reset(new StateFeedbackPolicyHandler<2, 1, double>(ns.dt));
    std::shared_ptr<CustomHorizon> custom;
    int customAt = sim::PB("custom_horizon", 15) && !ms.coldStart_ ? (int)sim::P("custom_at", 0, 5) : 100;
    sim::set_step_budget(900000, 900000000ull);

    MPC<RecSolver> mpc(prob, ns, ms, ph);
    // the same loop with the plain solver: only comparable when nothing depends on the internal clock
    std::unique_ptr<MPC<Solver>> twin;
    if (ms.useExternalTiming_ && load.pFail == 0 && sim::PB("twin", 40))
        twin.reset(new MPC<Solver>(prob, ns, ms));

    Policy last = make_guess(K, ns.dt, 0.1, 0.4, xinit(0));
    Policy initial = last;
    mpc.setInitialGuess(last);
    if (twin)
        twin->setInitialGuess(last);

    bool first = true;
    double Tcur = T0, Tinit = T0;
    Iv Elast, Efirst;
    double EextLast = 0, EextFirst = 0;
    Iv measured;
    double ext0 = sim::PB("ext_offset", 60) ? sim::PR("ext_t0", 0, 1000) : 0;
    SV x = xinit;
    int n = (int)sim::P("runs", 2, 9);
    double t0 = nowS();
    bool big = sim::PB("long_gaps", 20);
    for (int it = 0; it < n; it++)
    {
        // ------------------------------------------------ between the runs
        if (it > 0 && sim::PB("reset", 6))
        {
            K = (int)sim::P("K.reset", 4, 20);
            Tinit = K * ns.dt;
            mpc.resetMpc(Tinit);
            if (twin)
                twin->resetMpc(Tinit);
            first = true;
            if (ms.coldStart_ || sim::PB("guess_after_reset", 50))
            {
                last = initial = make_guess(K, ns.dt, -0.1, 0.3, x(0));
                mpc.setInitialGuess(last);
                if (twin)
                    twin->setInitialGuess(last);
            }
            sim::probe("reset");
        }
        if (it > 0 && sim::PB("settings", 15))
        {
            mpc_settings m2 = ms;
            drawSettings(m2);
            if (ms.coldStart_)
                m2.mpc_mode = CONSTANT_RECEDING_HORIZON;
            ms = m2;
            mpc.updateSettings(ms);
            if (twin)
                twin->updateSettings(ms);
            sim::probe("settings_changed");
        }
        if (it == customAt)
        {
            custom.reset(new CustomHorizon(ms, Tinit, ns.dt * (double)sim::P("custom_T", 2, 25)));
            mpc.setTimeHorizonStrategy(custom);
            if (twin)
                twin->setTimeHorizonStrategy(std::make_shared<CustomHorizon>(ms, Tinit, custom->T2_));
            sim::probe("custom_horizon");
        }
        static const int64_t cap[] = {5000000, 30000000, 120000000};
        int64_t gc = big ? 2000000000 : cap[sim::P("gapcap", 0, 2)];
        sim::busy(sim::P("gap", 0, 1000) * gc / 1000);
        maybe_jump();
        load.prep_ns = sim::P("prep_us", 0, 8000) * 1000;
        load.fin_ns = sim::P("solve_us", 0, sim::PB("slow", 25) ? 90000 : 9000) * 1000;
        if (first)
            sim::probe_if(it > 0, "first_again");

        // ------------------------------------------------ prepare
        rec.clear();
        Tcur = mpc.getSolver().getTimeHorizon();  // the horizon the last policy covers
        int cc = custom ? custom->called : 0;
        double ext = ext0 + (nowS() - t0);
        double tp0 = nowS();
        mpc.prepareIteration(ext);
        double tpT = rec.t_horizon;
        SIM_CHECK(rec.horizons >= 1 && rec.guesses >= 1 && rec.prepares == 1, "protocol",
            "run %d: prepareIteration gave the solver %d horizons, %d initial guesses, %d preparations", it, rec.horizons, rec.guesses, rec.prepares);
        const double clk = 3e-6;  // clock resolution
        Iv tfs, tfirst;
        if (!first)
        {
            if (ms.useExternalTiming_)
            {
                tfs = Iv(ext - EextLast);
                tfirst = Iv(ext - EextFirst);
            }
            else
            {
                tfs = Iv(tp0 - Elast.hi - clk, tpT - Elast.lo + clk);
                tfirst = Iv(tp0 - Efirst.hi - clk, tpT - Efirst.lo + clk);
            }
        }
        Iv delay = 1e-6 * ms.additionalDelayUs_;
        if (ms.measureDelay_)
            delay = delay + measured.scaled(ms.delayMeasurementMultiplier_);
        else
            delay = delay + Iv(1e-6 * ms.fixedDelayUs_);
        if (first)
            delay = Iv(0);
        Iv tstop = (tfs + delay).clampHi(Tcur);
        bool clipped = tfs.hi + delay.hi > Tcur;
        sim::probe_if(clipped, "clipped_by_horizon");
        tfs = tfs.clampHi(Tcur);
        // forward-integration length: both ends move together with the preparation time
        Iv span = clipped ? (tstop - tfs).clampLo(0) : delay;
        const double tol = 1e-7;

        // horizon
        if (custom)
        {
            SIM_CHECK(custom->called == cc + 1, "horizon", "run %d: the time horizon strategy set by the user was asked %d times", it, custom->called - cc);
            SIM_CHECK(std::fabs(rec.T - custom->T2_) < tol, "horizon", "run %d: horizon %.9g instead of the user strategy's %.9g", it, rec.T, custom->T2_);
            SIM_CHECK(tfirst.has(custom->first, tol) && tstop.has(custom->stop, tol), "horizon",
                "run %d: the strategy was told %.9g s since the first solve (expected %.9g) and %.9g s of prediction (expected %.9g)", it,
                custom->first, tfirst.lo, custom->stop, tstop.lo);
        }
        else
        {
            // the time left until the final time: MPC counts the time since the last run twice (see DESIGN.md), accept both
            auto want = [&](const Iv& spent) {
                Iv left = (Iv(Tinit) - spent).clampLo(0);
                switch (ms.mpc_mode)
                {
                    case FIXED_FINAL_TIME:
                        return left;
                    case FIXED_FINAL_TIME_WITH_MIN_TIME_HORIZON:
                        return left.clampLo(ms.minimumTimeHorizonMpc_);
                    case RECEDING_HORIZON_WITH_FIXED_FINAL_TIME:
                        return left.clampHi(ms.minimumTimeHorizonMpc_);
                    default:
                        return Iv(Tinit);
                }
            };
            Iv a = want(tfirst + tstop), b = want(tfirst + span);
            SIM_CHECK(a.has(rec.T, tol) || b.has(rec.T, tol), "horizon",
                "run %d: %s with initial horizon %.9g: new horizon %.9g, expected %.9g (%.9g s since the first run, prediction until %.9g s)", it,
                modeName(ms.mpc_mode), Tinit, rec.T, a.lo, tfirst.lo, tstop.lo);
            bool reached = mpc.timeHorizonReached();
            bool wantReached = ms.mpc_mode == CONSTANT_RECEDING_HORIZON ? false
                               : ms.mpc_mode == FIXED_FINAL_TIME_WITH_MIN_TIME_HORIZON ? rec.T == ms.minimumTimeHorizonMpc_ : rec.T == 0;
            SIM_CHECK(reached == wantReached, "horizon", "run %d: %s: horizon %.9g, but timeHorizonReached() is %d", it, modeName(ms.mpc_mode), rec.T, reached);
            sim::probe_if(reached, "horizon_reached");
        }
        int Kn = std::max(1, (int)std::lround(rec.T / ns.dt));
        SIM_CHECK(std::fabs(mpc.getSolver().getTimeHorizon() - Kn * ns.dt) < 1e-9, "horizon", "run %d: horizon %.9g requested, the solver works with %.9g", it, rec.T,
            mpc.getSolver().getTimeHorizon());

        // warm start
        if (ms.coldStart_)
        {
            std::string why;
            SIM_CHECK(is_shift(initial, 0, (int)initial.uff().size(), rec.guess, false, why), "warm-start", "run %d: cold start does not use the initial guess: %s", it, why.c_str());
        }
        else
        {
            check_times(rec.guess, ns.dt, "the warm start", it);
            int size = (int)last.uff().size();
            int mlo = std::min(size - 1, std::max(0, (int)std::floor(tstop.lo / ns.dt - 1e-6)));
            int mhi = std::min(size - 1, std::max(0, (int)std::floor(tstop.hi / ns.dt + 1e-6)));
            std::string why;
            bool ok = !policy_finite(last);
            for (int m = mlo; m <= mhi && !ok; m++)
                ok = is_shift(last, m, Kn, rec.guess, true, why);
            SIM_CHECK(ok, "warm-start", "run %d: the warm start is not the previous policy (%d controls) shifted by %d..%d steps (%.6g s) and resized to %d: %s", it,
                size, mlo, mhi, tstop.lo, Kn, why.c_str());
            sim::probe_if(mlo > 0, "warm_start_shifted");
            sim::probe_if(mlo + Kn > size, "warm_start_extended");
        }
        Policy warm = rec.guess;

        // ------------------------------------------------ finish
        sim::busy(sim::P("gap2_us", 0, 3000) * 1000 * sim::PB("has_gap2", 50));
        maybe_jump();
        x(0) += 0.01 * (double)sim::P("dx", -5, 5);
        double x_ts = ext0 + (nowS() - t0);
        std::shared_ptr<ct::core::Controller<2, 1>> uc;
        if (sim::PB("user_controller", 20))
            uc.reset(new UserController(sim::PR("user_k", 0, 2)));
        Policy p;
        double ts = -1e9;
        double tf0 = nowS();
        bool r = mpc.finishIteration(x, x_ts, p, ts, uc);
        double tf1 = nowS();
        SIM_CHECK(rec.finishes == 1 && rec.states >= 1, "protocol", "run %d: finishIteration set %d initial states and ran %d solver iterations", it, rec.states, rec.finishes);
        SIM_CHECK(r == rec.result, "solve-result", "run %d: the solver's iteration returned %d, MPC reported %d", it, rec.result, r);

        // initial state handed to the solver
        bool finite = policy_finite(last) && fin(x(0));
        if (!first && ms.stateForwardIntegration_)
        {
            if (finite)
            {
                double fdt = ms.stateForwardIntegration_dt_;
                int nlo = std::max(0, (int)std::lround(span.lo / fdt - 1e-4)), nhi = std::max(0, (int)std::lround(span.hi / fdt + 1e-4));
                double ts_[3] = {tfs.lo - 1e-8, 0.5 * (tfs.lo + tfs.hi), tfs.hi + 1e-8};  // the policy jumps at its stages
                double best = 1e300, spread = 0;
                SV bx, px;
                for (int k = nlo; k <= nhi; k++)
                    for (int c = 0; c < 3; c++)
                    {
                        Policy cp = last;
                        SV e = propagate(plant, ms.stateForwardIntegratorType_ == ct::core::IntegrationType::RK4, fdt, k, ts_[c], x,
                            uc ? *uc : static_cast<ct::core::Controller<2, 1>&>(cp));
                        double d = (e - rec.x0).norm();
                        if (d < best)
                        {
                            best = d;
                            bx = e;
                        }
                        if (c > 0)
                            spread = std::max(spread, (e - px).norm());
                        px = e;
                    }
                if (bx.norm() < 1e4)
                    SIM_CHECK(best <= 1e-6 + 2 * spread, "forward-prediction",
                        "run %d: the solver starts at (%.9g, %.9g); integrating the measured state (%.6g, %.6g) %d..%d steps of %.3g s from policy time %.6g with %s gives (%.9g, %.9g)",
                        it, rec.x0(0), rec.x0(1), x(0), x(1), nlo, nhi, fdt, tfs.lo, uc ? "the given controller" : "the last policy", bx(0), bx(1));
                sim::probe_if(nlo > 0, "forward_integrated");
            }
        }
        else
            SIM_CHECK((rec.x0 - x).norm() < 1e-12, "forward-prediction", "run %d: the solver starts at (%.9g, %.9g) instead of the measured state (%.9g, %.9g)", it,
                rec.x0(0), rec.x0(1), x(0), x(1));

        // returned policy and time stamp
        Iv dtp;
        if (!first)
            dtp = ms.useExternalTiming_ ? Iv(x_ts - EextLast) : Iv(rec.t_fin_end - Elast.hi - clk, tf1 - Elast.lo + clk);
        Iv want_ts = Iv(x_ts) + span;
        int mlo = 0, mhi = 0;
        if (r)
        {
            int size = (int)rec.solution.uff().size();
            if (ms.postTruncation_ && !first && !ms.coldStart_)
            {
                mlo = std::min(size - 1, std::max(0, (int)std::floor((dtp.lo - tstop.hi) / ns.dt - 1e-6)));
                mhi = std::min(size - 1, std::max(0, (int)std::floor((dtp.hi - tstop.lo) / ns.dt + 1e-6)));
                sim::probe_if(mlo > 0, "truncated");
            }
            std::string why;
            int m = -1;
            bool fp = policy_finite(rec.solution);
            for (int k = mlo; k <= mhi && m < 0; k++)
                if (!fp || is_shift(rec.solution, k, size - k, p, false, why))
                    m = k;
            SIM_CHECK(m >= 0, "policy-truncation", "run %d: the returned policy is not the solver's solution without its first %d..%d entries: %s", it, mlo, mhi, why.c_str());
            if (fp)
                want_ts = want_ts + Iv(m * ns.dt);
            else
                want_ts = want_ts + Iv(mlo * ns.dt, mhi * ns.dt);
            check_times(p, ns.dt, "the returned policy", it);
            sim::probe("solved");
        }
        else
        {
            std::string why;
            SIM_CHECK(!policy_finite(warm) || is_shift(warm, 0, (int)warm.uff().size(), p, false, why), "policy-after-failure",
                "run %d: the solve was unsuccessful, but the returned policy is not the warm start: %s", it, why.c_str());
            sim::probe("unsuccessful");
        }
        Iv solveTime = ms.useExternalTiming_ ? Iv(0) : Iv(rec.t_fin_end - rec.t_fin_begin - clk, tf1 - tf0 + clk);
        if (first)
            want_ts = Iv(x_ts) + solveTime;
        SIM_CHECK(want_ts.has(ts, 1e-6), "policy-timestamp",
            "run %d (%s%s%s): state measured at %.9g, policy time stamp %.9g, expected %.9g..%.9g (prediction from %.6g to %.6g s, solve took %.6g s)", it,
            first ? "first, " : "", r ? "successful, " : "unsuccessful, ", ms.useExternalTiming_ ? "external timing" : "internal timing", x_ts, ts,
            want_ts.lo, want_ts.hi, tfs.lo, tstop.lo, solveTime.lo);

        // bookkeeping of the reference
        Elast = Iv(rec.t_fin_end, tf1);
        EextLast = x_ts;
        measured = solveTime;
        if (first)
        {
            Efirst = Elast;
            EextFirst = EextLast;
        }
        first = false;
        last = p;
        sim::logd(ts);
        sim::logd(rec.T);
        {
            sim::busy(sim::P("gap3_us", 0, 1000) * 1000);
            double e2 = ext0 + (nowS() - t0);
            double a = nowS();
            double s = mpc.timeSinceFirstSuccessfulSolve(e2);
            Iv w = ms.useExternalTiming_ ? Iv(e2 - EextFirst) : Iv(a - Efirst.hi - clk, nowS() - Efirst.lo + clk);
            SIM_CHECK(w.has(s, 1e-6), "time-since-first", "run %d: time since the first solve is %.9g instead of %.9g", it, s, w.lo);
        }
        if (twin)
        {
            Policy q;
            double ts2 = 0;
            twin->prepareIteration(ext);
            bool r2 = twin->finishIteration(x, x_ts, q, ts2, uc);
            std::string why;
            SIM_CHECK(r2 == r && close(ts, ts2, 1e-9), "twin", "run %d: two identical controllers disagree: results %d, %d, time stamps %.9g, %.9g", it, r, r2, ts, ts2);
            SIM_CHECK(!policy_finite(p) || is_shift(p, 0, (int)p.uff().size(), q, false, why), "twin", "run %d: two identical controllers disagree: %s", it, why.c_str());
            sim::probe("twin");
        }
        // the system moves on
        if (policy_finite(p))
        {
            Policy cp = p;
            x = propagate(plant, true, 0.01, 3, 0, x, cp);
        }
        if (!fin(x(0)) || x.norm() > 50)
            return;
        if (!custom && mpc.timeHorizonReached() && rec.T == 0)
            break;
    }
}

}  // namespace

extern "C" void sim_scenario(const char* sc)
{
    std::string s = sc;
    if (s == "loop")
        run_loop(false);
    else if (s == "clock")
        run_loop(true);
    else
        sim::violation("internal", "unknown scenario %s", sc);
}
