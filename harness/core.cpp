// Simulation of the integration layer: integrators with event handlers used over long histories of calls by several threads,
// with models and handlers that fail, requests from other threads to stop a running integration, changes of the integration
// type and of the tolerances, copies of integrators; and the discretised system with its sensitivities.
// Results are compared with own implementations of the fixed-step formulas and with a fine reference for the others.
#include <ct/core/core.h>
#include <atomic>
#include <cmath>
#include <memory>
#include <stdexcept>
#include <thread>
#include <vector>
#include "../sim/detsim.h"

namespace {
typedef ct::core::StateVector<2> SV;
typedef ct::core::ControlVector<1> CV;
typedef ct::core::IntegrationType IT;

struct UserError : std::runtime_error
{
    UserError() : std::runtime_error("injected failure") {}
};
bool fin(double x) { return std::isfinite(x); }
bool near(double a, double b, double tol) { return fin(a) && fin(b) && std::fabs(a - b) <= tol * (1 + std::fabs(a) + std::fabs(b)); }
bool near(const SV& a, const double* b, double tol) { return near(a(0), b[0], tol) && near(a(1), b[1], tol); }

struct Dyn
{
    double a = 1, b = 0.2, tv = 0, c = 0;  // symplectic systems are time invariant: tv = 0 there
    double k = 0.5, w = 0.3;               // the controller  u = w sin(2 t + 1) - k q   (symplectic: u = w - k q)
    double law(const double* x, double t, bool sym) const { return (sym ? w : w * std::sin(2 * t + 1)) - k * x[0]; }
    double acc(const double* x, double t, double u) const { return -a * (1 + tv * std::sin(3 * t)) * std::sin(x[0]) - b * x[1] + (1 + c * x[0]) * u; }
    void rhs(const double* x, double t, double u, double* d) const
    {
        d[0] = x[1];
        d[1] = acc(x, t, u);
    }
    void closed(const double* x, double t, double* d) const { rhs(x, t, law(x, t, false), d); }
};

double g_throw = 0;
thread_local bool g_failed = false;  // this thread's model or handler has raised an exception
bool g_yield = false;
void point()
{
    if (g_yield)
        sim::yield();
    if (g_throw > 0 && sim::fault("user_exception", g_throw))
    {
        g_failed = true;
        throw UserError();
    }
}

struct Eval
{
    SV x;
    double t, u;
};

// the user's plant; keeps a record of how it was called
class Sys : public ct::core::ControlledSystem<2, 1>
{
public:
    EIGEN_MAKE_ALIGNED_OPERATOR_NEW
    typedef ct::core::ControlledSystem<2, 1> Base;
    Sys(const Dyn& d) : Base(ct::core::SYSTEM_TYPE::SECOND_ORDER), d_(d) {}
    Sys(const Sys& o) : Base(o), d_(o.d_) {}
    Sys* clone() const override { return new Sys(*this); }
    void computeControlledDynamics(const SV& x, const double& t, const CV& u, SV& dx) override
    {
        double d[2];
        tmp_ = x(1);
        point();
        d_.rhs(x.data(), t, u(0), d);
        SIM_CHECK(x(1) == tmp_, "shared-model", "the model of one integrator is used by two threads at the same time");
        evals.push_back(Eval{x, t, u(0)});
        dx(0) = d[0];
        dx(1) = d[1];
    }
    std::vector<Eval> evals;

private:
    Dyn d_;
    double tmp_ = 0;
};
class Law : public ct::core::Controller<2, 1>
{
public:
    EIGEN_MAKE_ALIGNED_OPERATOR_NEW
    Law(const Dyn& d, bool sym) : d_(d), sym_(sym) {}
    Law* clone() const override { return new Law(*this); }
    void computeControl(const SV& x, const double& t, CV& u) override { u(0) = d_.law(x.data(), t, sym_); }

private:
    Dyn d_;
    bool sym_;
};
class SymSys : public ct::core::SymplecticSystem<1, 1, 1>
{
public:
    EIGEN_MAKE_ALIGNED_OPERATOR_NEW
    typedef ct::core::SymplecticSystem<1, 1, 1> Base;
    SymSys(const Dyn& d) : Base(ct::core::SYSTEM_TYPE::SECOND_ORDER), d_(d) {}
    SymSys(const SymSys& o) : Base(o), d_(o.d_) {}
    SymSys* clone() const override { return new SymSys(*this); }
    void computePdot(const SV& x, const ct::core::StateVector<1>& v, const CV& u, ct::core::StateVector<1>& p) override { p(0) = v(0); }
    void computeVdot(const SV& x, const ct::core::StateVector<1>& p, const CV& u, ct::core::StateVector<1>& v) override
    {
        double y[2] = {p(0), x(1)};
        point();
        v(0) = d_.acc(y, 0, u(0));
    }

private:
    Dyn d_;
};
class SysLin : public ct::core::LinearSystem<2, 1>
{
public:
    EIGEN_MAKE_ALIGNED_OPERATOR_NEW
    SysLin(const Dyn& d) : d_(d) {}
    SysLin(const SysLin& o) : ct::core::LinearSystem<2, 1>(o), d_(o.d_) {}
    SysLin* clone() const override { return new SysLin(*this); }
    const state_matrix_t& getDerivativeState(const SV& x, const CV& u, const double t = 0.0) override
    {
        A_ << 0, 1, -d_.a * (1 + d_.tv * std::sin(3 * t)) * std::cos(x(0)) + d_.c * u(0), -d_.b;
        return A_;
    }
    const state_control_matrix_t& getDerivativeControl(const SV& x, const CV& u, const double t = 0.0) override
    {
        B_ << 0, 1 + d_.c * x(0);
        return B_;
    }

private:
    Dyn d_;
    state_matrix_t A_;
    state_control_matrix_t B_;
};

// ---- own formulas
enum Kind
{
    K_EULER,
    K_RK4,
    K_MID,
    K_FINE
};
Kind kind(IT t)
{
    switch (t)
    {
        case IT::EULER:
        case IT::EULERCT:
            return K_EULER;
        case IT::RK4:
        case IT::RK4CT:
            return K_RK4;
        case IT::MODIFIED_MIDPOINT:
            return K_MID;
        default:
            return K_FINE;
    }
}
template <class F>
void rk4(const F& f, double t, double h, double* x)
{
    double k1[2], k2[2], k3[2], k4[2], y[2];
    f(x, t, k1);
    for (int i = 0; i < 2; i++)
        y[i] = x[i] + 0.5 * h * k1[i];
    f(y, t + 0.5 * h, k2);
    for (int i = 0; i < 2; i++)
        y[i] = x[i] + 0.5 * h * k2[i];
    f(y, t + 0.5 * h, k3);
    for (int i = 0; i < 2; i++)
        y[i] = x[i] + h * k3[i];
    f(y, t + h, k4);
    for (int i = 0; i < 2; i++)
        x[i] += h / 6 * (k1[i] + 2 * k2[i] + 2 * k3[i] + k4[i]);
}
template <class F>
void step(Kind k, const F& f, double t, double h, double* x)
{
    if (k == K_EULER)
    {
        double d[2];
        f(x, t, d);
        x[0] += h * d[0];
        x[1] += h * d[1];
    }
    else if (k == K_RK4)
        rk4(f, t, h, x);
    else if (k == K_MID)
    {
        // Gragg's modified midpoint rule with two substeps
        double s = 0.5 * h, d[2], z0[2] = {x[0], x[1]}, z1[2], z2[2];
        f(z0, t, d);
        for (int i = 0; i < 2; i++)
            z1[i] = z0[i] + s * d[i];
        f(z1, t + s, d);
        for (int i = 0; i < 2; i++)
            z2[i] = z0[i] + 2 * s * d[i];
        f(z2, t + h, d);
        for (int i = 0; i < 2; i++)
            x[i] = 0.5 * (z1[i] + z2[i] + s * d[i]);
    }
    else
    {
        int n = std::max(1, (int)std::ceil(h / 0.005));
        for (int i = 0; i < n; i++)
            rk4(f, t + i * h / n, h / n, x);
    }
}

// ---- event handlers of the user
struct Spy : public ct::core::EventHandler<2>
{
    typedef Eigen::Matrix<double, 2, 1> M;
    bool sub = false, may_throw = false;
    std::vector<std::pair<SV, double>> seen;
    std::atomic<int> count{0};       // observations since the last reset
    std::atomic<int> epoch{0};       // number of resets
    bool callOnSubsteps() override { return sub; }
    bool checkEvent(const SV& x, const double& t) override
    {
        seen.push_back(std::make_pair(x, t));
        count.store((int)seen.size());
        return may_throw;
    }
    void handleEvent(const SV& x, const double& t) override { point(); }
    void reset() override
    {
        seen.clear();
        count.store(0);
        epoch.fetch_add(1);
    }
};
// asked first: tells when the handlers begin to be reset
struct Mark : public ct::core::EventHandler<2>
{
    std::atomic<int> epoch{0};
    bool callOnSubsteps() override { return false; }
    bool checkEvent(const SV& x, const double& t) override { return false; }
    void handleEvent(const SV& x, const double& t) override {}
    void reset() override { epoch.fetch_add(1); }
};
typedef ct::core::KillIntegrationEventHandler<2> Kill;
typedef ct::core::MaxStepsEventHandler<2> MaxSteps;
typedef ct::core::SubstepRecorder<2, 1> Rec;
typedef ct::core::Integrator<2> Int;

struct Request  // a request to stop, seen from the thread that makes it
{
    std::atomic<int> after{-1}, epoch_before{-1}, epoch_after{-1}, mark_after{-1};
};

struct User
{
    Dyn d;
    std::shared_ptr<Sys> sys;
    std::shared_ptr<SymSys> symsys;
    std::shared_ptr<Kill> kill;
    std::shared_ptr<MaxSteps> max;
    std::shared_ptr<Rec> rec;
    std::shared_ptr<Spy> spy, sub;
    std::shared_ptr<Mark> mark;
    std::unique_ptr<Int> integ;
    std::unique_ptr<ct::core::IntegratorSymplecticEuler<1, 1, 1>> symE;
    std::unique_ptr<ct::core::IntegratorSymplecticRk<1, 1, 1>> symR;
    IT type;
    bool hasMax = false, recOn = true, sym = false;
    size_t limit = 0;
    double tol = 1e-8;
    std::vector<std::unique_ptr<Request>> requests;
    std::atomic<int> nreq{0};
    std::atomic<bool> done{false};
};

const IT types[] = {IT::EULER, IT::RK4, IT::MODIFIED_MIDPOINT, IT::ODE45, IT::RK5VARIABLE, IT::RK78, IT::BULIRSCHSTOER, IT::EULERCT, IT::RK4CT};
const char* names[] = {"EULER", "RK4", "MODIFIED_MIDPOINT", "ODE45", "RK5VARIABLE", "RK78", "BULIRSCHSTOER", "EULERCT", "RK4CT"};
const char* nm(IT t)
{
    for (int i = 0; i < 9; i++)
        if (types[i] == t)
            return names[i];
    return t == IT::EULER_SYM ? "EULER_SYM" : "RK_SYM";
}
bool ct_stepper(IT t) { return t == IT::EULERCT || t == IT::RK4CT; }

// did somebody ask to stop, and was the request made while this call was running?
struct Asked
{
    bool any = false, certain = false;
    int atCount = 1 << 30;  // observations made when the earliest certain request had been made
};
Asked asked(User& u, int epoch0, int mark0)
{
    Asked a;
    int n = u.nreq.load();
    for (int i = 0; i < n; i++)
    {
        Request& r = *u.requests[i];
        if (r.mark_after.load() < mark0 + 1)
            continue;  // over before this call began, and therefore discarded
        if (r.epoch_before.load() > epoch0 + 1)
            continue;
        a.any = true;
        if (r.epoch_before.load() == epoch0 + 1 && r.epoch_after.load() == epoch0 + 1 && r.after.load() >= 0)
        {
            a.certain = true;
            a.atCount = std::min(a.atCount, r.after.load());
        }
    }
    return a;
}

void one_call(User& u, int id)
{
    enum Op
    {
        NSTEPS,
        CONST,
        ADAPT,
        TIMES
    };
    Op op = u.sym ? NSTEPS : (Op)sim::P("op", 0, 3);
    bool traj = op == TIMES || sim::PB("traj", 50);
    SV x;
    x << sim::PR("q0", -1, 1), sim::PR("v0", -1, 1);
    double x0[2] = {x(0), x(1)};
    double t0 = sim::PR("t0", 0, 3), dt = sim::PR("dt", 0.01, 0.08);
    size_t n = sim::P("n", 1, 12);
    double frac = sim::PR("frac", 0.15, 0.85), tf = t0 + ((double)n + frac) * dt;
    if (u.hasMax && sim::PB("setmax", 40))
    {
        u.limit = sim::P("limit", 1, 14);
        u.max->setMaxNumSteps(u.limit);
    }
    if (sim::PB("recswitch", 20))
    {
        u.recOn = !u.recOn;
        u.rec->setEnable(u.recOn);
    }
    ct::core::tpl::TimeArray<double> times, given;
    ct::core::StateVectorArray<2> states;
    // whatever is in the containers must not matter
    for (int i = sim::P("dirty", 0, 2); i > 0; i--)
    {
        states.push_back(SV::Constant(77));
        times.push_back(-5);
    }
    if (op == TIMES)
    {
        double t = t0;
        for (size_t i = 0; i <= n; i++)
        {
            given.push_back(t);
            t += dt * sim::PR("gap", 0.3, 2.4);
        }
        tf = given.back();
    }
    u.sys->evals.clear();
    int epoch0 = u.spy->epoch.load(), mark0 = u.mark->epoch.load();
    bool threw = false, user = false;
    g_failed = false;
    std::string what;
    try
    {
        switch (op)
        {
            case NSTEPS:
                if (u.symE)
                    traj ? u.symE->integrate_n_steps(x, t0, n, dt, states, times) : u.symE->integrate_n_steps(x, t0, n, dt);
                else if (u.symR)
                    traj ? u.symR->integrate_n_steps(x, t0, n, dt, states, times) : u.symR->integrate_n_steps(x, t0, n, dt);
                else
                    traj ? u.integ->integrate_n_steps(x, t0, n, dt, states, times) : u.integ->integrate_n_steps(x, t0, n, dt);
                break;
            case CONST:
                traj ? u.integ->integrate_const(x, t0, tf, dt, states, times) : u.integ->integrate_const(x, t0, tf, dt);
                break;
            case ADAPT:
                traj ? u.integ->integrate_adaptive(x, t0, tf, states, times, dt) : u.integ->integrate_adaptive(x, t0, tf, dt);
                break;
            case TIMES:
                u.integ->integrate_times(x, given, states, dt);
                break;
        }
    } catch (UserError& e)
    {
        threw = user = true;
    } catch (std::exception& e)
    {
        threw = true;
        what = e.what();
    }
    const char* opn[] = {"integrate_n_steps", "integrate_const", "integrate_adaptive", "integrate_times"};
    std::string whereS = std::string(opn[op]) + "(" + nm(u.type) + ")";
    const char* where = whereS.c_str();
    Asked a = asked(u, epoch0, mark0);
    int seen = (int)u.spy->seen.size();
    sim::log((uint64_t)seen * 4 + threw * 2 + user);
    SIM_CHECK(user == g_failed, "lost-failure", "%s %s", where, user ? "reports a failure that did not happen" : "hides the failure of the model or of a handler");
    if (user)
    {
        sim::probe("failed_call");
        return;
    }
    if (!u.sym && ct_stepper(u.type) && op != NSTEPS && threw)
    {
        sim::probe("unsupported");
        return;  // documented as not implemented for this stepper
    }
    SIM_CHECK(u.spy->epoch.load() == epoch0 + 1, "handler-reset", "%s: the event handlers were reset %d times at the start of a call, expected once", where,
        u.spy->epoch.load() - epoch0);
    // the number of steps of this call is only known in advance for fixed steps
    bool adaptiveType = !u.sym && (u.type == IT::ODE45 || u.type == IT::RK5VARIABLE || u.type == IT::BULIRSCHSTOER);
    bool known = op == NSTEPS || op == CONST || (op == ADAPT && !adaptiveType) || op == TIMES;
    size_t nsteps = op == ADAPT ? n + 1 : n;
    if (threw)
    {
        // only the two handlers that stop an integration may have done so
        bool byMax = u.hasMax && what.find("max number of steps") != std::string::npos;
        bool byKill = what.find("external event") != std::string::npos;
        SIM_CHECK(byMax || byKill, "unexpected-failure", "%s failed: %s", where, what.c_str());
        if (byKill)
        {
            SIM_CHECK(a.any, "spurious-stop", "%s was stopped although nobody asked for it during this call", where);
            sim::probe("killed");
        }
        if (byMax)
        {
            SIM_CHECK((size_t)seen >= u.limit && (!known || nsteps >= u.limit), "step-limit", "%s with %zu steps was stopped after %d observations by a limit of %zu steps", where,
                nsteps, seen, u.limit);
            SIM_CHECK((size_t)seen <= u.limit + 1, "step-limit", "%s went on to %d observations with a limit of %zu steps", where, seen, u.limit);
            sim::probe("step_limit");
        }
    }
    else if (u.hasMax && known)
        SIM_CHECK(nsteps <= u.limit, "step-limit", "%s took %zu steps with a limit of %zu", where, nsteps, u.limit);
    if (a.certain)
    {
        SIM_CHECK(seen <= a.atCount + 1, "stop-ignored", "%s went on for %d observations after it was asked to stop", where, seen - a.atCount);
        sim::probe("asked_while_running");
    }
    // reference
    auto f = [&](const double* y, double t, double* d) { u.d.closed(y, t, d); };
    double y[2] = {x0[0], x0[1]}, t = t0;
    std::vector<std::pair<SV, double>> ref;
    auto add = [&]() {
        SV v;
        v << y[0], y[1];
        ref.push_back(std::make_pair(v, t));
    };
    Kind k = u.sym ? K_FINE : kind(u.type);
    double tol = k == K_FINE ? std::max(1e-5, 50 * u.tol) : 1e-9;
    if (u.sym)
        tol = u.symE ? 1e-9 : 2e-5;
    // integrate_n_steps and integrate_const of these types take one step of the underlying formula per dt
    add();
    auto advance = [&](double h) {
        if (u.symE)
        {
            y[0] += h * y[1];
            double z[2] = {y[0], y[1]};
            // the controller is asked with the current cached state: new position, old velocity
            y[1] += h * u.d.acc(z, 0, u.d.law(z, 0, true));
        }
        else if (u.symR)
        {
            auto g = [&](const double* q, double, double* d) { u.d.rhs(q, 0, u.d.law(q, 0, true), d); };
            step(K_FINE, g, t, h, y);
        }
        else
            step(k, f, t, h, y);
        t += h;
    };
    if (op == NSTEPS || op == CONST)
    {
        for (size_t i = 0; i < n; i++)
        {
            advance(dt);
            t = t0 + (double)(i + 1) * dt;
            add();
        }
    }
    else if (op == ADAPT && !adaptiveType)
    {
        for (size_t i = 0; i < n; i++)
        {
            advance(dt);
            t = t0 + (double)(i + 1) * dt;
            add();
        }
        advance(tf - t);
        t = tf;
        add();
    }
    else if (op == TIMES)
    {
        for (size_t i = 1; i < given.size(); i++)
        {
            double end = given[i];
            while (end - t > 1e-12)
            {
                double h = std::min(dt, end - t);
                advance(h);
            }
            t = end;
            add();
        }
    }
    // observations by the user's handler: the trajectory from its start, with or without the initial state
    auto compare = [&](const std::vector<std::pair<SV, double>>& o, bool complete, const char* by) {
        if (adaptiveType && op == ADAPT)
        {
            double yy[2] = {x0[0], x0[1]}, tt = t0;
            for (size_t i = 0; i < o.size(); i++)
            {
                SIM_CHECK(i == 0 ? near(o[i].second, t0, 1e-9) : o[i].second > o[i - 1].second, "trajectory-time", "%s: time %.9g at position %zu of the %s", where, o[i].second, i, by);
                SIM_CHECK(o[i].second <= tf + 1e-9, "trajectory-time", "%s: time %.9g beyond the final time %.9g in the %s", where, o[i].second, tf, by);
                if (o[i].second > tt)
                    step(K_FINE, f, tt, o[i].second - tt, yy);
                tt = o[i].second;
                SIM_CHECK(near(o[i].first, yy, tol), "trajectory-state", "%s: state (%.9g, %.9g) at time %.9g of the %s, expected (%.9g, %.9g)", where, o[i].first(0), o[i].first(1), tt, by, yy[0],
                    yy[1]);
            }
            if (complete)
                SIM_CHECK(!o.empty() && near(o.back().second, tf, 1e-9), "trajectory-time", "%s: the %s does not reach the final time", where, by);
            return;
        }
        size_t off = !o.empty() && near(o[0].second, t0, 1e-9) ? 0 : 1;
        if (complete)
            SIM_CHECK(o.size() + off == ref.size(), "trajectory-length", "%s: %zu entries in the %s, expected %zu", where, o.size(), by, ref.size() - off);
        SIM_CHECK(o.size() + off <= ref.size(), "trajectory-length", "%s: %zu entries in the %s, expected at most %zu", where, o.size(), by, ref.size() - off);
        for (size_t i = 0; i < o.size(); i++)
        {
            SIM_CHECK(near(o[i].second, ref[i + off].second, 1e-9), "trajectory-time", "%s: time %.12g at position %zu of the %s, expected %.12g", where, o[i].second, i, by, ref[i + off].second);
            SIM_CHECK(near(o[i].first, ref[i + off].first.data(), tol), "trajectory-state", "%s: state (%.9g, %.9g) at time %.9g of the %s, expected (%.9g, %.9g)", where, o[i].first(0),
                o[i].first(1), o[i].second, by, ref[i + off].first(0), ref[i + off].first(1));
        }
    };
    compare(u.spy->seen, !threw, "handler's observations");
    if (threw)
        return;
    // the final state
    {
        double yy[2] = {y[0], y[1]};
        if (adaptiveType && op == ADAPT)
        {
            yy[0] = x0[0], yy[1] = x0[1];
            step(K_FINE, f, t0, tf - t0, yy);
        }
        SIM_CHECK(near(x, yy, tol), "final-state", "%s ends in (%.9g, %.9g), expected (%.9g, %.9g)", where, x(0), x(1), yy[0], yy[1]);
    }
    if (traj)
    {
        std::vector<std::pair<SV, double>> o;
        SIM_CHECK(op == TIMES || states.size() == times.size(), "trajectory-length", "%s: %zu states and %zu times", where, states.size(), times.size());
        if (op == TIMES)
            SIM_CHECK(states.size() == given.size(), "trajectory-length", "%s: %zu states for %zu given times", where, states.size(), given.size());
        for (size_t i = 0; i < states.size(); i++)
            o.push_back(std::make_pair(states[i], op == TIMES ? given[i] : times[i]));
        compare(o, true, "returned trajectory");
        SIM_CHECK(!o.empty() && near(x, o.back().first.data(), 1e-9), "final-state", "%s: the final state is not the last one of the trajectory", where);
        sim::probe("trajectory");
    }
    // the recorder and the user's handler for sub-steps: the evaluations of this call
    if (!u.sym)
    {
        const auto& E = u.sys->evals;
        SIM_CHECK(u.sub->seen.size() == E.size(), "substeps", "%s: %zu sub-steps reported for %zu evaluations of the model", where, u.sub->seen.size(), E.size());
        for (size_t i = 0; i < E.size(); i++)
            SIM_CHECK(near(u.sub->seen[i].first, E[i].x.data(), 1e-12) && near(u.sub->seen[i].second, E[i].t, 1e-12), "substeps", "%s: sub-step %zu differs from the model's evaluation", where, i);
        size_t m = u.recOn ? E.size() : 0;
        SIM_CHECK(u.rec->getSubstates()->size() == m && u.rec->getSubcontrols()->size() == m, "recorder", "%s: the recorder holds %zu states and %zu controls, expected %zu", where,
            u.rec->getSubstates()->size(), u.rec->getSubcontrols()->size(), m);
        for (size_t i = 0; i < m; i++)
            SIM_CHECK(near((*u.rec->getSubstates())[i], E[i].x.data(), 1e-12) && near((*u.rec->getSubcontrols())[i](0), E[i].u, 1e-12), "recorder",
                "%s: entry %zu of the recorder differs from the model's evaluation", where, i);
    }
    sim::probe("compared");
    sim::logd(x(0));
}

// a copy has the tolerances of its original, and from then on its own
void own_tolerances(User& u)
{
    if (u.sym || kind(u.type) != K_FINE || !sim::PB("copytol", 60))
        return;
    struct Res
    {
        bool ok = true;
        size_t evals = 0;
        SV x;
    };
    SV x0;
    x0 << sim::PR("cq", 0.5, 1), sim::PR("cv", 0.3, 1);
    double tf = 0.5 + sim::PR("cT", 0.5, 2);
    auto go = [&](Int& i) {
        Res r;
        r.x = x0;
        u.sys->evals.clear();
        try
        {
            i.integrate_adaptive(r.x, 0.5, tf, 0.01);
        } catch (std::exception& e)
        {
            r.ok = false;
        }
        r.evals = u.sys->evals.size();
        return r;
    };
    auto same = [&](const Res& a, const Res& b, const char* what) {
        if (!a.ok || !b.ok)
            return;
        SIM_CHECK(a.evals == b.evals && a.x == b.x, "tolerance", "%s: %s: %zu evaluations ending in (%.12g, %.12g), expected %zu and (%.12g, %.12g)", nm(u.type), what, a.evals, a.x(0), a.x(1),
            b.evals, b.x(0), b.x(1));
        sim::probe("own_tolerances");
    };
    static const double tols[] = {1e-3, 1e-5, 1e-8, 1e-11};
    double ta = tols[sim::P("ta", 0, 3)], tr = tols[sim::P("tr", 0, 3)], tb = tols[sim::P("tb", 0, 3)];
    u.integ->setApadativeErrorTolerances(ta, tr);
    u.tol = std::max(ta, tr);
    Int fresh(u.sys, u.type);
    fresh.setApadativeErrorTolerances(ta, tr);
    Res want = go(fresh), r = go(*u.integ);
    same(r, want, "tolerances set later");
    std::unique_ptr<Int> c;
    if (sim::PB("assign", 50))
    {
        c.reset(new Int(u.sys, types[sim::P("atype", 0, 8)]));
        *c = *u.integ;
    }
    else
        c.reset(new Int(*u.integ));
    same(go(*c), want, "a copy");
    // only one of the two tolerances changes
    bool abs = sim::PB("abs", 50);
    fresh.setApadativeErrorTolerances(abs ? tb : ta, abs ? tr : tb);
    c->setApadativeErrorTolerances(abs ? tb : ta, abs ? tr : tb);
    Res other = go(fresh);
    same(go(*c), other, "a copy with other tolerances");
    same(go(*u.integ), want, "the original of a copy with other tolerances");
    u.integ->setApadativeErrorTolerances(1e-8, 1e-8);
    u.tol = 1e-8;
}

void worker(User& u, int id, int ops)
{
    for (int i = 0; i < ops; i++)
    {
        int what = u.sym ? (sim::PB("act", 10) ? 4 : 0) : sim::P("act", 0, 9);
        if (what <= 5)
        {
            for (int j = sim::P("repeat", 1, 2); j > 0; j--)
                one_call(u, id);
        }
        else if (what == 6)
        {
            u.type = types[sim::P("newtype", 0, 8)];
            u.integ->changeIntegrationType(u.type);
            u.tol = 1e-8;
            sim::probe("type_changed");
        }
        else if (what == 7)
        {
            // a type this integrator cannot provide is refused and nothing changes
            bool threw = false;
            try
            {
                u.integ->changeIntegrationType(sim::PB("which", 50) ? IT::EULER_SYM : IT::RK_SYM);
            } catch (std::exception& e)
            {
                threw = true;
            }
            SIM_CHECK(threw, "unknown-type", "changeIntegrationType accepts a type it does not know");
            sim::probe("type_refused");
        }
        else if (what == 8 && (u.type == IT::ODE45 || u.type == IT::RK5VARIABLE))
        {
            // tolerances decide about the effort and the error
            double tols[2] = {1e-3, 1e-11};
            size_t evals[2] = {0, 0};
            SV x0, x;
            x0 << sim::PR("tq", 0.5, 1), sim::PR("tv", 0.3, 1);
            bool ok = true;
            for (int j = 0; j < 2; j++)
            {
                u.integ->setApadativeErrorTolerances(tols[j], tols[j]);
                u.tol = tols[j];
                u.sys->evals.clear();
                x = x0;
                try
                {
                    u.integ->integrate_adaptive(x, 0.5, 3.5, 0.01);
                } catch (std::exception& e)
                {
                    ok = false;
                }
                evals[j] = u.sys->evals.size();
            }
            if (ok)
            {
                SIM_CHECK(evals[1] > 2 * evals[0], "tolerance", "%s: %zu evaluations with tolerance 1e-3, %zu with 1e-11", nm(u.type), evals[0], evals[1]);
                auto f = [&](const double* y, double t, double* d) { u.d.closed(y, t, d); };
                double y[2] = {x0(0), x0(1)};
                step(K_FINE, f, 0.5, 3.0, y);
                SIM_CHECK(near(x, y, 1e-7), "tolerance", "%s: error %.3g with a tolerance of 1e-11", nm(u.type), (x - SV(Eigen::Map<Eigen::Vector2d>(y))).norm());
                sim::probe("tolerances");
            }
        }
        else if (what == 9)
        {
            own_tolerances(u);
            // a copy works on its own, also when the original is gone
            std::unique_ptr<Int> c(new Int(*u.integ));
            if (sim::PB("dropOriginal", 60))
                u.integ = std::move(c);
            else
            {
                std::unique_ptr<Int> o(std::move(u.integ));
                u.integ = std::move(c);
                one_call(u, id);
                u.integ = std::move(o);
            }
            sim::probe("copied");
        }
    }
    u.done.store(true);
}

void scenario_integ()
{
    sim::race_detection(true);
    g_yield = sim::PB("yield", 70);
    g_throw = sim::PB("throws", 35) ? sim::PR("pthrow", 0.001, 0.02) : 0;
    int nu = sim::PB("two", 50) ? 2 : 1, ops = sim::P("ops", 2, 6);
    bool killer = sim::PB("killer", 55);
    std::vector<std::unique_ptr<User>> us;
    for (int i = 0; i < nu; i++)
    {
        std::unique_ptr<User> up(new User());
        User& u = *up;
        u.sym = sim::PB("sym", 20);
        u.d.a = sim::PR("a", 0.3, 2);
        u.d.tv = sim::PR("tv", 0, 0.6);
        u.d.k = sim::PR("k", 0, 1);
        u.d.w = sim::PR("w", 0, 0.6);
        u.d.c = sim::PR("c", 0, 0.3);
        u.d.b = sim::PR("b", 0, 0.4);
        u.type = types[sim::P("type", 0, 8)];
        if (u.sym)
        {
            u.d.tv = 0;
            u.type = sim::PB("symRk", 40) ? IT::RK_SYM : IT::EULER_SYM;
            if (u.type == IT::RK_SYM)
                u.d.b = 0;  // this formula is for accelerations that do not depend on the velocity
        }
        u.sys.reset(new Sys(u.d));
        u.sys->setController(std::shared_ptr<Law>(new Law(u.d, false)));
        u.symsys.reset(new SymSys(u.d));
        u.symsys->setController(std::shared_ptr<Law>(new Law(u.d, true)));
        u.kill.reset(new Kill());
        u.rec.reset(new Rec(u.sys));
        u.spy.reset(new Spy());
        u.sub.reset(new Spy());
        u.mark.reset(new Mark());
        u.sub->sub = true;
        u.spy->may_throw = sim::PB("spyThrows", 30);
        u.hasMax = sim::PB("hasMax", 40);
        u.limit = sim::P("limit0", 1, 14);
        u.max.reset(new MaxSteps(u.limit));
        Int::EventHandlerPtrVector hs;
        hs.push_back(u.mark);
        if (u.hasMax && sim::PB("maxFirst", 50))
            hs.push_back(u.max);
        hs.push_back(u.kill);
        if (!u.sym)
            hs.push_back(u.rec);
        hs.push_back(u.sub);
        if (u.hasMax && hs[1] != u.max)
            hs.push_back(u.max);
        hs.push_back(u.spy);
        if (u.sym)
        {
            if (u.type == IT::RK_SYM)
                u.symR.reset(new ct::core::IntegratorSymplecticRk<1, 1, 1>(u.symsys, hs));
            else
                u.symE.reset(new ct::core::IntegratorSymplecticEuler<1, 1, 1>(u.symsys, hs));
        }
        else
            u.integ.reset(new Int(u.sys, u.type, hs));
        for (int j = 0; j < 12; j++)
            u.requests.emplace_back(new Request());
        us.push_back(std::move(up));
    }
    std::vector<std::thread> th;
    for (int i = 0; i < nu; i++)
        th.emplace_back([&, i] { worker(*us[i], i, ops); });
    if (killer)
        th.emplace_back([&] {
            for (int r = 0; r < 12; r++)
            {
                User& u = *us[sim::P("victim", 0, nu - 1)];
                for (int s = sim::P("patience", 0, 60); s > 0 && !u.done.load(); s--)
                    sim::yield();
                if (u.done.load())
                    break;
                int j = u.nreq.load();
                if (j >= 12)
                    break;
                Request& q = *u.requests[j];
                q.epoch_before.store(u.spy->epoch.load());
                q.epoch_after.store(1 << 30);
                q.mark_after.store(1 << 30);
                u.nreq.store(j + 1);
                u.kill->setEvent();
                q.after.store(u.spy->count.load());
                q.epoch_after.store(u.spy->epoch.load());
                q.mark_after.store(u.mark->epoch.load());
            }
        });
    for (auto& t : th)
        t.join();
}

// ---- the discretised system: a stage is K sub-steps of the chosen formula, its recorded sub-steps are those of this stage, and
// the sensitivities are the derivatives of exactly this map
struct Disc
{
    Dyn d;
    IT type;
    double dt;
    int K;
    void map(const double* x, int n, double u, double* y) const
    {
        double h = dt / K;
        y[0] = x[0], y[1] = x[1];
        for (int i = 0; i < K; i++)
        {
            double t = n * dt + i * h;
            if (type == IT::EULER_SYM)
            {
                y[0] += h * y[1];
                y[1] += h * d.acc(y, 0, u);
            }
            else
                step(type == IT::RK_SYM ? K_FINE : kind(type), [&](const double* z, double tt, double* o) { d.rhs(z, tt, u, o); }, t, h, y);
        }
    }
};

void disc_user(Disc c, int stages, int passes)
{
    typedef ct::core::SystemDiscretizer<2, 1, 1, 1> SD;
    typedef ct::core::SensitivityIntegrator<2, 1, 1, 1> SI;
    typedef ct::core::SensitivityApproximation<2, 1, 1, 1> SA;
    bool sym = c.type == IT::EULER_SYM || c.type == IT::RK_SYM;
    std::shared_ptr<ct::core::ControlledSystem<2, 1>> plant;
    if (sym)
        plant.reset(new SymSys(c.d));
    else
        plant.reset(new Sys(c.d));
    std::unique_ptr<SD> sd(new SD(plant, c.dt, c.type, c.K));
    std::shared_ptr<SysLin> lin(new SysLin(c.d));
    std::shared_ptr<ct::core::ConstantController<2, 1>> cc(new ct::core::ConstantController<2, 1>());
    std::unique_ptr<SI> si;
    if (c.type != IT::RK_SYM && c.type != IT::MODIFIED_MIDPOINT)
        si.reset(new SI(c.dt / c.K, lin, cc, c.type, true));
    typedef std::shared_ptr<ct::core::StateVectorArray<2>> XP;
    typedef std::shared_ptr<ct::core::ControlVectorArray<1>> UP;
    typedef std::vector<XP, Eigen::aligned_allocator<XP>> XPs;
    typedef std::vector<UP, Eigen::aligned_allocator<UP>> UPs;
    std::shared_ptr<XPs> xs(new XPs(stages));
    std::shared_ptr<UPs> us(new UPs(stages));
    if (si)
        si->setSubstepTrajectoryReference(xs.get(), us.get());
    std::vector<SV, Eigen::aligned_allocator<SV>> x(stages), xn(stages);
    std::vector<double> u(stages);
    std::vector<bool> have(stages, false);
    for (int p = 0; p < passes; p++)
    {
        int what = sim::P("dact", 0, 9);
        if (what == 0)
        {
            int part = sim::P("newpart", 0, 2);  // often only one of the two changes
            if (part != 1)
                c.K = sim::P("newK", 1, 4);
            if (part != 0)
                c.dt = sim::PR("newdt", 0.02, 0.2);
            sd->setParameters(c.dt, c.K);
            if (si)
                si->setTimeDiscretization(c.dt / c.K);
            std::fill(have.begin(), have.end(), false);
            sim::probe("parameters_changed");
        }
        else if (what == 1)
        {
            c.d.a = sim::PR("newa", 0.3, 2);
            if (sym)
                plant.reset(new SymSys(c.d));
            else
                plant.reset(new Sys(c.d));
            sd->changeContinuousTimeSystem(plant);
            lin.reset(new SysLin(c.d));
            if (si)
                si->setLinearSystem(lin);
            std::fill(have.begin(), have.end(), false);
            sim::probe("system_changed");
        }
        else if (what == 3)
        {
            const IT all[] = {IT::EULER, IT::RK4, IT::EULERCT, IT::RK4CT, IT::MODIFIED_MIDPOINT, IT::EULER_SYM};
            c.type = all[sim::P("newtype", 0, sym ? 5 : 4)];
            sd->setIntegrationType(c.type);
            si.reset();
            if (c.type != IT::MODIFIED_MIDPOINT)
            {
                si.reset(new SI(c.dt / c.K, lin, cc, c.type, true));
                si->setSubstepTrajectoryReference(xs.get(), us.get());
            }
            std::fill(have.begin(), have.end(), false);
            sim::probe("type_changed");
        }
        else if (what == 2)
        {
            std::unique_ptr<SD> n(sd->clone());
            if (sim::PB("drop", 50))
                sd = std::move(n);
            else
            {
                CV uu;
                uu << 0.3;
                SV a = SV::Constant(0.2), b;
                try
                {
                    n->propagateControlledDynamics(a, 1, uu, b);
                    double y[2];
                    c.map(a.data(), 1, 0.3, y);
                    SIM_CHECK(near(b, y, c.type == IT::RK_SYM ? 1e-5 : 1e-9), "stage", "a stage of a clone with %d sub-steps of %s ends in (%.9g, %.9g), expected (%.9g, %.9g)", c.K,
                        nm(c.type), b(0), b(1), y[0], y[1]);
                } catch (UserError&)
                {
                }
            }
            sim::probe("discretizer_cloned");
        }
        else
        {
            int k = sim::P("stage", 0, stages - 1);
            x[k] << sim::PR("dq", -1, 1), sim::PR("dv", -1, 1);
            u[k] = sim::PR("du", -1, 1);
            CV uu;
            uu << u[k];
            double y[2];
            try
            {
                sd->propagateControlledDynamics(x[k], k, uu, xn[k]);
            } catch (UserError&)
            {
                have[k] = false;
                sim::probe("failed_call");
                continue;
            }
            c.map(x[k].data(), k, u[k], y);
            SIM_CHECK(near(xn[k], y, c.type == IT::RK_SYM ? 1e-5 : 1e-9), "stage", "stage %d with %d sub-steps of %s ends in (%.9g, %.9g), expected (%.9g, %.9g)", k, c.K, nm(c.type), xn[k](0),
                xn[k](1), y[0], y[1]);
            xs->at(k) = sd->getSubstates();
            us->at(k) = sd->getSubcontrols();
            have[k] = true;
            if (c.type != IT::RK_SYM)
            {
                size_t per = c.type == IT::RK4 || c.type == IT::RK4CT ? 4 : (c.type == IT::MODIFIED_MIDPOINT ? 3 : 1);
                SIM_CHECK(xs->at(k)->size() == per * c.K && us->at(k)->size() == per * c.K, "substeps", "%zu states and %zu controls recorded for %d sub-steps of %s", xs->at(k)->size(),
                    us->at(k)->size(), c.K, nm(c.type));
                SIM_CHECK(near(xs->at(k)->at(0), x[k].data(), 1e-9), "substeps", "the first recorded sub-step of %s is not at the start of the stage", nm(c.type));
                for (size_t i = 0; i < us->at(k)->size(); i++)
                    SIM_CHECK(near(us->at(k)->at(i)(0), u[k], 1e-9), "substeps", "control %.9g recorded in sub-step %zu of %s, applied was %.9g", us->at(k)->at(i)(0), i, nm(c.type), u[k]);
            }
            sim::probe("propagated");
        }
        int k = sim::P("sstage", 0, stages - 1);
        if (si && have[k])
        {
            ct::core::StateMatrix<2> A;
            ct::core::StateControlMatrix<2, 1> B;
            CV uu;
            uu << u[k];
            si->getAandB(x[k], uu, xn[k], k, c.K, A, B);
            double M[2][3];
            for (int j = 0; j < 3; j++)
            {
                double xp[2] = {x[k](0), x[k](1)}, xm[2] = {x[k](0), x[k](1)}, up = u[k], um = u[k], e = 1e-5, yp[2], ym[2];
                if (j < 2)
                    xp[j] += e, xm[j] -= e;
                else
                    up += e, um -= e;
                c.map(xp, k, up, yp);
                c.map(xm, k, um, ym);
                for (int i = 0; i < 2; i++)
                    M[i][j] = (yp[i] - ym[i]) / (2 * e);
            }
            for (int i = 0; i < 2; i++)
                for (int j = 0; j < 3; j++)
                {
                    double v = j < 2 ? A(i, j) : B(i, 0);
                    SIM_CHECK(near(v, M[i][j], 1e-6), "sensitivity", "sensitivity (%d,%d) of stage %d with %d sub-steps of %s is %.9g, expected %.9g", i, j, k, c.K, nm(c.type), v, M[i][j]);
                }
            sim::probe("sensitivity");
        }
        sim::logd(have[k] ? xn[k](0) : 0);
    }
}

void scenario_disc()
{
    sim::race_detection(true);
    g_yield = sim::PB("yield", 60);
    g_throw = sim::PB("throws", 35) ? sim::PR("pthrow", 0.001, 0.03) : 0;
    int nu = sim::P("users", 1, 3);
    std::vector<std::thread> th;
    const IT dts[] = {IT::EULER, IT::RK4, IT::EULERCT, IT::RK4CT, IT::EULER_SYM, IT::RK_SYM, IT::MODIFIED_MIDPOINT};
    for (int i = 0; i < nu; i++)
    {
        Disc c;
        c.type = dts[sim::P("type", 0, 6)];
        c.d.a = sim::PR("a", 0.3, 2);
        c.d.b = sim::PR("b", 0, 0.4);
        c.d.c = sim::PR("c", 0, 0.3);
        c.d.tv = sim::PR("tv", 0, 0.6);
        if (c.type == IT::EULER_SYM || c.type == IT::RK_SYM)
            c.d.tv = 0;
        if (c.type == IT::RK_SYM)
            c.d.b = 0;
        c.dt = sim::PR("dt", 0.02, 0.2);
        c.K = sim::P("K", 1, 4);
        int stages = sim::P("stages", 1, 4), passes = sim::P("passes", 3, 12);
        th.emplace_back([=] { disc_user(c, stages, passes); });
    }
    for (auto& t : th)
        t.join();
}
}  // namespace

extern "C" void sim_scenario(const char* s)
{
    std::string n(s);
    if (n == "integ")
        scenario_integ();
    else if (n == "disc")
        scenario_disc();
    else
        sim::violation("usage", "unknown scenario %s", s);
}
