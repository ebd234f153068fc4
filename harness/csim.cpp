// Simulation of ControlSimulator: the integration thread and the control thread on a simulated clock, with stalls, slow
// callbacks, wall-clock steps, stop() at arbitrary moments, failing callbacks and models.
#include "common.h"
#include <atomic>
#include <mutex>

using namespace h;
typedef ct::core::StateVector<2> SV;
typedef ct::core::ControlVector<1> CV;

namespace {

class Ctl : public ct::core::Controller<2, 1>
{
public:
    EIGEN_MAKE_ALIGNED_OPERATOR_NEW
    Ctl(double k, double w) : k_(k), w_(w) {}
    Ctl* clone() const override { return new Ctl(*this); }
    void computeControl(const SV& x, const double& t, CV& u) override { u(0) = law(x.data(), t); }
    double law(const double* x, double t) const { return -k_ * x[0] + w_ * std::sin(5 * t); }

private:
    double k_, w_;
};

struct Cfg
{
    double sim_dt, control_dt;
    Plant plant;
    SV x0;
    int64_t ctl_ns, sys_ns;
    bool jumps, useMpc;
    double pThrow;
};

struct Step
{
    double t;
    SV x;
    int64_t at, left = 0;
    std::shared_ptr<Ctl> next;  // controller in force from here on
};

class Sim : public ct::core::ControlSimulator<PlantSystem>
{
public:
    typedef ct::core::ControlSimulator<PlantSystem> Base;
    Sim(const Cfg& c, std::shared_ptr<PlantSystem> s, std::shared_ptr<Ctl> first) : Base(c.sim_dt, c.control_dt, c.x0, s), c_(c), newest_(first), inForce_(first), first_(first)
    {
    }
    Sim(const Sim& o) : Base(o), c_(o.c_), newest_(o.first_), inForce_(o.first_), first_(o.first_) {}  // a copy starts with the original controller
    ~Sim() { finish(); }
    void finishSystemIteration(ct::core::Time t) override
    {
        Step s;
        s.t = t;
        s.at = sim::now();
        state_mtx_.lock();
        s.x = x_;
        state_mtx_.unlock();
        s.next = inForce_;
        steps.push_back(s);
        jump();
        if (c_.sys_ns)
            sim::busy(sim::P("sys_busy", 0, 100) * c_.sys_ns / 100);
        maybe_throw();
        if (sim::PB("switch", 40))
        {
            control_mtx_.lock();
            inForce_ = newest_;
            control_mtx_.unlock();
            std::shared_ptr<ct::core::Controller<2, 1>> up(inForce_);
            system_->setController(up);
        }
        steps.back().next = inForce_;
        steps.back().left = sim::now();
    }
    void prepareControllerIteration(ct::core::Time t) override
    {
        SIM_CHECK(!inCtl, "control-protocol", "prepareControllerIteration called before the previous iteration was finished");
        inCtl = true;
        lastPrep = t;
        checkTime(t);
        sim::busy(20000 + sim::P("ctl_busy", 0, 100) * c_.ctl_ns / 100);
        maybe_throw();
    }
    void finishControllerIteration(ct::core::Time t) override
    {
        SIM_CHECK(inCtl, "control-protocol", "finishControllerIteration called without prepareControllerIteration");
        inCtl = false;
        SIM_CHECK(t >= lastPrep - 1e-9, "control-protocol", "control time went back from %.9g to %.9g", lastPrep, t);
        checkTime(t);
        SV x;
        state_mtx_.lock();
        x = x_;
        state_mtx_.unlock();
        seen.push_back(x);
        sim::busy(20000 + sim::P("ctl_busy2", 0, 100) * c_.ctl_ns / 100);
        jump();
        maybe_throw();
        std::shared_ptr<Ctl> n(new Ctl(0.1 * (double)sim::P("k", 0, 20), 0.1 * (double)sim::P("w", 0, 10)));
        control_mtx_.lock();
        newest_ = n;
        control_mtx_.unlock();
    }
    void checkTime(double t)
    {
        double real = 1e-9 * (double)(sim::now() - started);
        SIM_CHECK(t <= real + 1e-6 && t >= -1e-9, "control-time", "control iteration is told time %.9g, but %.9g s have passed since the start", t, real);
        controlCalls++;
    }
    void jump()
    {
        if (c_.jumps && sim::fault("realtime_jump", 0.1))
        {
            static const int64_t js[] = {-1000000, 3000000, -50000000, 40000000, -2000000000ll, 5000000000ll, -3600000000000ll, 3600000000000ll};
            sim::jump_realtime(js[sim::P("jump", 0, 7)]);
        }
    }
    void maybe_throw()
    {
        if (c_.pThrow > 0 && sim::fault("user_exception", c_.pThrow))
        {
            if (sim::PB("not_std", 25))
                throw 42;
            throw UserError("injected callback failure");
        }
    }
    void begin()
    {
        steps.clear();
        seen.clear();
        inCtl = false;
        controlCalls = 0;
        lastPrep = 0;
        started = sim::now();
        startCtl = inForce_;
        stalls = sim::faults_fired("stall");
    }
    std::shared_ptr<Ctl> inForce() const { return inForce_; }
    std::shared_ptr<Ctl> startCtl;
    std::vector<Step, Eigen::aligned_allocator<Step>> steps;
    std::vector<SV, Eigen::aligned_allocator<SV>> seen;
    bool inCtl = false;
    int controlCalls = 0;
    double lastPrep = 0;
    int64_t started = 0;
    uint64_t stalls = 0;
    Cfg c_;

private:

    std::shared_ptr<Ctl> newest_, inForce_, first_;
};

void ref_period(const Cfg& c, int type, double t0, const Ctl& ctl, double* y)
{
    auto f = [&](const double* z, double t, double* d) { PlantSystem::rhs(c.plant, z, ctl.law(z, t), d); };
    auto step = [&](double t, double dt) {
        double k1[2], k2[2], k3[2], k4[2], z[2];
        f(y, t, k1);
        if (!type)
        {
            for (int j = 0; j < 2; j++)
                y[j] += dt * k1[j];
            return;
        }
        for (int j = 0; j < 2; j++)
            z[j] = y[j] + 0.5 * dt * k1[j];
        f(z, t + 0.5 * dt, k2);
        for (int j = 0; j < 2; j++)
            z[j] = y[j] + 0.5 * dt * k2[j];
        f(z, t + 0.5 * dt, k3);
        for (int j = 0; j < 2; j++)
            z[j] = y[j] + dt * k3[j];
        f(z, t + dt, k4);
        for (int j = 0; j < 2; j++)
            y[j] += dt / 6 * (k1[j] + 2 * k2[j] + 2 * k3[j] + k4[j]);
    };
    int n = (int)std::floor(c.control_dt / c.sim_dt + 1e-7);
    for (int i = 0; i < n; i++)
        step(t0 + i * c.sim_dt, c.sim_dt);
    double rest = c.control_dt - n * c.sim_dt;
    if (rest > 1e-6 * c.sim_dt)
        step(t0 + n * c.sim_dt, rest);
}

// deadlines: the caller promises that nothing else competed for the processor
void verify(Sim& s, int type, double duration, bool stopped, bool failed, int64_t stop_at, int64_t end_at, bool deadlines, const char* who)
{
    const Cfg& c = s.c_;
    double y[2] = {c.x0(0), c.x0(1)};
    std::shared_ptr<Ctl> ctl = s.startCtl;
    std::vector<SV, Eigen::aligned_allocator<SV>> published(1, c.x0);
    for (size_t i = 0; i < s.steps.size(); i++)
    {
        const Step& st = s.steps[i];
        SIM_CHECK(std::fabs(st.t - (double)(i + 1) * c.control_dt) < 1e-6, "simulated-time", "%s: period %zu ends at simulated time %.9g, expected %.9g", who, i, st.t,
            (double)(i + 1) * c.control_dt);
        // real time: never ahead of the clock
        double real = 1e-9 * (double)(st.at - s.started);
        SIM_CHECK(real >= st.t - 1e-6, "ahead-of-clock", "%s: simulated time %.9g reached after %.9g s", who, st.t, real);
        ref_period(c, type, (double)i * c.control_dt, *ctl, y);
        SIM_CHECK(close(y[0], st.x(0), 1e-6) && close(y[1], st.x(1), 1e-6), "wrong-state",
            "%s: state after period %zu is (%.9g, %.9g); integrating the system over %.6g s in steps of %.6g s gives (%.9g, %.9g)", who, i, st.x(0), st.x(1), c.control_dt,
            c.sim_dt, y[0], y[1]);
        y[0] = st.x(0);
        y[1] = st.x(1);
        published.push_back(st.x);
        ctl = st.next;
    }
    size_t from = 0;
    for (size_t i = 0; i < s.seen.size(); i++)
    {
        size_t k = from;
        while (k < published.size() && (published[k] - s.seen[i]).norm() > 0)
            k++;
        SIM_CHECK(k < published.size(), "torn-state", "%s: the control thread read (%.12g, %.12g), which is no state of the simulation at or after the one read before", who,
            s.seen[i](0), s.seen[i](1));
        from = k;
    }
    if (!stopped && !failed)
    {
        double last = s.steps.empty() ? 0 : s.steps.back().t;
        double real = 1e-9 * (double)(end_at - s.started);
        SIM_CHECK(real >= duration - 1e-6, "ended-early", "%s: the simulation of %.9g s ended after %.9g s", who, duration, real);
        bool stalled = sim::faults_fired("stall") != s.stalls;
        if (deadlines && !stalled && c.sys_ns == 0)
        {
            SIM_CHECK(!s.steps.empty() || duration <= 0, "no-progress", "%s: nothing was simulated in %.9g s", who, duration);
            double left = 1e-9 * (double)(s.steps.back().left - s.started);
            SIM_CHECK(last >= duration - 1e-6 || left > duration - 0.5 * c.control_dt, "ended-early",
                "%s: %.9g of %.9g s simulated though the last period was over at %.9g", who, last, duration, left);
            SIM_CHECK(last <= duration + c.control_dt * 1.5, "ended-late", "%s: %.9g s simulated instead of %.9g", who, last, duration);
            sim::probe("on_time");
        }
    }
    sim::probe_if(s.seen.size() > 1 && from > 0, "control_saw_progress");
}

void run(bool failing)
{
    Cfg c;
    c.control_dt = 0.002 * (double)sim::P("control_dt", 1, 6);
    static const double ratio[] = {1, 2, 4, 5, 10, 2.5, 3.3, 1.5, 1.99, 1.05, 2.02, 3.08};
    c.sim_dt = c.control_dt / ratio[sim::P("ratio", 0, 11)];
    c.plant.a = sim::PR("plant.a", 0.5, 3);
    c.x0 << sim::PR("x0.q", -1, 1), sim::PR("x0.v", -1, 1);
    c.ctl_ns = sim::P("ctl_us", 50, 20000) * 1000;
    c.sys_ns = sim::PB("slow_sys", 30) ? sim::P("sys_us", 0, 20000) * 1000 : 0;
    c.jumps = sim::PB("jumps", 40);
    c.useMpc = false;
    c.pThrow = 0;
    hooks().yields = sim::PB("yields", 30);
    sim::set_step_budget(2000000, 900000000ull);
    sim::race_detection(true);
    if (sim::PB("plain_preempt", 40))
        sim::preempt_plain((int)sim::P("plain_mean", 3, 2000));

    std::shared_ptr<PlantSystem> sys(new PlantSystem(c.plant));
    std::shared_ptr<Ctl> ctl(new Ctl(0.5, 0.3));
    {
        std::shared_ptr<ct::core::Controller<2, 1>> up(ctl);
        sys->setController(up);
    }
    {
        Sim a(c, sys, ctl);
        std::unique_ptr<Sim> copy;
        int n = (int)sim::P("simulations", 1, 3);
        for (int i = 0; i < n; i++)
        {
            if (!copy && sim::PB("copy", 20))
            {
                copy.reset(new Sim(a));
                sim::probe("copied");
            }
            Sim& s = a;
            double duration = c.control_dt * (double)sim::P("periods", 1, 12) - 0.5 * c.control_dt * sim::PB("odd_duration", 40);
            int mode = (int)sim::P("mode", 0, 2);  // natural end, stop, finish only by the next simulate
            int type = (int)sim::P("type", 0, 2);
            s.begin();
            s.c_.pThrow = failing ? 0.02 : 0;
            if (failing)
            {
                hooks().armed = true;
                hooks().p_throw = sim::PB("model_fails", 40) ? 0.003 : 0;
            }
            uint64_t before = sim::faults_fired("user_exception");
            static const ct::core::IntegrationType it[] = {ct::core::IntegrationType::EULERCT, ct::core::IntegrationType::RK4CT};
            bool noThread = false;
            if (failing)
                sim::enable_fault("thread_create_fail", sim::PB("threads_fail", 20) ? 0.4 : 0);
            uint64_t tfail = sim::faults_fired("thread_create_fail");
            try
            {
                if (type == 2)
                    s.simulate(duration);
                else
                    s.simulate(duration, it[type]);
            } catch (std::exception& e)
            {
                SIM_CHECK(sim::faults_fired("thread_create_fail") != tfail, "spurious-failure", "simulate() failed: %s", e.what());
                noThread = true;
            }
            if (failing)
                sim::enable_fault("thread_create_fail", 0);
            SIM_CHECK(noThread == (sim::faults_fired("thread_create_fail") != tfail), "failure-lost", "a thread could not be started, simulate() reported nothing");
            if (noThread)
            {
                // whatever was started ends soon, not after the requested duration; the simulator can be used again
                int64_t bound = sim::now() + (int64_t)(c.control_dt * 2e9) + c.sys_ns + 20000000;
                uint64_t st = sim::faults_fired("stall");
                try
                {
                    s.finish();
                } catch (std::exception&)
                {
                    SIM_CHECK(sim::faults_fired("user_exception") != before, "spurious-failure", "finish() failed after a failed start");
                }
                SIM_CHECK(sim::live_threads() == 1, "thread-leak", "%d threads run after a failed start and finish()", sim::live_threads() - 1);
                SIM_CHECK(sim::now() <= bound + (int64_t)(sim::faults_fired("stall") - st + 1) * 100000000 * (sim::faults_fired("stall") != 0), "late-stop",
                    "after a failed start the thread that was started ended %.6f s later than one period", 1e-9 * (double)(sim::now() - bound));
                sim::probe("create_failed");
                hooks().p_throw = 0;
                continue;
            }
            if (copy)
            {
                copy->c_.pThrow = 0;
                copy->begin();
                copy->simulate(duration, ct::core::IntegrationType::EULERCT);
            }
            int64_t stop_at = 0;
            if (mode == 1)
            {
                sim::busy(sim::P("stop_after_us", 0, 60000) * 1000);
                stop_at = sim::now();
                s.stop();
                sim::probe("stopped");
            }
            else if (sim::PB("clock_jump_main", 50) && c.jumps)
            {
                sim::busy(sim::P("jump_after_us", 0, 20000) * 1000);
                s.jump();
            }
            bool threw = false;
            std::string what;
            try
            {
                s.finish();
            } catch (std::exception& e)
            {
                threw = true;
                what = e.what();
            }
            int64_t end = sim::now();
            bool fired = sim::faults_fired("user_exception") != before;
            if (copy)
            {
                bool t2 = false;
                try
                {
                    copy->finish();
                } catch (std::exception& e)
                {
                    t2 = true;
                }
                fired = sim::faults_fired("user_exception") != before;
                SIM_CHECK(!t2 || fired, "spurious-failure", "the copied simulator failed: nothing went wrong in it");
                if (!t2 && !fired)
                    verify(*copy, 0, duration, false, t2, 0, sim::now(), false, "copied simulator");
            }
            hooks().p_throw = 0;
            SIM_CHECK(fired || !threw, "spurious-failure", "the simulation failed (%s) though nothing went wrong", what.c_str());
            if (!copy)
                SIM_CHECK(!fired || threw, "failure-lost", "a callback or the model failed, finish() reported nothing");
            verify(s, type == 1, duration, mode == 1, fired, stop_at, end, !copy, "simulator");
            if (mode == 1 && !fired)
            {
                // every loop iteration in progress may end; then both threads must
                int64_t bound = stop_at + (int64_t)(c.control_dt * 2e9) + 2 * c.ctl_ns + c.sys_ns + 20000000 + (int64_t)sim::faults_fired("stall") * 100000000;
                SIM_CHECK(end <= bound, "late-stop", "stopped at %.6f s, the threads ended at %.6f s", 1e-9 * stop_at, 1e-9 * end);
            }
            sim::probe_if(fired, "failed");
            SIM_CHECK(sim::live_threads() == 1, "thread-leak", "%d threads run after finish()", sim::live_threads() - 1);
            sim::log(s.steps.size());
            sim::log(s.seen.size());
        }
        // another simulator of the same system with another control interval
        if (sim::PB("another", 25))
        {
            Cfg c2 = c;
            c2.control_dt = 0.003 * (double)sim::P("control_dt2", 1, 5);
            c2.sim_dt = c2.control_dt / ratio[sim::P("ratio2", 0, 11)];
            c2.pThrow = 0;
            Sim b(c2, sys, a.inForce());
            b.begin();
            double duration = c2.control_dt * (double)sim::P("periods3", 1, 8);
            b.simulate(duration, ct::core::IntegrationType::EULERCT);
            b.finish();
            verify(b, 0, duration, false, false, 0, sim::now(), false, "another simulator");
            sim::probe("another");
        }
        // destruction while running
        if (sim::PB("destroy_running", 30))
        {
            a.begin();
            a.c_.pThrow = 0;
            a.simulate(c.control_dt * 3);
            if (sim::PB("stop_first", 50))
                a.stop();
            sim::probe("destroyed_running");
        }
    }
    SIM_CHECK(sim::live_threads() == 1 && sim::unjoined_threads() == 0, "thread-leak", "%d threads run after the simulator was destroyed", sim::live_threads() - 1);
}

// simulate() again without finish(): the earlier simulation ends first
void run_again()
{
    Cfg c;
    c.control_dt = 0.002 * (double)sim::P("control_dt", 1, 6);
    c.sim_dt = c.control_dt / 2;
    c.x0 << 0.5, 0;
    c.ctl_ns = sim::P("ctl_us", 50, 4000) * 1000;
    c.sys_ns = 0;
    c.jumps = false;
    c.pThrow = 0;
    sim::set_step_budget(2000000, 900000000ull);
    sim::race_detection(true);
    std::shared_ptr<PlantSystem> sys(new PlantSystem(c.plant));
    std::shared_ptr<Ctl> ctl(new Ctl(0.5, 0.3));
    std::shared_ptr<ct::core::Controller<2, 1>> up(ctl);
    sys->setController(up);
    {
        Sim s(c, sys, ctl);
        s.begin();
        s.simulate(c.control_dt * (double)sim::P("periods", 1, 5));
        sim::busy(sim::P("wait_us", 0, 60000) * 1000);
        if (sim::PB("stop", 50))
            s.stop();
        double duration = c.control_dt * (double)sim::P("periods2", 1, 5);
        s.simulate(duration);
        sim::probe("restarted");
        s.finish();
        // what belongs to the second simulation
        size_t k = s.steps.size();
        while (k > 0 && s.steps[k - 1].t > 1.5 * c.control_dt)
            k--;
        k = k > 0 ? k - 1 : 0;
        if (k > 0)
            s.startCtl = s.steps[k - 1].next;
        s.steps.erase(s.steps.begin(), s.steps.begin() + k);
        s.seen.clear();
        verify(s, 0, duration, true, false, 0, sim::now(), false, "second simulation");
    }
    SIM_CHECK(sim::live_threads() == 1 && sim::unjoined_threads() == 0, "thread-leak", "%d threads run after the simulator was destroyed", sim::live_threads() - 1);
}

}  // namespace

extern "C" void sim_scenario(const char* sc)
{
    std::string s = sc;
    if (s == "run")
        sim::PB("restart", 15) ? run_again() : run(false);
    else if (s == "fail")
        run(true);
    else
        sim::violation("internal", "unknown scenario %s", sc);
}
