// Models shared by the harnesses. The plant keeps per-instance scratch state between two scheduling points, as real user
// models do (they are documented to be cloned per thread, so they need not be thread safe): an instance that two threads
// use at the same time computes wrong results and is reported by the race detector.
#pragma once
#include <ct/optcon/optcon.h>
#include <cmath>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
#include "../sim/detsim.h"

namespace h {

struct UserError : std::runtime_error
{
    UserError(const std::string& w) : std::runtime_error(w) {}
};

// What the user's model does besides computing: scheduling points, simulated run time, failures.
struct Hooks
{
    bool yields = false;       // scheduling points inside the model
    int64_t busy_max = 0;      // simulated computing time per call
    double p_throw = 0;        // fault "user_exception"
    double p_nan = 0;          // fault "user_nan"
    bool armed = false;
    uint64_t calls = 0;
};
inline Hooks& hooks()
{
    static Hooks k;
    return k;
}
inline void hook_point()
{
    Hooks& k = hooks();
    if (k.yields)
        sim::yield();
    if (k.armed && k.p_throw > 0 && sim::fault("user_exception", k.p_throw))
        throw UserError("injected model failure");
}

struct Plant
{
    double a = 1.0, b = 0.2, c = 0.3, g = 0.0;
    bool lin = false;  // a spring instead of a pendulum (use with c = 0)
    double pull(double q) const { return lin ? q : std::sin(q); }
    double stiffness(double q) const { return lin ? 1.0 : std::cos(q); }
};

// q' = v,  v' = -a sin q - b v + (1 + c q) u + g
class PlantSystem : public ct::core::SymplecticSystem<1, 1, 1>
{
public:
    EIGEN_MAKE_ALIGNED_OPERATOR_NEW
    typedef ct::core::SymplecticSystem<1, 1, 1> Base;
    static const size_t STATE_DIM = 2, CONTROL_DIM = 1;
    typedef double SCALAR;
    PlantSystem(const Plant& p) : Base(ct::core::SYSTEM_TYPE::SECOND_ORDER), p_(p) {}
    PlantSystem(const PlantSystem& o) : Base(o), p_(o.p_) {}
    PlantSystem* clone() const override { return new PlantSystem(*this); }
    void computePdot(const ct::core::StateVector<2>& x,
        const ct::core::StateVector<1>& v,
        const ct::core::ControlVector<1>& u,
        ct::core::StateVector<1>& pDot) override
    {
        pDot(0) = v(0);
    }
    void computeVdot(const ct::core::StateVector<2>& x,
        const ct::core::StateVector<1>& p,
        const ct::core::ControlVector<1>& u,
        ct::core::StateVector<1>& vDot) override
    {
        tmp_ = -p_.a * p_.pull(p(0)) - p_.b * x(1);
        hook_point();
        vDot(0) = tmp_ + (1.0 + p_.c * p(0)) * u(0) + p_.g;
        if (hooks().armed && hooks().p_nan > 0 && sim::fault("user_nan", hooks().p_nan))
            vDot(0) = std::nan("");
    }
    static void rhs(const Plant& p, const double* x, double u, double* d)
    {
        d[0] = x[1];
        d[1] = -p.a * p.pull(x[0]) - p.b * x[1] + (1.0 + p.c * x[0]) * u + p.g;
    }

private:
    Plant p_;
    double tmp_ = 0;
};

class PlantLinear : public ct::core::LinearSystem<2, 1>
{
public:
    EIGEN_MAKE_ALIGNED_OPERATOR_NEW
    PlantLinear(const Plant& p) : p_(p) {}
    PlantLinear(const PlantLinear& o) : ct::core::LinearSystem<2, 1>(o), p_(o.p_) {}
    PlantLinear* clone() const override { return new PlantLinear(*this); }
    const state_matrix_t& getDerivativeState(const ct::core::StateVector<2>& x,
        const ct::core::ControlVector<1>& u,
        const double t = 0.0) override
    {
        A_ << 0, 1, -p_.a * p_.stiffness(x(0)) + p_.c * u(0), -p_.b;
        hook_point();
        return A_;
    }
    const state_control_matrix_t& getDerivativeControl(const ct::core::StateVector<2>& x,
        const ct::core::ControlVector<1>& u,
        const double t = 0.0) override
    {
        B_ << 0, 1.0 + p_.c * x(0);
        return B_;
    }

private:
    Plant p_;
    state_matrix_t A_;
    state_control_matrix_t B_;
};

// x+ = x + dt f(x, u), plus a part that depends on the time index
class PlantDiscrete : public ct::core::DiscreteControlledSystem<2, 1>
{
public:
    EIGEN_MAKE_ALIGNED_OPERATOR_NEW
    PlantDiscrete(const Plant& p, double dt) : p_(p), dt_(dt) {}
    PlantDiscrete(const PlantDiscrete& o) : ct::core::DiscreteControlledSystem<2, 1>(o.type_), p_(o.p_), dt_(o.dt_) {}
    PlantDiscrete* clone() const override { return new PlantDiscrete(*this); }
    void propagateControlledDynamics(const ct::core::StateVector<2>& x, const int n, const ct::core::ControlVector<1>& u, ct::core::StateVector<2>& next) override
    {
        double d[2];
        PlantSystem::rhs(p_, x.data(), u(0), d);
        tmp_ = x(1) + dt_ * d[1];
        hook_point();
        double x0 = x(0);
        next(0) = x0 + dt_ * d[0] + 0.001 * (n % 3);
        next(1) = tmp_;
        if (hooks().armed && hooks().p_nan > 0 && sim::fault("user_nan", hooks().p_nan))
            next(1) = std::nan("");
    }
    static void step(const Plant& p, double dt, int n, double u, double* x)
    {
        double d[2];
        PlantSystem::rhs(p, x, u, d);
        x[0] += dt * d[0] + 0.001 * (n % 3);
        x[1] += dt * d[1];
    }

private:
    Plant p_;
    double dt_, tmp_ = 0;
};

class PlantDiscreteLinear : public ct::core::DiscreteLinearSystem<2, 1>
{
public:
    EIGEN_MAKE_ALIGNED_OPERATOR_NEW
    PlantDiscreteLinear(const Plant& p, double dt) : p_(p), dt_(dt) {}
    PlantDiscreteLinear* clone() const override { return new PlantDiscreteLinear(p_, dt_); }
    void getAandB(const ct::core::StateVector<2>& x, const ct::core::ControlVector<1>& u, const ct::core::StateVector<2>& xn, const int n, size_t sub,
        state_matrix_t& A, state_control_matrix_t& B) override
    {
        tmp_ = -p_.a * p_.stiffness(x(0)) + p_.c * u(0);
        hook_point();
        A << 1, dt_, dt_ * tmp_, 1 - dt_ * p_.b;
        B << 0, dt_ * (1.0 + p_.c * x(0));
    }

private:
    Plant p_;
    double dt_, tmp_ = 0;
};

struct CostDef
{
    double q0 = 1, q1 = 0.1, r = 0.1, qf0 = 10, qf1 = 1, xd0 = 0.5, xd1 = 0, wave = 0;
    double intermediate(double x0, double x1, double u, double t = 0) const
    {
        return q0 * (x0 - xd0) * (x0 - xd0) + q1 * (x1 - xd1) * (x1 - xd1) + r * u * u + wave_at(x0, t);
    }
    double wave_at(double x0, double t) const { return wave * (1 + std::sin(6 * t)) * (x0 - 0.2) * (x0 - 0.2); }
    double final(double x0, double x1, double t = 0) const
    {
        return qf0 * (x0 - xd0) * (x0 - xd0) + qf1 * (x1 - xd1) * (x1 - xd1) + wave_at(x0, t);
    }
};

// a cost term of the user's own: time dependent, with scratch data between two scheduling points
class WaveTerm : public ct::optcon::TermBase<2, 1>
{
public:
    EIGEN_MAKE_ALIGNED_OPERATOR_NEW
    typedef ct::optcon::TermBase<2, 1> Base;
    WaveTerm(double w) : Base("wave"), w_(w) {}
    WaveTerm(const WaveTerm& o) : Base(o), w_(o.w_) {}
    WaveTerm* clone() const override { return new WaveTerm(*this); }
    double evaluate(const Eigen::Matrix<double, 2, 1>& x, const Eigen::Matrix<double, 1, 1>& u, const double& t) override
    {
        tmp_ = w_ * (1 + std::sin(6 * t));
        hook_point();
        return tmp_ * (x(0) - 0.2) * (x(0) - 0.2);
    }
    ct::core::StateVector<2> stateDerivative(const ct::core::StateVector<2>& x, const ct::core::ControlVector<1>& u, const double& t) override
    {
        tmp_ = 2 * w_ * (1 + std::sin(6 * t));
        hook_point();
        ct::core::StateVector<2> d;
        d << tmp_ * (x(0) - 0.2), 0;
        return d;
    }
    state_matrix_t stateSecondDerivative(const ct::core::StateVector<2>& x, const ct::core::ControlVector<1>& u, const double& t) override
    {
        state_matrix_t d;
        d << 2 * w_ * (1 + std::sin(6 * t)), 0, 0, 0;
        return d;
    }
    ct::core::ControlVector<1> controlDerivative(const ct::core::StateVector<2>& x, const ct::core::ControlVector<1>& u, const double& t) override
    {
        return ct::core::ControlVector<1>::Zero();
    }
    control_matrix_t controlSecondDerivative(const ct::core::StateVector<2>& x, const ct::core::ControlVector<1>& u, const double& t) override
    {
        return control_matrix_t::Zero();
    }
    control_state_matrix_t stateControlDerivative(const ct::core::StateVector<2>& x, const ct::core::ControlVector<1>& u, const double& t) override
    {
        return control_state_matrix_t::Zero();
    }

private:
    double w_, tmp_ = 0;
};

// a constraint of the user's own:  x0^2 + x1^2 / 4 + 0.3 u + 0.2 sin(4 t) <= b
class BallConstraint : public ct::optcon::ConstraintBase<2, 1>
{
public:
    EIGEN_MAKE_ALIGNED_OPERATOR_NEW
    typedef ct::optcon::ConstraintBase<2, 1> Base;
    BallConstraint(double b) : Base("ball")
    {
        this->lb_.resize(1);
        this->ub_.resize(1);
        this->lb_ << -1e3;
        this->ub_ << b;
    }
    BallConstraint(const BallConstraint& o) : Base(o) {}
    BallConstraint* clone() const override { return new BallConstraint(*this); }
    size_t getConstraintSize() const override { return 1; }
    VectorXs evaluate(const ct::core::StateVector<2>& x, const ct::core::ControlVector<1>& u, const double t) override
    {
        tmp_ = x(0) * x(0) + 0.25 * x(1) * x(1) + 0.2 * std::sin(4 * t);
        hook_point();
        VectorXs r(1);
        r << tmp_ + 0.3 * u(0);
        return r;
    }
    MatrixXs jacobianState(const ct::core::StateVector<2>& x, const ct::core::ControlVector<1>& u, const double t) override
    {
        MatrixXs j(1, 2);
        j << 2 * x(0), 0.5 * x(1);
        return j;
    }
    MatrixXs jacobianInput(const ct::core::StateVector<2>& x, const ct::core::ControlVector<1>& u, const double t) override
    {
        MatrixXs j(1, 1);
        j << 0.3;
        return j;
    }

private:
    double tmp_ = 0;
};
typedef std::shared_ptr<ct::optcon::LinearConstraintContainer<2, 1>> ConPtr;
// kind 0: input box, 1: state box, 2: general
inline ConPtr make_constraint(int kind, double b, bool terminal)
{
    typedef ct::optcon::ConstraintContainerAnalytical<2, 1> Con;
    std::shared_ptr<Con> c(new Con());
    if (kind == 0)
    {
        ct::core::ControlVector<1> lo, hi;
        lo << -b;
        hi << 0.7 * b;
        c->addIntermediateConstraint(std::shared_ptr<ct::optcon::ConstraintBase<2, 1>>(new ct::optcon::ControlInputConstraint<2, 1>(lo, hi)), false);
    }
    else if (kind == 1)
    {
        ct::core::StateVector<2> lo, hi;
        lo << -b, -2 * b;
        hi << 0.8 * b, b;
        std::shared_ptr<ct::optcon::ConstraintBase<2, 1>> t(new ct::optcon::StateConstraint<2, 1>(lo, hi));
        c->addIntermediateConstraint(t, false);
        if (terminal)
            c->addTerminalConstraint(t, false);
    }
    else
    {
        c->addIntermediateConstraint(std::shared_ptr<ct::optcon::ConstraintBase<2, 1>>(new BallConstraint(b)), false);
        if (terminal)
            c->addTerminalConstraint(std::shared_ptr<ct::optcon::ConstraintBase<2, 1>>(new BallConstraint(0.5 * b)), false);
    }
    c->initialize();
    return c;
}

inline std::shared_ptr<ct::optcon::CostFunctionAnalytical<2, 1>> make_cost(const CostDef& c)
{
    using namespace ct::optcon;
    Eigen::Matrix2d Q, Qf;
    Eigen::Matrix<double, 1, 1> R, R0;
    Q << c.q0, 0, 0, c.q1;
    Qf << c.qf0, 0, 0, c.qf1;
    R << c.r;
    R0 << 0;
    ct::core::StateVector<2> xd;
    xd << c.xd0, c.xd1;
    ct::core::ControlVector<1> ud;
    ud.setZero();
    auto cf = std::make_shared<CostFunctionAnalytical<2, 1>>();
    std::shared_ptr<TermQuadratic<2, 1>> ti(new TermQuadratic<2, 1>(Q, R, xd, ud));
    std::shared_ptr<TermQuadratic<2, 1>> tf(new TermQuadratic<2, 1>(Qf, R0, xd, ud));
    cf->addIntermediateTerm(ti);
    cf->addFinalTerm(tf);
    if (c.wave > 0)
    {
        cf->addIntermediateTerm(std::shared_ptr<TermBase<2, 1>>(new WaveTerm(c.wave)));
        cf->addFinalTerm(std::shared_ptr<TermBase<2, 1>>(new WaveTerm(c.wave)));
    }
    return cf;
}

// one step of the plant with constant control, independent of the toolbox: mode 0 Euler, 1 classical RK4
inline void ref_step(const Plant& p, int rk4, double dt, double u, double* x)
{
    double k1[2], k2[2], k3[2], k4[2], y[2];
    PlantSystem::rhs(p, x, u, k1);
    if (!rk4)
    {
        x[0] += dt * k1[0];
        x[1] += dt * k1[1];
        return;
    }
    for (int i = 0; i < 2; i++)
        y[i] = x[i] + 0.5 * dt * k1[i];
    PlantSystem::rhs(p, y, u, k2);
    for (int i = 0; i < 2; i++)
        y[i] = x[i] + 0.5 * dt * k2[i];
    PlantSystem::rhs(p, y, u, k3);
    for (int i = 0; i < 2; i++)
        y[i] = x[i] + dt * k3[i];
    PlantSystem::rhs(p, y, u, k4);
    for (int i = 0; i < 2; i++)
        x[i] += dt / 6 * (k1[i] + 2 * k2[i] + 2 * k3[i] + k4[i]);
}

inline bool fin(double x) { return std::isfinite(x); }
inline bool close(double a, double b, double tol)
{
    if (!fin(a) || !fin(b))
        return fin(a) == fin(b);
    return std::fabs(a - b) <= tol * (1.0 + std::fabs(a) + std::fabs(b));
}

}  // namespace h
