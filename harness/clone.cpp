// Simulation of cloned objects: systems, controllers, linearisers, cost functions and constraint containers are used over
// random histories, cloned at random moments, and the clones (and clones of clones) are used by several threads at once while
// the original is changed, used, or destroyed.  User components keep a count of their calls that enters their results and fail
// at random.  Oracle: an object built from scratch, never cloned, that went through the same history of calls.
#include <ct/optcon/optcon.h>
#include <cmath>
#include <functional>
#include <memory>
#include <stdexcept>
#include <thread>
#include <vector>
#include "../sim/detsim.h"
#include <ct/models/Quadrotor/Quadrotor.hpp>
#include "ct_models/src/Quadrotor/quadrotor_ode.cpp"

namespace {
typedef ct::core::StateVector<2> SV;
typedef ct::core::ControlVector<1> CV;
typedef ct::core::FeedbackMatrix<2, 1> FM;
SV V2(double a, double b)
{
    SV x;
    x << a, b;
    return x;
}
struct UserError : std::runtime_error
{
    UserError() : std::runtime_error("injected failure") {}
};
bool g_yield = false;
thread_local int g_countdown = -1;  // the n-th call of a user component from now raises an exception
void point()
{
    if (g_yield)
        sim::yield();
    if (g_countdown >= 0 && g_countdown-- == 0)
        throw UserError();
}

struct Op
{
    int kind;
    double v[8];
    int n;
    int fail;
};
typedef std::vector<double> Out;
struct Item
{
    virtual ~Item() {}
    virtual Item* dup() const = 0;
    virtual void apply(const Op& o, Out& r) = 0;
};
template <class M>
void put(Out& r, const M& m)
{
    r.push_back(m.rows());
    for (int i = 0; i < m.rows(); i++)
        for (int j = 0; j < m.cols(); j++)
            r.push_back(m(i, j));
}

// ------------------------------------------------------------------ components written by the user
// each keeps a count of its calls which enters what it returns
struct Count
{
    int calls = 0;
    double next() { return 1e-3 * std::sin(1.7 * ++calls); }
};
template <size_t N, size_t M>
class USys : public ct::core::ControlledSystem<N, M>
{
public:
    EIGEN_MAKE_ALIGNED_OPERATOR_NEW
    typedef ct::core::ControlledSystem<N, M> Base;
    USys(double a, bool so = false) : Base(so ? ct::core::SYSTEM_TYPE::SECOND_ORDER : ct::core::SYSTEM_TYPE::GENERAL), a_(a) {}
    USys(const USys& o) : Base(o), a_(o.a_), c_(o.c_) {}
    USys* clone() const override { return new USys(*this); }
    void computeControlledDynamics(const ct::core::StateVector<N>& x, const double& t, const ct::core::ControlVector<M>& u, ct::core::StateVector<N>& d) override
    {
        point();
        double e = c_.next();
        for (size_t i = 0; i + 1 < N; i++)
            d(i) = x(i + 1);
        d(N - 1) = -a_ * std::sin(x(0)) * (1 + 0.2 * std::sin(t)) + u(0) - 0.3 * x(N - 1) + e;
    }
    double a_;
    Count c_;
};
class USym : public ct::core::SymplecticSystem<1, 1, 1>
{
public:
    EIGEN_MAKE_ALIGNED_OPERATOR_NEW
    typedef ct::core::SymplecticSystem<1, 1, 1> Base;
    USym(double a) : Base(ct::core::SYSTEM_TYPE::SECOND_ORDER), a_(a) {}
    USym(const USym& o) : Base(o), a_(o.a_), c_(o.c_) {}
    USym* clone() const override { return new USym(*this); }
    void computePdot(const SV& x, const ct::core::StateVector<1>& v, const CV& u, ct::core::StateVector<1>& p) override { p(0) = v(0) + c_.next(); }
    void computeVdot(const SV& x, const ct::core::StateVector<1>& p, const CV& u, ct::core::StateVector<1>& v) override
    {
        point();
        v(0) = -a_ * std::sin(p(0)) - 0.2 * x(1) + u(0) + c_.next();
    }
    double a_;
    Count c_;
};
class ULaw : public ct::core::Controller<2, 1>
{
public:
    EIGEN_MAKE_ALIGNED_OPERATOR_NEW
    ULaw(double k) : k_(k) {}
    ULaw(const ULaw& o) : ct::core::Controller<2, 1>(o), k_(o.k_), c_(o.c_) {}
    ULaw* clone() const override { return new ULaw(*this); }
    void computeControl(const SV& x, const double& t, CV& u) override
    {
        point();
        u(0) = -k_ * x(0) + 0.1 * std::cos(t) + c_.next();
    }
    double k_;
    Count c_;
};
class ULin : public ct::core::LinearSystem<2, 1>
{
public:
    EIGEN_MAKE_ALIGNED_OPERATOR_NEW
    typedef ct::core::LinearSystem<2, 1> Base;
    ULin(double a) : a_(a)
    {
        A_.setZero();
        B_.setZero();
    }
    ULin(const ULin& o) : Base(o), a_(o.a_), c_(o.c_), A_(o.A_), B_(o.B_) {}
    ULin* clone() const override { return new ULin(*this); }
    const state_matrix_t& getDerivativeState(const SV& x, const CV& u, const double t = 0.0) override
    {
        point();
        A_ << 0, 1, -a_ * std::cos(x(0)) + c_.next(), -0.3 + 0.1 * std::sin(t);
        return A_;
    }
    const state_control_matrix_t& getDerivativeControl(const SV& x, const CV& u, const double t = 0.0) override
    {
        point();
        B_ << 0.1 * u(0), 1 + c_.next();
        return B_;
    }
    double a_;
    Count c_;
    state_matrix_t A_;
    state_control_matrix_t B_;
};
class UDSys : public ct::core::DiscreteControlledSystem<2, 1>
{
public:
    EIGEN_MAKE_ALIGNED_OPERATOR_NEW
    typedef ct::core::DiscreteControlledSystem<2, 1> Base;
    UDSys(double a) : a_(a) {}
    UDSys(const UDSys& o) : Base(o), a_(o.a_), c_(o.c_) {}
    UDSys* clone() const override { return new UDSys(*this); }
    void propagateControlledDynamics(const SV& x, const int n, const CV& u, SV& y) override
    {
        point();
        double e = c_.next();
        y(0) = x(0) + 0.1 * x(1);
        y(1) = x(1) - 0.1 * a_ * std::sin(x(0)) + 0.1 * u(0) + 0.01 * n + e;
    }
    double a_;
    Count c_;
};
class UDLin : public ct::core::DiscreteLinearSystem<2, 1>
{
public:
    EIGEN_MAKE_ALIGNED_OPERATOR_NEW
    typedef ct::core::DiscreteLinearSystem<2, 1> Base;
    UDLin(double a) : a_(a) {}
    UDLin(const UDLin& o) : Base(o), a_(o.a_), c_(o.c_) {}
    UDLin* clone() const override { return new UDLin(*this); }
    using Base::getAandB;
    void getAandB(const SV& x, const CV& u, const SV& xn, const int n, size_t steps, state_matrix_t& A, state_control_matrix_t& B) override
    {
        point();
        A << 1, 0.1, -0.1 * a_ * std::cos(x(0)), 1 + c_.next();
        B << 0.01 * n, 0.1;
    }
    double a_;
    Count c_;
};
class UDLaw : public ct::core::DiscreteController<2, 1>
{
public:
    EIGEN_MAKE_ALIGNED_OPERATOR_NEW
    UDLaw(double k) : k_(k) {}
    UDLaw(const UDLaw& o) : ct::core::DiscreteController<2, 1>(o), k_(o.k_), c_(o.c_) {}
    UDLaw* clone() const override { return new UDLaw(*this); }
    void computeControl(const SV& x, const int n, CV& u) override
    {
        point();
        u(0) = -k_ * x(0) + 0.01 * n + c_.next();
    }
    double k_;
    Count c_;
};
class UCon : public ct::optcon::ConstraintBase<2, 1>
{
public:
    EIGEN_MAKE_ALIGNED_OPERATOR_NEW
    typedef ct::optcon::ConstraintBase<2, 1> Base;
    UCon(double a) : Base("user"), a_(a)
    {
        lb_.resize(2);
        ub_.resize(2);
        lb_ << -1 - a, -2;
        ub_ << 1, 2 + a;
    }
    UCon(const UCon& o) : Base(o), a_(o.a_), c_(o.c_) {}
    UCon* clone() const override { return new UCon(*this); }
    size_t getConstraintSize() const override { return 2; }
    Eigen::VectorXd evaluate(const SV& x, const CV& u, const double t) override
    {
        point();
        Eigen::VectorXd r(2);
        r << x(0) * x(1) + u(0), a_ * x(0) + t + c_.next();
        return r;
    }
    Eigen::MatrixXd jacobianState(const SV& x, const CV& u, const double t) override
    {
        point();
        Eigen::MatrixXd r(2, 2);
        r << x(1), x(0) + c_.next(), a_, 0;
        return r;
    }
    Eigen::MatrixXd jacobianInput(const SV& x, const CV& u, const double t) override
    {
        Eigen::MatrixXd r(2, 1);
        r << 1 + c_.next(), 0;
        return r;
    }
    double a_;
    Count c_;
};
class UTerm : public ct::optcon::TermBase<2, 1>
{
public:
    EIGEN_MAKE_ALIGNED_OPERATOR_NEW
    typedef ct::optcon::TermBase<2, 1> Base;
    UTerm(double a) : Base("user"), a_(a) {}
    UTerm(const UTerm& o) : Base(o), a_(o.a_), c_(o.c_) {}
    UTerm* clone() const override { return new UTerm(*this); }
    double evaluate(const Eigen::Matrix<double, 2, 1>& x, const Eigen::Matrix<double, 1, 1>& u, const double& t) override
    {
        point();
        return a_ * x(0) * x(0) + u(0) * t + c_.next();
    }
    SV stateDerivative(const SV& x, const CV& u, const double& t) override { return V2(2 * a_ * x(0) + c_.next(), 0); }
    state_matrix_t stateSecondDerivative(const SV& x, const CV& u, const double& t) override { return state_matrix_t::Identity() * (2 * a_ + c_.next()); }
    CV controlDerivative(const SV& x, const CV& u, const double& t) override { return CV::Constant(t + c_.next()); }
    control_matrix_t controlSecondDerivative(const SV& x, const CV& u, const double& t) override { return control_matrix_t::Zero(); }
    control_state_matrix_t stateControlDerivative(const SV& x, const CV& u, const double& t) override { return control_state_matrix_t::Constant(c_.next()); }
    double a_;
    Count c_;
};

// ------------------------------------------------------------------ controllers
typedef ct::core::StateFeedbackController<2, 1> SFC;
typedef ct::core::ConstantController<2, 1> CC;
typedef ct::core::ConstantStateFeedbackController<2, 1> CSF;
typedef ct::core::ConstantTrajectoryController<2, 1> CTC;
void sfcUpdate(SFC& c, const Op& o)
{
    int n = 2 + o.n % 4;
    ct::core::StateVectorArray<2> x;
    ct::core::ControlVectorArray<1> u;
    ct::core::FeedbackArray<2, 1> K;
    ct::core::TimeArray t;
    for (int i = 0; i <= n; i++)
    {
        x.push_back(V2(o.v[0] + i * o.v[1], o.v[2]));
        t.push_back(0.1 * o.n + 0.25 * i);
        if (i < n)
        {
            u.push_back(CV::Constant(o.v[3] + 0.1 * i));
            FM k;
            k << o.v[4], o.v[5] * i;
            K.push_back(k);
        }
    }
    c.update(x, u, K, t);
}
std::shared_ptr<SFC> makeSfc(const Op& o, ct::core::InterpolationType it)
{
    ct::core::StateVectorArray<2> x;
    ct::core::ControlVectorArray<1> u;
    ct::core::FeedbackArray<2, 1> K;
    for (int i = 0; i <= 6; i++)
    {
        x.push_back(V2(o.v[0] * i, o.v[1]));
        if (i < 6)
        {
            u.push_back(CV::Constant(o.v[2] - i));
            FM k;
            k << o.v[3], o.v[4];
            K.push_back(k);
        }
    }
    return std::make_shared<SFC>(x, u, K, 0.2, 0.0, it);
}
std::shared_ptr<ct::core::Controller<2, 1>> makeCtrl(int k, const Op& o)
{
    FM K;
    K << o.v[3], o.v[4];
    CV u = CV::Constant(o.v[2]);
    switch (k % 5)
    {
        case 0: return std::make_shared<ULaw>(o.v[0]);
        case 1: return std::make_shared<CC>(u);
        case 2: return std::make_shared<CSF>(u, V2(o.v[0], o.v[1]), K);
        case 3: return makeSfc(o, ct::core::ZOH);
        default: return makeSfc(o, ct::core::LIN);
    }
}
void mutateCtrl(ct::core::Controller<2, 1>* c, const Op& o)
{
    FM K;
    K << o.v[3], o.v[4];
    if (auto p = dynamic_cast<CC*>(c))
        p->setControl(CV::Constant(o.v[2]));
    else if (auto p = dynamic_cast<CSF*>(c))
        p->updateControlLaw(CV::Constant(o.v[2]), V2(o.v[0], o.v[1]), K);
    else if (auto p = dynamic_cast<ULaw*>(c))
        p->k_ = o.v[0];
    else if (auto p = dynamic_cast<SFC*>(c))
        sfcUpdate(*p, o);
}
struct CtrlItem : Item
{
    std::unique_ptr<ct::core::Controller<2, 1>> c;
    CtrlItem(ct::core::Controller<2, 1>* p) : c(p) {}
    Item* dup() const override { return new CtrlItem(c->clone()); }
    void apply(const Op& o, Out& r) override
    {
        SV x = V2(o.v[0], o.v[1]);
        CV u = CV::Zero();
        auto s = dynamic_cast<SFC*>(c.get());
        switch (o.kind % 4)
        {
            case 0: mutateCtrl(c.get(), o); break;
            case 1:
                if (s)
                {
                    s->computeControl(x, o.n % 2, u);
                    put(r, u);
                    for (auto& q : s->x_ref())
                        put(r, q);
                    for (auto& q : s->uff())
                        put(r, q);
                    for (auto& q : s->K())
                        put(r, q);
                    for (auto& q : s->time())
                        r.push_back(q);
                    break;
                }
            default:
                c->computeControl(x, o.v[6] + 2, u);
                put(r, u);
        }
    }
};
struct CtcItem : Item
{
    std::unique_ptr<CTC> c;
    CtcItem(CTC* p) : c(p) {}
    Item* dup() const override { return new CtcItem(c->clone()); }
    void apply(const Op& o, Out& r) override
    {
        int n = o.n % 5;
        if (o.kind % 3 == 0)
            c->setControlVectorArray(ct::core::ControlVectorArray<1>(n, CV::Constant(o.v[0])));
        else if (o.kind % 3 == 1)
            c->setStateVectorArray(ct::core::StateVectorArray<2>(n, V2(o.v[1], o.v[2])));
        for (auto& q : c->getControlVectorArray())
            put(r, q);
        for (auto& q : c->getStateVectorArray())
            put(r, q);
    }
};
struct PidItem : Item
{
    typedef ct::core::PIDController<double> Pid;
    std::unique_ptr<Pid> c;
    PidItem(Pid* p) : c(p) {}
    Item* dup() const override { return new PidItem(c->clone()); }
    static Pid::parameters_t par(const Op& o)
    {
        return Pid::parameters_t(o.v[0] + 2, o.v[1] + 2, o.v[2], 0.05 * (1 + o.n % 4), 0.2 * (1 + o.n % 7), 1.5 + 0.2 * (o.n % 3), -2 + 0.3 * (o.n % 5));
    }
    void apply(const Op& o, Out& r) override
    {
        switch (o.kind % 8)
        {
            case 0: c->changeParameters(par(o)); break;
            case 1: c->setInitialState(o.v[0]); break;
            case 2: c->setDesiredState(o.v[0]); break;
            case 3: c->setDesiredState(o.v[0], o.v[1]); break;
            case 4:
                if (o.n % 3 == 0)
                    c->reset();
                else
                    c->Parameters().k_i = o.v[1];
                break;
            case 5: r.push_back(c->computeControl(o.v[0], o.v[1], o.v[6])); break;
            default: r.push_back(c->computeControl(o.v[0], o.v[6]));
        }
    }
};
struct StepItem : Item
{
    std::unique_ptr<ct::core::StepInputController> c;
    StepItem(ct::core::StepInputController* p) : c(p) {}
    Item* dup() const override { return new StepItem(c->clone()); }
    void apply(const Op& o, Out& r) override
    {
        ct::core::ControlVector<1> u;
        ct::core::StateVector<1> x;
        x(0) = o.v[0];
        c->computeControl(x, o.v[6], u);
        put(r, u);
    }
};

// ------------------------------------------------------------------ continuous-time systems
typedef ct::core::ControlledSystem<2, 1> CS;
struct SysItem : Item
{
    std::unique_ptr<CS> s;
    SysItem(CS* p) : s(p) {}
    Item* dup() const override { return new SysItem(s->clone()); }
    void apply(const Op& o, Out& r) override
    {
        SV x = V2(o.v[0], o.v[1]), d;
        d.setZero();
        CV u = CV::Constant(o.v[2]);
        double t = o.v[6] + 2;
        auto lin = dynamic_cast<ct::core::LinearSystem<2, 1>*>(s.get());
        switch (o.kind % 10)
        {
            case 0: s->setController(o.n % 7 == 0 ? nullptr : makeCtrl(o.n, o)); break;
            case 1:
                if (s->getController())
                    mutateCtrl(s->getController().get(), o);
                break;
            case 2:
                if (auto p = dynamic_cast<ct::core::SecondOrderSystem*>(s.get()))
                    p->setDynamics(1 + o.v[0] * o.v[0], o.v[1], o.v[2]);
                if (auto p = dynamic_cast<ct::core::LTISystem<2, 1>*>(s.get()))
                {
                    p->A()(o.n % 2, (o.n / 2) % 2) = o.v[0];
                    p->B()(o.n % 2) = o.v[1];
                    p->C()(0, o.n % 2) = o.v[2];
                    p->D()(o.n % 2) = o.v[3];
                }
                break;
            case 3:
            case 4:
                s->computeControlledDynamics(x, t, u, d);
                put(r, d);
                break;
            case 5:
            case 6:
                if (lin)
                {
                    put(r, ct::core::StateMatrix<2>(lin->getDerivativeState(x, u, t)));
                    put(r, ct::core::StateControlMatrix<2, 1>(lin->getDerivativeControl(x, u, t)));
                    if (auto p = dynamic_cast<ct::core::LTISystem<2, 1>*>(s.get()))
                    {
                        p->computeOutput(x, t, u, d);
                        put(r, d);
                    }
                    break;
                }
            default:
                if (s->getController())
                {
                    s->computeDynamics(x, t, d);
                    put(r, d);
                    put(r, s->getLastControlAction());
                }
        }
        r.push_back(s->getType());
        r.push_back(s->getController() ? 1 : 0);
    }
};
struct DistItem : Item  // a plant with a disturbed input
{
    typedef ct::optcon::InputDisturbedSystem<2, 1> D;
    std::unique_ptr<D> s;
    DistItem(D* p) : s(p) {}
    Item* dup() const override { return new DistItem(s->clone()); }
    void apply(const Op& o, Out& r) override
    {
        ct::core::StateVector<3> x, d;
        x << o.v[0], o.v[1], o.v[3];
        d.setZero();
        CV u = CV::Constant(o.v[2]);
        switch (o.kind % 4)
        {
            case 0: s->setController(makeCtrl(o.n, o)); break;
            case 1: s->computeDynamics(x, o.v[6] + 2, d); break;
            default: s->computeControlledDynamics(x, o.v[6] + 2, u, d);
        }
        put(r, d);
    }
};
struct QuadItem : Item
{
    typedef ct::core::ControlledSystem<ct::models::quadrotor::nStates, ct::models::quadrotor::nControls> Q;
    typedef ct::core::ConstantController<ct::models::quadrotor::nStates, ct::models::quadrotor::nControls> K;
    std::unique_ptr<Q> s;
    QuadItem(Q* p) : s(p) {}
    Item* dup() const override { return new QuadItem(s->clone()); }
    void apply(const Op& o, Out& r) override
    {
        ct::core::StateVector<ct::models::quadrotor::nStates> x, d;
        ct::core::ControlVector<ct::models::quadrotor::nControls> u;
        for (int i = 0; i < x.size(); i++)
            x(i) = o.v[i % 6] * 0.3;
        for (int i = 0; i < u.size(); i++)
            u(i) = o.v[(i + 2) % 6];
        d.setZero();
        switch (o.kind % 4)
        {
            case 0: s->setController(std::make_shared<K>(u)); break;
            case 1:
                if (auto p = dynamic_cast<K*>(s->getController().get()))
                    p->setControl(u);
                break;
            case 2:
                if (s->getController())
                    s->computeDynamics(x, 0.0, d);
                break;
            default:
                s->computeControlledDynamics(x, 0.0, u, d);
        }
        put(r, d);
    }
};

// ------------------------------------------------------------------ discrete-time systems
typedef ct::core::DiscreteControlledSystem<2, 1> DS;
struct DiscItem : Item
{
    std::unique_ptr<DS> s;
    DiscItem(DS* p) : s(p) {}
    Item* dup() const override { return new DiscItem(s->clone()); }
    void apply(const Op& o, Out& r) override
    {
        SV x = V2(o.v[0], o.v[1]), y;
        y.setZero();
        CV u = CV::Constant(o.v[2]);
        int n = o.n % 9;
        std::shared_ptr<ct::core::DiscreteController<2, 1>> c = s->getController();
        auto lin = dynamic_cast<ct::core::DiscreteLinearSystem<2, 1>*>(s.get());
        auto dz = dynamic_cast<ct::core::SystemDiscretizer<2, 1>*>(s.get());
        switch (o.kind % 8)
        {
            case 0:
                if (o.n % 3 == 0)
                    s->setController(std::make_shared<UDLaw>(o.v[0]));
                else if (o.n % 3 == 1)
                    s->setController(std::make_shared<CC>(u));
                else
                    s->setController(nullptr);
                break;
            case 1:
                if (auto p = dynamic_cast<CC*>(c.get()))
                    p->setControl(CV::Constant(o.v[3]));
                else if (auto p = dynamic_cast<UDLaw*>(c.get()))
                    p->k_ = o.v[3];
                break;
            case 2:
                if (dz)
                    dz->setParameters(0.02 * (1 + o.n % 4), 1 + o.n % 3);
                break;
            case 3:
            case 4:
                if (lin)
                {
                    ct::core::StateMatrix<2> A;
                    ct::core::StateControlMatrix<2, 1> B;
                    A.setZero();
                    B.setZero();
                    lin->getAandB(x, u, x, n, 1, A, B);
                    put(r, A);
                    put(r, B);
                    break;
                }
            case 5:
                s->propagateControlledDynamics(x, n, u, y);
                put(r, y);
                break;
            default:
                if (dz && s->getController() == nullptr)
                    break;
                s->propagateDynamics(x, n, y);
                put(r, y);
        }
        r.push_back(s->getType());
    }
};
struct SensItem : Item
{
    typedef ct::core::SensitivityApproximation<2, 1, 1, 1> S;
    typedef ct::core::SensitivityApproximationSettings Set;
    std::unique_ptr<S> s;
    SensItem(S* p) : s(p) {}
    Item* dup() const override { return new SensItem(s->clone()); }
    void apply(const Op& o, Out& r) override
    {
        static const Set::APPROXIMATION K[] = {Set::APPROXIMATION::FORWARD_EULER, Set::APPROXIMATION::BACKWARD_EULER,
            Set::APPROXIMATION::SYMPLECTIC_EULER, Set::APPROXIMATION::TUSTIN, Set::APPROXIMATION::MATRIX_EXPONENTIAL};
        switch (o.kind % 5)
        {
            case 0: s->setApproximation(K[o.n % 5]); break;
            case 1: s->setTimeDiscretization(0.01 * (1 + o.n % 5)); break;
            case 2:
                if (o.n % 3 == 0)
                    s->setLinearSystem(std::make_shared<ULin>(2 + o.v[0]));
                break;
            default:
            {
                ct::core::StateMatrix<2> A;
                ct::core::StateControlMatrix<2, 1> B;
                A.setZero();
                B.setZero();
                s->getAandB(V2(o.v[0], o.v[1]), CV::Constant(o.v[2]), V2(o.v[3], o.v[4]), o.n % 7, 1, A, B);
                put(r, A);
                put(r, B);
            }
        }
        r.push_back((int)s->getApproximation());
    }
};

// ------------------------------------------------------------------ cost functions
typedef ct::optcon::TermBase<2, 1> TB;
struct CostItem : Item
{
    typedef ct::optcon::CostFunctionQuadratic<2, 1> CF;
    std::unique_ptr<CF> c;
    int ni = 0, nf = 0;
    bool analytical;
    CostItem(CF* p, int a, int b, bool an) : c(p), ni(a), nf(b), analytical(an) {}
    Item* dup() const override { return new CostItem(c->clone(), ni, nf, analytical); }
    static Eigen::Matrix2d Q(const Op& o)
    {
        Eigen::Matrix2d q;
        q << 1 + o.v[0] * o.v[0], 0.2, 0.2, 1 + o.v[1] * o.v[1];
        return q;
    }
    static std::shared_ptr<TB> term(int k, const Op& o)
    {
        Eigen::Matrix<double, 1, 1> R;
        R << 1 + o.v[2] * o.v[2];
        SV x = V2(o.v[3], o.v[4]);
        CV u = CV::Constant(o.v[5]);
        std::shared_ptr<TB> t;
        switch (k % 7)
        {
            case 0: t = std::make_shared<ct::optcon::TermQuadratic<2, 1>>(Q(o), R, x, u); break;
            case 1: t = std::make_shared<ct::optcon::TermLinear<2, 1>>(x, u, o.v[0]); break;
            case 2: t = std::make_shared<ct::optcon::TermMixed<2, 1>>(Eigen::Matrix<double, 1, 2>(o.v[0], o.v[1]), x, u); break;
            case 3: t = std::make_shared<ct::optcon::TermQuadMult<2, 1>>(Q(o), R, x, u); break;
            case 4:
            {
                auto q = std::make_shared<ct::optcon::TermQuadTracking<2, 1>>(Q(o), R, ct::core::LIN, ct::core::ZOH, o.n % 2 == 0);
                q->setStateAndControlReference(traj<2>(o), traj<1>(o));
                t = q;
                break;
            }
            case 5: t = std::make_shared<ct::optcon::TermSmoothAbs<2, 1>>(x, V2(o.v[0], o.v[1]), u, CV::Constant(o.v[2]), 0.3); break;
            default: t = std::make_shared<UTerm>(o.v[0]);
        }
        if (o.n % 3 == 0)
            t->setTimeActivation(std::make_shared<ct::core::tpl::SingleActivation<double>>(0.5 + (o.n % 4) * 0.5, 3.0));
        else if (o.n % 3 == 1)
            t->setTimeActivation(std::make_shared<ct::core::tpl::PeriodicActivation<double>>(0.4, 0.9, 0.0, 4.0));
        t->setName("t");
        return t;
    }
    template <int N>
    static typename std::conditional<N == 2, ct::core::StateTrajectory<2>, ct::core::ControlTrajectory<1>>::type traj(const Op& o)
    {
        typename std::conditional<N == 2, ct::core::StateTrajectory<2>, ct::core::ControlTrajectory<1>>::type r;
        for (int i = 0; i < 6; i++)
        {
            typename std::conditional<N == 2, SV, CV>::type v;
            v.setConstant(o.v[0] * i + o.v[1]);
            r.push_back(v, 0.8 * i, true);
        }
        return r;
    }
    void apply(const Op& o, Out& r) override
    {
        switch (o.kind % 12)
        {
            case 0: c->shiftTime(0.25 * (o.n % 4)); break;
            case 1: c->updateReferenceState(V2(o.v[0], o.v[1])); break;
            case 2: c->updateFinalState(V2(o.v[0], o.v[1])); break;
            case 3:
                if (analytical)
                    c->updateReferenceControl(CV::Constant(o.v[0]));
                break;
            case 4:
                if (analytical && ni < 5)
                {
                    auto t = term(o.n, o);
                    c->addIntermediateTerm(t);
                    ni++;
                }
                break;
            case 5:
                if (analytical && nf < 4)
                {
                    auto t = term(o.n % 4, o);
                    c->addFinalTerm(t);
                    nf++;
                }
                break;
            case 6:
                if (analytical && ni)
                {
                    auto t = c->getIntermediateTermById(o.n % ni);
                    if (auto q = dynamic_cast<ct::optcon::TermQuadratic<2, 1>*>(t.get()))
                        q->setWeights(Q(o), Eigen::Matrix<double, 1, 1>::Constant(1 + o.v[3] * o.v[3]));
                    else if (auto q = dynamic_cast<ct::optcon::TermQuadTracking<2, 1>*>(t.get()))
                        q->setStateAndControlReference(traj<2>(o), traj<1>(o));
                    else if (auto q = dynamic_cast<UTerm*>(t.get()))
                        q->a_ = o.v[3];
                    else
                        t->setTimeActivation(std::make_shared<ct::core::tpl::SingleActivation<double>>(0.2 * (o.n % 9), 2.5));
                }
                break;
            case 7:
            case 8:
                c->setCurrentStateAndControl(V2(o.v[0], o.v[1]), CV::Constant(o.v[2]), o.v[6] + 2);
                break;
            default:
                if (o.n % 2)
                    c->setCurrentStateAndControl(V2(o.v[0], o.v[1]), CV::Constant(o.v[2]), o.v[6] + 2);
                // without: a clone also carries on from the state set before it was made
                r.push_back(c->evaluateIntermediate());
                put(r, c->stateDerivativeIntermediate());
                put(r, c->stateSecondDerivativeIntermediate());
                put(r, c->controlDerivativeIntermediate());
                put(r, c->controlSecondDerivativeIntermediate());
                put(r, c->stateControlDerivativeIntermediate());
                r.push_back(c->evaluateTerminal());
                put(r, c->stateDerivativeTerminal());
                put(r, c->stateSecondDerivativeTerminal());
        }
        Eigen::Matrix<double, 2, 1> x;
        Eigen::Matrix<double, 1, 1> u;
        double t;
        c->getCurrentStateAndControl(x, u, t);
        put(r, x);
        put(r, u);
        r.push_back(t);
    }
};

// ------------------------------------------------------------------ constraints
typedef ct::optcon::LinearConstraintContainer<2, 1> LC;
typedef ct::optcon::ConstraintContainerAnalytical<2, 1> CA;
std::shared_ptr<ct::optcon::ConstraintBase<2, 1>> con(int k, const Op& o)
{
    switch (k % 6)
    {
        case 0: return std::make_shared<ct::optcon::StateConstraint<2, 1>>(V2(-1 + o.v[0] * 0.2, -2), V2(1, 2 + o.v[1] * 0.2));
        case 1: return std::make_shared<ct::optcon::ControlInputConstraint<2, 1>>(CV::Constant(-1), CV::Constant(1 + o.v[2] * o.v[2]));
        case 2: return std::make_shared<ct::optcon::TerminalConstraint<2, 1>>(V2(o.v[0], o.v[1]));
        case 3:
        {
            Eigen::VectorXi sp(2);
            sp << 0, 1;
            return std::make_shared<ct::optcon::StateConstraint<2, 1>>(Eigen::VectorXd::Constant(1, -1), Eigen::VectorXd::Constant(1, 2 + o.v[0]), sp);
        }
        case 4:
        {
            auto e = std::make_shared<ct::core::tpl::Ellipsoid<double>>(Eigen::Vector3d(o.v[0], o.v[1], 0), Eigen::Matrix3d::Identity(), Eigen::Matrix3d(Eigen::Vector3d(1, 2, 1).asDiagonal()));
            return std::make_shared<ct::optcon::ObstacleConstraint<2, 1>>(e, [](const SV& x, Eigen::Vector3d& p) { p << x(0), x(1), 0.5; },
                [](const SV& x, Eigen::Matrix<double, 3, 2>& j) { j << 1, 0, 0, 1, 0, 0; });
        }
        default: return std::make_shared<UCon>(o.v[0]);
    }
}
void conOut(LC& c, Out& r, bool inter, bool term)
{
    if (inter && c.getIntermediateConstraintsCount() > 0)
    {
        put(r, c.evaluateIntermediate());
        put(r, c.jacobianStateIntermediate());
        put(r, c.jacobianInputIntermediate());
        put(r, c.jacobianStateSparseIntermediate());
        put(r, c.jacobianInputSparseIntermediate());
        put(r, c.getLowerBoundsIntermediate());
        put(r, c.getUpperBoundsIntermediate());
        put(r, c.getTotalBoundsViolationIntermediate());
        Eigen::VectorXi a(c.getJacobianStateNonZeroCountIntermediate()), b(a.size());
        c.sparsityPatternStateIntermediate(a, b);
        put(r, a);
        put(r, b);
    }
    if (term && c.getTerminalConstraintsCount() > 0)
    {
        put(r, c.evaluateTerminal());
        put(r, c.jacobianStateTerminal());
        put(r, c.jacobianStateSparseTerminal());
        put(r, c.getLowerBoundsTerminal());
        put(r, c.getUpperBoundsTerminal());
    }
    r.push_back(c.getJacNonZeroCount());
    r.push_back(c.getConstraintsCount());
    r.push_back(c.isInitialized());
}
struct ConItem : Item
{
    std::unique_ptr<CA> c;
    int n = 0;
    ConItem(CA* p, int k) : c(p), n(k) {}
    Item* dup() const override { return new ConItem(c->clone(), n); }
    void apply(const Op& o, Out& r) override
    {
        switch (o.kind % 8)
        {
            case 0:
                if (n < 6)
                {
                    if (o.n % 3)
                        c->addIntermediateConstraint(con(o.n, o), false);
                    else
                        c->addTerminalConstraint(con(o.n / 3, o), false);
                    n++;
                    c->initialize();
                }
                break;
            case 1:
            case 2:
                c->setCurrentStateAndControl(V2(o.v[0], o.v[1]), CV::Constant(o.v[2]), o.v[6]);
                break;
            default:
                if (o.n % 2)
                    c->setCurrentStateAndControl(V2(o.v[0], o.v[1]), CV::Constant(o.v[2]), o.v[6]);
                conOut(*c, r, true, true);
        }
    }
};
struct SwConItem : Item
{
    typedef ct::optcon::SwitchedLinearConstraintContainer<2, 1> SW;
    std::unique_ptr<SW> c;
    SwConItem(SW* p) : c(p) {}
    Item* dup() const override { return new SwConItem(c->clone()); }
    void apply(const Op& o, Out& r) override
    {
        switch (o.kind % 4)
        {
            case 0: c->setCurrentStateAndControl(V2(o.v[0], o.v[1]), CV::Constant(o.v[2]), o.v[6] + 2); break;
            default:
                if (o.n % 2)
                    c->setCurrentStateAndControl(V2(o.v[0], o.v[1]), CV::Constant(o.v[2]), o.v[6] + 2);
                conOut(*c, r, true, true);
        }
    }
};

const int N_ITEMS = 27;
const char* NAMES[N_ITEMS] = {"ConstantController", "ConstantStateFeedbackController", "StateFeedbackController(ZOH)", "StateFeedbackController(LIN)",
    "ConstantTrajectoryController", "PIDController", "StepInputController", "ControlledSystem", "SymplecticSystem", "SecondOrderSystem", "LTISystem",
    "SwitchedControlledSystem", "SwitchedLinearSystem", "SystemLinearizer", "InputDisturbedSystem", "Quadrotor", "ControlledSystem(own law)",
    "DiscreteControlledSystem", "SwitchedDiscreteControlledSystem", "SwitchedDiscreteLinearSystem", "DiscreteSystemLinearizer", "SystemDiscretizer",
    "SensitivityApproximation", "CostFunctionAnalytical", "CostFunctionQuadraticSimple", "ConstraintContainerAnalytical", "SwitchedLinearConstraintContainer"};

// a new object of the given type; o holds its parameters
Item* build(int k, const Op& o)
{
    ct::core::ContinuousModeSequence seq(0.5);
    seq.addPhase(o.n % 2, 1.0);
    seq.addPhase(1 - o.n % 2, 0.7);
    seq.addPhase(o.n % 3 ? 1 : 0, 0.6);
    ct::core::DiscreteModeSequence dseq(1);
    dseq.addPhase(o.n % 2, 3);
    dseq.addPhase(1 - o.n % 2, 2);
    dseq.addPhase(0, 2);
    Eigen::Matrix2d A;
    A << 0, 1, o.v[0], o.v[1];
    Eigen::Matrix<double, 2, 1> B(0.1, 1);
    switch (k)
    {
        case 0: return new CtrlItem(makeCtrl(1, o)->clone());
        case 1: return new CtrlItem(makeCtrl(2, o)->clone());
        case 2: return new CtrlItem(makeCtrl(3, o)->clone());
        case 3: return new CtrlItem(makeCtrl(4, o)->clone());
        case 4: return new CtcItem(new CTC(ct::core::ControlVectorArray<1>(3, CV::Constant(o.v[0])), ct::core::StateVectorArray<2>(4, V2(o.v[1], o.v[2]))));
        case 5: return new PidItem(new PidItem::Pid(PidItem::par(o), PidItem::Pid::setpoint_t(o.v[3], o.v[4])));
        case 6: return new StepItem(new ct::core::StepInputController(ct::core::StepInputController::Parameters(o.v[0], o.v[1])));
        case 7: return new SysItem(new USys<2, 1>(2 + o.v[0], o.n % 2));
        case 8: return new SysItem(new USym(2 + o.v[0]));
        case 9: return new SysItem(new ct::core::SecondOrderSystem(2 + o.v[0], o.v[1], 1 + o.v[2]));
        case 10: return new SysItem(new ct::core::LTISystem<2, 1>(A, B));
        case 11:
        {
            ct::core::SwitchedControlledSystem<2, 1>::SwitchedSystems v;
            v.push_back(std::make_shared<USys<2, 1>>(2 + o.v[0]));
            v.push_back(std::make_shared<USys<2, 1>>(1 + o.v[1]));
            return new SysItem(new ct::core::SwitchedControlledSystem<2, 1>(v, seq));
        }
        case 12:
        {
            ct::core::SwitchedLinearSystem<2, 1>::SwitchedLinearSystems v;
            v.push_back(std::make_shared<ULin>(2 + o.v[0]));
            v.push_back(std::make_shared<ULin>(1 + o.v[1]));
            return new SysItem(new ct::core::SwitchedLinearSystem<2, 1>(v, seq));
        }
        case 13:
        {
            auto s = std::make_shared<USys<2, 1>>(2 + o.v[0], o.n % 2);
            if (o.n % 5 == 0)
                s->setController(makeCtrl(o.n, o));
            return new SysItem(new ct::core::SystemLinearizer<2, 1>(s, o.n % 3 != 0));
        }
        case 14:
        {
            auto s = std::make_shared<USys<2, 1>>(2 + o.v[0]);
            s->setController(makeCtrl(o.n, o));
            return new DistItem(new ct::optcon::InputDisturbedSystem<2, 1>(s));
        }
        case 15: return new QuadItem(new ct::models::Quadrotor());
        case 16:
        {
            auto s = new USys<2, 1>(2 + o.v[0]);
            s->setController(makeCtrl(o.n, o));
            return new SysItem(s);
        }
        case 17: return new DiscItem(new UDSys(2 + o.v[0]));
        case 18:
        {
            ct::core::SwitchedDiscreteControlledSystem<2, 1>::SwitchedSystems v;
            v.push_back(std::make_shared<UDSys>(2 + o.v[0]));
            v.push_back(std::make_shared<UDSys>(1 + o.v[1]));
            return new DiscItem(new ct::core::SwitchedDiscreteControlledSystem<2, 1>(v, dseq));
        }
        case 19:
        {
            ct::core::SwitchedDiscreteLinearSystem<2, 1>::SwitchedLinearSystems v;
            v.push_back(std::make_shared<UDLin>(2 + o.v[0]));
            v.push_back(std::make_shared<UDLin>(1 + o.v[1]));
            return new DiscItem(new ct::core::SwitchedDiscreteLinearSystem<2, 1>(v, dseq));
        }
        case 20: return new DiscItem(new ct::core::DiscreteSystemLinearizer<2, 1>(std::make_shared<UDSys>(2 + o.v[0]), o.n % 3 != 0));
        case 21: return new DiscItem(new ct::core::SystemDiscretizer<2, 1>(std::make_shared<USys<2, 1>>(2 + o.v[0]), 0.05,
            o.n % 2 ? ct::core::IntegrationType::RK4CT : ct::core::IntegrationType::EULERCT, 2));
        case 22: return new SensItem(new SensItem::S(0.05, std::make_shared<ULin>(2 + o.v[0])));
        case 23:
        {
            auto c = new ct::optcon::CostFunctionAnalytical<2, 1>();
            c->addIntermediateTerm(CostItem::term(o.n, o));
            c->addFinalTerm(CostItem::term(0, o));
            return new CostItem(c, 1, 1, true);
        }
        case 24:
            return new CostItem(new ct::optcon::CostFunctionQuadraticSimple<2, 1>(CostItem::Q(o), Eigen::Matrix<double, 1, 1>::Constant(2 + o.v[2]),
                                    V2(o.v[0], o.v[1]), CV::Constant(o.v[3]), V2(o.v[4], o.v[5]), CostItem::Q(o)),
                0, 0, false);
        case 25:
        {
            auto c = new CA();
            c->addIntermediateConstraint(con(o.n, o), false);
            c->addTerminalConstraint(con(2, o), false);
            c->initialize();
            return new ConItem(c, 2);
        }
        default:
        {
            ct::optcon::SwitchedLinearConstraintContainer<2, 1>::SwitchedLinearConstraintContainers v;
            for (int i = 0; i < 2; i++)
            {
                auto c = std::make_shared<CA>();
                c->addIntermediateConstraint(con(o.n + i, o), false);
                c->addIntermediateConstraint(con(5, o), false);
                c->addTerminalConstraint(con(2, o), false);
                c->initialize();
                v.push_back(c);
            }
            auto s = new ct::optcon::SwitchedLinearConstraintContainer<2, 1>(v, seq);
            s->initialize();
            return new SwConItem(s);
        }
    }
}

// ------------------------------------------------------------------ the runs
double g_throw = 0;
struct Inst
{
    int type;
    Op cfg;
    std::vector<Op> log;
    std::unique_ptr<Item> item, ref;  // ref: built from scratch, never cloned
    bool cloned = false;
};
Op draw()
{
    Op o;
    o.kind = sim::P("kind", 0, 119);
    o.n = sim::P("n", 0, 59);
    for (double& v : o.v)
        v = sim::PR("v", -1.5, 1.5);
    o.fail = g_throw > 0 && sim::fault("user_exception", g_throw) ? (int)sim::P("fail_at", 0, 3) : -1;
    return o;
}
// one call on an object: what it returned, and whether it failed
bool call(Item& it, const Op& o, Out& r)
{
    g_countdown = o.fail;
    bool failed = false;
    try
    {
        it.apply(o, r);
    } catch (UserError&)
    {
        failed = true;
    }
    g_countdown = -1;
    return failed;
}
void makeRef(Inst& i)
{
    i.ref.reset(build(i.type, i.cfg));
    for (auto& o : i.log)
    {
        Out r;
        call(*i.ref, o, r);
    }
}
void step(Inst& i)
{
    Op o = draw();
    i.log.push_back(o);
    Out a, b;
    bool fa = call(*i.item, o, a);
    bool fb = call(*i.ref, o, b);
    const char* nm = NAMES[i.type];
    const char* what = i.cloned ? "a clone" : "an object from which clones were made";
    SIM_CHECK(fa == fb, "clone-failure", "%s: a call on %s %s where the same call on an object that was never cloned %s", nm, what,
        fa ? "failed" : "succeeded", fb ? "fails" : "succeeds");
    sim::probe_if(fa, "failed_call");
    if (fa)
        return;
    SIM_CHECK(a.size() == b.size(), "clone-result", "%s: a call on %s returned results of a different shape than on an object that was never cloned", nm, what);
    for (size_t k = 0; k < a.size(); k++)
    {
        bool same = (std::isnan(a[k]) && std::isnan(b[k])) || a[k] == b[k] || std::fabs(a[k] - b[k]) <= 1e-9 * (1 + std::fabs(a[k]));
        SIM_CHECK(same, "clone-result",
            "%s: call number %d (kind %d) on %s returned %.12g where an object that was never cloned returns %.12g after the same history", nm,
            (int)i.log.size(), o.kind, what, a[k], b[k]);
        if (std::isfinite(a[k]))
            sim::logd(a[k]);
    }
    sim::probe_if(i.cloned && !a.empty(), "compared_clone");
}
std::shared_ptr<Inst> cloneOf(const Inst& i)
{
    auto n = std::make_shared<Inst>();
    n->type = i.type;
    n->cfg = i.cfg;
    n->log = i.log;
    n->item.reset(i.item->dup());
    n->cloned = true;
    makeRef(*n);
    return n;
}
void worker(std::shared_ptr<Inst> i, int n)
{
    for (int k = 0; k < n; k++)
    {
        if (sim::PB("clone_here", 15))
        {
            auto c = cloneOf(*i);
            sim::probe("clone_of_clone");
            if (sim::PB("drop_old", 50))
                i = c;
            else
                step(*c);
        }
        step(*i);
    }
}
}  // namespace

extern "C" void sim_scenario(const char*)
{
    std::cout.setstate(std::ios::failbit);
    g_yield = sim::PB("yield", 80);
    g_throw = sim::PB("faulty", 40) ? 0.15 : 0;
    sim::race_detection(true);
    sim::preempt_plain(sim::PB("plain", 50) ? (int)sim::P("every", 5, 200) : 0);
    auto first = std::make_shared<Inst>();
    first->type = sim::P("type", 0, N_ITEMS - 1);
    first->cfg = draw();
    first->item.reset(build(first->type, first->cfg));
    first->ref.reset(build(first->type, first->cfg));
    for (int k = sim::P("before", 0, 8); k > 0; k--)
        step(*first);
    int users = sim::P("users", 0, 3);
    std::vector<std::thread> th;
    for (int u = 0; u < users; u++)
    {
        auto c = cloneOf(*first);
        int n = sim::P("calls", 1, 10);
        th.emplace_back([c, n] { worker(c, n); });
        if (sim::PB("between", 50))
            step(*first);
    }
    auto last = cloneOf(*first);
    bool drop = sim::PB("destroy_original", 40);
    if (drop)
    {
        sim::probe("original_destroyed");
        first.reset();
    }
    for (int k = sim::P("after", 0, 8); k > 0; k--)
    {
        if (first && sim::PB("on_original", 60))
            step(*first);
        else
            step(*last);
    }
    for (auto& t : th)
        t.join();
    sim::probe_if(users > 1, "several_users");
    sim::probe(NAMES[last->type]);
    step(*last);
    if (first)
        step(*first);
}
