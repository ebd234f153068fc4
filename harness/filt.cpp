// Simulation of state estimation: filters in their own threads, fed by a sensor over a link that loses, repeats, delays and
// reorders measurements, tuned by a third thread, with models that fail now and then. Every call is recorded; afterwards the
// recorded history is replayed by an own implementation of the filter equations.
#include "common.h"
#include <deque>
#include <mutex>
#include <thread>

using namespace h;
using namespace ct::optcon;

namespace {

struct Dyn
{
    double a = 1, b = 0.2, tv = 0;
    double stiff(double t) const { return a * (1 + tv * std::sin(3 * t)); }
    void rhs(const double* x, double t, double u, double* d) const
    {
        d[0] = x[1];
        d[1] = -stiff(t) * std::sin(x[0]) - b * x[1] + u;
    }
};

class Sys : public ct::core::ControlledSystem<2, 1>
{
public:
    EIGEN_MAKE_ALIGNED_OPERATOR_NEW
    typedef ct::core::ControlledSystem<2, 1> Base;
    Sys(const Dyn& d) : Base(ct::core::SYSTEM_TYPE::SECOND_ORDER), d_(d) {}
    Sys(const Sys& o) : Base(o), d_(o.d_) {}
    Sys* clone() const override { return new Sys(*this); }
    void computeControlledDynamics(const ct::core::StateVector<2>& x, const double& t, const ct::core::ControlVector<1>& u, ct::core::StateVector<2>& dx) override
    {
        double d[2];
        d_.rhs(x.data(), t, u(0), d);
        tmp_ = d[1];
        hook_point();
        dx(0) = x(1);
        dx(1) = tmp_;
    }

private:
    Dyn d_;
    double tmp_ = 0;
};

// the user's own derivatives
template <int N>
class Lin : public ct::core::LinearSystem<N, 1>
{
public:
    EIGEN_MAKE_ALIGNED_OPERATOR_NEW
    typedef ct::core::LinearSystem<N, 1> Base;
    Lin(const Dyn& d) : d_(d) {}
    Lin(const Lin& o) : Base(o), d_(o.d_) {}
    Lin* clone() const override { return new Lin(*this); }
    const typename Base::state_matrix_t& getDerivativeState(const ct::core::StateVector<N>& x, const ct::core::ControlVector<1>& u, const double t = 0.0) override
    {
        A_.setZero();
        A_(0, 1) = 1;
        A_(1, 0) = -d_.stiff(t) * std::cos(x(0));
        A_(1, 1) = -d_.b;
        if (N > 2)
            A_(1, N - 1) = 1;
        hook_point();
        return A_;
    }
    const typename Base::state_control_matrix_t& getDerivativeControl(const ct::core::StateVector<N>& x, const ct::core::ControlVector<1>& u, const double t = 0.0) override
    {
        B_.setZero();
        B_(1, 0) = 1;
        return B_;
    }

private:
    Dyn d_;
    typename Base::state_matrix_t A_;
    typename Base::state_control_matrix_t B_;
};

struct MeasDef
{
    double c = 1, sq = 0, tv = 0, w = 1;
    double g(double t) const { return c * (1 + tv * std::sin(2 * t)); }
    void h(const double* x, double t, int m, double* y) const
    {
        y[0] = g(t) * x[0] + sq * x[0] * x[0];
        if (m > 1)
            y[1] = 0.7 * x[1] + 0.2 * g(t) * x[0];
    }
};

template <int N, int M>
class Meas : public LinearMeasurementModel<M, N>
{
public:
    EIGEN_MAKE_ALIGNED_OPERATOR_NEW
    typedef LinearMeasurementModel<M, N> Base;
    Meas(const MeasDef& d) : d_(d) {}
    typename Base::output_vector_t computeMeasurement(const typename Base::state_vector_t& x, const double& t = 0) override
    {
        typename Base::output_vector_t y;
        hook_point();
        d_.h(x.data(), t, M, y.data());
        return y;
    }
    typename Base::output_state_matrix_t computeDerivativeState(const typename Base::state_vector_t& x, const double& t) override
    {
        typename Base::output_state_matrix_t H;
        H.setZero();
        H(0, 0) = d_.g(t) + 2 * d_.sq * x(0);
        if (M > 1)
        {
            H(M - 1, 0) = 0.2 * d_.g(t);
            H(M - 1, 1) = 0.7;
        }
        hook_point();
        return H;
    }
    typename Base::output_matrix_t computeDerivativeNoise(const typename Base::state_vector_t& x, const double& t) override
    {
        hook_point();
        return d_.w * Base::output_matrix_t::Identity();
    }

private:
    MeasDef d_;
};

typedef ct::core::SensitivityApproximationSettings SAS;
struct Cfg
{
    int kind;  // 0 EKF, 1 UKF, 2 steady-state
    Dyn dyn;
    MeasDef meas;
    bool lti;
    int approx;  // 0 forward, 1 backward, 2 Tustin, 3 exponential, 4 symplectic
    int rk4;
    bool linearizer;
    bool jitter;
    double dt;
    int k0;
    double fv;  // scaling of the process noise
    double alpha, beta, kappa;
};

// small matrices of the reference, independent of Eigen
struct Mx
{
    int r = 0, k = 0;
    double a[24] = {0};
    Mx() {}
    Mx(int rows, int cols = 1) : r(rows), k(cols) {}
    template <class D>
    Mx(const Eigen::MatrixBase<D>& m) : r((int)m.rows()), k((int)m.cols())
    {
        for (int i = 0; i < r; i++)
            for (int j = 0; j < k; j++)
                (*this)(i, j) = m(i, j);
    }
    static Mx I(int n, double s = 1)
    {
        Mx m(n, n);
        for (int i = 0; i < n; i++)
            m(i, i) = s;
        return m;
    }
    double& operator()(int i, int j = 0) { return a[i * k + j]; }
    double operator()(int i, int j = 0) const { return a[i * k + j]; }
    Mx col(int j) const
    {
        Mx m(r);
        for (int i = 0; i < r; i++)
            m(i) = (*this)(i, j);
        return m;
    }
    void col(int j, const Mx& v)
    {
        for (int i = 0; i < r; i++)
            (*this)(i, j) = v(i);
    }
    Mx t() const
    {
        Mx m(k, r);
        for (int i = 0; i < r; i++)
            for (int j = 0; j < k; j++)
                m(j, i) = (*this)(i, j);
        return m;
    }
    double norm() const
    {
        double s = 0;
        for (int i = 0; i < r * k; i++)
            s += a[i] * a[i];
        return std::sqrt(s);
    }
    Mx inv() const  // Gauss-Jordan with pivoting
    {
        Mx m = *this, o = I(r);
        for (int c = 0; c < r; c++)
        {
            int p = c;
            for (int i = c + 1; i < r; i++)
                if (std::fabs(m(i, c)) > std::fabs(m(p, c)))
                    p = i;
            for (int j = 0; j < r; j++)
            {
                std::swap(m(p, j), m(c, j));
                std::swap(o(p, j), o(c, j));
            }
            double d = 1 / m(c, c);
            for (int j = 0; j < r; j++)
                m(c, j) *= d, o(c, j) *= d;
            for (int i = 0; i < r; i++)
                if (i != c)
                {
                    double q = m(i, c);
                    for (int j = 0; j < r; j++)
                        m(i, j) -= q * m(c, j), o(i, j) -= q * o(c, j);
                }
        }
        return o;
    }
    template <class E>
    void to(E& e) const
    {
        for (int i = 0; i < r; i++)
            for (int j = 0; j < k; j++)
                e(i, j) = (*this)(i, j);
    }
};
Mx operator+(Mx x, const Mx& y)
{
    for (int i = 0; i < x.r * x.k; i++)
        x.a[i] += y.a[i];
    return x;
}
Mx operator*(double s, Mx x)
{
    for (int i = 0; i < x.r * x.k; i++)
        x.a[i] *= s;
    return x;
}
Mx operator-(const Mx& x, const Mx& y) { return x + (-1.0) * y; }
Mx operator*(const Mx& x, const Mx& y)
{
    Mx m(x.r, y.k);
    for (int i = 0; i < x.r; i++)
        for (int j = 0; j < y.k; j++)
            for (int l = 0; l < x.k; l++)
                m(i, j) += x(i, l) * y(l, j);
    return m;
}
typedef Mx Vx;

struct Op
{
    int kind = 0;  // 0 predict, 1 update, 2 setEstimate, 3 setQ, 4 setR, 5 setMeasurementModel, 6 read
    double u = 0, dt = 0, t = 0;
    Vx y, x;       // argument; estimate afterwards
    Mx m, P;
    MeasDef meas;
    bool threw = false;
    bool lti = false;
    bool hasP = false;
};

// ---- reference
struct Ref
{
    Cfg c;
    int n, m;
    Vx x;
    Mx P, Q, R, A;
    MeasDef md;

    Vx f(const Vx& s, double u, double dt, double t) const
    {
        auto d = [&](const Vx& z, double tt) {
            double r[2];
            c.dyn.rhs(z.a, tt, u + (n > 2 ? z(2) : 0), r);
            Vx o(n);
            o(0) = r[0];
            o(1) = r[1];
            return o;
        };
        Vx k1 = d(s, t);
        if (!c.rk4)
            return s + dt * k1;
        Vx k2 = d(s + 0.5 * dt * k1, t + 0.5 * dt), k3 = d(s + 0.5 * dt * k2, t + 0.5 * dt), k4 = d(s + dt * k3, t + dt);
        return s + dt / 6 * (k1 + 2 * k2 + 2 * k3 + k4);
    }
    Mx Ac(const Vx& s, double t) const
    {
        Mx a(n, n);
        a(0, 1) = 1;
        a(1, 0) = -c.dyn.stiff(t) * std::cos(s(0));
        a(1, 1) = -c.dyn.b;
        if (n > 2)
            a(1, 2) = 1;
        return a;
    }
    Mx F(const Vx& s, double dt, double t) const
    {
        Mx I = Mx::I(n), a = Ac(s, t);
        switch (c.approx)
        {
            case 0:
                return I + dt * a;
            case 1:
                return (I - dt * Ac(s, t + dt)).inv();
            case 2:
                return (I - 0.5 * dt * Ac(s, t + dt)).inv() * (I + 0.5 * dt * a);
            case 3:
            {
                Mx r = I, p = I;
                for (int k = 1; k < 25; k++)
                {
                    p = (dt / k) * p * a;
                    r = r + p;
                }
                return r;
            }
            default:
            {
                Mx r = I;  // positions first, then velocities with the new positions
                r(0, 1) = dt;
                r(1, 0) = dt * a(1, 0);
                r(1, 1) = 1 + dt * a(1, 1) + dt * dt * a(1, 0);
                return r;
            }
        }
    }
    Vx hx(const Vx& s, double t) const
    {
        Vx y(m);
        md.h(s.a, t, m, y.a);
        return y;
    }
    Mx H(const Vx& s, double t) const
    {
        Mx r(m, n);
        r(0, 0) = md.g(t) + 2 * md.sq * s(0);
        if (m > 1)
        {
            r(1, 0) = 0.2 * md.g(t);
            r(1, 1) = 0.7;
        }
        return r;
    }
    // sigma points of the current estimate
    bool sigma(Mx& S, Vx& wm, Vx& wc) const
    {
        double L = n, lam = c.alpha * c.alpha * (L + c.kappa) - L;
        Mx l(n, n);
        for (int i = 0; i < n; i++)
            for (int j = 0; j <= i; j++)
            {
                double s = P(i, j);
                for (int k = 0; k < j; k++)
                    s -= l(i, k) * l(j, k);
                if (i == j)
                {
                    if (!(s > 0))
                        return false;
                    l(i, i) = std::sqrt(s);
                } else
                    l(i, j) = s / l(j, j);
            }
        S = Mx(n, 2 * n + 1);
        S.col(0, x);
        for (int i = 0; i < n; i++)
        {
            S.col(1 + i, x + std::sqrt(L + lam) * l.col(i));
            S.col(1 + n + i, x - std::sqrt(L + lam) * l.col(i));
        }
        wm = Vx(2 * n + 1);
        for (int i = 0; i < wm.r; i++)
            wm(i) = 1 / (2 * (L + lam));
        wc = wm;
        wm(0) = lam / (L + lam);
        wc(0) = wm(0) + 1 - c.alpha * c.alpha + c.beta;
        return true;
    }
    bool predict(double u, double dt, double t)
    {
        if (c.kind == 1)
        {
            Mx S;
            Vx wm, wc;
            if (!sigma(S, wm, wc))
                return false;
            for (int i = 0; i < S.k; i++)
                S.col(i, f(S.col(i), u, dt, t));
            x = S * wm;
            P = Mx::I(n, c.fv);
            for (int i = 0; i < S.k; i++)
                P = P + wc(i) * (S.col(i) - x) * (S.col(i) - x).t();
            return true;
        }
        A = F(x, dt, t);
        if (c.kind == 0)
            P = A * P * A.t() + c.fv * c.fv * dt * Q;
        x = f(x, u, dt, t);
        return true;
    }
    bool update(const Vx& y, double t)
    {
        if (c.kind == 1)
        {
            Mx S;
            Vx wm, wc;
            if (!sigma(S, wm, wc))
                return false;
            Mx Y(m, S.k);
            for (int i = 0; i < S.k; i++)
                Y.col(i, hx(S.col(i), t));
            Vx yh = Y * wm;
            Mx Pyy = Mx::I(m, md.w), Pxy(n, m);
            for (int i = 0; i < S.k; i++)
            {
                Pyy = Pyy + wc(i) * (Y.col(i) - yh) * (Y.col(i) - yh).t();
                Pxy = Pxy + wc(i) * (S.col(i) - x) * (Y.col(i) - yh).t();
            }
            Mx K = Pxy * Pyy.inv();
            x = x + K * (y - yh);
            P = P - K * Pyy * K.t();
            return true;
        }
        Mx C = H(x, t);
        if (c.kind == 2)
        {
            Mx p(n, n), K;
            for (int i = 0; i < 20000; i++)
            {
                K = A * p * C.t() * (C * p * C.t() + R).inv();
                Mx q = A * p * A.t() + Q - K * C * p * A.t();
                double d = (q - p).norm();
                p = q;
                if (d < 1e-13)
                    break;
            }
            x = x + K * (y - hx(x, t));
            return true;
        }
        Mx K = P * C.t() * (C * P * C.t() + md.w * md.w * R).inv();
        x = x + K * (y - hx(x, t));
        P = P - K * C * P;
        return true;
    }
};

struct Msg
{
    Vx y;
    double t;
    int64_t due;
};

template <int N, int M>
struct Est
{
    typedef EstimatorBase<N, 1, M> Base;
    typedef ct::core::SensitivityApproximation<N, 1, N / 2, N / 2> SA;
    typedef ct::core::StateMatrix<N> SM;
    Cfg c;
    std::shared_ptr<ct::core::ControlledSystem<N, 1>> sys;
    std::shared_ptr<SA> sa;
    std::shared_ptr<Base> est;
    ExtendedKalmanFilter<N, 1, M>* ekf = nullptr;
    std::vector<Op> ops;
    Ref ref;
    std::mutex mtx;
    std::deque<Msg> queue;
    std::mutex qmtx;

    std::shared_ptr<LinearMeasurementModel<M, N>> measModel(const MeasDef& d, bool lti)
    {
        if (lti)
        {
            ct::core::OutputStateMatrix<M, N> C;
            C.setZero();
            C(0, 0) = d.c;
            if (M > 1)
            {
                C(M - 1, 0) = 0.2 * d.c;
                C(M - 1, 1) = 0.7;
            }
            ct::core::OutputMatrix<M> W;
            W.setIdentity();
            W *= d.w;
            return std::shared_ptr<LinearMeasurementModel<M, N>>(new LTIMeasurementModel<M, N>(C, W));
        }
        return std::shared_ptr<LinearMeasurementModel<M, N>>(new Meas<N, M>(d));
    }
    static std::shared_ptr<ct::core::ControlledSystem<2, 1>> mk2(const Dyn& d) { return std::shared_ptr<ct::core::ControlledSystem<2, 1>>(new Sys(d)); }
    void mkSys(std::shared_ptr<ct::core::ControlledSystem<2, 1>>& s, const Dyn& d) { s = mk2(d); }
    void mkSys(std::shared_ptr<ct::core::ControlledSystem<3, 1>>& s, const Dyn& d)
    {
        s.reset(new InputDisturbedSystem<2, 1>(mk2(d)));
    }

    void make(const Cfg& cfg, Est* from, const Vx& x0, const Mx& P0, const Mx& Q, const Mx& R)
    {
        c = cfg;
        static const SAS::APPROXIMATION ap[] = {
            SAS::APPROXIMATION::FORWARD_EULER, SAS::APPROXIMATION::BACKWARD_EULER, SAS::APPROXIMATION::TUSTIN, SAS::APPROXIMATION::MATRIX_EXPONENTIAL, SAS::APPROXIMATION::SYMPLECTIC_EULER};
        if (from)
        {  // a second estimator from copies of the first one's objects
            sys.reset(from->sys->clone());
            sa.reset(from->sa->clone());
        }
        else
        {
            mkSys(sys, c.dyn);
            std::shared_ptr<ct::core::LinearSystem<N, 1>> lin;
            if (c.linearizer)
                lin.reset(new ct::core::SystemLinearizer<N, 1>(sys));
            else
                lin.reset(new Lin<N>(c.dyn));
            sa.reset(new SA(sim::PB("other_dt", 30) ? 0.5 * c.dt : c.dt, lin, ap[c.approx]));
        }
        SM fv = SM::Identity() * c.fv, q, p0;
        Q.to(q);
        P0.to(p0);
        ct::core::OutputMatrix<M> r;
        R.to(r);
        ct::core::StateVector<N> s0;
        x0.to(s0);
        std::shared_ptr<SystemModelBase<N, 1>> f(new CTSystemModel<N, 1>(sys, sa, fv, c.rk4 ? ct::core::IntegrationType::RK4CT : ct::core::IntegrationType::EULERCT));
        auto h = measModel(c.meas, c.lti);
        if (c.kind == 0)
        {
            ekf = new ExtendedKalmanFilter<N, 1, M>(f, h, q, r, s0, p0);
            est.reset(ekf);
        }
        else if (c.kind == 1)
            est.reset(new UnscentedKalmanFilter<N, 1, M>(f, h, s0, c.alpha, c.beta, c.kappa, p0));
        else
            est.reset(new SteadyStateKalmanFilter<N, 1, M>(f, h, q, r, s0, 100000));
        ref.c = c;
        ref.n = N;
        ref.m = M;
        ref.x = x0;
        ref.P = P0;
        ref.Q = Q;
        ref.R = R;
        ref.md = c.meas;
    }
    void after(Op& o, Vx ret)
    {
        o.x = est->getEstimate();
        if (!o.threw && o.kind < 2)
            SIM_CHECK((ret - o.x).norm() == 0, "returned-estimate", "the call returned an estimate different from getEstimate()");
        if (ekf)
        {
            o.P = ekf->getCovarianceMatrix();
            o.hasP = true;
        }
        ops.push_back(o);
    }
    bool predict(double u, double dt, double t)
    {
        std::lock_guard<std::mutex> g(mtx);
        Op o;
        o.kind = 0;
        o.u = u;
        o.dt = dt;
        o.t = t;
        ct::core::ControlVector<1> uv;
        uv << u;
        Vx ret;
        try
        {
            ret = est->predict(uv, dt, t);
        } catch (UserError&)
        {
            o.threw = true;
        }
        after(o, ret);
        return !o.threw;
    }
    bool update(const Vx& y, double dt, double t)
    {
        std::lock_guard<std::mutex> g(mtx);
        Op o;
        o.kind = 1;
        o.y = y;
        o.dt = dt;
        o.t = t;
        ct::core::OutputVector<M> yv;
        y.to(yv);
        Vx ret;
        try
        {
            ret = est->update(yv, dt, t);
        } catch (UserError&)
        {
            o.threw = true;
        }
        after(o, ret);
        return !o.threw;
    }
    void tune(int what, const Vx& x, const Mx& q, const Mx& r, const MeasDef& md, bool lti)
    {
        std::lock_guard<std::mutex> g(mtx);
        Op o;
        o.kind = what;
        if (what == 2)
        {
            ct::core::StateVector<N> s;
            x.to(s);
            est->setEstimate(s);
            o.y = x;
        }
        else if (what == 3)
        {
            if (!ekf)
                return;
            SM v;
            q.to(v);
            ekf->setQ(v);
            o.m = q;
        }
        else if (what == 4)
        {
            if (!ekf)
                return;
            ct::core::OutputMatrix<M> v;
            r.to(v);
            ekf->setR(v);
            o.m = r;
        }
        else if (what == 5)
        {
            o.meas = md;
            o.lti = lti;
            est->setMeasurementModel(measModel(md, lti));
        }
        after(o, Vx());
    }
    void verify(int id)
    {
        double tol = c.linearizer ? 2e-4 : 1e-7;
        if (c.kind == 2)
            tol = 3e-3;
        double worst = 0;
        bool wild = false;
        for (size_t i = 0; i < ops.size() && !wild; i++)
        {
            Op& o = ops[i];
            static const char* names[] = {"predict", "update", "setEstimate", "setQ", "setR", "setMeasurementModel", "getEstimate"};
            if (!o.threw)
            {
                bool ok = true;
                switch (o.kind)
                {
                    case 0:
                        ok = ref.predict(o.u, o.dt, o.t);
                        break;
                    case 1:
                        ok = ref.update(o.y, o.t);
                        sim::probe("updated");
                        break;
                    case 2:
                        ref.x = o.y;
                        break;
                    case 3:
                        ref.Q = o.m;
                        break;
                    case 4:
                        ref.R = o.m;
                        break;
                    case 5:
                        ref.md = o.meas;
                        break;
                }
                if (!ok || !fin(ref.x.norm()) || !fin(ref.P.norm()) || ref.x.norm() > 1e4 || ref.P.norm() > 1e4)
                    wild = true;
            }
            else
                sim::probe("failed_call");
            if (wild)
                break;
            double e = (ref.x - o.x).norm() / (1 + ref.x.norm());
            worst = std::max(worst, e);
            SIM_CHECK(e <= tol, o.threw ? "failed-call-changed-estimate" : "wrong-estimate", "estimator %d, call %zu (%s%s, t=%.6g): estimate (%.9g, %.9g), the filter equations give (%.9g, %.9g)", id, i,
                names[o.kind], o.threw ? ", failed" : "", o.t, o.x(0), o.x(1), ref.x(0), ref.x(1));
            if (o.hasP)
            {
                double ep = (ref.P - o.P).norm() / (1e-3 + ref.P.norm());
                SIM_CHECK(ep <= 10 * tol, o.threw ? "failed-call-changed-covariance" : "wrong-covariance",
                    "estimator %d, call %zu (%s%s, t=%.6g): covariance diagonal (%.9g, %.9g), the filter equations give (%.9g, %.9g)", id, i, names[o.kind], o.threw ? ", failed" : "", o.t,
                    o.P(0, 0), o.P(1, 1), ref.P(0, 0), ref.P(1, 1));
                SIM_CHECK((o.P - o.P.t()).norm() <= 1e-6 * (1 + o.P.norm()), "asymmetric-covariance", "estimator %d, call %zu: covariance not symmetric", id, i);
            }
            if (c.kind == 2)
                ref.x = o.x;  // the gain is only as exact as its iteration; do not accumulate
            for (int j = 0; j < N; j++)
                sim::logd(o.x(j));
        }
        sim::probe_if(!wild && ops.size() > 5, "compared");
        sim::probe_if(N == 3 && !wild, "disturbance");
        sim::probe_if(c.kind == 1 && !wild, "ukf");
        sim::probe_if(c.kind == 2 && !wild, "steady_state");
    }
};

double now() { return 1e-9 * (double)sim::now(); }

template <int N, int M>
void go(bool failing)
{
    typedef Est<N, M> E;
    Cfg c;
    c.kind = (int)sim::P("kind", 0, 4) - 2;
    if (c.kind < 0)
        c.kind = 0;
    c.dyn.a = sim::PR("a", 0.5, 4);
    c.dyn.b = sim::PR("b", 0, 0.5);
    c.jitter = sim::PB("jitter", 30);
    c.dyn.tv = !c.jitter && sim::PB("tv", 50) ? 0.4 : 0;
    c.lti = sim::PB("lti", 40);
    c.meas.c = sim::PR("c", 0.5, 2);
    c.meas.w = sim::PR("w", 0.5, 1.5);
    if (!c.lti)
    {
        c.meas.sq = sim::PR("sq", 0, 0.2);
        c.meas.tv = sim::PB("meas_tv", 50) ? 0.5 : 0;
    }
    c.approx = (int)sim::P("approx", 0, N == 2 ? 4 : 3);
    c.rk4 = sim::PB("rk4", 50);
    c.linearizer = sim::PB("linearizer", 40);
    c.dt = 0.01 * (double)sim::P("dt", 1, 10);
    c.k0 = sim::PB("late", 50) ? (int)sim::P("k0", 1, 2000) : 0;
    c.fv = sim::PR("fv", 0.5, 1.5);
    c.alpha = sim::PR("alpha", 0.3, 1);
    c.beta = sim::PR("beta", 0, 2);
    c.kappa = sim::PR("kappa", 0, 1);
    auto diag = [](const char* n, int k, double lo, double hi) {
        Mx d(k, k);
        for (int i = 0; i < k; i++)
            d(i, i) = sim::PR(n, lo, hi);
        return d;
    };
    if (c.kind == 2 && N == 3)
        c.kind = 0;  // without process noise model for the disturbance the Riccati iteration is slow; covered with two states

    sim::race_detection(true);
    sim::set_step_budget(2000000, 1000000000ull);
    if (sim::PB("plain_preempt", 30))
        sim::preempt_plain((int)sim::P("plain_mean", 20, 5000));
    hooks().yields = sim::PB("yields", 40);
    static const double pt[] = {0.003, 0.02, 0.1};
    hooks().p_throw = failing ? pt[sim::P("p_throw", 0, 2)] : 0;
    hooks().armed = false;

    int nEst = sim::PB("two", 40) ? 2 : 1;
    std::vector<std::unique_ptr<E>> es;
    for (int i = 0; i < nEst; i++)
    {
        es.emplace_back(new E);
        Cfg ci = c;
        if (i && sim::PB("other_kind", 50))
            ci.kind = N == 3 ? (int)sim::P("kind2", 0, 1) : (int)sim::P("kind2", 0, 2);
        Vx x0(N);
        for (int k = 0; k < N; k++)
            x0(k) = sim::PR("x0", -0.5, 0.5);
        Mx P0 = diag("P0", N, 0.01, 1), Q = diag("Q", N, 0.05, 0.5), R = diag("R", M, 0.05, 1);
        es[i]->make(ci, i ? es[0].get() : nullptr, x0, P0, Q, R);
    }
    for (auto& e : es)  // it has no gain before its first prediction
        if (e->c.kind == 2)
            e->predict(0, c.dt, c.k0 * c.dt);
    hooks().armed = true;
    int steps = (int)sim::P("steps", 3, 15);
    int64_t period = (int64_t)(c.dt * 1e9);
    int64_t start = sim::now();
    double pLost = sim::PB("loss", 50) ? 0.3 : 0, pDup = sim::PB("dups", 50) ? 0.3 : 0, pLate = sim::PB("delays", 50) ? 0.4 : 0;

    std::thread sensor([&] {
        double x[3] = {0.2, 0, 0};
        double t = c.k0 * c.dt;
        Dyn truth = c.dyn;
        for (int k = 0; k < steps; k++)
        {
            double d[2];
            for (int j = 0; j < 10; j++)
            {
                truth.rhs(x, t, 0.1 + 0.2, d);
                x[0] += 0.1 * c.dt * d[0];
                x[1] += 0.1 * c.dt * d[1];
                t += 0.1 * c.dt;
            }
            sim::busy(period);
            for (auto& e : es)
            {
                if (pLost > 0 && sim::fault("meas_lost", pLost))
                    continue;
                Msg m;
                m.y = Vx(M);
                e->c.meas.h(x, t, M, m.y.a);
                for (int j = 0; j < M; j++)
                    m.y(j) += 0.05 * sim::PR("noise", -1, 1);
                m.t = t;
                m.due = sim::now();
                if (pLate > 0 && sim::fault("meas_late", pLate))
                    m.due += period * sim::P("late_by", 1, 30) / 10;
                std::lock_guard<std::mutex> g(e->qmtx);
                e->queue.push_back(m);
                if (pDup > 0 && sim::fault("meas_dup", pDup))
                {
                    m.due += period * sim::P("dup_late", 0, 30) / 10;
                    e->queue.push_back(m);
                }
                sim::probe("measured");
            }
        }
    });
    std::vector<std::thread> workers;
    for (auto& ep : es)
        workers.emplace_back([&, e = ep.get()] {
            double t = c.k0 * c.dt;
            for (int k = 0; k < steps + 3; k++)
            {
                sim::busy(period);
                std::vector<Msg> got;
                {
                    std::lock_guard<std::mutex> g(e->qmtx);
                    for (size_t i = 0; i < e->queue.size();)
                        if (e->queue[i].due <= sim::now())
                        {
                            got.push_back(e->queue[i]);
                            e->queue.erase(e->queue.begin() + i);
                        }
                        else
                            i++;
                }
                double dt = c.jitter ? c.dt * sim::PR("dt_jitter", 0.3, 2) : c.dt;
                for (auto& m : got)
                {
                    bool again = sim::PB("retry_update", 50);
                    if (!e->update(m.y, dt, m.t) && again)
                        e->update(m.y, dt, m.t);
                }
                double tk = c.jitter ? t : (c.k0 + k) * c.dt;
                double u = sim::PR("u", -0.5, 0.5);
                for (int tries = 0; tries < 5 && !e->predict(u, dt, tk); tries++)
                    sim::probe("retried_predict");
                t += dt;
            }
        });
    std::thread tuner([&] {
        int n = (int)sim::P("tunings", 0, 5);
        for (int k = 0; k < n; k++)
        {
            sim::busy(period * sim::P("tune_wait", 0, 40) / 10);
            E& e = *es[sim::P("tune_which", 0, nEst - 1)];
            int what = (int)sim::P("tune_what", 2, 6);
            Vx x(N);
            for (int i = 0; i < N; i++)
                x(i) = sim::PR("tune_x", -0.5, 0.5);
            Mx q = diag("tune_Q", N, 0.05, 0.5), r = diag("tune_R", M, 0.05, 1);
            MeasDef md = e.c.meas;
            md.c = sim::PR("tune_c", 0.5, 2);
            bool lti = sim::PB("tune_lti", 40);
            if (lti)
                md.sq = md.tv = 0;
            e.tune(what, x, q, r, md, lti);
        }
    });
    sensor.join();
    tuner.join();
    for (auto& w : workers)
        w.join();
    hooks().armed = false;
    for (int i = 0; i < nEst; i++)
    {
        // once the faults stopped a further cycle works
        es[i]->predict(0.1, c.dt, (c.k0 + steps + 3) * c.dt);
        Vx y(M);
        es[i]->update(y, c.dt, (c.k0 + steps + 4) * c.dt);
        SIM_CHECK(!es[i]->ops.back().threw, "spurious-failure", "estimator %d failed though no model fails any more", i);
        es[i]->verify(i);
    }
    (void)start;
    sim::log(es[0]->ops.size());
}

void run(bool failing)
{
    if (sim::PB("augmented", 40))
        go<3, 2>(failing);
    else
        go<2, 1>(failing);
}

}  // namespace

extern "C" void sim_scenario(const char* sc)
{
    std::string s = sc;
    if (s == "est")
        run(false);
    else if (s == "fail")
        run(true);
    else
        sim::violation("internal", "unknown scenario %s", sc);
}
