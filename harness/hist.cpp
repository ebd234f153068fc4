// Simulation of the stateful building blocks a control loop is made of: trajectories and time-indexed policies, mode
// schedules and switched systems, PID and step controllers, noise, activations, stop watches. Several users run long
// histories of operations on their own objects (made by copying shared ones) under simulated scheduling, clocks, entropy,
// failing allocations and failing models; every answer is compared with a small reference model of the object.
#include "common.h"
#include <ct/core/core.h>
#include <mutex>
#include <random>
#include <thread>

using namespace h;
using namespace ct::core;

namespace {

typedef StateVector<2> SV;
typedef ControlVector<1> CV;
typedef FeedbackMatrix<2, 1> FB;
typedef StateTrajectory<2> Traj;
typedef StateVectorArray<2> Arr;

SV V2(double a, double b)
{
    SV x;
    x << a, b;
    return x;
}
bool near(double a, double b, double tol = 1e-11)
{
    if (std::isnan(a) || std::isnan(b))
        return std::isnan(a) && std::isnan(b);
    if (a == b)
        return true;
    return std::fabs(a - b) <= tol * (1 + std::fabs(a) + std::fabs(b));
}

struct Op
{
    int kind, a, b, n;
    double v[4];
    bool alloc;
};
std::vector<Op> drawOps(int lo, int hi, int kinds, int allocPercent)
{
    std::vector<Op> r((size_t)sim::P("n_ops", lo, hi));
    for (auto& o : r)
    {
        o.kind = (int)sim::P("op", 0, kinds - 1);
        int64_t x = sim::P("op.x", 0, 107), v = sim::P("op.v", 0, 33 * 33 * 33 * 33 - 1);
        o.a = (int)(x % 3);
        o.b = (int)(x / 3 % 3);
        o.n = (int)(x / 9);
        for (double& d : o.v)
        {
            d = 0.125 * (double)(v % 33 - 16);
            v /= 33;
        }
        o.alloc = allocPercent && sim::PB("op.alloc", allocPercent);
    }
    return r;
}

// runs f with failing allocations if the operation asks for them; returns whether it failed for that reason
template <class F>
bool failed(const Op& o, const char* what, F f)
{
    if (!o.alloc)
    {
        f();
        return false;
    }
    uint64_t before = sim::faults_fired("alloc_fail");
    sim::enable_fault("alloc_fail", 0.4);
    bool bad = false;
    try
    {
        f();
    } catch (std::bad_alloc&)
    {
        bad = true;
    } catch (...)
    {
        sim::enable_fault("alloc_fail", 0);
        throw;
    }
    sim::enable_fault("alloc_fail", 0);
    if (bad)
    {
        SIM_CHECK(sim::faults_fired("alloc_fail") != before, "spurious-failure", "%s reports missing memory though there was enough", what);
        sim::probe("alloc_failed");
    }
    return bad;
}

// ---------------------------------------------------------------------------------------------- trajectories
struct Ref
{
    std::vector<double> t;
    std::vector<SV, Eigen::aligned_allocator<SV>> d;
    InterpolationType type = ZOH;
    bool ok() const { return !t.empty() && t.size() == d.size(); }
    size_t index(double q) const  // the last stamp not later than q
    {
        size_t i = 0;
        for (size_t k = 0; k < t.size(); k++)
            if (t[k] <= q)
                i = k;
        return i;
    }
    SV eval(double q) const
    {
        if (t.size() == 1 || q < t.front())
            return d.front();
        size_t i = index(q);
        if (i + 1 == t.size())
            return d.back();
        if (type == ZOH)
            return d[i];
        double al = (q - t[i]) / (t[i + 1] - t[i]);
        return (1 - al) * d[i] + al * d[i + 1];
    }
};
double query(const Ref& r, const Op& o)
{
    if (r.t.empty())
        return o.v[0];
    switch (o.n % 5)
    {
        case 0: return r.t.front() + o.v[0];
        case 1: return r.t.back() + o.v[0] * 0.5;
        case 2: return r.t[(size_t)o.n * 7 % r.t.size()];  // exactly on a stamp
        case 3:
        {
            size_t i = (size_t)o.n * 5 % r.t.size(), k = std::min(i + 1, r.t.size() - 1);
            return 0.5 * (r.t[i] + r.t[k]);
        }
        default: return r.t.front() + (r.t.back() - r.t.front()) * (o.v[1] + 2) / 4;
    }
}
void sameTraj(const Traj& c, const Ref& r, const char* what)
{
    SIM_CHECK(c.getTimeArray().size() == r.t.size() && c.getDataArray().size() == r.d.size(), "trajectory-content",
        "after %s the trajectory has %zu stamps and %zu points instead of %zu and %zu", what, c.getTimeArray().size(),
        c.getDataArray().size(), r.t.size(), r.d.size());
    for (size_t i = 0; i < r.t.size(); i++)
        SIM_CHECK(near(c.getTimeFromIndex(i), r.t[i]) && near(c.getTimeArray()[i], r.t[i]), "trajectory-content",
            "after %s stamp %zu is %.15g instead of %.15g", what, i, c.getTimeFromIndex(i), r.t[i]);
    for (size_t i = 0; i < r.d.size(); i++)
        SIM_CHECK(near(c[i](0), r.d[i](0)) && near(c[i](1), r.d[i](1)), "trajectory-content", "after %s point %zu is (%.15g, %.15g) instead of (%.15g, %.15g)",
            what, i, c[i](0), c[i](1), r.d[i](0), r.d[i](1));
    if (r.ok())
    {
        SIM_CHECK(c.size() == r.t.size() && near(c.startTime(), r.t.front()) && near(c.finalTime(), r.t.back()) &&
                      near(c.duration(), r.t.back() - r.t.front()),
            "trajectory-content", "after %s size, start, end or duration of the trajectory are wrong", what);
        SIM_CHECK(near(c.front()(0), r.d.front()(0)) && near(c.back()(1), r.d.back()(1)), "trajectory-content", "after %s first or last point is wrong", what);
    }
}

template <class F>
bool throws(F f)
{
    try
    {
        f();
    } catch (std::exception&)
    {
        return true;
    }
    return false;
}

struct Reg
{
    std::unique_ptr<Traj> c;
    Ref r;
};

std::mutex boxMutex;
std::unique_ptr<Traj> box;  // trajectories handed from one user to another
Ref boxRef;

void trajUser(const std::vector<Op>& ops, const Traj& shared, const Ref& sharedRef)
{
    Reg g[3];
    for (auto& x : g)
    {
        x.c.reset(new Traj(shared));
        x.r = sharedRef;
    }
    for (const Op& o : ops)
    {
        Reg &x = g[o.a], &y = g[o.b];
        Ref n = x.r;  // the reference after the operation
        const char* what = "";
        bool bad = false;
        sim::yield();
        switch (o.kind)
        {
            case 0:
                what = "construction from stamps and points";
                {
                    TimeArray ta;
                    Arr da;
                    n = Ref();
                    n.type = o.b ? LIN : ZOH;
                    double t = o.v[0];
                    for (int i = 0; i < o.n; i++)
                    {
                        ta.push_back(t);
                        da.push_back(V2(o.v[1] + i, o.v[2] * i));
                        n.t.push_back(t);
                        n.d.push_back(V2(o.v[1] + i, o.v[2] * i));
                        t += (o.n > 8 && i % 3 == 1) ? 0.0 : 0.125 * (1 + (i * 5 + o.b) % 4);  // sometimes two points at one time
                    }
                    std::unique_ptr<Traj> nt;
                    bad = failed(o, what, [&]() { nt.reset(new Traj(ta, da, n.type)); });
                    if (bad)
                        continue;  // nothing was made
                    x.c = std::move(nt);
                }
                break;
            case 1:
                what = "construction with equal spacing";
                {
                    int k = 1 + o.n;
                    Arr da(k, V2(0, 0));
                    double dt = 0.0625 * (1 + o.b), t0 = o.v[0];
                    n = Ref();
                    n.type = o.n % 2 ? LIN : ZOH;
                    for (int i = 0; i < k; i++)
                    {
                        da[i] = V2(o.v[1] - i, o.v[2] * i * i);
                        n.d.push_back(da[i]);
                        n.t.push_back(t0 + i * dt);
                    }
                    std::unique_ptr<Traj> nt;
                    bad = failed(o, what, [&]() { nt.reset(new Traj(da, dt, t0, n.type)); });
                    if (bad)
                        continue;
                    x.c = std::move(nt);
                }
                break;
            case 2:
            case 3:
                what = "push_back";
                {
                    if (n.t.size() != n.d.size())
                        continue;
                    bool abs = n.t.empty() || o.n % 2;
                    double step = 0.125 * (o.n % 4), last = n.t.empty() ? o.v[3] : n.t.back();
                    SV p = V2(o.v[0], o.v[1]);
                    n.t.push_back(last + step);
                    n.d.push_back(p);
                    bad = failed(o, what, [&]() { x.c->push_back(p, abs ? last + step : step, abs); });
                }
                break;
            case 4:
                what = "pop_back";
                if (!n.ok())
                    continue;
                n.t.pop_back();
                n.d.pop_back();
                x.c->pop_back();
                break;
            case 5:
                what = "eraseFront";
                {
                    if (n.t.size() != n.d.size())
                        continue;
                    size_t k = n.t.empty() ? 0 : (size_t)o.n % (n.t.size() + 1);
                    double dt = o.b == 0 ? 0 : o.v[0];
                    n.t.erase(n.t.begin(), n.t.begin() + k);
                    n.d.erase(n.d.begin(), n.d.begin() + k);
                    for (double& t : n.t)
                        t -= dt;
                    if (o.b == 0)
                        x.c->eraseFront(k);
                    else
                        x.c->eraseFront(k, dt);
                }
                break;
            case 6:
                what = "shiftTime";
                for (double& t : n.t)
                    t -= o.v[0];
                x.c->shiftTime(o.v[0]);
                break;
            case 7:
                what = "swapData";
                if (o.a == o.b)
                    continue;
                std::swap(n.t, y.r.t);
                std::swap(n.d, y.r.d);
                x.c->swapData(*y.c);
                sameTraj(*y.c, y.r, what);
                break;
            case 8:
                what = "assignment";
                n = y.r;
                bad = failed(o, what, [&]() { *x.c = *y.c; });
                break;
            case 9:
                what = "copying";
                {
                    n = y.r;
                    std::unique_ptr<Traj> nt;
                    bad = failed(o, what, [&]() { nt.reset(new Traj(static_cast<const Traj&>(*y.c))); });
                    if (bad)
                        continue;
                    x.c = std::move(nt);
                }
                break;
            case 10:
                what = "extraction";
                {
                    if (!y.r.ok())
                        continue;
                    size_t i = (size_t)o.n % y.r.t.size(), k = i + (size_t)(o.n / 3) % (y.r.t.size() - i);
                    n = Ref();
                    n.type = y.r.type;
                    n.t.assign(y.r.t.begin() + i, y.r.t.begin() + k + 1);
                    n.d.assign(y.r.d.begin() + i, y.r.d.begin() + k + 1);
                    std::unique_ptr<Traj> nt;
                    bad = failed(o, what, [&]() { nt.reset(new Traj(*y.c, i, k)); });
                    if (bad)
                        continue;
                    x.c = std::move(nt);
                }
                break;
            case 11:
                what = "setData";
                {
                    Arr da;
                    n.d.clear();
                    int k = o.b == 0 ? o.n : (int)n.t.size();
                    for (int i = 0; i < k; i++)
                    {
                        da.push_back(V2(o.v[0] * i, o.v[1] - i));
                        n.d.push_back(V2(o.v[0] * i, o.v[1] - i));
                    }
                    bad = failed(o, what, [&]() { x.c->setData(da); });
                }
                break;
            case 12:
                what = "setTime";
                {
                    TimeArray ta;
                    n.t.clear();
                    int k = o.b == 0 ? o.n : (int)n.d.size();
                    double t = o.v[0];
                    for (int i = 0; i < k; i++)
                    {
                        ta.push_back(t);
                        n.t.push_back(t);
                        t += 0.125 * (1 + (i * 3 + o.n) % 4);
                    }
                    bad = failed(o, what, [&]() { x.c->setTime(ta); });
                }
                break;
            case 13:
                what = "setInterpolationType";
                n.type = o.n % 2 ? LIN : ZOH;
                x.c->setInterpolationType(n.type);
                break;
            case 14:
                what = "clear";
                if (o.n > 3)
                    continue;
                n.t.clear();
                n.d.clear();
                x.c->clear();
                break;
            case 15:
                what = "writing points";
                if (n.d.empty())
                    continue;
                if (o.b == 0)
                {
                    n.d.front() = V2(o.v[0], o.v[1]);
                    x.c->front() = V2(o.v[0], o.v[1]);
                }
                else if (o.b == 1)
                {
                    n.d.back() = V2(o.v[0], o.v[1]);
                    x.c->back() = V2(o.v[0], o.v[1]);
                }
                else
                {
                    n.d[(size_t)o.n % n.d.size()] = V2(o.v[0], o.v[1]);
                    (*x.c)[(size_t)o.n % n.d.size()] = V2(o.v[0], o.v[1]);
                }
                break;
            case 16:
                what = "handing over";
                {
                    std::lock_guard<std::mutex> l(boxMutex);
                    if (o.n % 2)
                    {
                        box.reset(new Traj(*x.c));
                        boxRef = n;
                    }
                    else if (box)
                    {
                        x.c = std::move(box);
                        n = boxRef;
                    }
                }
                break;
            case 17:
                what = "getIndexFromTime";
                {
                    double q = query(n, o);
                    if (n.t.empty())
                    {
                        SIM_CHECK(throws([&]() { x.c->getIndexFromTime(q); }), "missing-error", "looking up a time in an empty trajectory gives an index");
                        sim::probe("looked_up_empty");
                        break;
                    }
                    size_t want = n.index(q), got = 99999;
                    try
                    {
                        got = x.c->getIndexFromTime(q);
                    } catch (std::exception& e)
                    {
                        sim::violation("lookup-failed", "looking up time %.9g in a trajectory of %zu stamps reports: %s", q, n.t.size(), e.what());
                    }
                    SIM_CHECK(got == want, "wrong-index", "time %.9g has index %zu, expected %zu of %zu", q, got, want, n.t.size());
                }
                break;
            default:
                what = "eval";
                {
                    double q = query(n, o);
                    if (!n.ok())
                    {
                        SIM_CHECK(throws([&]() { x.c->eval(q); }), "missing-error", "evaluating a trajectory of %zu stamps and %zu points gives a result",
                            n.t.size(), n.d.size());
                        SIM_CHECK(n.t.empty() || throws([&]() { x.c->size(); }), "missing-error", "a trajectory of %zu stamps and %zu points has a size",
                            n.t.size(), n.d.size());
                        sim::probe("evaluated_inconsistent");
                        break;
                    }
                    SV want = n.eval(q), got;
                    try
                    {
                        got = x.c->eval(q);
                    } catch (std::exception& e)
                    {
                        sim::violation("lookup-failed", "evaluating at %.9g a trajectory of %zu points reports: %s", q, n.t.size(), e.what());
                    }
                    sim::logd(got(0));
                    SIM_CHECK(near(got(0), want(0)) && near(got(1), want(1)), "wrong-value",
                        "trajectory of %zu points (%s) at time %.9g is (%.12g, %.12g), expected (%.12g, %.12g)", n.t.size(),
                        n.type == ZOH ? "zero order hold" : "linear", q, got(0), got(1), want(0), want(1));
                    sim::probe(n.type == ZOH ? "evaluated_zoh" : "evaluated_linear");
                }
        }
        if (bad)
        {
            // an operation that ran out of memory: the object can be given a new content
            Traj fresh(shared);
            *x.c = fresh;
            x.r = sharedRef;
            n = sharedRef;
            sameTraj(*x.c, n, "assignment after an operation that ran out of memory");
            continue;
        }
        x.r = n;
        if (o.kind != 7 || o.a != o.b)
            sameTraj(*x.c, x.r, what);
    }
}

// ---------------------------------------------------------------------------------------------- arrays
void arrayUser(const std::vector<Op>& ops)
{
    Arr a[3];
    std::vector<SV, Eigen::aligned_allocator<SV>> r[3];
    for (const Op& o : ops)
    {
        Arr &x = a[o.a], &y = a[o.b];
        auto &rx = r[o.a], &ry = r[o.b];
        sim::yield();
        const char* what = "";
        bool same = rx.size() == ry.size();
        auto refused = [&](std::function<void()> f) { SIM_CHECK(throws(f), "missing-error", "%s of arrays of %zu and %zu points gives a result", what, rx.size(), ry.size()); };
        switch (o.kind % 12)
        {
            case 0:
                what = "construction";
                {
                    x = Arr(o.n, V2(o.v[0], o.v[1]));
                    rx.assign((size_t)o.n, V2(o.v[0], o.v[1]));
                }
                break;
            case 1:
            case 2:
                what = "push_back";
                {
                    bool bad = failed(o, what, [&]() { x.push_back(V2(o.v[0], o.v[1])); });
                    if (!bad)
                        rx.push_back(V2(o.v[0], o.v[1]));
                }
                break;
            case 3:
                what = "+";
                if (!same)
                {
                    refused([&]() { Arr z = x + y; });
                    break;
                }
                {
                    Arr z = x + y;
                    x = z;
                    auto t = ry;
                    for (size_t i = 0; i < rx.size(); i++)
                        rx[i] += t[i];
                }
                break;
            case 4:
                what = "-";
                if (!same)
                {
                    refused([&]() { Arr z = x - y; });
                    break;
                }
                {
                    Arr z = x - y;
                    x = z;
                    auto t = ry;
                    for (size_t i = 0; i < rx.size(); i++)
                        rx[i] -= t[i];
                }
                break;
            case 5:
                what = "+= or -=";
                if (!same)
                {
                    refused([&]() { o.n % 2 ? x += y : x -= y; });
                    break;
                }
                {
                    auto t = ry;
                    if (o.n % 2)
                        x += y;
                    else
                        x -= y;
                    for (size_t i = 0; i < rx.size(); i++)
                        rx[i] = o.n % 2 ? SV(rx[i] + t[i]) : SV(rx[i] - t[i]);
                }
                break;
            case 6:
                what = "* or /";
                {
                    double f = o.v[0] == 0 ? 2 : o.v[0];
                    x = o.n % 2 ? y * f : y / f;
                    auto t = ry;
                    for (auto& e : t)
                        e = o.n % 2 ? SV(e * f) : SV(e / f);
                    rx = t;
                    for (auto& e : rx)
                        if (e.cwiseAbs().maxCoeff() > 1e6)
                        {
                            x.clear();
                            rx.clear();
                            break;
                        }
                }
                break;
            case 7:
                what = "setConstant";
                x.setConstant(V2(o.v[0], o.v[1]));
                std::fill(rx.begin(), rx.end(), V2(o.v[0], o.v[1]));
                break;
            case 8:
                what = "addOffset";
                x.addOffset(V2(o.v[0], o.v[1]));
                for (auto& e : rx)
                    e += V2(o.v[0], o.v[1]);
                break;
            case 9:
                what = "eraseFront";
                {
                    size_t k = (size_t)o.n % (rx.size() + 1);
                    x.eraseFront(k);
                    rx.erase(rx.begin(), rx.begin() + k);
                }
                break;
            case 10:
                what = "swap, assignment or copying";
                if (o.n % 3 == 0 && o.a != o.b)
                {
                    x.swap(y);
                    rx.swap(ry);
                }
                else if (o.n % 3 == 1)
                {
                    x = y;
                    rx = ry;
                }
                else if (o.n % 3 == 2)
                {
                    size_t k = (size_t)o.n % (ry.size() + 1);
                    Arr z(y.begin() + k, y.end()), w(z);
                    x = w;
                    rx = decltype(r[0].size() ? r[0] : r[0])(ry);
                    rx.erase(rx.begin(), rx.begin() + k);
                }
                break;
            case 11:
                what = "resize";
                x.resize(o.n, V2(o.v[0], o.v[1]));
                rx.resize(o.n, V2(o.v[0], o.v[1]));
                break;
        }
        for (int k = 0; k < 3; k++)
        {
            SIM_CHECK(a[k].size() == r[k].size(), "array-content", "after %s an array has %zu points instead of %zu", what, a[k].size(), r[k].size());
            for (size_t i = 0; i < r[k].size(); i++)
                SIM_CHECK(near(a[k][i](0), r[k][i](0)) && near(a[k][i](1), r[k][i](1)), "array-content", "after %s point %zu is (%.12g, %.12g) instead of (%.12g, %.12g)",
                    what, i, a[k][i](0), a[k][i](1), r[k][i](0), r[k][i](1));
        }
    }
}

// ---------------------------------------------------------------------------------------------- time-indexed policies
typedef StateFeedbackController<2, 1> SFC;
struct PolRef
{
    Ref x;
    std::vector<double> tu;  // stamps of feedforward and feedback
    std::vector<double> u, k0, k1;
    InterpolationType type = ZOH;
    double at(const std::vector<double>& d, double q) const
    {
        if (d.size() == 1 || q < tu.front())
            return d.front();
        size_t i = 0;
        for (size_t k = 0; k < tu.size(); k++)
            if (tu[k] <= q)
                i = k;
        if (i + 1 == tu.size())
            return d.back();
        if (type == ZOH)
            return d[i];
        double al = (q - tu[i]) / (tu[i + 1] - tu[i]);
        return (1 - al) * d[i] + al * d[i + 1];
    }
    double control(const SV& s, double q) const
    {
        SV r = x.eval(q);
        return at(u, q) + at(k0, q) * (s(0) - r(0)) + at(k1, q) * (s(1) - r(1));
    }
    double control(const SV& s, int n) const { return u[n] + k0[n] * (s(0) - x.d[n](0)) + k1[n] * (s(1) - x.d[n](1)); }
};
void fill(const Op& o, int K, PolRef& p, Arr& x, ControlVectorArray<1>& u, FeedbackArray<2, 1>& k, TimeArray& t)
{
    double s = o.v[0];
    p.x.t.clear();
    p.x.d.clear();
    p.tu.clear();
    p.u.clear();
    p.k0.clear();
    p.k1.clear();
    x.clear();
    u.clear();
    k.clear();
    t.clear();
    for (int i = 0; i <= K; i++)
    {
        SV e = V2(o.v[1] + i * 0.25, o.v[2] * i);
        x.push_back(e);
        p.x.d.push_back(e);
        t.push_back(s);
        p.x.t.push_back(s);
        if (i < K)
        {
            u.push_back(CV::Constant(o.v[3] - i));
            FB f;
            f << 0.25 * i - o.v[1], 1.0 - 0.5 * i;
            k.push_back(f);
            p.tu.push_back(s);
            p.u.push_back(o.v[3] - i);
            p.k0.push_back(f(0, 0));
            p.k1.push_back(f(0, 1));
        }
        s += 0.125 * (1 + (i * 3 + o.n) % 3);
    }
}
void policyUser(const std::vector<Op>& ops, const SFC& shared, const PolRef& sharedRef)
{
    struct G
    {
        std::unique_ptr<SFC> c;
        PolRef r;
    } g[3];
    for (auto& x : g)
    {
        x.c.reset(shared.clone());
        x.r = sharedRef;
    }
    for (const Op& o : ops)
    {
        G& x = g[o.a];
        sim::yield();
        const char* what = "";
        switch (o.kind % 9)
        {
            case 0:
                what = "construction";
                {
                    PolRef p;
                    Arr xr;
                    ControlVectorArray<1> u;
                    FeedbackArray<2, 1> k;
                    TimeArray t;
                    fill(o, 1 + o.n, p, xr, u, k, t);
                    p.type = p.x.type = o.b ? LIN : ZOH;
                    double dt = 0.125 * (1 + o.n % 3);
                    for (size_t i = 0; i < p.x.t.size(); i++)
                        p.x.t[i] = o.v[0] + i * dt;
                    for (size_t i = 0; i < p.tu.size(); i++)
                        p.tu[i] = o.v[0] + i * dt;
                    x.c.reset(new SFC(xr, u, k, dt, o.v[0], p.type));
                    x.r = p;
                }
                break;
            case 1:
            case 2:
                what = "update";
                {
                    PolRef p = x.r;
                    Arr xr;
                    ControlVectorArray<1> u;
                    FeedbackArray<2, 1> k;
                    TimeArray t;
                    fill(o, 1 + o.n, p, xr, u, k, t);
                    if (o.b == 2)
                    {
                        // parts that do not fit together are refused and nothing changes
                        if (o.n % 3 == 0)
                            u.push_back(u.back());
                        else if (o.n % 3 == 1)
                            k.push_back(k.back());
                        else
                            xr.pop_back();
                        SIM_CHECK(throws([&]() { x.c->update(xr, u, k, t); }), "missing-error", "a policy of mismatching lengths was accepted");
                        sim::probe("policy_refused");
                    }
                    else
                    {
                        bool bad = failed(o, what, [&]() { x.c->update(xr, u, k, t); });
                        if (bad)
                            x.c->update(xr, u, k, t);
                        x.r = p;
                    }
                }
                break;
            case 3:
                what = "clone";
                x.c.reset(g[o.b].c->clone());
                x.r = PolRef(g[o.b].r);
                break;
            case 4:
                what = "shifting the policy in time";
                x.c->getReferenceStateTrajectory().shiftTime(o.v[0]);
                x.c->getFeedforwardTrajectory().shiftTime(o.v[0]);
                x.c->getFeedbackTrajectory().shiftTime(o.v[0]);
                for (double& t : x.r.x.t)
                    t -= o.v[0];
                for (double& t : x.r.tu)
                    t -= o.v[0];
                break;
            case 5:
                what = "extracting the controls";
                {
                    Arr xs;
                    size_t K = x.r.tu.size();
                    for (size_t i = 0; i <= K; i++)
                        xs.push_back(V2(o.v[0] + i, o.v[1] * i));
                    Traj xt(xs, 0.25, o.v[2]);
                    ControlTrajectory<1> ut;
                    ut.push_back(CV::Constant(99), 0, true);
                    x.c->extractControlTrajectory(xt, ut);
                    SIM_CHECK(ut.size() == K, "policy-control", "%zu controls extracted for %zu stages", ut.size(), K);
                    for (size_t i = 0; i < K; i++)
                        SIM_CHECK(near(ut[i](0), x.r.control(xs[i], (int)i)) && near(ut.getTimeFromIndex(i), o.v[2] + 0.25 * i), "policy-control",
                            "extracted control %zu is %.12g instead of %.12g", i, ut[i](0), x.r.control(xs[i], (int)i));
                }
                break;
            case 6:
                what = "control of a stage";
                {
                    int k = o.n % (int)x.r.tu.size();
                    CV u;
                    SV s = V2(o.v[0], o.v[1]);
                    x.c->computeControl(s, k, u);
                    SIM_CHECK(near(u(0), x.r.control(s, k)), "policy-control", "control of stage %d is %.12g instead of %.12g", k, u(0), x.r.control(s, k));
                }
                break;
            default:
                what = "control at a time";
                {
                    double q = query(x.r.x, o);
                    CV u;
                    SV s = V2(o.v[2], o.v[3]);
                    x.c->computeControl(s, q, u);
                    double w = x.r.control(s, q);
                    sim::logd(u(0));
                    SIM_CHECK(near(u(0), w), "policy-control", "control at time %.9g of a policy over %.9g..%.9g is %.12g instead of %.12g", q, x.r.x.t.front(),
                        x.r.x.t.back(), u(0), w);
                    sim::probe("policy_control");
                }
        }
        SIM_CHECK(x.c->x_ref().size() == x.r.x.d.size() && x.c->uff().size() == x.r.u.size() && x.c->K().size() == x.r.u.size() &&
                      x.c->time().size() == x.r.x.t.size(),
            "policy-content", "after %s the parts of the policy have other lengths than what was given", what);
        for (size_t i = 0; i < x.r.x.d.size(); i++)
            SIM_CHECK(near(x.c->x_ref()[i](0), x.r.x.d[i](0)) && near(x.c->time()[i], x.r.x.t[i]) &&
                          (i >= x.r.u.size() || (near(x.c->uff()[i](0), x.r.u[i]) && near(x.c->K()[i](0, 1), x.r.k1[i]))),
                "policy-content", "after %s stage %zu of the policy is not what was given", what, i);
    }
}

// ---------------------------------------------------------------------------------------------- mode schedules
struct ModeSys : ControlledSystem<2, 1>
{
    EIGEN_MAKE_ALIGNED_OPERATOR_NEW
    double m_, tmp_ = 0;
    ModeSys(double m) : ControlledSystem<2, 1>(SYSTEM_TYPE::GENERAL), m_(m) {}
    ModeSys(const ModeSys& o) : ControlledSystem<2, 1>(o), m_(o.m_) {}
    ModeSys* clone() const override { return new ModeSys(*this); }
    void computeControlledDynamics(const SV& x, const double& t, const CV& u, SV& d) override
    {
        tmp_ = m_ * x(0) + t;
        hook_point();
        d = V2(tmp_ + u(0), m_ - x(1));
    }
};
struct ModeDisc : DiscreteControlledSystem<2, 1>
{
    EIGEN_MAKE_ALIGNED_OPERATOR_NEW
    double m_, tmp_ = 0;
    ModeDisc(double m) : DiscreteControlledSystem<2, 1>(SYSTEM_TYPE::GENERAL), m_(m) {}
    ModeDisc(const ModeDisc& o) : DiscreteControlledSystem<2, 1>(o), m_(o.m_) {}
    ModeDisc* clone() const override { return new ModeDisc(*this); }
    void propagateControlledDynamics(const SV& x, const int n, const CV& u, SV& xn) override
    {
        tmp_ = m_ * x(0) + n;
        hook_point();
        xn = V2(tmp_ + u(0), m_ - x(1));
    }
};
template <class T>
struct SeqRef
{
    T t0;
    std::vector<std::pair<size_t, T>> p;  // mode and duration
    std::vector<T> ends() const
    {
        std::vector<T> e;
        T t = t0;
        for (auto& q : p)
            e.push_back(t = t + q.second);
        return e;
    }
    size_t idx(T t) const
    {
        std::vector<T> e = ends();
        for (size_t i = 0; i + 1 < p.size(); i++)
            if (t < e[i])
                return i;
        return p.size() - 1;
    }
};
template <class T>
void checkSeq(const PhaseSequence<size_t, T>& s, const SeqRef<T>& r, T q)
{
    std::vector<T> e = r.ends();
    SIM_CHECK(s.getNumPhases() == r.p.size(), "schedule", "a schedule of %zu phases has %zu", r.p.size(), s.getNumPhases());
    if (r.p.empty())
        return;
    SIM_CHECK(s.getNumSwitches() == r.p.size() - 1 && near(s.getTotalDuration(), e.back() - r.t0) && s.getFirstPhase() == r.p.front().first &&
                  s.getFinalPhase() == r.p.back().first,
        "schedule", "number of switches, duration, first or final phase of a schedule of %zu phases are wrong", r.p.size());
    size_t i = r.idx(q);
    SIM_CHECK(s.getIdxFromTime(q) == i && s.getPhaseFromTime(q) == r.p[i].first, "schedule", "time %g is in phase number %zu (mode %zu) instead of %zu (mode %zu)",
        (double)q, s.getIdxFromTime(q), s.getPhaseFromTime(q), i, r.p[i].first);
    SIM_CHECK(s.getPhaseFromIdx(i) == r.p[i].first && s.getStartTimeFromIdx(i) == (i ? e[i - 1] : r.t0) && s.getEndTimeFromIdx(i) == e[i], "schedule",
        "phase %zu is not what was added", i);
    if (i + 1 < r.p.size())
    {
        auto a = s.getSwitchEventFromTime(q), b = s.getSwitchEventFromIdx(i);
        SIM_CHECK(a.pre_phase == r.p[i].first && a.post_phase == r.p[i + 1].first && a.switch_time == e[i] && b.post_phase == a.post_phase &&
                      b.switch_time == a.switch_time,
            "schedule", "the next switch after time %g is %zu -> %zu at %g instead of %zu -> %zu at %g", (double)q, a.pre_phase, a.post_phase,
            (double)a.switch_time, r.p[i].first, r.p[i + 1].first, (double)e[i]);
    }
    sim::probe("schedule_queried");
}
void modeUser(const std::vector<Op>& ops, const SwitchedControlledSystem<2, 1>& sharedC, const SeqRef<double>& rc,
    const SwitchedDiscreteControlledSystem<2, 1>& sharedD, const SeqRef<int>& rd)
{
    std::unique_ptr<SwitchedControlledSystem<2, 1>> c(sharedC.clone());
    std::unique_ptr<SwitchedDiscreteControlledSystem<2, 1>> d(sharedD.clone());
    SeqRef<double> mc{0.5, {}};
    SeqRef<int> md{-2, {}};
    PhaseSequence<size_t, double> sc(0.5);
    PhaseSequence<size_t, int> sd(-2);
    for (const Op& o : ops)
    {
        sim::yield();
        SV x = V2(o.v[1], o.v[2]);
        CV u = CV::Constant(o.v[3]);
        auto time = [&](const SeqRef<double>& r) {
            std::vector<double> e = r.ends();
            return o.n % 3 == 0 && !e.empty() ? e[(size_t)o.n % e.size()] : r.t0 + 1.5 * o.v[0];
        };
        auto step = [&](const SeqRef<int>& r) {
            std::vector<int> e = r.ends();
            return o.n % 3 == 0 && !e.empty() ? e[(size_t)o.n % e.size()] - o.b % 2 : r.t0 + (int)(4 * o.v[0]);
        };
        switch (o.kind % 7)
        {
            case 0:
                sc.addPhase((size_t)o.n, 0.125 * (1 + o.b));
                mc.p.emplace_back((size_t)o.n, 0.125 * (1 + o.b));
                sd.addPhase((size_t)o.n, 1 + o.b);
                md.p.emplace_back((size_t)o.n, 1 + o.b);
                break;
            case 1:
                checkSeq<double>(sc, mc, time(mc));
                checkSeq<int>(sd, md, step(md));
                break;
            case 2:
            case 3:
            case 4:
            {
                double t = time(rc);
                SV dx;
                bool thrown = false;
                uint64_t before = sim::faults_fired("user_exception");
                try
                {
                    c->computeControlledDynamics(x, t, u, dx);
                } catch (UserError&)
                {
                    thrown = true;
                }
                if (thrown)
                {
                    sim::probe("mode_failed");
                    break;
                }
                (void)before;
                double m = 1.0 + (double)rc.p[rc.idx(t)].first;
                SIM_CHECK(near(dx(0), m * x(0) + t + u(0)) && near(dx(1), m - x(1)), "switched-system",
                    "at time %.9g the derivative is (%.12g, %.12g), mode %g gives (%.12g, %.12g)", t, dx(0), dx(1), m - 1, m * x(0) + t + u(0), m - x(1));
                sim::probe("switched");
                break;
            }
            case 5:
            {
                int n = step(rd);
                SV xn;
                bool thrown = false;
                try
                {
                    d->propagateControlledDynamics(x, n, u, xn);
                } catch (UserError&)
                {
                    thrown = true;
                }
                if (thrown)
                    break;
                double m = 1.0 + (double)rd.p[rd.idx(n)].first;
                SIM_CHECK(near(xn(0), m * x(0) + n + u(0)) && near(xn(1), m - x(1)), "switched-system",
                    "at step %d the next state is (%.12g, %.12g), mode %g gives (%.12g, %.12g)", n, xn(0), xn(1), m - 1, m * x(0) + n + u(0), m - x(1));
                break;
            }
            case 6:
                c.reset(c->clone());
                d.reset(d->clone());
                break;
        }
    }
}

template <class F>
void users(int n, F f)
{
    std::vector<std::thread> th;
    for (int i = 1; i < n; i++)
        th.emplace_back(f, i);
    f(0);
    for (auto& t : th)
        t.join();
    sim::probe_if(n > 1, "several_users");
}
void environment()
{
    hooks().yields = true;
    if (sim::PB("model_fails", 40))
    {
        hooks().armed = true;
        hooks().p_throw = 0.1;
    }
    sim::race_detection(true);
    if (sim::PB("plain_preempt", 50))
        sim::preempt_plain((int)sim::P("plain_mean", 3, 400));
    sim::set_step_budget(400000, 200000000ull);
}

void run_traj()
{
    int n = (int)sim::P("users", 1, 3), what = (int)sim::P("subject", 0, 5);
    int alloc = n == 1 && sim::PB("alloc_faults", 60) ? 20 : 0;
    std::vector<std::vector<Op>> ops;
    for (int i = 0; i < n; i++)
        ops.push_back(drawOps(1, 40, 24, alloc));
    box.reset();
    environment();
    if (what <= 2)
    {
        Ref r;
        r.type = sim::PB("linear", 50) ? LIN : ZOH;
        TimeArray t;
        Arr d;
        int k = (int)sim::P("points", 0, 6);
        for (int i = 0; i < k; i++)
        {
            t.push_back(0.25 * i * i - 1);
            d.push_back(V2(i, -0.5 * i));
            r.t.push_back(0.25 * i * i - 1);
            r.d.push_back(V2(i, -0.5 * i));
        }
        const Traj shared(t, d, r.type);
        users(n, [&](int i) { trajUser(ops[i], shared, r); });
        sameTraj(shared, r, "use of its copies");
    }
    else if (what == 3)
        users(n, [&](int i) { arrayUser(ops[i]); });
    else if (what == 4)
    {
        PolRef p;
        Arr xr;
        ControlVectorArray<1> u;
        FeedbackArray<2, 1> k;
        TimeArray t;
        Op o{0, 0, 0, 1, {0.5, 1, 0.25, -0.5}, false};
        fill(o, (int)sim::P("stages", 1, 5), p, xr, u, k, t);
        p.type = p.x.type = sim::PB("linear", 50) ? LIN : ZOH;
        for (size_t i = 0; i < p.x.t.size(); i++)
            p.x.t[i] = 0.25 * i;
        for (size_t i = 0; i < p.tu.size(); i++)
            p.tu[i] = 0.25 * i;
        const SFC shared(xr, u, k, 0.25, 0, p.type);
        users(n, [&](int i) { policyUser(ops[i], shared, p); });
    }
    else
    {
        SeqRef<double> rc{-1, {}};
        SeqRef<int> rd{1, {}};
        PhaseSequence<size_t, double> sc(-1);
        PhaseSequence<size_t, int> sd(1);
        SwitchedControlledSystem<2, 1>::SwitchedSystems cs;
        SwitchedDiscreteControlledSystem<2, 1>::SwitchedSystems ds;
        int modes = (int)sim::P("modes", 1, 3), phases = (int)sim::P("phases", 1, 6);
        for (int i = 0; i < modes; i++)
        {
            cs.push_back(std::make_shared<ModeSys>(1.0 + i));
            ds.push_back(std::make_shared<ModeDisc>(1.0 + i));
        }
        for (int i = 0; i < phases; i++)
        {
            size_t m = (size_t)sim::P("mode", 0, modes - 1);
            int len = (int)sim::P("length", 1, 4);
            sc.addPhase(m, 0.25 * len);
            rc.p.emplace_back(m, 0.25 * len);
            sd.addPhase(m, len);
            rd.p.emplace_back(m, len);
        }
        SwitchedControlledSystem<2, 1> c(cs, sc);
        SwitchedDiscreteControlledSystem<2, 1> d(ds, sd);
        cs.clear();
        ds.clear();
        users(n, [&](int i) { modeUser(ops[i], c, rc, d, rd); });
    }
    sim::disable_faults();
    box.reset();
}

// ---------------------------------------------------------------------------------------------- controllers, signals
typedef PIDController<double> Pid;
struct PidRef
{
    double kp, ki, kd, dt, imax, umax, umin, xd, vd, prev = 0, I = 0;
    double control(double x, bool hasV, double v)
    {
        double e = xd - x;
        I = std::max(-imax, std::min(imax, I + ki * e * dt));
        double u = kp * e + I + kd * (vd - (hasV ? v : (x - prev) / dt));
        prev = x;
        return std::max(umin, std::min(umax, u));
    }
};
void pidUser(const std::vector<Op>& ops)
{
    auto par = [](const Op& o, PidRef& r) {
        r.kp = o.v[0];
        r.ki = o.v[1];
        r.kd = o.v[2];
        r.dt = 0.0625 * (1 + o.n % 4);
        double lim = std::numeric_limits<double>::max();
        r.imax = o.b == 0 ? lim : std::fabs(o.v[3]);
        r.umax = o.b == 1 ? lim : 1.5 + o.v[3] * 0.5;
        r.umin = o.b == 1 ? -lim : -1.25;
        return Pid::parameters_t(r.kp, r.ki, r.kd, r.dt, r.imax, r.umax, r.umin);
    };
    struct G
    {
        std::unique_ptr<Pid> c;
        PidRef r;
    } g[3];
    Op z{0, 0, 1, 0, {1, 0.5, 0.25, 1}, false};
    for (auto& x : g)
    {
        auto p = par(z, x.r);
        x.r.xd = x.r.vd = 0;
        x.c.reset(new Pid(p));
    }
    double t = 0;
    for (const Op& o : ops)
    {
        G& x = g[o.a];
        sim::yield();
        t += 0.125;
        switch (o.kind % 12)
        {
            case 0: x.c->changeParameters(par(o, x.r)); break;
            case 1: x.c->Parameters() = par(o, x.r); break;
            case 2:
                x.c->setInitialState(o.v[0]);
                x.r.prev = o.v[0];
                break;
            case 3:
                x.c->setDesiredState(o.v[0]);
                x.r.xd = o.v[0];
                break;
            case 4:
                x.c->setDesiredState(o.v[0], o.v[1]);
                x.r.xd = o.v[0];
                x.r.vd = o.v[1];
                break;
            case 5:
                x.c->reset();
                x.r.prev = x.r.I = 0;
                break;
            case 6:
                x.c.reset(g[o.b].c->clone());
                x.r = PidRef(g[o.b].r);
                break;
            default:
            {
                bool v = o.n % 3 == 0;
                double w = x.r.control(o.v[0], v, o.v[1]);
                double u = v ? x.c->computeControl(o.v[0], o.v[1], t) : x.c->computeControl(o.v[0], t);
                sim::logd(u);
                SIM_CHECK(near(u, w), "pid", "the controller's output is %.12g instead of %.12g (error %.9g, integral part %.9g, limits %.9g..%.9g)", u, w,
                    x.r.xd - o.v[0], x.r.I, x.r.umin, x.r.umax);
                sim::probe("pid");
                sim::probe_if(u == x.r.umax || u == x.r.umin, "saturated");
            }
        }
    }
}
void quantUser(const std::vector<Op>& ops)
{
    typedef QuantizationNoise Q;
    bool round = ops[0].n % 2;
    double bias = ops[0].v[0], q = 0.25 * (1 << ops[0].b);
    Q c(bias, q, round ? Q::ROUND : Q::FLOOR);
    std::vector<double> rest(16, 0.0);
    double in = 0, out = 0;
    auto model = [&](double v, size_t i) {
        double cur = v + rest[i], k = round ? std::round(cur / q) : std::floor(cur / q);
        rest[i] = cur - k * q;
        return k * q + bias;
    };
    for (const Op& o : ops)
    {
        sim::yield();
        switch (o.kind % 6)
        {
            case 0:
                if (o.n < 4)
                {
                    c.reset();
                    std::fill(rest.begin(), rest.end(), 0.0);
                    in = out = 0;
                }
                break;
            case 1:
            {
                SV v = V2(o.v[0], o.v[1]);
                Eigen::Matrix<double, 2, 1> w = v;
                c.noisify<2>(w);
                double a = model(v(0), 0), b = model(v(1), 1);
                in += v(0);
                out += a - bias;
                SIM_CHECK(near(w(0), a) && near(w(1), b), "quantization", "(%.9g, %.9g) is quantised to (%.9g, %.9g) instead of (%.9g, %.9g)", v(0), v(1), w(0), w(1), a, b);
                break;
            }
            default:
            {
                size_t i = o.kind % 6 == 2 ? (size_t)o.n : 0;
                double v = o.v[0] + 0.03125 * o.n, w = v;
                if (i == 0 && o.b)
                    c.noisify(w);
                else
                    c.noisify(w, i);
                double m = model(v, i);
                if (i == 0)
                {
                    in += v;
                    out += m - bias;
                }
                SIM_CHECK(near(w, m), "quantization", "channel %zu: %.9g is quantised to %.9g instead of %.9g", i, v, w, m);
                sim::probe("quantised");
            }
        }
        // nothing is lost: what came out differs from what went in by less than one quantum
        SIM_CHECK(std::fabs(in - out) <= q * (1 + 1e-9), "quantization", "channel 0: %.9g came out of %.9g, more than a quantum of %.9g apart", out, in, q);
    }
}
template <class N>
void noiseRun(const std::vector<Op>& ops, bool gauss)
{
    double mean = ops[0].v[0], width = std::fabs(ops[0].v[1]) + 0.25;
    std::unique_ptr<N> c;
    try
    {
        c.reset(new N(mean, width));
    } catch (std::exception&)
    {
        sim::probe("no_entropy");
        return;
    }
    double s = 0, s2 = 0;
    int n = 0;
    auto take = [&](double v) {
        v -= mean;
        SIM_CHECK(std::isfinite(v) && std::fabs(v) <= (gauss ? 9 * width : width * (1 + 1e-12)), "noise", "a sample of noise of mean %g and width %g is %g", mean, width, v + mean);
        s += v;
        s2 += v * v;
        n++;
    };
    for (size_t i = 0; i < ops.size(); i++)
        for (int k = 0; k < 40; k++)
        {
            const Op& o = ops[i];
            if (k == 0)
                sim::yield();
            if (o.kind % 4 == 0)
                take((*c)());
            else if (o.kind % 4 == 1)
            {
                Eigen::Matrix<double, 3, 1> v = c->template gen<3>();
                SIM_CHECK(v(0) != v(1) && v(1) != v(2), "noise", "the entries of a noise vector are equal");
                for (int j = 0; j < 3; j++)
                    take(v(j));
            }
            else if (o.kind % 4 == 2)
            {
                double x = o.v[2];
                c->noisify(x);
                take(x - o.v[2]);
            }
            else
            {
                Eigen::Matrix<double, 2, 1> x;
                x << o.v[2], o.v[3];
                c->template noisify<2>(x);
                take(x(0) - o.v[2]);
                take(x(1) - o.v[3]);
            }
        }
    if (n < 400)
        return;
    double var = gauss ? width * width : width * width / 3, m = s / n, v = s2 / n - m * m;
    SIM_CHECK(std::fabs(m) < 7 * std::sqrt(var / n), "noise", "the mean of %d samples is off by %g", n, m);
    SIM_CHECK(std::fabs(v / var - 1) < 10 * std::sqrt(2.0 / n), "noise", "the variance of %d samples is %g instead of %g", n, v, var);
    sim::probe("noise");
}
void timerUser(const std::vector<Op>& ops)
{
    struct G
    {
        Timer c;
        ExternallyDrivenTimer e;
        int64_t lo0 = 0, hi0 = 0, lo1 = 0, hi1 = 0;
        double e0 = 0, e1 = 0;
        bool started = false, stopped = false;
    } g[3];
    double t = 0;
    for (const Op& o : ops)
    {
        G& x = g[o.a];
        sim::busy(1000 * (1 + o.n * 37));
        t += 0.125 * o.n;
        switch (o.kind % 6)
        {
            case 0:
                x.lo0 = sim::now();
                x.c.start();
                x.hi0 = sim::now();
                x.e.start(t);
                x.e0 = t;
                x.started = true;
                break;
            case 1:
                x.lo1 = sim::now();
                x.c.stop();
                x.hi1 = sim::now();
                x.e.stop(t);
                x.e1 = t;
                x.stopped = true;
                break;
            case 2:
                if (o.n > 3)
                    break;
                x.c.reset();
                x.e.reset();
                x.e0 = x.e1 = 0;
                x.lo0 = x.hi0 = x.lo1 = x.hi1 = 0;
                x.started = x.stopped = false;
                break;
            case 3:
                if (o.n > 6)
                    sim::jump_realtime((int64_t)(o.v[0] * 1e9));
                break;
            case 4:
                x = g[o.b];
                break;
            default:
            {
                SIM_CHECK(near(x.e.getElapsedTime(), x.e1 - x.e0), "timer", "an external timer started at %g and stopped at %g shows %g", x.e0, x.e1, x.e.getElapsedTime());
                if (x.started != x.stopped)
                    break;
                double el = x.c.getElapsedTime() * 1e9;
                SIM_CHECK(el >= (double)(x.lo1 - x.hi0) - 2 && el <= (double)(x.hi1 - x.lo0) + 2, "timer", "the stop watch shows %.0f ns, between start and stop were %lld..%lld ns",
                    el, (long long)(x.lo1 - x.hi0), (long long)(x.hi1 - x.lo0));
                sim::probe("timed");
            }
        }
    }
}
void activationUser(const std::vector<Op>& ops)
{
    for (const Op& o : ops)
    {
        sim::yield();
        double on = o.v[0], off = o.v[0] + std::fabs(o.v[1]), t = o.n % 3 == 0 ? on : o.n % 3 == 1 ? off : o.v[2] * 2;
        switch (o.kind % 4)
        {
            case 0:
            {
                SingleActivation a(on, off), b(a);
                bool w = t >= on && t < off;
                SIM_CHECK(a.isActive(t) == w && b.isActive(t) == w && a.computeActivation(t) == 1, "activation", "active %g..%g: wrong at %g", on, off, t);
                break;
            }
            case 1:
            {
                ct::core::LinearActivation a(on, off, o.v[3], 0.5), b(a);
                bool w = t >= on && t < off;
                SIM_CHECK(a.isActive(t) == w && b.isActive(t) == w && near(b.computeActivation(t), 0.5 + o.v[3] * (t - on)), "activation",
                    "active linearly %g..%g: wrong at %g", on, off, t);
                break;
            }
            case 2:
            {
                double ub = off, lb = on, al = 0.5 * (1 + o.b);
                BarrierActivation a(ub, lb, al);
                if (o.n % 4 == 1)
                    a.setLowerBoundOnly(lb, al);
                if (o.n % 4 == 2)
                    a.setUpperBoundOnly(ub, al);
                double u = o.n % 4 == 1 ? 0 : std::exp(al * (t - ub)), l = o.n % 4 == 2 ? 0 : std::exp(al * (lb - t));
                SIM_CHECK(near(a.computeActivation(t), u + l) && near(a.firstOrderDerivative(t), al * (u - l)) && near(a.secondOrderDerivative(t), al * al * (u + l)),
                    "activation", "barrier %g..%g: wrong at %g", lb, ub, t);
                break;
            }
            case 3:
            {
                double period = 0.5 * (1 + o.b), share = 0.25 * (1 + o.n % 3), ao = (1 - share) * period * 0.5, po = on;
                PeriodicActivation a(share, period, ao, po), b(a);
                double q = po + o.n * 0.3125 * period;
                double ph = std::fmod(q - po, period);
                bool w = q >= po && ph >= ao && ph < ao + share * period;
                SIM_CHECK(a.isActive(q) == w && b.isActive(q) == w, "activation", "periodic activation (offset %g, period %g, active %g..%g of it) %s at %g", po, period, ao,
                    ao + share * period, w ? "is not active" : "is active", q);
                sim::probe("periodic");
                break;
            }
        }
    }
}
void stepUser(const std::vector<Op>& ops)
{
    std::unique_ptr<StepInputController> c(new StepInputController());
    double gain = 1, ts = 1;
    for (const Op& o : ops)
    {
        sim::yield();
        if (o.kind % 5 == 0)
        {
            gain = o.v[0];
            ts = o.v[1];
            c.reset(new StepInputController(StepInputController::Parameters(gain, ts)));
        }
        else if (o.kind % 5 == 1)
            c.reset(c->clone());
        else
        {
            double t = o.n % 3 == 0 ? ts : o.v[2];
            CV u = CV::Constant(7);
            StateVector<1> x;
            x << o.v[3];
            c->computeControl(x, t, u);
            SIM_CHECK(near(u(0), t >= ts ? gain : 0), "step-input", "a step of %g at %g gives %g at %g", gain, ts, u(0), t);
        }
    }
}

void run_sig()
{
    int n = (int)sim::P("users", 1, 3);
    std::vector<std::vector<Op>> ops;
    std::vector<int> what;
    for (int i = 0; i < n; i++)
    {
        what.push_back((int)sim::P("subject", 0, 7));
        ops.push_back(drawOps(1, 50, 24, 0));
    }
    if (sim::PB("entropy_fails", 15))
        sim::enable_fault("entropy_fail", 0.5);
    environment();
    hooks().armed = false;
    // memory that was used before is not zero
    for (int i = 0; i < 40; i++)
    {
        size_t sz = 8 + 16 * (size_t)(i % 20);
        void* p = ::operator new(sz);
        for (size_t k = 0; k < sz; k++)
            static_cast<volatile unsigned char*>(p)[k] = 0xc7;
        ::operator delete(p);
    }
    users(n, [&](int i) {
        switch (what[i])
        {
            case 0:
            case 1: pidUser(ops[i]); break;
            case 2: quantUser(ops[i]); break;
            case 3: noiseRun<GaussianNoise>(ops[i], true); break;
            case 4: noiseRun<UniformNoise>(ops[i], false); break;
            case 5: timerUser(ops[i]); break;
            case 6: activationUser(ops[i]); break;
            default: stepUser(ops[i]); break;
        }
    });
    sim::disable_faults();
}

}  // namespace

extern "C" void sim_scenario(const char* sc)
{
    std::string s = sc;
    if (s == "traj")
        run_traj();
    else if (s == "sig")
        run_sig();
    else
        sim::violation("internal", "unknown scenario %s", sc);
}
