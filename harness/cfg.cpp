// Simulation of configuration loading: settings and cost functions are read from generated .info files while the
// simulated file system fails opens, fails reads, shortens reads and truncates contents. Several loads follow each other
// on the same object, and two users may load at the same time.
#include "common.h"
#include <ct/optcon/dms/dms_core/DmsSettings.h>
#include <ct/optcon/filter/FilterSettings.h>
#include <ct/optcon/mpc/MpcSettings.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <thread>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include <functional>

using namespace ct::optcon;
typedef std::string S;

namespace {

S num(double v)
{
    char b[64];
    snprintf(b, sizeof b, "%.17g", v);
    return b;
}

// ---------------------------------------------------------------------------------------------- files
struct Node
{
    S key, val;
    std::vector<Node> kids;
    bool block;
    Node(const S& k, const S& v = "", bool b = false) : key(k), val(v), block(b) {}
    Node& sub(const S& k)
    {
        for (Node& n : kids)
            if (n.key == k)
                return n;
        kids.push_back(Node(k, "", true));
        block = true;
        return kids.back();
    }
    void put(const S& path, const S& v)
    {
        size_t d = path.find('.');
        if (d == S::npos || path[0] == '(')
        {
            kids.push_back(Node(path, v));
            block = true;
        }
        else
            sub(path.substr(0, d)).put(path.substr(d + 1), v);
    }
};

struct Tags
{
    S pre;
    int64_t P(const char* n, int64_t lo, int64_t hi) const { return sim::P((pre + n).c_str(), lo, hi); }
    bool B(const char* n, int pc) const { return sim::PB((pre + n).c_str(), pc); }
    double R(const char* n, double lo, double hi) const { return sim::PR((pre + n).c_str(), lo, hi); }
};

void emit(const Tags& t, Node& n, int depth, int style, S& out)
{
    if (style & 1)
        for (size_t i = n.kids.size(); i > 1; i--)
            std::swap(n.kids[i - 1], n.kids[(size_t)t.P("order", 0, (int64_t)i - 1)]);
    for (Node& k : n.kids)
    {
        S ind((size_t)depth, style & 2 ? '\t' : ' ');
        if (style & 4)
            out += ind + "; " + k.key + " 77 {\n";
        out += ind + k.key;
        if (!k.val.empty())
            out += " " + k.val;
        if (k.block)
        {
            out += style & 8 ? " {\n" : "\n" + ind + "{\n";
            emit(t, k, depth + 1, style, out);
            out += ind + "}";
        }
        out += style & 16 ? " ; end\n" : "\n";
    }
}

struct Text
{
    std::vector<int> depth;  // brace depth after each prefix
};
std::atomic<Text*> texts[1024];

bool tear_ok(const char* path, int64_t pos)
{
    int fd = atoi(strrchr(path, '/') + 1);
    Text* x = fd >= 0 && fd < 1024 ? texts[fd].load(std::memory_order_relaxed) : nullptr;
    return x && x->depth[(size_t)pos] > 0;
}

struct File
{
    int fd;
    S path;
    Text t;
    explicit File(const S& s)
    {
        int d = 0;
        bool comment = false;
        for (char c : s)
        {
            t.depth.push_back(d);
            if (c == ';')
                comment = true;
            else if (c == '\n')
                comment = false;
            else if (!comment && c == '{')
                d++;
            else if (!comment && c == '}')
                d--;
        }
        // torn inside a comment or exactly before the end of a block: what is left has an open block either way
        fd = (int)syscall(SYS_memfd_create, "cfg", 0);
        if (fd < 0 || fd >= 1024)
            abort();
        for (size_t o = 0; o < s.size();)
        {
            ssize_t w = ::write(fd, s.data() + o, s.size() - o);
            if (w <= 0)
                abort();
            o += (size_t)w;
        }
        texts[fd].store(&t, std::memory_order_relaxed);
        path = "/proc/self/fd/" + std::to_string(fd);
    }
    ~File()
    {
        texts[fd].store(nullptr, std::memory_order_relaxed);
        close(fd);
    }
};

uint64_t harmful()
{
    return sim::faults_fired("io_open_fail") + sim::faults_fired("io_read_err") + sim::faults_fired("io_truncate");
}

// faults fired are counted per run; with two users loading at once they cannot be told apart, so each user keeps the
// count of the whole run: a failure is excused by any fault of the run then
struct Outcome
{
    bool threw;
    S what;
    bool faulty;
};
Outcome attempt(const std::function<void()>& f, bool shared)
{
    uint64_t h0 = shared ? 0 : harmful();
    Outcome o;
    o.threw = false;
    try
    {
        f();
    } catch (std::exception& e)
    {
        o.threw = true;
        o.what = e.what();
    }
    o.faulty = harmful() > h0;
    return o;
}

void judge(const Outcome& o, bool invalid, const char* name, const char* how)
{
    if (o.threw)
    {
        sim::probe("load_failed");
        SIM_CHECK(o.faulty || invalid, "spurious-failure", "%s: loading a healthy file failed: %s", name, o.what.c_str());
        return;
    }
    SIM_CHECK(!invalid, "invalid-accepted", "%s: a file with %s was loaded without a report", name, how);
    sim::probe("loaded");
    if (o.faulty)
        sim::probe("loaded_despite_fault");
}

// ---------------------------------------------------------------------------------------------- settings
typedef std::map<S, S> Vals;
template <class T>
struct Field
{
    S path;
    char kind;  // b i d s e m
    bool req;
    std::function<S(const T&)> get;
    std::vector<std::pair<S, int>> names;  // e
    int lo, hi;                            // i
    int rows, cols;                        // m
    std::function<S(const Vals&)> absent;  // value when the key is missing; null: unchanged
    S group;                               // block that is there or not as a whole
};

template <class T>
struct Spec
{
    const char* name;
    S ns;
    bool anyNs;
    std::vector<Field<T>> f;
    std::function<void(T&, const S&, const S&)> load;
    bool fresh = false;  // loading makes a new object

    Field<T>& add(const S& p, char k, bool r, std::function<S(const T&)> g, int lo = 1, int hi = 50)
    {
        Field<T> x;
        x.path = p;
        x.kind = k;
        x.req = r;
        x.get = g;
        x.lo = lo;
        x.hi = hi;
        f.push_back(x);
        return f.back();
    }
};
#define FB(SP, T, path, req, member) SP.add(path, 'b', req, [](const T& s) { return S(s.member ? "1" : "0"); })
#define FI(SP, T, path, req, member, lo, hi) SP.add(path, 'i', req, [](const T& s) { return std::to_string((long)s.member); }, lo, hi)
#define FD(SP, T, path, req, member) SP.add(path, 'd', req, [](const T& s) { return num(s.member); })
#define FS(SP, T, path, req, member) SP.add(path, 's', req, [](const T& s) { return S(s.member); })
#define FE(SP, T, path, req, member) SP.add(path, 'e', req, [](const T& s) { return std::to_string((long)s.member); })

template <class M>
S mat(const M& m)
{
    S r;
    for (int i = 0; i < m.rows(); i++)
        for (int j = 0; j < m.cols(); j++)
            r += num(m(i, j) + 0.0) + " ";
    return r;
}
#define FM(SP, T, path, member, R, C)                                                   \
    {                                                                                   \
        auto& q = SP.add(path, 'm', false, [](const T& s) { return mat(s.member); });   \
        q.rows = R;                                                                     \
        q.cols = C;                                                                     \
        q.absent = [](const Vals&) { return mat(Eigen::Matrix<double, R, C>::Zero()); }; \
    }

// draws a matrix into the block at path; returns its canonical text
S drawMatrix(const Tags& t, Node& at, const S& path, int rows, int cols)
{
    Eigen::MatrixXd m = Eigen::MatrixXd::Zero(rows, cols);
    double sc = 1;
    Node& b = at.sub(path);
    if (t.B("scaled", 40))
    {
        sc = t.R("scaling", -3, 3);
        b.put("scaling", num(sc));
    }
    for (int i = 0; i < rows; i++)
        for (int j = 0; j < cols; j++)
            if (t.B("entry", 70))
            {
                double v = t.R("value", -5, 5);
                Node n("(" + std::to_string(i) + "," + std::to_string(j) + ")", num(v));
                b.kids.push_back(n);
                m(i, j) = sc * v;
            }
    b.block = true;
    return mat(m);
}

S drawValue(const Tags& t, int kind, S& text, const std::vector<std::pair<S, int>>& names, int lo, int hi)
{
    switch (kind)
    {
        case 'b':
        {
            bool v = t.B("bool", 50);
            // both spellings are in use
            text = t.B("word", 50) ? (v ? "true" : "false") : (v ? "1" : "0");
            return v ? "1" : "0";
        }
        case 'i':
            return text = std::to_string(t.P("int", lo, hi));
        case 'd':
        {
            double v = t.R("real", 0.001, 9);
            if (t.B("small", 20))
                v *= 1e-7;
            return text = num(v);
        }
        case 's':
        {
            S v = "word" + std::to_string(t.P("word#", 0, 99));
            text = v;
            if (t.B("quoted", 30))
            {
                v += " two";
                text = "\"" + v + "\"";
            }
            return v;
        }
        default:
        {
            auto& n = names[(size_t)t.P("enum", 0, (int64_t)names.size() - 1)];
            text = n.first;
            return std::to_string(n.second);
        }
    }
}

template <class T>
void settingsHistory(const Tags& t, const Spec<T>& sp, bool shared)
{
    T obj;
    Vals known;
    for (auto& f : sp.f)
        if (f.kind != 'm' && !(f.absent))
            known[f.path] = f.get(obj);
    if (S(sp.name) == "UKF" || S(sp.name) == "free")
        known.clear();  // not initialised by its constructor
    const Vals defaults = known;
    int loads = (int)t.P("loads", 1, 4);
    for (int l = 0; l < loads; l++)
    {
        if (sp.fresh)
            known = defaults;
        S ns = sp.anyNs && t.B("other_ns", 40) ? "my" + std::to_string(t.P("ns", 0, 9)) : sp.ns;
        Node root("", "", true);
        if (t.B("noise", 40))
        {
            root.put("timeHorizon", "3.0");
            for (auto& f : sp.f)
                if (f.kind != 'm' && f.path.find('.') == S::npos)
                    root.put("other." + f.path, "99");
        }
        int bad = t.B("bad", 25) ? (int)t.P("badkind", 1, 4) : 0;
        const char* how = "";
        bool invalid = false;
        Vals file;
        std::map<S, bool> groups;
        std::vector<const Field<T>*> req, en;
        for (auto& f : sp.f)
        {
            if (!f.group.empty() && !groups.count(f.group))
                groups[f.group] = t.B("group", 70);
            bool in = f.group.empty() || groups[f.group];
            if (in && f.req && f.group.empty())
                req.push_back(&f);
            if (in && f.kind == 'e')
                en.push_back(&f);
        }
        const Field<T>* victim = nullptr;
        if ((bad == 1 || bad == 4) && !req.empty())
            victim = req[(size_t)t.P("victim", 0, (int64_t)req.size() - 1)];
        if (bad == 2 && !en.empty())
            victim = en[(size_t)t.P("victim", 0, (int64_t)en.size() - 1)];
        for (auto& f : sp.f)
        {
            if (!f.group.empty() && !groups[f.group])
                continue;
            bool present = f.req || t.B("present", 75) || victim == &f;
            if (!present || (bad == 1 && victim == &f))
            {
                if (bad == 1 && victim == &f)
                    invalid = true, how = "a required entry missing";
                continue;
            }
            if (f.kind == 'm')
            {
                file[f.path] = drawMatrix(t, root.sub(ns), f.path, f.rows, f.cols);
                continue;
            }
            S text;
            S v = drawValue(t, f.kind, text, f.names, f.lo, f.hi);
            if (victim == &f)
            {
                invalid = true;
                if (bad == 2)
                    text = "Nonsense", how = "an unknown name";
                else if (f.kind == 's')
                    invalid = false;
                else
                    text = "x" + text + "y", how = "a malformed value";
            }
            file[f.path] = v;
            root.put(ns + "." + f.path, text);
        }
        S text;
        emit(t, root, 0, (int)t.P("style", 0, 31), text);
        if (bad == 3 && text.rfind('}') != S::npos)
        {
            text.erase(text.rfind('}'), 1);
            invalid = true;
            how = "an unclosed block";
        }
        File file_(text);
        Outcome o = attempt([&] { sp.load(obj, file_.path, ns); }, shared);
        judge(o, invalid, sp.name, how);
        if (o.threw)
        {
            known.clear();
            continue;
        }
        for (auto& f : sp.f)
        {
            S want;
            if (file.count(f.path))
                want = file[f.path];
            else if (f.absent && (f.group.empty() || groups[f.group]))
                want = f.absent(file);
            else if (known.count(f.path))
                want = known[f.path];
            else
                continue;
            S got = f.get(obj);
            SIM_CHECK(got == want, "wrong-value", "%s: %s is %s after loading, expected %s (%s)%s", sp.name, f.path.c_str(), got.c_str(), want.c_str(),
                file.count(f.path) ? "in the file" : "not in the file", o.faulty ? ", a file fault happened and was not reported" : "");
            known[f.path] = want;
        }
        sim::log(file.size());
    }
}

// ---------------------------------------------------------------------------------------------- the loaders
Spec<NLOptConSettings> nlocSpec()
{
    typedef NLOptConSettings T;
    Spec<T> s;
    s.name = "NLOptConSettings";
    s.ns = "alg";
    s.anyNs = true;
    FD(s, T, "epsilon", false, epsilon);
    FB(s, T, "timeVaryingDiscretization", false, timeVaryingDiscretization);
    FD(s, T, "min_cost_improvement", false, min_cost_improvement);
    FD(s, T, "maxDefectSum", false, maxDefectSum);
    FD(s, T, "meritFunctionRho", false, meritFunctionRho);
    FD(s, T, "meritFunctionRhoConstraints", false, meritFunctionRhoConstraints);
    FI(s, T, "max_iterations", false, max_iterations, 1, 500);
    FI(s, T, "nThreads", false, nThreads, 1, 90);
    FS(s, T, "loggingPrefix", false, loggingPrefix);
    FB(s, T, "debugPrint", false, debugPrint);
    FB(s, T, "printSummary", false, printSummary);
    FB(s, T, "useSensitivityIntegrator", false, useSensitivityIntegrator);
    FB(s, T, "logToMatlab", false, logToMatlab);
    FD(s, T, "dt", false, dt);
    FI(s, T, "K_sim", false, K_sim, 1, 30);
    FI(s, T, "K_shot", false, K_shot, 1, 30);
    FI(s, T, "nThreadsEigen", false, nThreadsEigen, 1, 90);
    FB(s, T, "recordSmallestEigenvalue", false, recordSmallestEigenvalue);
    FB(s, T, "fixedHessianCorrection", false, fixedHessianCorrection);
    typedef ct::core::IntegrationType I;
    FE(s, T, "integrator", false, integrator).names = {{"Euler", I::EULER}, {"RK4", I::RK4}, {"MODIFIED_MIDPOINT", I::MODIFIED_MIDPOINT}, {"ODE45", I::ODE45},
        {"RK5VARIABLE", I::RK5VARIABLE}, {"RK78", I::RK78}, {"BULIRSCHSTOER", I::BULIRSCHSTOER}, {"EulerCT", I::EULERCT}, {"RK4CT", I::RK4CT},
        {"Euler_Sym", I::EULER_SYM}, {"Rk_Sym", I::RK_SYM}};
    typedef T::APPROXIMATION A;
    FE(s, T, "discretization", false, discretization).names = {{"Forward_euler", (int)A::FORWARD_EULER}, {"Backward_euler", (int)A::BACKWARD_EULER},
        {"Symplectic_euler", (int)A::SYMPLECTIC_EULER}, {"Tustin", (int)A::TUSTIN}, {"Matrix_exponential", (int)A::MATRIX_EXPONENTIAL}};
    FE(s, T, "nlocp_algorithm", false, nlocp_algorithm).names = {{"GNMS", T::GNMS}, {"ILQR", T::ILQR}, {"MS_ILQR", T::MS_ILQR}, {"SS_OL", T::SS_OL},
        {"SS_CL", T::SS_CL}, {"GNMS_M_OL", T::GNMS_M_OL}, {"GNMS_M_CL", T::GNMS_M_CL}};
    FE(s, T, "locp_solver", false, lqocp_solver).names = {{"GNRICCATI_SOLVER", T::GNRICCATI_SOLVER}, {"HPIPM_SOLVER", T::HPIPM_SOLVER}};
    size_t g = s.f.size();
    typedef LineSearchSettings LS;
    FE(s, T, "line_search.type", true, lineSearchSettings.type).names = {{"NONE", LS::NONE}, {"SIMPLE", LS::SIMPLE}, {"ARMIJO", LS::ARMIJO}, {"GOLDSTEIN", LS::GOLDSTEIN}};
    FI(s, T, "line_search.maxIterations", true, lineSearchSettings.maxIterations, 1, 30);
    FD(s, T, "line_search.alpha_0", true, lineSearchSettings.alpha_0);
    FD(s, T, "line_search.n_alpha", true, lineSearchSettings.n_alpha);
    FB(s, T, "line_search.debugPrint", true, lineSearchSettings.debugPrint);
    FD(s, T, "line_search.armijo_parameter", false, lineSearchSettings.armijo_parameter);
    FB(s, T, "line_search.adaptive", false, lineSearchSettings.adaptive).absent = [](const Vals&) { return S("0"); };
    FD(s, T, "line_search.alpha_max", false, lineSearchSettings.alpha_max).absent = [](const Vals& v) { return v.at("line_search.alpha_0"); };
    for (; g < s.f.size(); g++)
        s.f[g].group = "line_search";
    FI(s, T, "lqoc_solver_settings.num_lqoc_iterations", false, lqoc_solver_settings.num_lqoc_iterations, 1, 90);
    FB(s, T, "lqoc_solver_settings.lqoc_debug_print", false, lqoc_solver_settings.lqoc_debug_print);
    s.f[g].group = s.f[g + 1].group = "lqoc";
    s.load = [](T& o, const S& p, const S& ns) { o.load(p, false, ns); };
    return s;
}

Spec<mpc_settings> mpcSpec()
{
    typedef mpc_settings T;
    Spec<T> s;
    s.name = "mpc_settings";
    s.ns = "mpc";
    s.anyNs = false;
    FB(s, T, "measureDelay", true, measureDelay_);
    FB(s, T, "stateForwardIntegration", true, stateForwardIntegration_);
    FD(s, T, "stateForwardIntegration_dt", true, stateForwardIntegration_dt_);
    FI(s, T, "stateForwardIntegratorType", true, stateForwardIntegratorType_, 0, 8);
    FI(s, T, "fixedDelayUs", true, fixedDelayUs_, 0, 90000);
    FI(s, T, "additionalDelayUs", true, additionalDelayUs_, 0, 90000);
    FD(s, T, "timeHorizon", true, minimumTimeHorizonMpc_);
    FB(s, T, "coldStart", true, coldStart_);
    FB(s, T, "postTruncation", true, postTruncation_);
    FD(s, T, "delayMeasurementMultiplier", true, delayMeasurementMultiplier_);
    FB(s, T, "useExternalTiming", true, useExternalTiming_);
    s.load = [](T& o, const S& p, const S&) { loadMpcSettings(p, o); };
    return s;
}

Spec<DmsSettings> dmsSpec(bool snopt)
{
    typedef DmsSettings T;
    Spec<T> s;
    s.name = snopt ? "DmsSettings with SNOPT" : "DmsSettings with IPOPT";
    s.ns = "dms";
    s.anyNs = true;
    FI(s, T, "N", true, N_, 1, 900);
    FD(s, T, "T", true, T_);
    FI(s, T, "nThreads", true, nThreads_, 1, 30);
    FI(s, T, "InterpolationType", true, splineType_, 0, 1);
    FI(s, T, "CostEvaluationType", true, costEvaluationType_, 0, 1);
    FI(s, T, "ObjectiveType", true, objectiveType_, 0, 1);
    FD(s, T, "h_min", true, h_min_);
    FI(s, T, "IntegrationType", true, integrationType_, 0, 2);
    FD(s, T, "dt_sim", true, dt_sim_);
    FD(s, T, "AbsErrTol", true, absErrTol_);
    FD(s, T, "RelErrTol", true, relErrTol_);
    FI(s, T, "solver.SolverType", true, solverSettings_.solverType_, snopt, snopt);
    FB(s, T, "solver.UseGeneratedCostGradient", true, solverSettings_.useGeneratedCostGradient_);
    FB(s, T, "solver.UseGeneratedConstraintJacobian", true, solverSettings_.useGeneratedConstraintJacobian_);
    if (snopt)
    {
        FI(s, T, "solver.snopt.MaxMinorIterations", true, solverSettings_.snoptSettings_.minor_iteration_limit_param_, 1, 900);
        FI(s, T, "solver.snopt.MaxMajorIterations", true, solverSettings_.snoptSettings_.major_iteration_limit_param_, 1, 900);
        FI(s, T, "solver.snopt.MinorPrintLevelVerbosity", true, solverSettings_.snoptSettings_.minor_print_level_param_, 0, 9);
        FI(s, T, "solver.snopt.MajorPrintLevelVerbosity", true, solverSettings_.snoptSettings_.major_print_level_param_, 0, 9);
        FD(s, T, "solver.snopt.OptimalityTolerance", true, solverSettings_.snoptSettings_.major_optimality_tolerance_param_);
    }
    else
    {
        FI(s, T, "solver.ipopt.MaxIterations", true, solverSettings_.ipoptSettings_.max_iter_, 1, 900);
        s.add("solver.ipopt.CheckDerivatives", 'b', true, [](const T& o) { return S(o.solverSettings_.ipoptSettings_.derivativeTest_ == "first-order" ? "1" : o.solverSettings_.ipoptSettings_.derivativeTest_ == "none" ? "0" : "?"); });
        s.add("solver.ipopt.ExactHessian", 'b', true, [](const T& o) { return S(o.solverSettings_.ipoptSettings_.hessian_approximation_ == "exact" ? "1" : o.solverSettings_.ipoptSettings_.hessian_approximation_ == "limited-memory" ? "0" : "?"); });
        FI(s, T, "solver.ipopt.Verbosity", true, solverSettings_.ipoptSettings_.printLevel_, 0, 12);
        FD(s, T, "solver.ipopt.OptimalityTolerance", true, solverSettings_.ipoptSettings_.tol_);
        FS(s, T, "solver.ipopt.jacobianApproximation", false, solverSettings_.ipoptSettings_.jacobianApproximation_);
        FD(s, T, "solver.ipopt.restoAcceptableTol", false, solverSettings_.ipoptSettings_.restoAcceptableTol_);
        FD(s, T, "solver.ipopt.constr_viol_tol", false, solverSettings_.ipoptSettings_.constr_viol_tol_);
        FD(s, T, "solver.ipopt.restoTol", false, solverSettings_.ipoptSettings_.restoTol_);
        FD(s, T, "solver.ipopt.acceptableTol", false, solverSettings_.ipoptSettings_.acceptableTol_);
        FS(s, T, "solver.ipopt.linear_scaling_on_demand", false, solverSettings_.ipoptSettings_.linear_scaling_on_demand_);
        FS(s, T, "solver.ipopt.nlp_scaling_method", false, solverSettings_.ipoptSettings_.nlp_scaling_method_);
        FS(s, T, "solver.ipopt.print_user_options", false, solverSettings_.ipoptSettings_.print_user_options_);
        FS(s, T, "solver.ipopt.printInfoString", false, solverSettings_.ipoptSettings_.printInfoString_);
        FD(s, T, "solver.ipopt.derivativeTestTol", false, solverSettings_.ipoptSettings_.derivativeTestTol_);
        FD(s, T, "solver.ipopt.derivativeTestPerturbation", false, solverSettings_.ipoptSettings_.derivativeTestPerturbation_);
        FD(s, T, "solver.ipopt.point_perturbation_radius", false, solverSettings_.ipoptSettings_.point_perturbation_radius_);
        FS(s, T, "solver.ipopt.checkDerivativesForNaninf", false, solverSettings_.ipoptSettings_.checkDerivativesForNaninf_);
        FS(s, T, "solver.ipopt.derivativeTestPrintAll", false, solverSettings_.ipoptSettings_.derivativeTestPrintAll_);
        FS(s, T, "solver.ipopt.linear_solver", false, solverSettings_.ipoptSettings_.linear_solver_);
        FS(s, T, "solver.ipopt.linearSystemScaling", false, solverSettings_.ipoptSettings_.linearSystemScaling_);
    }
    FB(s, T, "cppad.MultiThreading", true, cppadSettings_.multiThreading_);
    FB(s, T, "cppad.CreateForwardZero", true, cppadSettings_.createForwardZero_);
    FB(s, T, "cppad.CreateForwardOne", true, cppadSettings_.createForwardOne_);
    FB(s, T, "cppad.CreateReverseOne", true, cppadSettings_.createReverseOne_);
    FB(s, T, "cppad.CreateReverseTwo", true, cppadSettings_.createReverseTwo_);
    FB(s, T, "cppad.CreateJacobian", true, cppadSettings_.createJacobian_);
    FB(s, T, "cppad.CreateSparseJacobian", true, cppadSettings_.createSparseJacobian_);
    FB(s, T, "cppad.CreateHessian", true, cppadSettings_.createHessian_);
    FB(s, T, "cppad.CreateSparseHessian", true, cppadSettings_.createSparseHessian_);
    FI(s, T, "cppad.MaxAssignements", true, cppadSettings_.maxAssignements_, 1, 90000);
    FB(s, T, "cppad.GenerateSourceCode", true, cppadSettings_.generateSourceCode_);
    FB(s, T, "cppad.UseDynamicLibrary", true, cppadSettings_.useDynamicLibrary_);
    typedef ct::core::DerivativesCppadSettings C;
    FE(s, T, "cppad.Compiler", true, cppadSettings_.compiler_).names = {{"GCC", C::GCC}, {"CLANG", C::CLANG}};
    s.load = [](T& o, const S& p, const S& ns) { o.load(p, false, ns); };
    return s;
}

typedef StateObserverSettings<2, 3> Obs;
typedef SteadyStateKalmanFilterSettings<3> SSKF;
typedef ExtendedKalmanFilterSettings<3> EKF;
typedef UnscentedKalmanFilterSettings<3> UKF;
template <class T>
Spec<T> filterSpec(const char* name)
{
    Spec<T> s;
    s.name = name;
    s.ns = "filter";
    s.anyNs = true;
    s.load = [](T& o, const S& p, const S& ns) { o.load(p, false, ns); };
    return s;
}
Spec<Obs> obsSpec()
{
    auto s = filterSpec<Obs>("StateObserverSettings");
    FM(s, Obs, "C", C, 2, 3);
    FM(s, Obs, "Q", Q, 3, 3);
    FM(s, Obs, "R", R, 2, 2);
    FM(s, Obs, "dFdv", dFdv, 3, 3);
    return s;
}
Spec<SSKF> sskfSpec()
{
    auto s = filterSpec<SSKF>("SteadyStateKalmanFilterSettings");
    FM(s, SSKF, "x0", x0, 3, 1);
    FI(s, SSKF, "maxDAREIterations", false, maxDAREIterations, 1, 9000).absent = [](const Vals&) { return S("1000"); };
    return s;
}
Spec<EKF> ekfSpec()
{
    auto s = filterSpec<EKF>("ExtendedKalmanFilterSettings");
    FM(s, EKF, "x0", x0, 3, 1);
    FM(s, EKF, "P0", P0, 3, 3);
    return s;
}
Spec<UKF> ukfSpec()
{
    auto s = filterSpec<UKF>("UKF");
    FM(s, UKF, "x0", x0, 3, 1);
    FD(s, UKF, "alpha", true, alpha);
    FD(s, UKF, "beta", true, beta);
    FD(s, UKF, "kappa", true, kappa);
    FM(s, UKF, "P0", P0, 3, 3);
    return s;
}

struct Free
{
    double a, opt;
    int b;
    bool c;
    std::string word;
    Eigen::Matrix<double, 3, 2> m;
    Eigen::Matrix<double, 4, 1> v;
};
Spec<Free> freeSpec()
{
    typedef Free T;
    Spec<T> s;
    s.name = "free";
    s.ns = "a";
    s.anyNs = true;
    FD(s, T, "a", true, a);
    FI(s, T, "b", true, b, -900, 900);
    FB(s, T, "c", true, c);
    FS(s, T, "word", true, word);
    FD(s, T, "opt", false, opt).absent = [](const Vals&) { return num(0.375); };
    FM(s, T, "m", m, 3, 2);
    FM(s, T, "v", v, 4, 1);
    s.load = [](T& o, const S& p, const S& ns) {
        ct::core::loadScalar(p, "a", o.a, ns + ".");
        ct::core::loadScalar(p, ns + ".b", o.b);
        ct::core::loadScalar(p, "c", o.c, ns + ".");
        ct::core::loadScalar(p, "word", o.word, ns + ".");
        ct::core::loadScalarOptional(p, "opt", o.opt, 0.375, ns + ".");
        ct::core::loadMatrix(p, "m", o.m, ns + ".");
        ct::core::loadMatrix(p, ns + ".v", o.v);
    };
    return s;
}

// ---------------------------------------------------------------------------------------------- cost functions
typedef Eigen::Matrix<double, 3, 1> X;
typedef Eigen::Matrix<double, 2, 1> U;
struct Term
{
    int kind, type;  // linear quadratic mixed quadmult smoothabs
    int act;         // -1 none, single periodic rbf barrier linear
    S name;
    Eigen::Matrix<double, 3, 3> Q = Eigen::Matrix<double, 3, 3>::Zero();
    Eigen::Matrix<double, 2, 2> R = Eigen::Matrix<double, 2, 2>::Zero();
    Eigen::Matrix<double, 2, 3> P = Eigen::Matrix<double, 2, 3>::Zero();
    X a = X::Zero(), xr = X::Zero();
    U b = U::Zero(), ur = U::Zero();
    double alpha;
    double q[6];
    bool ub = true, lb = true;

    double value(const X& x, const U& u) const
    {
        X dx = x - xr;
        U du = u - ur;
        switch (kind)
        {
            case 0:
                return a.dot(x) + b.dot(u);
            case 1:
                return (dx.transpose() * Q * dx)(0, 0) + (du.transpose() * R * du)(0, 0);
            case 2:
                return (du.transpose() * P * dx)(0, 0);
            case 3:
                return (dx.transpose() * Q * dx)(0, 0) * (du.transpose() * R * du)(0, 0);
            default:
            {
                double s = 0;
                for (int i = 0; i < 3; i++)
                    s += a(i) * std::sqrt(dx(i) * dx(i) + alpha * alpha);
                for (int i = 0; i < 2; i++)
                    s += b(i) * std::sqrt(du(i) * du(i) + alpha * alpha);
                return s;
            }
        }
    }
    double weight(double t) const
    {
        switch (act)
        {
            case 0:
                return t >= q[0] && t < q[1];
            case 1:
            {
                if (t < q[3] || t >= q[4])
                    return 0;
                double m = std::fmod(t - q[3], q[1]);
                return m >= q[2] && m < q[2] + q[0] * q[1];
            }
            case 2:
                return std::exp(-(t - q[0]) * (t - q[0]) / (2 * q[1] * q[1])) / std::sqrt(2 * M_PI * q[1] * q[1]);
            case 3:
                return (ub ? std::exp(q[0] * (t - q[1])) : 0) + (lb ? std::exp(q[0] * (q[2] - t)) : 0);
            case 4:
                return t >= q[0] && t < q[1] ? q[3] + q[2] * (t - q[0]) : 0;
            default:
                return 1;
        }
    }
};
const char* kinds[] = {"linear", "quadratic", "mixed", "quadratic-multiplicative", "smooth-abs"};
const char* acts[] = {"single", "periodic", "rbf", "barrier", "linear"};

template <int R, int C>
void weightMatrix(const Tags& t, Node& w, const S& name, Eigen::Matrix<double, R, C>& m)
{
    m.setZero();
    if (!t.B("has_matrix", 85))
        return;
    std::istringstream is(drawMatrix(t, w, name, R, C));
    for (int i = 0; i < R; i++)
        for (int j = 0; j < C; j++)
        {
            std::string s;
            is >> s;
            m(i, j) = strtod(s.c_str(), nullptr);
        }
}

Term drawTerm(const Tags& t, Node& n, bool& invalid, const char*& how, int bad)
{
    Term r;
    r.kind = (int)t.P("kind", 0, 4);
    r.type = (int)t.P("type", 0, 1);
    S k = kinds[r.kind];
    if (t.B("upper", 20))
        k[0] = (char)toupper(k[0]);
    if (bad == 1)
        k = "nonsense", invalid = true, how = "an unknown kind of term";
    if (bad == 2 && t.B("nokind", 50))
        invalid = true, how = "a term without a kind";
    else
        n.put("kind", t.B("quotedkind", 50) ? "\"" + k + "\"" : k);
    if (bad == 2 && !invalid)
        n.put("type", "7"), invalid = true, how = "an unknown type of term";
    else
        n.put("type", std::to_string(r.type));
    if (t.B("named", 60))
    {
        r.name = "cost" + std::to_string(t.P("name", 0, 9));
        n.put("name", r.name);
    }
    Node w("weights", "", true);
    r.alpha = 0;
    if (r.kind == 0 || r.kind == 4)
    {
        weightMatrix(t, w, "a", r.a);
        weightMatrix(t, w, "b", r.b);
    }
    if (r.kind == 1 || r.kind == 3)
    {
        weightMatrix(t, w, "Q", r.Q);
        weightMatrix(t, w, "R", r.R);
    }
    if (r.kind == 2)
        weightMatrix(t, w, "P", r.P);
    if (r.kind != 0)
    {
        weightMatrix(t, w, r.kind == 4 ? "x_ref" : "x_des", r.xr);
        weightMatrix(t, w, r.kind == 4 ? "u_ref" : "u_des", r.ur);
    }
    if (r.kind == 4)
    {
        r.alpha = t.R("alpha", 0.1, 2);
        w.put("alpha", num(r.alpha));
    }
    n.kids.push_back(w);
    r.act = t.B("activated", 60) ? (int)t.P("activation", 0, 4) : -1;
    if (r.act >= 0)
    {
        Node a("time_activation", "", true);
        S ak = acts[r.act];
        if (bad == 3)
            ak = "nonsense", invalid = true, how = "an unknown kind of activation";
        a.put("kind", ak);
        std::vector<std::pair<S, double>> p;
        switch (r.act)
        {
            case 0:
                p = {{"t_on", t.R("on", 0, 1)}, {"t_off", t.R("off", 0.5, 2)}};
                break;
            case 1:
            {
                double period = t.R("period", 0.1, 1), frac = t.R("frac", 0, 0.6), off = t.R("aoff", 0, 0.4) * period * 0.99;
                p = {{"active_percentage", frac}, {"period", period}, {"activation_offset", off}, {"period_offset", t.R("poff", 0, 0.5)}, {"t_end", t.R("tend", 0.5, 2)}};
                break;
            }
            case 2:
                p = {{"mu", t.R("mu", 0, 2)}, {"sigma", t.R("sigma", 0.2, 1)}};
                break;
            case 3:
            {
                double lo = t.R("lb", -1, 1);
                p = {{"alpha", t.R("steep", 0.1, 2)}, {"upper_bound", lo + t.R("gap", 0, 2)}, {"lower_bound", lo}};
                break;
            }
            default:
                p = {{"t_on", t.R("on", 0, 1)}, {"t_off", t.R("off", 0.5, 2)}, {"slope", t.R("slope", -1, 1)}, {"startVal", t.R("start", 0, 2)}};
        }
        int drop = -1;
        if (r.act == 3)
        {
            r.ub = t.B("has_ub", 80);
            r.lb = t.B("has_lb", 80);
        }
        if (bad == 4)
        {
            drop = r.act == 3 ? 0 : (int)t.P("dropped", 0, (int64_t)p.size() - 1);
            invalid = true;
            how = "an incomplete activation";
        }
        for (size_t i = 0; i < p.size(); i++)
        {
            r.q[i] = p[i].second;
            if ((int)i == drop || (r.act == 3 && ((i == 1 && !r.ub) || (i == 2 && !r.lb))))
                continue;
            a.put(p[i].first, num(p[i].second));
        }
        n.kids.push_back(a);
    }
    return r;
}

void costHistory(const Tags& t, bool shared)
{
    typedef CostFunctionAnalytical<3, 2> CF;
    std::unique_ptr<CF> cf;
    int loads = (int)t.P("loads", 1, 3);
    for (int l = 0; l < loads; l++)
    {
        Node root("", "", true);
        int nt = (int)t.P("terms", 1, 4);
        int bad = t.B("bad", 25) ? (int)t.P("badkind", 1, 5) : 0, badAt = (int)t.P("bad_at", 0, nt - 1);
        bool invalid = false;
        const char* how = "";
        std::vector<Term> terms;
        for (int i = 0; i < nt; i++)
        {
            Node n("term" + std::to_string(i), "", true);
            terms.push_back(drawTerm(t, n, invalid, how, i == badAt ? bad : 0));
            root.kids.push_back(n);
        }
        S text;
        int style = (int)t.P("style", 0, 31);
        emit(t, root, 0, style, text);
        if (bad == 5)
        {
            text.erase(text.rfind('}'), 1);
            invalid = true;
            how = "an unclosed block";
        }
        File f(text);
        Outcome o = attempt(
            [&] {
                if (!cf && t.B("by_constructor", 50))
                    cf.reset(new CF(f.path, false));
                else
                {
                    if (!cf)
                        cf.reset(new CF());
                    cf->loadFromConfigFile(f.path, false);
                }
            },
            shared);
        judge(o, invalid, "CostFunctionAnalytical", how);
        if (o.threw)
            continue;
        std::unique_ptr<CF> copy(cf->clone());
        for (int k = 0; k < 4; k++)
        {
            X x;
            U u;
            for (int i = 0; i < 3; i++)
                x(i) = t.R("x", -2, 2);
            for (int i = 0; i < 2; i++)
                u(i) = t.R("u", -2, 2);
            double tm = t.R("t", 0, 2), vi = 0, vf = 0, scale = 1;
            for (const Term& w : terms)
            {
                double v = w.value(x, u);
                if (w.type == 0)
                    vi += v * w.weight(tm);
                else
                    vf += v;
                scale += std::fabs(v) * (1 + std::fabs(w.weight(tm)));
            }
            for (int c = 0; c < 2; c++)
            {
                CF& e = c ? *copy : *cf;
                e.setCurrentStateAndControl(x, u, tm);
                double gi = e.evaluateIntermediate(), gf = e.evaluateTerminal();
                SIM_CHECK(std::fabs(gi - vi) <= 1e-9 * scale, "wrong-cost", "intermediate cost of the loaded function at t=%g is %.15g, the file says %.15g%s", tm, gi, vi, o.faulty ? " (a file fault happened and was not reported)" : "");
                SIM_CHECK(std::fabs(gf - vf) <= 1e-9 * scale, "wrong-cost", "terminal cost of the loaded function is %.15g, the file says %.15g%s", gf, vf, o.faulty ? " (a file fault happened and was not reported)" : "");
                sim::logd(gi);
            }
        }
        int ni = 0, nf = 0;
        for (const Term& w : terms)
        {
            int id = w.type == 0 ? ni++ : nf++;
            if ((w.kind == 1 || w.kind == 2) && !w.name.empty())
            {
                S got = w.type == 0 ? cf->getIntermediateTermById((size_t)id)->getName() : cf->getFinalTermById((size_t)id)->getName();
                SIM_CHECK(got == w.name, "wrong-value", "term named %s in the file is called %s", w.name.c_str(), got.c_str());
            }
        }
        sim::probe("cost_loaded");
    }
}

void history(const S& pre, bool shared)
{
    Tags t;
    t.pre = pre;
    switch (t.P("loader", 0, 10))
    {
        case 0:
        case 1:
        {
            auto s = nlocSpec();
            if (t.B("fresh", 25))
            {
                s.fresh = true;
                s.load = [](NLOptConSettings& o, const S& p, const S& ns) { o = NLOptConSettings::fromConfigFile(p, false, ns); };
            }
            return settingsHistory(t, s, shared);
        }
        case 2:
            return settingsHistory(t, mpcSpec(), shared);
        case 3:
            return settingsHistory(t, dmsSpec(t.B("snopt", 30)), shared);
        case 4:
            return settingsHistory(t, obsSpec(), shared);
        case 5:
            return settingsHistory(t, sskfSpec(), shared);
        case 6:
            return settingsHistory(t, ekfSpec(), shared);
        case 7:
            return settingsHistory(t, ukfSpec(), shared);
        case 8:
            return settingsHistory(t, freeSpec(), shared);
        default:
            return costHistory(t, shared);
    }
}

}  // namespace

extern "C" void sim_scenario(const char* scenario)
{
    sim::set_step_budget(400000, 900000000ull);
    sim::race_detection(true);
    sim::io_tear_filter(tear_ok);
    int calm = (int)sim::P("calm", 0, 3);
    if (calm == 0)
        sim::io_faults("/proc/self/fd/", 0, 0, 0.5, 0);
    else
        sim::io_faults("/proc/self/fd/", 0.02 * calm, 0.015 * calm, 0.2, 0.02 * calm);
    if (sim::PB("two_users", 25))
    {
        if (sim::PB("plain_preempt", 50))
            sim::preempt_plain((int)sim::P("plain_mean", 50, 3000));
        std::thread th([] { history("b.", true); });
        history("", true);
        th.join();
        sim::probe("two_users");
    }
    else
        history("", false);
    SIM_CHECK(sim::live_threads() == 1, "thread-leak", "%d threads left", sim::live_threads() - 1);
}
