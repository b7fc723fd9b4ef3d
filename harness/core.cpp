// Replay harness: constraints, tasks, hierarchy, QP, violations, active sets.
#include "common.h"
#include "humoto/kktsolver.h"
#include "humoto/qpoases.h"
#include "humoto/qpmad.h"
#include "humoto/quadprogpp.h"
#include "octave.h"
using namespace verif;

namespace
{
    // Units of measurement: the bounds are in 2^s, the unit of variable i is 2^(s - d[i]). The behaviours of the
    // specification do not depend on the units: the data are scaled on the way in, the observations on the way out.
    struct Units
    {
        int s = 0;
        std::vector<int> d;
        void set(const json &u)
        {
            s = u["s"].get<int>();
            d.clear();
            for (const json &v : u["d"]) { d.push_back(v.get<int>()); }
        }
        int var(const std::size_t i) const { return i < d.size() ? d[i] : 0; }
        static double scale(const double v, const int e) { return std::isfinite(v) && std::abs(v) < 1e20 ? std::ldexp(v, e) : v; }
        Eigen::VectorXd bound(Eigen::VectorXd v, const int sign = 1) const
        {
            for (int i = 0; i < v.size(); ++i) { v[i] = scale(v[i], sign * s); }
            return v;
        }
        Eigen::VectorXd point(Eigen::VectorXd v) const
        {
            for (int i = 0; i < v.size(); ++i) { v[i] = scale(v[i], s - var(i)); }
            return v;
        }
        Eigen::MatrixXd columns(Eigen::MatrixXd A, const int sign = 1, const std::size_t off = 0) const
        {
            for (int i = 0; i < A.rows(); ++i) for (int j = 0; j < A.cols(); ++j) { A(i, j) = scale(A(i, j), sign * var(off + j)); }
            return A;
        }
        Eigen::VectorXd gains(Eigen::VectorXd G, const humoto::IndexVector &I) const
        {
            for (int i = 0; i < G.size() && i < I.size(); ++i) { G[i] = scale(G[i], var(I[i])); }
            return G;
        }
        Eigen::MatrixXd hessian(Eigen::MatrixXd H) const
        {
            for (int i = 0; i < H.rows(); ++i) for (int j = 0; j < H.cols(); ++j) { H(i, j) = scale(H(i, j), -var(i) - var(j)); }
            return H;
        }
        Eigen::VectorXd gradient(Eigen::VectorXd g) const
        {
            for (int i = 0; i < g.size(); ++i) { g[i] = scale(g[i], -s - var(i)); }
            return g;
        }
    };
    Units units;

    struct TaskData
    {
        json c;
        bool unmod = false;
    };

    // access to the data of a task regardless of its kind
    struct AnyTask
    {
        TaskData next;
        virtual ~AnyTask() {}
        virtual humoto::TaskSharedPointer ptr(std::shared_ptr<AnyTask> self) = 0;
        virtual const humoto::ActiveSetConstraints &actual() const = 0;
    };

    // which pieces of data does a family / a kind of bounds have
    template<class T> auto setA(T &t, const json &c, int) -> decltype(t.getA(), void())
    {
        t.getA() = units.columns(toM(c["A"], c["w"].get<int>()), 1, c.count("off") ? c["off"].get<int>() : 0);
    }
    template<class T> void setA(T &, const json &, long) {}
    template<class T> auto setOff(T &t, const json &c, int) -> decltype(t.setOffset(0), void()) { t.setOffset(c["off"].get<int>()); }
    template<class T> void setOff(T &, const json &, long) {}
    template<class T> auto setIdx(T &t, const json &c, int) -> decltype(t.getIndices(), void()) { t.getIndices() = toI(c["I"]); }
    template<class T> void setIdx(T &, const json &, long) {}
    template<class T> auto setGains(T &t, const json &c, int) -> decltype(t.getIGains(), void()) { t.getIGains() = units.gains(toV(c["G"]), toI(c["I"])); }
    template<class T> void setGains(T &, const json &, long) {}
    template<class T> auto setL(T &t, const json &c, int) -> decltype(t.getLowerBounds(), void()) { t.getLowerBounds() = units.bound(toV(c["L"])); }
    template<class T> void setL(T &, const json &, long) {}
    template<class T> auto setU(T &t, const json &c, int) -> decltype(t.getUpperBounds(), void()) { t.getUpperBounds() = units.bound(toV(c["U"])); }
    template<class T> void setU(T &, const json &, long) {}
    template<class T> auto setB(T &t, const json &c, int) -> decltype(t.getB(), void()) { t.getB() = units.bound(toV(c["B"])); }
    template<class T> void setB(T &, const json &, long) {}

    template<class Base> class DataTask : public Base
    {
        public:
            TaskData *src_;
            explicit DataTask(const std::string &id) : Base(id), src_(NULL) {}
            void form(const humoto::SolutionStructure &, const humoto::Model &, const humoto::ControlProblem &)
            {
                if (src_->unmod)
                {
                    this->markAsUnmodified();
                    return;
                }
                setData(src_->c);
            }
            void setData(const json &c)
            {
                setA(*this, c, 0);
                setOff(*this, c, 0);
                setIdx(*this, c, 0);
                setGains(*this, c, 0);
                setL(*this, c, 0);
                setU(*this, c, 0);
                setB(*this, c, 0);
            }
            const humoto::ActiveSetConstraints &actualAS() const { return this->getActualActiveSet(); }
    };

    template<class Base> struct Holder : public AnyTask
    {
        boost::shared_ptr< DataTask<Base> > t;
        explicit Holder(const std::string &id) : t(new DataTask<Base>(id)) { t->src_ = &next; }
        humoto::TaskSharedPointer ptr(std::shared_ptr<AnyTask>) { return t; }
        const humoto::ActiveSetConstraints &actual() const { return t->actualAS(); }
    };

    std::shared_ptr<AnyTask> makeTask(const std::string &k, const std::string &id)
    {
#define VERIF_KIND(K) if (k == #K) { return std::make_shared< Holder<humoto::Task##K> >(id); }
        VERIF_KIND(ILU) VERIF_KIND(IL) VERIF_KIND(IU) VERIF_KIND(IB) VERIF_KIND(IB0)
        VERIF_KIND(GILU) VERIF_KIND(GIL) VERIF_KIND(GIU) VERIF_KIND(GIB) VERIF_KIND(GIB0)
        VERIF_KIND(ALU) VERIF_KIND(AL) VERIF_KIND(AU) VERIF_KIND(AB) VERIF_KIND(AB0)
        VERIF_KIND(ASLU) VERIF_KIND(ASL) VERIF_KIND(ASU) VERIF_KIND(ASB) VERIF_KIND(ASB0)
#undef VERIF_KIND
        throw std::logic_error("unknown kind " + k);
    }

    class Problem : public humoto::ControlProblem
    {
        public:
            void set(const std::size_t n)
            {
                sol_structure_.reset();
                sol_structure_.addSolutionPart("x", n);
            }
            void log(humoto::Logger &, const humoto::LogEntryName &, const std::string &) const {}
    };
    class NoModel : public humoto::Model
    {
        public:
            void updateState(const humoto::ModelState &) {}
            void log(humoto::Logger &, const humoto::LogEntryName &, const std::string &) const {}
    };

    template<class C> json jALU(const C &c)
    {
        json r;
        r["A"] = mat(units.columns(c.getA(), -1)); r["lb"] = vec(units.bound(c.getLowerBounds(), -1)); r["ub"] = vec(units.bound(c.getUpperBounds(), -1));
        return r;
    }
    template<class C> json jAL(const C &c)
    {
        json r;
        r["A"] = mat(units.columns(c.getA(), -1)); r["lb"] = vec(units.bound(c.getLowerBounds(), -1));
        return r;
    }
    template<class C> json jAB(const C &c)
    {
        json r;
        r["A"] = mat(units.columns(c.getA(), -1)); r["b"] = vec(units.bound(c.getB(), -1));
        return r;
    }
    template<class C> json jILU(const C &c)
    {
        json r;
        r["I"] = vec(c.getIndices()); r["lb"] = vec(units.bound(c.getLowerBounds(), -1)); r["ub"] = vec(units.bound(c.getUpperBounds(), -1));
        return r;
    }
    json jAS(const humoto::ActiveSetConstraints &a)
    {
        json r = json::array();
        for (std::size_t i = 0; i < a.size(); ++i) { r.push_back(static_cast<int>(a[i])); }
        return r;
    }
    Eigen::MatrixXd lowerTri(const Eigen::MatrixXd &H)
    {
        Eigen::MatrixXd r = Eigen::MatrixXd::Zero(H.rows(), H.cols());
        for (int i = 0; i < H.rows(); ++i) for (int j = 0; j <= i; ++j) r(i, j) = H(i, j);
        return r;
    }

    struct HierarchyMachine : public Machine
    {
        humoto::OptimizationProblem opt;
        humoto::Solution solution;
        humoto::ActiveSet as, as_guess;
        humoto::Violations viol;
        Problem problem;
        NoModel model;
        std::map<int, std::shared_ptr<AnyTask> > tasks;
        humoto::QPProblem_ILU_ALU qp_ilu;
        humoto::QPProblem_AB_AL qp_abal;
        humoto::QPProblem_AB qp_ab;
        // containers are reused between the steps: nothing may survive
        humoto::constraints::ContainerALU calu, cgen;
        humoto::constraints::ContainerAL cal;
        humoto::constraints::ContainerAB cab;
        humoto::constraints::ContainerILU cilu;
        Eigen::MatrixXd H;
        Eigen::VectorXd g;
        humoto::qpoases::Solver oases;
        humoto::qpmad::Solver mad;
        humoto::quadprogpp::Solver prog;

        static json have(const bool has, const json &v) { return has ? v : json("none"); }
        json callOf(const verif::Script &c)
        {
            json r;
            r["H"] = mat(units.hessian(c.solver == "qpmad" ? lowerTri(c.H) : c.H));
            r["g"] = vec(units.gradient(c.g));
            const json A = mat(units.columns(c.A, -1)), lbA = vec(units.bound(c.lbA, -1)), ubA = vec(units.bound(c.ubA, -1));
            if (c.solver == "qpoases")
            {
                r["A"] = have(c.has_A, A); r["lbA"] = have(c.has_lbA, lbA); r["ubA"] = have(c.has_ubA, ubA);
                r["lb"] = have(c.has_lb, vec(units.bound(c.lb, -1))); r["ub"] = have(c.has_ub, vec(units.bound(c.ub, -1)));
                r["nwsr"] = c.nwsr; r["time"] = have(c.has_time, c.time); r["tol"] = c.tolerance;
                r["x0"] = have(c.has_x0, vec(c.x0)); r["y0"] = c.has_y0;
                r["definite"] = c.hessian != qpOASES::HST_SEMIDEF && c.hessian != qpOASES::HST_UNKNOWN && c.hessian != qpOASES::HST_INDEF;
                r["wb"] = have(c.has_wb, json(c.wb)); r["wc"] = have(c.has_wc, json(c.wc));
            }
            else if (c.solver == "qpmad")
            {
                r["A"] = A; r["lbA"] = lbA; r["ubA"] = ubA;
                r["lb"] = vec(units.bound(c.lb, -1)); r["ub"] = vec(units.bound(c.ub, -1));
            }
            else
            {
                r["A"] = A; r["lbA"] = lbA;
                r["Ae"] = mat(units.columns(c.Ae, -1)); r["be"] = vec(units.bound(c.be, -1));
            }
            return r;
        }
        template<class Par> void common(Par &p, const json &s)
        {
            p.crash_on_any_failure_ = s["crash"];
            p.solve_two_levels_as_qp_ = s["asqp"];
        }
        template<class P, class S> void plain(S &solver, humoto::Solution &sol, const json &s)
        {
            P p;
            common(p, s);
            p.regularization_factor_ = s["reg"].get<double>();
            if (s["given"].get<bool>()) { solver.setParameters(p); solver.solve(sol, opt); }
            else { solver.solve(sol, opt, p); }
        }
        // a problem given to one of the solvers, which answers as prescribed
        json solve(const json &s)
        {
            verif::Script &c = verif::Script::get();
            c = verif::Script();
            c.x = toV(s["x"]); c.out_wb = toV(s["wb"]); c.out_wc = toV(s["wc"]); c.code = s["code"].get<std::string>(); c.out_nwsr = s["it"];
            const std::string name = s["solver"];
            const bool ext = s["ext"], sg = s["sg"], ag = s["ag"], ret = s["ret"];
            humoto::Solution sol, guess;
            humoto::qpoases::Solution sol_oases;
            humoto::qpmad::Solution sol_mad;
            humoto::quadprogpp::Solution sol_prog;
            humoto::Solution &to = !ext ? sol : name == "qpoases" ? static_cast<humoto::Solution &>(sol_oases)
                                   : name == "qpmad" ? static_cast<humoto::Solution &>(sol_mad) : static_cast<humoto::Solution &>(sol_prog);
            to.initialize(problem.getSolutionStructure(), -77.);
            humoto::ActiveSet got;
            json r;
            bool failed = false, returned = false;
            try
            {
                if (name == "qpmad") { plain<humoto::qpmad::SolverParameters>(mad, to, s); }
                else if (name == "quadprogpp") { plain<humoto::quadprogpp::SolverParameters>(prog, to, s); }
                else
                {
                    humoto::qpoases::SolverParameters p;
                    common(p, s);
                    p.max_number_of_iterations_ = s["maxit"];
                    p.max_cpu_time_ = s["time"];
                    p.options_.terminationTolerance = s["tol"];
                    humoto::ActiveSet ga;
                    opt.initializeActiveSet(ga);
                    for (std::size_t l = 0; l < s["ga"].size(); ++l)
                    {
                        for (std::size_t i = 0; i < s["ga"][l].size(); ++i)
                        {
                            ga[l][i] = static_cast<humoto::ConstraintActivationType::Type>(s["ga"][l][i].get<int>());
                        }
                    }
                    guess.initialize(problem.getSolutionStructure());
                    guess.x_ = toV(s["gx"]);
                    if (!sg && !ag && !ret && !s["given"].get<bool>()) { oases.solve(to, opt, p); }
                    else
                    {
                        oases.setParameters(p);
                        if (!sg && !ag && !ret) { oases.solve(to, opt); }
                        else if (sg && !ag && !ret) { oases.solve(to, opt, guess); }
                        else if (!sg && ag && ret) { oases.solve(to, got, opt, ga); }
                        else if (!sg && ag && !ret) { oases.solve(to, opt, ga); }
                        else if (!sg && !ag && ret) { oases.solve(to, got, opt); }
                        else if (sg && ag && ret) { oases.solve(to, got, opt, guess, ga); }
                        else if (sg && ag && !ret) { oases.solve(to, opt, guess, ga); }
                        else { oases.solve(to, got, opt, guess); }
                        returned = ret;
                    }
                }
            }
            catch (const verif::EigenAssertion &) { throw; }
            catch (const std::exception &e) { failed = true; r["what"] = e.what(); }
            r["calls"] = c.calls;
            if (c.calls == 1) { r["call"] = callOf(c); }
            r["failed"] = failed;
            r["x"] = vec(to.x_);
            r["status"] = static_cast<int>(to.return_status_);
            r["code"] = "none"; r["it"] = 0; r["log"] = "none"; r["ok"] = "none";
            if (ext && !failed)
            {
                if (name == "qpoases")
                {
                    const qpOASES::returnValue v = sol_oases.qpoases_return_value_;
                    r["code"] = v == qpOASES::SUCCESSFUL_RETURN ? "ok" : v == qpOASES::RET_MAX_NWSR_REACHED ? "max" : "other";
                    r["it"] = sol_oases.number_of_iterations_;
                }
                else if (name == "qpmad")
                {
                    const ::qpmad::Solver::ReturnStatus v = sol_mad.qpmad_return_value_;
                    r["code"] = v == ::qpmad::Solver::OK ? "ok" : v == ::qpmad::Solver::MAXIMAL_NUMBER_OF_ITERATIONS ? "max" : "other";
                }
                else { r["code"] = sol_prog.quadprogpp_return_value_ == 0 ? "ok" : s["code"] == "ok" ? "other" : s["code"]; }
                r["log"] = logged([&](humoto::Logger &logger) { to.log(logger, humoto::LogEntryName("r"), "sol"); });
                const std::string d = to.getStatusDescription();
                r["ok"] = d.find("Ok") != std::string::npos;
            }
            r["as"] = "none";
            if (returned)
            {
                r["as"] = json::array();
                for (std::size_t l = 0; l < got.size(); ++l) { r["as"].push_back(jAS(got[l])); }
                opt.processActiveSet(got);
            }
            return r;
        }

        int idOf(const humoto::TaskSharedPointer &p)
        {
            for (auto &t : tasks) { if (t.second->ptr(t.second) == p) { return t.first; } }
            return -1;
        }

        json qpObjective(const humoto::QPObjective &q, const bool upper)
        {
            json o;
            o["H"] = mat(units.hessian(upper ? q.getHessian() : lowerTri(q.getHessian())));
            o["g"] = vec(units.gradient(q.getGradient()));
            o["type"] = static_cast<int>(q.getHessianType());
            o["status"] = static_cast<int>(q.getStatus());
            return o;
        }

        json step(const json &s)
        {
            const std::string op = s["op"];
            json r;
            if (op == "reset")
            {
                opt.reset(s["n"].get<std::size_t>());
                r["levels"] = opt.getNumberOfLevels();
            }
            else if (op == "push")
            {
                const int id = s["task"];
                if (tasks.find(id) == tasks.end())
                {
                    tasks[id] = makeTask(s["kind"], "t" + std::to_string(id));
                }
                opt.pushTask(tasks[id]->ptr(tasks[id]), s["level"].get<std::size_t>());
                r["ok"] = true;
            }
            else if (op == "misuse")
            {
                const int id = s["task"];
                if (s["which"] == "push")
                {
                    std::shared_ptr<AnyTask> t = makeTask(s["kind"], "misuse" + std::to_string(id));
                    opt.pushTask(t->ptr(t), s["level"].get<std::size_t>());
                }
                else
                {
                    const std::size_t n = opt.getNumberOfLevels();
                    const std::size_t m = s["which"] == "fewer" ? n - 1 : n + 1;
                    humoto::ActiveSet other;
                    other.initialize(m, std::vector<std::size_t>(m, 50));
                    opt.processActiveSet(other);
                }
                r["ok"] = true;
            }
            else if (op == "form")
            {
                for (std::size_t i = 0; i < s["tasks"].size(); ++i)
                {
                    auto t = tasks.find(i + 1);
                    if (t != tasks.end())
                    {
                        t->second->next.c = s["tasks"][i]["c"];
                        t->second->next.unmod = s["tasks"][i]["unmod"];
                    }
                }
                problem.set(s["n"].get<std::size_t>());
                r["guess"] = json::array();
                if (s["guess"].get<bool>())
                {
                    opt.form(solution, as_guess, model, problem);
                    for (std::size_t l = 0; l < as_guess.size(); ++l) { r["guess"].push_back(jAS(as_guess[l])); }
                }
                else
                {
                    opt.form(solution, model, problem);
                }
                r["levels"] = json::array();
                const humoto::OptimizationProblem &o = opt;
                for (std::size_t l = 0; l < o.getNumberOfLevels(); ++l)
                {
                    json L;
                    L["tasks"] = json::array(); L["offs"] = json::array(); L["lens"] = json::array();
                    for (auto &ti : o[l].tasks_)
                    {
                        L["tasks"].push_back(idOf(ti.ptr_));
                        L["offs"].push_back(ti.location_.offset_);
                        L["lens"].push_back(ti.location_.length_);
                    }
                    L["all"] = o[l].getNumberOfConstraints();
                    L["simple"] = o[l].getNumberOfSimpleConstraints();
                    L["gen"] = o[l].getNumberOfGeneralConstraints();
                    L["eq"] = o[l].getNumberOfEqualityConstraints();
                    L["ineq"] = o[l].getNumberOfInequalityConstraints();
                    L["ineq1"] = o[l].getNumberOfInequalityConstraintsOneSided();
                    L["is_simple"] = o[l].isSimple();
                    L["is_eq"] = o[l].isEquality();
                    r["levels"].push_back(L);
                }
            }
            else if (op == "export")
            {
                r["levels"] = json::array();
                for (std::size_t l = 0; l < opt.getNumberOfLevels(); ++l)
                {
                    json L;
                    L["alu"] = guard([&]() { opt[l].getAllConstraints(calu, solution); return jALU(calu); });
                    L["gen"] = guard([&]() { opt[l].getGeneralConstraints(cgen, solution); return jALU(cgen); });
                    L["al"] = guard([&]() { opt[l].getInequalityConstraints(cal, solution); return jAL(cal); });
                    L["ab"] = guard([&]() { opt[l].getEqualityConstraints(cab, solution); return jAB(cab); });
                    L["ilu"] = guard([&]() { opt[l].getSimpleConstraints(cilu, solution); return jILU(cilu); });
                    r["levels"].push_back(L);
                }
            }
            else if (op == "objective")
            {
                r["levels"] = json::array();
                for (std::size_t l = 0; l < opt.getNumberOfLevels(); ++l)
                {
                    r["levels"].push_back(guard([&]()
                    {
                        opt[l].getObjective(H, g);
                        json o;
                        o["H"] = mat(units.hessian(lowerTri(H))); o["g"] = vec(units.gradient(g));
                        return o;
                    }));
                }
            }
            else if (op == "qp")
            {
                const bool upper = s["upper"];
                const std::string type = s["type"];
                json c;
                if (type == "ILU_ALU")
                {
                    opt.getQPProblem(qp_ilu, solution, upper);
                    r["obj"] = qpObjective(qp_ilu, upper);
                    c["gen"] = jALU(qp_ilu.getGeneralConstraints());
                    c["ilu"] = jILU(qp_ilu.getSimpleBounds());
                    c["lb"] = vec(units.bound(qp_ilu.getSolutionLowerBounds(), -1));
                    c["ub"] = vec(units.bound(qp_ilu.getSolutionUpperBounds(), -1));
                }
                else if (type == "AB_AL")
                {
                    opt.getQPProblem(qp_abal, solution, upper);
                    r["obj"] = qpObjective(qp_abal, upper);
                    c["ab"] = jAB(qp_abal.getEqualities());
                    c["al"] = jAL(qp_abal.getInequalities());
                }
                else
                {
                    opt.getQPProblem(qp_ab, solution, upper);
                    r["obj"] = qpObjective(qp_ab, upper);
                    c["ab"] = jAB(qp_ab.getEqualities());
                }
                r["con"] = c;
            }
            else if (op == "violations")
            {
                solution.x_ = units.point(toV(s["x"]));
                opt.computeViolations(viol, solution);
                r["levels"] = json::array();
                for (std::size_t l = 0; l < viol.size(); ++l)
                {
                    json L;
                    L["v"] = json::array(); L["lo"] = json::array(); L["up"] = json::array();
                    for (std::size_t i = 0; i < viol[l].size(); ++i)
                    {
                        L["v"].push_back(num(Units::scale(viol[l][i], -units.s)));
                        L["lo"].push_back(num(Units::scale(viol[l].getLower(i), -units.s)));
                        L["up"].push_back(num(Units::scale(viol[l].getUpper(i), -units.s)));
                    }
                    r["levels"].push_back(L);
                }
            }
            else if (op == "activeset")
            {
                solution.x_ = units.point(toV(s["x"]));
                opt.determineActiveSet(as, solution);
                r["levels"] = json::array();
                r["active"] = json::array();
                for (std::size_t l = 0; l < as.size(); ++l)
                {
                    r["levels"].push_back(jAS(as[l]));
                    r["active"].push_back(as[l].countActiveInequalities());
                }
            }
            else if (op == "process")
            {
                opt.initializeActiveSet(as);
                for (std::size_t l = 0; l < s["as"].size(); ++l)
                {
                    for (std::size_t i = 0; i < s["as"][l].size(); ++i)
                    {
                        as[l][i] = static_cast<humoto::ConstraintActivationType::Type>(s["as"][l][i].get<int>());
                    }
                }
                opt.processActiveSet(as);
                r["actual"] = json::array();
                for (std::size_t i = 1; i <= s["nt"].get<std::size_t>(); ++i)
                {
                    r["actual"].push_back(tasks.count(i) ? jAS(tasks[i]->actual()) : json::array());
                }
            }
            else if (op == "solve") { r = solve(s); }
            else if (op == "log")
            {
                solution.x_ = toV(s["x"]);
                opt.computeViolations(viol, solution);
                opt.determineActiveSet(as, solution);
                const std::string type = s["type"];
                const bool upper = s["upper"];
                if (type == "ILU_ALU") { opt.getQPProblem(qp_ilu, solution, upper); }
                if (type == "AB_AL") { opt.getQPProblem(qp_abal, solution, upper); }
                if (type == "AB") { opt.getQPProblem(qp_ab, solution, upper); }
                r = logged([&](humoto::Logger &logger)
                {
                    const humoto::LogEntryName p("p");
                    opt.log(logger, p, s["name"].get<std::string>());
                    solution.log(logger, p, "sol");
                    viol.log(logger, p, "viol");
                    as.log(logger, p, "as");
                    if (type == "ILU_ALU") { qp_ilu.log(logger, p, "qp"); }
                    if (type == "AB_AL") { qp_abal.log(logger, p, "qp"); }
                    if (type == "AB") { qp_ab.log(logger, p, "qp"); }
                });
            }
            else { throw std::logic_error("unknown op " + op); }
            return r;
        }
    };

    // a sequence of problems solved by the same solver object
    struct KKTMachine : public Machine
    {
        humoto::kktsolver::Solver solver;
        json step(const json &s)
        {
            humoto::OptimizationProblem opt;
            humoto::Solution solution;
            Problem problem;
            NoModel model;
            std::vector< std::shared_ptr<AnyTask> > tasks;
            opt.reset(s["levels"].size());
            for (std::size_t l = 0; l < s["levels"].size(); ++l)
            {
                for (const json &t : s["levels"][l])
                {
                    tasks.push_back(makeTask(t["kind"], "t"));
                    tasks.back()->next.c = t["c"];
                    opt.pushTask(tasks.back()->ptr(tasks.back()), l);
                }
            }
            problem.set(s["n"].get<std::size_t>());
            opt.form(solution, model, problem);
            humoto::kktsolver::SolverParameters p;
            p.solution_method_ = static_cast<humoto::kktsolver::SolverParameters::Method>(s["method"].get<int>());
            if (s["call"].get<int>() == 0)
            {
                solver.solve(solution, opt, p);
            }
            else
            {
                solver.setParameters(p);
                solver.solve(solution, opt);
            }
            json r;
            r["x"] = vec(solution.x_);
            r["status"] = static_cast<int>(solution.return_status_);
            return r;
        }
    };

    // ---------------------------------------------------------------- solution
    struct OpenProblem : public humoto::ControlProblem
    {
        humoto::SolutionStructure &st() { return sol_structure_; }
        void log(humoto::Logger &, const humoto::LogEntryName &, const std::string &) const {}
    };
    struct SolutionMachine : public Machine
    {
        OpenProblem problem;
        humoto::Solution sols[2];

        json obsStruct(const humoto::SolutionStructure &st, const json &ids)
        {
            json r;
            r["n"] = st.getNumberOfVariables();
            r["nonempty"] = st.isNonEmpty();
            r["locs"] = json::array();
            for (const json &id : ids)
            {
                const humoto::Location l = st.getSolutionPartLocation(id.get<std::string>());
                json jl;
                jl["off"] = l.offset_; jl["len"] = l.length_;
                r["locs"].push_back(jl);
            }
            return r;
        }
        json step(const json &s)
        {
            const std::string op = s["op"];
            humoto::SolutionStructure &st = problem.st();
            if (op == "addpart") { st.addSolutionPart(s["id"].get<std::string>(), s["len"].get<std::size_t>()); return obsStruct(st, s["ids"]); }
            if (op == "resetstruct") { st.reset(); return obsStruct(st, s["ids"]); }
            if (op == "matpart")
            {
                Eigen::MatrixXd M = toM(s["M"]);
                const Eigen::MatrixXd &cM = M;
                json r;
                r["M"] = mat(st.getMatrixPart(s["id"].get<std::string>(), M));
                r["cols"] = st.getMatrixPart(s["id"].get<std::string>(), cM).cols();
                return r;
            }
            const int k = s["k"].get<int>() - 1;
            humoto::Solution &sol = sols[k];
            const humoto::Solution &csol = sols[k];
            json r;
            if (op == "getpart")
            {
                r["x"] = vec(csol.getSolutionPart(s["id"].get<std::string>()));
                if (r["x"] != vec(sol.getSolutionPart(s["id"].get<std::string>()))) { r["x"] = "const and non-const versions disagree"; }
                return r;
            }
            if (op == "getdata") { r["x"] = vec(csol.getData(humoto::Location(s["off"].get<std::size_t>(), s["len"].get<std::size_t>()))); return r; }
            if (op == "init")
            {
                if (st.isNonEmpty()) { problem.initSolutionStructure(sol); } else { sol.initialize(st); }
            }
            else if (op == "initval") { sol.initialize(st, s["v"].get<double>()); }
            else if (op == "initold")
            {
                if (s["via"].get<int>() == 0) { problem.guessSolution(sol, sols[1 - k]); } else { sol.initialize(st, sols[1 - k]); }
            }
            else if (op == "setpart") { sol.getSolutionPart(s["id"].get<std::string>()) = toV(s["v"]); }
            else { throw std::logic_error("unknown op"); }
            r = obsStruct(sol, s["ids"]);
            r["x"] = vec(sol.get_x());
            r["size"] = sol.x_.size();
            return r;
        }
    };

    // ----------------------------------------------------------- generic tasks
    struct GenericTaskMachine : public Machine
    {
        humoto::TaskSharedPointer task;
        boost::shared_ptr<humoto::TaskZeroVariables> zero;
        boost::shared_ptr<humoto::TaskZeroSelectedVariables> selected;
        boost::shared_ptr<humoto::TaskInfeasibleInequality> infeasible;
        humoto::OptimizationProblem opt;
        OpenProblem problem;
        NoModel model;
        humoto::Solution solution;

        double gain() const { return zero ? zero->getGain() : selected ? selected->getGain() : infeasible->getGain(); }
        json step(const json &s)
        {
            const std::string op = s["op"];
            json r;
            if (op == "new")
            {
                const double g = s["gain"];
                if (s["type"] == "zero")
                {
                    zero.reset(new humoto::TaskZeroVariables(g, "task", s["varid"].get<std::string>()));
                    task = zero;
                }
                else if (s["type"] == "selected")
                {
                    selected.reset(new humoto::TaskZeroSelectedVariables(toI(s["sel"]), g));
                    task = selected;
                }
                else
                {
                    infeasible.reset(new humoto::TaskInfeasibleInequality(g));
                    task = infeasible;
                }
                opt.reset(1);
                opt.pushTask(task, 0);
                r["gain"] = gain();
            }
            else if (op == "setgain")
            {
                const double g = s["gain"];
                if (zero) { zero->setGain(g); } else if (selected) { selected->setGain(g); } else { infeasible->setGain(g); }
                r["gain"] = gain();
            }
            else if (op == "setvarid") { zero->setVariablesID(s["id"].get<std::string>()); r["ok"] = true; }
            else if (op == "setparts") { r["ok"] = true; }
            else
            {
                problem.st().reset();
                for (std::size_t i = 0; i < s["parts"].size(); ++i)
                {
                    problem.st().addSolutionPart("p" + std::to_string(i + 1), s["parts"][i].get<std::size_t>());
                }
                opt.form(solution, model, problem);
                humoto::constraints::ContainerALU c;
                opt[0].getAllConstraints(c, solution);
                r = jALU(c);
                r["eq"] = opt[0].isEquality();
            }
            return r;
        }
    };

    // ---------------------------------------------------------- solver protocol
    class MockParameters : public humoto::SolverParametersBase
    {
        public:
            MockParameters() {}
    };
    class MockSolver : public humoto::QPSolverMixin< humoto::SolverGuessSolutionActiveSet<MockParameters> >
    {
        public:
            std::vector<std::string> calls_;
            humoto::SolverStatus::Status status_;
            bool guess_ok_;
            MockSolver() : status_(humoto::SolverStatus::OK), guess_ok_(true) {}
        protected:
            void reset() { calls_.push_back("reset"); }
            void initialize(const humoto::OptimizationProblem &, const humoto::SolutionStructure &) { calls_.push_back("initialize"); }
            void setSolutionGuess(const humoto::Solution &g) { calls_.push_back(g.x_.size() == 1 && g.x_[0] == 42 ? "guess" : "wrong guess"); }
            void setActiveSet(const humoto::ActiveSet &a, const humoto::OptimizationProblem &)
            {
                calls_.push_back(a.size() == 1 && a[0].size() == 7 ? "activeset" : "wrong active set");
            }
            void getActiveSet(humoto::ActiveSet &a, const humoto::OptimizationProblem &)
            {
                calls_.push_back("getactiveset");
                a.initialize(1, std::vector<std::size_t>(1, 3));
            }
            void solveHierarchy(humoto::Solution &solution, const humoto::OptimizationProblem &)
            {
                calls_.push_back("solve");
                solution.return_status_ = status_;
            }
    };
    struct SolverMachine : public Machine
    {
        MockSolver solver;
        json calls()
        {
            // the order of the two guesses is irrelevant
            std::vector<std::string> c = solver.calls_;
            for (std::size_t i = 0; i + 1 < c.size(); ++i)
            {
                if (c[i] == "guess" && c[i + 1] == "activeset") { std::swap(c[i], c[i + 1]); }
            }
            return json(c);
        }
        json step(const json &s)
        {
            const std::string op = s["op"];
            json r;
            if (op == "lastcalls") { r["calls"] = calls(); return r; }
            solver.calls_.clear();
            if (op == "setpar")
            {
                MockParameters p;
                p.crash_on_any_failure_ = s["crash"];
                p.solve_two_levels_as_qp_ = s["asqp"];
                solver.setParameters(p);
                r["calls"] = calls();
                return r;
            }
            humoto::OptimizationProblem opt;
            humoto::Solution solution, guess;
            humoto::ActiveSet as, as_guess;
            Problem problem;
            NoModel model;
            std::vector< std::shared_ptr<AnyTask> > tasks;
            const std::size_t nl = s["shape"]["levels"];
            opt.reset(nl);
            for (std::size_t l = 0; l < nl; ++l)
            {
                const bool eq = l + 1 < nl || s["shape"]["eq"].get<bool>();
                tasks.push_back(makeTask(eq ? "AB" : "AL", "t"));
                tasks.back()->next.c = json::parse("{\"A\":[[1]],\"w\":1,\"B\":[1],\"L\":[1]}");
                opt.pushTask(tasks.back()->ptr(tasks.back()), l);
            }
            problem.set(1);
            opt.form(solution, model, problem);
            guess.initialize(problem.getSolutionStructure(), 42);
            as_guess.initialize(1, std::vector<std::size_t>(1, 7));
            solver.status_ = static_cast<humoto::SolverStatus::Status>(s["status"].get<int>());
            const bool sg = s["sg"], ag = s["ag"], ret = s["ret"];
            if (s["par"].get<bool>())
            {
                MockParameters p;
                p.crash_on_any_failure_ = s["crash"];
                p.solve_two_levels_as_qp_ = s["asqp"];
                solver.solve(solution, opt, p);
            }
            else if (!sg && !ag && !ret) { solver.solve(solution, opt); }
            else if (sg && !ag && !ret) { solver.solve(solution, opt, guess); }
            else if (!sg && ag && ret) { solver.solve(solution, as, opt, as_guess); }
            else if (!sg && ag && !ret) { solver.solve(solution, opt, as_guess); }
            else if (!sg && !ag && ret) { solver.solve(solution, as, opt); }
            else if (sg && ag && ret) { solver.solve(solution, as, opt, guess, as_guess); }
            else if (sg && ag && !ret) { solver.solve(solution, opt, guess, as_guess); }
            else { solver.solve(solution, as, opt, guess); }
            r["status"] = static_cast<int>(solution.return_status_);
            r["calls"] = calls();
            r["gotas"] = as.size() == 1 && as[0].size() == 3;
            return r;
        }
    };
}

verif::Machine *verif::makeMachine(const std::string &name, const json &c)
{
    units = Units();
    if (c.count("units")) { units.set(c["units"]); }
    if (name == "hierarchy") { return new HierarchyMachine(); }
    if (name == "kkt") { return new KKTMachine(); }
    if (name == "solution") { return new SolutionMachine(); }
    if (name == "gtask") { return new GenericTaskMachine(); }
    if (name == "solver") { return new SolverMachine(); }
    throw std::logic_error("unknown machine " + name);
}
