// Replay harness: motion generation for a wheeled robot (pepper_mpc).
#include "common.h"
#include "humoto/rigid_body.h"
#include "humoto/pepper_mpc.h"
#include <deque>

using namespace verif;
namespace
{
    namespace pm = humoto::pepper_mpc;
    struct Robot : public pm::RobotParameters { void done() { finalize(); } };

    json vec2(const etools::Vector2 &v) { json r; r.push_back(num(v[0])); r.push_back(num(v[1])); return r; }
    json pairs(const Eigen::VectorXd &v)
    {
        json r = json::array();
        for (int i = 0; i + 1 < v.size(); i += 2) { r.push_back(vec2(v.segment(i, 2))); }
        return r;
    }
    json sixes(const Eigen::VectorXd &v)
    {
        json r = json::array();
        for (int i = 0; i + 5 < v.size(); i += 6) { r.push_back(vec(v.segment(i, 6))); }
        return r;
    }

    struct PepperMachine : public Machine
    {
        pm::MPCforMG mpc, unparsed;
        pm::Model model;
        Robot robot;
        pm::ModelState next_state;
        humoto::OptimizationProblem opt;
        humoto::Solution solution, guess, old;
        humoto::ActiveSet actual, active_guess;
        std::deque<pm::MotionParameters> queue;
        bool single;
        std::size_t N, T;
        double unit, gain;

        static double g() { return humoto::g_gravitational_acceleration; }
        json masses(const pm::ModelState &s) const
        {
            json r;
            r["b"] = num(s.base_mass_); r["d"] = num(s.body_mass_);
            r["hb"] = num(s.base_state_.position_.z() / g()); r["hd"] = num(s.body_state_.position_.z() / g());
            return r;
        }
        json observe(const pm::ModelState &s) const
        {
            json r;
            r["b"] = vec(model.getMPCBaseState(s));
            r["d"] = vec(model.getMPCBodyState(s));
            r["ms"] = masses(s);
            r["rot"] = json::array({num(std::cos(s.base_state_.rpy_.z())), num(std::sin(s.base_state_.rpy_.z()))});
            if (s.base_state_.rpy_[0] != 0. || s.base_state_.rpy_[1] != 0.) { r["rot"] = "not flat"; }
            if (s.base_state_.velocity_.z() != 0. || s.body_state_.velocity_.z() != 0. || s.base_state_.acceleration_.z() != 0.
                || s.body_state_.acceleration_.z() != 0.) { r["b"] = "vertical motion"; }
            r["cop"] = vec2(model.getCoP(s));
            return r;
        }
        json observe() const
        {
            json r = observe(model.state_);
            // accessors of the model show the same state
            if (model.getMPCState().head(6) != model.getMPCBaseState() || model.getMPCState().tail(6) != model.getMPCBodyState()) { r["b"] = "getMPCState"; }
            if (model.getTheta() != model.state_.base_state_.rpy_.z() || model.getBaseOrientation() != model.getTheta()) { r["rot"] = "getTheta"; }
            if (model.current_base_position_ != etools::Vector2(model.state_.base_state_.position_.head(2))) { r["b"] = "current_base_position"; }
            if (model.getCoP() != model.getCoP(model.state_)) { r["cop"] = "getCoP"; }
            return r;
        }
        void place(const json &j)
        {
            const Eigen::VectorXd b = toV(j["b"]), d = toV(j["d"]);
            const json &ms = j["ms"];
            const double hb = toD(ms["hb"]) * g(), hd = toD(ms["hd"]) * g();
            pm::ModelState st(hb, hd, d[0]);
            st.set(toD(ms["b"]), toD(ms["d"]), etools::Vector3(b[0], b[3], st.base_state_.position_.z()), etools::Vector3(d[0], d[3], st.body_state_.position_.z()));
            st.base_state_.velocity_ << b[1], b[4], 0.;
            st.base_state_.acceleration_ << b[2], b[5], 0.;
            st.body_state_.velocity_ << d[1], d[4], 0.;
            st.body_state_.acceleration_ << d[2], d[5], 0.;
            st.base_state_.rpy_ << 0., 0., j["k"].get<int>() * unit;
            model.updateState(st);
        }
        void plan(const json &q)
        {
            queue.clear();
            for (const json &e : q)
            {
                pm::MotionParameters p;
                p.base_velocity_ = toV(e["vel"]);
                p.base_position_ = toV(e["pos"]);
                p.base_angular_velocity_ = e["w"].get<int>() * unit / (T / 1000.);
                p.duration_ms_ = e["dur"];
                queue.push_back(p);
            }
        }
        json durations() const
        {
            json r = json::array();
            for (auto &p : queue) { r.push_back(p.duration_ms_); }
            return r;
        }
        void configure(const json &p)
        {
            N = p["N"]; T = p["T"];
            single = p["single"];
            gain = toD(p["gain"]);
            unit = p["quarter"].get<bool>() ? std::acos(0.) : std::atan2(3., 4.);
            mpc.setParameters(pm::MPCParameters(N, T, T / p["sub"].get<std::size_t>()));
            // radii of circles around squares
            robot.base_radius_ = toD(p["rc"]) * std::sqrt(2.);
            robot.max_nominal_base_velocity_ = toD(p["rv"]) * std::sqrt(2.);
            robot.max_nominal_base_acceleration_ = toD(p["ra"]) * std::sqrt(2.);
            robot.max_base_velocity_ = 100.;
            robot.max_base_acceleration_ = 100.;
            robot.body_bounds_ = toM(p["body"]);
            robot.done();
            const pm::ModelState state = model.state_;
            model.setParameters(robot);
            model.updateState(state);
            opt.reset(10);
            opt.pushTask(boost::make_shared<pm::TaskBaseAccelerationBounds>(), 0);
            opt.pushTask(boost::make_shared<pm::TaskBaseVelocityBounds>(), 1);
            opt.pushTask(boost::make_shared<pm::TaskBodyPositionBounds>(), 2);
            opt.pushTask(boost::make_shared<pm::TaskCoPPositionBounds>(), 3);
            opt.pushTask(boost::make_shared<pm::TaskBaseJerkMinimization>(gain), 4);
            opt.pushTask(boost::make_shared<pm::TaskBasePositionReference>(gain), 5);
            opt.pushTask(boost::make_shared<pm::TaskBaseVelocityReference>(gain), 6);
            opt.pushTask(boost::make_shared<pm::TaskBodyJerkMinimization>(gain), 7);
            opt.pushTask(boost::make_shared<pm::TaskCoPCentering>(gain), 8);
            opt.pushTask(boost::make_shared<pm::TaskBodyPositionReference>(gain), 9);
        }
        json setup(const json &s)
        {
            configure(s["par"]);
            place(s["model"]);
            plan(s["q"]);
            json r;
            r["model"] = observe();
            r["length"] = mpc.getPreviewHorizonLength();
            return r;
        }
        json update(const json &s)
        {
            const int how = s["how"];
            humoto::ControlProblemStatus::Status st;
            if (single)
            {
                pm::MotionParameters &p = queue.front();
                st = how == 1 ? mpc.update(p, model) : how == 2 ? mpc.updateAndShift(p, model) : mpc.updateAndShift(p, model, s["t"].get<int>());
            }
            else
            {
                st = how == 1 ? mpc.update(queue, model) : how == 2 ? mpc.updateAndShift(queue, model) : mpc.updateAndShift(queue, model, s["t"].get<int>());
            }
            json r;
            r["q"] = durations();
            if (st != humoto::ControlProblemStatus::OK) { r["status"] = st == humoto::ControlProblemStatus::STOPPED ? "stopped" : "other"; return r; }
            r["status"] = "ok";
            const pm::PreviewHorizon &h = mpc.preview_horizon_;
            r["rot"] = json::array(); r["vel"] = json::array(); r["pos"] = json::array(); r["T"] = json::array(); r["ms"] = json::array();
            for (std::size_t i = 0; i < h.getPreviewHorizonLength(); ++i)
            {
                const etools::Matrix2 R = h.getRotationMatrix(i);
                if (std::abs(R(0, 0) - R(1, 1)) > 1e-9 || std::abs(R(0, 1) + R(1, 0)) > 1e-9) { r["rot"].push_back("not a rotation"); }
                else { r["rot"].push_back(json::array({num(R(0, 0)), num(R(1, 0))})); }
                r["vel"].push_back(vec2(h.getBaseReferenceVelocity(i)));
                r["pos"].push_back(vec2(h.getBaseReferencePosition(i)));
                const pm::PreviewHorizonInterval &v = h.intervals_[i];
                r["T"].push_back(std::abs(v.T_ * 1000. - v.T_ms_) < 1e-9 ? json(v.T_ms_) : json("T and T_ms differ"));
                json ms;
                ms["b"] = num(v.base_mass_); ms["d"] = num(v.body_mass_); ms["hb"] = num(v.base_height_ / g()); ms["hd"] = num(v.body_height_ / g());
                r["ms"].push_back(ms);
            }
            r["nvar"] = mpc.getSolutionStructure().getNumberOfVariables();
            return r;
        }
        json solve(const json &s)
        {
            json r;
            opt.form(solution, guess, active_guess, model, mpc, old);
            r["guess"]["b"] = pairs(guess.getSolutionPart("base_vel"));
            r["guess"]["d"] = pairs(guess.getSolutionPart("body_pos"));
            r["acts"] = json::array();
            for (std::size_t k = 0; k < 4; ++k)
            {
                json a = json::array();
                for (std::size_t i = 0; i < active_guess[k].size(); ++i) { a.push_back(int(active_guess[k][i])); }
                r["acts"].push_back(a);
            }
            solution.x_.setConstant(std::numeric_limits<double>::quiet_NaN());
            for (std::size_t i = 0; i < N; ++i)
            {
                solution.getSolutionPart("base_vel").segment(2 * i, 2) = toV(s["b"][i]);
                solution.getSolutionPart("body_pos").segment(2 * i, 2) = toV(s["d"][i]);
            }
            opt.initializeActiveSet(actual);
            for (std::size_t k = 0; k < 4; ++k)
                for (std::size_t i = 0; i < 2 * N; ++i) { actual[k][i] = static_cast<humoto::ConstraintActivationType::Type>(s["acts"][k][i].get<int>()); }
            opt.processActiveSet(actual);
            old = solution;
            return r;
        }
        // distances from the bounds, in the order of the rows
        json margins(const std::size_t level)
        {
            humoto::constraints::ContainerALU c;
            opt[level].getAllConstraints(c, solution);
            const Eigen::VectorXd y = c.getA() * solution.x_;
            json r = json::array();
            for (int i = 0; i + 1 < y.size(); i += 2)
            {
                r.push_back(json::array({vec2((y - c.getLowerBounds()).segment(i, 2)), vec2((c.getUpperBounds() - y).segment(i, 2))}));
            }
            return r;
        }
        json residual(const std::size_t level)
        {
            humoto::constraints::ContainerALU c;
            opt[level].getAllConstraints(c, solution);
            if (c.getLowerBounds() != c.getUpperBounds()) { return "not an equality"; }
            return pairs(c.getA() * solution.x_ - c.getLowerBounds());
        }
        json predict(const json &)
        {
            unparsed = mpc;
            mpc.parseSolution(solution);
            json r;
            r["cop"] = pairs(mpc.cop_profile_);
            r["jerk"] = pairs(mpc.base_jerk_profile_);
            r["base"] = sixes(mpc.cstate_profile_.head(6 * N));
            r["body"] = sixes(mpc.cstate_profile_.tail(mpc.cstate_profile_.size() - 6 * N));
            return r;
        }
        json tasks(const json &)
        {
            json r;
            r["baseacc"] = margins(0); r["basevel"] = margins(1); r["bodypos"] = margins(2); r["copbounds"] = margins(3);
            r["basejerk"] = residual(4); r["baseref"] = residual(5); r["velref"] = residual(6); r["bodyjerk"] = residual(7); r["copcenter"] = residual(8);
            return r;
        }
        json at(const json &s)
        {
            const std::size_t t = s["t"];
            json r2 = guard([&]() { return observe(mpc.getModelState(model, t / 1000.)); });
            const pm::ModelState st = mpc.getModelState(model, t);
            json r = observe(st);
            if (r2.count("throws")) { r["b"] = "thrown when time is in seconds"; }
            else
            {
                for (std::size_t i = 0; i < 6; ++i)
                    for (const char *p : {"b", "d"})
                        if (std::abs(r2[p][i].get<double>() - r[p][i].get<double>()) > 1e-7) { r[p] = "differs when time is in seconds"; break; }
            }
            r["turn"] = num(st.base_state_.rpy_.z() / unit);
            return r;
        }
        json next(const json &)
        {
            pm::ModelState a = unparsed.getNextModelState(solution, model);
            pm::ModelState b = mpc.getNextModelState(model);
            json r;
            const bool same = observe(a) == observe(b);
            model.updateState(b);
            r["model"] = observe();
            if (!same) { r["model"] = "the solution matters"; }
            return r;
        }
        json step(const json &s)
        {
            const std::string op = s["op"];
            if (op == "setup") { return setup(s); }
            if (op == "update") { return update(s); }
            if (op == "shift")
            {
                if (single) { mpc.shift(queue.front(), s["t"].get<int>()); } else { mpc.shift(queue, s["t"].get<int>()); }
                json r; r["q"] = durations(); return r;
            }
            if (op == "plan") { plan(s["q"]); json r; r["q"] = durations(); return r; }
            if (op == "retune") { configure(s["par"]); old = humoto::Solution(); json r; r["model"] = observe(); return r; }
            if (op == "model") { place(s["model"]); json r; r["model"] = observe(); return r; }
            if (op == "solve") { return solve(s); }
            if (op == "predict") { return predict(s); }
            if (op == "tasks") { return tasks(s); }
            if (op == "bodyref") { json r; r["v"] = residual(9); return r; }
            if (op == "at") { return at(s); }
            if (op == "next") { return next(s); }
            throw std::logic_error("unknown op");
        }
    };
}

verif::Machine *verif::makeMachine(const std::string &name, const json &c)
{
    if (name == "pepper") { return new PepperMachine(); }
    throw std::logic_error("unknown machine " + name);
}
