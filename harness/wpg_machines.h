#pragma once
using namespace verif;
namespace
{
    using namespace humoto::walking;

    template<class P> void setStanceParameters(P &p, const json &j)
    {
        p.first_stance_ = static_cast<StanceType::Type>(j["first"].get<int>());
        p.first_ss_type_ = static_cast<StanceType::Type>(j["fss"].get<int>());
        p.num_steps_ = j["n"];
        p.ss_duration_ms_ = j["ss"];
        p.tds_duration_ms_ = j["tds"];
        p.first_stance_duration_ms_ = j["fd"];
        p.last_stance_duration_ms_ = j["ld"];
    }
    inline json stanceJson(const Stance &s)
    {
        json r;
        r["type"] = int(s.type_);
        r["sub"] = int(s.subtype_);
        r["pss"] = int(s.previous_nonds_stance_type_);
        r["pnt"] = int(s.previous_nontds_stance_type_);
        r["dur"] = s.duration_ms_;
        return r;
    }
    inline json fsmJson(const StanceFiniteStateMachine &f)
    {
        json r = stanceJson(f.current_stance_);
        r["time"] = f.current_time_ms_;
        r["left"] = f.ss_states_to_termination_;
        r["tds"] = f.is_tds_started_;
        return r;
    }

    struct StanceMachine : public Machine
    {
        StanceFiniteStateMachine fsm;
        json step(const json &s)
        {
            const std::string op = s["op"];
            json r;
            if (op == "set")
            {
                StanceFSMParameters p;
                setStanceParameters(p, s["par"]);
                if (s["how"] == "ctor") { fsm = StanceFiniteStateMachine(p); }
                else { fsm.setParameters(p); }
                return fsmJson(fsm);
            }
            else if (op == "time") { fsm.shiftTime(s["t"].get<std::size_t>()); return fsmJson(fsm); }
            else if (op == "jump") { fsm.shiftStance(); return fsmJson(fsm); }
            else if (op == "next") { r["st"] = stanceJson(fsm.getNextStance()); }
            else if (op == "preview")
            {
                r["l"] = json::array();
                for (const Stance &st : fsm.previewStances(s["t"].get<std::size_t>()))
                {
                    json e;
                    e["st"] = stanceJson(st);
                    // the time within the preview; the whole duration is separate
                    e["dur"] = st.duration_ms_;
                    e["total"] = st.total_duration_ms_;
                    e["st"].erase("dur");
                    r["l"].push_back(e);
                }
            }
            else if (op == "support")
            {
                r["foot"] = determineSupportFoot(static_cast<StanceType::Type>(s["t"].get<int>())) == humoto::LeftOrRight::LEFT ? "L" : "R";
                return r;
            }
            else { throw std::logic_error("unknown op"); }
            r["state"] = fsmJson(fsm);
            return r;
        }
    };

    // -------------------------------------------------------------- files
    // a configuration file of the given section
    inline std::string writeSection(const std::string &section, const std::vector< std::pair<std::string, double> > &entries)
    {
        const std::string name = "section.msgpack";
        std::ofstream f(name.c_str(), std::ios::binary);
        ::msgpack::packer<std::ofstream> p(f);
        p.pack_map(1);
        p.pack(section);
        p.pack_map(entries.size());
        for (auto &e : entries) { p.pack(e.first); p.pack(e.second); }
        return name;
    }

    inline json vec2(const etools::Vector2 &v, const double k = 1.) { json r; r.push_back(num(v[0] * k)); r.push_back(num(v[1] * k)); return r; }
    // bounds: a row per coordinate
    inline json bounds2(const etools::Matrix2 &m) { return mat(m); }
    inline json pairs(const Eigen::VectorXd &v, const double k = 1.)
    {
        json r = json::array();
        for (int i = 0; i + 1 < v.size(); i += 2) { r.push_back(vec2(v.segment(i, 2), k)); }
        return r;
    }

    // ---------------------------------------------------------------- walk
    struct WalkMachine : public Machine
    {
        humoto::wpg04::WalkParameters walk;
        StanceFiniteStateMachine fsm;
        humoto::wpg04::Model model;
        humoto::wpg04::MPCforWPG wpg, unparsed;
        humoto::wpg04::ModelState next_state;
        humoto::OptimizationProblem opt;
        humoto::Solution solution, old;
        RobotFootParameters fp;
        humoto::ActiveSet guess, actual;
        std::size_t tick;
        int N;
        double w, height, gain;

        json com(const Eigen::VectorXd &c) const
        {
            json r = json::array();
            for (int i = 0; i < c.size(); ++i) { r.push_back(num(c[i] / std::pow(w, i % 3))); }
            return r;
        }
        json foot(const humoto::rigidbody::RigidBodyState &s) const
        {
            json r;
            r["p"] = vec2(s.position_.head(2));
            r["z"] = num(s.position_.z());
            r["r"] = json::array({num(std::cos(s.rpy_[2])), num(std::sin(s.rpy_[2]))});
            if (s.rpy_[0] != 0. || s.rpy_[1] != 0.) { r["r"] = "not flat"; }
            return r;
        }
        humoto::rigidbody::RigidBodyState foot(const json &j) const
        {
            humoto::rigidbody::RigidBodyState s;
            s.setDefaults();
            s.position_ << toD(j["p"][0]), toD(j["p"][1]), toD(j["z"]);
            s.rpy_ << 0., 0., std::atan2(toD(j["r"][1]), toD(j["r"][0]));
            return s;
        }
        json support() const { return vec2(model.current_support_position_); }
        json rot(const etools::Matrix2 &m) const
        {
            if (std::abs(m(0, 0) - m(1, 1)) > 1e-9 || std::abs(m(0, 1) + m(1, 0)) > 1e-9) { return "not a rotation"; }
            return json::array({num(m(0, 0)), num(m(1, 0))});
        }
        json landing()
        {
            json r;
            if (model.state_.stance_type_ != StanceType::LSS && model.state_.stance_type_ != StanceType::RSS) { r["none"] = true; return r; }
            if (wpg.preview_horizon_.getNumberOfVariableSteps() == 0) { r["none"] = true; return r; }
            return foot(wpg.getFootLandingState(model));
        }

        // the controller, what is asked from it, limits of the steps
        void configure(const json &p)
        {
            N = p["N"];
            gain = toD(p["gain"]);
            walk.com_velocity_ = toV(p["cv"]) * w;
            walk.first_stance_com_velocity_ = toV(p["fcv"]) * w;
            walk.last_stance_com_velocity_ = toV(p["lcv"]) * w;
            fp = RobotFootParameters();
            fp.readConfig<humoto::config::msgpack::Reader>(writeSection("RobotFootParameters", {
                {"max_step_len", toD(p["msl"])}, {"min_feet_dist", toD(p["mind"])}, {"max_feet_dist", toD(p["maxd"])},
                {"feet_dist_default", toD(p["dd"])}, {"foot_length", toD(p["fl"])}, {"foot_width", toD(p["fw"])}}));
            model.setFootParameters(fp);
            wpg.setParameters(humoto::wpg04::MPCParameters(N, p["s"].get<std::size_t>() * tick, tick, p["tds"].get<std::size_t>() * tick));
            opt.reset(5);
            opt.pushTask(boost::make_shared<humoto::wpg04::TaskCoPBounds>(), 0);
            opt.pushTask(boost::make_shared<humoto::wpg04::TaskFootstepBounds>(p["fix"].get<bool>()), 0);
            opt.pushTask(boost::make_shared<humoto::wpg04::TaskCoMVelocity>(gain), 1);
            opt.pushTask(boost::make_shared<humoto::wpg04::TaskCoPVelocity>(gain), 2);
            opt.pushTask(boost::make_shared<humoto::wpg04::TaskTerminalConstraint>(gain), 3);
            opt.pushTask(boost::make_shared<humoto::wpg04::TaskCoPPosition>(gain), 4);
        }
        json setup(const json &s)
        {
            const json &p = s["par"];
            tick = p["tick"];
            w = std::log(2.) / (tick / 1000.);
            height = humoto::g_gravitational_acceleration / (w * w);
            setStanceParameters(walk, p);
            walk.ss_duration_ms_ *= tick; walk.tds_duration_ms_ *= tick;
            walk.first_stance_duration_ms_ *= tick; walk.last_stance_duration_ms_ *= tick;
            walk.theta_increment_ = std::atan2(toD(p["inc"][1]), toD(p["inc"][0]));
            fsm.setParameters(walk);
            configure(p);
            humoto::wpg04::ModelState st;
            st.set(fp, height);
            const StanceType::Type first = static_cast<StanceType::Type>(p["first"].get<int>());
            st.set(StanceType::DS, st.com_state_, foot(s["feet"]["l"]), foot(s["feet"]["r"]));
            model.updateState(st);                                  // both feet are known
            st.set(first, st.com_state_, foot(s["feet"]["l"]), foot(s["feet"]["r"]));
            model.updateState(st);
            json r;
            r["support"] = support();
            r["length"] = wpg.getPreviewHorizonLength();
            return r;
        }
        json update(const json &s)
        {
            Eigen::VectorXd c(6);
            for (int k = 0; k < 2; ++k) { c.segment(3 * k, 3) << toD(s["com"][k]["c"]), w * toD(s["com"][k]["v"]), w * w * toD(s["com"][k]["a"]); }
            model.state_.com_state_.position_ << c[0], c[3], height;
            model.state_.com_state_.velocity_ << c[1], c[4], 0.;
            model.state_.com_state_.acceleration_ << c[2], c[5], 0.;
            json r;
            if (wpg.update(model, fsm, walk) != humoto::ControlProblemStatus::OK) { r["status"] = "stopped"; return r; }
            r["status"] = "ok";
            const humoto::wpg04::PreviewHorizon &h = wpg.preview_horizon_;
            r["steps"] = json::array();
            for (auto i : h.variable_steps_indices_) { r["steps"].push_back(i); }
            r["T"] = json::array(); r["support"] = json::array(); r["bounds"] = json::array();
            for (std::size_t i = 0; i < h.intervals_.size(); ++i)
            {
                const double T = double(h.intervals_[i].T_ms_) / tick;
                r["T"].push_back(std::abs(h.intervals_[i].T_ * 1000. / tick - T) < 1e-9 ? json(T) : json("T and T_ms differ"));
                json e;
                const humoto::wpg04::WalkState &st = h.getWalkState(i);
                e["type"] = int(st.type_);
                e["rot"] = rot(h.getRotationMatrix(i));
                e["cop"] = bounds2(h.getCoPBounds(i));
                e["cvel"] = vec2(h.intervals_[i].cvel_ref_, 1. / w);
                if (std::abs(h.intervals_[i].omega_ - w) > 1e-6 * w) { e["type"] = "omega"; }
                r["support"].push_back(e);
            }
            for (std::size_t i = 0; i < h.getNumberOfVariableSteps(); ++i) { r["bounds"].push_back(bounds2(h.getFootPositionBounds(i))); }
            r["nvar"] = wpg.getSolutionStructure().getNumberOfVariables();
            return r;
        }
        // bounds of the variables of the given part in the given level
        json box(const std::size_t level, const char *part)
        {
            humoto::constraints::ContainerALU c;
            opt[level].getAllConstraints(c, solution);
            const humoto::Location loc = solution.getSolutionPartLocation(part);
            Eigen::MatrixXd b(loc.length_, 2);
            b.setConstant(std::numeric_limits<double>::quiet_NaN());
            if (std::size_t(c.getA().rows()) != solution.getNumberOfVariables()) { return "number of bounds"; }
            for (int i = 0; i < c.getA().rows(); ++i)
            {
                for (int j = 0; j < c.getA().cols(); ++j)
                {
                    if (c.getA()(i, j) == 0.) { continue; }
                    const int k = j - int(loc.offset_);
                    if (c.getA()(i, j) != 1.) { return "not a bound"; }
                    if (k < 0 || k >= b.rows()) { continue; }
                    b(k, 0) = c.getLowerBounds()[i];
                    b(k, 1) = c.getUpperBounds()[i];
                }
            }
            json r = json::array();
            for (int i = 0; i + 1 < b.rows(); i += 2) { r.push_back(mat(b.middleRows(i, 2))); }
            return r;
        }
        Eigen::VectorXd residual(const std::size_t level)
        {
            humoto::constraints::ContainerALU c;
            opt[level].getAllConstraints(c, solution);
            if (c.getLowerBounds() != c.getUpperBounds()) { throw std::logic_error("not an equality"); }
            return c.getA() * solution.x_ - c.getLowerBounds();
        }
        json solve(const json &s)
        {
            json r;
            humoto::Solution g;
            wpg.guessSolution(g, old);
            r["guess"]["u"] = pairs(g.getSolutionPart("CoP"));
            r["guess"]["d"] = pairs(g.getSolutionPart("footpos"));
            opt.form(solution, guess, model, wpg);
            // rows of the first level: bounds of the CoP, bounds of the steps
            const std::size_t nc = s["acts"]["cop"].size();
            r["acts"]["cop"] = json::array(); r["acts"]["d"] = json::array();
            for (std::size_t i = 0; i < guess[0].size(); ++i) { r["acts"][i < nc ? "cop" : "d"].push_back(static_cast<int>(guess[0][i])); }
            solution.x_.setConstant(std::numeric_limits<double>::quiet_NaN());
            for (std::size_t i = 0; i < s["u"].size(); ++i) { solution.getSolutionPart("CoP").segment(2 * i, 2) = toV(s["u"][i]); }
            for (std::size_t i = 0; i < s["d"].size(); ++i) { solution.getSolutionPart("footpos").segment(2 * i, 2) = toV(s["d"][i]); }
            opt.initializeActiveSet(actual);
            for (std::size_t i = 0; i < s["acts"]["cop"].size(); ++i) { actual[0][i] = static_cast<humoto::ConstraintActivationType::Type>(s["acts"]["cop"][i].get<int>()); }
            for (std::size_t i = 0; i < s["acts"]["d"].size(); ++i) { actual[0][nc + i] = static_cast<humoto::ConstraintActivationType::Type>(s["acts"]["d"][i].get<int>()); }
            opt.processActiveSet(actual);
            r["copbounds"] = box(0, "CoP");
            r["stepbounds"] = box(0, "footpos");
            r["copzero"] = pairs(residual(4));
            old = solution;
            return r;
        }
        json predict(const json &s)
        {
            unparsed = wpg;
            wpg.parseSolution(solution);
            json r;
            r["cop"] = pairs(wpg.cop_profile);
            r["foot"] = pairs(wpg.footpos_profile);
            r["rate"] = pairs(wpg.dcop_profile, 1. / w);
            r["state"] = json::array();
            for (int i = 0; i < wpg.cstate_profile.size() / 6; ++i) { r["state"].push_back(com(wpg.cstate_profile.segment(6 * i, 6))); }
            r["velocity"] = pairs(residual(1), 1. / w);
            r["copvel"] = pairs(residual(2), 1. / w);
            r["terminal"] = vec2(residual(3), 1. / w);
            r["at"] = guard([&]()
            {
                json o;
                humoto::wpg04::Model m2 = model;
                m2.state_.com_state_ = wpg.getCoMState(model, s["t"].get<std::size_t>() * tick);
                o["v"] = com(m2.getCState());
                if (std::abs(m2.getCoMHeight() - height) > 1e-12) { o["v"] = "height"; }
                return o;
            });
            r["land"] = landing();
            return r;
        }
        json next(const json &)
        {
            fsm.shiftTime(tick);
            const humoto::wpg04::ModelState a = unparsed.getNextModelState(solution, fsm, model);
            next_state = wpg.getNextModelState(fsm, model);
            model.updateState(next_state);
            json r;
            r["com"] = com(model.getCState());
            if ((a.com_state_.position_ - next_state.com_state_.position_).norm() != 0. || a.stance_type_ != next_state.stance_type_) { r["com"] = "the solution matters"; }
            if (std::abs(model.getCoMHeight() - height) > 1e-12) { r["com"] = "height"; }
            r["stance"] = int(model.state_.stance_type_);
            r["next"] = int(model.state_.next_stance_type_);
            r["l"] = foot(model.getFootState(humoto::LeftOrRight::LEFT));
            r["r"] = foot(model.getFootState(humoto::LeftOrRight::RIGHT));
            r["support"] = support();
            return r;
        }
        json step(const json &s)
        {
            const std::string op = s["op"];
            if (op == "setup") { return setup(s); }
            if (op == "retune") { configure(s["par"]); old = humoto::Solution(); json r; r["support"] = support(); return r; }
            if (op == "update") { return update(s); }
            if (op == "solve") { return solve(s); }
            if (op == "predict") { return predict(s); }
            if (op == "next") { return next(s); }
            throw std::logic_error("unknown op");
        }
    };
}
