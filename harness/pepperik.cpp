// Replay harness: whole body controller of the wheeled robot (pepper_ik), for the three
// placements of the root of the kinematic tree. RBDL is replaced by a scripted stand-in.
#include "common.h"
#include "humoto/pepper_ik.h"
#include "kinematics_machines.h"
#include "octave.h"

namespace verif
{
    namespace pik = humoto::pepper_ik;
    typedef Eigen::Matrix<double, 6, 1> Vector6;

    inline double angle(const json &a) { return std::atan2(toD(a.at("s")), toD(a.at("c"))); }
    inline Eigen::Vector3d angles(const json &a) { return Eigen::Vector3d(angle(a[0]), angle(a[1]), angle(a[2])); }

    template<int F> struct PepperIKMachine : public Machine
    {
        typedef pik::Model<F> RobotModel;
        typedef pik::GeneralizedCoordinates<F> Coordinates;
        typedef pik::WholeBodyController<F> WBC;
        typedef pik::ModelDescription<F> Description;
        static const bool planar = F & pik::ModelFeatures::ROOT_PLANAR;

        RobotModel model;
        std::unique_ptr<WBC> wbc;
        std::vector<std::unique_ptr<humoto::TaskBase> > tasks;
        std::vector<json> kinds;
        std::string config_text;

        static Coordinates make(const json &g)
        {
            Coordinates c;
            c.setRootPosition(Eigen::Vector3d(toV(g.at("p"))));
            Eigen::Vector3d rpy = angles(g.at("rpy"));
            rpy(2) += toD(g.at("plus"));
            c.setRootOrientation(rpy);
            c.joint_angles_ = toV(g.at("q"));
            return c;
        }
        static json planarPose(const Eigen::VectorXd &root, json o, std::true_type)
        {
            o["yaw"] = num(root(2));
            return o;
        }
        static json planarPose(const Eigen::VectorXd &root, json o, std::false_type)
        {
            o["pitch"] = num(root(4));
            // the angles which are given to the model
            const Eigen::Matrix3d R = (Eigen::AngleAxisd(root(3), Eigen::Vector3d::UnitX()) * Eigen::AngleAxisd(root(4), Eigen::Vector3d::UnitY())
                    * Eigen::AngleAxisd(root(5), Eigen::Vector3d::UnitZ())).toRotationMatrix();
            Eigen::Matrix3d S;
            for (int i = 0; i < 9; ++i) { S(i / 3, i % 3) = o["R"][i / 3][i % 3]; }
            if (!R.isApprox(S, 1e-9)) { o["R"] = "angles of the root in the vector are of another rotation"; }
            if (!(root.head(3) - Eigen::Vector3d(o["p"][0], o["p"][1], o["p"][2])).isZero(1e-12)) { o["p"] = "another position in the vector"; }
            return o;
        }
        static json observe(const Coordinates &c)
        {
            json o;
            etools::Vector3 p, rpy;
            c.getRootPosition(p);
            c.getRootOrientation(rpy);
            o["p"] = vec(p);
            o["R"] = mat(rpyMatrix(rpy));
            o["joints"] = vec(c.joint_angles_);
            o["pitch"] = o["yaw"] = nullptr;
            const Eigen::VectorXd v = c.asVector();
            o["size"] = v.size();
            if (!(v.head(c.root_pose_.size()) == c.root_pose_) || !(v.tail(15) == c.joint_angles_)) { o["joints"] = "the vector differs from its parts"; }
            return planarPose(v.head(v.size() - 15), o, std::integral_constant<bool, planar>());
        }
        // coordinates received by the kinematic library
        json received() const
        {
            json o = observe(model.getState());
            const Eigen::VectorXd q = script().q;
            if (q.size() != model.getState().asVector().size() || !(q == model.getState().asVector())) { o = "the model has not got the state"; }
            return o;
        }
        void next(const json &s)
        {
            next_pose = s.at("pose");
            next_axes = s.at("axes");
            script().updates = 0;
        }
        // if something fails, the state still tells where the model is
        static pik::MotionParameters motion(const json &m)
        {
            pik::MotionParameters p;
            p.base_com_position_ = toV(m.at("base"));
            p.body_com_position_ = toV(m.at("body"));
            p.base_orientation_rpy_ = angles(m.at("rpy"));
            return p;
        }
        static void rename(RModel &m, const json &s)
        {
            m.mBodyNameMap.clear();
            m.mBodyNameMap["ROOT"] = 0;
            const json &n = s.at("names"), &f = s.at("fixednames");
            for (std::size_t i = 0; i < n.size(); ++i) { m.mBodyNameMap[n[i].get<std::string>()] = i + 1; }
            for (std::size_t i = 0; i < f.size(); ++i) { m.mBodyNameMap[f[i].get<std::string>()] = m.fixed_body_discriminator + i; }
        }

        template<class T> std::unique_ptr<humoto::TaskBase> own(T *t) { return std::unique_ptr<humoto::TaskBase>(t); }
        std::unique_ptr<humoto::TaskBase> makeTask(const json &t)
        {
            const std::string kind = t.at("kind").get<std::string>(), tag = t.at("tag").get<std::string>();
            const double g = toD(t.at("gain")), k = toD(t.at("k"));
            if (kind == "BaseCoM") { return own(new pik::TaskBaseCoMTracking<F>(g, k)); }
            if (kind == "BaseOrient") { return own(new pik::TaskBaseOrientation<F>(g, k)); }
            if (kind == "BodyCoM")
            {
                const int m = t.at("mask").get<int>();
                return own(new pik::TaskBodyCoMTracking<F>(g, k, (m & 1 ? humoto::AxisIndex::FLAG_X : 0) | (m & 2 ? humoto::AxisIndex::FLAG_Y : 0) | (m & 4 ? humoto::AxisIndex::FLAG_Z : 0)));
            }
            if (kind == "FixArms") { return own(new pik::TaskFixArms<F>()); }
            if (kind == "FixHead") { return own(new pik::TaskFixHead<F>()); }
            if (kind == "Bounds") { return own(new pik::TaskJointsBounds<F>()); }
            if (kind == "Reference") { return own(new pik::TaskJointsReference<F>(g, k)); }
            if (kind == "TagOrient") { return own(new pik::TaskTagOrientation<F>(tag, angles(t.at("rpy")), g, k)); }
            if (kind == "TagAngular") { return own(new pik::TaskTagAngularVelocity<F>(tag, g, k)); }
            if (kind == "TagComplete") { return own(new pik::TaskTagCompleteVelocity<F>(tag, g, k)); }
            if (kind == "TagPose") { return own(new pik::TaskTagPose<F>(tag, g, k)); }
            if (kind == "TagPose3") { return own(new pik::TaskTagPose3Dof<F>(tag, g, k)); }
            throw std::logic_error("unknown task");
        }
        json step(const json &s)
        {
            const std::string op = s.at("op").get<std::string>();
            json o;
            if (op == "reorder")
            {
                const std::string from = s.at("from").get<std::string>();
                Eigen::MatrixXd m = toM(s.at("m"));
                if (from == "torso") { pik::ModelDescription<F>::template reorderJointsColumns<F, pik::ModelFeatures::FIXED_WHEELS | pik::ModelFeatures::ROOT_TORSO>(m); }
                else if (from == "tibia") { pik::ModelDescription<F>::template reorderJointsColumns<F, pik::ModelFeatures::FIXED_WHEELS | pik::ModelFeatures::ROOT_TIBIA>(m); }
                else { pik::ModelDescription<F>::template reorderJointsColumns<F, pik::ModelFeatures::FIXED_WHEELS | pik::ModelFeatures::ROOT_PLANAR>(m); }
                o["m"] = mat(m);
            }
            else if (op == "coords") { o = observe(make(s.at("g"))); }
            else if (op == "load")
            {
                scriptModel(s);
                rename(script().model, s);
                next(s);
                bool failed = false;
                try { model.loadParameters(s.at("file").get<std::string>()); }
                catch (const EigenAssertion &) { throw; }
                catch (const std::exception &) { failed = true; }
                o["file"] = script().file;
                o["floating"] = script().floating;
                o["failed"] = failed;
                o["updates"] = script().updates;
                o["coords"] = failed ? json() : received();
            }
            else if (op == "update")
            {
                next(s);
                model.updateState(make(s.at("g")));
                o["updates"] = script().updates;
                o["coords"] = received();
            }
            else if (op == "state") { o = observe(model.getState()); }
            else if (op == "query")
            {
                const std::string what = s.at("what").get<std::string>();
                Eigen::MatrixXd J = dirty(s.at("old"));
                if (what == "values")
                {
                    o["basecom"] = vec(model.getBaseCoM());
                    o["basemass"] = num(model.getBaseMass());
                    o["bodycom"] = vec(model.getBodyCoM());
                    o["bodymass"] = num(model.getBodyMass());
                    o["com"] = vec(model.getCoM());
                    o["mass"] = num(model.getMass());
                    o["R"] = mat(model.getBaseOrientation());
                    o["p"] = vec(model.getBasePosition());
                    o["yaw"] = num(model.getBaseYaw());
                }
                else if (what == "jbase") { model.getBaseCoMJacobian(J); o["J"] = mat(J); }
                else if (what == "jbody") { model.getBodyCoMJacobian(J); o["J"] = mat(J); }
                else if (what == "jcom") { model.getCoMJacobian(J); o["J"] = mat(J); }
                else if (what == "jorient") { model.getBaseOrientationJacobian(J); o["J"] = mat(J); }
                else if (what == "tag")
                {
                    const humoto::rbdl::TagLinkPtr tag = model.getLinkTag(s.at("tag").get<std::string>());
                    o["R"] = mat(model.getTagOrientation(tag));
                    o["p"] = vec(model.getTagPosition(tag));
                    model.getTagOrientationJacobian(J, tag);
                    o["JR"] = mat(J);
                    J = dirty(s.at("old"));
                    model.getTagCompleteJacobian(J, tag);
                    o["J"] = mat(J);
                }
                else if (what == "torso")
                {
                    const humoto::rigidbody::RigidBodyPose p = model.getTorsoRootPose();
                    o["p"] = vec(p.position_);
                    o["R"] = mat(rpyMatrix(p.rpy_));
                }
                else
                {
                    o["lo"] = vec(model.constraints_.joint_position_bounds_min_);
                    o["hi"] = vec(model.constraints_.joint_position_bounds_max_);
                    o["vel"] = vec(model.constraints_.joint_velocity_bounds_);
                    o["wheels"] = vec(model.constraints_.wheel_velocities_max_);
                }
            }
            else if (op == "save") { model.saveCurrentState(); o["ok"] = true; }
            else if (op == "command")
            {
                pik::RobotCommand c;
                model.getRobotCommand(c, toD(s.at("dt")));
                o["joints"] = vec(c.joint_angles_);
                o["base"] = vec(c.base_velocities_);
                o["wheels"] = vec(c.wheel_velocities_);
                o["dt"] = num(c.time_interval_);
                o["log"] = logged([&](humoto::Logger &logger) { c.log(logger, humoto::LogEntryName("r"), "cmd"); model.log(logger, humoto::LogEntryName("r")); });
            }
            else if (op == "correct")
            {
                next(s);
                pik::RobotCommand c;
                c.joint_angles_ = toV(s.at("cq"));
                c.base_velocities_ = toV(s.at("v"));
                c.wheel_velocities_.setConstant(44.);
                c.time_interval_ = toD(s.at("cdt"));
                if (s.at("own").get<bool>()) { model.correct(c, toD(s.at("dt"))); }
                else { model.correct(make(s.at("g")), c, toD(s.at("dt"))); }
                o["updates"] = script().updates;
                o["coords"] = script().updates ? received() : json();
            }
            else if (op == "check") { model.checkCurrentState(); o["ok"] = true; }
            else if (op == "transition")
            {
                const Coordinates from = make(s.at("from"));
                Coordinates to = make(s.at("to"));
                if (s.at("nan").get<bool>()) { to.joint_angles_(7) = std::numeric_limits<double>::quiet_NaN(); }
                if (s.at("own").get<bool>()) { model.checkStateTransition(from, toD(s.at("dt"))); }
                else { model.checkStateTransition(from, to, toD(s.at("dt"))); }
                o["ok"] = true;
            }
            else if (op == "wbc")
            {
                pik::WBCParameters p;
                p.control_interval_ms_ = s.at("ms").get<int>();
                p.control_interval_ = 0.001 * s.at("ms").get<int>();
                wbc.reset(new WBC(p));
                o["ok"] = true;
            }
            else if (op == "start")
            {
                o["status"] = wbc->update(model, motion(s.at("mp"))) == humoto::ControlProblemStatus::OK ? "ok" : "not ok";
                const humoto::SolutionStructure &st = wbc->getSolutionStructure();
                o["n"] = st.getNumberOfVariables();
                const humoto::Location r = st.getSolutionPartLocation(pik::ROOT_VARIABLES_ID), j = st.getSolutionPartLocation(pik::JOINTS_VARIABLES_ID);
                o["root"] = json::array({r.offset_, r.length_});
                o["joints"] = json::array({j.offset_, j.length_});
            }
            else if (op == "staterror")
            {
                pik::MotionParameters e;
                model.getStateError(e, motion(s.at("mp")));
                o["base"] = vec(e.base_com_position_);
                o["body"] = vec(e.body_com_position_);
                o["rpy"] = vec(e.base_orientation_rpy_);
            }
            else if (op == "setvel")
            {
                std::map<std::string, Vector6> m;
                for (const json &v : s.at("vel"))
                {
                    Vector6 x;
                    x << toV(v.at("v")), toV(v.at("axis")) * angle(v.at("a")) / toD(s.at("int"));
                    m[v.at("tag").get<std::string>()] = x;
                }
                wbc->setTagsVelocity(m);
                o["ok"] = true;
            }
            else if (op == "getvel")
            {
                const std::string tag = s.at("tag").get<std::string>();
                typedef humoto::rbdl::SpatialType ST;
                const int n = s.at("type").get<int>();
                const ST::Type type = n == 0 ? ST::UNDEFINED : n == 1 ? ST::COMPLETE : n == 2 ? ST::TRANSLATION : ST::ROTATION;
                const Vector6 complete = wbc->getTagVelocityInLocal(tag, ST::COMPLETE);
                try { o["local"] = vec(wbc->getTagVelocityInLocal(tag, type)); }
                catch (const std::exception &) { o["localthrows"] = true; }
                try { o["global"] = vec(wbc->getTagVelocityInGlobal(model, tag, complete, type)); }
                catch (const std::exception &e) { if (n) { throw; } o["globalthrows"] = true; }
                o["base"] = vec(wbc->getBaseVelocityInGlobal(model));
            }
            else if (op == "desired")
            {
                wbc->computeTagsDesiredPoseInGlobal(model);
                o["n"] = wbc->tags_desired_pose_global_.size();
                o["des"] = json::array();
                for (const json &d : s.at("names"))
                {
                    json r;
                    const auto it = wbc->tags_desired_pose_global_.find(d.get<std::string>());
                    if (it != wbc->tags_desired_pose_global_.end())
                    {
                        r["tag"] = it->first;
                        r["R"] = mat(rpyMatrix(it->second.template head<3>()));
                        r["p"] = vec(it->second.template tail<3>());
                    }
                    o["des"].push_back(r);
                }
            }
            else if (op == "poseerror") { o["e"] = vec(wbc->getTagPoseErrorInGlobal(model, s.at("tag").get<std::string>())); }
            else if (op == "next")
            {
                humoto::Solution x;
                x.initialize(wbc->getSolutionStructure());
                x.x_ = toV(s.at("x"));
                const Coordinates c = wbc->getNextGeneralizedCoordinates(x, model);
                o["root"] = vec(c.root_pose_ - model.getState().root_pose_);
                o["joints"] = vec(c.joint_angles_ - model.getState().joint_angles_);
            }
            else if (op == "nextparsed")
            {
                const WBC &w = *wbc;
                o = observe(w.getNextGeneralizedCoordinates(model));
            }
            else if (op == "task")
            {
                tasks.push_back(makeTask(s.at("task")));
                prepare(s.at("task"), *tasks.back());
                o["ok"] = true;
            }
            else if (op == "configure")
            {
                std::unique_ptr<humoto::TaskBase> other = makeTask(s.at("new"));
                configure(s.at("new"), *other, *tasks.at(s.at("task").get<int>() - 1));
                o["ok"] = true;
            }
            else if (op == "form")
            {
                humoto::TaskBase &t = *tasks.at(s.at("task").get<int>() - 1);
                t.form(wbc->getSolutionStructure(), model, *wbc);
                o = formed(t);
            }
            return o;
        }
        void setReference(const json &t, humoto::TaskBase &task)
        {
            if (t.at("kind") != "Reference" || t.at("ref").empty()) { return; }
            dynamic_cast<pik::TaskJointsReference<F> &>(task).joint_angles_reference_ = toV(t.at("ref"));
        }
        void prepare(const json &t, humoto::TaskBase &task) { setReference(t, task); }
        template<class T> void transfer(humoto::TaskBase &from, humoto::TaskBase &to)
        {
            char dir[] = "/tmp/verif-ik-XXXXXX";
            if (!mkdtemp(dir)) { throw std::logic_error("no scratch directory"); }
            const std::string file = std::string(dir) + "/task.msg";
            try
            {
                dynamic_cast<T &>(from).template writeConfig<humoto::config::msgpack::Writer>(file, "task");
                dynamic_cast<T &>(to).template readConfig<humoto::config::msgpack::Reader>(file, "task");
            }
            catch (...) { std::remove(file.c_str()); rmdir(dir); throw; }
            std::remove(file.c_str());
            rmdir(dir);
        }
        void configure(const json &t, humoto::TaskBase &from, humoto::TaskBase &to)
        {
            const std::string kind = t.at("kind").get<std::string>();
            setReference(t, from);
            if (kind == "BaseCoM") { transfer<pik::TaskBaseCoMTracking<F> >(from, to); }
            else if (kind == "BaseOrient") { transfer<pik::TaskBaseOrientation<F> >(from, to); }
            else if (kind == "BodyCoM") { transfer<pik::TaskBodyCoMTracking<F> >(from, to); }
            else if (kind == "FixArms") { transfer<pik::TaskFixArms<F> >(from, to); }
            else if (kind == "FixHead") { transfer<pik::TaskFixHead<F> >(from, to); }
            else if (kind == "Bounds") { transfer<pik::TaskJointsBounds<F> >(from, to); }
            else if (kind == "Reference") { transfer<pik::TaskJointsReference<F> >(from, to); }
            else if (kind == "TagOrient") { transfer<pik::TaskTagOrientation<F> >(from, to); }
            else if (kind == "TagAngular") { transfer<pik::TaskTagAngularVelocity<F> >(from, to); }
            else if (kind == "TagComplete") { transfer<pik::TaskTagCompleteVelocity<F> >(from, to); }
            else if (kind == "TagPose") { transfer<pik::TaskTagPose<F> >(from, to); }
            else if (kind == "TagPose3") { transfer<pik::TaskTagPose3Dof<F> >(from, to); }
        }
        static json indices(const humoto::IndexVector &I)
        {
            json r = json::array();
            for (int i = 0; i < I.size(); ++i) { r.push_back(I(i)); }
            return r;
        }
        json formed(humoto::TaskBase &t)
        {
            json o;
            if (auto *a = dynamic_cast<humoto::TaskAB *>(&t)) { o["A"] = mat(a->getA()); o["b"] = vec(a->getB()); }
            else if (auto *a = dynamic_cast<humoto::TaskIB0 *>(&t)) { o["I"] = indices(a->getIndices()); }
            else if (auto *a = dynamic_cast<humoto::TaskILU *>(&t)) { o["I"] = indices(a->getIndices()); o["lb"] = vec(a->getLowerBounds()); o["ub"] = vec(a->getUpperBounds()); }
            else if (auto *a = dynamic_cast<humoto::TaskGIB *>(&t)) { o["I"] = indices(a->getIndices()); o["gains"] = vec(a->getIGains()); o["b"] = vec(a->getB()); }
            return o;
        }
    };
}

verif::Machine *verif::makeMachine(const std::string &name, const json &c)
{
    if (name != "pepperik") { throw std::logic_error("unknown machine " + name); }
    const std::string v = c.at("variant").get<std::string>();
    namespace pik = humoto::pepper_ik;
    if (v == "torso") { return new PepperIKMachine<pik::ModelFeatures::FIXED_WHEELS | pik::ModelFeatures::ROOT_TORSO>(); }
    if (v == "tibia") { return new PepperIKMachine<pik::ModelFeatures::FIXED_WHEELS | pik::ModelFeatures::ROOT_TIBIA>(); }
    return new PepperIKMachine<pik::ModelFeatures::FIXED_WHEELS | pik::ModelFeatures::ROOT_PLANAR>();
}
