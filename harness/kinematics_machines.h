#pragma once
namespace verif
{
    typedef RigidBodyDynamics::Model RModel;
    inline RigidBodyDynamics::Script &script() { return RigidBodyDynamics::script(); }
    static json next_pose, next_axes;

    inline RigidBodyDynamics::Math::SpatialTransform toTransform(const json &j)
    {
        return RigidBodyDynamics::Math::SpatialTransform(Eigen::Matrix3d(toM(j.at("R")).transpose()), Eigen::Vector3d(toV(j.at("p"))));
    }
    inline Eigen::Matrix<double, 6, 1> toSpatial(const json &j)
    {
        Eigen::Matrix<double, 6, 1> s;
        s << toV(j.at("w")), toV(j.at("v"));
        return s;
    }
    // poses and axes given by the specification
    inline void scriptedKinematics(RModel &m, const Eigen::VectorXd &)
    {
        for (std::size_t i = 1; i < m.mBodies.size(); ++i)
        {
            m.X_base[i] = toTransform(next_pose.at(i - 1));
            const json &a = next_axes.at(i - 1);
            Eigen::MatrixXd S(6, a.size());
            for (std::size_t k = 0; k < a.size(); ++k) { S.col(k) = toSpatial(a[k]); }
            if (m.mJoints[i].mJointType == RigidBodyDynamics::JointTypeCustom) { m.mCustomJoints[m.mJoints[i].custom_joint_index]->S = S; }
            else if (a.size() == 1) { m.S[i] = S; }
            else { m.multdof3_S[i] = S; }
        }
    }
    inline std::string linkName(const json &l)
    {
        const int i = l.at("i").get<int>();
        if (l.at("fixed").get<bool>()) { return "fixed" + std::to_string(i); }
        return i == 0 ? std::string("ROOT") : "link" + std::to_string(i);
    }
    // the model in the file
    inline void scriptModel(const json &s)
    {
        const json &t = s.at("tree");
        RModel m;
        const int n = t.at("n").get<int>();
        for (int i = 1; i <= n; ++i)
        {
            RigidBodyDynamics::Joint j;
            j.mDoFCount = t.at("dof")[i - 1].get<int>();
            j.q_index = s.at("first")[i - 1].get<int>();
            if (t.at("custom")[i - 1].get<bool>())
            {
                j.mJointType = RigidBodyDynamics::JointTypeCustom;
                j.custom_joint_index = m.mCustomJoints.size();
                RigidBodyDynamics::CustomJoint *c = new RigidBodyDynamics::CustomJoint();
                c->mDoFCount = j.mDoFCount;
                c->S = Eigen::MatrixXd::Zero(6, j.mDoFCount);
                m.mCustomJoints.push_back(c);
                // not meaningful for joints of this kind
                j.mDoFCount = i % 2 ? 1 : 0;
            }
            else { j.mJointType = j.mDoFCount == 1 ? RigidBodyDynamics::JointTypeRevolute : RigidBodyDynamics::JointTypeEulerZYX; }
            m.mJoints.push_back(j);
            m.lambda.push_back(t.at("parent")[i - 1].get<int>());
            m.S.push_back(Eigen::Matrix<double, 6, 1>::Constant(77.));
            m.multdof3_S.push_back(Eigen::Matrix<double, 6, 3>::Constant(77.));
            m.X_base.push_back(RigidBodyDynamics::Math::SpatialTransform());
            RigidBodyDynamics::Body b;
            b.mMass = toD(t.at("mass")[i - 1]);
            b.mCenterOfMass = toV(t.at("com")[i - 1]);
            m.mBodies.push_back(b);
            m.mBodyNameMap["link" + std::to_string(i)] = i;
        }
        const json &f = t.at("fixed");
        for (std::size_t i = 0; i < f.size(); ++i)
        {
            RigidBodyDynamics::FixedBody b;
            const bool known = f[i].count("mass") > 0;
            b.mMass = known ? toD(f[i].at("mass")) : 1000. + i;
            b.mCenterOfMass = known ? Eigen::Vector3d(toV(f[i].at("com"))) : Eigen::Vector3d(Eigen::Vector3d::Constant(55.));
            b.mMovableParent = f[i].at("parent").get<int>();
            b.mParentTransform = toTransform(f[i]);
            m.mBodyNameMap["fixed" + std::to_string(i + 1)] = m.fixed_body_discriminator + m.mFixedBodies.size();
            m.mFixedBodies.push_back(b);
        }
        m.q_size = s.at("ndof").get<int>();
        m.dof_count = m.qdot_size = m.q_size - t.at("extra").get<int>();
        script() = RigidBodyDynamics::Script();
        script().readable = s.at("ok").get<bool>();
        script().model = m;
        script().kinematics = &scriptedKinematics;
        script().reads = script().updates = 0;
        script().others = false;
        script().fresh = true;
    }
    inline Eigen::Matrix3d rpyMatrix(const Eigen::Vector3d &rpy)
    {
        return (Eigen::AngleAxisd(rpy(2), Eigen::Vector3d::UnitZ()) * Eigen::AngleAxisd(rpy(1), Eigen::Vector3d::UnitY())
                * Eigen::AngleAxisd(rpy(0), Eigen::Vector3d::UnitX())).toRotationMatrix();
    }
    inline Eigen::MatrixXd dirty(const json &size)
    {
        return Eigen::MatrixXd::Constant(size[0].get<int>(), size[1].get<int>(), 33.);
    }

    struct KinematicsMachine : public Machine
    {
        struct Tag
        {
            humoto::rbdl::TagLinkPtr link;
            humoto::rbdl::TagPointPtr point;
            humoto::rbdl::TagPartialCoMPtr partial;
            humoto::rbdl::TagCoMPtr com;
        };
        std::unique_ptr<humoto::rbdl::Model> model;
        std::vector<Tag> tags;
        int nlinks;

        template<class T> json frame(const T &t, const json &s)
        {
            json o;
            const std::string what = s.at("what").get<std::string>();
            if (what == "orientation") { o["R"] = mat(model->getTagOrientation(t)); }
            else if (what == "pose")
            {
                const humoto::rigidbody::RigidBodyPose p = model->getTagPose(t);
                o["p"] = vec(p.position_);
                o["R"] = mat(rpyMatrix(p.rpy_));
            }
            else if (what == "jacobian")
            {
                Eigen::MatrixXd J = dirty(s.at("old"));
                switch (s.at("jtype").get<int>())
                {
                    case 1: model->getTagJacobian<humoto::rbdl::SpatialType::COMPLETE>(J, t); break;
                    case 2: model->getTagJacobian<humoto::rbdl::SpatialType::TRANSLATION>(J, t); break;
                    default: model->getTagJacobian<humoto::rbdl::SpatialType::ROTATION>(J, t); break;
                }
                o["J"] = mat(J);
            }
            return o;
        }
        template<class T> json com(const T &t, const json &s)
        {
            json o;
            const std::string what = s.at("what").get<std::string>();
            if (what == "mass") { o["m"] = num(model->getTagMass(t)); }
            else if (what == "jacobian")
            {
                Eigen::MatrixXd J = dirty(s.at("old"));
                model->getTagJacobian(J, t);
                o["J"] = mat(J);
            }
            return o;
        }
        json step(const json &s)
        {
            const std::string op = s.at("op").get<std::string>();
            json o;
            if (op == "load")
            {
                nlinks = s.at("tree").at("n").get<int>();
                scriptModel(s);
                const std::string file = s.at("file").get<std::string>();
                humoto::rbdl::ModelParameters p;
                p.floating_base_ = s.at("floating").get<bool>();
                bool failed = false;
                tags.clear();
                if (!model && s.at("how").get<int>() >= 4) { model.reset(new humoto::rbdl::Model()); }
                try
                {
                    switch (s.at("how").get<int>())
                    {
                        case 0: model.reset(new humoto::rbdl::Model(file)); break;
                        case 1: model.reset(new humoto::rbdl::Model(p, file)); break;
                        case 2: model.reset(new humoto::rbdl::Model()); model->load(file); break;
                        case 3: model.reset(new humoto::rbdl::Model()); model->load(p, file); break;
                        case 4: model->load(file); break;
                        default: model->load(p, file); break;
                    }
                }
                catch (const std::exception &) { failed = true; }
                o["reads"] = script().reads;
                o["file"] = script().file;
                o["floating"] = script().floating;
                o["fresh"] = script().fresh;
                o["failed"] = failed;
                o["ndof"] = nullptr;
                o["mass"] = nullptr;
                if (!failed)
                {
                    o["ndof"] = model->getDOFNumber();
                    o["mass"] = num(model->getTagMass(model->getCoMTag()));
                }
            }
            else if (op == "update")
            {
                next_pose = s.at("pose");
                next_axes = s.at("axes");
                script().updates = 0;
                model->update(toV(s.at("q")));
                o["updates"] = script().updates;
                o["q"] = vec(script().q);
                o["others"] = script().others;
            }
            else if (op == "tag")
            {
                const json &t = s.at("tag");
                const std::string kind = t.at("kind").get<std::string>();
                Tag tag;
                if (kind == "link") { tag.link = model->getLinkTag(linkName(t.at("l"))); }
                else if (kind == "point") { tag.point = model->getPointTag(linkName(t.at("l")), Eigen::Vector3d(toV(t.at("x")))); }
                else if (kind == "linkcom") { tag.point = model->getLinkCoMTag(linkName(t.at("l"))); }
                else if (kind == "com") { tag.com = model->getCoMTag(); }
                else
                {
                    std::vector<std::string> names;
                    for (const json &i : t.at("ls")) { names.push_back(i.get<int>() > nlinks ? "fixed" + std::to_string(i.get<int>() - nlinks) : "link" + std::to_string(i.get<int>())); }
                    tag.partial = model->getCoMTag(names);
                }
                tags.push_back(tag);
                o["ok"] = true;
            }
            else if (op == "query")
            {
                const Tag &t = tags.at(s.at("tag").get<int>() - 1);
                const std::string what = s.at("what").get<std::string>();
                if (what == "position")
                {
                    o["p"] = vec(t.link ? model->getTagPosition(t.link) : t.point ? model->getTagPosition(t.point)
                                 : t.partial ? model->getTagPosition(t.partial) : model->getTagPosition(t.com));
                }
                else if (t.link && what == "mass") { o["m"] = num(model->getTagMass(t.link)); }
                else if (t.link) { o = frame(t.link, s); }
                else if (t.point) { o = frame(t.point, s); }
                else if (t.partial) { o = com(t.partial, s); }
                else { o = com(t.com, s); }
            }
            else if (op == "badlink")
            {
                switch (s.at("which").get<int>())
                {
                    case 0: model->getLinkTag("nothing"); break;
                    case 1: model->getPointTag("nothing", Eigen::Vector3d::Zero()); break;
                    case 2: model->getLinkCoMTag("nothing"); break;
                    default: model->getCoMTag(std::vector<std::string>({"link1", "nothing"})); break;
                }
                o["ok"] = true;
            }
            else if (op == "badtype")
            {
                if (s.at("which").get<int>() == 0) { o["n"] = humoto::rbdl::SpatialType::getNumberOfElements(humoto::rbdl::SpatialType::UNDEFINED); }
                else
                {
                    Eigen::MatrixXd J;
                    model->getTagJacobian<humoto::rbdl::SpatialType::UNDEFINED>(J, model->getLinkTag("ROOT"));
                    o["n"] = J.rows();
                }
            }
            return o;
        }
    };
}
