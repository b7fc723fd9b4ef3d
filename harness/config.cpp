// Replay harness: configurable objects and configuration files, MessagePack or YAML (VERIF_YAML).
// Compiled with -fno-access-control: entries may be private members.
#ifndef VERIF_YAML
#define VERIF_MSGPACK
#endif
#include "common.h"
#include "humoto/kktsolver.h"
#include "humoto/rigid_body.h"
#include "humoto/walking.h"
#include "humoto/wpg04.h"
#include "humoto/pepper_mpc.h"
#include "humoto/pepper_ik.h"
#include "humoto/obstacle_avoidance.h"
#include "humoto/qpoases.h"
#include "humoto/qpmad.h"
#include "humoto/quadprogpp.h"
#include <cstdio>
#include <memory>

using namespace verif;
namespace
{
    namespace hc = humoto::config;
#ifdef VERIF_YAML
    typedef hc::yaml::Reader Reader;
    typedef hc::yaml::Writer Writer;
#else
    typedef hc::msgpack::Reader Reader;
    typedef hc::msgpack::Writer Writer;
#endif

    // ------------------------------------------------------- classes with all the kinds of entries
    enum Mode { M0 = 0, M1 = 1, M2 = 2, M3 = 3 };

    class Leaf : public hc::ConfigurableBase
    {
        #define HUMOTO_CONFIG_SECTION_ID "Leaf"
        #define HUMOTO_CONFIG_CONSTRUCTOR Leaf
        #define HUMOTO_CONFIG_ENTRIES \
            HUMOTO_CONFIG_SCALAR_(a) \
            HUMOTO_CONFIG_SCALAR_(b)
        #include HUMOTO_CONFIG_DEFINE_ACCESSORS
      public:
        double a_;
        std::size_t b_;
        Leaf() { setDefaults(); }
        void setDefaults() { a_ = 1.5; b_ = 7; }
    };

    class Middle : public hc::ConfigurableBase
    {
        #define HUMOTO_CONFIG_SECTION_ID "Middle"
        #define HUMOTO_CONFIG_CONSTRUCTOR Middle
        #define HUMOTO_CONFIG_ENTRIES \
            HUMOTO_CONFIG_MEMBER_CLASS(one_, "one") \
            HUMOTO_CONFIG_SCALAR_(text) \
            HUMOTO_CONFIG_MEMBER_CLASS(two_, "two")
        #include HUMOTO_CONFIG_DEFINE_ACCESSORS
      public:
        Leaf one_, two_;
        std::string text_;
        Middle() { setDefaults(); }
        void setDefaults() { one_.setDefaults(); two_.setDefaults(); two_.a_ = 3.25; text_ = "nothing"; }
    };

    class Nest : public Leaf
    {
        #define HUMOTO_CONFIG_SECTION_ID "Nest"
        #define HUMOTO_CONFIG_CONSTRUCTOR Nest
        #define HUMOTO_CONFIG_ENTRIES \
            HUMOTO_CONFIG_PARENT_CLASS(Leaf) \
            HUMOTO_CONFIG_SCALAR_(top) \
            HUMOTO_CONFIG_MEMBER_CLASS(inner_, "inner") \
            HUMOTO_CONFIG_MEMBER_CLASS(deep_, "deep")
        #include HUMOTO_CONFIG_DEFINE_ACCESSORS
      public:
        double top_;
        Leaf inner_;
        Middle deep_;
        Nest() { setDefaults(); }
        void setDefaults()
        {
            Leaf::setDefaults(); top_ = -9.; inner_.a_ = 33.; inner_.b_ = 34; deep_.setDefaults(); deep_.one_.b_ = 77; deep_.text_ = "deep";
        }
    };

    class Kinds : public hc::StrictConfigurableBase
    {
        #define HUMOTO_CONFIG_SECTION_ID "Kinds"
        #define HUMOTO_CONFIG_CONSTRUCTOR Kinds
        #define HUMOTO_CONFIG_ENTRIES \
            HUMOTO_CONFIG_SCALAR_(real) \
            HUMOTO_CONFIG_SCALAR_(count) \
            HUMOTO_CONFIG_SCALAR(shift) \
            HUMOTO_CONFIG_SCALAR_(flag) \
            HUMOTO_CONFIG_SCALAR_(name) \
            HUMOTO_CONFIG_ENUM_(mode) \
            HUMOTO_CONFIG_COMPOUND_(v2) \
            HUMOTO_CONFIG_COMPOUND_(v3) \
            HUMOTO_CONFIG_COMPOUND_(vx) \
            HUMOTO_CONFIG_COMPOUND_(m23) \
            HUMOTO_CONFIG_COMPOUND(m22) \
            HUMOTO_CONFIG_COMPOUND_(mx) \
            HUMOTO_CONFIG_COMPOUND_(list) \
            HUMOTO_CONFIG_COMPOUND_(names) \
            HUMOTO_CONFIG_COMPOUND_(table)
        #include HUMOTO_CONFIG_DEFINE_ACCESSORS
      public:
        double real_;
        std::size_t count_;
        std::ptrdiff_t shift;
        bool flag_;
        std::string name_;
        Mode mode_;
        etools::Vector2 v2_;
        etools::Vector3 v3_;
        Eigen::VectorXd vx_;
        Eigen::Matrix<double, 2, 3> m23_;
        etools::Matrix2 m22;
        Eigen::MatrixXd mx_;
        std::vector<double> list_;
        std::vector<std::string> names_;
        std::vector<std::vector<std::string> > table_;
        Kinds() { setDefaults(); }
        void setDefaults()
        {
            real_ = 0.125; count_ = 3; shift = -5; flag_ = true; name_ = "none"; mode_ = M2;
            v2_ << 1., 2.; v3_ << 3., 4., 5.; vx_ = Eigen::VectorXd::Ones(2);
            m23_ << 1, 2, 3, 4, 5, 6; m22 << 1, 2, 3, 4; mx_ = Eigen::MatrixXd::Ones(1, 3);
            list_.assign(3, 0.5); names_.assign(1, "x"); table_.assign(2, std::vector<std::string>(1, "y"));
        }
    };

    class Relaxed : public hc::RelaxedConfigurableBase
    {
        #define HUMOTO_CONFIG_SECTION_ID "Relaxed"
        #define HUMOTO_CONFIG_CONSTRUCTOR Relaxed
        #define HUMOTO_CONFIG_ENTRIES \
            HUMOTO_CONFIG_SCALAR_(real) \
            HUMOTO_CONFIG_SCALAR_(flag) \
            HUMOTO_CONFIG_COMPOUND_(vx) \
            HUMOTO_CONFIG_COMPOUND_(m22) \
            HUMOTO_CONFIG_COMPOUND_(names) \
            HUMOTO_CONFIG_MEMBER_CLASS(inner_, "inner")
        #include HUMOTO_CONFIG_DEFINE_ACCESSORS
      public:
        double real_;
        bool flag_;
        Eigen::VectorXd vx_;
        etools::Matrix2 m22_;
        std::vector<std::string> names_;
        Leaf inner_;
        Relaxed() { setDefaults(); }
        void setDefaults()
        {
            real_ = 4.; flag_ = false; vx_ = Eigen::VectorXd::Ones(3); m22_ << 5, 6, 7, 8; names_.clear(); inner_.a_ = 55.; inner_.b_ = 56;
        }
    };

    // ------------------------------------------------------------------ entries of the classes
    #define F(x) v(#x, o.x##_, d.x##_);
    #define G(x) v(#x, o.x, d.x);
    template<class V> void fields(Leaf &o, Leaf &d, V &v) { F(a) F(b) }
    template<class V> void fields(Middle &o, Middle &d, V &v) { v.obj("one", o.one_, d.one_); F(text) v.obj("two", o.two_, d.two_); }
    template<class V> void fields(Nest &o, Nest &d, V &v)
    {
        fields(static_cast<Leaf &>(o), static_cast<Leaf &>(d), v);
        F(top) v.obj("inner", o.inner_, d.inner_); v.obj("deep", o.deep_, d.deep_);
    }
    template<class V> void fields(Kinds &o, Kinds &d, V &v)
    {
        F(real) F(count) v("shift", o.shift, d.shift); F(flag) F(name) F(mode) F(v2) F(v3) F(vx) F(m23) v("m22", o.m22, d.m22); F(mx) F(list) F(names) F(table)
    }
    template<class V> void fields(Relaxed &o, Relaxed &d, V &v) { F(real) F(flag) F(vx) F(m22) F(names) v.obj("inner", o.inner_, d.inner_); }

    typedef humoto::rigidbody::PointMassState PointMassState;
    typedef humoto::rigidbody::RotaryState RotaryState;
    typedef humoto::rigidbody::RigidBodyState RigidBodyState;
    typedef humoto::rigidbody::RigidBodyPose RigidBodyPose;
    // no obstacle of the library is concrete
    class ObstacleBase : public humoto::obstacle_avoidance::ObstacleBase
    {
        public:
            ObstacleBase() {}
            template<class R> ObstacleBase(R &r, const std::string &n) : humoto::obstacle_avoidance::ObstacleBase(r, n) {}
            template<class R> ObstacleBase(R &r, const std::string &n, const bool s) : humoto::obstacle_avoidance::ObstacleBase(r, n, s) {}
            void updateConstraints(const humoto::ControlProblem &, const humoto::Solution &, const double) {}
            void resetConstraints(const humoto::ControlProblem &) {}
    };
    typedef humoto::walking::StanceFSMParameters StanceFSMParameters;
    typedef humoto::walking::RobotFootParameters RobotFootParameters;
    typedef humoto::wpg04::WalkParameters WalkParameters;
    typedef humoto::wpg04::MPCParameters WalkMPC;
    typedef humoto::wpg04::ModelState WalkState;
    typedef humoto::pepper_mpc::RobotParameters PepperRobot;
    typedef humoto::pepper_mpc::MotionParameters PepperMotion;
    typedef humoto::pepper_mpc::MPCParameters PepperMPC;
    typedef humoto::pepper_mpc::ModelState PepperState;
    typedef humoto::pepper_ik::WBCParameters WBCParameters;
    typedef humoto::pepper_ik::MotionParameters IKMotion;
    typedef humoto::pepper_ik::GeneralizedCoordinates<humoto::pepper_ik::ModelFeatures::FIXED_WHEELS | humoto::pepper_ik::ModelFeatures::ROOT_PLANAR> IKPlanar;
    typedef humoto::pepper_ik::GeneralizedCoordinates<humoto::pepper_ik::ModelFeatures::FIXED_WHEELS | humoto::pepper_ik::ModelFeatures::ROOT_TORSO> IKState;
    typedef humoto::kktsolver::SolverParameters KKTParameters;
    typedef humoto::qpoases::SolverParameters QPOases;
    typedef humoto::qpmad::SolverParameters QPMad;
    typedef humoto::quadprogpp::SolverParameters QuadProg;
    typedef decltype(QPOases().options_) QPOasesOptions;
    typedef decltype(QPMad().options_) QPMadOptions;

    template<class V> void fields(PointMassState &o, PointMassState &d, V &v) { F(position) F(velocity) F(acceleration) }
    template<class V> void fields(RotaryState &o, RotaryState &d, V &v) { F(rpy) F(angular_velocity) F(angular_acceleration) }
    template<class V> void fields(RigidBodyState &o, RigidBodyState &d, V &v) { F(position) F(velocity) F(acceleration) F(rpy) F(angular_velocity) F(angular_acceleration) }
    template<class V> void fields(ObstacleBase &o, ObstacleBase &d, V &v) { fields(static_cast<RigidBodyState &>(o), static_cast<RigidBodyState &>(d), v); }
    template<class V> void fields(RigidBodyPose &o, RigidBodyPose &d, V &v) { F(position) F(rpy) }
    template<class V> void fields(StanceFSMParameters &o, StanceFSMParameters &d, V &v)
    {
        F(ss_duration_ms) F(tds_duration_ms) F(first_stance_duration_ms) F(last_stance_duration_ms) F(num_steps) F(first_stance) F(first_ss_type) F(last_stance)
    }
    template<class V> void fields(RobotFootParameters &o, RobotFootParameters &d, V &v)
    {
        F(max_step_len) F(min_feet_dist) F(max_feet_dist) F(feet_dist_default) F(foot_length) F(foot_width)
    }
    template<class V> void fields(WalkParameters &o, WalkParameters &d, V &v)
    {
        F(com_velocity) F(first_stance_com_velocity) F(last_stance_com_velocity) F(step_height) F(theta_increment)
        fields(static_cast<StanceFSMParameters &>(o), static_cast<StanceFSMParameters &>(d), v);
    }
    template<class V> void fields(WalkMPC &o, WalkMPC &d, V &v) { F(preview_horizon_length) F(sampling_time_ms) F(subsampling_time_ms) F(tds_sampling_time_ms) }
    template<class V> void fields(WalkState &o, WalkState &d, V &v)
    {
        F(stance_type) F(next_stance_type) v.obj("com_state", o.com_state_, d.com_state_);
        v.obj("left_foot_state", o.feet_.getLeft(), d.feet_.getLeft()); v.obj("right_foot_state", o.feet_.getRight(), d.feet_.getRight());
    }
    template<class V> void fields(PepperRobot &o, PepperRobot &d, V &v)
    {
        F(base_radius) F(max_nominal_base_velocity) F(max_nominal_base_acceleration) F(max_base_velocity) F(max_base_acceleration) F(body_bounds)
    }
    template<class V> void fields(PepperMotion &o, PepperMotion &d, V &v) { F(base_velocity) F(base_position) F(base_angular_velocity) F(motion_mode) F(duration_ms) }
    template<class V> void fields(PepperMPC &o, PepperMPC &d, V &v) { F(preview_horizon_length) F(sampling_time_ms) F(subsampling_time_ms) }
    template<class V> void fields(PepperState &o, PepperState &d, V &v)
    {
        v.obj("base_state", o.base_state_, d.base_state_); v.obj("body_state", o.body_state_, d.body_state_); F(base_mass) F(body_mass)
    }
    template<class V> void fields(WBCParameters &o, WBCParameters &d, V &v)
    {
        F(control_interval_ms) F(joint_angle_error_tolerance) F(motion_parameters_tolerance) F(maximal_number_of_iterations)
    }
    template<class V> void fields(IKMotion &o, IKMotion &d, V &v) { F(base_orientation_rpy) F(base_com_position) F(body_com_position) }
    template<class V> void fields(IKPlanar &o, IKPlanar &d, V &v) { F(root_pose) F(joint_angles) }
    template<class V> void fields(IKState &o, IKState &d, V &v) { F(root_pose) F(joint_angles) }
    template<class V> void fields(QPOasesOptions &o, QPOasesOptions &d, V &v)
    {
        G(enableRamping) G(enableFarBounds) G(enableFlippingBounds) G(enableRegularisation) G(enableFullLITests)
        G(enableNZCTests) G(enableDriftCorrection) G(enableCholeskyRefactorisation) G(enableEqualities) G(terminationTolerance)
        G(boundTolerance) G(boundRelaxation) G(epsNum) G(epsDen) G(maxPrimalJump)
        G(maxDualJump) G(initialRamping) G(finalRamping) G(initialFarBounds) G(growFarBounds)
        G(initialStatusBounds) G(epsFlipping) G(numRegularisationSteps) G(epsRegularisation) G(numRefinementSteps)
        G(epsIterRef) G(epsLITests) G(epsNZCTests) G(rcondSMin) G(enableInertiaCorrection)
        G(enableDropInfeasibles) G(dropBoundPriority) G(dropEqConPriority) G(dropIneqConPriority)
    }
    template<class V> void fields(QPMadOptions &o, QPMadOptions &d, V &v) { F(hessian_type) F(tolerance) F(max_iter) }
    template<class V> void fields(QPOases &o, QPOases &d, V &v)
    {
        F(crash_on_any_failure) F(solve_two_levels_as_qp) F(max_number_of_iterations) F(max_cpu_time) v.obj("QPoasesParameters", o.options_, d.options_);
    }
    template<class V> void fields(QPMad &o, QPMad &d, V &v)
    {
        F(crash_on_any_failure) F(solve_two_levels_as_qp) F(regularization_factor) v.obj("QPmadParameters", o.options_, d.options_);
    }
    template<class V> void fields(QuadProg &o, QuadProg &d, V &v) { F(crash_on_any_failure) F(solve_two_levels_as_qp) F(regularization_factor) }
    template<class V> void fields(KKTParameters &o, KKTParameters &d, V &v) { F(crash_on_any_failure) F(solve_two_levels_as_qp) }
    template<class V> void fields(humoto::Solution &o, humoto::Solution &d, V &v) { F(x) }

    // ------------------------------------------------------------------------------ derived quantities
    json pairs(const etools::Matrix2 &m) { return mat(m); }
    json squares(const etools::Matrix2 &m)
    {
        etools::Matrix2 r = m;
        for (int i = 0; i < 4; ++i) { r.data()[i] = m.data()[i] * std::abs(m.data()[i]); }
        return mat(r);
    }
    template<class T> json derived(T &) { return json::array(); }
    json derived(RobotFootParameters &o)
    {
        using namespace humoto::walking;
        const etools::Matrix2 I = etools::Matrix2::Identity();
        const etools::Vector2 z = etools::Vector2::Zero();
        const humoto::LeftOrRight::Type L = humoto::LeftOrRight::LEFT, R = humoto::LeftOrRight::RIGHT;
        json r;
        r.push_back(pairs(o.getSSCoPBounds()));
        r.push_back(pairs(o.getADSCoPBounds()));
        for (FootBoundsType::Type t : {FootBoundsType::WITH_RESPECT_TO_SS, FootBoundsType::ALIGNED_TO_SS, FootBoundsType::WITH_RESPECT_TO_ADS})
        {
            r.push_back(pairs(o.getFootBounds(L, t)));
            r.push_back(pairs(o.getFootBounds(R, t)));
        }
        r.push_back(vec(o.getFootPositionFromADS(L, I, z)));
        r.push_back(vec(o.getFootPositionFromADS(R, I, z)));
        r.push_back(vec(o.getADSPositionFromFoot(L, I, z)));
        r.push_back(vec(o.getADSPositionFromFoot(R, I, z)));
        return r;
    }
    json derived(PepperRobot &o)
    {
        json r;
        r.push_back(squares(o.getCoPBounds())); r.push_back(squares(o.getNominalBaseVelocityBounds()));
        r.push_back(squares(o.getNominalBaseAccelerationBounds())); r.push_back(pairs(o.getBodyBounds()));
        return r;
    }
    json derived(WalkMPC &o) { json r; r.push_back(num(o.getSubsamplingTime())); return r; }
    json derived(WBCParameters &o) { json r; r.push_back(num(o.control_interval_)); return r; }
    json derived(PepperMPC &o) { json r; r.push_back(num(o.getSamplingTime())); r.push_back(num(o.getSubsamplingTime())); return r; }

    // --------------------------------------------------------------------------------- values
    json tv(const char *t, const json &v) { json r; r["t"] = t; r["v"] = v; return r; }
    json show(const double x) { return tv("num", num(x)); }
    json show(const bool x) { return tv("bool", x); }
    json show(const std::string &x) { return tv("str", x); }
    json show(const std::size_t x) { return tv("int", x); }
    json show(const std::ptrdiff_t x) { return tv("int", x); }
    json show(const int x) { return tv("int", x); }
    template<class T, typename std::enable_if<std::is_enum<T>::value, int>::type = 0> json show(const T x) { return tv("int", static_cast<int>(x)); }
    template<class T> json show(const std::vector<T> &x)
    {
        json r = json::array();
        for (const T &e : x) { r.push_back(show(e)); }
        return tv("arr", r);
    }
    template<int R, int C> json show(const Eigen::Matrix<double, R, C> &x)
    {
        if (C != 1) { return tv("mat", mat(x)); }
        json r = json::array();
        for (int i = 0; i < x.size(); ++i) { r.push_back(show(x.data()[i])); }
        return tv("arr", r);
    }
    double real(const json &j)
    {
        if (j.is_object() && j["d"] == 0)
        {
            const int n = j["n"];
            if (std::abs(n) > 1) { return std::ldexp(n > 0 ? 1. : -1., std::abs(n) - 1100); }
            return n == 0 ? std::numeric_limits<double>::quiet_NaN() : n > 0 ? std::numeric_limits<double>::infinity() : -std::numeric_limits<double>::infinity();
        }
        return toD(j);
    }
    void put(double &x, const json &j) { x = real(j["v"]); }
    void put(bool &x, const json &j) { x = j["v"]; }
    void put(std::string &x, const json &j) { x = j["v"]; }
    void put(std::size_t &x, const json &j) { x = static_cast<std::size_t>(toD(j["v"])); }
    void put(std::ptrdiff_t &x, const json &j) { x = static_cast<std::ptrdiff_t>(toD(j["v"])); }
    void put(int &x, const json &j) { x = static_cast<int>(toD(j["v"])); }
    template<class T, typename std::enable_if<std::is_enum<T>::value, int>::type = 0> void put(T &x, const json &j) { x = static_cast<T>(static_cast<int>(toD(j["v"]))); }
    template<class T> void put(std::vector<T> &x, const json &j)
    {
        x.resize(j["v"].size());
        for (std::size_t i = 0; i < x.size(); ++i) { put(x[i], j["v"][i]); }
    }
    template<int R, int C> void put(Eigen::Matrix<double, R, C> &x, const json &j)
    {
        if (C == 1)
        {
            x.resize(j["v"].size(), 1);
            for (int i = 0; i < x.size(); ++i) { put(x.data()[i], j["v"][i]); }
            return;
        }
        const json &m = j["v"];
        x.resize(m.size(), m.size() == 0 ? 0 : m[0].size());
        for (int i = 0; i < x.rows(); ++i)
            for (int k = 0; k < x.cols(); ++k) { x(i, k) = real(m[i][k]); }
    }

    struct Dump
    {
        json out = json::array();
        void add(const char *k, const json &v) { json r; r["k"] = k; r["v"] = v; out.push_back(r); }
        template<class T> void operator()(const char *k, T &o, T &) { add(k, show(o)); }
        template<class T> void obj(const char *k, T &o, T &)
        {
            Dump s; fields(o, o, s); add(k, tv("obj", s.out));
        }
    };
    const json *find(const json &p, const std::string &k)
    {
        for (const json &e : p) { if (e["k"] == k) { return &e["v"]; } }
        return nullptr;
    }
    struct Put
    {
        const json &in;
        Put(const json &i) : in(i) {}
        template<class T> void operator()(const char *k, T &o, T &) { put(o, *find(in, k)); }
        template<class T> void obj(const char *k, T &o, T &) { Put s((*find(in, k))["v"]); fields(o, o, s); }
    };
    // values of an object; "def": those which are expected to be, and are, the same as in a new object
    struct Compare
    {
        const json &in;
        Dump r;
        Compare(const json &i) : in(i) {}
        bool isDef(const char *k) { const json *e = find(in, k); return e && (*e)["t"] == "def"; }
        template<class T> void operator()(const char *k, T &o, T &d)
        {
            if (isDef(k) && show(o) == show(d)) { r.add(k, tv("def", 0)); } else { r.add(k, show(o)); }
        }
        template<class T> void obj(const char *k, T &o, T &d)
        {
            if (isDef(k))
            {
                Dump a, b; fields(o, o, a); fields(d, d, b);
                if (a.out == b.out) { r.add(k, tv("def", 0)); } else { r.add(k, tv("obj", a.out)); }
                return;
            }
            const json *e = find(in, k);
            T fresh;
            Compare s(e ? (*e)["v"] : in);
            fields(o, fresh, s);
            r.add(k, tv("obj", s.r.out));
        }
    };

    // --------------------------------------------------------------------------- objects of any class
    struct Any
    {
        virtual ~Any() {}
        virtual json dump() = 0;
        virtual void put(const json &) = 0;
        virtual json compare(const json &) = 0;
        virtual json derive() = 0;
        virtual void write(const std::string &how, Writer *w, const std::string &file, const std::string &name) = 0;
        virtual void read(const std::string &how, Reader *r, const std::string &file, const std::string &name, const std::string &mode) = 0;
    };
    template<class T> struct Holder : public Any
    {
        T o;
        json dump() { Dump s; fields(o, o, s); return s.out; }
        void put(const json &j) { Put s(j); fields(o, o, s); }
        json compare(const json &e) { T fresh; Compare s(e); fields(o, fresh, s); return s.r.out; }
        json derive() { return derived(o); }
        void write(const std::string &how, Writer *w, const std::string &file, const std::string &name)
        {
            if (how == "writer") { o.writeConfig(*w); }
            else if (how == "writer_named") { o.writeConfig(*w, name); }
            else if (how == "file") { o.template writeConfig<Writer>(file); }
            else { o.template writeConfig<Writer>(file, name); }
        }
        void read(const std::string &how, Reader *r, const std::string &file, const std::string &name, const std::string &mode)
        {
            const bool s = mode == "strict";
            if (mode == "default")
            {
                if (how == "reader") { o.readConfig(*r); }
                else if (how == "reader_named") { o.readConfig(*r, name); }
                else if (how == "file") { o.template readConfig<Reader>(file); }
                else if (how == "file_named") { o.template readConfig<Reader>(file, name); }
                else { T n(*r, name); o = n; }
            }
            else
            {
                if (how == "reader") { o.readConfig(*r, s); }
                else if (how == "reader_named") { o.readConfig(*r, name.c_str(), s); }
                else if (how == "file") { o.template readConfig<Reader>(file, s); }
                else if (how == "file_named") { o.template readConfig<Reader>(file, name, s); }
                else { T n(*r, name, s); o = n; }
            }
        }
    };
    Any *make(const std::string &c)
    {
        #define C(X) if (c == #X) { return new Holder<X>(); }
        C(Kinds) C(Leaf) C(Middle) C(Nest) C(Relaxed)
        C(PointMassState) C(RotaryState) C(RigidBodyState) C(RigidBodyPose) C(ObstacleBase) C(StanceFSMParameters) C(RobotFootParameters)
        C(WalkParameters) C(WalkMPC) C(WalkState) C(PepperRobot) C(PepperMotion) C(PepperMPC) C(PepperState) C(KKTParameters)
        C(WBCParameters) C(IKMotion) C(IKPlanar) C(IKState)
        C(QPOases) C(QPMad) C(QuadProg)
        if (c == "Solution") { return new Holder<humoto::Solution>(); }
        throw std::logic_error("unknown class " + c);
    }

    // ------------------------------------------------------------------------------------ files
#ifdef VERIF_YAML
    // scalars of a YAML file have no types
    json parsed(const YAML::Node &n)
    {
        json r = json::array();
        if (n.IsSequence())
        {
            for (const auto &e : n) { r.push_back(parsed(e)); }
            return tv("arr", r);
        }
        if (n.IsMap())
        {
            for (const auto &p : n) { json e; e["k"] = p.first.as<std::string>(); e["v"] = parsed(p.second); r.push_back(e); }
            return tv("map", r);
        }
        return n.IsScalar() ? tv("text", n.Scalar()) : tv("nil", 0);
    }
    // numbers have 15 digits
    json scalar(const json &text, const std::string &t)
    {
        const YAML::Node n(text.get<std::string>());
        if (t == "num") { return tv("num", num(n.as<double>())); }
        if (t == "int") { return tv("int", n.as<long long>()); }
        if (t == "bool") { return tv("bool", n.as<bool>()); }
        return tv("str", text);
    }
#else
    json scalar(const json &text, const std::string &) { return text; }
    typedef ::msgpack::object Object;
    json parsed(const Object &o)
    {
        switch (o.type)
        {
            case ::msgpack::type::BOOLEAN: return tv("bool", o.via.boolean);
            case ::msgpack::type::POSITIVE_INTEGER: return tv("int", o.via.u64);
            case ::msgpack::type::NEGATIVE_INTEGER: return tv("int", o.via.i64);
            case ::msgpack::type::STR: return tv("str", o.as<std::string>());
            case ::msgpack::type::ARRAY:
            {
                json r = json::array();
                for (std::size_t i = 0; i < o.via.array.size; ++i) { r.push_back(parsed(o.via.array.ptr[i])); }
                return tv("arr", r);
            }
            case ::msgpack::type::MAP:
            {
                json r = json::array();
                for (std::size_t i = 0; i < o.via.map.size; ++i)
                {
                    json e; e["k"] = o.via.map.ptr[i].key.as<std::string>(); e["v"] = parsed(o.via.map.ptr[i].val);
                    r.push_back(e);
                }
                return tv("map", r);
            }
            case ::msgpack::type::NIL: return tv("nil", 0);
            default: return tv("num", num(o.as<double>()));
        }
    }
#endif
    // the order of entries is of no importance: use the expected one
    json ordered(const json &have, const json &want)
    {
        if (have["t"] == "int" && want["t"] == "num") { return tv("num", have["v"]); }
        if (have["t"] == "text") { return scalar(have["v"], want["t"]); }
        if (have["t"] == "arr" && want["t"] == "arr" && have["v"].size() == want["v"].size())
        {
            json r = json::array();
            for (std::size_t i = 0; i < have["v"].size(); ++i) { r.push_back(ordered(have["v"][i], want["v"][i])); }
            return tv("arr", r);
        }
        if (have["t"] != want["t"] || have["t"] != "map") { return have; }
        json r = json::array(), rest = have["v"];
        for (const json &e : want["v"])
        {
            for (std::size_t i = 0; i < rest.size(); ++i)
            {
                if (rest[i]["k"] == e["k"])
                {
                    json x; x["k"] = e["k"]; x["v"] = ordered(rest[i]["v"], e["v"]);
                    r.push_back(x); rest.erase(i); break;
                }
            }
        }
        for (const json &e : rest) { r.push_back(e); }
        return tv("map", r);
    }
#ifdef VERIF_YAML
    json fileContent(const std::string &name)
    {
        const std::vector<YAML::Node> docs = YAML::LoadAllFromFile(name);
        if (docs.empty()) { return tv("map", json::array()); }
        json v = parsed(docs[0]);
        if (docs.size() > 1 || v["t"] != "map") { throw std::runtime_error("the file is not one map"); }
        return v;
    }
    // style 0: flow, 1: blocks; strings are quoted or not
    void pack(YAML::Emitter &p, const json &v, const bool ints, const bool flow, const bool quoted)
    {
        const std::string t = v["t"];
        if (t == "num")
        {
            const double x = real(v["v"]);
            if (ints && std::fabs(x) < 2e9 && x == std::floor(x)) { p << static_cast<int>(x); } else { p << x; }
        }
        else if (t == "int") { p << static_cast<long long>(toD(v["v"])); }
        else if (t == "bool") { p << v["v"].get<bool>(); }
        else if (t == "str")
        {
            if (quoted) { p << YAML::DoubleQuoted; }
            p << v["v"].get<std::string>();
        }
        else if (t == "arr")
        {
            if (flow) { p << YAML::Flow; }
            p << YAML::BeginSeq;
            for (const json &e : v["v"]) { pack(p, e, ints, flow, quoted); }
            p << YAML::EndSeq;
        }
        else
        {
            if (flow) { p << YAML::Flow; }
            p << YAML::BeginMap;
            for (const json &e : v["v"]) { p << YAML::Key << e["k"].get<std::string>() << YAML::Value; pack(p, e["v"], ints, flow, quoted); }
            p << YAML::EndMap;
        }
    }
    void putFile(const std::string &file, const json &content, const bool ints, const bool style)
    {
        YAML::Emitter e;
        e << YAML::Comment("edited") << YAML::Newline;
        e << YAML::BeginMap;
        for (const json &s : content) { e << YAML::Key << s["k"].get<std::string>() << YAML::Value; pack(e, s["v"], ints, style, ints); }
        e << YAML::EndMap;
        std::ofstream f(file.c_str());
        f << e.c_str() << "\n";
    }
#else
    json fileContent(const std::string &name)
    {
        std::ifstream f(name.c_str(), std::ios::binary);
        std::stringstream s; s << f.rdbuf();
        const std::string b = s.str();
        json r = json::array();
        std::size_t off = 0;
        while (off < b.size())
        {
            ::msgpack::object_handle h;
            ::msgpack::unpack(h, b.data(), b.size(), off);
            json v = parsed(h.get());
            if (v["t"] != "map") { throw std::runtime_error("the file contains something which is not a map"); }
            for (const json &e : v["v"]) { r.push_back(e); }
        }
        return tv("map", r);
    }
    template<class P> void pack(P &p, const json &v, const bool ints)
    {
        const std::string t = v["t"];
        if (t == "num")
        {
            const double x = real(v["v"]);
            if (ints && std::fabs(x) < 2e9 && x == std::floor(x)) { p.pack(static_cast<int>(x)); } else { p.pack(x); }
        }
        else if (t == "int") { p.pack(static_cast<long long>(toD(v["v"]))); }
        else if (t == "bool") { p.pack(v["v"].get<bool>()); }
        else if (t == "str") { p.pack(v["v"].get<std::string>()); }
        else if (t == "arr")
        {
            p.pack_array(v["v"].size());
            for (const json &e : v["v"]) { pack(p, e, ints); }
        }
        else
        {
            p.pack_map(v["v"].size());
            for (const json &e : v["v"]) { p.pack(e["k"].get<std::string>()); pack(p, e["v"], ints); }
        }
    }
    void putFile(const std::string &file, const json &content, const bool ints, const bool one)
    {
        std::ofstream f(file.c_str(), std::ios::binary);
        ::msgpack::packer<std::ofstream> p(f);
        if (one) { pack(p, tv("map", content), ints); return; }
        for (const json &e : content) { json o = json::array(); o.push_back(e); pack(p, tv("map", o), ints); }
    }
#endif

#ifdef VERIF_YAML
#define VERIF_SEPARATOR "\n"
#else
#define VERIF_SEPARATOR ""
#endif
    struct ConfigMachine : public Machine
    {
        std::vector<std::unique_ptr<Any> > objs;
        std::unique_ptr<Writer> writer;
        std::unique_ptr<Reader> reader;
        std::string file;
        ConfigMachine() { std::ostringstream s; s << "config-" << this << ".msgpack"; file = s.str(); std::remove(file.c_str()); }
        ~ConfigMachine() { writer.reset(); std::remove(file.c_str()); }

        std::string contents()
        {
            std::ifstream f(file.c_str(), std::ios::binary); std::stringstream b; b << f.rdbuf(); return b.str();
        }
        json read(const json &s)
        {
            Any &o = *objs[s["o"].get<int>() - 1];
            // a reader is kept even if a section was refused
            if (!reader) { reader.reset(new Reader(file)); }
            o.read(s["how"], reader.get(), file, s["name"], s["mode"]);
            json r;
            r["vals"] = o.compare(s["defs"]);
            r["derived"] = o.derive();
            return r;
        }
        json step(const json &s)
        {
            const std::string op = s["op"];
            json r;
            if (op == "setup")
            {
                for (const json &c : s["classes"]) { objs.emplace_back(make(c)); }
                r["ok"] = true; return r;
            }
            if (op == "fill")
            {
                Any &o = *objs[s["o"].get<int>() - 1];
                o.put(s["vals"]);
                r["vals"] = o.dump();
                return r;
            }
            if (op == "write")
            {
                const std::string how = s["how"];
                reader.reset();
                std::string old;
                if (s["new"].get<bool>()) { writer.reset(); }
                if (how.compare(0, 6, "writer") == 0 && !writer)
                {
                    // a writer starts a new file: what was written or edited before is put back afterwards
                    if (!s["new"].get<bool>()) { old = contents() + VERIF_SEPARATOR; }
                    writer.reset(new Writer(file));
                }
                objs[s["o"].get<int>() - 1]->write(how, writer.get(), file, s["name"]);
                if (!old.empty())
                {
                    writer.reset();
                    old += contents();
                    std::ofstream f(file.c_str(), std::ios::binary); f << old;
                }
                r["file"] = ordered(fileContent(file), tv("map", s["order"]))["v"];
                return r;
            }
            if (op == "edit")
            {
                writer.reset(); reader.reset();
                putFile(file, s["file"], s["ints"], s["one"]);
                r["ok"] = true;
                return r;
            }
            if (op == "read") { return read(s); }
            throw std::logic_error("unknown op");
        }
    };
    // ------------------------------------------------------------------------- configurable hierarchies
    namespace wt = humoto::wpg04;
    const int IK = humoto::pepper_ik::ModelFeatures::FIXED_WHEELS | humoto::pepper_ik::ModelFeatures::ROOT_TORSO;
    typedef humoto::ConfigurableOptimizationProblem Problem;
    Problem *makeProblem(const std::string &module)
    {
        if (module == "walking") { return new humoto::wpg04::ConfigurableOptimizationProblem; }
        if (module == "base") { return new humoto::pepper_mpc::ConfigurableOptimizationProblem; }
        if (module == "inverse") { return new humoto::pepper_ik::ConfigurableOptimizationProblem<IK>; }
        return new Problem;
    }
    // parameters of a task in the order of the specification: v("class") is followed by v("name", value)
    template<class V> void parameters(humoto::TaskBase &t, V &v)
    {
        using namespace humoto; using namespace humoto::wpg04; using namespace humoto::pepper_mpc;
        #define TASK(NAME, T, ...) if (typeid(t) == typeid(T)) { T &o = static_cast<T &>(t); (void) o; v(NAME); __VA_ARGS__ }
        #define P(k) v(#k, o.k##_);
        #define GAIN(T) TASK(#T, T, P(gain))
        GAIN(TaskInfeasibleInequality) GAIN(TaskCoPVelocity) GAIN(TaskCoMVelocity) GAIN(TaskTerminalConstraint)
        GAIN(TaskBaseAccelerationBounds) GAIN(TaskBaseJerkMinimization) GAIN(TaskBasePositionReference) GAIN(TaskBaseVelocityReference)
        GAIN(TaskBodyPositionBounds) GAIN(TaskBodyPositionReference) GAIN(TaskCoPCentering) GAIN(TaskCoPPositionBounds)
        TASK("TaskBaseVelocityBounds", TaskBaseVelocityBounds) TASK("TaskCoPBounds", TaskCoPBounds)
        TASK("TaskZeroVariables", TaskZeroVariables, P(gain) P(variables_id)) TASK("TaskCoPPosition", TaskCoPPosition, P(gain) P(variables_id))
        TASK("TaskBodyJerkMinimization", TaskBodyJerkMinimization, P(gain) P(variables_id))
        TASK("TaskZeroSelectedVariables", TaskZeroSelectedVariables, P(gain) P(variables_indices))
        TASK("TaskFootstepBounds", TaskFootstepBounds, P(fix_footsteps))
        #define TIK(NAME, ...) TASK(#NAME, humoto::pepper_ik::NAME<IK>, __VA_ARGS__)
        TIK(TaskBaseCoMTracking, P(gain) P(k_position_gain)) TIK(TaskBaseOrientation, P(gain) P(k_orientation_gain))
        TIK(TaskBodyCoMTracking, P(gain) P(k_position_gain) P(axis_flag)) TIK(TaskFixArms) TIK(TaskFixHead) TIK(TaskJointsBounds)
        TIK(TaskJointsReference, P(gain) P(k_position_gain) P(joint_angles_reference))
        TIK(TaskTagOrientation, P(gain) P(k_orientation_gain) P(tag_string_id) P(reference_rpy))
        TIK(TaskTagAngularVelocity, P(gain) P(k_angular_velocity_gain) P(tag_string_id))
        TIK(TaskTagCompleteVelocity, P(gain) P(k_complete_velocity_gain) P(tag_string_id))
        TIK(TaskTagPose, P(gain) P(k_pose_gain) P(tag_string_id)) TIK(TaskTagPose3Dof, P(gain) P(k_pose_gain) P(tag_string_id))
    }
    json show(const humoto::IndexVector &x)
    {
        json a = json::array();
        for (int i = 0; i < x.size(); ++i) { a.push_back(tv("int", x[i])); }
        return tv("arr", a);
    }
    void put(humoto::IndexVector &x, const json &j)
    {
        x.resize(j["v"].size());
        for (int i = 0; i < x.size(); ++i) { x[i] = static_cast<unsigned>(toD(j["v"][i]["v"])); }
    }
    struct ShowTask
    {
        json r, ps;
        ShowTask() : ps(json::array()) { r["c"] = "some other class"; }
        void operator()(const char *c) { r["c"] = c; }
        template<class T> void operator()(const char *k, const T &x) { json e; e["k"] = k; e["v"] = show(x); ps.push_back(e); }
    };
    struct PutTask
    {
        const json &in;
        explicit PutTask(const json &j) : in(j) {}
        void operator()(const char *) {}
        template<class T> void operator()(const char *k, T &x) { for (const json &e : in) { if (e["k"] == k) { put(x, e["v"]); } } }
    };
    json showTask(humoto::TaskBase *t)
    {
        ShowTask s;
        parameters(*t, s);
        s.r["id"] = t->getDescription();
        s.r["par"] = s.ps;
        return s.r;
    }
    json showProblem(Problem &p)
    {
        json r = json::array();
        for (std::size_t i = 0; i < p.getNumberOfLevels(); ++i)
        {
            json l = json::array();
            for (auto &t : p[i].tasks_) { l.push_back(showTask(t.ptr_.get())); }
            r.push_back(l);
        }
        return r;
    }
    struct ProblemMachine : public Machine
    {
        std::unique_ptr<Problem> probs[2];
        std::string file;
        ProblemMachine() { std::ostringstream s; s << "problem-" << this << ".msgpack"; file = s.str(); std::remove(file.c_str()); }
        ~ProblemMachine() { std::remove(file.c_str()); }
        std::string modules[2];
        void fresh(const json &s) { const int p = s["p"].get<int>() - 1; probs[p].reset(makeProblem(modules[p])); }
        Problem &at(const json &s)
        {
            std::unique_ptr<Problem> &p = probs[s["p"].get<int>() - 1];
            if (!p) { fresh(s); }
            return *p;
        }
        json step(const json &s)
        {
            const std::string op = s["op"];
            json r;
            if (op == "setup") { for (int i = 0; i < 2; ++i) { modules[i] = s["modules"][i]; } r["ok"] = true; return r; }
            if (op == "edit")
            {
                json o = json::array(), e;
                e["k"] = "OptimizationProblem"; e["v"] = tv("map", s["file"]);
                o.push_back(e);
                putFile(file, o, false, true);
                r["ok"] = true; return r;
            }
            if (op == "reset") { at(s).reset(s["levels"].get<int>()); }
            else if (op == "push")
            {
                const json &t = s["task"];
                Problem &p = at(s);
                humoto::TaskSharedPointer task = p.getTask(t["c"]);
                task->setDescription(t["id"]);
                // setters and constructors, where the library has them
                bool all = true;
                for (const json &e : t["par"])
                {
                    const std::string k = e["k"];
                    if (k == "gain")
                    {
                        const double g = toD(e["v"]["v"]);
                        if (auto *x = dynamic_cast<humoto::TaskAB *>(task.get())) { x->setGain(g); }
                        else if (auto *x = dynamic_cast<humoto::TaskALU *>(task.get())) { x->setGain(g); }
                        else if (auto *x = dynamic_cast<humoto::TaskGIB0 *>(task.get())) { x->setGain(g); }
                        else { all = false; }
                    }
                    else if (k == "variables_id" && dynamic_cast<humoto::TaskZeroVariables *>(task.get()))
                    {
                        dynamic_cast<humoto::TaskZeroVariables &>(*task).setVariablesID(e["v"]["v"]);
                    }
                    else if (k == "variables_indices")
                    {
                        humoto::IndexVector v;
                        put(v, e["v"]);
                        task.reset(new humoto::TaskZeroSelectedVariables(v, dynamic_cast<humoto::TaskGIB0 &>(*task).getGain(), t["id"]));
                    }
                    else { all = false; }
                }
                if (!all) { PutTask v(t["par"]); parameters(*task, v); }
                p.pushTask(task, s["level"].get<int>(), t["c"]);
            }
            else if (op == "write")
            {
                at(s).writeConfig<Writer>(file);
                json want = json::array(), e;
                e["k"] = "OptimizationProblem"; e["v"] = tv("map", s["order"]);
                want.push_back(e);
                json have = ordered(fileContent(file), tv("map", want))["v"];
                r["file"] = have.size() == 1 && have[0]["k"] == "OptimizationProblem" ? have[0]["v"]["v"] : have;
                return r;
            }
            else if (op == "read")
            {
                const int how = s["how"];
                if (how == 1) { at(s).readConfig<Reader>(file); }
                else if (how == 2) { Reader rd(file); at(s).readConfig(rd); }
                else { fresh(s); Reader rd(file); at(s).readConfig(rd, "OptimizationProblem", true); }
            }
            else { throw std::logic_error("unknown op"); }
            r["show"] = showProblem(at(s));
            return r;
        }
    };
}

verif::Machine *verif::makeMachine(const std::string &name, const json &c)
{
    if (name == "config") { return new ConfigMachine(); }
    if (name == "problem") { return new ProblemMachine(); }
    throw std::logic_error("unknown machine " + name);
}
