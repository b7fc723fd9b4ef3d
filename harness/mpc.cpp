// Replay harness: condensing of dynamics, triple integrators, point mass
// model, cubic polynomials, foot trajectories, rotations.
#include "common.h"
#include "humoto/walking.h"
using namespace verif;

namespace
{
    // ---------------------------------------------------------------- condense
    class OpenMPC : public humoto::MPC
    {
        public:
            using humoto::MPC::condense;
            using humoto::MPC::condenseOutput;
            using humoto::MPC::condenseTimeInvariant;
            void log(humoto::Logger &, const humoto::LogEntryName &, const std::string &) const {}
    };

    std::vector<Eigen::MatrixXd> mats(const json &j)
    {
        std::vector<Eigen::MatrixXd> r;
        for (const json &m : j) { r.push_back(toM(m)); }
        return r;
    }

    template<int nv, int nc, int no> struct CondenseMachine : public Machine
    {
        // reused by all the calls: nothing of a previous call may survive
        etools::GenericBlockMatrix<nv, nv> S, Sf;
        etools::LeftLowerTriangularBlockMatrix<nv, nc> U;
        etools::GenericBlockMatrix<nv, nc> Uf;
        etools::GenericBlockMatrix<no, nv> Ox, Oxg;
        etools::LeftLowerTriangularBlockMatrix<no, nc> Ou;
        std::vector< etools::LeftLowerTriangularBlockMatrix<no, etools::MatrixBlockSizeType::DYNAMIC> > Oug;
        Eigen::MatrixXd Sd, Ud, Oxd, Oud;

        json step(const json &s)
        {
            typedef std::vector<Eigen::MatrixXd> Mats;
            const std::string op = s["op"];
            const Mats A = mats(s["A"]), B = mats(s["B"]);
            json r;
            if (op == "block") { OpenMPC::condense(S, U, A, B); r["S"] = mat(S.getRaw()); r["U"] = mat(U.getRaw()); }
            else if (op == "full") { OpenMPC::condense(Sf, Uf, A, B); r["S"] = mat(Sf.getRaw()); r["U"] = mat(Uf.getRaw()); }
            else if (op == "dense") { OpenMPC::condense(Sd, Ud, A, B); r["S"] = mat(Sd); r["U"] = mat(Ud); }
            else if (op == "invariant")
            {
                OpenMPC::condenseTimeInvariant(Sd, Ud, s["N"].get<int>(), A[0], B[0]);
                r["S"] = mat(Sd); r["U"] = mat(Ud);
            }
            else
            {
                const Mats D = mats(s["D"]), E = mats(s["E"]);
                OpenMPC::condense(S, U, A, B);
                if (op == "oblock")
                {
                    OpenMPC::condenseOutput(Ox, Ou, D, E, S, U);
                    r["Ox"] = mat(Ox.getRaw()); r["Ou"] = mat(Ou.getRaw());
                }
                else if (op == "odense")
                {
                    const Eigen::MatrixXd Sm = S.getRaw(), Um = U.getRaw();
                    OpenMPC::condenseOutput(Oxd, Oud, D[0], E[0], Sm, Um);
                    r["Ox"] = mat(Oxd); r["Ou"] = mat(Oud);
                }
                else if (op == "ogroups")
                {
                    // the controls are split in two groups (if there are two)
                    const int N = A.size();
                    std::vector<int> g;
                    if (nc > 1) { g.push_back(1); g.push_back(nc - 1); } else { g.push_back(nc); }
                    std::vector< etools::LeftLowerTriangularBlockMatrix<nv, etools::MatrixBlockSizeType::DYNAMIC> > Uu(g.size());
                    int off = 0;
                    for (std::size_t k = 0; k < g.size(); ++k)
                    {
                        Uu[k].setBlockSize(etools::MatrixBlockSizeType::UNDEFINED, g[k]);
                        Uu[k].setZero(N, N);
                        for (int i = 0; i < N; ++i)
                            for (int j = 0; j < N; ++j) { Uu[k](i, j) = U.getRaw().block(i * nv, j * nc + off, nv, g[k]); }
                        off += g[k];
                    }
                    OpenMPC::condenseOutput(Oxg, Oug, D, E, S, Uu);
                    Eigen::MatrixXd O(no * N, nc * N);
                    off = 0;
                    if (Oug.size() != g.size()) { throw std::runtime_error("wrong number of matrices"); }
                    for (std::size_t k = 0; k < g.size(); ++k)
                    {
                        if (Oug[k].getRaw().rows() != no * N || Oug[k].getRaw().cols() != g[k] * N) { throw std::runtime_error("wrong size"); }
                        for (int i = 0; i < N; ++i)
                            for (int j = 0; j < N; ++j)
                            {
                                O.block(i * no, j * nc + off, no, g[k]) = Oug[k].getRaw().block(i * no, j * g[k], no, g[k]);
                            }
                        off += g[k];
                    }
                    r["Ox"] = mat(Oxg.getRaw()); r["Ou"] = mat(O);
                }
                else { throw std::logic_error("unknown op"); }
            }
            return r;
        }
    };

    // -------------------------------------------------------------- integrators
    struct IntegratorMachine : public Machine
    {
        template<std::size_t n> json run(const json &s)
        {
            typedef humoto::rigidbody::TripleIntegrator TI;
            const std::string op = s["op"];
            const double T = toD(s["T"]), Ts = toD(s["Ts"]);
            const Eigen::VectorXd x = toV(s["x"]), u = toV(s["u"]);
            Eigen::MatrixXd A, B, As, Bs, D, E;
            json r;
            if (op == "jerk")
            {
                A = TI::getAJerk<n>(T); B = TI::getBJerk<n>(T);
                r["fin"] = vec(A * x + B * u);
                return r;
            }
            if (op == "acc")
            {
                A = TI::getAAcc<n>(T); B = TI::getBAcc<n>(T); As = TI::getAsAcc<n>(T, Ts); Bs = TI::getBsAcc<n>(T, Ts);
                D = TI::getDAcc<n>(T); E = TI::getEAcc<n>(T);
            }
            else if (op == "vel")
            {
                A = TI::getAVel<n>(T); B = TI::getBVel<n>(T); As = TI::getAsVel<n>(T, Ts); Bs = TI::getBsVel<n>(T, Ts);
                D = TI::getDVel<n>(T); E = TI::getEVel<n>(T);
            }
            else
            {
                A = TI::getAPos<n>(T); B = TI::getBPos<n>(T); As = TI::getAsPos<n>(T, Ts); Bs = TI::getBsPos<n>(T, Ts);
                D = TI::getDPos<n>(T); E = TI::getEPos<n>(T);
            }
            r["fin"] = vec(A * x + B * u);
            r["sub"] = vec(As * x + Bs * u);
            r["j"] = vec(D * x + E * u);
            return r;
        }
        json step(const json &s)
        {
            switch (s["n"].get<int>())
            {
                case 1: return run<1>(s);
                case 2: return run<2>(s);
                default: return run<3>(s);
            }
        }
    };

    // --------------------------------------------------------------- point mass
    struct PointMassMachine : public Machine
    {
        json step(const json &s)
        {
            typedef humoto::walking::PointMassModel6z PM;
            const double w = toD(s["w"]);
            const double ln = std::log(toD(s["r"]));
            const double T = s["m"].get<double>() * ln / w, Ts = s["ms"].get<double>() * ln / w;
            const double h = humoto::g_gravitational_acceleration / (w * w);
            const double omega = PM::getOmega(h);
            const etools::Vector6 x = toV(s["x"]);
            const etools::Vector2 u = toV(s["u"]);
            json r;
            const etools::Vector6 fin = PM::getA6(T, omega) * x + PM::getB6(T, omega) * u;
            r["fin"] = vec(fin);
            r["sub"] = vec(etools::Vector6(PM::getA6(Ts, omega, T) * x + PM::getB6(Ts, omega, T) * u));
            const humoto::rigidbody::PointMassState e = PM::evaluate(Ts, T, h, x, u);
            r["eval"] = vec(PM::convertCoMState(e));
            r["height"] = e.position_.z();
            r["zd"] = vec(etools::Vector2(PM::getD6(T, omega) * x + PM::getE6(T, omega) * u));
            r["cop"] = vec(etools::Vector2(PM::getDdz6(h) * x));
            r["copfin"] = vec(etools::Vector2(PM::getDdz6(h) * fin));
            r["cpv"] = vec(etools::Vector2(PM::getDcpv6(omega) * x));
            r["roundtrip"] = vec(PM::convertCoMState(PM::convertCoMState(x, h)));
            // the one-dimensional versions
            const etools::Vector3 x3 = x.head(3);
            const Eigen::Vector3d f3 = PM::getA3(T, omega) * x3 + PM::getB3(T, omega) * u(0);
            const Eigen::Vector3d s3 = PM::getA3(Ts, omega, T) * x3 + PM::getB3(Ts, omega, T) * u(0);
            const double z3 = PM::getD3(T, omega) * x3 + PM::getE3(T) * u(0);
            if ((f3 - fin.head(3)).norm() > 1e-9 * (1 + f3.norm())) { r["fin"] = "A3/B3 disagree"; }
            for (int i = 0; i < 3; ++i)
            {
                if (std::abs(s3[i] - r["sub"][i].get<double>()) > 1e-9 * (1 + std::abs(s3[i]))) { r["sub"] = "A3/B3 disagree"; break; }
            }
            if (std::abs(z3 - r["zd"][0].get<double>()) > 1e-9 * (1 + std::abs(z3))) { r["zd"] = "D3/E3 disagree"; }
            return r;
        }
    };

    // -------------------------------------------------------------------- cubic
    struct CubicMachine : public Machine
    {
        typedef humoto::rigidbody::TrajectoryEvaluationType::Type EType;
        humoto::rigidbody::CubicPolynomial1D p;
        humoto::walking::Simple3DFootTrajectory f;
        static EType type(const json &d) { return static_cast<EType>(d.get<int>()); }
        json step(const json &s)
        {
            const std::string op = s["op"];
            json r;
            if (op == "init2") { p.initialize(toD(s["a"]), toD(s["b"])); r["jerk"] = p.getJerk(); }
            else if (op == "init4") { p.initialize(toD(s["a"]), toD(s["ad"]), toD(s["b"]), toD(s["bd"])); r["jerk"] = p.getJerk(); }
            else if (op == "eval")
            {
                const double t = toD(s["t"]), v = p.eval(t, type(s["d"]));
                const double v2 = s["d"] == 1 ? p.getPosition(t) : s["d"] == 2 ? p.getVelocity(t) : p.getAcceleration(t);
                if (v != v2) { r["v"] = "eval() disagrees with the getter"; } else { r["v"] = v; }
            }
            else if (op == "evalvec")
            {
                const std::vector<double> v = p.eval(toV(s["t"]), type(s["d"]));
                r["v"] = json(v);
            }
            else if (op == "scale") { r["v"] = vec(humoto::rigidbody::CubicPolynomial1D::scale(toV(s["t"]))); }
            else if (op == "initfoot")
            {
                const etools::Vector3 a = toV(s["a"]), b = toV(s["b"]), ad = toV(s["ad"]), bd = toV(s["bd"]);
                const double h = toD(s["h"]);
                if (s["form"] == 0) { f.initialize(a, b, h); }
                else if (s["form"] == 1) { f.initialize(a, ad, b, bd, h); }
                else
                {
                    humoto::rigidbody::RigidBodyState sa, sb;
                    sa.position_ = a; sa.velocity_ = ad; sb.position_ = b; sb.velocity_ = bd;
                    sa.rpy_(humoto::AngleIndex::YAW) = toD(s["th"]["a"]);
                    sa.angular_velocity_(humoto::AngleIndex::YAW) = toD(s["th"]["ad"]);
                    sb.rpy_(humoto::AngleIndex::YAW) = toD(s["th"]["b"]);
                    sb.angular_velocity_(humoto::AngleIndex::YAW) = toD(s["th"]["bd"]);
                    f.initialize(sa, sb, h);
                }
                r["ok"] = true;
            }
            else if (op == "evalfoot")
            {
                const double t = toD(s["t"]);
                humoto::rigidbody::RigidBodyState st;
                f.eval(st, t);
                r["pos"] = vec(st.position_); r["vel"] = vec(st.velocity_); r["acc"] = vec(st.acceleration_);
                r["th"] = json::array({ num(st.rpy_(humoto::AngleIndex::YAW)), num(st.angular_velocity_(humoto::AngleIndex::YAW)),
                                        num(st.angular_acceleration_(humoto::AngleIndex::YAW)) });
            }
            else { throw std::logic_error("unknown op"); }
            return r;
        }
    };

    // ---------------------------------------------------------------- rotations
    struct RotationMachine : public Machine
    {
        static double angle(const json &a) { return std::atan2(toD(a["s"]), toD(a["c"])); }
        static etools::Vector3 rpy(const json &j) { return etools::Vector3(angle(j[0]), angle(j[1]), angle(j[2])); }
        json step(const json &s)
        {
            using namespace humoto::rigidbody;
            const std::string op = s["op"];
            json r;
            if (op == "euler")
            {
                const EulerAngles::Type t = static_cast<EulerAngles::Type>(s["type"].get<int>());
                const EulerAngles::Type to = static_cast<EulerAngles::Type>(s["to"].get<int>());
                etools::Vector3 e = rpy(s["rpy"]);
                if (s.count("add")) { e += toV(s["add"]); }
                const etools::Matrix3 M = convertEulerAnglesToMatrix(e, t);
                r["M"] = mat(M);
                r["back"] = mat(convertEulerAnglesToMatrix(convertMatrixToEulerAngles(M, to), to));
                r["conv"] = mat(convertEulerAnglesToMatrix(convertEulerAngles(e, t, to), to));
            }
            else if (op == "badtype")
            {
                const etools::Vector3 e(0.1, 0.2, 0.3);
                const etools::Matrix3 M = etools::Matrix3::Identity();
                switch (s["which"].get<int>())
                {
                    case 0: convertEulerAnglesToMatrix(e, EulerAngles::UNDEFINED); break;
                    case 1: convertMatrixToEulerAngles(M, EulerAngles::UNDEFINED); break;
                    case 2: getEulerRatesToAngularVelocityTransform(e, EulerAngles::UNDEFINED); break;
                    default: convertEulerAngles(e, EulerAngles::RPY, EulerAngles::UNDEFINED); break;
                }
                r["ok"] = true;
            }
            else if (op == "error")
            {
                const etools::Matrix3 c = toM(s["cur"]), f = toM(s["ref"]);
                r["E"] = mat(getRotationError(c, f));
                r["aa"] = vec(getRotationErrorAngleAxis(c, f));
            }
            else if (op == "rates") { r["M"] = mat(getEulerRatesToAngularVelocityTransform(rpy(s["rpy"]), EulerAngles::RPY)); }
            else if (op == "integrate1")
            {
                r["M"] = mat(integrateAngularVelocity(toM(s["M"]), toV(s["w"]), toD(s["dt"])));
            }
            else if (op == "rodrigues")
            {
                const double dt = toD(s["dt"]);
                const etools::Vector3 w = toV(s["axis"]) * (angle(s["a"]) / dt);
                r["M"] = mat(integrateAngularVelocityRodrigues(toM(s["M"]), w, dt));
            }
            else if (op == "smallstep")
            {
                const double dt = toD(s["dt"]), a = std::ldexp(1., -s["k"].get<int>());
                r["M"] = mat(integrateAngularVelocityRodrigues(toM(s["M"]), toV(s["axis"]) * (a / dt), dt));
            }
            else if (op == "smallerror")
            {
                const etools::Matrix3 c = toM(s["M"]);
                const etools::Vector3 ax = toV(s["axis"]);
                const etools::Matrix3 f = Eigen::AngleAxisd(std::ldexp(1., -s["k"].get<int>()), ax).matrix() * c;
                r["E"] = mat(getRotationError(c, f));
                r["aa"] = vec(getRotationErrorAngleAxis(c, f));
            }
            else if (op == "cross")
            {
                const etools::Vector3 v = toV(s["v"]), u = toV(s["u"]);
                const etools::CrossProductMatrix K(v);
                r["hat"] = mat(K.eval());
                if ((etools::CrossProductMatrix::eval(v) - K.eval()).norm() != 0) { r["hat"] = "eval disagrees"; }
                r["vu"] = vec(etools::Vector3(K * u));
                r["Wv"] = mat(toM(s["W"]) * K);
            }
            else if (op == "body")
            {
                RotaryState st;
                st.set(rpy(s["rpy"]));
                r["M"] = mat(st.getOrientationMatrix());
            }
            else { throw std::logic_error("unknown op"); }
            return r;
        }
    };
}

verif::Machine *verif::makeMachine(const std::string &name, const json &c)
{
    if (name == "condense")
    {
        const int nv = c["dims"]["nv"], nc = c["dims"]["nc"], no = c["dims"]["no"];
#define VERIF_DIMS(a, b, d) if (nv == a && nc == b && no == d) { return new CondenseMachine<a, b, d>(); }
        VERIF_DIMS(2, 1, 2) VERIF_DIMS(3, 2, 2) VERIF_DIMS(2, 2, 1) VERIF_DIMS(3, 1, 3) VERIF_DIMS(3, 3, 1)
#undef VERIF_DIMS
    }
    if (name == "integrator") { return new IntegratorMachine(); }
    if (name == "pointmass") { return new PointMassMachine(); }
    if (name == "cubic") { return new CubicMachine(); }
    if (name == "rotation") { return new RotationMachine(); }
    throw std::logic_error("unknown machine " + name);
}
