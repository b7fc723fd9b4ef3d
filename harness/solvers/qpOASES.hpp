#pragma once
#include "script.h"
#include <stdexcept>

namespace qpOASES
{
    typedef double real_t;
    enum returnValue { SUCCESSFUL_RETURN = 0, RET_INIT_FAILED = 33, RET_QP_INFEASIBLE = 61, RET_MAX_NWSR_REACHED = 64 };
    enum HessianType { HST_ZERO, HST_IDENTITY, HST_POSDEF, HST_POSDEF_NULLSPACE, HST_SEMIDEF, HST_INDEF, HST_UNKNOWN };
    enum SubjectToStatus { ST_LOWER = -1, ST_INACTIVE, ST_UPPER, ST_INFEASIBLE_LOWER, ST_INFEASIBLE_UPPER, ST_UNDEFINED };
    enum BooleanType { BT_FALSE, BT_TRUE };
    struct MessageHandling { static const char *getErrorCodeMessage(returnValue) { return "message"; } };

    class Options
    {
        public:
            BooleanType enableRamping, enableFarBounds, enableFlippingBounds, enableRegularisation, enableFullLITests, enableNZCTests;
            int enableDriftCorrection, enableCholeskyRefactorisation;
            BooleanType enableEqualities;
            real_t terminationTolerance, boundTolerance, boundRelaxation, epsNum, epsDen, maxPrimalJump, maxDualJump, initialRamping,
                   finalRamping, initialFarBounds, growFarBounds;
            SubjectToStatus initialStatusBounds;
            real_t epsFlipping;
            int numRegularisationSteps;
            real_t epsRegularisation;
            int numRefinementSteps;
            real_t epsIterRef, epsLITests, epsNZCTests, rcondSMin;
            BooleanType enableInertiaCorrection, enableDropInfeasibles;
            int dropBoundPriority, dropEqConPriority, dropIneqConPriority;
            Options() { setToDefault(); }
            returnValue setToDefault()
            {
                enableRamping = enableFarBounds = enableFlippingBounds = enableFullLITests = BT_TRUE;
                enableRegularisation = enableNZCTests = enableEqualities = enableDropInfeasibles = BT_FALSE;
                enableInertiaCorrection = BT_TRUE;
                enableDriftCorrection = 1; enableCholeskyRefactorisation = 0;
                terminationTolerance = 5.0e-9; boundTolerance = 1e-6; boundRelaxation = 1e4; epsNum = -2.5e-13; epsDen = 2.5e-13;
                maxPrimalJump = maxDualJump = 1e8; initialRamping = 0.5; finalRamping = 1.; initialFarBounds = 1e6; growFarBounds = 1e3;
                initialStatusBounds = ST_LOWER; epsFlipping = 1e-12; numRegularisationSteps = 0; epsRegularisation = 1e-3;
                numRefinementSteps = 1; epsIterRef = 1e-14; epsLITests = 1e-11; epsNZCTests = 1e-9; rcondSMin = 1e-14;
                dropBoundPriority = dropEqConPriority = dropIneqConPriority = 1;
                return SUCCESSFUL_RETURN;
            }
            returnValue setToMPC()
            {
                setToDefault();
                enableRamping = enableFarBounds = BT_FALSE; enableRegularisation = BT_TRUE; enableNZCTests = BT_FALSE;
                numRegularisationSteps = 1; numRefinementSteps = 0; enableEqualities = BT_TRUE; initialStatusBounds = ST_INACTIVE;
                terminationTolerance = 1e-7;
                return SUCCESSFUL_RETURN;
            }
    };

    class Bounds
    {
        public:
            std::vector<int> st;
            returnValue init(int n = 0) { st.assign(n, ST_UNDEFINED); return SUCCESSFUL_RETURN; }
            returnValue setupAllFree() { for (int &s : st) { s = ST_INACTIVE; } return SUCCESSFUL_RETURN; }
            returnValue setupBound(int i, SubjectToStatus s) { st.at(i) = s; return SUCCESSFUL_RETURN; }
    };
    class Constraints
    {
        public:
            std::vector<int> st;
            returnValue init(int n = 0) { st.assign(n, ST_UNDEFINED); return SUCCESSFUL_RETURN; }
            returnValue setupConstraint(int i, SubjectToStatus s) { st.at(i) = s; return SUCCESSFUL_RETURN; }
    };

    class QProblem
    {
            int n_, m_;
            HessianType h_;
            Options o_;
            static Eigen::VectorXd vec(const real_t *p, int n) { return p ? Eigen::VectorXd(Eigen::Map<const Eigen::VectorXd>(p, n)) : Eigen::VectorXd(); }
        public:
            QProblem(int n, int m, HessianType h = HST_UNKNOWN) : n_(n), m_(m), h_(h) {}
            returnValue setOptions(const Options &o) { o_ = o; return SUCCESSFUL_RETURN; }
            returnValue init(const real_t *H, const real_t *g, const real_t *A, const real_t *lb, const real_t *ub, const real_t *lbA,
                             const real_t *ubA, int &nWSR, real_t *cputime = 0, const real_t *xOpt = 0, const real_t *yOpt = 0,
                             const Bounds *gb = 0, const Constraints *gc = 0, const real_t * = 0)
            {
                verif::Script &s = verif::Script::get();
                ++s.calls;
                s.solver = "qpoases";
                s.H = Eigen::Map<const Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor> >(H, n_, n_);
                s.g = vec(g, n_);
                s.has_A = A; s.A = Eigen::MatrixXd(0, n_);
                if (A) { s.A = Eigen::Map<const Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor> >(A, m_, n_); }
                s.has_lb = lb; s.lb = vec(lb, n_); s.has_ub = ub; s.ub = vec(ub, n_);
                s.has_lbA = lbA; s.lbA = vec(lbA, m_); s.has_ubA = ubA; s.ubA = vec(ubA, m_);
                s.nwsr = nWSR;
                s.has_time = cputime; s.time = cputime ? *cputime : 0;
                s.has_x0 = xOpt; s.x0 = vec(xOpt, n_);
                s.has_y0 = yOpt;
                s.has_wb = gb; s.wb = gb ? gb->st : std::vector<int>();
                s.has_wc = gc; s.wc = gc ? gc->st : std::vector<int>();
                s.hessian = h_;
                s.tolerance = o_.terminationTolerance;
                nWSR = s.out_nwsr;
                return s.code == "ok" ? SUCCESSFUL_RETURN : s.code == "max" ? RET_MAX_NWSR_REACHED : RET_QP_INFEASIBLE;
            }
            returnValue getPrimalSolution(real_t *x) const
            {
                for (int i = 0; i < n_; ++i) { x[i] = verif::Script::get().x[i]; }
                return SUCCESSFUL_RETURN;
            }
            returnValue getWorkingSetBounds(real_t *w) const
            {
                for (int i = 0; i < n_; ++i) { w[i] = verif::Script::get().out_wb[i]; }
                return SUCCESSFUL_RETURN;
            }
            returnValue getWorkingSetConstraints(real_t *w) const
            {
                for (int i = 0; i < m_; ++i) { w[i] = verif::Script::get().out_wc[i]; }
                return SUCCESSFUL_RETURN;
            }
    };
}
