#pragma once
#include "../script.h"

namespace qpmad
{
    class SolverParameters
    {
        public:
            enum HessianType { UNDEFINED = 0, HESSIAN_LOWER_TRIANGULAR = 1, HESSIAN_CHOLESKY_FACTOR = 2 };
            HessianType hessian_type_;
            double tolerance_;
            int max_iter_;
            SolverParameters() : hessian_type_(HESSIAN_LOWER_TRIANGULAR), tolerance_(1e-12), max_iter_(-1) {}
    };
    class Solver
    {
        public:
            enum ReturnStatus { OK = 0, INCONSISTENT = 2, INFEASIBLE_EQUALITY = 3, INFEASIBLE_INEQUALITY = 4, MAXIMAL_NUMBER_OF_ITERATIONS = 5 };
            ReturnStatus solve(Eigen::VectorXd &x, const Eigen::MatrixXd &H, const Eigen::VectorXd &h, const Eigen::VectorXd &lb,
                               const Eigen::VectorXd &ub, const Eigen::MatrixXd &A, const Eigen::VectorXd &Alb, const Eigen::VectorXd &Aub,
                               const SolverParameters &p = SolverParameters())
            {
                verif::Script &s = verif::Script::get();
                ++s.calls;
                s.solver = "qpmad";
                s.H = H; s.g = h; s.lb = lb; s.ub = ub; s.A = A; s.lbA = Alb; s.ubA = Aub;
                s.tolerance = p.tolerance_;
                x = s.x;
                return s.code == "ok" ? OK : s.code == "max" ? MAXIMAL_NUMBER_OF_ITERATIONS : INFEASIBLE_INEQUALITY;
            }
    };
}
