#pragma once
#include "../script.h"

namespace QuadProgpp
{
    struct Status { enum Value { OK = 0, FAILURE = 1 }; };
    // min 0.5 x'Gx + g0'x,  CE' x + ce0 = 0,  CI' x + ci0 >= 0
    class Solver
    {
        public:
            Status::Value solve(const Eigen::MatrixXd &G, const Eigen::VectorXd &g0, const Eigen::MatrixXd &CE, const Eigen::VectorXd &ce0,
                                const Eigen::MatrixXd &CI, const Eigen::VectorXd &ci0, Eigen::VectorXd &x)
            {
                verif::Script &s = verif::Script::get();
                ++s.calls;
                s.solver = "quadprogpp";
                s.H = G; s.g = g0; s.Ae = CE.transpose(); s.be = -ce0; s.A = CI.transpose(); s.lbA = -ci0;
                x = s.x;
                return s.code == "ok" ? Status::OK : Status::FAILURE;
            }
    };
}
