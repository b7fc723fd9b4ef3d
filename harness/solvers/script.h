// Stand-ins for the libraries of QP solvers: record what they are given, give the answer which the specification prescribes.
#pragma once
#include <Eigen/Core>
#include <string>
#include <vector>

namespace verif
{
    struct Script
    {
        // call
        int calls = 0;
        std::string solver;
        Eigen::MatrixXd H, A, Ae;
        Eigen::VectorXd g, lb, ub, lbA, ubA, be, x0;
        bool has_A = false, has_lb = false, has_ub = false, has_lbA = false, has_ubA = false, has_x0 = false, has_time = false,
             has_y0 = false, has_wb = false, has_wc = false;
        int nwsr = 0, hessian = 0;
        double time = 0, tolerance = 0;
        std::vector<int> wb, wc;
        // answer
        Eigen::VectorXd x, out_wb, out_wc;
        std::string code;
        int out_nwsr = 0;
        // parameters are read back through a pointer: copied when the solver runs
        static Script &get() { static Script s; return s; }
    };
}
