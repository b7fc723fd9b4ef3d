// Common part of the replay harnesses: reads cases (one JSON object per line),
// executes the steps on the real library, writes observations.
//
//   harness CASES OUT [FIRST]
//
// Each line of OUT: {"i": case index, "obs": [observation per step]}.
// An exception is an observation: {"throws": true, "what": "..."}.
#pragma once
#include <stdexcept>
#include <string>
// failed Eigen assertions must be observable without killing the process
namespace verif
{
    struct EigenAssertion : public std::runtime_error
    {
        EigenAssertion(const std::string &w) : std::runtime_error(w) {}
    };
}
#define eigen_assert(X) do { if (!(X)) { throw verif::EigenAssertion(std::string("eigen_assert: ") + #X); } } while (false)

#include <fstream>
#include <iostream>
#include <sstream>
#include <limits>
#include <cmath>
#include <nlohmann/json.hpp>

#ifndef VERIF_NO_GLOBAL_LOGGER
#define HUMOTO_GLOBAL_LOGGER_ENABLED
#endif
#ifdef VERIF_YAML
#include "humoto/config_yaml.h"
#undef Node
#undef Parser
#endif
#ifdef VERIF_MSGPACK
#include "humoto/config_msgpack.h"
#endif
#include "humoto/humoto.h"

HUMOTO_INITIALIZE_GLOBAL_LOGGER(std::cout);

typedef nlohmann::json json;

namespace verif
{
    inline json num(const double v)
    {
        if (std::isnan(v)) { return json("nan"); }
        if (std::isinf(v)) { return json(v > 0 ? "inf" : "-inf"); }
        return json(v);
    }
    template<class D> inline json vec(const Eigen::DenseBase<D> &v)
    {
        json r = json::array();
        for (Eigen::Index i = 0; i < v.size(); ++i) { r.push_back(num(v(i))); }
        return r;
    }
    template<class D> inline json mat(const Eigen::DenseBase<D> &m)
    {
        json r = json::array();
        for (Eigen::Index i = 0; i < m.rows(); ++i)
        {
            json row = json::array();
            for (Eigen::Index j = 0; j < m.cols(); ++j) { row.push_back(num(m(i, j))); }
            r.push_back(row);
        }
        return r;
    }
    // rationals are {"n":..,"d":..}; {"a":..,"b":..} is a + b ln 2, {"a":..,"c":..} is a + c / ln 2
    inline double toD(const json &j)
    {
        if (j.is_object() && j.count("eps")) { return toD(j.at("v")) + std::ldexp(toD(j.at("eps")), -j.at("k").get<int>()); }
        if (j.is_object() && j.count("r")) { return toD(j.at("a")) + toD(j.at("b")) * std::log(toD(j.at("r"))); }
        if (j.is_object() && j.count("b")) { return toD(j.at("a")) + toD(j.at("b")) * std::log(2.); }
        if (j.is_object() && j.count("a") && j.count("c")) { return toD(j.at("a")) + toD(j.at("c")) / std::log(2.); }
        if (j.is_object()) { return j.at("n").get<double>() / j.at("d").get<double>(); }
        const double v = j.get<double>();
        if (v == 99999999.) { return humoto::g_infinity; }
        if (v == -99999999.) { return -humoto::g_infinity; }
        return v;
    }
    inline Eigen::VectorXd toV(const json &j)
    {
        Eigen::VectorXd v(j.size());
        for (std::size_t i = 0; i < j.size(); ++i) { v[i] = toD(j[i]); }
        return v;
    }
    inline Eigen::MatrixXd toM(const json &j, const std::ptrdiff_t cols = -1)
    {
        const std::ptrdiff_t c = j.size() == 0 ? std::max<std::ptrdiff_t>(cols, 0) : j[0].size();
        Eigen::MatrixXd m(j.size(), c);
        for (std::size_t i = 0; i < j.size(); ++i)
            for (std::ptrdiff_t k = 0; k < c; ++k) { m(i, k) = toD(j[i][k]); }
        return m;
    }
    inline humoto::IndexVector toI(const json &j)
    {
        humoto::IndexVector v(j.size());
        for (std::size_t i = 0; i < j.size(); ++i) { v[i] = j[i].get<unsigned int>(); }
        return v;
    }

    inline json thrown(const std::exception &e)
    {
        json r;
        r["throws"] = true;
        r["what"] = e.what();
        return r;
    }
    // run F, turn an exception into an observation
    template<class F> inline json guard(F f)
    {
        try { return f(); }
        catch (const std::exception &e) { return thrown(e); }
    }

    // a machine executes the steps of one case
    struct Machine
    {
        virtual ~Machine() {}
        virtual json step(const json &s) = 0;
    };
    Machine *makeMachine(const std::string &name, const json &c);
}

int main(int argc, char **argv)
{
    if (argc < 3) { return 2; }
    std::ifstream in(argv[1]);
    std::ofstream out(argv[2], std::ios::app);
    const long first = argc > 3 ? std::atol(argv[3]) : 0;
    std::string line;
    for (long i = 0; std::getline(in, line); ++i)
    {
        if (i < first) { continue; }
        out << "{\"begin\":" << i << "}" << std::endl;
        json res;
        res["i"] = i;
        res["obs"] = json::array();
        {
            json c = json::parse(line);
            std::unique_ptr<verif::Machine> m(verif::makeMachine(c.at("machine").get<std::string>(), c));
            for (const json &s : c.at("steps"))
            {
                res["obs"].push_back(verif::guard([&]() { return m->step(s); }));
            }
        }
        out << res.dump() << std::endl;
    }
    out << "{\"end\":1}" << std::endl;
    return 0;
}
