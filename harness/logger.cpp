// Replay harness: logger (Logger.tla, LogText.tla).
//   VERIF_REAL_THREADS       threads of the system instead of the scheduler
//   VERIF_NO_LOGGING_THREAD  the logger without a thread of its own
#define VERIF_NO_GLOBAL_LOGGER
#include <thread>
#include <mutex>
#include <atomic>
#include <unistd.h>
#include <fcntl.h>
#include "common.h"
#ifdef VERIF_OBJECTS
#include "humoto/rigid_body.h"
#include "humoto/walking.h"
#include "humoto/wpg04.h"
#include "humoto/pepper_mpc.h"
#endif
#include "octave.h"
using namespace verif;

namespace
{
#if defined(VERIF_REAL_THREADS) || defined(VERIF_NO_LOGGING_THREAD)
    void point() {}
#else
    void point() { Scheduler::get().point(); }
#endif

    // all that happened, in order
    std::mutex events_mutex;
    json events;
    void event(const json &e)
    {
        std::lock_guard<std::mutex> l(events_mutex);
        events.push_back(e);
    }
    void event(const char *e) { json j; j["e"] = e; event(j); }
    void event(const char *e, const char *k, const int v) { json j; j["e"] = e; j[k] = v; event(j); }

    // numbers in a text
    std::vector<double> numbers(const std::string &s)
    {
        std::vector<double> r;
        const char *p = s.c_str();
        while (*p)
        {
            char *e;
            const double v = std::strtod(p, &e);
            if (e == p) { ++p; } else { r.push_back(v); p = e; }
        }
        return r;
    }

    // ------------------------------------------------------- messages
    const int forms = 8;
    template<class L> void logMessage(L &logger, const int id)
    {
        switch (id % forms)
        {
        case 0:
        {
            char text[20];
            std::snprintf(text, sizeof(text), "%d", id);
            logger.log(static_cast<const char *>(text));
            text[0] = 'x';
            break;
        }
        case 1: { std::string text = std::to_string(id); logger.log(text); text[0] = 'x'; break; }
        case 2: { int v = id; logger.log(v); v = -1; break; }
        case 3: { double v = id; humoto::LogEntryName name("m"); name.add("x"); logger.log(name, v); v = -1; name.add("y"); break; }
        case 4: { Eigen::VectorXd v = Eigen::VectorXd::Constant(3, id); logger.log(humoto::LogEntryName("m").add("x"), v); v.setZero(); break; }
        case 5: { std::vector<int> v(2, id); logger.log(humoto::LogEntryName("m.x"), v); v[0] = -1; break; }
        case 6: { Eigen::Matrix2d v = Eigen::Matrix2d::Constant(id); logger.log(humoto::LogEntryName("m.x"), v.transpose()); v.setZero(); break; }
        case 7: { std::string text = std::to_string(id); logger.log(humoto::LogEntryName("m.x"), text.c_str()); text[0] = 'x'; break; }
        }
    }
    // identifier of the message or -1 if it is damaged
    int parseMessage(const std::string &text)
    {
        std::string body = text;
        const std::size_t eq = text.find('=');
        if (eq != std::string::npos)
        {
            std::string name = text.substr(0, eq);
            name.erase(name.find_last_not_of(" ") + 1);
            if (name != "m.x") { return -1; }
            body = text.substr(eq + 1);
        }
        const std::vector<double> v = numbers(body);
        if (v.empty() || v[0] < 0) { return -1; }
        const int id = static_cast<int>(v[0]);
        const std::size_t count[forms] = {1, 1, 1, 1, 3, 2, 4, 1};
        if (v.size() != count[id % forms] || ((id % forms) >= 3) != (eq != std::string::npos)) { return -1; }
        for (const double x : v) { if (x != id) { return -1; } }
        return id;
    }

    // a stream which notes messages
    struct Sink : public std::streambuf
    {
        int number;
        bool points;
        std::string text;
        std::vector<int> ids;
        std::atomic<int> received;
        Sink(const int n, const bool p) : number(n), points(p), received(0) {}
        void take(const char c)
        {
            if (c != '\n') { text += c; return; }
            // a matrix consists of several lines
            const std::string end = text.size() > 3 ? text.substr(text.size() - 3) : "";
            const bool matrix = text.find("...") != std::string::npos;
            if (matrix && (end == "..." || text.find("];") == std::string::npos)) { text += ' '; return; }
            ids.push_back(parseMessage(text));
            text.clear();
            ++received;
            if (points) { point(); }
        }
        int_type overflow(int_type c) { if (c != traits_type::eof()) { take(traits_type::to_char_type(c)); } return c; }
        std::streamsize xsputn(const char *s, std::streamsize n) { for (std::streamsize i = 0; i < n; ++i) { take(s[i]); } return n; }
        int sync() { if (points) { point(); } return 0; }
    };

#ifndef VERIF_NO_LOGGING_THREAD
    struct LoggerMachine : public Machine
    {
        std::vector<std::unique_ptr<Sink>> sinks;
        std::vector<std::unique_ptr<std::ostream>> streams;
        std::string file;
        std::size_t file_done = 0;
        Sink *file_sink = nullptr, *next_sink = nullptr;

        // what was written to the file since the last time
        void readFile()
        {
            if (file.empty()) { return; }
            std::ifstream in(file);
            std::string all((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
            Sink &s = *file_sink;
            if (all.size() < file_done) { s.ids.push_back(-1); return; }
            s.sputn(all.data() + file_done, all.size() - file_done);
            file_done = all.size();
        }
        std::ostream &stream(const int k)
        {
            sinks.emplace_back(new Sink(k, true));
            streams.emplace_back(new std::ostream(sinks.back().get()));
            return *streams.back();
        }
        std::string newFile(const int k)
        {
            sinks.emplace_back(new Sink(k, false));
            next_sink = sinks.back().get();
            return "log-" + std::to_string(k) + ".m";
        }

        json step(const json &s)
        {
            events = json::array();
#ifdef VERIF_REAL_THREADS
            const std::size_t sleep_ms = s["sleep"].get<std::size_t>();   // long: messages are waiting in the queue
            std::vector<std::thread> producers;
#else
            Scheduler &sched = Scheduler::get();
            const std::size_t sleep_ms = 1;
            std::vector<int> producers;
            // a failure ends the process: what happened is lost, the process fails
            sched.onFail = [](const std::string &what) { std::cerr << "scheduler: " << what << std::endl; };
            sched.begin(s["sched"].get<std::vector<std::string>>());
#endif
            std::unique_ptr<humoto::Logger> logger;
            for (const json &o : s["prog"])
            {
                const std::string op = o["op"];
                if (op == "create" || op == "init")
                {
                    const int k = o["s"];
                    const std::string kind = o["kind"];
                    event("init", "s", kind == "bad" ? 0 : k);
                    if (op == "create" && kind == "none") { logger.reset(new humoto::Logger(sleep_ms)); event("ready", "s", k); continue; }
                    const std::string name = kind == "file" ? newFile(k) : "";
                    bool failed = false;
                    try
                    {
                        if (kind == "bad")
                        {
                            failed = true;
                            logger->initialize("missing-directory/log.m", sleep_ms);
                            event("accepted");
                        }
                        else if (kind == "file")
                        {
                            if (op == "create") { logger.reset(new humoto::Logger(name, sleep_ms)); } else { logger->initialize(name, sleep_ms); }
                        }
                        else
                        {
                            if (op == "create") { logger.reset(new humoto::Logger(stream(k), sleep_ms)); } else { logger->initialize(stream(k), sleep_ms); }
                        }
                    }
                    catch (const std::exception &e) { if (kind != "bad") { event("refused"); } }
                    // the previous file is complete now
                    readFile();
                    file = kind == "file" ? name : "";
                    file_sink = next_sink;
                    file_done = 0;
                    event("ready", "s", failed ? 0 : k);
                }
                else if (op == "start")
                {
                    for (std::size_t i = 0; i < s["producers"].size(); ++i)
                    {
                        const std::vector<int> ids = s["producers"][i].get<std::vector<int>>();
                        auto f = [&logger, ids]()
                        {
                            for (const int id : ids)
                            {
                                event("call", "id", id);
                                logMessage(*logger, id);
                                event("ret", "id", id);
                            }
                        };
#ifdef VERIF_REAL_THREADS
                        producers.emplace_back(f);
#else
                        producers.push_back(sched.spawn("P" + std::to_string(i + 1), f));
#endif
                    }
                    point();
                }
                else if (op == "log")
                {
                    event("call", "id", o["id"]);
                    logMessage(*logger, o["id"]);
                    event("ret", "id", o["id"]);
                }
                else if (op == "burst")
                {
                    const int first = o["from"], num = o["num"];
                    for (int id = first + 1; id <= first + num; ++id)
                    {
                        event("call", "id", id);
                        logMessage(*logger, id);
                        event("ret", "id", id);
                    }
                }
                else if (op == "idle")
                {
#ifdef VERIF_REAL_THREADS
                    int calls = 0;
                    for (const json &e : events) { calls += e["e"] == "call"; }
                    for (int i = 0; i < 5000 && received() < calls; ++i) { usleep(1000); readFile(); }
#else
                    const std::size_t n = sched.sleeps + 2;
                    sched.point([&sched, n]() { return sched.sleeps >= n; });
#endif
                    readFile();
                    event("idle", "n", sinks.empty() ? 0 : static_cast<int>(sinks.back()->ids.size()));
                }
                else if (op == "join")
                {
#ifdef VERIF_REAL_THREADS
                    for (auto &t : producers) { t.join(); }
                    producers.clear();
#else
                    for (const int i : producers) { sched.point([&sched, i]() { return sched.finished(i); }); }
                    producers.clear();
#endif
                }
                else if (op == "destroy")
                {
                    event("end");
                    logger.reset();
                    readFile();
                    event("ended");
                }
                else { throw std::logic_error("unknown op " + op); }
            }
#ifndef VERIF_REAL_THREADS
            sched.end();
#endif
            json r;
            r["events"] = events;
            r["outs"] = json::array();
            for (auto &k : sinks)
            {
                json o;
                o["s"] = k->number;
                if (!k->text.empty()) { k->ids.push_back(-1); }
                o["ids"] = k->ids;
                r["outs"].push_back(o);
            }
            return r;
        }
        int received()
        {
            int n = 0;
            for (auto &s : sinks) { n += s->received; }
            return n;
        }
    };
#endif

#ifdef VERIF_OBJECTS
    // ------------------------------------------------- text of the log
    // fields of an object
    struct Fields
    {
        const json &f;
        std::string p;
        Fields(const json &fields, const std::string &prefix) : f(fields), p(prefix) {}
        Fields sub(const std::string &n) const { return Fields(f, p + "." + n); }
        Fields sub(const std::string &n, const std::size_t i) const { return Fields(f, p + "." + n + "{" + std::to_string(i + 1) + "}"); }
        const json &get(const std::string &n) const { return f.at(p + "." + n); }
        double s(const std::string &n) const { return number(get(n)[0][0]); }
        std::size_t i(const std::string &n) const { return get(n)[0][0].get<std::size_t>(); }
        template<class T> void e(T &x, const std::string &n) const { x = static_cast<T>(i(n)); }
        Eigen::MatrixXd m(const std::string &n) const { return matrix(get(n)); }
        static double number(const json &j)
        {
            if (j.is_object() && j.at("d") == 0) { const int k = j.at("n"); return k == 0 ? std::nan("") : k > 0 ? INFINITY : -INFINITY; }
            return toD(j);
        }
        static Eigen::MatrixXd matrix(const json &j, const int rows = -1, const int cols = -1)
        {
            Eigen::MatrixXd m(rows < 0 ? j.size() : rows, cols < 0 ? (j.size() == 0 ? 0 : j[0].size()) : cols);
            for (int a = 0; a < m.rows(); ++a) for (int b = 0; b < m.cols(); ++b) { m(a, b) = j.size() == 0 ? 0. : number(j[a][b]); }
            return m;
        }
    };
    void fill(humoto::rigidbody::PointMassState &o, const Fields &f) { o.position_ = f.m("position"); o.velocity_ = f.m("velocity"); o.acceleration_ = f.m("acceleration"); }
    void fill(humoto::rigidbody::RotaryState &o, const Fields &f)
    {
        o.rpy_ = f.m("rpy"); o.angular_velocity_ = f.m("angular_velocity"); o.angular_acceleration_ = f.m("angular_acceleration");
    }
    void fill(humoto::rigidbody::RigidBodyState &o, const Fields &f)
    {
        fill(static_cast<humoto::rigidbody::PointMassState &>(o), f);
        fill(static_cast<humoto::rigidbody::RotaryState &>(o), f);
    }
    void fill(humoto::walking::Stance &o, const Fields &f)
    {
        f.e(o.type_, "type"); f.e(o.previous_nonds_stance_type_, "previous_nonds_stance_type"); f.e(o.previous_nontds_stance_type_, "previous_nontds_stance_type");
        f.e(o.subtype_, "subtype"); o.duration_ms_ = f.i("duration_ms"); o.total_duration_ms_ = f.i("total_duration_ms");
    }
    void fill(humoto::wpg04::WalkState &o, const Fields &f)
    {
        o.theta_ = f.s("theta"); o.step_height_ = f.s("step_height"); o.cvel_ref_ = f.m("cvel_ref"); o.rotation_ = f.m("rotation");
        o.R_cvel_ref_ = f.m("R_cvel_ref"); o.fd_bounds_ = f.m("fd_bounds"); o.cop_bounds_ = f.m("cop_bounds");
        fill(static_cast<humoto::walking::Stance &>(o), f.sub("stance"));
    }
    void fill(humoto::wpg04::PreviewHorizonInterval &o, const Fields &f)
    {
        o.state_index_ = f.i("state_index"); o.omega_ = f.s("omega"); o.T_ = f.s("T"); o.cvel_ref_ = f.m("cvel_ref");
        o.com_height_ = 1.; o.T_ms_ = 1;
    }
    void fill(humoto::pepper_mpc::PreviewHorizonInterval &o, const Fields &f)
    {
        o.base_height_ = f.s("base_height"); o.body_height_ = f.s("body_height"); o.base_mass_ = f.s("base_mass"); o.body_mass_ = f.s("body_mass");
        o.T_ = f.s("T"); o.T_ms_ = f.i("T_ms"); o.base_vel_ref_ = f.m("base_vel_ref"); o.base_pos_ref_ = f.m("base_pos_ref"); o.theta_ = f.s("theta");
        o.rotation_ = f.m("rotation"); o.body_bounds_ = f.m("body_bounds"); o.cop_bounds_ = f.m("cop_bounds");
        o.nominal_base_velocity_bounds_ = f.m("nominal_base_velocity_bounds"); o.nominal_base_acceleration_bounds_ = f.m("nominal_base_acceleration_bounds");
    }

    struct TextMachine : public Machine
    {
        std::vector<std::unique_ptr<std::ostringstream>> streams;
        std::unique_ptr<humoto::Logger> logger;
        std::string file;
        int count = 0;

        static void add(humoto::LogEntryName &name, const json &parts)
        {
            for (const json &p : parts)
            {
                if (p["t"] == "index") { name.add(p["k"].get<std::size_t>()); }
                else if (p["cstr"].get<bool>()) { name.add(p["s"].get<std::string>().c_str()); }
                else { name.add(p["s"].get<std::string>()); }
            }
        }
        void logValue(const humoto::LogEntryName &name, const json &v)
        {
            const std::string kind = v["kind"];
            humoto::Logger &l = *logger;
            if (kind == "int") { l.log(name, v["x"].get<int>()); return; }
            if (kind == "unsigned") { l.log(name, v["x"].get<unsigned>()); return; }
            if (kind == "size") { l.log(name, v["x"].get<std::size_t>()); return; }
            if (kind == "double") { l.log(name, Fields::number(v["x"])); return; }
            if (kind == "bool") { l.log(name, v["x"] == 1); return; }
            if (kind == "string") { l.log(name, v["x"].get<std::string>()); return; }
            if (kind == "cstr") { const std::string s = v["x"].get<std::string>(); l.log(name, s.c_str()); return; }
            if (kind == "chars")
            {
                char text[40] = {0};
                std::strncpy(text, v["x"].get<std::string>().c_str(), sizeof(text) - 1);
                const char (&t)[40] = text;
                l.log(name, t);
                return;
            }
            Eigen::MatrixXd M = Fields::matrix(v["M"], v["r"].get<int>(), v["c"].get<int>());
            if (kind == "vint") { std::vector<int> x; for (int i = 0; i < M.size(); ++i) { x.push_back(M(i)); } l.log(name, x); }
            else if (kind == "vunsigned") { std::vector<unsigned> x; for (int i = 0; i < M.size(); ++i) { x.push_back(M(i)); } l.log(name, x); }
            else if (kind == "vdouble") { std::vector<double> x; for (int i = 0; i < M.size(); ++i) { x.push_back(M(i)); } l.log(name, x); }
            else if (kind == "VectorXd") { Eigen::VectorXd x = M; l.log(name, x); x.setZero(); }
            else if (kind == "Vector3d") { Eigen::Vector3d x = M; l.log(name, x); x.setZero(); }
            else if (kind == "RowVectorXd") { Eigen::RowVectorXd x = M; l.log(name, x); x.setZero(); }
            else if (kind == "MatrixXd") { l.log(name, M); }
            else if (kind == "MatrixXi") { Eigen::MatrixXi x = M.cast<int>(); l.log(name, x); x.setZero(); }
            else if (kind == "Matrix3d") { Eigen::Matrix3d x = M; l.log(name, x); x.setZero(); }
            else if (kind == "RowMajor") { Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor> x = M; l.log(name, x); x.setZero(); }
            else if (kind == "map") { Eigen::Map<Eigen::MatrixXd> x(M.data(), M.rows(), M.cols()); l.log(name, x); }
            else if (kind == "array") { Eigen::ArrayXXd x = M.array(); l.log(name, x); x.setZero(); }
            else if (kind == "transpose") { l.log(name, M.transpose()); }
            else if (kind == "block") { l.log(name, M.block(v["r0"].get<int>(), v["c0"].get<int>(), v["h"].get<int>(), v["w"].get<int>())); }
            else if (kind == "fixedblock") { Eigen::Matrix3d x = M; l.log(name, x.block(v["r0"].get<int>(), v["c0"].get<int>(), v["h"].get<int>(), v["w"].get<int>())); x.setZero(); }
            else if (kind == "segment") { Eigen::VectorXd x = M; l.log(name, x.segment(v["r0"].get<int>(), v["h"].get<int>())); x.setZero(); }
            else if (kind == "col") { l.log(name, M.col(v["k"].get<int>())); }
            else if (kind == "row") { l.log(name, M.row(v["k"].get<int>())); }
            else if (kind == "sum") { Eigen::MatrixXd N = Fields::matrix(v["N"], v["r"].get<int>(), v["c"].get<int>()); l.log(name, M + N); N.setZero(); }
            else if (kind == "constant") { l.log(name, Eigen::MatrixXd::Constant(v["r"].get<int>(), v["c"].get<int>(), toD(v["x"]))); }
            else { throw std::logic_error("unknown kind " + kind); }
            M.setConstant(-77);
        }
        template<class T> void logObject(const json &s, T &o)
        {
            if (s["nested"].get<bool>()) { o.log(*logger, humoto::LogEntryName("top"), s["name"].get<std::string>()); }
            else { o.log(*logger, humoto::LogEntryName(), s["name"].get<std::string>()); }
        }
        template<class T> void simple(const json &s, const Fields &f) { T o; fill(o, f); logObject(s, o); }
        static void horizon(humoto::pepper_mpc::PreviewHorizon &o, const Fields &f, const std::size_t len)
        {
            o.intervals_.resize(len);
            for (std::size_t i = 0; i < len; ++i) { fill(o.intervals_[i], f.sub("interval", i)); }
        }
        static void horizon(humoto::wpg04::PreviewHorizon &o, const Fields &f, const std::size_t len, const std::size_t len2)
        {
            o.intervals_.resize(len);
            for (std::size_t i = 0; i < len; ++i) { fill(o.intervals_[i], f.sub("interval", i)); }
            o.walk_states_.resize(len2);
            for (std::size_t i = 0; i < o.walk_states_.size(); ++i) { fill(o.walk_states_[i], f.sub("state", i)); }
            for (const json &r : f.get("variable_steps_indices")) { o.variable_steps_indices_.push_back(r[0].get<std::size_t>()); }
        }
        static void footSizes(humoto::walking::RobotFootParameters &o, const Fields &f)
        {
            o.max_step_len_ = f.s("max_step_len"); o.min_feet_dist_ = f.s("min_feet_dist"); o.max_feet_dist_ = f.s("max_feet_dist");
            o.feet_dist_default_ = f.s("feet_dist_default"); o.foot_length_ = f.s("foot_length"); o.foot_width_ = f.s("foot_width");
        }
        static void blocks(etools::DiagonalBlockMatrix<2, 2> &o, const Eigen::MatrixXd &m)
        {
            o.setZero(m.cols() / 2);
            for (int i = 0; i < m.cols() / 2; ++i) { o(i) = m.block(2 * i, 2 * i, 2, 2); }
        }
        void object(const json &s)
        {
            const std::string kind = s["kind"];
            const Fields f(s["fields"], s["p"].get<std::string>());
            const std::size_t len = s["len"];
            if (kind == "location") { humoto::Location o(f.i("offset"), f.i("length")); logObject(s, o); }
            else if (kind == "pointmass") { simple<humoto::rigidbody::PointMassState>(s, f); }
            else if (kind == "rotary") { simple<humoto::rigidbody::RotaryState>(s, f); }
            else if (kind == "rigidbody") { simple<humoto::rigidbody::RigidBodyState>(s, f); }
            else if (kind == "pose") { humoto::rigidbody::RigidBodyPose o; o.position_ = f.m("position"); o.rpy_ = f.m("rpy"); logObject(s, o); }
            else if (kind == "stance") { simple<humoto::walking::Stance>(s, f); }
            else if (kind == "foot")
            {
                humoto::walking::RobotFootParameters o;
                footSizes(o, f);
                logObject(s, o);
            }
            else if (kind == "solution") { humoto::Solution o; o.x_ = f.get("x").size() == 0 ? Eigen::VectorXd() : Eigen::VectorXd(f.m("x")); f.e(o.return_status_, "status"); logObject(s, o); }
            else if (kind == "walkstate") { simple<humoto::wpg04::WalkState>(s, f); }
            else if (kind == "wpgstate")
            {
                humoto::wpg04::ModelState o;
                f.e(o.stance_type_, "stance_type"); f.e(o.next_stance_type_, "next_stance_type");
                fill(o.com_state_, f.sub("com_state")); fill(o.feet_.getLeft(), f.sub("left_foot_state")); fill(o.feet_.getRight(), f.sub("right_foot_state"));
                logObject(s, o);
            }
            else if (kind == "pepperstate")
            {
                humoto::pepper_mpc::ModelState o;
                o.base_mass_ = f.s("base_mass"); o.body_mass_ = f.s("body_mass");
                fill(o.base_state_, f.sub("base_state")); fill(o.body_state_, f.sub("body_state"));
                logObject(s, o);
            }
            else if (kind == "wpgmodel")
            {
                humoto::wpg04::Model o;
                humoto::wpg04::ModelState state;
                const Fields fs = f.sub("state");
                humoto::walking::RobotFootParameters fp;
                footSizes(fp, f.sub("foot_parameters"));
                o.setFootParameters(fp);
                fs.e(state.stance_type_, "stance_type"); fs.e(state.next_stance_type_, "next_stance_type");
                fill(state.com_state_, fs.sub("com_state")); fill(state.feet_.getLeft(), fs.sub("left_foot_state")); fill(state.feet_.getRight(), fs.sub("right_foot_state"));
                o.updateState(state);
                logObject(s, o);
            }
            else if (kind == "peppermodel")
            {
                humoto::pepper_mpc::Model o;
                humoto::pepper_mpc::ModelState state;
                const Fields fs = f.sub("state");
                state.base_mass_ = fs.s("base_mass"); state.body_mass_ = fs.s("body_mass");
                fill(state.base_state_, fs.sub("base_state")); fill(state.body_state_, fs.sub("body_state"));
                o.updateState(state);
                logObject(s, o);
            }
            else if (kind == "horizon") { humoto::pepper_mpc::PreviewHorizon o; horizon(o, f, len); logObject(s, o); }
            else if (kind == "wpghorizon") { humoto::wpg04::PreviewHorizon o; horizon(o, f, len, s["len2"]); logObject(s, o); }
            else if (kind == "mpcwpg")
            {
                humoto::wpg04::MPCforWPG o;
                horizon(o.preview_horizon_, f.sub("preview_horizon"), len, s["len2"]);
                blocks(o.R_, f.m("R")); blocks(o.Rh_, f.m("Rh"));
                o.V_ = f.m("V"); o.V0_ = f.m("V0"); o.Vfp_ = f.m("Vfp"); o.vfp_ = f.m("vfp"); o.S_ = f.m("S"); o.s_ = f.m("s"); o.Sdz_ = f.m("Sdz"); o.sdz_ = f.m("sdz");
                o.cop_profile = f.m("cop_profile"); o.dcop_profile = f.m("dcop_profile"); o.cstate_profile = f.m("cstate_profile"); o.footpos_profile = f.m("footpos_profile");
                logObject(s, o);
            }
            else if (kind == "mpcmg")
            {
                humoto::pepper_mpc::MPCforMG o;
                horizon(o.preview_horizon_, f.sub("preview_horizon"), len);
                blocks(o.R_, f.m("R"));
                o.S_ = f.m("S"); o.s_ = f.m("s"); o.sp_ = f.m("sp"); o.Ap_ = f.m("Ap"); o.sas_ = f.m("sas"); o.Aas_ = f.m("Aas"); o.sps_ = f.m("sps"); o.Aps_ = f.m("Aps");
                o.sjs_ = f.m("sjs"); o.Ajs_ = f.m("Ajs"); o.base_controls_ = f.m("base_controls"); o.body_controls_ = f.m("body_controls");
                o.cstate_profile_ = f.m("cstate_profile"); o.base_jerk_profile_ = f.m("jerk_profile"); o.cop_profile_ = f.m("cop_profile");
                logObject(s, o);
            }
            else { throw std::logic_error("unknown kind " + kind); }
        }
        // the stream is replaced: the text of the previous one is complete
        void target(const std::string &t)
        {
            if (t == "file")
            {
                file = "text-" + std::to_string(++count) + ".m";
                if (logger) { logger->initialize(file); } else { logger.reset(new humoto::Logger(file)); }
            }
            else
            {
                file = "";
                streams.emplace_back(new std::ostringstream());
                if (logger) { logger->initialize(*streams.back()); } else { logger.reset(new humoto::Logger(*streams.back())); }
            }
        }
        std::string text(const bool last)
        {
            const std::string f = file;
            const std::size_t k = streams.size();
            if (last) { logger.reset(); } else { target("stream"); }
            if (f == "") { return streams[k - 1]->str(); }
            std::ifstream in(f);
            return std::string((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
        }

        json step(const json &s)
        {
            const std::string op = s["op"];
            target(s["target"]);
            json r;
            if (op == "entries")
            {
                humoto::LogEntryName shared = s["cstr"].get<bool>() ? humoto::LogEntryName(s["first"].get<std::string>().c_str())
                                                                    : humoto::LogEntryName(s["first"].get<std::string>());
                add(shared, s["shared"]);
                for (std::size_t i = 0; i < s["own"].size(); ++i)
                {
                    humoto::LogEntryName name(shared);
                    add(name, s["own"][i]);
                    logValue(name, s["values"][i]);
                    name.add("later");
                }
            }
            else if (op == "object") { object(s); }
            else if (op == "raw")
            {
                for (const json &i : s["items"])
                {
                    const std::string kind = i["kind"], text = i["text"];
                    const int x = i["x"];
                    if (kind == "string") { logger->log(text); }
                    else if (kind == "cstr") { logger->log(text.c_str()); }
                    else if (kind == "int") { logger->log(x); }
                    else if (kind == "double") { logger->log(static_cast<double>(x)); }
                    else { Eigen::RowVector2i v(x, x + 1); logger->log(v); }
                }
            }
            else { throw std::logic_error("unknown op " + op); }
            const std::string t = text(op == "raw");
            if (op == "raw")
            {
                r["lines"] = json::array();
                std::istringstream in(t);
                std::string line;
                // (elements of rows may be aligned)
                while (std::getline(in, line))
                {
                    std::string u;
                    for (const char c : line) { if (c != ' ' || (!u.empty() && u.back() != ' ')) { u += c; } }
                    r["lines"].push_back(u);
                }
                return r;
            }
            try { return Octave(t).parse(); }
            catch (const std::exception &e) { r["bad"] = e.what(); r["text"] = t; return r; }
        }
    };
#endif
}

namespace verif
{
    Machine *makeMachine(const std::string &name, const json &)
    {
#ifndef VERIF_NO_LOGGING_THREAD
        if (name == "logger") { return new LoggerMachine(); }
#endif
#ifdef VERIF_OBJECTS
        if (name == "logtext") { return new TextMachine(); }
#endif
        throw std::logic_error("unknown machine " + name);
    }
}
