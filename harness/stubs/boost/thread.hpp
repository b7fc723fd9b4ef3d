// Stand-in for <boost/thread.hpp>: threads of the code under test are executed
// one at a time, a scheduler decides at each point of synchronization which of
// them continues (see Logger.tla).
#pragma once
#ifdef VERIF_REAL_THREADS
#include_next <boost/thread.hpp>
#else
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdlib>
#include <functional>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>
#include <boost/chrono.hpp>

namespace verif
{
    class Scheduler
    {
        public:
            struct Thread
            {
                std::string role;
                bool done = false;
                std::function<bool()> ready;      // may continue
                std::thread os;
            };

        private:
            std::mutex m_;
            std::condition_variable cv_;
            std::vector<std::unique_ptr<Thread>> threads_;
            int current_ = -1;
            std::vector<std::string> schedule_;
            std::size_t pos_ = 0;
            std::size_t last_ = 0;
            std::size_t steps_ = 0;
            static int &self() { static thread_local int id = -1; return id; }

            bool runnable(const std::size_t i) { return !threads_[i]->done && (!threads_[i]->ready || threads_[i]->ready()); }
            // m_ is held
            void pick()
            {
                if (++steps_ > limit) { fail("no progress"); }
                if (pos_ < schedule_.size())
                {
                    const std::string r = schedule_[pos_++];
                    for (std::size_t i = 0; i < threads_.size(); ++i)
                        if (threads_[i]->role == r && runnable(i)) { current_ = i; last_ = i; return; }
                }
                for (std::size_t k = 1; k <= threads_.size(); ++k)
                {
                    const std::size_t i = (last_ + k) % threads_.size();
                    if (runnable(i)) { current_ = i; last_ = i; return; }
                }
                bool all = true;
                for (auto &t : threads_) { all = all && t->done; }
                if (!all) { fail("deadlock"); }
                current_ = -1;
            }
            [[noreturn]] void fail(const std::string &what) { onFail(what); std::_Exit(9); }

        public:
            std::size_t limit = 20000;
            std::size_t sleeps = 0;
            std::function<void(const std::string &)> onFail = [](const std::string &) {};

            static Scheduler &get() { static Scheduler s; return s; }
            bool active() { return self() >= 0; }

            // the calling thread becomes the thread of the role "C"
            void begin(const std::vector<std::string> &schedule)
            {
                threads_.clear();
                schedule_ = schedule;
                pos_ = last_ = steps_ = sleeps = 0;
                threads_.emplace_back(new Thread);
                threads_[0]->role = "C";
                current_ = 0;
                self() = 0;
            }
            // all other threads are finished
            void end()
            {
                for (auto &t : threads_) { if (t->os.joinable()) { t->os.join(); } }
                self() = -1;
                threads_.clear();
            }
            int spawn(const std::string &role, std::function<void()> f)
            {
                std::unique_lock<std::mutex> l(m_);
                const int id = threads_.size();
                threads_.emplace_back(new Thread);
                threads_[id]->role = role;
                threads_[id]->os = std::thread([this, id, f]()
                {
                    self() = id;
                    {
                        std::unique_lock<std::mutex> k(m_);
                        cv_.wait(k, [&]() { return current_ == id; });
                    }
                    f();
                    std::unique_lock<std::mutex> k(m_);
                    threads_[id]->done = true;
                    pick();
                    cv_.notify_all();
                });
                return id;
            }
            bool finished(const int id) { return threads_[id]->done; }
            // the calling thread continues when it is its turn and the condition holds
            void point(std::function<bool()> ready = std::function<bool()>())
            {
                if (self() < 0) { return; }
                const int id = self();
                std::unique_lock<std::mutex> l(m_);
                threads_[id]->ready = ready;
                pick();
                cv_.notify_all();
                cv_.wait(l, [&]() { return current_ == id; });
                threads_[id]->ready = nullptr;
            }
    };
}

namespace boost
{
    class mutex
    {
            bool locked_ = false;
        public:
            mutex() {}
            mutex(const mutex &) = delete;
            void lock()
            {
                if (!verif::Scheduler::get().active()) { return; }
                verif::Scheduler::get().point([this]() { return !locked_; });
                locked_ = true;
            }
            bool try_lock() { verif::Scheduler::get().point(); if (locked_) { return false; } locked_ = true; return true; }
            void unlock() { locked_ = false; verif::Scheduler::get().point(); }
            typedef std::unique_lock<mutex> scoped_lock;
    };
    typedef mutex timed_mutex;
    template<class M> using lock_guard = std::lock_guard<M>;
    template<class M> using unique_lock = std::unique_lock<M>;

    class condition_variable
    {
            std::size_t signals_ = 0;
        public:
            void notify_one() { ++signals_; verif::Scheduler::get().point(); }
            void notify_all() { notify_one(); }
            template<class L> void wait(L &l) { const std::size_t s = signals_; l.unlock(); verif::Scheduler::get().point([this, s]() { return signals_ != s; }); l.lock(); }
            template<class L, class P> void wait(L &l, P p) { while (!p()) { wait(l); } }
            // may time out at any time
            template<class L, class D> bool timed_wait(L &l, const D &) { l.unlock(); ++verif::Scheduler::get().sleeps; verif::Scheduler::get().point(); l.lock(); return true; }
            template<class L, class D> int wait_for(L &l, const D &d) { timed_wait(l, d); return 0; }
            template<class L, class D, class P> bool wait_for(L &l, const D &d, P p) { if (!p()) { timed_wait(l, d); } return p(); }
    };
    typedef condition_variable condition_variable_any;

    class thread
    {
            std::shared_ptr<int> id_;
        public:
            thread() {}
            template<class F> explicit thread(F f) { id_ = std::make_shared<int>(verif::Scheduler::get().spawn("L", std::function<void()>(f))); verif::Scheduler::get().point(); }
            template<class F, class A> thread(F f, A a) { id_ = std::make_shared<int>(verif::Scheduler::get().spawn("L", std::bind(f, a))); verif::Scheduler::get().point(); }
            template<class F, class A, class B> thread(F f, A a, B b) { id_ = std::make_shared<int>(verif::Scheduler::get().spawn("L", std::bind(f, a, b))); verif::Scheduler::get().point(); }
            bool joinable() const { return static_cast<bool>(id_); }
            void join()
            {
                if (!id_) { throw std::runtime_error("thread is not joinable"); }
                const int id = *id_;
                verif::Scheduler::get().point([id]() { return verif::Scheduler::get().finished(id); });
                id_.reset();
            }
            void interrupt() {}
            void detach() { id_.reset(); }
    };

    namespace this_thread
    {
        template<class D> void sleep_for(const D &) { ++verif::Scheduler::get().sleeps; verif::Scheduler::get().point(); }
        template<class D> void sleep(const D &) { sleep_for(0); }
        inline void yield() { verif::Scheduler::get().point(); }
        inline void interruption_point() {}
    }
}
#endif
