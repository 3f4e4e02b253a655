// Minimal stand-in for the cxxpool thread pool (the submodule is empty in this
// sandbox).  Only the interface kratos uses: thread_pool{n}, push(f, args...),
// clear(), and cxxpool::get.  Real worker threads, FIFO queue, destructor joins.
#pragma once
#include <condition_variable>
#include <deque>
#include <functional>
#include <future>
#include <memory>
#include <mutex>
#include <thread>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

namespace cxxpool {
class thread_pool {
public:
    thread_pool() = default;
    explicit thread_pool(std::size_t n) {
        for (std::size_t i = 0; i < n; i++) threads_.emplace_back([this] { work(); });
    }
    thread_pool(const thread_pool &) = delete;
    thread_pool &operator=(const thread_pool &) = delete;
    ~thread_pool() {
        {
            std::lock_guard<std::mutex> g(m_);
            done_ = true;
        }
        cv_.notify_all();
        for (auto &t : threads_) t.join();
    }
    template <class F, class... Args>
    auto push(F &&f, Args &&...args)
        -> std::future<std::invoke_result_t<std::decay_t<F>, std::decay_t<Args>...>> {
        using R = std::invoke_result_t<std::decay_t<F>, std::decay_t<Args>...>;
        auto task = std::make_shared<std::packaged_task<R()>>(
            [fn = std::decay_t<F>(std::forward<F>(f)),
             tup = std::make_tuple(std::forward<Args>(args)...)]() mutable -> R {
                return std::apply(fn, tup);
            });
        auto fut = task->get_future();
        {
            std::lock_guard<std::mutex> g(m_);
            q_.emplace_back([task] { (*task)(); });
        }
        cv_.notify_one();
        return fut;
    }
    void clear() {
        std::lock_guard<std::mutex> g(m_);
        q_.clear();
    }

private:
    void work() {
        for (;;) {
            std::function<void()> job;
            {
                std::unique_lock<std::mutex> g(m_);
                cv_.wait(g, [this] { return done_ || !q_.empty(); });
                if (q_.empty()) return;
                job = std::move(q_.front());
                q_.pop_front();
            }
            job();
        }
    }
    std::vector<std::thread> threads_;
    std::deque<std::function<void()>> q_;
    std::mutex m_;
    std::condition_variable cv_;
    bool done_ = false;
};

template <class It, class Out>
void get(It b, It e, Out &out) {
    for (; b != e; ++b) out.push_back(b->get());
}
template <class It>
void get(It b, It e) {
    for (; b != e; ++b) b->get();
}
template <class It>
void wait(It b, It e) {
    for (; b != e; ++b) b->wait();
}
}  // namespace cxxpool
