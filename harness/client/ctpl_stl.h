// A thread pool with the interface of CTPL that the client uses: n threads take the tasks in the order in which they
// were pushed; stop(true) returns when all tasks have been run.
#pragma once
#include <condition_variable>
#include <functional>
#include <future>
#include <memory>
#include <mutex>
#include <queue>
#include <thread>
#include <vector>

namespace ctpl {
class thread_pool {
public:
    thread_pool() : thread_pool(0) {}
    explicit thread_pool(int n, int = 100) {
        for (int i = 0; i < n; ++i) threads.emplace_back([this, i] { work(i); });
    }
    ~thread_pool() { stop(true); }
    thread_pool(const thread_pool&) = delete;
    int size() const { return (int) threads.size(); }

    template <typename F, typename... Rest>
    auto push(F&& f, Rest&&... rest) -> std::future<decltype(f(0, rest...))> {
        auto task = std::make_shared<std::packaged_task<decltype(f(0, rest...))(int)>>(std::bind(std::forward<F>(f), std::placeholders::_1, std::forward<Rest>(rest)...));
        {
            std::unique_lock<std::mutex> l(m);
            tasks.push([task](int id) { (*task)(id); });
        }
        cv.notify_one();
        return task->get_future();
    }

    void stop(bool wait = false) {
        {
            std::unique_lock<std::mutex> l(m);
            if (done) return;
            done = true;
            if (!wait) tasks = {};
        }
        cv.notify_all();
        for (auto& t : threads) t.join();
        threads.clear();
    }

private:
    void work(int id) {
        for (;;) {
            std::function<void(int)> f;
            {
                std::unique_lock<std::mutex> l(m);
                while (tasks.empty() && !done) cv.wait(l);
                if (tasks.empty()) return;
                f = std::move(tasks.front());
                tasks.pop();
            }
            f(id);
        }
    }
    std::vector<std::thread> threads;
    std::queue<std::function<void(int)>> tasks;
    std::mutex m;
    std::condition_variable cv;
    bool done = false;
};
}
