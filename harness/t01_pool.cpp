// The thread pool, parallel_for and the ordered consumer, run with delays and spurious wake-ups put in; every piece of work is traced.
#include <atomic>
#include <chrono>
#include <dlfcn.h>
#include <list>
#include <pthread.h>
#include <sched.h>
#include <thread>
#include "Application.h"
#include "h.hpp"
#include "utils/ThreadPool.h"

using namespace h;

static std::atomic<int> spurious{ 0 }; // in 1/1000
static thread_local uint64_t tl_rng = 0;
static uint64_t tl_next()
{
    if (! tl_rng)
        tl_rng = std::hash<std::thread::id>()(std::this_thread::get_id()) | 1;
    tl_rng = tl_rng * 6364136223846793005ull + 1442695040888963407ull;
    return tl_rng >> 33;
}
static std::atomic<long> wakes{ 0 };

// condition variables may wake up without a signal; here they do
extern "C" int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    using fn = int (*)(pthread_cond_t*, pthread_mutex_t*);
    static fn real = reinterpret_cast<fn>(dlsym(RTLD_NEXT, "pthread_cond_wait"));
    if (int(tl_next() % 1000) < spurious.load(std::memory_order_relaxed))
    {
        wakes.fetch_add(1, std::memory_order_relaxed);
        pthread_mutex_unlock(m);
        sched_yield();
        pthread_mutex_lock(m);
        return 0;
    }
    return real(c, m);
}

static std::atomic<i64> beat{ 0 };
static Run* run = nullptr;
static void watchdog()
{
    i64 last = -1;
    int same = 0;
    for (;;)
    {
        std::this_thread::sleep_for(std::chrono::seconds(1));
        const i64 b = beat.load();
        same = b == last ? same + 1 : 0;
        last = b;
        if (same > 45)
        {
            printf("{\"v\":\"hang\",\"m\":\"the work never ends (case %lld)\",\"c\":%lld}\n{\"n\":1,\"d\":[1]}\n", b, b);
            fflush(stdout);
            _Exit(0);
        }
    }
}

static void delay(int mode, uint64_t r)
{
    switch (mode)
    {
    case 1:
        if (r % 4 == 0)
            sched_yield();
        break;
    case 2:
        if (r % 8 == 0)
            std::this_thread::sleep_for(std::chrono::microseconds(r % 200));
        break;
    case 3:
    {
        volatile int x = 0;
        for (uint64_t i = 0; i < r % 2000; ++i)
            x = x + 1;
        break;
    }
    default:
        break;
    }
}

static void one(Run& R, Rng& g)
{
    run = &R;
    beat = R.cur;
    static bool started = false;
    if (! started)
    {
        started = true;
        std::thread(watchdog).detach();
    }
    const int threads = int(g.pick<int>({ 1, 1, 2, 2, 3, 4, 4, 6, 8, 12 }));
    spurious = 0;
    cura::Application::getInstance().startThreadPool(threads);
    R.check(cura::Application::getInstance().thread_pool_->thread_count() == size_t(threads) - 1, "size", "the pool has not the number of threads asked for");
    spurious = g.p(0.6) ? int(g.pick<int>({ 20, 300, 900 })) : 0;
    const int mode = int(g.in(0, 3));
    uint64_t fpv = mix(threads, mode);

    // -- parallel_for over indices --
    for (int round = 0; round < 3; ++round)
    {
        const i64 first = g.p(0.5) ? 0 : g.in(-20, 50);
        const i64 n = g.p(0.1) ? g.in(-3, 0) : g.p(0.3) ? g.in(1, 8) : g.logn(1, 2000);
        const size_t factor = g.p(0.5) ? 1 : size_t(g.in(0, 40));
        const size_t per = g.p(0.5) ? 8 : size_t(g.in(1, 20));
        const i64 last = first + n;
        std::vector<int> count(n > 0 ? n : 0, 0), plain(n > 0 ? n : 0, 0);
        std::vector<std::thread::id> who(count.size());
        std::vector<i64> stamp(count.size());
        std::atomic<i64> clock{ 0 };
        std::atomic<int> running{ 0 }, peak{ 0 }, outside{ 0 };
        cura::parallel_for<i64>(
            first,
            last,
            [&](i64 i)
            {
                const int now = ++running;
                int pk = peak.load();
                while (now > pk && ! peak.compare_exchange_weak(pk, now))
                    ;
                if (i < first || i >= last)
                {
                    ++outside;
                    --running;
                    return;
                }
                delay(mode, mix(uint64_t(i), uint64_t(R.cur)));
                count[i - first]++;
                plain[i - first] = int(i * 7 + 1);
                who[i - first] = std::this_thread::get_id();
                stamp[i - first] = clock++;
                --running;
            },
            factor,
            per);
        R.check(running == 0, "parallel_for returns early", "still running when parallel_for has returned");
        R.check(outside == 0, "parallel_for outside", "the loop body got an index out of the range");
        R.check(peak <= threads, "parallel_for width", fmt("%d bodies at once with %d threads", peak.load(), threads));
        for (size_t i = 0; i < count.size(); ++i)
        {
            if (! R.check(
                    count[i] == 1 && plain[i] == int((first + i64(i)) * 7 + 1),
                    "parallel_for exactly once",
                    fmt("index %lld of [%lld,%lld) was run %d times; %d threads, blocks of %zu, %zu chunks per worker", first + i64(i), first, last, count[i], threads, factor, per)))
                break;
        }
        const size_t block = std::max<size_t>(1, factor);
        for (size_t i = 1; i < count.size(); ++i)
            if (i % block)
                if (! R.check(who[i] == who[i - 1] && stamp[i] > stamp[i - 1], "parallel_for blocks", fmt("a block of %zu indices is split between threads or reordered at %zu; %d threads, %zu items", block, i, threads, count.size())))
                    break;
        R.stat("loop bodies run", double(count.size()));
        R.smax("bodies at once", peak);
        fpv = mix(fpv, n);
    }

    // -- over a container; nested --
    {
        std::vector<int> v(size_t(g.in(0, 300)));
        std::vector<std::vector<int>> inner(v.size());
        const bool nest = g.p(0.4);
        cura::parallel_for(
            v,
            [&](auto it)
            {
                *it += 1;
                if (nest && (it - v.begin()) % 16 == 0)
                {
                    auto& in = inner[it - v.begin()];
                    in.resize(20);
                    cura::parallel_for<size_t>(0, in.size(), [&](size_t k) { in[k] += int(k) + 1; });
                    for (size_t k = 0; k < in.size(); ++k)
                        if (in[k] != int(k) + 1)
                            *it = 1000;
                }
                delay(mode, mix(it - v.begin(), 3));
            },
            size_t(g.in(1, 5)));
        for (int x : v)
            if (! R.check(x == 1, "parallel_for container", "an element of a container is not visited exactly once, or a nested loop is not complete when it returns"))
                break;
    }

    // -- ordered consumer --
    for (int round = 0; round < 2; ++round)
    {
        const i64 first = g.p(0.5) ? 0 : g.in(-10, 10);
        const i64 n = g.p(0.1) ? g.in(-2, 0) : g.p(0.3) ? g.in(1, 6) : g.logn(1, 600);
        const i64 last = first + n;
        const size_t per = g.p(0.4) ? 1 : g.p(0.5) ? 8 : size_t(g.in(1, 5));
        const i64 max_pending = i64(per) * threads;
        std::vector<int> produced(n > 0 ? n : 0, 0);
        std::vector<i64> consumed;
        std::atomic<int> in_consumer{ 0 }, producing{ 0 }, bad_conc{ 0 }, bad_pending{ 0 }, outside{ 0 };
        std::atomic<i64> started{ 0 }, done{ 0 }, worst{ 0 };
        const int cmode = int(g.in(0, 3));
        i64 plain = 0;
        cura::run_multiple_producers_ordered_consumer(
            first,
            last,
            [&](ptrdiff_t i)
            {
                ++producing;
                const i64 ahead = ++started - done.load();
                i64 w = worst.load();
                while (ahead > w && ! worst.compare_exchange_weak(w, ahead))
                    ;
                if (i < first || i >= last)
                    ++outside;
                else
                    produced[i - first]++;
                delay(mode, mix(uint64_t(i), 17));
                --producing;
                return std::optional<i64>(i * 3);
            },
            [&](std::optional<i64> v)
            {
                if (++in_consumer != 1)
                    ++bad_conc;
                plain += v ? *v : 0;
                consumed.push_back(v ? *v / 3 : -1000000);
                delay(cmode, mix(uint64_t(consumed.size()), 29));
                ++done;
                --in_consumer;
            },
            per);
        R.check(producing == 0 && in_consumer == 0, "consumer returns early", "work was still going on when the call returned");
        R.check(outside == 0, "producer outside", "a producer got an index out of the range");
        R.check(bad_conc == 0, "consumer concurrency", "the consumer ran in two threads at once");
        // an item being produced, waiting, or just being consumed
        R.check(worst <= max_pending + 1, "consumer bound", fmt("%lld items were begun and not consumed, the bound is %lld", worst.load(), max_pending));
        bool once = true;
        for (int x : produced)
            once = once && x == 1;
        R.check(once, "producer exactly once", fmt("[%lld,%lld): an item was not produced exactly once; %d threads, %zu pending per worker", first, last, threads, per));
        bool order = consumed.size() == produced.size();
        for (size_t i = 0; order && i < consumed.size(); ++i)
            order = consumed[i] == first + i64(i);
        R.check(order, "consumer order", fmt("[%lld,%lld): %zu items consumed, or out of order; %d threads, %zu pending per worker", first, last, consumed.size(), threads, per));
        R.stat("items consumed in order", double(consumed.size()));
        fpv = mix(fpv, mix(n, per));
    }

    // -- a pool of its own: tasks pushed before the end are all run --
    {
        std::atomic<int> ran{ 0 };
        const int n = int(g.in(0, 60));
        std::vector<int> times(n, 0);
        {
            cura::ThreadPool pool(size_t(g.in(0, 6)));
            for (int i = 0; i < n; ++i)
            {
                auto lock = pool.get_lock();
                pool.push(
                    lock,
                    [&, i](cura::ThreadPool::lock_t& l)
                    {
                        l.unlock();
                        delay(mode, mix(i, 5));
                        times[i]++;
                        ++ran;
                        l.lock();
                    });
                if (g.p(0.1))
                {
                    lock.unlock();
                    std::this_thread::sleep_for(std::chrono::microseconds(30));
                }
            }
        }
        bool ok = ran == n;
        for (int t : times)
            ok = ok && t == 1;
        R.check(ok, "pool runs every task", fmt("%d tasks pushed, %d runs when the pool is gone", n, ran.load()));
    }
    R.stat("spurious wake-ups put in", double(wakes.exchange(0)));
    R.eval(fpv, threads > 1);
}

int main(int argc, char** argv)
{
    return run_main(argc, argv, one);
}
