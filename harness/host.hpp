// Uniform access to the event dispatchers. The driver runs on its own thread; dispatchers which need the toolkit's main
// loop get it on the main thread.
#pragma once
#include <condition_variable>
#include <deque>
#include <thread>
#include "common.hpp"
#include "perturb.hpp"
#include "hsmcpp/hsm.hpp"

#if defined(DISP_GLIB)
#include "hsmcpp/HsmEventDispatcherGLib.hpp"
#include <glib.h>
#elif defined(DISP_GLIBMM)
#include "hsmcpp/HsmEventDispatcherGLibmm.hpp"
#include <glibmm.h>
#elif defined(DISP_QT)
#include "hsmcpp/HsmEventDispatcherQt.hpp"
#include <QCoreApplication>
#include <QTimer>
#elif defined(DISP_ARDUINO)
#include "hsmcpp/HsmEventDispatcherArduino.hpp"
#include <Arduino.h>
#else
#include "hsmcpp/HsmEventDispatcherSTD.hpp"
#endif

namespace vh {
using namespace hsmcpp;
#if defined(DISP_GLIB)
using Disp = HsmEventDispatcherGLib;
#if defined(OWN_CTX)
constexpr const char* DISP_NAME = "glibctx";
#else
constexpr const char* DISP_NAME = "glib";
#endif
#elif defined(DISP_GLIBMM)
using Disp = HsmEventDispatcherGLibmm;
#if defined(OWN_CTX)
constexpr const char* DISP_NAME = "glibmmctx";
#else
constexpr const char* DISP_NAME = "glibmm";
#endif
#elif defined(DISP_QT)
using Disp = HsmEventDispatcherQt;
constexpr const char* DISP_NAME = "qt";
#elif defined(DISP_ARDUINO)
using Disp = HsmEventDispatcherArduino;
constexpr const char* DISP_NAME = "arduino";
#else
#define DISP_STD 1
using Disp = HsmEventDispatcherSTD;
#if defined(DISP_STDCV)
constexpr const char* DISP_NAME = "stdcv";
#else
constexpr const char* DISP_NAME = "std";
#endif
#endif

#if defined(DISP_STD)
constexpr bool LOOP_ON_MAIN = false;
#else
constexpr bool LOOP_ON_MAIN = true;
#endif

struct Host {
    std::thread::id loopId;
    static Host& get() { static Host h; return h; }

#if defined(DISP_STD)
    template <class F> void onLoop(F f) { f(); }
    void run(std::function<void()> driver) { driver(); }
    void sleepMs(int ms) { std::this_thread::sleep_for(std::chrono::milliseconds(ms)); }
#else
    // execute on the loop's thread and wait
    void onLoop(std::function<void()> f) {
        if (std::this_thread::get_id() == loopId) { f(); return; }
        std::mutex m; std::condition_variable cv; bool done = false;
        post([&]() { f(); std::lock_guard<std::mutex> l(m); done = true; cv.notify_all(); });
        std::unique_lock<std::mutex> l(m);
        cv.wait(l, [&]() { return done; });
    }
    void sleepMs(int ms) { std::this_thread::sleep_for(std::chrono::milliseconds(ms)); }
#if defined(DISP_GLIB) || defined(DISP_GLIBMM)
#if defined(OWN_CTX)
    GMainContext* ctx = g_main_context_new();   // the default context is never iterated
#else
    GMainContext* ctx = nullptr;
#endif
    static gboolean call(gpointer p) { auto* f = static_cast<std::function<void()>*>(p); (*f)(); delete f; return G_SOURCE_REMOVE; }
    void post(std::function<void()> f) {
        GSource* s = g_idle_source_new();
        g_source_set_priority(s, G_PRIORITY_DEFAULT);
        g_source_set_callback(s, &Host::call, new std::function<void()>(std::move(f)), nullptr);
        g_source_attach(s, ctx);
        g_source_unref(s);
    }
    void run(std::function<void()> driver) {
#if defined(DISP_GLIBMM)
        Glib::init();
#endif
        loopId = std::this_thread::get_id();
        GMainLoop* loop = g_main_loop_new(ctx, FALSE);
        std::thread t([&]() { driver(); post([&]() { g_main_loop_quit(loop); }); });
        g_main_loop_run(loop);
        t.join();
        for (int i = 0; i < 50 && g_main_context_iteration(ctx, FALSE); ++i) {}
        g_main_loop_unref(loop);
    }
#elif defined(DISP_QT)
    void post(std::function<void()> f) { QMetaObject::invokeMethod(qApp, [f]() { f(); }, Qt::QueuedConnection); }
    void run(std::function<void()> driver) {
        static int argc = 1; static char name[] = "h"; static char* argv[] = {name, nullptr};
        QCoreApplication app(argc, argv);
        loopId = std::this_thread::get_id();
        std::thread t([&]() { driver(); post([&]() { QCoreApplication::quit(); }); });
        app.exec();
        t.join();
    }
#elif defined(DISP_ARDUINO)
    // everything runs on the polling thread; "posting" only queues work between two polls
    std::mutex qm; std::deque<std::function<void()>> q; std::shared_ptr<Disp> polled; std::atomic<bool> quit{false};
    void post(std::function<void()> f) { std::lock_guard<std::mutex> l(qm); q.push_back(std::move(f)); }
    void run(std::function<void()> driver) {
        loopId = std::this_thread::get_id();
        std::thread t([&]() { driver(); quit = true; });
        while (!quit) {
            std::function<void()> f;
            { std::lock_guard<std::mutex> l(qm); if (!q.empty()) { f = q.front(); q.pop_front(); } }
            if (f) f(); else if (!polled) std::this_thread::yield();
            ardu::nowMs += ardu::pollMs;
            if (polled) polled->dispatchEvents();
        }
        t.join();
    }
#endif
#endif

    std::shared_ptr<Disp> create(size_t cache = 0) {
#if defined(OWN_CTX) && defined(DISP_GLIB)
        return cache ? Disp::create(ctx, cache) : Disp::create(ctx);
#elif defined(OWN_CTX)
        return cache ? Disp::create(Glib::wrap(ctx, true), cache) : Disp::create(Glib::wrap(ctx, true));
#else
        return cache ? Disp::create(cache) : Disp::create();
#endif
    }
    // creates and starts a dispatcher. its loop thread is known afterwards
    std::shared_ptr<Disp> make(size_t cache = 0) {
        std::shared_ptr<Disp> d;
        onLoop([&]() {
            d = create(cache);
            d->start();
#if defined(DISP_ARDUINO)
            polled = d;
#endif
        });
#if defined(DISP_STD)
        std::mutex m; std::condition_variable cv; bool done = false;
        d->enqueueAction([&]() { std::lock_guard<std::mutex> l(m); loopId = std::this_thread::get_id(); done = true; cv.notify_all(); });
        std::unique_lock<std::mutex> l(m);
        cv.wait_for(l, std::chrono::seconds(20), [&]() { return done; });
#endif
        return d;
    }
    void destroy(std::shared_ptr<Disp>& d) {
#if defined(DISP_STD)
        d->stop(); d->join(); d.reset();
#else
        onLoop([&]() {
#if defined(DISP_ARDUINO)
            polled.reset();
#endif
            d->stop(); d.reset();
        });
#endif
    }
};

// waits until pred() holds. false if nothing happened (progress() unchanged) for stuckMs
inline bool waitFor(const std::function<bool()>& pred, const std::function<long()>& progress, long stuckMs = 15000) {
    bool q = pert::quiet; pert::quiet = true;
    long last = progress();
    long long since = nowUs();
    bool ok = true;
    int spins = 0;
    while (!pred()) {
        if (++spins < 50) sched_yield(); else { struct timespec t { 0, 200000 }; nanosleep(&t, nullptr); }
        long p = progress();
        if (p != last) { last = p; since = nowUs(); }
        else if (nowUs() - since > stuckMs * 1000) { ok = pred(); break; }
    }
    pert::quiet = q;
    return ok;
}
}  // namespace vh
