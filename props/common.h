// Helpers shared by the property modules.
#pragma once
#include "engine.h"
#include <xdispatch/dispatch>
#include <xdispatch/backend_naive.h>
#include <xdispatch/waitable_queue.h>
#include <xdispatch/barrier_operation.h>
#include <xdispatch/signals.h>
#include <xdispatch/impl/ibackend.h>
#include <xdispatch/impl/iqueue_impl.h>
#include <xdispatch/impl/itimer_impl.h>
#include <xdispatch/impl/isocket_notifier_impl.h>
#include <xdispatch/impl/igroup_impl.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <thread>
#include <memory>
#include <vector>
#include <new>

XDISPATCH_DECLARE_BACKEND(naive)

namespace h {
using namespace xdispatch;
using std::chrono::milliseconds;

static const queue_priority kPrios[4] = { queue_priority::DEFAULT, queue_priority::USER_INTERACTIVE, queue_priority::USER_INITIATED, queue_priority::BACKGROUND };

inline void
thread_count(uint32_t n)
{
    char b[16];
    snprintf(b, sizeof b, "%u", n);
    setenv("XDISPATCH2_THREAD_COUNT", b, 1);
}

inline queue
naive_serial(const char* label, queue_priority p = queue_priority::DEFAULT)
{
    return queue(label, naive_backend_get_static_instance()->create_serial_queue(label, p));
}
inline queue
naive_parallel(const char* label, queue_priority p = queue_priority::DEFAULT)
{
    return queue(label, naive_backend_get_static_instance()->create_parallel_queue(label, p));
}

// queue kinds a generated program can ask for
enum QKind { QK_SERIAL, QK_PARALLEL, QK_GLOBAL, QK_SERIAL_PLATFORM, QK_COUNT };
inline queue
make_queue(uint32_t kind, uint32_t prio)
{
    switch (kind % QK_COUNT) {
        case QK_SERIAL: return naive_serial("s", kPrios[prio & 3]);
        case QK_PARALLEL: return naive_parallel("p", kPrios[prio & 3]);
        case QK_GLOBAL: return global_queue(kPrios[prio & 3]);
        default: return queue("sp", kPrios[prio & 3]);
    }
}
inline bool is_serial(uint32_t kind) { return kind % QK_COUNT == QK_SERIAL || kind % QK_COUNT == QK_SERIAL_PLATFORM; }
inline const char* kind_name(uint32_t kind)
{
    static const char* const n[] = { "serial", "parallel", "global", "serial" };
    return n[kind % QK_COUNT];
}

// placeholder storage for objects living in raw (unobserved) memory whose
// lifetime is controlled by hand
template<typename T>
struct Slot
{
    alignas(T) unsigned char mem[sizeof(T)];
    bool live = false;
    template<typename... A> T& make(A&&... a) { T* p = new (mem) T(std::forward<A>(a)...); live = true; return *p; }
    T& get() { return *reinterpret_cast<T*>(mem); }
    void drop() { if (live) { live = false; get().~T(); } }
};

// a thread of the harness; creation and join order the threads
struct Thread
{
    pthread_t t;
    bool running = false;
    template<typename F> void start(F* f) // f must stay alive
    {
        running = true;
        pthread_create(&t, nullptr, [](void* p) -> void* { (*(F*)p)(); return nullptr; }, f);
    }
    void join() { if (running) { pthread_join(t, nullptr); running = false; } }
};

// memory under race detection: touching it from two operations without a
// happens-before edge in between is reported as a data race
struct Cell
{
    int* p = nullptr;
    void make() { p = (int*)malloc(sizeof(int)); *p = 0; }
    void bump() { int v = *p; *p = v + 1; }
    int get() { return *p; }
};

// the same function in the different ways the API offers to describe it
template<typename F> struct DerivedOp : operation { F f; explicit DerivedOp(const F& x) : f(x) {} void operator()() override { f(); } };
template<typename F> struct OneShot { F* f; void go() { std::unique_ptr<F> x(f); (*x)(); } };
template<typename F> struct Repeated { F f; void go() { f(); } };
template<typename F>
operation_ptr wrap_op(uint32_t how, const F& f) // executed once
{
    switch (how % 4) {
        case 1: return std::make_shared<DerivedOp<F>>(f);
        case 2: return make_operation(new OneShot<F>{ new F(f) }, &OneShot<F>::go);
        case 3: return make_operation(make_operation(f));
        default: return make_operation(f);
    }
}
template<typename F>
operation_ptr wrap_handler(uint32_t how, const F& f) // executed any number of times
{
    switch (how % 4) {
        case 1: return std::make_shared<DerivedOp<F>>(f);
        case 2: return make_operation(new Repeated<F>{ f }, &Repeated<F>::go);
        case 3: return make_operation(make_operation(f));
        default: return make_operation(f);
    }
}
template<typename F, typename... A> struct DerivedParamOp : parameterized_operation<A...> { F f; explicit DerivedParamOp(const F& x) : f(x) {} void operator()(A... a) override { f(a...); } };
template<typename F, typename... A> struct ParamMember { F f; void go(A... a) { f(a...); } };
template<typename... A> struct Wrap
{
    typedef parameterized_operation<A...> Base;
    template<typename F>
    static std::shared_ptr<Base> op(uint32_t how, const F& f)
    {
        switch (how % 4) {
            case 1: return std::make_shared<DerivedParamOp<F, A...>>(f);
            case 2: return Base::make(new ParamMember<F, A...>{ f }, &ParamMember<F, A...>::go);
            case 3: return Base::make(Base::make(f));
            default: return Base::make(f);
        }
    }
};
typedef Wrap<size_t> WrapIteration;
typedef Wrap<socket_t, notifier_type> WrapSocket;
} // namespace h
