#include "sched.hpp"
#include <pthread.h>
#include <semaphore.h>
#include <errno.h>
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
#include <map>
#include <set>
#include <vector>
#include <string>

#define NOI __attribute__((no_instrument_function))
extern "C" {
int __real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
int __real_pthread_join(pthread_t, void**);
void __real_pthread_exit(void*) __attribute__((noreturn));
int __real_pthread_mutex_init(pthread_mutex_t*, const pthread_mutexattr_t*);
int __real_pthread_mutex_destroy(pthread_mutex_t*);
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_cond_init(pthread_cond_t*, const pthread_condattr_t*);
int __real_pthread_cond_destroy(pthread_cond_t*);
int __real_pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*);
int __real_pthread_cond_signal(pthread_cond_t*);
int __real_pthread_cond_broadcast(pthread_cond_t*);
}

namespace sched {
std::function<void(const std::string&)> on_hang;

enum St { RUN, MUTEX, COND, JOIN, DONE };
struct T {
    int id; St st; void* obj; pthread_mutex_t* mtx; sem_t sem; pthread_t pt; int joinee; int prio;
    void* (*fn)(void*); void* arg;
};
static std::vector<T*> ths;
static thread_local T* self = nullptr;
static thread_local int inside = 0;
static bool on = false;
static unsigned long rng_state, nsteps, change_at;
static int policy, prob;
static bool spur;
static std::map<pthread_mutex_t*, T*> owner;          // held mutexes
static std::map<void*, T*> dead;                      // destroyed, not re-initialised -> by whom
static std::string misuse;
static int low_prio;

NOI static unsigned long rnd() {
    rng_state ^= rng_state << 13; rng_state ^= rng_state >> 7; rng_state ^= rng_state << 17;
    return rng_state;
}
NOI static void note(const char* s) { if (misuse.empty()) misuse = s; }
// Use by the thread that destroyed it is sequential and reaches nobody else; by another it is a race
NOI static bool is_dead(void* p) { auto i = dead.find(p); return i != dead.end() && i->second != self; }
NOI static bool can_run(T* t) {
    switch (t->st) {
        case RUN: return true;
        case MUTEX: return !owner.count((pthread_mutex_t*)t->obj);
        case JOIN: return ths[t->joinee]->st == DONE;
        case COND: return false;
        default: return false;
    }
}
NOI static void dump_hang() {
    std::string s;
    for (auto t : ths) {
        s += "t" + std::to_string(t->id);
        s += t->st == MUTEX ? ":mutex " : t->st == COND ? ":cond " : t->st == JOIN ? ":join " : t->st == DONE ? ":done " : ":run ";
    }
    if (on_hang) on_hang(s);
    fprintf(stderr, "HANG %s\n", s.c_str());
    _exit(42);
}
// pick the next thread; hand over the token; returns when this thread is chosen again
NOI static void reschedule(bool must) {
    nsteps++;
    if (nsteps > 20000000UL) { if (on_hang) on_hang("steps"); _exit(43); }
    std::vector<T*> r;
    for (auto t : ths) if (can_run(t)) r.push_back(t);
    if (spur && (rnd() % 50) == 0) {
        // a spurious wake-up of some waiter is always allowed
        std::vector<T*> w;
        for (auto t : ths) if (t->st == COND) w.push_back(t);
        if (!w.empty()) { T* x = w[rnd() % w.size()]; x->st = MUTEX; x->obj = x->mtx; }
    }
    if (r.empty()) dump_hang();
    T* nx = nullptr;
    if (policy == 1) {
        if (nsteps >= change_at) {
            self->prio = --low_prio;
            change_at = nsteps + 1 + rnd() % (unsigned)(prob > 0 ? prob * 20 : 2000);
        }
        for (auto t : r) if (!nx || t->prio > nx->prio) nx = t;
    } else {
        bool sw = must || (int)(rnd() % 1000) < prob;
        if (!sw && can_run(self)) nx = self;
        else nx = r[rnd() % r.size()];
    }
    if (nx == self) return;
    sem_post(&nx->sem);
    T* me = self;
    if (me->st == DONE) return;
    while (sem_wait(&me->sem) != 0) {}
}
NOI bool active() { return on; }
NOI unsigned long steps() { return nsteps; }
NOI void point() {
    if (!on || !self || inside) return;
    inside++; reschedule(false); inside--;
}
NOI static T* mk() {
    T* t = new T();
    t->id = ths.size(); t->st = RUN; t->obj = nullptr; t->mtx = nullptr; t->joinee = -1;
    t->prio = (int)(rnd() % 1000);
    sem_init(&t->sem, 0, 0);
    ths.push_back(t);
    return t;
}
NOI void begin(unsigned long seed, int pol, int pr, bool spurious) {
    for (auto t : ths) { sem_destroy(&t->sem); delete t; }
    ths.clear(); owner.clear(); dead.clear(); misuse.clear();
    rng_state = seed * 0x9E3779B97F4A7C15UL + 0x1234567UL; if (!rng_state) rng_state = 1;
    for (int i = 0; i < 10; i++) rnd();
    policy = pol; prob = pr; nsteps = 0; spur = spurious; low_prio = 0;
    change_at = 1 + rnd() % 200;
    self = mk(); self->pt = pthread_self();
    on = true;
}
NOI std::string end() {
    on = false; self = nullptr;
    for (size_t i = 1; i < ths.size(); i++) if (ths[i]->st != DONE) note("thread-still-alive");
    return misuse;
}
NOI static void* tramp(void* a) {
    T* t = (T*)a;
    while (sem_wait(&t->sem) != 0) {}
    self = t;
    void* r = t->fn(t->arg);
    inside++;
    t->st = DONE; reschedule(true);
    self = nullptr;
    return r;
}
NOI static bool use() { return on && self && !inside; }
NOI static int lock(pthread_mutex_t* m) {
    if (is_dead(m)) { note("mutex-used-after-destroy"); return EINVAL; }
    reschedule(false);
    auto it = owner.find(m);
    if (it != owner.end() && it->second == self) return EDEADLK;
    while (owner.count(m)) { self->st = MUTEX; self->obj = m; reschedule(true); self->st = RUN; }
    self->st = RUN;
    owner[m] = self;
    return 0;
}
NOI static int unlock(pthread_mutex_t* m) {
    if (is_dead(m)) { note("mutex-used-after-destroy"); return EINVAL; }
    auto it = owner.find(m);
    if (it == owner.end() || it->second != self) return EPERM;
    owner.erase(it);
    reschedule(false);
    return 0;
}
NOI static int wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if (is_dead(c)) { note("cond-used-after-destroy"); return EINVAL; }
    reschedule(false);            // the window between the test and the wait
    auto it = owner.find(m);
    if (it == owner.end() || it->second != self) { note("cond-wait-without-mutex"); return EPERM; }
    owner.erase(it);
    self->st = COND; self->obj = c; self->mtx = m;
    reschedule(true);
    // woken (state MUTEX on m); take the mutex again
    while (owner.count(m)) { self->st = MUTEX; self->obj = m; reschedule(true); }
    self->st = RUN;
    owner[m] = self;
    return 0;
}
NOI static int signal(pthread_cond_t* c, bool all) {
    if (is_dead(c)) { note("cond-used-after-destroy"); return EINVAL; }
    reschedule(false);
    std::vector<T*> w;
    for (auto t : ths) if (t->st == COND && t->obj == c) w.push_back(t);
    while (!w.empty()) {
        size_t i = rnd() % w.size();
        T* x = w[i]; w.erase(w.begin() + i);
        x->st = MUTEX; x->obj = x->mtx;
        if (!all) break;
    }
    return 0;
}
} // namespace sched
using namespace sched;

extern "C" {
#define IN(real, e) if (!use()) return real; inside++; auto rv = (e); inside--; return rv
NOI int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { IN(__real_pthread_mutex_lock(m), sched::lock(m)); }
NOI int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { IN(__real_pthread_mutex_unlock(m), sched::unlock(m)); }
NOI int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!use()) return __real_pthread_mutex_trylock(m);
    inside++; reschedule(false);
    int r = owner.count(m) ? EBUSY : 0;
    if (!r) owner[m] = self;
    inside--; return r;
}
NOI int __wrap_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
    if (on) { dead.erase(m); owner.erase(m); }
    return __real_pthread_mutex_init(m, a);
}
NOI int __wrap_pthread_mutex_destroy(pthread_mutex_t* m) {
    if (use()) {
        inside++;
        reschedule(false);
        if (owner.count(m)) { note("mutex-destroyed-while-held"); owner.erase(m); }
        for (auto t : ths) if ((t->st == MUTEX && t->obj == m) || (t->st == COND && t->mtx == m)) note("mutex-destroyed-while-wanted");
        dead[m] = self;
        inside--;
    }
    return __real_pthread_mutex_destroy(m);
}
NOI int __wrap_pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) {
    if (on) dead.erase(c);
    return __real_pthread_cond_init(c, a);
}
NOI int __wrap_pthread_cond_destroy(pthread_cond_t* c) {
    if (use()) {
        inside++;
        reschedule(false);
        for (auto t : ths) if (t->st == COND && t->obj == c) note("cond-destroyed-with-waiter");
        dead[c] = self;
        inside--;
    }
    return __real_pthread_cond_destroy(c);
}
NOI int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { IN(__real_pthread_cond_wait(c, m), sched::wait(c, m)); }
NOI int __wrap_pthread_cond_signal(pthread_cond_t* c) { IN(__real_pthread_cond_signal(c), sched::signal(c, false)); }
NOI int __wrap_pthread_cond_broadcast(pthread_cond_t* c) { IN(__real_pthread_cond_broadcast(c), sched::signal(c, true)); }
NOI int __wrap_pthread_create(pthread_t* p, const pthread_attr_t* a, void* (*f)(void*), void* arg) {
    if (!use()) return __real_pthread_create(p, a, f, arg);
    inside++;
    T* t = mk(); t->fn = f; t->arg = arg;
    int r = __real_pthread_create(&t->pt, a, tramp, t);
    *p = t->pt;
    reschedule(false);
    inside--;
    return r;
}
NOI int __wrap_pthread_join(pthread_t p, void** ret) {
    if (!use()) return __real_pthread_join(p, ret);
    inside++;
    for (auto t : ths) if (t->id && t->pt == p && t->fn) {
        if (t->st != DONE) { self->st = JOIN; self->joinee = t->id; reschedule(true); self->st = RUN; }
        t->fn = nullptr;
        break;
    }
    inside--;
    return __real_pthread_join(p, ret);
}
NOI void __wrap_pthread_exit(void* v) {
    if (on && self && self->id) {
        inside++;
        T* t = self;
        t->st = DONE; reschedule(true);
        self = nullptr;
    }
    __real_pthread_exit(v);
}
NOI void __cyg_profile_func_enter(void*, void*) { if (on) sched::point(); }
NOI void __cyg_profile_func_exit(void*, void*) { if (on) sched::point(); }
}
