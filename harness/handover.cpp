// Probe workers and coordinators built on the library's base classes, run under
// the controlled scheduler.  Records every phase a worker starts and ends.
//   handover OUT  < "run id kind workers rows seed policy prob spurious phases..." lines
#include <cstdio>
#include <cstring>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>
#include <fcntl.h>
#include "sched.hpp"
#define private public
#define protected public
#include "thread.hpp"
#include "coordinator.hpp"
#include "task_thread.hpp"
#include "kmeans_task_thread.hpp"
#undef private
#undef protected
#include "task_queue.hpp"
#include "clusters.hpp"
#include "dense_matrix.hpp"

using namespace knor;
namespace kb = knor::base;

static FILE* out;
static std::string runid;
static int phase_no;
static void ev(const std::string& s) { fprintf(out, "V %s %s\n", runid.c_str(), s.c_str()); }

static const char* stname(thread_state_t s) {
    switch (s) { case EM: return "EM"; case KMSPP_INIT: return "KMSPP"; case TEST: return "TEST";
                 case MB_EM: return "MB"; case EXIT: return "EXIT"; case WAIT: return "WAIT"; default: return "OTHER"; }
}

struct plain_probe : public knor::thread {
    int calls;
    plain_probe(unsigned id, unsigned start, unsigned* ca) : thread(0, id, 1, ca, start), calls(0) { cuml_dist = 0; }
    void start(const thread_state_t s) override {
        this->state = s;
        if (pthread_create(&hw_thd, NULL, callback<plain_probe>, this)) abort();
    }
    void run() override {
        char b[128];
        snprintf(b, sizeof b, "Start %d %s %d", thd_id, stname(get_state()), get_state() != KMSPP_INIT || cuml_dist == 0);
        ev(b);
        sched::point();
        cuml_dist += 1; calls++;
        sched::point();
        snprintf(b, sizeof b, "End %d %s", thd_id, stname(get_state()));
        ev(b);
        sleep();
    }
};

struct task_probe : public prune::kmeans_task_thread {
    bool fresh;
    task_probe(unsigned id, unsigned start, unsigned n, std::shared_ptr<kb::prune_clusters> g, unsigned* ca)
        : kmeans_task_thread(0, id, start, n, 1, g, ca, "", kb::dist_t::EUCL), fresh(true) {}
    void start(const thread_state_t s) override {
        this->state = s;
        if (pthread_create(&hw_thd, NULL, callback<task_probe>, this)) abort();
    }
    void run() override {
        char b[128];
        if (get_state() == TEST) {
            snprintf(b, sizeof b, "Start %d TEST 1", thd_id); ev(b);
            sched::point();
            snprintf(b, sizeof b, "End %d TEST", thd_id); ev(b);
            lock_sleep();
            return;
        }
        if (fresh) {
            bool prepared = curr_task && curr_task->get_start_rid() == start_rid && (get_state() != KMSPP_INIT || cuml_dist == 0);
            snprintf(b, sizeof b, "Start %d %s %d", thd_id, stname(get_state()), prepared);
            ev(b);
            fresh = false;
        }
        sched::point();
        cuml_dist += 1;
        if (curr_task) {
            snprintf(b, sizeof b, "Task %d %u %u", thd_id, curr_task->get_start_rid(), curr_task->get_nrow());
            ev(b);
        }
        sched::point();
        if (!tasks->has_task()) {
            fresh = true;
            snprintf(b, sizeof b, "End %d %s", thd_id, stname(get_state()));
            ev(b);
        }
        request_task();
    }
};

struct probe_coordinator : public knor::coordinator {
    std::vector<double> data;
    std::shared_ptr<kb::prune_clusters> cl;
    probe_coordinator(bool task, size_t rows, unsigned T)
        : coordinator("", rows, 1, 2, 1, 1, T, NULL, kb::init_t::NONE, -1, kb::dist_t::EUCL), data(rows, 1.0) {
        cl = kb::prune_clusters::create(2, 1);
        for (unsigned id = 0; id < nthreads; id++) {
            std::pair<unsigned, unsigned> tup = get_rid_len_tup(id);
            thd_max_row_idx.push_back(id * (rows / nthreads) + tup.second);
            if (task) threads.push_back(knor::thread::ptr(new task_probe(id, tup.first, tup.second, cl, &cluster_assignments[0])));
            else threads.push_back(knor::thread::ptr(new plain_probe(id, tup.first, &cluster_assignments[0])));
            threads[id]->set_parent_cond(&cond);
            threads[id]->set_parent_pending_threads(&pending_threads);
            threads[id]->start(WAIT);
        }
        if (task) for (auto& t : threads) {
            t->set_local_data_ptr(&data[0]);
            t->get_task_queue()->set_data_ptr(t->get_local_data());
        }
    }
    kb::cluster_t run(double*, const bool) override { return kb::cluster_t(); }
    using coordinator::nthreads;
};

int main(int argc, char** argv) {
    out = fopen(argv[1], "w");
    int dn = open("/dev/null", O_WRONLY);
    dup2(dn, 1);
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream is(line);
        std::string kind, ph; unsigned T; size_t rows; unsigned long seed; int pol, prob, spur;
        is >> runid >> kind >> T >> rows >> seed >> pol >> prob >> spur;
        fprintf(out, "S %s\n", runid.c_str()); fflush(out);
        sched::on_hang = [](const std::string& s) {
            std::string t = s; for (auto& c : t) if (c == ' ') c = '_';
            ev("Hang " + t); fprintf(out, "E %s\n", runid.c_str()); fflush(out); };
        sched::begin(seed, pol, prob, spur);
        {
            auto c = std::make_shared<probe_coordinator>(kind == "task", rows, T);
            while (is >> ph) {
                thread_state_t s = ph == "EM" ? EM : ph == "KMSPP" ? KMSPP_INIT : ph == "MB" ? MB_EM : TEST;
                ev("Wake " + ph);
                c->wake4run(s);
                c->wait4complete();
                ev("Returned");
            }
            ev("Destroy");
        }
        std::string mis = sched::end();
        ev("Done " + (mis.empty() ? std::string("-") : mis));
        fprintf(out, "E %s\n", runid.c_str()); fflush(out);
    }
    fclose(out);
    _exit(0);
}
