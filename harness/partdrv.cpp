// Which rows the coordinators give to which thread and task, and what a row lookup finds.
//   partdrv OUT DIR   lines: id engine n d k T place seed
// The data is its own index: every coordinate of row r is r.
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <sstream>
#include <set>
#include <string>
#include <vector>
#include <unistd.h>
#include <fcntl.h>
#include "kmeans_coordinator.hpp"
#include "kmeans_task_coordinator.hpp"
#include "skmeans_coordinator.hpp"
#include "medoid_coordinator.hpp"
#include "fcm_coordinator.hpp"
#include "hclust_coordinator.hpp"
#include "thread.hpp"
#include "task_queue.hpp"
#include "binding/numa_reorg.hpp"
using namespace knor;
namespace kp = knor::prune;

int main(int, char** argv) {
    FILE* out = fopen(argv[1], "w");
    std::string dir = argv[2], l;
    int dn = open("/dev/null", O_WRONLY); dup2(dn, 1);
    while (std::getline(std::cin, l)) {
        std::istringstream is(l);
        std::string id, e, place; size_t n, d; unsigned k, T; unsigned long seed;
        is >> id >> e >> n >> d >> k >> T >> place >> seed;
        fprintf(out, "S %s\n", id.c_str()); fflush(out);
        std::vector<double> data(n * d);
        for (size_t r = 0; r < n; r++) for (size_t c = 0; c < d; c++) data[r * d + c] = (double)r;
        std::string fn;
        if (place == "file") {
            fn = dir + "/part" + std::to_string(getpid()) + ".bin";
            FILE* f = fopen(fn.c_str(), "wb"); fwrite(&data[0], 8, data.size(), f); fclose(f);
        }
        {
        coordinator::ptr c;
        unsigned it = 1;
        if (e == "full") c = kmeans_coordinator::create(fn, n, d, k, it, 1, T, NULL, "forgy", -1, "eucl");
        else if (e == "prune") c = kp::kmeans_task_coordinator::create(fn, n, d, k, it, 1, T, NULL, "forgy", -1, "eucl");
        else if (e == "skm") c = skmeans_coordinator::create(fn, n, d, k, it, 1, T, NULL, "forgy", -1, "eucl");
        else if (e == "fcm") c = fcm_coordinator::create(fn, n, d, k, it, 1, T, NULL, "forgy", -1, "eucl", 2);
        else if (e == "hcl") c = hclust_coordinator::create(fn, n, d, k, it, 1, T, NULL, "forgy", -1, "eucl", 2);
        else _exit(7);
        if (place == "numa") {
            auto md = binding::memory_distributor<double>::create(&data[0], 1, n, d);
            md->numa_reorg(c->get_threads());
            c->run(NULL, true);
        } else if (place == "file") c->run();
        else c->run(&data[0]);
        auto& th = c->get_threads();
        for (unsigned t = 0; t < th.size(); t++) {
            auto tup = c->get_rid_len_tup(t);
            fprintf(out, "V %s range %u %u %zu %u\n", id.c_str(), t, tup.first, th[t]->get_start_rid(), tup.second);
        }
        if (e == "prune") for (int pass = 0; pass < 2; pass++)
            for (unsigned t = 0; t < th.size(); t++) {
                auto q = th[t]->get_task_queue();
                q->reset();
                fprintf(out, "V %s reset %u\n", id.c_str(), t);
                int guard = 0;
                while (q->has_task() && guard++ < 40) {
                    task* x = q->get_task();
                    fprintf(out, "V %s take %u %u %u %ld %ld\n", id.c_str(), t, x->get_start_rid(), x->get_nrow(),
                            (long)x->get_data_ptr()[0],
                            x->get_start_rid() + (size_t)x->get_nrow() <= n && x->get_nrow()
                                ? (long)x->get_data_ptr()[((size_t)x->get_nrow() - 1) * d] : -1L);
                    delete x;
                }
                fprintf(out, "V %s end %u\n", id.c_str(), t);
            }
        std::set<size_t> rows;
        if (n <= 64) for (size_t r = 0; r < n; r++) rows.insert(r);
        else {
            for (unsigned t = 0; t < th.size(); t++) {
                size_t s = th[t]->get_start_rid();
                for (int q = -2; q <= 2; q++) if ((long)s + q >= 0 && s + q < n) rows.insert(s + q);
            }
            rows.insert(n - 1);
            unsigned long x = seed;
            for (int q = 0; q < 20; q++) { x = x * 6364136223846793005UL + 1442695040888963407UL; rows.insert((x >> 20) % n); }
        }
        for (size_t r : rows) {
            double v = c->get_thd_data(r)[d - 1];
            if (e == "skm") v *= (double)(n - 1);        // scaled to 0..1
            fprintf(out, "V %s lookup %zu %ld\n", id.c_str(), r, (long)(v + 0.5));
        }
        }
        fprintf(out, "E %s\n", id.c_str()); fflush(out);
    }
    _exit(0);
}
