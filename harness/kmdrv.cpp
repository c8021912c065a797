// Batch driver for the k-means engines.  Reads jobs, runs each one through the
// public entry points of the library, writes one record per job.
//
//   kmdrv JOBS OUT SCRATCHDIR
//
// A job (whitespace separated tokens):
//   JOB id engine n d k maxit T nnodes init dist tol place [extra...] DATA n*d numbers
//       CENTERS c (c = 0 or k*d numbers)
// A record:
//   R id status iters k ncounts counts... nassign assign... ncent cents(%.17g)... nx extras
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>
#include <fcntl.h>

#include "kmeans_coordinator.hpp"
#include "kmeans_task_coordinator.hpp"
#include "skmeans_coordinator.hpp"
#include "medoid_coordinator.hpp"
#include "fcm_coordinator.hpp"
#include "hclust_coordinator.hpp"
#include "xmeans_coordinator.hpp"
#include "gmeans_coordinator.hpp"
#include "clusters.hpp"
#include "dense_matrix.hpp"
#include "../libauto/kmeans.hpp"
#include "binding/numa_reorg.hpp"
#include "binding/kmeanspp.hpp"
#include "util.hpp"
#include "exception.hpp"

#ifdef SCHED
#include "sched.hpp"
#endif

using namespace knor;
namespace kb = knor::base;
namespace kp = knor::prune;

struct Job {
    std::string id, engine, init, dist, place;
    size_t n, d; unsigned k, maxit, T, nn; double tol;
    std::map<std::string, double> x;
    std::vector<double> data, centers;
};

static bool read_job(std::istream& in, Job& j) {
    std::string t;
    if (!(in >> t)) return false;
    if (t != "JOB") { fprintf(stderr, "bad job file at '%s'\n", t.c_str()); exit(3); }
    in >> j.id >> j.engine >> j.n >> j.d >> j.k >> j.maxit >> j.T >> j.nn
       >> j.init >> j.dist >> j.tol >> j.place;
    j.x.clear();
    while (in >> t && t != "DATA") {
        size_t e = t.find('=');
        j.x[t.substr(0, e)] = atof(t.c_str() + e + 1);
    }
    // DATA FULL: all numbers; DATA REP m: m distinct points followed by n indices
    in >> t;
    j.data.resize(j.n * j.d);
    if (t == "FULL") {
        for (auto& v : j.data) in >> v;
    } else {
        size_t m; in >> m;
        std::vector<double> p(m * j.d);
        for (auto& v : p) in >> v;
        for (size_t i = 0; i < j.n; i++) {
            size_t q; in >> q;
            for (size_t c = 0; c < j.d; c++) j.data[i * j.d + c] = p[q * j.d + c];
        }
    }
    size_t nc; in >> t >> nc;
    j.centers.resize(nc);
    for (auto& v : j.centers) in >> v;
    return true;
}

// Run a coordinator under the requested data placement.
static kb::cluster_t go(coordinator::ptr c, Job& j, bool fromfile) {
    if (fromfile) return c->run();
    if (j.place == "numa") {
        auto md = binding::memory_distributor<double>::create(&j.data[0], j.nn,
                j.n, j.d);
        md->numa_reorg(c->get_threads());
        return c->run(NULL, true);
    }
    return c->run(&j.data[0]);
}

static std::string datafile(Job& j, const std::string& dir) {
    if (j.place != "file") return "";
    std::string fn = dir + "/data.bin";
    FILE* f = fopen(fn.c_str(), "wb");
    fwrite(&j.data[0], sizeof(double), j.data.size(), f);
    fclose(f);
    return fn;
}

int main(int argc, char** argv) {
    if (argc < 4) return 2;
    std::ifstream in(argv[1]);
    FILE* out = fopen(argv[2], "w");
    std::string dir = argv[3];
    if (!getenv("KMDRV_VERBOSE")) {
        int dn = open("/dev/null", O_WRONLY);
        dup2(dn, 1);
    }
    Job j;
    while (read_job(in, j)) {
        // Announce the job first: a crash or a hang is then attributed to it.
        fprintf(out, "S %s\n", j.id.c_str()); fflush(out);
        kb::cluster_t r; r.nrow = r.ncol = r.iters = r.k = 0;
        std::string status = "ok";
        std::vector<double> extra;
        const double* cen = j.centers.empty() ? NULL : &j.centers[0];
        const std::vector<double> before = j.data, cbefore = j.centers;
#ifdef SCHED
        if (j.x.count("seed"))
            sched::begin((unsigned long)j.x["seed"], (int)j.x["pol"], (int)j.x["prob"], j.x["spur"] != 0);
#endif
        try {
            std::string fn = datafile(j, dir);
            bool ff = !fn.empty();
            const std::string& e = j.engine;
            if (e == "full") {
                auto c = kmeans_coordinator::create(fn, j.n, j.d, j.k, j.maxit, j.nn,
                        j.T, cen, j.init, j.tol, j.dist);
                r = go(c, j, ff);
                extra.push_back(c->get_num_changed());
            } else if (e == "prune") {
                auto c = kp::kmeans_task_coordinator::create(fn, j.n, j.d, j.k,
                        j.maxit, j.nn, j.T, cen, j.init, j.tol, j.dist);
                r = go(c, j, ff);
            } else if (e == "mb") {
                auto c = std::static_pointer_cast<kp::kmeans_task_coordinator>(
                        kp::kmeans_task_coordinator::create(fn, j.n, j.d, j.k,
                        j.maxit, j.nn, j.T, cen, j.init, j.tol, j.dist));
                c->set_mini_batch_size((unsigned)j.x["mb"]);
                r = c->mb_run(ff ? NULL : &j.data[0]);
            } else if (e == "auto" || e == "autop") {
                std::vector<double> cc(j.k * j.d, 0);
                if (cen) cc = j.centers;
                std::vector<unsigned> as(j.n, 0);
                std::vector<llong_t> ac(j.k, 0);
                if (e == "auto")
                    r = omp::compute_kmeans(&j.data[0], &cc[0], &as[0], &ac[0], j.n,
                            j.d, j.k, j.maxit, j.T, j.init, j.tol, j.dist);
                else
                    r = omp::compute_min_kmeans(&j.data[0], &cc[0], &as[0], &ac[0],
                            j.n, j.d, j.k, j.maxit, j.T, j.init, j.tol, j.dist);
                // the caller's buffers are outputs too
                if (j.x.count("buf")) {
                    extra.push_back(1);
                    for (size_t i = 0; i < j.n; i++)
                        if (as[i] != r.assignments[i]) extra[0] = 0;
                    for (size_t i = 0; i < j.k; i++)
                        if ((size_t)ac[i] != r.assignment_count[i]) extra[0] = 0;
                }
            } else if (e == "skm") {
                auto c = skmeans_coordinator::create(fn, j.n, j.d, j.k, j.maxit, j.nn,
                        j.T, cen, j.init, j.tol, j.dist);
                r = go(c, j, ff);
            } else if (e == "med") {
                auto c = medoid_coordinator::create(fn, j.n, j.d, j.k, j.maxit, j.nn,
                        j.T, cen, j.init, j.tol, j.dist, j.x["rate"]);
                r = go(c, j, ff);
            } else if (e == "fcm") {
                auto c = fcm_coordinator::create(fn, j.n, j.d, j.k, j.maxit, j.nn,
                        j.T, cen, j.init, j.tol, j.dist, (unsigned)j.x["fuzz"]);
                r = go(c, j, ff);
            } else if (e == "hcl") {
                auto c = hclust_coordinator::create(fn, j.n, j.d, j.k, j.maxit, j.nn,
                        j.T, cen, j.init, j.tol, j.dist, (unsigned)j.x["min"]);
                r = go(c, j, ff);
            } else if (e == "xm") {
                auto c = xmeans_coordinator::create(fn, j.n, j.d, j.k, j.maxit, j.nn,
                        j.T, cen, j.init, j.tol, j.dist, (unsigned)j.x["min"]);
                r = go(c, j, ff);
            } else if (e == "gm") {
                auto c = gmeans_coordinator::create(fn, j.n, j.d, j.k, j.maxit, j.nn,
                        j.T, cen, j.init, j.tol, j.dist, (unsigned)j.x["min"],
                        (short)j.x["strict"]);
                r = go(c, j, ff);
            } else if (e == "kpp") {
                std::pair<std::pair<unsigned, double>, kb::cluster_t> p;
                if (ff) p = kb::kmeansPP(fn, j.n, j.d, j.k, (unsigned)j.x["starts"],
                        j.T, j.dist);
                else p = kb::kmeansPP(&j.data[0], j.n, j.d, j.k,
                        (unsigned)j.x["starts"], j.T, j.dist);
                r = p.second;
                extra.push_back(p.first.first);
                extra.push_back(p.first.second);
            } else if (e == "kpps") {
                // every start on its own, driven as kmeansPP drives them
                auto c = std::static_pointer_cast<kp::kmeans_task_coordinator>(
                        kp::kmeans_task_coordinator::create(fn, j.n, j.d, j.k, 0,
                        kb::get_num_nodes(), j.T, NULL, "kmeanspp", -1, j.dist));
                for (unsigned s = 0; s < (unsigned)j.x["starts"]; s++) {
                    if (s == 0) { r = ff ? c->run() : c->run(&j.data[0]); }
                    else { c->reinit(); c->tally_assignment_counts(); r = c->dump_state(); }
                    extra.push_back(c->compute_cluster_energy());
                    for (auto v : r.assignments) extra.push_back(v);
                    for (auto v : r.assignment_count) extra.push_back(v);
                    for (auto v : r.centroids) extra.push_back(v);
                }
            } else { fprintf(stderr, "unknown engine %s\n", e.c_str()); return 3; }
        } catch (std::exception& ex) {
            status = std::string("exc:") + ex.what();
            for (auto& ch : status) if (ch == ' ' || ch == '\n' || ch == '\t') ch = '_';
        }
#ifdef SCHED
        if (j.x.count("seed")) {
            std::string m = sched::end();
            if (!m.empty()) status = "misuse:" + m;
        }
#endif
        fprintf(out, "R %s %s %ld %ld %ld %ld", j.id.c_str(), status.c_str(),
                (long)r.nrow, (long)r.ncol, (long)r.iters, (long)r.k);
        fprintf(out, " %zu", r.assignment_count.size());
        for (auto v : r.assignment_count) fprintf(out, " %ld", (long)v);
        fprintf(out, " %zu", r.assignments.size());
        for (auto v : r.assignments) fprintf(out, " %d", (int)v);
        fprintf(out, " %zu", r.centroids.size());
        for (auto v : r.centroids) fprintf(out, " %.17g", v);
        fprintf(out, " %zu", extra.size());
        for (auto v : extra) fprintf(out, " %.17g", v);
        // the caller's input, bit for bit
        fprintf(out, " %d", (int)(before == j.data && cbefore == j.centers));
        fprintf(out, "\n"); fflush(out);
    }
    fprintf(out, "E\n");
    fclose(out);
    _exit(0);
}
