// Runs hierarchical k-means, x-means and g-means and prints the state after each of their steps.
//   hclobs OUT   with jobs on stdin, one per line:
//   id kind n d k maxit T init dist tol min strict  n*d numbers  c  c numbers
// Output: "S id", one "V id <what> ..." per step, "V id END result", "E id".
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>
#include <fcntl.h>
#include "hclust_coordinator.hpp"
#include "xmeans_coordinator.hpp"
#include "gmeans_coordinator.hpp"
#include "clusters.hpp"
#include "util.hpp"
#include "exception.hpp"
using namespace knor;
namespace kb = knor::base;

static FILE* out;
static std::string sid;
static void putd(double v) { fprintf(out, " %.17g", v); }

template <class Base> struct Watch : public Base {
    using Base::Base;
    void state(const char* what) {
        fprintf(out, "V %s %s", sid.c_str(), what);
        for (auto v : this->cluster_assignments) fprintf(out, " %ld", (long)v);
        for (auto v : this->part_id) fprintf(out, " %ld", (long)v);
        std::vector<std::pair<size_t, size_t>> c;
        for (size_t i = 0; i < this->cluster_assignment_counts.size(); i++)
            if (this->cluster_assignment_counts[i]) c.push_back({i, this->cluster_assignment_counts[i]});
        fprintf(out, " %zu", c.size());
        for (auto& p : c) fprintf(out, " %zu %zu", p.first, p.second);
        std::vector<size_t> keys;
        this->hcltrs.get_keys(keys);
        fprintf(out, " %zu", keys.size());
        for (auto id : keys) {
            auto h = this->hcltrs[id];
            fprintf(out, " %zu %ld %ld %d %ld %ld", id, (long)h->get_zeroid(), (long)h->get_oneid(),
                    (int)h->has_converged(), (long)h->get_num_members(0), (long)h->get_num_members(1));
            for (size_t i = 0; i < 2 * this->ncol; i++) putd(h->get_means()[i]);
        }
        fprintf(out, " %zu", this->final_centroids.size());
        for (auto& kv : this->final_centroids) {
            fprintf(out, " %ld", (long)kv.first);
            for (auto v : kv.second) putd(v);
        }
        fprintf(out, "\n"); fflush(out);
    }
    void run_hinit() override { Base::run_hinit(); state("INIT"); }
    void update_clusters() override { Base::update_clusters(); state("PASS"); }
    void init_splits() override { Base::init_splits(); state("SPLIT"); }
};
template <class Base> struct WatchX : public Watch<Base> {
    using Watch<Base>::Watch;
    void partition_decision() override { Base::partition_decision(); this->state("DECIDE"); }
};

int main(int, char** argv) {
    out = fopen(argv[1], "a");
    int dn = open("/dev/null", O_WRONLY);
    dup2(dn, 1);
    std::string l;
    while (std::getline(std::cin, l)) {
        std::istringstream in(l);
        std::string kind, init, dist; size_t n, d, nc; unsigned k, maxit, T, mn; double tol; int strict;
        in >> sid >> kind >> n >> d >> k >> maxit >> T >> init >> dist >> tol >> mn >> strict;
        std::vector<double> data(n * d);
        for (auto& v : data) in >> v;
        in >> nc;
        std::vector<double> cen(nc);
        for (auto& v : cen) in >> v;
        fprintf(out, "S %s\n", sid.c_str()); fflush(out);
        const double* c = nc ? &cen[0] : NULL;
        auto it = kb::get_init_type(init); auto dt = kb::get_dist_type(dist);
        kb::cluster_t r;
        try {
            if (kind == "hcl") { Watch<hclust_coordinator> o("", n, d, k, maxit, 1, T, c, it, tol, dt, mn); r = o.run(&data[0]); }
            else if (kind == "xm") { WatchX<xmeans_coordinator> o("", n, d, k, maxit, 1, T, c, it, tol, dt, mn); r = o.run(&data[0]); }
            else { WatchX<gmeans_coordinator> o("", n, d, k, maxit, 1, T, c, it, tol, dt, mn, (short)strict); r = o.run(&data[0]); }
            fprintf(out, "V %s END %zu", sid.c_str(), r.assignments.size());
            for (auto v : r.assignments) fprintf(out, " %ld", (long)v);
            fprintf(out, " %zu", r.assignment_count.size());
            for (auto v : r.assignment_count) fprintf(out, " %ld", (long)v);
            fprintf(out, " %zu", r.centroids.size());
            for (auto v : r.centroids) putd(v);
            fprintf(out, " %ld %ld %ld\n", (long)r.k, (long)r.nrow, (long)r.ncol);
        } catch (std::exception& e) { fprintf(out, "V %s EXC\n", sid.c_str()); }
        fprintf(out, "E %s\n", sid.c_str()); fflush(out);
    }
    fclose(out);
    _exit(0);
}
