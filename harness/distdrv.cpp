// Batch driver for the distributed k-means engines: the jobs and records of kmdrv.
//   mpirun -n P distdrv JOBS OUT SCRATCHDIR
// One launch runs many jobs: the engines initialise and finalise MPI per
// coordinator, so both calls are intercepted here.
#include <mpi.h>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <map>
#include <string>
#include <vector>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/stat.h>

#include "dist_coordinator.hpp"
#include "dist_task_coordinator.hpp"
#include "types.hpp"

static bool started = false;
extern "C" int MPI_Init(int* argc, char*** argv) {
    if (started) return MPI_SUCCESS;
    started = true;
    return PMPI_Init(argc, argv);
}
extern "C" int MPI_Finalize() { return MPI_SUCCESS; }

// Processes drift apart before and after every exchange by up to delay microseconds.
static unsigned delay = 0, dseed = 1;
static void drift() {
    if (!delay) return;
    dseed = dseed * 1664525u + 1013904223u;
    usleep((dseed >> 8) % delay);
}
extern "C" int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) {
    drift(); int rc = PMPI_Allreduce(s, r, n, t, o, c); drift(); return rc;
}
extern "C" int MPI_Allgather(const void* s, int n, MPI_Datatype t, void* r, int m, MPI_Datatype u, MPI_Comm c) {
    drift(); int rc = PMPI_Allgather(s, n, t, r, m, u, c); drift(); return rc;
}
extern "C" int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c) {
    drift(); int rc = PMPI_Bcast(b, n, t, root, c); drift(); return rc;
}
extern "C" int MPI_Ssend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) {
    drift(); return PMPI_Ssend(b, n, t, d, tag, c);
}
extern "C" int MPI_Send(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) {
    drift(); return PMPI_Send(b, n, t, d, tag, c);
}
extern "C" int MPI_Recv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status* st) {
    drift(); return PMPI_Recv(b, n, t, s, tag, c, st);
}

struct Job {
    std::string id, engine, init, dist, place;
    size_t n, d; unsigned k, maxit, T, nn; double tol;
    std::map<std::string, double> x;
    std::vector<double> data, centers;
};

static bool read_job(std::istream& in, Job& j) {
    std::string t;
    if (!(in >> t)) return false;
    if (t != "JOB") { fprintf(stderr, "bad job file at '%s'\n", t.c_str()); exit(3); }
    in >> j.id >> j.engine >> j.n >> j.d >> j.k >> j.maxit >> j.T >> j.nn
       >> j.init >> j.dist >> j.tol >> j.place;
    j.x.clear();
    while (in >> t && t != "DATA") {
        size_t e = t.find('=');
        j.x[t.substr(0, e)] = atof(t.c_str() + e + 1);
    }
    in >> t;
    j.data.resize(j.n * j.d);
    if (t == "FULL") {
        for (auto& v : j.data) in >> v;
    } else {
        size_t m; in >> m;
        std::vector<double> p(m * j.d);
        for (auto& v : p) in >> v;
        for (size_t i = 0; i < j.n; i++) {
            size_t q; in >> q;
            for (size_t c = 0; c < j.d; c++) j.data[i * j.d + c] = p[q * j.d + c];
        }
    }
    size_t nc; in >> t >> nc;
    j.centers.resize(nc);
    for (auto& v : j.centers) in >> v;
    return true;
}

int main(int argc, char** argv) {
    if (argc < 4) return 2;
    prctl(PR_SET_PDEATHSIG, SIGKILL);      // a killed launcher leaves nobody behind
    MPI_Init(&argc, &argv);
    int rank;
    MPI_Comm_rank(MPI_COMM_WORLD, &rank);
    std::ifstream in(argv[1]);
    FILE* out = rank == 0 ? fopen(argv[2], "w") : fopen("/dev/null", "w");
    std::string dir = argv[3];
    if (chdir(dir.c_str())) return 3;      // the engine writes its result file here
    int dn = open("/dev/null", O_WRONLY);
    dup2(dn, 1);
    Job j;
    while (read_job(in, j)) {
        fprintf(out, "S %s\n", j.id.c_str()); fflush(out);
        std::string fn = dir + "/data.bin";
        if (rank == 0) {
            FILE* f = fopen(fn.c_str(), "wb");
            fwrite(&j.data[0], sizeof(double), j.data.size(), f);
            fclose(f);
        }
        PMPI_Barrier(MPI_COMM_WORLD);
        delay = (unsigned)j.x["delay"]; dseed = 77 * rank + (unsigned)j.x["dseed"];
        knor::base::cluster_t r; r.nrow = r.ncol = r.iters = r.k = 0;
        std::string status = "ok";
        const double* cen = j.centers.empty() ? NULL : &j.centers[0];
        const std::vector<double> cbefore = j.centers;
        try {
            if (j.engine == "dist") {
                auto c = knor::dist::dist_coordinator::create(argc, argv, fn, j.n, j.d,
                        j.k, j.maxit, j.nn, j.T, cen, j.init, j.tol, j.dist);
                std::static_pointer_cast<knor::dist::dist_coordinator>(c)->run(r, "out");
            } else {
                auto c = knor::prune::dist_task_coordinator::create(argc, argv, fn, j.n,
                        j.d, j.k, j.maxit, j.nn, j.T, cen, j.init, j.tol, j.dist);
                std::static_pointer_cast<knor::prune::dist_task_coordinator>(c)->run(r, "out");
            }
        } catch (std::exception& ex) {
            fprintf(stderr, "exception: %s\n", ex.what());
            _exit(4);                      // the other processes would wait forever
        }
        fprintf(out, "R %s %s %ld %ld %ld %ld", j.id.c_str(), status.c_str(),
                (long)r.nrow, (long)r.ncol, (long)r.iters, (long)r.k);
        fprintf(out, " %zu", r.assignment_count.size());
        for (auto v : r.assignment_count) fprintf(out, " %ld", (long)v);
        fprintf(out, " %zu", r.assignments.size());
        for (auto v : r.assignments) fprintf(out, " %d", (int)v);
        fprintf(out, " %zu", r.centroids.size());
        for (auto v : r.centroids) fprintf(out, " %.17g", v);
        fprintf(out, " 0 %d\n", (int)(cbefore == j.centers)); fflush(out);
        PMPI_Barrier(MPI_COMM_WORLD);
    }
    fprintf(out, "E\n");
    fclose(out);
    PMPI_Finalize();
    return 0;
}
