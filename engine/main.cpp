// vsx FILE.bc [options]: symbolic execution of main()
#include "vm.h"
#include <cstdio>
#include <cstdlib>
#include <pthread.h>
#include <unistd.h>
#include <sys/resource.h>
void snapshotTls(VM &vm, State &s);
static void writeOut(VM &vm) {
    std::string j = "{\n";
    auto S = [&](const std::string &s) { return "\"" + jsonEsc(s) + "\""; };
    j += "\"violations\":["; for (size_t i = 0; i < vm.violations.size(); i++) j += (i ? ",\n" : "") + vm.violations[i]; j += "],\n";
    j += "\"witness\":["; for (size_t i = 0; i < vm.witness.size(); i++) j += (i ? ",\n" : "") + vm.witness[i]; j += "],\n";
    j += "\"covers\":{"; bool f = true; for (auto &c : vm.covers) { j += (f ? "" : ",") + S(c.first) + ":" + std::to_string(c.second); f = false; } j += "},\n";
    j += "\"obligations\":{"; f = true; for (auto &c : vm.obligations) { j += (f ? "" : ",") + S(c.first) + ":" + std::to_string(c.second); f = false; } j += "},\n";
    j += "\"undecided\":{"; f = true; for (auto &c : vm.undecidedMsgs) { j += (f ? "" : ",") + S(c.first) + ":" + std::to_string(c.second.first); f = false; } j += "},\n";
    j += "\"incomplete\":["; f = true; for (auto &c : vm.incomplete) { j += (f ? "" : ",") + S(c); f = false; } j += "],\n";
    j += "\"notes\":{"; f = true; for (auto &c : vm.notes) { j += (f ? "" : ",") + S(c.first) + ":" + std::to_string(c.second); f = false; } j += "},\n";
    j += "\"functions\":["; f = true; for (auto *x : vm.funcs) (void)x; for (auto &x : vm.funcByAddr) if (x.second->calls && !x.second->nat && x.second->compiled) { j += (f ? "" : ",") + S(x.second->dname); f = false; } j += "],\n";
    struct rusage ru; getrusage(RUSAGE_SELF, &ru);
    char b[2048]; snprintf(b, sizeof b, "\"stats\":{\"paths\":%llu,\"killed\":%llu,\"forks\":%llu,\"instructions\":%llu,\"merges\":%llu,\"mergeFailed\":%llu,\"assertions\":%llu,\"assertionsTrivial\":%llu,\"undecided\":%llu,\"concretizations\":%llu,\"switches\":%llu,\"transitions\":%llu,\"threads\":%llu,\"uninitReads\":%llu,\"queries\":%llu,\"cacheHits\":%llu,\"modelHits\":%llu,\"solverCalls\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"externalCalls\":%llu,\"truthTables\":%llu,\"solverSeconds\":%.3f,\"maxQuerySeconds\":%.3f,\"wallSeconds\":%.3f,\"maxRssMB\":%ld,\"exprs\":%u,\"symbols\":%zu}\n",
        (unsigned long long)vm.pathsDone, (unsigned long long)vm.pathsKilled, (unsigned long long)vm.forks, (unsigned long long)vm.insts, (unsigned long long)vm.merges, (unsigned long long)vm.mergeFail, (unsigned long long)vm.asserts, (unsigned long long)vm.assertsTrivial, (unsigned long long)vm.undecided, (unsigned long long)vm.concretizations, (unsigned long long)vm.switches, (unsigned long long)vm.transitions, (unsigned long long)vm.maxThreads, (unsigned long long)vm.uninitReads,
        (unsigned long long)g_ss.queries, (unsigned long long)g_ss.cacheHits, (unsigned long long)g_ss.modelHits, (unsigned long long)g_ss.solverCalls, (unsigned long long)g_ss.sat, (unsigned long long)g_ss.unsat, (unsigned long long)g_ss.unknown, (unsigned long long)g_ss.external, (unsigned long long)g_ss.tables, g_ss.time, g_ss.maxTime, nowSec() - vm.t0, ru.ru_maxrss / 1024, numExprs(), g_syms.size());
    j += b; j += "}\n";
    if (vm.opt.out.empty()) fputs(j.c_str(), stdout); else { FILE *fo = fopen(vm.opt.out.c_str(), "w"); if (!fo) { perror("out"); exit(3); } fputs(j.c_str(), fo); fclose(fo); }
}
static VM vm;
static int g_rc = 0;
static void *mainThread(void *) {
    vm.t0 = nowSec();
    if (g_deadline == 0) g_deadline = vm.t0 + vm.opt.maxTime;
    registerNatives(vm);
    if (!vm.load(vm.opt.file)) { g_rc = 3; return nullptr; }
    State *s = vm.init; vm.init = nullptr;
    snapshotTls(vm, *s);
    auto it = vm.funcByName.find(vm.opt.entry);
    if (it == vm.funcByName.end() || it->second->decl) { fprintf(stderr, "vsx: no entry %s\n", vm.opt.entry.c_str()); g_rc = 3; return nullptr; }
    // static constructors run first, one after the other: stack their frames in reverse below which main returns last
    vm.cur = s; vm.alive = true;
    {
        // thread 0 has frames: main (bottom); constructors are run one by one before it
        bool explore = vm.opt.explore; vm.opt.explore = false; vm.keepDead = true;
        for (uint64_t c : vm.ctors) {
            Func *f = vm.funcByAddr[c]; if (!f || f->decl) continue;
            vm.pushFrame(*s, f, nullptr, -1, 0, {}, {});
            vm.work.push_back(s);
            uint64_t done = vm.pathsDone; vm.run();
            if (vm.pathsDone != done + 1 || !vm.violations.empty()) { fprintf(stderr, "vsx: static constructor %s failed\n", f->name.c_str()); for (auto &v : vm.violations) fprintf(stderr, "%s\n", v.c_str()); g_rc = 3; return nullptr; }
            vm.pathsDone = done;
        }
        vm.opt.explore = explore; vm.keepDead = false;
    }
    Func *mf = it->second; std::vector<Val> args; vm.compile(mf);
    for (uint32_t i = 0; i < mf->nargs; i++) args.push_back(CV(0));
    vm.pushFrame(*s, mf, nullptr, -1, 0, args, {});
    vm.work.push_back(s);
    vm.run();
    if (!vm.work.empty() && vm.violations.empty()) vm.incomplete.insert("unexplored paths: " + std::to_string(vm.work.size()));
    writeOut(vm);
    return nullptr;
}
int main(int argc, char **argv) {
    g_vm = &vm; auto &o = vm.opt;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto nx = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "-o") o.out = nx(); else if (a == "--entry") o.entry = nx(); else if (a == "--time") o.maxTime = atof(nx().c_str()); else if (a == "--mem") o.maxMemMB = (size_t)atoll(nx().c_str());
        else if (a == "--qtimeout") g_qtimeout = atof(nx().c_str()); else if (a == "--xtimeout") g_xtimeout = atof(nx().c_str()); else if (a == "--explore") o.explore = true; else if (a == "--preempt") o.preempt = atoi(nx().c_str()); else if (a == "--atomics") o.switchAtomics = 1;
        else if (a == "--no-merge") o.merge = false; else if (a == "-v") o.verbose = true; else if (a == "--max-viol") o.maxViol = atoi(nx().c_str()); else if (a == "-p") { std::string p = nx(); size_t e = p.find('='); o.params[p.substr(0, e)] = e == std::string::npos ? "1" : p.substr(e + 1); }
        else if (a == "--max-paths") o.maxPaths = strtoull(nx().c_str(), nullptr, 10); else if (a == "--dump") g_dumpDir = nx();
        else if (a[0] == '-') { fprintf(stderr, "vsx: unknown option %s\n", a.c_str()); return 3; } else o.file = a;
    }
    exprInit(); solverInit();
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 4ull << 30); pthread_t t;
    if (pthread_create(&t, &at, mainThread, nullptr)) { perror("thread"); return 3; }
    pthread_join(t, nullptr);
    fflush(stdout); fflush(stderr); _exit(g_rc);
}
