// second half of driver.hpp, included after the harness defined generate() and differs()
#pragma once
// run in a child: 0 same, 1 differs, 2 crash or hang
static int guarded(const Scenario& sc, const std::string& kinds, std::string* why) {
    int fd[2];
    if (pipe(fd) != 0) return 0;
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) {
        close(fd[0]);
        alarm(5);
        std::string w;
        bool bad = differs(sc, kinds, &w, nullptr, "");
        if (write(fd[1], w.data(), w.size()) < 0) {}
        _exit(bad ? 1 : 0);
    }
    close(fd[1]);
    std::string w;
    char buf[4096];
    ssize_t k;
    while ((k = read(fd[0], buf, sizeof buf)) > 0) w.append(buf, static_cast<size_t>(k));
    close(fd[0]);
    int st = 0;
    waitpid(p, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) <= 1) {
        if (why) *why = w;
        return WEXITSTATUS(st);
    }
    if (why) *why = WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM ? "the call does not return (deadlock or endless loop)\n" : "the process is terminated abnormally\n";
    return 2;
}

static Scenario shrink(Scenario sc, const std::string& kinds) {
    auto t0 = std::chrono::steady_clock::now();
    bool again = true;
    while (again) {
        again = false;
        for (size_t i = sc.size(); i-- > 0;) {
            if (std::chrono::steady_clock::now() - t0 > std::chrono::seconds(20)) return sc;
            if (sc[i].op == "start" || sc[i].op == "init" || sc[i].op == "make") continue;
            Scenario c = sc;
            c.erase(c.begin() + static_cast<long>(i));
            if (guarded(c, kinds, nullptr) != 0) { sc = c; again = true; }
        }
    }
    return sc;
}

int main(int argc, char** argv) {
    if (argc >= 4 && !strcmp(argv[1], "replay")) {
        std::ifstream in(argv[2]);
        std::stringstream ss;
        ss << in.rdbuf();
        std::string why;
        int r = guarded(parse(ss.str()), argv[3], &why);
        printf("%s%s", why.c_str(), r ? "VIOLATED\n" : "as expected\n");
        return r ? 1 : 0;
    }
    if (argc < 8 || strcmp(argv[1], "search")) return 3;
    const std::string prof = argv[2], kinds = argv[3];
    const uint64_t seed = strtoull(argv[4], nullptr, 10);
    const long maxN = atol(argv[5]);
    const double secs = atof(argv[6]);
    struct Shared { volatile long index; volatile long relevant; volatile long distinct; volatile int found; };
    auto* sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    auto t0 = std::chrono::steady_clock::now();
    long start = 0;
    int verdict = 0;
    long bad = -1;
    while (verdict == 0 && start < maxN) {
        fflush(nullptr);
        pid_t p = fork();
        if (p == 0) {
            std::set<size_t> seen;
            for (long i = start; i < maxN; ++i) {
                sh->index = i;
                alarm(10);
                Rng r(seed * 1000003ull + static_cast<uint64_t>(i));
                Scenario sc = generate(r, prof);
                bool rel = false;
                if (differs(sc, kinds, nullptr, &rel, prof)) { sh->found = 1; _exit(1); }
                if (rel && seen.insert(std::hash<std::string>()(text(sc))).second) { sh->relevant = sh->relevant + 1; }
                if ((i & 63) == 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs) { sh->index = i + 1; _exit(0); }
            }
            sh->index = maxN;
            _exit(0);
        }
        int st = 0;
        waitpid(p, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) break;
        bad = sh->index;
        verdict = 1;
    }
    long n = sh->index;
    std::string sample;
    { Rng r(seed * 1000003ull + 7); sample = text(generate(r, prof)); }
    if (verdict) {
        Rng r(seed * 1000003ull + static_cast<uint64_t>(bad));
        Scenario sc = generate(r, prof);
        std::string why;
        if (guarded(sc, kinds, &why) == 0) why = "not reproducible";
        else {
            sc = shrink(sc, kinds);
            guarded(sc, kinds, &why);
        }
        std::ofstream o(argv[7]);
        o << text(sc);
        std::istringstream ws(why);
        std::string row;
        o << "# " << prof << " seed " << seed << " scenario " << bad << "\n";
        while (std::getline(ws, row)) o << "# " << row << "\n";
    }
    for (char& c : sample) if (c == '\n') c = ';';
    printf("{\"evaluations\": %ld, \"distinct_nontrivial\": %ld, \"violations\": %d, \"wall_s\": %.2f, \"sample\": \"%s\"}\n", n, static_cast<long>(sh->relevant), verdict,
           std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(), sample.c_str());
    return verdict;
}
