#include "common.hpp"
#ifdef __SANITIZE_THREAD__
#include "teams.hpp"
#endif
#include <csignal>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

bool g_concurrent = false;

static void write_all(int fd, const std::string& s) {
    size_t o = 0;
    while (o < s.size()) {
        ssize_t n = write(fd, s.data() + o, s.size() - o);
        if (n <= 0) _Exit(96);
        o += (size_t)n;
    }
}

// argv: scenarios.ndjson out.ndjson
int driver_main(int argc, char** argv, const std::map<std::string, Machine>& machines) {
    if (argc < 3) { fprintf(stderr, "usage: driver scenarios out\n"); return 98; }
    std::ifstream in(argv[1]);
    FILE* out = fopen(argv[2], "w");
    if (!in || !out) return 98;
    std::string line;
    int hung = 0;
    while (std::getline(in, line)) {
        if (line.empty()) continue;
        J sc = JParser{line.c_str()}.parse();
        auto it = machines.find(sc["m"].s);
        if (it == machines.end()) { fprintf(stderr, "driver: no machine %s\n", sc["m"].s.c_str()); return 98; }
        int fd = memfd_create("res", 0);
        if (fd < 0) return 98;
        fflush(out);
        pid_t pid = fork();
        if (pid == 0) {
            alarm((unsigned)sc.num("alarm", 60));
            it->second(sc, [&](const std::string& r) { write_all(fd, r + "\n"); });
            write_all(fd, "done\n");
            _Exit(0);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        std::string res;
        lseek(fd, 0, SEEK_SET);
        char buf[1 << 16];
        ssize_t n;
        while ((n = read(fd, buf, sizeof buf)) > 0) res.append(buf, (size_t)n);
        close(fd);
        bool done = res.size() >= 5 && res.compare(res.size() - 5, 5, "done\n") == 0;
        if (done) res.resize(res.size() - 5);
        if (WIFEXITED(st) && (WEXITSTATUS(st) == 97 || WEXITSTATUS(st) == 96)) return 97;   // harness error
        std::string crash;
        if (WIFSIGNALED(st)) crash = "signal" + std::to_string(WTERMSIG(st));
        else if (WEXITSTATUS(st) != 0) crash = "exit" + std::to_string(WEXITSTATUS(st));
        else if (!done) crash = "exit0";
        std::string o = "{\"id\":\"" + sc["id"].s + "\",\"crash\":\"" + crash + "\",\"res\":[";
        bool first = true;
        std::istringstream is(res);
        std::string l;
        while (std::getline(is, l)) {
            if (l.empty() || l.back() != '}') continue;
            if (!first) o += ",";
            first = false;
            o += l;
        }
        o += "]}\n";
        fputs(o.c_str(), out);
        if (crash == "signal14" && ++hung == 2) break;      // calls that do not return: what was recorded is enough
    }
    fclose(out);
    return 0;
}
