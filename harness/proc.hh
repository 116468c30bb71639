// Running a program in a directory of its own, with limits.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <signal.h>
#include <sstream>
#include <string>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

namespace proc {

inline std::string slurp(std::string const &path) {
    std::ifstream in(path, std::ios::binary);
    std::ostringstream oss;
    oss << in.rdbuf();
    return oss.str();
}
inline void spill(std::string const &path, std::string const &text) {
    std::ofstream out(path, std::ios::binary | std::ios::trunc);
    out << text;
}

struct Out {
    int code = -1;
    int signal = 0;
    std::string out, err;
};

// Standard streams are files in dir.
inline Out run(std::vector<std::string> const &args, std::string const &dir, std::string const &in = "", int cpu = 30, std::vector<std::string> const &env = {}) {
    std::vector<char *> argv, envp;
    for (auto const &a : args) { argv.push_back(const_cast<char *>(a.c_str())); }
    argv.push_back(nullptr);
    for (char **e = environ; *e != nullptr; ++e) { envp.push_back(*e); }
    for (auto const &e : env) { envp.push_back(const_cast<char *>(e.c_str())); }
    envp.push_back(nullptr);
    std::string fin = dir + "/stdin", fout = dir + "/stdout", ferr = dir + "/stderr";
    spill(fin, in);
    pid_t pid = vfork();
    if (pid == 0) {
        struct rlimit rl { static_cast<rlim_t>(cpu), static_cast<rlim_t>(cpu) };
        setrlimit(RLIMIT_CPU, &rl);
        struct rlimit fs { 64 << 20, 64 << 20 };
        setrlimit(RLIMIT_FSIZE, &fs);
        if (chdir(dir.c_str()) != 0) { _exit(126); }
        int i = open(fin.c_str(), O_RDONLY), o = open(fout.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), e = open(ferr.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
        if (i < 0 || o < 0 || e < 0) { _exit(126); }
        dup2(i, 0);
        dup2(o, 1);
        dup2(e, 2);
        execve(argv[0], argv.data(), envp.data());
        _exit(127);
    }
    Out r;
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (WIFEXITED(st)) { r.code = WEXITSTATUS(st); }
    if (WIFSIGNALED(st)) { r.signal = WTERMSIG(st); }
    r.out = slurp(fout);
    r.err = slurp(ferr);
    return r;
}

// private directory of this worker process
inline std::string worker_dir(std::string const &scratch) {
    std::string d = scratch + "/w" + std::to_string(getpid());
    mkdir(d.c_str(), 0700);
    return d;
}

} // namespace proc
