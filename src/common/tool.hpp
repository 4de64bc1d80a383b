// Runs one of the tools (an instrumented build) and records its output.
#pragma once
#include "mon.hpp"
#include <spawn.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <cerrno>
extern char **environ;

struct ToolRun { int status = 0; bool crashed = false; std::string out, err; };
inline std::string slurp_fd(int fd)
{
	std::string s; char b[65536]; ssize_t n; lseek(fd, 0, SEEK_SET);
	while ((n = read(fd, b, sizeof b)) > 0) s.append(b, (size_t) n);
	return s;
}
inline std::string tool_path(const char *name) { const char *d = getenv("VF_TOOLS"); return std::string(d ? d : ".") + "/" + name; }
// A crash (sanitizer report or signal) is reported as a violation here.
inline ToolRun run_tool(const char *name, const std::vector<std::string> &args, const char *cwd = nullptr)
{
	ToolRun t; std::string exe = tool_path(name); std::vector<char *> av; av.push_back((char *) exe.c_str());
	for (auto &a : args) av.push_back((char *) a.c_str());
	av.push_back(nullptr);
	int o = memfd_create("out", MFD_CLOEXEC), e = memfd_create("err", MFD_CLOEXEC);
	posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa);
	posix_spawn_file_actions_adddup2(&fa, o, 1); posix_spawn_file_actions_adddup2(&fa, e, 2);
	posix_spawn_file_actions_addopen(&fa, 0, "/dev/null", O_RDONLY, 0);
	if (cwd) posix_spawn_file_actions_addchdir_np(&fa, cwd);
	pid_t pid; int rc = posix_spawn(&pid, exe.c_str(), &fa, nullptr, av.data(), environ);
	posix_spawn_file_actions_destroy(&fa);
	if (rc) { fprintf(stderr, "cannot run %s: %s\n", exe.c_str(), strerror(rc)); _exit(98); }
	int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
	t.out = slurp_fd(o); t.err = slurp_fd(e); close(o); close(e);
	t.status = WIFEXITED(st) ? WEXITSTATUS(st) : 256 + WTERMSIG(st);
	if (t.status >= 256 || (t.status == 77 && t.err.find("Sanitizer") != std::string::npos) || t.err.find("runtime error:") != std::string::npos) {
		t.crashed = true;
		std::string k = "crash";
		size_t p;
		if ((p = t.err.find("runtime error: ")) != std::string::npos) { k = "ubsan:"; for (char c : t.err.substr(p + 15, 60)) { if (c == '\n') break; k += isalpha((unsigned char) c) ? c : '-'; } }
		else if ((p = t.err.find("AddressSanitizer: ")) != std::string::npos) k = "asan:" + t.err.substr(p + 18, t.err.find(' ', p + 18) - p - 18);
		else if (t.status >= 256) k = strf("signal:%d", t.status - 256);
		size_t q = 0; std::string fn;	// the innermost frame in the repository
		while ((q = t.err.find(" in ", q)) != std::string::npos) {
			size_t e2 = t.err.find('\n', q); std::string l = t.err.substr(q + 4, e2 - q - 4); q = e2 == std::string::npos ? t.err.size() : e2;
			if (l.find("compiler-rt") != std::string::npos || l.compare(0, 2, "__") == 0 || l.find(".c:") == std::string::npos) continue;
			fn = l.substr(0, l.find(' ')); break;
		}
		M.violation(k + (fn.empty() ? "" : ":" + fn), strf("%s crashed: ", name) + t.err.substr(0, 1200));
	}
	return t;
}
inline void write_file(const std::string &fn, const void *p, size_t n)
{
	int fd = open(fn.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
	if (fd < 0) { perror(fn.c_str()); _exit(98); }
	const char *b = (const char *) p; size_t o = 0;
	while (o < n) { ssize_t k = write(fd, b + o, n - o); if (k <= 0) { perror("write"); _exit(98); } o += (size_t) k; }
	close(fd);
}
