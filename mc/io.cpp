#include "io.h"
#include "sched.h"
#include <cerrno>
#include <cstdarg>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <map>

namespace io {
namespace {
hook_t the_hook;
bool on = false, inside = false, sched_points = false;
const int max_fd = 4096;
std::string paths[max_fd];
bool tracked[max_fd];
int n_open = 0;

bool in_scratch(const char * p) {
	const std::string & s = mc::scratch();
	return !s.empty() && strncmp(p, s.c_str(), s.size()) == 0;
}

action ask(kind k, int fd, const std::string & path, size_t size, bool mut) {
	if (sched_points && !inside && sched::active()) sched::point(fd >= 0 ? static_cast<const void *>(&paths[fd]) : &sched_points);
	if (!on || inside) return action();
	inside = true;
	call c;
	c.k = k; c.fd = fd; c.path = path; c.size = size; c.mutating = mut;
	action a;
	try { a = the_hook(c); } catch (...) { inside = false; throw; }
	inside = false;
	return a;
}
bool t(int fd) { return fd >= 0 && fd < max_fd && tracked[fd]; }
int n_busy = 0;
struct busy_guard { busy_guard() { ++n_busy; } ~busy_guard() { --n_busy; } };
} // unnamed

bool busy() { return n_busy != 0; }
const char * name(kind k) {
	static const char * n[] = {"open", "read", "write", "lseek", "ftruncate", "close", "fstat", "unlink", "rename", "mkdir"};
	return n[k];
}
void hook(hook_t h) { the_hook = std::move(h); on = true; }
void points(bool p) { sched_points = p; }
void unhook() { on = false; the_hook = nullptr; }
int open_fds() { return n_open; }
void forget_fds() {
	for (int i = 0; i < max_fd; ++i) if (tracked[i]) { syscall(SYS_close, i); tracked[i] = false; }
	n_open = 0;
}

std::string slurp(const std::string & path) {
	std::string r;
	int fd = syscall(SYS_openat, AT_FDCWD, path.c_str(), O_RDONLY, 0);
	if (fd < 0) return r;
	struct stat st;
	if (fstat(fd, &st) == 0) {
		r.resize(st.st_size);
		size_t at = 0;
		while (at < r.size()) {
			ssize_t n = syscall(SYS_read, fd, &r[at], r.size() - at);
			if (n <= 0) break;
			at += n;
		}
		r.resize(at);
	}
	syscall(SYS_close, fd);
	return r;
}
bool exists(const std::string & path) { struct stat st; return lstat(path.c_str(), &st) == 0; }
void spit(const std::string & path, const std::string & d) {
	int fd = syscall(SYS_openat, AT_FDCWD, path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
	if (fd < 0) return;
	size_t at = 0;
	while (at < d.size()) {
		ssize_t n = syscall(SYS_write, fd, d.data() + at, d.size() - at);
		if (n <= 0) break;
		at += n;
	}
	syscall(SYS_close, fd);
}
void copy_tree(const std::string & from, const std::string & to) {
	syscall(SYS_mkdir, to.c_str(), 0700);
	DIR * d = opendir(from.c_str());
	if (!d) return;
	while (dirent * e = readdir(d)) {
		std::string n = e->d_name;
		if (n == "." || n == "..") continue;
		struct stat st;
		std::string a = from + "/" + n, b = to + "/" + n;
		if (lstat(a.c_str(), &st)) continue;
		if (S_ISDIR(st.st_mode)) copy_tree(a, b);
		else spit(b, slurp(a));
	}
	closedir(d);
}

} // namespace io

using namespace io;

extern "C" {

static int do_open(const char * p, int flags, mode_t mode) {
	busy_guard bg;
	bool tr = in_scratch(p);
	if (tr) {
		struct stat st;
		bool mut = (flags & O_TRUNC) || ((flags & O_CREAT) && on && lstat(p, &st) != 0);
		action a = ask(k_open, -1, p, 0, mut);
		if (a.err) { errno = a.err; return -1; }
	}
	int fd = syscall(SYS_openat, AT_FDCWD, p, flags, mode);
	if (tr && fd >= 0 && fd < max_fd) { tracked[fd] = true; paths[fd] = p; ++n_open; }
	return fd;
}
int open(const char * p, int flags, ...) {
	busy_guard bg;
	va_list ap; va_start(ap, flags); mode_t m = (flags & O_CREAT) ? va_arg(ap, mode_t) : 0; va_end(ap);
	return do_open(p, flags, m);
}
int open64(const char * p, int flags, ...) {
	busy_guard bg;
	va_list ap; va_start(ap, flags); mode_t m = (flags & O_CREAT) ? va_arg(ap, mode_t) : 0; va_end(ap);
	return do_open(p, flags, m);
}
ssize_t read(int fd, void * b, size_t n) {
	busy_guard bg;
	if (t(fd)) {
		action a = ask(k_read, fd, paths[fd], n, false);
		if (a.err) { errno = a.err; return -1; }
		if (n > a.limit) n = a.limit;
	}
	return syscall(SYS_read, fd, b, n);
}
ssize_t __read_chk(int fd, void * b, size_t n, size_t) { return read(fd, b, n); }
ssize_t write(int fd, const void * b, size_t n) {
	busy_guard bg;
	if (t(fd)) {
		action a = ask(k_write, fd, paths[fd], n, true);
		if (a.err) { errno = a.err; return -1; }
		if (n > a.limit) n = a.limit;
	}
	return syscall(SYS_write, fd, b, n);
}
ssize_t pread(int fd, void * b, size_t n, off_t o) {
	busy_guard bg;
	if (t(fd)) {
		action a = ask(k_read, fd, paths[fd], n, false);
		if (a.err) { errno = a.err; return -1; }
		if (n > a.limit) n = a.limit;
	}
	return syscall(SYS_pread64, fd, b, n, o);
}
ssize_t pread64(int fd, void * b, size_t n, off64_t o) { return pread(fd, b, n, o); }
ssize_t pwrite(int fd, const void * b, size_t n, off_t o) {
	busy_guard bg;
	if (t(fd)) {
		action a = ask(k_write, fd, paths[fd], n, true);
		if (a.err) { errno = a.err; return -1; }
		if (n > a.limit) n = a.limit;
	}
	return syscall(SYS_pwrite64, fd, b, n, o);
}
ssize_t pwrite64(int fd, const void * b, size_t n, off64_t o) { return pwrite(fd, b, n, o); }
off_t lseek(int fd, off_t o, int w) noexcept {
	busy_guard bg;
	if (t(fd)) {
		action a = ask(k_seek, fd, paths[fd], 0, false);
		if (a.err) { errno = a.err; return -1; }
	}
	return syscall(SYS_lseek, fd, o, w);
}
off64_t lseek64(int fd, off64_t o, int w) noexcept { return lseek(fd, o, w); }
int ftruncate(int fd, off_t n) noexcept {
	busy_guard bg;
	if (t(fd)) {
		action a = ask(k_truncate, fd, paths[fd], n, true);
		if (a.err) { errno = a.err; return -1; }
	}
	return syscall(SYS_ftruncate, fd, n);
}
int ftruncate64(int fd, off64_t n) noexcept { return ftruncate(fd, n); }
int close(int fd) {
	busy_guard bg;
	if (t(fd)) {
		action a = ask(k_close, fd, paths[fd], 0, false);
		tracked[fd] = false;
		--n_open;
		int r = syscall(SYS_close, fd); // a failing close still releases the descriptor on Linux
		if (a.err) { errno = a.err; return -1; }
		return r;
	}
	return syscall(SYS_close, fd);
}
int fstat(int fd, struct stat * b) noexcept {
	busy_guard bg;
	if (t(fd)) {
		action a = ask(k_stat, fd, paths[fd], 0, false);
		if (a.err) { errno = a.err; return -1; }
	}
	return syscall(SYS_fstat, fd, b);
}
int fstat64(int fd, struct stat64 * b) noexcept { return fstat(fd, reinterpret_cast<struct stat *>(b)); }
int unlink(const char * p) noexcept {
	busy_guard bg;
	if (in_scratch(p)) {
		action a = ask(k_unlink, -1, p, 0, true);
		if (a.err) { errno = a.err; return -1; }
	}
	return syscall(SYS_unlink, p);
}
int unlinkat(int d, const char * p, int f) noexcept {
	busy_guard bg;
	if (d == AT_FDCWD && in_scratch(p)) {
		action a = ask(k_unlink, -1, p, 0, true);
		if (a.err) { errno = a.err; return -1; }
	}
	return syscall(SYS_unlinkat, d, p, f);
}
int rmdir(const char * p) noexcept {
	busy_guard bg;
	if (in_scratch(p)) {
		action a = ask(k_unlink, -1, p, 0, true);
		if (a.err) { errno = a.err; return -1; }
	}
	return syscall(SYS_rmdir, p);
}
int remove(const char * p) noexcept {
	busy_guard bg;
	if (in_scratch(p)) {
		action a = ask(k_unlink, -1, p, 0, true);
		if (a.err) { errno = a.err; return -1; }
	}
	int r = syscall(SYS_unlink, p);
	if (r != 0 && errno == EISDIR) r = syscall(SYS_rmdir, p);
	return r;
}
int rename(const char * a, const char * b) noexcept {
	busy_guard bg;
	if (in_scratch(a)) {
		action x = ask(k_rename, -1, a, 0, true);
		if (x.err) { errno = x.err; return -1; }
	}
	return syscall(SYS_rename, a, b);
}
int mkdir(const char * p, mode_t m) noexcept {
	busy_guard bg;
	if (in_scratch(p)) {
		action a = ask(k_mkdir, -1, p, 0, true);
		if (a.err) { errno = a.err; return -1; }
	}
	return syscall(SYS_mkdir, p, m);
}

} // extern "C"
