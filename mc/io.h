// Interposed file system calls: the executable defines open/read/write/... and
// forwards to the kernel, so a harness can log, fail, shorten or cut off the
// unchanged code's file operations.  Only files below mc::scratch() are seen.
#pragma once
#include "mc.h"
#include <functional>
#include <string>

namespace io {

enum kind { k_open, k_read, k_write, k_seek, k_truncate, k_close, k_stat, k_unlink, k_rename, k_mkdir };
const char * name(kind k);

struct call {
	kind k;
	int fd;
	std::string path;   // of the file concerned
	size_t size;        // read/write: bytes asked for; truncate: new length
	bool mutating;      // changes what is on disk (creating open, write, truncate, unlink, rename, mkdir)
};

struct action {
	int err = 0;            // != 0: fail with this errno
	size_t limit = ~size_t(0); // transfer at most this many bytes
};

/// Called before every call; installed with hook().
typedef std::function<action(const call &)> hook_t;
void hook(hook_t h);
void unhook();

/// Every call becomes a scheduling point on the file concerned.
void points(bool on);
struct scoped_points {
	scoped_points() { points(true); }
	~scoped_points() { points(false); }
};

struct scoped_hook {
	explicit scoped_hook(hook_t h) { hook(std::move(h)); }
	~scoped_hook() { unhook(); }
};

/// The scratch file descriptors open now.
int open_fds();
/// inside an interposed call, which allocates memory of its own
bool busy();
void forget_fds();

/// Raw helpers that bypass the hook.
std::string slurp(const std::string & path);
bool exists(const std::string & path);
void spit(const std::string & path, const std::string & data);
void copy_tree(const std::string & from, const std::string & to);

} // namespace io
