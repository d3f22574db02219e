// The closed world of one execution: TPIE initialised, tiny blocks, one OS
// thread (fibers) and a scratch directory.
#pragma once
#include "../mc/mc.h"
#include "../mc/sched.h"
#include "../mc/io.h"
#include "../mc/clock.h"
#include <tpie/tpie.h>
#include <tpie/memory.h>
#include <tpie/file_manager.h>
#include <tpie/tempname.h>
#include <tpie/stats.h>
#include <tpie/exception.h>
#include <tpie/tpie_log.h>
#include <functional>

namespace world {

struct config {
	size_t block_size = 1024;
	size_t memory_limit = size_t(1) << 30;
	bool job_manager = false;
	bool file_limit = false;
	size_t max_files = 100;
	sched::config s;
};

inline tpie::flags<tpie::subsystem> subsystems(const config & c) {
	tpie::flags<tpie::subsystem> f = tpie::FILE_MANAGER | tpie::MEMORY_MANAGER | tpie::STREAMS | tpie::TEMPFILE | tpie::PROGRESS;
	if (c.job_manager) f = f | tpie::JOB_MANAGER;
	return f;
}

/// Run body inside a fresh, controlled TPIE.
inline void run(const config & c, const std::function<void()> & body) {
	sched::config sc = c.s;
#ifdef MC_RACES // the library and the harness report all memory accesses and atomics
	sc.races = sc.atomics = true;
#endif
	sched::run(sc, [&]() {
		tpie::set_block_size(c.block_size); // the buffer pool is sized by tpie_init
		tpie::tpie_init(subsystems(c));
		tpie::get_memory_manager().set_limit(c.memory_limit);
		if (c.file_limit) tpie::get_file_manager().set_limit(c.max_files);
		try {
			body();
		} catch (const mc::violation_t &) {
			_exit(77);
		} catch (const mc::prune_t &) {
			tpie::tpie_finish(subsystems(c));
			throw;
		}
		tpie::tpie_finish(subsystems(c));
	});
}

inline std::string path(const std::string & n) { return mc::scratch() + "/" + n; }

} // namespace world
