// Simulated kernel objects: files on a disk with a volatile cache and a durable image, byte pipes and
// stream sockets. Every system call stdex (or a scenario) makes through the C library ends up here
// while a run is active.
#pragma once
#include "sim.h"
#include <string>
#include <vector>
#include <memory>
#include <functional>

namespace simk
{
	struct config { // probabilities per 1000 calls
		uint32_t short_read = 0, short_write = 0;
		uint32_t eintr = 0;          // read/write/send/recv interrupted
		uint32_t eagain = 0;         // non-blocking descriptors
		uint32_t read_error = 0, write_error = 0;      // EIO
		uint32_t write_zero = 0;     // write() accepts nothing
		uint32_t seek_error = 0, truncate_error = 0, fsync_error = 0, close_error = 0, dup_error = 0, stat_error = 0, lock_error = 0, utime_error = 0, open_error = 0;
		bool tell_works = false;     // asking for the position is not a subject of seek_error
		uint64_t capacity = UINT64_MAX; // of the disk in bytes (full disk)
	};
	extern config cfg;

	struct write_rec { uint64_t off; std::vector<uint8_t> data; bool trunc; uint64_t size; };
	struct lock_rec { uint64_t off, len; };
	struct inode {
		std::vector<uint8_t> data;            // what the running system sees
		std::vector<uint8_t> durable;         // what survives a crash for sure
		std::vector<write_rec> pending;       // not yet durable changes, in order
		std::vector<lock_rec> locks;          // of this process: sorted, neither overlapping nor touching
		std::vector<lock_rec> foreign;        // of other processes
		unsigned mode = 0644;
		int64_t atime = 0, mtime = 0, ctime = 0; // ns since the epoch
		uint64_t id = 0;
		unsigned fsyncs = 0;
	};
	// Byte stream endpoint (pipe, socket, tty)
	struct stream {
		std::vector<uint8_t> in;     // what read()/recv() returns
		size_t in_pos = 0;
		bool in_closed = true;       // end of stream after in; otherwise EAGAIN
		std::vector<uint8_t> out;    // what write()/send() accepted
		bool out_broken = false;     // EPIPE
		uint64_t out_room = UINT64_MAX; // what write()/send() accept until the other side reads on; then EAGAIN
		int reset = 0;               // 1: every further call fails with ECONNRESET; 2: one call does, then the end follows (as on Linux)
		bool reset_after_data = false; // once all is read, reset is set to 2
		bool sticky_reset = false;   // an injected hard error becomes a reset connection
		bool shut_rd = false, shut_wr = false;
	};
	struct open_file { std::shared_ptr<inode> ino; std::shared_ptr<stream> str; uint64_t pos = 0; int flags = 0; int refs = 0; };

	// What happened since the last reset_marks()
	struct marks {
		unsigned errors = 0;        // failures injected (any call)
		unsigned read_errors = 0, write_errors = 0, seek_errors = 0, trunc_errors = 0, fsync_errors = 0, close_errors = 0, nospace = 0, dup_errors = 0, lock_errors = 0, lock_waits = 0, utime_errors = 0, open_errors = 0, stat_errors = 0, eintr = 0, eagain = 0;
		unsigned calls = 0;
	};
	extern marks m;
	inline void reset_marks() { m = marks(); }

	std::shared_ptr<inode> file(const char* path);            // null when it does not exist
	std::shared_ptr<inode> make_file(const char* path, const std::vector<uint8_t>& content);
	int open_stream(std::shared_ptr<stream> s);               // descriptor of a byte stream
	int open_sim(const char* path, int flags);                 // a descriptor opened by the scenario itself, without faults
	int close_quiet(int fd);
	void low_descriptors(); // at the beginning of a run: descriptor 0 is free, and so the first one handed out
	open_file* of(int fd);
	unsigned fds_open();
	unsigned bad_closes();                                    // close() of a descriptor that is not open
	unsigned calls();
	uint64_t disk_used();

	// The image of a file after a crash at this instant: durable content plus an arbitrary subset of
	// the pending writes, possibly torn.
	std::vector<uint8_t> crash_image(const inode& i);
	extern std::function<void()> on_call;                     // invoked before every disk call (crash points)
}
