// In-memory file system with a crash model and fault injection.
#pragma once
#include "core.h"
#include <map>
#include <memory>
#include <sys/types.h>

namespace simfs {
enum Kind { K_OPEN, K_MKSTEMP, K_READ, K_WRITE, K_FSYNC, K_CLOSE, K_FCHMOD, K_FTRUNCATE, K_RENAME, K_UNLINK,
            K_LSEEK, K_MMAP, K_MUNMAP, K_STAT, K_DUP, K_FDOPEN, K_LINK, K_MAPFAULT, K_N };
struct Inode {
  int id = 0;
  bool dir = false;
  std::string data, ddata;      // cached / durable content
  mode_t mode = 0, dmode = 0;   // cached / durable mode
  bool lost = false;            // dirty pages dropped by a failed fsync
  size_t extent = 0;            // bytes that have storage behind them
  bool lib = false;             // created by library code
  int ctid = 0;                 // thread that created it
  int nlink = 0;
};
typedef std::shared_ptr<Inode> InodeP;
struct View { bool exists = false; std::string data; mode_t mode = 0; int ino = 0; };
struct Hist {
  uint64_t seq; std::string path; InodeP before, after; int tid; bool lib;
  bool synced; std::string data; mode_t mode, dmode; // of `after` at that instant
};

struct Config {
  bool strict = true;             // every descriptor and path is simulated
  int fd_base = 3;
  uint32_t fault_den = 0;         // 0: no faults; otherwise 1/den per eligible call
  uint32_t kinds = 0;             // enabled fault kinds (bit per Kind)
  bool user_faults = false;       // harness' own write() calls may fail as well
  bool fsync_flushes_meta = false;// fsync of a file also persists the directory log
  long quota = -1;                // bytes of storage, -1 unlimited
  uint32_t tmp_space = 0;         // 0: 62^6 names; otherwise this many distinct temp names
  uint64_t crash_after = 0;       // 0: never; otherwise crash when this many system calls were made
  bool eintr = false;             // EINTR among injected errors
};
extern Config cfg;
extern uint64_t seq;              // system calls so far
extern uint64_t faults;           // injected faults so far
extern std::vector<Hist> history; // directory-entry changes
extern void (*step_hook)(const char *call); // after every system call (not inside the library scope)

void reset();
void mkdir_raw(const char *path);
void put_raw(const char *path, const std::string &data, mode_t mode); // durable
InodeP lookup(const std::string &path);
View live(const std::string &path);
View crash_view(const std::string &path);       // draws one crash image of this path
void crash_restart();                           // replaces the state by one crash image, closes everything
std::vector<std::string> ls();                  // all paths of regular files
std::map<std::string, int> names();             // path -> inode id
int open_lib_fds(int tid = -1);                 // descriptors opened by library code and still open
int open_maps(int tid = -1);                     // mappings made by library code
long used_bytes();
bool fd_is_open(int fd);
std::string fd_data(int fd);                     // content of the file behind a descriptor
int fd_inode(int fd);                           // inode id or -1
const char *kind_name(int k);
bool lib_closed_foreign();                      // library closed a descriptor opened by the harness
std::string norm(const char *p);
// fault accounting of the current operation
struct OpFaults { uint32_t n; uint32_t mask; };
OpFaults take_op_faults(int tid);               // faults injected into this thread's calls since last asked
void draw_faults(uint32_t allowed_kinds);       // draws fault_den and kinds for this run
} // namespace simfs
