// Stateless model checker runtime: fibers, virtual clock, virtual network, deviation-bounded exploration.
#ifndef SIM_H_
#define SIM_H_
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>
#include <functional>

namespace sim {

enum Cat {C_SCHED = 0, C_ENV = 1, C_TIME = 2, C_FREE = 3, C_HARN = 4};

struct Options {
	bool fine = false;            // every instrumented heap access is a scheduling point
	bool asio_mutex = false;      // asio's own mutexes are scheduling points too
	bool volatile_points = true;
	bool time_jump = false;       // allow the clock to jump although fibers are runnable
	uint64_t max_points = 100000;
	uint64_t max_steps = 30000000;
	int64_t horizon_ms = 600000;  // virtual time limit of one execution
	bool check_heap = true;
	bool sched = true;            // scheduling deviations allowed
	int wake_alts = 0;            // alternatives for the choice of a condvar waiter
};
extern Options opt;

// --- harness side -----------------------------------------------------------------------------------------
struct Scenario {
	const char* name;
	const char* desc;
	void (*fn)();
	int quick_bound;
	int thorough_bound;
	void (*setup)();              // sets sim::opt / simnet::cfg before the run (in the child)
};
void register_scenario(const Scenario& s);
struct Reg {Reg(const Scenario& s) {register_scenario(s);}};
#define SCENARIO(NAME, DESC, QB, TB, SETUP) \
	static void scen_##NAME(); \
	static sim::Reg reg_##NAME(sim::Scenario{#NAME, DESC, scen_##NAME, QB, TB, SETUP}); \
	static void scen_##NAME()

int spawn(const char* name, const std::function<void()>& fn);    // a harness fiber
void join(int fiber);
void yield_point();                                              // explicit scheduling point
int choose(int n, const char* tag);                              // exhaustively enumerated (no cost)
int choose_dev(int n, const char* tag);                          // alternatives > 0 cost one deviation
void wait_until(const std::function<bool()>& pred, const char* what);  // blocks; deadlock if never true
bool wait_for(const std::function<bool()>& pred, int64_t ms, const char* what); // false on timeout
void sleep_ms(int64_t ms);
int64_t now_ms();
int64_t now_us();
int self();
bool idle_others();                                              // no other fiber is runnable right now
void settle();                                                   // run until nobody else is runnable (time may not pass)
void finish();                                                   // end this execution successfully (no return)
[[noreturn]] void fail(const char* file, int line, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
void logf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));   // event trace (verbose replay only)
void outcome(const std::string& s);                              // contributes to the outcome of the execution
void atomic_begin();                                             // no scheduling points in between
void atomic_end();
bool verbose();
void window(bool on);                                            // choices are explored only while the window is open (default: open)
struct NoPreempt {NoPreempt() {atomic_begin();} ~NoPreempt() {atomic_end();}};
void set_heap_watch(const void* p, size_t n);
size_t live_threads();                                           // fibers made by pthread_create and still running
int64_t param(const char* name, int64_t def);                    // --param name=value
#define CHECK(c, ...) do {if (!(c)) sim::fail(__FILE__, __LINE__, __VA_ARGS__);} while (0)

} // namespace sim

// --- virtual network, harness side -------------------------------------------------------------------------
namespace simnet {

struct Config {
	bool send_eagain = false, send_short = false, send_reset = false;    // deviations on the library's sockets
	bool recv_short = false, recv_reset = false;
	bool connect_err = false;
	int accept_err = 0; // 1: accept may fail with ECONNABORTED or EMFILE, 2: EMFILE only
	bool dgram_send_err = false, dgram_recv_err = false;
	bool listen_err = false, bind_err = false;
	size_t rx_cap = 1 << 20;        // receive buffer capacity of every stream socket
	size_t dgram_cap = 64;          // datagrams queued per socket
	std::function<void(int port)> connect_seen;   // observes every connection attempt of the library
	std::function<bool(int port)> blackhole;   // connecting to this port never completes
};
extern Config cfg;

// peer side sockets (blocking, never subject to deviations)
int listen(int port);
int accept(int lfd);                       // blocks
int try_accept(int lfd);                   // -1 if nobody waits
int connect(int port);                     // blocks; -1 when refused
bool send(int fd, const std::string& data);         // blocks until everything is in the peer's buffer; false on error
int send_some(int fd, const std::string& data);     // non blocking
std::string recv(int fd, size_t max = 1 << 20);     // blocks; "" on EOF; sets *err through last_error()
bool recv_exact(int fd, size_t n, std::string& out);
std::string recv_all(int fd);              // until EOF or error
std::string peek_available(int fd);        // takes what is there now, never blocks
int last_error();
void shutdown_wr(int fd);
void close(int fd);
void reset(int fd);                        // RST
bool at_eof(int fd);                       // FIN or RST received and buffer drained
bool was_reset(int fd);
size_t available(int fd);
size_t unsent_capacity(int fd);
void set_rx_cap(int fd, size_t cap);
int udp(int port);                         // bound peer datagram socket
void udp_send(int fd, int port, const std::string& d);
std::string udp_recv(int fd, int* from_port);       // blocks
bool udp_try_recv(int fd, std::string& d, int* from_port);
int port_of(int fd);
// unix domain
int listen_path(const std::string& path);
int connect_path(const std::string& path);
int udp_path(const std::string& path);
void udp_send_path(int fd, const std::string& path, const std::string& d);
bool udp_try_recv_path(int fd, std::string& d, std::string* from);
// introspection
int listening_sockets();                   // library listeners
int open_sockets();                        // open library stream/datagram sockets
int connecting_or_connected_to(int port), connecting_or_connected_to_path(const std::string& p);  // library sockets connected/connecting to the port
struct WireLog {int fd; int peer_port; std::string data;};
}
#endif
