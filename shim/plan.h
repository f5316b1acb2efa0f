/* Shared-memory layout between the simulator (sim/src/proc.rs) and the shim.
 * The simulator maps a memfd (fd SIM_FD), fills in the plan, runs the real
 * binary with LD_PRELOAD=shim.so and reads the log. Little endian, packed. */
#include <stdint.h>
#define SIM_FD 200
#define SIM_SCRIPT_FD 201
#define SIM_MAGIC 0x57534d31u
#define HDR_SIZE 4096
#define SIM_MAX_EV 4096
/* event kinds */
#define EV_DATA 1   /* arg: at most that many bytes in this call */
#define EV_ERR 2    /* arg: errno */
#define EV_EOF 3    /* read returns 0 once */
struct sim_ev { uint32_t kind; uint32_t arg; };
struct sim_hdr {
  uint32_t magic;
  uint32_t map_size;
  uint64_t hash_seed;
  uint32_t open_errno;     /* 0: script opens */
  uint32_t stat_lie;       /* 1: announce stat_size instead of the truth */
  uint64_t stat_size;
  uint32_t is_fifo;        /* announce a FIFO: no size, no seeking */
  uint32_t fail_alloc;     /* 0: never; n: the n-th allocation of the program fails */
  uint32_t fail_alloc_sticky; /* all later ones fail as well */
  uint32_t n_script_ev, n_stdin_ev, n_out_ev, n_err_ev;
  uint32_t off_script_ev, off_stdin_ev, off_out_ev, off_err_ev;
  uint32_t off_script, script_len;
  uint32_t off_stdin, stdin_len;
  uint32_t off_log, log_cap;
  uint32_t max_idle_reads; /* reads after the end of input before the verdict SPIN */
  uint32_t max_calls;      /* intercepted calls before the verdict SPIN */
  uint32_t poison;         /* fill fresh allocations with this byte if not 0 */
  /* results */
  volatile uint32_t log_len;
  volatile uint32_t verdict; /* 0 none, 1 spin after end of input, 2 too many calls, 3 log full */
  volatile uint32_t n_alloc;
  volatile uint32_t alloc_failed;
  volatile uint32_t script_pos;
  volatile uint32_t stdin_pos;
  volatile uint32_t n_getrandom;
  volatile uint32_t wrote_other; /* opened something for writing, or changed the file system */
  volatile uint32_t fired[16];  /* injected faults that fired, by class */
  volatile uint32_t n_clock, n_getenv, n_isatty; /* asked for the time, the environment, terminals */
  uint32_t track;          /* input: log the live heap at every read of standard input */
};
/* log record: u8 op, u8 fd class, u16 pad, i32 result (-errno on failure), u32 requested, u32 datalen, data */
#define OP_READ 1
#define OP_WRITE 2
#define OP_OPEN 3
#define OP_STAT 4
#define OP_SEEK 5
#define OP_ALLOCFAIL 6
#define OP_FSWRITE 7
#define OP_LIVE 8 /* result: live bytes */
#define CLS_STDIN 0
#define CLS_STDOUT 1
#define CLS_STDERR 2
#define CLS_SCRIPT 3
#define FIRE_EINTR 0
#define FIRE_SHORT_READ 1
#define FIRE_READ_ERR 2
#define FIRE_SHORT_WRITE 3
#define FIRE_WRITE_ERR 4
#define FIRE_OPEN_ERR 5
#define FIRE_ALLOC 6
#define FIRE_SIZE_LIE 7
#define FIRE_EINTR_W 8
#define FIRE_CLOCK 9
