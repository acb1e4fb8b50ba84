/* Controls the threads of a run at the observation points of the library.
 *
 * A schedule is a sequence of surfaces (positions in the selection). Each entry
 * lets the thread that computes this surface go from the point where it waits
 * to the next one; all other threads wait. When the expected thread does not
 * come within the timeout, because it waits for something else or was given
 * no such surface, the schedule is given up and all threads run freely.
 *
 * When several objects run at the same time, each in a thread of its own that
 * has called sched_enter(), the entries of a schedule are objects instead.
 *
 * The order in which the points were passed is logged.
 */
#define _GNU_SOURCE
#include <pthread.h>
#include <string.h>
#include <time.h>
#include <stdlib.h>

#define MAXLOG 4096
#define MAXSURF 256
#define NAMELEN 24

typedef void (*hook_type)(const char*, int);
typedef void (*set_type)(hook_type);

static pthread_mutex_t mutex = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t cond;
static int ready;

static int active, nsurf, nmode;
static int sched[65536]; static int len, pos;
static int timeout_ms, gave_up;
#define MAXOBJ 16
static __thread int me = -1;   /* the object that this thread runs */
static int omodes[MAXOBJ][MAXSURF];
static int modes[MAXSURF], left[MAXSURF], running;
static struct { char name[NAMELEN]; int s, o; } events[MAXLOG];
static int nevents, lost;

static void deadline(struct timespec* t, int ms) {
  clock_gettime(CLOCK_MONOTONIC, t);
  t->tv_sec += ms / 1000; t->tv_nsec += (ms % 1000) * 1000000L;
  if (t->tv_nsec >= 1000000000L) { t->tv_sec++; t->tv_nsec -= 1000000000L; }
}

static int before(const struct timespec* a, const struct timespec* b) {
  return a->tv_sec < b->tv_sec || (a->tv_sec == b->tv_sec && a->tv_nsec < b->tv_nsec);
}

static struct timespec last;   /* the last progress */

static void hook(const char* point, int s) {
  pthread_mutex_lock(&mutex);
  int stop = 1;
  if (strcmp(point, "mode") == 0) {
    stop = 0;
    if (s >= 0 && s < MAXSURF) stop = (me >= 0 ? omodes[me] : modes)[s]++ < nmode;
  }
  if (stop) {
    if (nevents < MAXLOG) {
      strncpy(events[nevents].name, point, NAMELEN - 1);
      events[nevents].o = me;
      events[nevents++].s = s;
    } else lost = 1;
  }
  if (me >= 0) s = me;
  if (stop && active && !gave_up && s >= 0 && s < nsurf) {
    if (running == s) { running = -1; }
    clock_gettime(CLOCK_MONOTONIC, &last);
    pthread_cond_broadcast(&cond);
    while (active && !gave_up) {
      if (pos >= len) break;
      if (running < 0 && sched[pos] == s) {
        pos++;
        /* The last step of a surface does not come back. */
        running = --left[s] > 0 ? s : -1;
        clock_gettime(CLOCK_MONOTONIC, &last);
        pthread_cond_broadcast(&cond);
        break;
      }
      struct timespec now, limit = last;
      limit.tv_sec += timeout_ms / 1000; limit.tv_nsec += (timeout_ms % 1000) * 1000000L;
      if (limit.tv_nsec >= 1000000000L) { limit.tv_sec++; limit.tv_nsec -= 1000000000L; }
      clock_gettime(CLOCK_MONOTONIC, &now);
      if (before(&limit, &now)) {
        gave_up = 1;
        pthread_cond_broadcast(&cond);
        break;
      }
      struct timespec t;
      deadline(&t, timeout_ms);
      pthread_cond_timedwait(&cond, &mutex, &t);
    }
  }
  pthread_mutex_unlock(&mutex);
}

/* set: booz_xform_verif_set_hook of the library. n = 0: only log. */
void sched_begin(void* set, const int* schedule, int n, int surfaces, int stops_at_mode, int timeout) {
  pthread_mutex_lock(&mutex);
  if (!ready) {
    pthread_condattr_t a;
    pthread_condattr_init(&a);
    pthread_condattr_setclock(&a, CLOCK_MONOTONIC);
    pthread_cond_init(&cond, &a);
    ready = 1;
  }
  len = n < 65536 ? n : 65536;
  for (int i = 0; i < len; i++) sched[i] = schedule[i];
  pos = 0; active = n > 0; nsurf = surfaces; nmode = stops_at_mode; timeout_ms = timeout;
  gave_up = 0; running = -1; nevents = 0; lost = 0;
  memset(modes, 0, sizeof modes); memset(omodes, 0, sizeof omodes); memset(left, 0, sizeof left);
  for (int i = 0; i < len; i++) if (sched[i] >= 0 && sched[i] < MAXSURF) left[sched[i]]++;
  clock_gettime(CLOCK_MONOTONIC, &last);
  pthread_mutex_unlock(&mutex);
  ((set_type) set)(hook);
}

/* Returns 1 if the schedule was followed to its end. */
int sched_end(void* set) {
  ((set_type) set)(0);
  pthread_mutex_lock(&mutex);
  int r = !gave_up && pos >= len;
  active = 0;
  pthread_cond_broadcast(&cond);
  pthread_mutex_unlock(&mutex);
  return r;
}

int sched_count(void) { return lost ? -1 : nevents; }
const char* sched_name(int i) { return events[i].name; }
int sched_surface(int i) { return events[i].s; }
int sched_object(int i) { return events[i].o; }
void sched_enter(int i) { me = i < MAXOBJ ? i : -1; }
