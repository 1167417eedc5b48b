/*VP {
 "srcs": ["linkedqueue.c"],
 "models": ["logs_stub.c"],
 "sed": [["timedtask.c", "while\\( *TRUE *\\)", "while( vp_more() )"], ["timedtask.c", "(\\w+)->Task\\(", "vp_run(\\1->Task, "], ["timedtask.h", "^", "int vp_more(void);\nint vp_run(int (*f)(void *, void *), void *a, void *b);\n"]],
 "rename": {"malloc@linkedqueue.c": "vp_node", "free@linkedqueue.c": "vp_unnode", "memcpy@linkedqueue.c": "vp_copy_task"},
 "unwind": "8",
 "unwindset": {"TimeTask_Work.*": "STEPS+1", "TimeTask_ReduceTime.*": 6, "LinkedQueue_.*": 5, "vp_harness.*": 10, "recursion": 3},
 "bounds": "every schedule of up to STEPS waits with NT tasks of any interval up to 3.75 s in steps of a quarter of a second, each periodic or not, in the same thread or another, the first run at once or after the interval, added at any time before or during the waits",
 "assumptions": ["the waiting call waits as long as it says and reports what is left (as on Linux); tasks take no time and another thread's task runs at once", "a periodic task's interval is at least 1 ms"],
 "stubs": ["the queue's nodes: fresh room, as decided under C24; the pipe keeps the order"],
 "variants": {
  "pp": {"defs": ["NT=2", "STEPS=4", "P={1,1}", "Y={0,0}"]},
  "po": {"defs": ["NT=2", "STEPS=4", "P={1,0}", "Y={0,0}"]},
  "pa": {"defs": ["NT=2", "STEPS=4", "P={1,1}", "Y={1,0}"]},
  "ao": {"defs": ["NT=2", "STEPS=4", "P={1,0}", "Y={0,1}"]},
  "pp6": {"defs": ["NT=2", "STEPS=6", "P={1,1}", "Y={0,0}"], "tiers": ["thorough"]},
  "three": {"defs": ["NT=3", "STEPS=5", "P={1,0,1}", "Y={0,0,0}"], "tiers": ["thorough"]}
  }
} VP*/
#include "vp.h"
#include <pthread.h>
#include <sys/select.h>
#include "common.h"
#include "timedtask.h"
#include "linkedqueue.h"
#include "pipes.h"
#include "logs.h"
static int vp_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv);
static long vp_write(int fd, const void *b, size_t n);
static long vp_read(int fd, void *b, size_t n);
static int vp_create(void *t, void *a, void *(*f)(), void *arg);
static int vp_detach(void);
int CREATE_PIPE(PIPE_HANDLE *r, PIPE_HANDLE *w) { *r = 3; *w = 4; return 0; }
#undef FD_ZERO
#undef FD_SET
#define FD_ZERO(s) ((void)(s))
#define FD_SET(f, s) ((void)(f), (void)(s))
#define select vp_select
#define write(f, b, n) vp_write(f, b, n)
#define read(f, b, n) vp_read(f, b, n)
#define pthread_create(t, a, f, g) vp_create(t, a, f, g)
#define pthread_detach(t) vp_detach()
#define atexit(f) 0
#define free(p) vp_unnode(p)
void vp_unnode(void *p);
#include "timedtask.c"
#undef free
#undef select
#undef write
#undef read

/* nodes of the queue */
typedef struct { ListHead h; TaskInfo t; } Node;
static Node N0, N1, N2, N3, N4; static int Used[5];
void *vp_node(size_t n)
{
    vp_assert(n <= sizeof(Node), "room for one task");
    if( !Used[0] ) { Used[0] = 1; return &N0; }
    if( !Used[1] ) { Used[1] = 1; return &N1; }
    if( !Used[2] ) { Used[2] = 1; return &N2; }
    vp_model(!Used[3], "model bound: nodes");
    Used[3] = 1; return &N3;
}
void vp_unnode(void *p)
{
    int k = p == &N0 ? 0 : p == &N1 ? 1 : p == &N2 ? 2 : p == &N3 ? 3 : 4;
    vp_assert(k < 4 && Used[k], "a node is given back once");
    Used[k] = 0;
}
void *vp_copy_task(void *d, const void *s, size_t n) { vp_assert(n == sizeof(TaskInfo), "whole tasks are copied"); *(TaskInfo *)d = *(const TaskInfo *)s; return d; }
/* the pipe */
static TaskInfo Q[NT + 1]; static int QN;
static long vp_write(int fd, const void *b, size_t n) { vp_assert(fd == 4 && n == sizeof(TaskInfo) && QN <= NT, "whole tasks are sent"); Q[QN++] = *(const TaskInfo *)b; return n; }
static long vp_read(int fd, void *b, size_t n)
{
    int k;
    vp_assert(fd == 3 && n == sizeof(TaskInfo) && QN > 0, "whole tasks are received, when there are any");
    *(TaskInfo *)b = Q[0];
    for( k = 1; k < QN; ++k ) Q[k - 1] = Q[k];
    --QN;
    return n;
}
/* time, in quarters of a second */
static int Now, At[NT], Iv[NT], Pers[NT], Asy[NT], Imm[NT], Due[NT], Added[NT], Alive[NT], Ran, InThread, Steps;
static const int PP[NT] = P, YY[NT] = Y;
static char A1[NT], A2[NT];
int vp_more(void) { return Steps++ < STEPS; }
static int Job(void *a, void *b)
{
    int k;
    for( k = 0; k < NT; ++k ) if( a == &A1[k] ) break;
    vp_assert(k < NT && b == &A2[k], "run with its own arguments");
    vp_assert(Added[k] && Alive[k], "a task that was added, and once if it is not periodic");
    vp_assert(Now == Due[k], "run when it is due");
    vp_assert(InThread == Asy[k], "in the thread asked for");
    if( Pers[k] ) Due[k] += Iv[k]; else Alive[k] = 0;
    ++Ran;
    return 0;
}
/* calls what it is given, which is the only task there is */
int vp_run(int (*f)(void *, void *), void *a, void *b) { vp_assert(f == Job, "the task's function is called"); return Job(a, b); }
static void AddTask_(int k)
{
    vp_assert(TimedTask_Add(Pers[k], Asy[k], 250 * Iv[k], (TaskFunc)Job, &A1[k], &A2[k], Imm[k]) == 0, "added");
    Added[k] = Alive[k] = 1;
    Due[k] = Now + (Imm[k] ? 0 : Iv[k]);
}
static int vp_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv)
{
    int k, next = -1, left = -1, d;
    vp_assert(n == 4, "waits for the pipe");
    for( k = 0; k < NT; ++k ) if( Added[k] && Alive[k] ) vp_assert(Due[k] >= Now, "no task that is due was passed over");
    if( QN > 0 ) return 1;
    for( k = 0; k < NT; ++k ) if( !Added[k] && (next < 0 || At[k] < At[next]) ) next = k;
    if( tv != NULL )
    {
        vp_assert(tv->tv_sec >= 0 && tv->tv_usec >= 0 && tv->tv_usec < 1000000, "a proper time");
        k = tv->tv_usec == 0 ? 0 : tv->tv_usec == 250000 ? 1 : tv->tv_usec == 500000 ? 2 : tv->tv_usec == 750000 ? 3 : -1;
        vp_assert(k >= 0 && tv->tv_sec < 8, "a sum of intervals");
        left = ((int)tv->tv_sec & 7) * 4 + k;
        for( k = 0; k < NT; ++k ) if( Added[k] && Alive[k] ) vp_assert(Due[k] >= Now + left, "waits no longer than until the next task is due");
    }
    if( next >= 0 && (left < 0 || At[next] <= Now + left) )
    {
        d = At[next] - Now;
        if( d < 0 ) d = 0;
        Now += d;
        AddTask_(next);
        if( tv != NULL ) { tv->tv_sec = (left - d) >> 2; tv->tv_usec = ((left - d) & 3) * 250000; }
        return 1;
    }
    vp_assert(left >= 0, "a task is due some time");
    Now += left;
    tv->tv_sec = 0; tv->tv_usec = 0;
    return 0;
}
static int Started;
static int vp_create(void *t, void *a, void *(*f)(), void *arg)
{
    if( !Started ) { Started = 1; vp_assert((void *)f == (void *)TimeTask_Work, "the worker"); return 0; }
    vp_assert((void *)f == (void *)TimeTask_RunTack, "a task's thread");
    InThread = 1;
    TimeTask_RunTack(arg);
    InThread = 0;
    return 0;
}
static int vp_detach(void) { return 0; }
void vp_harness(void)
{
    int k;
    for( k = 0; k < NT; ++k )
    {
        At[k] = vp_range(0, 15); Iv[k] = vp_range(0, 15);
        Pers[k] = PP[k]; Asy[k] = YY[k]; Imm[k] = vp_bool();
        vp_assume(!Pers[k] || Iv[k] > 0);
    }
    vp_assert(TimedTask_Init() == 0 && Started, "started");
    AddTask_(0);
    TimeTask_Work(NULL);
    vp_witness("worked");
    if( Ran >= 2 ) vp_witness("two runs");
}
