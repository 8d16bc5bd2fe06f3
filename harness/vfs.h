// Vocabulary of the concurrent harnesses (engine/rsa/sched.py).  Threads
// started by the code run, in every order the scheduler explores, where another
// thread releases a mutex, starts a thread, yields or blocks.
#ifndef VFS_H_
#define VFS_H_

#include "vf.h"

// How many voluntary preemptions, spurious wake-ups and time-outs are explored.
void vfs_sched(int preemptions, int spurious, int timeouts);
// How often a thread that released a mutex or yields may stay there while all
// others go on.
void vfs_suspend(int n);
void vfs_yield();
// Runs every thread that has not run yet, in the order of their start.
void vfs_flush();
// Runs every thread that has not run yet, in any order; executions in which a thread could
// still continue are not followed.  vfs_quiesce: a thread that is blocked for
// ever is a violation.
void vfs_settle();
void vfs_quiesce();
// Threads started by the library: all; neither finished nor detached; not
// finished.
int vfs_started();
int vfs_live();
int vfs_unfinished();
// Threads started by the library that wait on a condition variable and have not
// been notified.
int vfs_asleep();
// Of the threads waiting un-notified at vfs_mark_asleep, those that have not been
// notified or woken since.
void vfs_mark_asleep();
int vfs_still_asleep();
// This thread goes on to destroy the pool: whenever it was notified and waits
// again all the threads of vfs_mark_asleep have been notified.
void vfs_shutting_down();
// The other threads that can go on (without the main thread while it settles).
int vfs_runnable();
// Mutexes held by this thread.
int vfs_held();
int vfs_self();
void vfs_cut();

#endif  // VFS_H_
