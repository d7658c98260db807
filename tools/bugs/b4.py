exec(open('/verif/tools/bugs/b1.py').read().split('BUGS = [')[0])
L = H + r'''
#include "sasalloc.h"
#include <pthread.h>
#include <signal.h>
#include <unistd.h>
#include <iostream>
#define private public
#include "sasulock.h"
#undef private
static SasUserLock *U; static volatile int in, got, go;
static void *wr(void *) { U->write_lock(0, (void*)64); got = 1; usleep(200000); U->unlock(); return 0; }
static void *rdr(void *) { U->read_lock(0, (void*)64); got = 1; U->unlock(); return 0; }
static void hnd(int) {}
'''
T = H + r'''
#include <pthread.h>
#include <unistd.h>
#include <errno.h>
#include "sassim.h"
#include "saslock.h"
#include <iostream>
#define private public
#include "sasmlock.h"
#undef private
static volatile int got; static void *A, *B;
static void same() { unsigned char h[65536]; long f[256] = {0}; for (long i = 1; i < 2000; i++) { void *x = (void*)(i * 4096 + 64); int s = ((SasMasterLock*)0)->hash(&x) & 255; if (f[s]) { A = (void*)(f[s] * 4096 + 64); B = x; return; } f[s] = i; } }
static void *wl(void *x) { SASLock(x, SasUserLock__WRITE); got = 1; SASUnlock(x); return 0; }
'''
BUGS = [
dict(id='p14-signal-wakes', prop='P14', edits=[('src/sasulock.cpp', '''  while (total_readers_count)
  {
    // look like a writer''', '''  if (total_readers_count)
  {
    // look like a writer''')],
 needs='a signal that interrupts the sleep of a writer waiting for the last reader', breaks='the writer gets the lock while a reader holds it',
 demo=L + r'''
int main() { U = new SasUserLock((void*)64); struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = hnd; sigaction(SIGUSR1, &sa, 0); U->read_lock(0, (void*)64); pthread_t t; pthread_create(&t, 0, wr, 0); usleep(300000); for (int i = 0; i < 5; i++) { pthread_kill(t, SIGUSR1); usleep(50000); } int b = got; U->unlock(); pthread_join(t, 0); if (b) BAD("writer inside with a reader\n"); return 0; }'''),
dict(id='p14-nested-read', prop='P14', edits=[('src/sasulock.cpp', '''        readers[i].reader_thread_lock_count++;
        total_readers_count++;
#ifdef mylockdebug''', '''        if (readers[i].reader_thread_lock_count++ < 2)
        total_readers_count++;
#ifdef mylockdebug''')],
 needs='a thread nesting the read lock three deep or more, then releasing once', breaks='a writer gets in before the reader has released every level',
 demo=L + r'''
int main() { U = new SasUserLock((void*)64); for (int i = 0; i < 3; i++) U->read_lock(0, (void*)64); pthread_t t; pthread_create(&t, 0, wr, 0); usleep(100000); U->unlock(); U->unlock(); usleep(300000); int b = got; U->unlock(); if (!b) usleep(300000); if (b) BAD("writer inside with a reader\n"); return 0; }'''),
dict(id='p14-task-only', prop='P14', edits=[('src/sasulock.cpp', '''      if ((readers[i].reader_thread_id ==
           this_thread) &&
          (readers[i].reader_task_id ==
           this_task))''', '''      if (readers[i].reader_task_id ==
           this_task)''')],
 needs='two threads of one process holding the read lock while one of them releases', breaks='the release is counted against both readers',
 demo=L + r'''
static void *hold(void *) { U->read_lock(0, (void*)64); in = 1; while (!go) usleep(1000); U->unlock(); return 0; }
int main() { U = new SasUserLock((void*)64); U->read_lock(0, (void*)64); pthread_t t; pthread_create(&t, 0, hold, 0); while (!in) usleep(1000); U->unlock(); int n = 0; for (int i = 0; i < 10; i++) n += U->readers[i].reader_thread_lock_count; go = 1; pthread_join(t, 0); if (n != 1) BAD("%d readers counted\n", n); return 0; }'''),
dict(id='p14-write-depth', prop='P14', edits=[('src/sasulock.cpp', '''      writer_thread_lock_count--;
#ifdef''', '''      if (writer_thread_lock_count > 3) writer_thread_lock_count = 3;
      writer_thread_lock_count--;
#ifdef''')],
 needs='a thread nesting the write lock four deep or more', breaks='the lock is given up before the last level is released',
 demo=L + r'''
int main() { U = new SasUserLock((void*)64); for (int i = 0; i < 5; i++) U->write_lock(0, (void*)64); for (int i = 0; i < 3; i++) U->unlock(); pthread_t t; pthread_create(&t, 0, rdr, 0); usleep(300000); int b = got; U->unlock(); U->unlock(); pthread_join(t, 0); if (b) BAD("reader inside with the writer\n"); return 0; }'''),
dict(id='p15-free-first', prop='P15', edits=[('src/saslockl.cpp', '''        iteratorPtr != NULL;
        iteratorPtr = iteratorPtr->next)
    {
      if (iteratorPtr->item->operator==(keyAddr))
       {''', '''        iteratorPtr != NULL && firstFreeLock == NULL;
        iteratorPtr = iteratorPtr->next)
    {
      if (iteratorPtr->item->operator==(keyAddr))
       {''')],
 needs='an address whose lock object is listed behind a free one in the same slot', breaks='two lock objects for one address: two writers inside',
 demo=T + r'''
int main() { same(); if (!A || SASJoinRegion()) return 0; SASLock(A, SasUserLock__WRITE); SASLock(B, SasUserLock__WRITE); SASUnlock(B); pthread_t t; pthread_create(&t, 0, wl, A); usleep(400000); int b = got; if (!b) { SASUnlock(A); pthread_join(t, 0); SASRemove(); return 0; } SASRemove(); BAD("two writers\n"); }'''),
dict(id='p15-reuse-busy', prop='P15', edits=[('src/saslockl.cpp', '''         if (iteratorPtr->item->operator==(NullAddress))
            firstFreeLock = iteratorPtr->item;''', '''         if (iteratorPtr->item->operator==(NullAddress) ||
             !iteratorPtr->item->getWriterTID() && !iteratorPtr->next)
            firstFreeLock = iteratorPtr->item;''')],
 needs='an address read-locked at the end of its slot list while another address of the slot is locked', breaks='the lock object of the readers is taken over for the other address',
 demo=T + r'''
int main() { same(); if (!A || SASJoinRegion()) return 0; SASLock(A, SasUserLock__READ); pthread_t t; pthread_create(&t, 0, wl, B); usleep(400000); int b = got; SASUnlock(A); if (b) pthread_join(t, 0); SASRemove(); if (!b) BAD("waits for a lock on another address\n"); return 0; }'''),
]
