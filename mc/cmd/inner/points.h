#include <semaphore.h>

struct run {
	long at, n; // stops at this point; points passed
	sem_t stopped, go;
};

struct run *run_new(long at);
void run_free(struct run *r);
void run_enter(struct run *r);
long run_leave(void);
int run_stopped(struct run *r, long ms);
void run_go(struct run *r);
