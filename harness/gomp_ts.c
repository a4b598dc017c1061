/* critical sections of OpenMP on mutexes ThreadSanitizer understands */
#include <pthread.h>
static pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER, mn = PTHREAD_MUTEX_INITIALIZER;
void GOMP_critical_start(void) { pthread_mutex_lock(&m); }
void GOMP_critical_end(void) { pthread_mutex_unlock(&m); }
void GOMP_critical_name_start(void **p) { (void) p; pthread_mutex_lock(&mn); }
void GOMP_critical_name_end(void **p) { (void) p; pthread_mutex_unlock(&mn); }
void GOMP_atomic_start(void) { pthread_mutex_lock(&m); }
void GOMP_atomic_end(void) { pthread_mutex_unlock(&m); }
