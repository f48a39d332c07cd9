typedef struct { long state; } pthread_mutex_t;
#define PTHREAD_MUTEX_INITIALIZER { 0 }
int pthread_mutex_lock (pthread_mutex_t *); int pthread_mutex_unlock (pthread_mutex_t *);
