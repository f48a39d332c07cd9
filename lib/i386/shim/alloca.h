#define alloca(n) __builtin_alloca (n)
