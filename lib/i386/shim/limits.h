#define CHAR_BIT 8
#define SCHAR_MAX 127
#define UCHAR_MAX 255
#define SHRT_MAX 32767
#define USHRT_MAX 65535
#define INT_MAX 2147483647
#define UINT_MAX 4294967295u
#define LONG_MAX 2147483647l
#define ULONG_MAX 4294967295ul
#define LLONG_MAX 9223372036854775807ll
#define LONG_LONG_MAX LLONG_MAX
