/* a page of this size holds the trampolines of one table */
#ifndef SHIM_PAGE_SHIFT
#define SHIM_PAGE_SHIFT 14
#endif
#define PAGE_MAX_SHIFT SHIM_PAGE_SHIFT
#define PAGE_MAX_SIZE (1 << PAGE_MAX_SHIFT)
