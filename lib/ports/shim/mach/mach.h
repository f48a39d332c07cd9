#include <stdint.h>
#include <mach/vm_param.h>
typedef uintptr_t vm_address_t, vm_size_t; typedef int kern_return_t, vm_prot_t, boolean_t, vm_inherit_t; typedef unsigned mach_port_t;
#define KERN_SUCCESS 0
#define VM_FLAGS_ANYWHERE 1
#define VM_FLAGS_OVERWRITE 0x4000
#define VM_PROT_READ 1
#define VM_PROT_WRITE 2
#define VM_PROT_EXECUTE 4
#define VM_INHERIT_SHARE 0
#define FALSE 0
#define TRUE 1
mach_port_t mach_task_self (void);
kern_return_t vm_allocate (mach_port_t, vm_address_t *, vm_size_t, int);
kern_return_t vm_deallocate (mach_port_t, vm_address_t, vm_size_t);
kern_return_t vm_protect (mach_port_t, vm_address_t, vm_size_t, boolean_t, vm_prot_t);
kern_return_t vm_remap (mach_port_t, vm_address_t *, vm_size_t, vm_address_t, int, mach_port_t, vm_address_t, boolean_t, vm_prot_t *, vm_prot_t *, vm_inherit_t);
