// Included first in every translation unit that is analysed: turns the descriptor-set macros into calls that keep
// their operands visible in the syntax tree.  Behaviour is not affected: nothing is executed.
#if !defined(EIP_SHIM_H)
#define EIP_SHIM_H
#include <sys/select.h>
#include <cstdint>
#undef FD_SET
#undef FD_ZERO
#undef FD_CLR
#undef FD_ISSET
extern "C" void eip_fd_set(int fd, fd_set* s);
extern "C" void eip_fd_zero(fd_set* s);
extern "C" void eip_fd_clr(int fd, fd_set* s);
extern "C" int eip_fd_isset(int fd, const fd_set* s);
#define FD_SET(fd, s) eip_fd_set((fd), (s))
#define FD_ZERO(s) eip_fd_zero((s))
#define FD_CLR(fd, s) eip_fd_clr((fd), (s))
#define FD_ISSET(fd, s) eip_fd_isset((fd), (s))
#endif
