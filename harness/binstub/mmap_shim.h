#include <sys/mman.h>
#include <stdexcept>
extern "C" void *verif_mmap(void *, size_t, int, int, int, off_t);
#define mmap verif_mmap
