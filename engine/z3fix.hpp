// The solver's test for perfect squares doubles and bisects on arbitrarily long
// integers without looking at the time limit; on the models of nonlinear
// problems (tens of thousands of digits) it runs for minutes.  Its answer is
// only used to try a nicer model, so long numbers are reported as not square.
// Nothing happens when the library does not look as expected.
#include <cstdint>
#include <cstring>
#include <dlfcn.h>
#include <elf.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <z3.h>

namespace z3fix {
struct Cell {
    unsigned size, capacity;
};
struct Mpz {
    int val;
    unsigned kind : 1;
    Cell *ptr;
};
typedef bool (*Fn)(void *, const Mpz *, Mpz *);
static Fn Original;
static bool square(void *m, const Mpz *a, Mpz *root)
{
    if (a->kind && a->ptr && a->ptr->size > 64)
        return false;
    return Original(m, a, root);
}
static void jump(unsigned char *at, const void *to)
{
    static const unsigned char op[] = {0xff, 0x25, 0, 0, 0, 0};
    memcpy(at, op, 6);
    memcpy(at + 6, &to, 8);
}
static void patch(unsigned char *f)
{
    static const unsigned char head[] = {0x41, 0x57, 0x41, 0x56, 0x41, 0x55, 0x41, 0x54, 0x55, 0x53, 0x48, 0x81, 0xec};
    if (memcmp(f, head, sizeof head) != 0)
        return;
    unsigned char *t = (unsigned char *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE | PROT_EXEC,
                                             MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (t == MAP_FAILED)
        return;
    memcpy(t, f, 17);
    jump(t + 17, f + 17);
    uintptr_t pg = (uintptr_t)f & ~(uintptr_t)4095;
    if (mprotect((void *)pg, 8192, PROT_READ | PROT_WRITE | PROT_EXEC) != 0)
        return;
    Original = (Fn)t;
    jump(f, (void *)square);
    mprotect((void *)pg, 8192, PROT_READ | PROT_EXEC);
}
static void install()
{
    Dl_info di;
    if (!dladdr((void *)Z3_solver_check, &di))
        return;
    int fd = open(di.dli_fname, O_RDONLY);
    struct stat st;
    if (fd < 0)
        return;
    if (fstat(fd, &st) == 0) {
        const char *b = (const char *)mmap(nullptr, st.st_size, PROT_READ, MAP_PRIVATE, fd, 0);
        if (b != MAP_FAILED) {
            auto *eh = (const Elf64_Ehdr *)b;
            auto *sh = (const Elf64_Shdr *)(b + eh->e_shoff);
            for (int i = 0; i < eh->e_shnum; i++) {
                if (sh[i].sh_type != SHT_SYMTAB)
                    continue;
                const char *str = b + sh[sh[i].sh_link].sh_offset;
                auto *sy        = (const Elf64_Sym *)(b + sh[i].sh_offset);
                for (size_t k = 0; k < sh[i].sh_size / sizeof *sy; k++)
                    if (strcmp(str + sy[k].st_name, "_ZN11mpz_managerILb1EE17is_perfect_squareERK3mpzRS1_") == 0)
                        patch((unsigned char *)di.dli_fbase + sy[k].st_value);
            }
            munmap((void *)b, st.st_size);
        }
    }
    close(fd);
}
} // namespace z3fix
