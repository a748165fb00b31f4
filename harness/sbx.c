// Probes of the system call filter. Each probe runs in a child of its own, as an
// unprivileged user in a scratch directory, with the filter installed (or not),
// and makes one raw system call. Commands on standard input:
//   p <f|n> <abi> <nr> <arg>*6     abi: 64 or 32; arg: number in hex, s<text>
//                                  (address of the text), v<k> (address of
//                                  something useful, see below)
// Answers {"fate":"killed|done|none","eff":bits}: fate "done" when the call
// returned (or waited, or ended the process some other way), eff: 1 the scratch
// directory is not as it was, 2 there was more than one process afterwards.
#define _GNU_SOURCE
#include <dirent.h>
#include <fcntl.h>
#include <grp.h>
#include <inttypes.h>
#include <signal.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

void passgen_cli_seccomp_init();

static long raw(uint64_t nr, uint64_t *a) {
    register uint64_t r10 __asm__("r10") = a[3];
    register uint64_t r8 __asm__("r8") = a[4];
    register uint64_t r9 __asm__("r9") = a[5];
    long ret;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(nr), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return ret;
}
static long raw32(uint32_t nr, uint64_t *a) {
    uint32_t ret;
    __asm__ volatile("push %%rbx; mov %1, %%ebx; int $0x80; pop %%rbx" : "=a"(ret)
                     : "r"((uint32_t) a[0]), "0"(nr), "c"((uint32_t) a[1]), "d"((uint32_t) a[2]), "S"((uint32_t) a[3]), "D"((uint32_t) a[4])
                     : "memory", "r8", "r9", "r10", "r11");
    return (int32_t) ret;
}

// what is in the scratch directory
static uint64_t snapshot(void) {
    uint64_t h = 7;
    DIR *d = opendir(".");
    struct dirent *e;
    uint64_t sum = 0;
    while((e = readdir(d))) {
        if(e->d_name[0] == '.') continue;
        h = 1469598103934665603u;
        for(char *c = e->d_name; *c; c++) h = (h ^ (uint8_t) *c) * 1099511628211u;
        struct stat st;
        if(lstat(e->d_name, &st) == 0) {
            h = (h ^ st.st_mode) * 1099511628211u;
            h = (h ^ st.st_size) * 1099511628211u;
            h = (h ^ st.st_nlink) * 1099511628211u;
            h = (h ^ st.st_mtim.tv_sec) * 1099511628211u;
            if(S_ISREG(st.st_mode)) {
                FILE *f = fopen(e->d_name, "r");
                int c;
                while(f && (c = getc(f)) != EOF) h = (h ^ c) * 1099511628211u;
                if(f) fclose(f);
            }
        }
        sum += h;
    }
    closedir(d);
    return sum;
}
static void restore(void) {
    DIR *d = opendir(".");
    struct dirent *e;
    while((e = readdir(d)))
        if(e->d_name[0] != '.' && unlinkat(AT_FDCWD, e->d_name, 0) != 0) unlinkat(AT_FDCWD, e->d_name, AT_REMOVEDIR);
    closedir(d);
    FILE *f = fopen("victim", "w");
    fputs("some text that should stay as it is\n", f);
    fclose(f);
    chmod("victim", 0666);
    struct timespec t[2] = {{1000000000, 0}, {1000000000, 0}};
    utimensat(AT_FDCWD, "victim", t, 0);
}

int main(void) {
    char tmp[] = "sbx-XXXXXX";
    char *base = getenv("SBX_DIR");
    if(base && chdir(base) != 0) return 1;
    if(!mkdtemp(tmp) || chmod(tmp, 0777) != 0 || chdir(tmp) != 0) return 1;
    volatile int *shared = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    static char line[8192];
    while(fgets(line, sizeof(line), stdin)) {
        char *tok[16];
        int n = 0;
        for(char *t = strtok(line, " \n"); t && n < 16; t = strtok(NULL, " \n")) tok[n++] = t;
        if(n < 4) {
            printf("{\"unknown\":1}\n");
            fflush(stdout);
            continue;
        }
        restore();
        uint64_t before = snapshot();
        *shared = 0;
        fflush(stdout);
        pid_t pid = fork();
        if(pid == 0) {
            static char buf[8192];
            static char *args[] = {"touch", "made", NULL};
            static char *none[] = {NULL};
            static struct iovec iov[1];
            static struct timespec now[2];
            iov[0].iov_base = buf;
            iov[0].iov_len = 4;
            now[1].tv_nsec = now[0].tv_nsec = UTIME_NOW;
            setpgid(0, 0);
            int nul = open("/dev/null", O_RDWR);
            dup2(nul, 0);
            dup2(nul, 1);
            dup2(nul, 2);
            close(nul);
            int v = open("victim", O_RDWR); // 7: writable, 8: readable, 9: a directory
            dup2(v, 7);
            close(v);
            v = open("/bin/true", O_RDONLY);
            dup2(v, 8);
            close(v);
            v = open(".", O_RDONLY | O_DIRECTORY);
            dup2(v, 9);
            close(v);
            struct rlimit rl = {0, 0};
            setrlimit(RLIMIT_CORE, &rl);
            rl.rlim_cur = rl.rlim_max = 1 << 20;
            setrlimit(RLIMIT_FSIZE, &rl);
            if(getuid() == 0 && (setgroups(0, NULL) != 0 || setresgid(65534, 65534, 65534) != 0 || setresuid(65534, 65534, 65534) != 0)) _exit(99);
            uint64_t a[6] = {0};
            for(int i = 4; i < n && i < 10; i++) {
                if(tok[i][0] == 's') a[i - 4] = (uintptr_t) (tok[i] + 1);
                else if(tok[i][0] == 'v') {
                    void *p[] = {buf, args, none, iov, now};
                    a[i - 4] = (uintptr_t) p[atoi(tok[i] + 1) % 5];
                } else a[i - 4] = strtoull(tok[i], NULL, 16);
            }
            uint64_t nr = strtoull(tok[3], NULL, 16);
            bool is32 = strcmp(tok[2], "32") == 0;
            alarm(2);
            if(tok[1][0] == 'f') passgen_cli_seccomp_init();
            if(is32) raw32(nr, a);
            else raw(nr, a);
            __sync_fetch_and_add(shared, 1);
            uint64_t x[6] = {42};
            raw(231, x);
        }
        int st = 0;
        // not for ever, whatever the call did to the alarm
        struct timespec nap = {0, 200000};
        bool over = false;
        for(int k = 0; k < 20000 && !over; k++) {
            over = waitpid(pid, &st, WNOHANG) == pid;
            if(!over) nanosleep(&nap, NULL);
        }
        if(!over) {
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
        }
        if(*shared == 1 && (strtoull(tok[3], NULL, 16) & 0xffff) >= 56 && (strtoull(tok[3], NULL, 16) & 0xffff) <= 58) usleep(20000);
        kill(-pid, SIGKILL);
        const char *fate = WIFSIGNALED(st) && WTERMSIG(st) == SIGSYS ? "killed" : "done";
        if(WIFEXITED(st) && WEXITSTATUS(st) == 99) fate = "none";
        printf("{\"fate\":\"%s\",\"eff\":%d}\n", fate, (snapshot() != before ? 1 : 0) | (*shared > 1 ? 2 : 0));
        fflush(stdout);
    }
    restore();
    unlink("victim");
    if(chdir("..") == 0) rmdir(tmp);
    return 0;
}
