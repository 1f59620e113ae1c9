/* A stand-in for cargo, as far as `lapex-cli debug` uses it: `init`, `build` and `run`.
 *
 * Linked statically, so that it is not part of the simulated process.  What it does is a function of
 * its environment: SIMCARGO_MODE lets it fail or die, SIMCARGO_NEST names a file with another command
 * that runs to its end while the caller waits.  Programs are compiled once: they are looked up by the
 * hash of their sources below SIMCARGO_CACHE; unknown sources are left in SIMCARGO_MISS.
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

static const char *env(const char *n) {
    const char *v = getenv(n);
    return v ? v : "";
}
static void put(const char *path, const char *text, mode_t mode) {
    int fd = open(path, O_WRONLY | O_CREAT | O_TRUNC, mode);
    if (fd < 0 || write(fd, text, strlen(text)) < 0) {
        fprintf(stderr, "error: %s: %s\n", path, strerror(errno));
        exit(101);
    }
    close(fd);
}
static char *get(const char *path, size_t *n) {
    int fd = open(path, O_RDONLY);
    struct stat st;
    if (fd < 0 || fstat(fd, &st) < 0) return 0;
    char *b = malloc((size_t)st.st_size + 1);
    *n = 0;
    for (;;) {
        ssize_t k = read(fd, b + *n, (size_t)st.st_size - *n);
        if (k <= 0) break;
        *n += (size_t)k;
    }
    close(fd);
    b[*n] = 0;
    return b;
}
static int copy(const char *from, const char *to, mode_t mode) {
    size_t n;
    char *b = get(from, &n);
    if (!b) return 0;
    int fd = open(to, O_WRONLY | O_CREAT | O_TRUNC, mode);
    if (fd < 0) return 0;
    for (size_t k = 0; k < n;) {
        ssize_t w = write(fd, b + k, n - k);
        if (w <= 0) return 0;
        k += (size_t)w;
    }
    close(fd);
    free(b);
    return 1;
}

/* cwd, console file, program, then arguments up to an empty line, then the environment */
static void nested(const char *file) {
    size_t n;
    char *b = get(file, &n), *line[256], *av[128], *ev[128];
    int k = 0, a = 0, e = 0, i = 2;
    if (!b) exit(97);
    for (char *s = b; *s && k < 255;) {
        line[k++] = s;
        char *z = strchr(s, '\n');
        if (!z) break;
        *z = 0;
        s = z + 1;
    }
    for (; i < k && *line[i]; i++) av[a++] = line[i];
    av[a] = 0;
    for (i++; i < k; i++)
        if (*line[i]) ev[e++] = line[i];
    ev[e] = 0;
    pid_t p = fork();
    if (p == 0) {
        int fd = open(line[1], O_WRONLY | O_CREAT | O_TRUNC, 0644);
        dup2(fd, 1);
        dup2(fd, 2);
        if (chdir(line[0]) < 0) _exit(97);
        alarm(100);
        execve(av[0], av, ev);
        _exit(97);
    }
    int st = 0;
    waitpid(p, &st, 0);
    char t[4096];
    snprintf(t, sizeof t, "%s.end", file);
    char v[64];
    snprintf(v, sizeof v, "%d\n", st);
    put(t, v, 0644);
}

static int names(const struct dirent *d) {
    size_t n = strlen(d->d_name);
    return n > 3 && !strcmp(d->d_name + n - 3, ".rs");
}

static void package(void) {
    if (access("Cargo.toml", F_OK) == 0) {
        fprintf(stderr, "error: `cargo init` cannot be run on existing Cargo packages\n");
        exit(101);
    }
    fprintf(stderr, "    Creating binary (application) package\n");
    mkdir("src", 0755);
    if (access("src/main.rs", F_OK) && access("src/lib.rs", F_OK)) put("src/main.rs", "fn main() {\n    println!(\"Hello, world!\");\n}\n", 0644);
    put("Cargo.toml", "[package]\nname = \"generated\"\nversion = \"0.1.0\"\nedition = \"2024\"\n\n[dependencies]\n", 0644);
    put(".gitignore", "/target\n", 0644);
    mkdir(".git", 0755);
    mkdir(".git/objects", 0755);
    mkdir(".git/objects/pack", 0755);
    mkdir(".git/refs", 0755);
    put(".git/HEAD", "ref: refs/heads/master\n", 0644);
    put(".git/objects/pack/pack-1.idx", "idx", 0444);
}

static void program(int start) {
    struct dirent **d;
    char t[4096], bin[4096];
    uint64_t h = 1469598103934665603ull;
    if (access("Cargo.toml", F_OK) || access("src/main.rs", F_OK)) {
        fprintf(stderr, "error: could not find `Cargo.toml` in the current directory or any parent directory\n");
        exit(101);
    }
    int n = scandir("src", &d, names, alphasort);
    for (int i = 0; i < n; i++) {
        snprintf(t, sizeof t, "src/%s", d[i]->d_name);
        size_t k;
        unsigned char *b = (unsigned char *)get(t, &k);
        if (!b) exit(101);
        for (char *s = t; *s; s++) h = (h ^ (unsigned char)*s) * 1099511628211ull;
        for (size_t j = 0; j < k; j++) h = (h ^ b[j]) * 1099511628211ull;
        h = (h ^ k) * 1099511628211ull;
    }
    put("Cargo.lock", "version = 4\n", 0644);
    mkdir("target", 0755);
    mkdir("target/debug", 0755);
    mkdir("target/debug/.fingerprint", 0755);
    put("target/.rustc_info.json", "{}", 0644);
    put("target/CACHEDIR.TAG", "Signature: 8a477f597d28d172789f06886806bc55\n", 0444);
    if (symlink("../../../../..", "target/debug/incremental") < 0) { /* as build trees on other disks have them */
    }
    snprintf(t, sizeof t, "%s/%016lx.bad", env("SIMCARGO_CACHE"), (unsigned long)h);
    if (access(t, F_OK) == 0) {
        fprintf(stderr, "error: could not compile `generated` (bin \"generated\")\n");
        exit(101);
    }
    snprintf(bin, sizeof bin, "%s/%016lx.bin", env("SIMCARGO_CACHE"), (unsigned long)h);
    if (access(bin, X_OK)) {
        snprintf(t, sizeof t, "%s/%016lx", env("SIMCARGO_MISS"), (unsigned long)h);
        mkdir(t, 0755);
        for (int i = 0; i < n; i++) {
            char from[4096];
            snprintf(from, sizeof from, "src/%s", d[i]->d_name);
            snprintf(t, sizeof t, "%s/%016lx/%s", env("SIMCARGO_MISS"), (unsigned long)h, d[i]->d_name);
            if (!copy(from, t, 0644)) exit(97);
        }
        fprintf(stderr, "error: not compiled yet\n");
        exit(101);
    }
    fprintf(stderr, "    Finished `dev` profile [unoptimized + debuginfo] target(s) in 0.00s\n");
    if (!start) {
        if (!copy(bin, "target/debug/generated", 0755)) exit(97);
        exit(0);
    }
    if (symlink(bin, "target/debug/generated") < 0) { /* was there */
    }
    fprintf(stderr, "     Running `target/debug/generated`\n");
    char *av[] = {"target/debug/generated", 0}, *ev[] = {0};
    execve(bin, av, ev);
    exit(97);
}

int main(int c, char **v) {
    char cwd[4096] = "", line[8192];
    const char *sub = "", *mode = env("SIMCARGO_MODE");
    for (int i = 1; i < c; i++)
        if (v[i][0] != '-' && v[i][0] != '+') {
            sub = v[i];
            break;
        }
    if (!getcwd(cwd, sizeof cwd)) strcpy(cwd, "?");
    int n = snprintf(line, sizeof line, "cargo %s @ %s\n", sub, cwd);
    int fd = open(env("SIMCARGO_LOG"), O_WRONLY | O_CREAT | O_APPEND, 0644);
    if (fd < 0 || write(fd, line, (size_t)n) < 0) exit(97);
    close(fd);
    if (*env("SIMCARGO_NEST") && !strcmp(env("SIMCARGO_NEST_AT"), sub)) nested(env("SIMCARGO_NEST"));
    if (!strncmp(mode, sub, strlen(sub)) && mode[strlen(sub)] == '-') {
        if (!strcmp(mode + strlen(sub), "-kill")) kill(getpid(), SIGKILL);
        fprintf(stderr, "error: no space left on device\n");
        return 101;
    }
    if (!strcmp(sub, "init")) package();
    else if (!strcmp(sub, "run")) program(1);
    else if (!strcmp(sub, "build")) program(0);
    else {
        fprintf(stderr, "error: no such command: `%s`\n", sub);
        return 101;
    }
    return 0;
}
