// Runs the whole compiler inside a libFuzzer target. The objects of the program are linked with main and exit renamed.
#include <fcntl.h>
#include <setjmp.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <string>

extern "C" int pg_main(int argc, char **argv);

static jmp_buf out;
static int status = 0;
static std::string input, target;

extern "C" __attribute__((noreturn)) void pg_exit(int code)
{
    status = code;
    longjmp(out, 1);
}

extern "C" int LLVMFuzzerInitialize(int *, char ***)
{
    const char *d = getenv("PG_FUZZ_DIR");
    std::string dir = d ? d : ".";
    char tmp[64];
    snprintf(tmp, sizeof(tmp), "/in-%d.proto", (int) getpid());
    input = dir + tmp;
    target = "/dev/null";
    return 0;
}

static int call(const char *a, const char *b)
{
    char *argv[4] = { (char*) "protogen", (char*) a, (char*) b, nullptr };
    if (setjmp(out) == 0) status = pg_main(3, argv);
    return status;
}

extern "C" int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n)
{
    int fd = open(input.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    if (fd < 0) { perror("open"); _Exit(3); }
    if (write(fd, d, n) != (ssize_t) n) { perror("write"); _Exit(3); }
    close(fd);
    int rc = call(input.c_str(), target.c_str());
    if (rc != 0 && rc != 1) { fprintf(stderr, "ERROR: exit status %d\n", rc); abort(); }
    return 0;
}
