// Stands in for the ucd-generate tool. SIM_MODE is "ok", "exit:CODE:BYTES" or "kill:SIGNAL:BYTES".
// The Unicode version and the checksum to expect come from the extracted database; its table is read from SIM_DIR.
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <unistd.h>
static const char *groups[] = {"Cased_Letter", "Letter", "Mark", "Number", "Other", "Punctuation", "Separator", "Symbol"};
static const char *excluded = "";
static int is_excluded(const char *name, size_t n) {
    for (const char *p = excluded; *p;) {
        size_t k = strcspn(p, ",");
        if (k == n && !strncasecmp(p, name, n)) return 1;
        p += k + (p[k] == ',');
    }
    return 0;
}
int main(int argc, char **argv) {
    const char *dir = getenv("SIM_DIR"), *mode = getenv("SIM_MODE"), *suffix = getenv("SIM_SUFFIX");
    char path[4096], version[32], want[64], got[64];
    if (argc < 3 || strcmp(argv[1], "general-category") || !dir || !mode || !suffix) return 2;
    snprintf(path, sizeof path, "%s/DerivedGeneralCategory.txt", argv[2]);
    FILE *f = fopen(path, "rb");
    if (!f) {
        fprintf(stderr, "%s: no such file\n", path);
        return 1;
    }
    uint64_t h = 0, n = 0;
    int c, ok = fscanf(f, "# %31s %63s", version, want) == 2 && getc(f) == '\n';
    while (ok && (c = getc(f)) != EOF) h = (h ^ (uint64_t)c) * 0x100000001b3ull, n++;
    fclose(f);
    snprintf(got, sizeof got, "%llx:%llu", (unsigned long long)h, (unsigned long long)n);
    if (!ok || strcmp(got, want)) {
        fprintf(stderr, "%s: error on line 1\n", path);
        return 1;
    }
    printf("// DO NOT EDIT THIS FILE. IT WAS AUTOMATICALLY GENERATED BY:\n//\n//   ucd-generate");
    for (int i = 1; i < argc; i++) printf(" %s", argv[i]);
    printf("\n//\n// Unicode version: %s.\n//\n// ucd-generate 0.2.15 is available on crates.io.\n\n", version);
    long limit = -1, code = 0;
    if (strcmp(mode, "ok")) sscanf(strchr(mode, ':') + 1, "%ld:%ld", &code, &limit);
    snprintf(path, sizeof path, "%s/%s%s", dir, version, suffix);
    if (!(f = fopen(path, "rb"))) return 3;
    for (int i = 3; i < argc; i++)
        if (!strncmp(argv[i], "--exclude=", 10)) excluded = argv[i] + 10;
        else if (!strcmp(argv[i], "--exclude") && i + 1 < argc) excluded = argv[i + 1];
    char line[4096];
    int skip = 0;
    for (long out = 0; fgets(line, sizeof line, f);) {
        size_t n = strlen(line);
        if (!strncmp(line, "    (\"", 6) && is_excluded(line + 6, strcspn(line + 6, "\""))) continue;
        if (!strncmp(line, "pub const ", 10)) skip = is_excluded(line + 10, strcspn(line + 10, ":"));
        if (skip) continue;
        if (limit >= 0 && out + (long)n > limit) n = (size_t)(limit - out);
        out += (long)fwrite(line, 1, n, stdout);
        if (limit >= 0 && out >= limit) break;
        if (strstr(line, "BY_NAME"))
            for (size_t g = 0; g < sizeof groups / sizeof *groups; g++)
                if (!is_excluded(groups[g], strlen(groups[g]))) {
                    printf("    (\"%s\", ", groups[g]);
                    for (const char *p = groups[g]; *p; p++) putchar(*p >= 'a' && *p <= 'z' ? *p - 32 : *p);
                    printf("),\n");
                }
    }
    fflush(stdout);
    if (!strncmp(mode, "kill", 4)) {
        kill(getpid(), (int)code);
        pause();
    }
    if (!strncmp(mode, "exit", 4)) fprintf(stderr, "error\n");
    return !strncmp(mode, "exit", 4) ? (int)code : 0;
}
