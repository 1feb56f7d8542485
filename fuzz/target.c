/*
 * Coverage-guided fuzzing of the whole assembler, in process.
 *
 * The assembler is compiled with main renamed to asm6809_main and exit to
 * fuzz_exit; its writable data is put in sections of its own (see build.py),
 * which are restored before every run, so that runs do not affect one another.
 *
 * Input: two bytes of options, then source text; 0xff bytes separate files
 * (main.s, a.s, b.s).
 *
 * Oracle: the run ends with status 0 or 1, and prints a diagnostic if 1; the
 * sanitizers watch memory.  Everything found is confirmed by the real program.
 */

#include "config.h"

#include <getopt.h>
#include <setjmp.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>

int asm6809_main(int argc, char **argv);

extern char __start_asmdata[] __attribute__((weak)), __stop_asmdata[] __attribute__((weak));
extern char __start_asmbss[] __attribute__((weak)), __stop_asmbss[] __attribute__((weak));

static char *saved_data, *saved_bss;
static jmp_buf back;
static int status;

void fuzz_exit(int s) {
	status = s;
	longjmp(back, 1);
}

/* not memcpy: the sections contain redzones */
static void copy(char *d, char const *s, size_t n) {
	__asm__ volatile ("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
}

int LLVMFuzzerInitialize(int *argc, char ***argv) {
	(void)argc; (void)argv;
	char const *dir = getenv("ASMV_FUZZ_DIR");
	if (!dir || chdir(dir))
		abort();
	size_t nd = __stop_asmdata - __start_asmdata, nb = __stop_asmbss - __start_asmbss;
	saved_data = malloc(nd + 1);
	saved_bss = malloc(nb + 1);
	copy(saved_data, __start_asmdata, nd);
	copy(saved_bss, __start_asmbss, nb);
	return 0;
}

static void put(char const *name, uint8_t const *d, size_t n) {
	int fd = open(name, O_WRONLY | O_CREAT | O_TRUNC, 0600);
	if (fd < 0)
		abort();
	if (write(fd, d, n) != (ssize_t)n)
		abort();
	close(fd);
}

int LLVMFuzzerTestOneInput(uint8_t const *data, size_t size) {
	static char const *const fmts[] = { "-B", "-D", "-C", "-S", "-H", "-B", "-C", "-S" };
	if (size < 2 || memchr(data + 2, 0, size - 2))
		return 0;
	static char *argv[32];
	int argc = 0;
	argv[argc++] = "asm6809";
	argv[argc++] = (char *)fmts[data[0] & 7];
	if (data[0] & 8) argv[argc++] = "--6309";
	if (data[0] & 16) argv[argc++] = "-q";
	if (data[0] & 32) argv[argc++] = "-v";
	if (data[0] & 64) { argv[argc++] = "--setdp"; argv[argc++] = "32"; }
	if (data[0] & 128) { argv[argc++] = "-d"; argv[argc++] = "DEF=3"; }
	if (data[1] & 1) { argv[argc++] = "-l"; argv[argc++] = "out.lst"; }
	if (data[1] & 2) { argv[argc++] = "-s"; argv[argc++] = "out.sym"; }
	if (data[1] & 4) { argv[argc++] = "-E"; argv[argc++] = "out.exp"; }
	if (!(data[1] & 8)) { argv[argc++] = "-o"; argv[argc++] = "out"; }
	if (data[1] & 16) { argv[argc++] = "-e"; argv[argc++] = "start"; }
	if (data[1] & 32) { argv[argc++] = "-P"; argv[argc++] = "3"; }
	argv[argc++] = "main.s";
	if (data[1] & 64) argv[argc++] = "a.s";
	argv[argc] = NULL;
	static char const *const names[] = { "main.s", "a.s", "b.s" };
	uint8_t const *p = data + 2, *end = data + size;
	for (int i = 0; i < 3; i++) {
		uint8_t const *e = p < end ? memchr(p, 0xff, end - p) : NULL;
		if (!e || i == 2)
			e = end;
		put(names[i], p, e - p);
		p = e < end ? e + 1 : end;
	}

	copy(__start_asmdata, saved_data, __stop_asmdata - __start_asmdata);
	copy(__start_asmbss, saved_bss, __stop_asmbss - __start_asmbss);
	optind = 0;
	char *msg = NULL;
	size_t nmsg = 0;
	FILE *real = stderr, *realout = stdout;
	stderr = open_memstream(&msg, &nmsg);
	stdout = fopen("/dev/null", "w");
	if (!setjmp(back)) {
		status = asm6809_main(argc, argv);
	}
	fclose(stderr);
	fclose(stdout);
	stderr = real;
	stdout = realout;
	if (status != 0 && status != 1) {
		fprintf(stderr, "exit status %d\n", status);
		abort();
	}
	if (status == 1 && nmsg == 0) {
		fprintf(stderr, "failed without a diagnostic\n");
		abort();
	}
	free(msg);
	return 0;
}
