#define _GNU_SOURCE
// Runs toycc's cc1 in a forked child for every line of the job list
//   <stderr file> <timeout seconds> <arg> <arg> ...      (tab separated)
// and prints "<index> <kind> <value> <stderr size> <max rss KiB>" per job, where kind is
// E (exited with value), S (killed by signal value) or T (timed out).
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

int toycc_main(int argc, const char **argv);

int main(int argc, char **argv)
{
	static char line[1 << 16];
	FILE *in = fopen(argv[1], "r");
	if (!in)
		return 2;
	for (int idx = 0; fgets(line, sizeof line, in); idx++) {
		char *args[256];
		int n = 0;
		line[strcspn(line, "\n")] = 0;
		for (char *p = strtok(line, "\t"); p && n < 250; p = strtok(NULL, "\t"))
			args[n++] = p;
		args[n] = NULL;
		int limit = atoi(args[1]);
		fflush(stdout);
		pid_t pid = fork();
		if (pid == 0) {
			int fd = open(args[0], O_WRONLY | O_CREAT | O_TRUNC, 0600);
			int nul = open("/dev/null", O_RDWR);
			dup2(nul, 0);
			dup2(nul, 1);
			dup2(fd, 2);
			fclose(in);
			struct rlimit rl = { 64 << 20, 64 << 20 };
			setrlimit(RLIMIT_FSIZE, &rl);
			rl.rlim_cur = rl.rlim_max = 0;
			setrlimit(RLIMIT_CORE, &rl);
			args[1] = argv[0];
			exit(toycc_main(n - 1, (const char **)args + 1));
		}
		int status = 0, timed = 0;
		struct rusage ru;
		struct timespec t0, t;
		clock_gettime(CLOCK_MONOTONIC, &t0);
		unsigned nap = 100;
		for (;;) {
			pid_t r = wait4(pid, &status, WNOHANG, &ru);
			if (r == pid)
				break;
			clock_gettime(CLOCK_MONOTONIC, &t);
			if (!timed && t.tv_sec - t0.tv_sec >= limit) {
				timed = 1;
				kill(pid, SIGKILL);
			}
			usleep(nap);
			if (nap < 2000)
				nap += 100;
		}
		struct stat st = {0};
		stat(args[0], &st);
		if (timed)
			printf("%d T 0 %ld %ld\n", idx, (long)st.st_size, ru.ru_maxrss);
		else if (WIFSIGNALED(status))
			printf("%d S %d %ld %ld\n", idx, WTERMSIG(status), (long)st.st_size, ru.ru_maxrss);
		else
			printf("%d E %d %ld %ld\n", idx, WEXITSTATUS(status), (long)st.st_size, ru.ru_maxrss);
	}
	return 0;
}
