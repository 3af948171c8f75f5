/* A process that receives signals for the kill check. It blocks every signal
   and reports each one it gets on standard output, as "number\n". Signal 44
   means: report what is still pending, then "done". */
#define _GNU_SOURCE
#include <signal.h>
#include <stdio.h>
#include <string.h>
#include <time.h>
#include <unistd.h>

int main(void) {
	sigset_t all;
	sigfillset(&all);
	sigprocmask(SIG_SETMASK, &all, NULL);
	pid_t parent = getppid();
	setvbuf(stdout, NULL, _IOLBF, 0);
	printf("ready\n");
	for (;;) {
		siginfo_t si;
		struct timespec sec = {1, 0};
		int s = sigtimedwait(&all, &si, &sec);
		if (s < 0) {
			if (getppid() != parent)
				return 0; /* nobody is there to hear from us */
			continue;
		}
		if (s == 44 && si.si_code == SI_QUEUE) {
			struct timespec z = {0, 0};
			while ((s = sigtimedwait(&all, &si, &z)) > 0)
				printf("%d\n", s);
			printf("done\n");
			continue;
		}
		printf("%d\n", s);
	}
}
