// runs a program and reports its exit code and the peak of its resident memory in KB on stderr
#include <stdio.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

int main(int argc, char **argv)
{
	if (argc < 2) return 2;
	pid_t pid = fork();
	if (pid == 0)
	{
		execv(argv[1], argv + 1);
		_exit(127);
	}
	int st = 0;
	struct rusage use;
	if (pid < 0 || wait4(pid, &st, 0, &use) != pid) return 3;
	fprintf(stderr, "PEAK %d %ld\n", WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st), use.ru_maxrss);
	return 0;
}
