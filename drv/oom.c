#include <errno.h>
#include <stddef.h>
#include <unistd.h>
#include "oom.h"
int oom_hold, oom_lasting, oom_on;
long oom_at, oom_n, oom_fired, *oom_mark;
int oom_refuse(void)
{
	if (!oom_on || oom_hold) return 0;
	long n = __atomic_add_fetch(&oom_n, 1, __ATOMIC_SEQ_CST);
	if (oom_at == 0 || !(n == oom_at || (oom_lasting && n > oom_at))) return 0;
	if (__atomic_fetch_add(&oom_fired, 1, __ATOMIC_SEQ_CST) == 0 && oom_mark != NULL)
		*oom_mark = lseek(2, 0, SEEK_CUR);
	errno = ENOMEM;
	return 1;
}
