/* The heap runs out: the K-th request (and, when it lasts, all those after it) is refused.  Requests made by the driver
   itself while oom_hold > 0 neither count nor fail. */
#ifndef OOM_H
#define OOM_H
extern int oom_hold, oom_lasting, oom_on;
extern long oom_at, oom_n, oom_fired;
extern long *oom_mark;                 /* where the position of the standard error at the first refusal is noted */
int oom_refuse(void);
#endif
