/* Turning logging on changed the error codes calls report: the first message of a process that does not write to a terminal
   left ENOTTY in errno, which the caller of rmc_log() then returned.
   gcc -I/repo defects/log_errno.c /repo/_build/librmc.a; run with stdout redirected to a file: exit 0 when right. */
#include "rmc_internal.h"
#include <errno.h>
#include <stdio.h>
#include <unistd.h>
extern int rmc_set_log_level(int);
int main()
{
    rmc_pub_context_t* c = 0; int res;
    rmc_pub_init_context(&c, 9, "224.0.0.1", 5555, "127.0.0.1", "127.0.0.1", 0, user_data_nil(), 0, 0, 0, 4, 0);
    c->mcast_send_descriptor = 999; /* not open */
    rmc_set_log_level(3);
    res = rmc_pub_set_multicast_ttl(c, 1);
    fprintf(stderr, "rmc_pub_set_multicast_ttl: %d, expected %d\n", res, EBADF);
    return res != EBADF;
}
