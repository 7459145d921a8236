/* K04/P08: the request for write readiness of the multicast channel */
#include "rmc_internal.h"
#include <stdio.h>
#include <string.h>
#include <unistd.h>
#include <arpa/inet.h>
#include <sys/socket.h>
static int reg = -1, act, badfd;
static void add(user_data_t u, int fd, rmc_index_t i, rmc_poll_action_t a){ if (i==RMC_MULTICAST_INDEX){ reg=fd; act=a; } }
static void mod(user_data_t u, int fd, rmc_index_t i, rmc_poll_action_t o, rmc_poll_action_t n){ if (i==RMC_MULTICAST_INDEX){ if (fd!=reg||fd==-1) badfd++; act=n; } }
static void rem(user_data_t u, int fd, rmc_index_t i){ if (i==RMC_MULTICAST_INDEX) reg=-1; }
static void fr(void*p, payload_len_t l, user_data_t u){}
int main(void){
  rmc_pub_context_t* c; int bad=0; struct sockaddr_in sa; socklen_t sl=sizeof sa;
  rmc_pub_init_context(&c, 1, "239.1.1.1", 4711, "127.0.0.1", "127.0.0.1", 0, user_data_u32(0), add, mod, rem, 4, fr);
  rmc_pub_queue_packet(c, "abc", 3, 0);
  if (badfd) { printf("queueing on an inactive context updates a descriptor that is not registered\n"); bad=1; }
  if (rmc_pub_activate_context(c)) { printf("activate\n"); return 2; }
  if (!(act & RMC_POLLWRITE)) { printf("activated with a packet queued: write readiness not requested\n"); bad=1; }
  rmc_pub_queue_packet(c, "abc", 3, 0);
  memset(&sa,0,sizeof sa); sa.sin_family=AF_INET; sa.sin_addr.s_addr=htonl(INADDR_LOOPBACK);
  bind(reg,(struct sockaddr*)&sa,sizeof sa); getsockname(reg,(struct sockaddr*)&sa,&sl);
  int s=socket(AF_INET,SOCK_DGRAM,0); sendto(s,"x",1,0,(struct sockaddr*)&sa,sizeof sa);
  if (rmc_pub_read(c, RMC_MULTICAST_INDEX, 0)) { printf("read\n"); return 2; }
  if (!(act & RMC_POLLWRITE)) { printf("handling loopback input dropped the request for write readiness\n"); bad=1; }
  return bad; }
