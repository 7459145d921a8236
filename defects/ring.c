/* F1 F2 F3: concrete demonstrations against the real ring */
#include "circular_buffer.h"
#include <stdio.h>
#include <string.h>
int main(void){
  uint8_t store[8+1]={0}, *a,*b; uint32_t al,bl,n; circ_buf_t c; int bad=0;
  circ_buf_init(&c,store,8);
  circ_buf_alloc(&c,4,&a,&al,&b,&bl); circ_buf_free(&c,3,&n); circ_buf_alloc(&c,4,&a,&al,&b,&bl);
  circ_buf_alloc(&c,1,&a,&al,&b,&bl);
  if(!(a<store+8 && al==1)) {printf("F1 reservation outside the store: seg1=+%ld len %u\n",(long)(a-store),al);bad=1;}
  circ_buf_init(&c,store,8);
  circ_buf_alloc(&c,6,&a,&al,&b,&bl); circ_buf_free(&c,5,&n); circ_buf_alloc(&c,5,&a,&al,&b,&bl); /* wrapped: start 5, stop 3 */
  circ_buf_trim(&c,1);
  if(c.stop_ind>7||circ_buf_in_use(&c)!=1){printf("F2 trim: stop=%u in_use=%u\n",c.stop_ind,circ_buf_in_use(&c));bad=1;}
  circ_buf_init(&c,store,8);
  circ_buf_alloc(&c,6,&a,&al,&b,&bl); circ_buf_free(&c,4,&n); circ_buf_alloc(&c,5,&a,&al,&b,&bl); /* start 4 stop 3, in use 7 */
  for(int i=0;i<7;i++) store[(4+i)%8]=10+i;
  uint8_t out[8]; circ_buf_read_offset(&c,3,out,4,&n);
  if(n!=4||out[0]!=13||out[1]!=14||out[2]!=15||out[3]!=16){printf("F3 read at offset: %u bytes %d %d %d %d\n",n,out[0],out[1],out[2],out[3]);bad=1;}
  return bad; }
