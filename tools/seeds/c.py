RB = '#include "circular_buffer.h"\n#include <stdio.h>\n#include <string.h>\nint main(void){ uint8_t st[16]={0},*a,*b,o[16]; uint32_t al,bl,n; circ_buf_t c; circ_buf_init(&c,st,8);\n'
SEEDS = [
 dict(id="C03-free-wrap", property="C03", needs="a discard that moves the read position exactly onto the end of the store while data is wrapped",
      breaks="circ_buf_free leaves start_ind == size instead of wrapping to 0, so the next read starts behind the store",
      edits=[("circular_buffer.c", "    circ_buf->start_ind += size;\n    circ_buf->start_ind %= circ_buf->size;\n",
              "    circ_buf->start_ind += size;\n    if (circ_buf->start_ind > circ_buf->size)\n        circ_buf->start_ind -= circ_buf->size;\n")],
      demo=RB + 'circ_buf_alloc(&c,6,&a,&al,&b,&bl); circ_buf_free(&c,5,&n); circ_buf_alloc(&c,5,&a,&al,&b,&bl); circ_buf_free(&c,3,&n);\nif (c.start_ind>=8||n!=3){printf("start %u left %u\\n",c.start_ind,n);return 1;} return 0; }\n', srcs="circular_buffer.c"),
 dict(id="C02-segment-limit", property="C02", needs="a limited segment view over wrapped data",
      breaks="circ_buf_read_segment exposes all wrapped bytes although fewer were asked for",
      edits=[("circular_buffer.c", "    *segment2 = circ_buf->buffer;\n    *segment2_len = len;\n\n    return 0;\n}\n", "@@")],
      demo=None),
 dict(id="C01-spill", property="C01", needs="a reservation exactly one byte longer than the room up to the end of the store, with free space at the start",
      breaks="the reservation is granted as one segment that ends one byte behind the store",
      edits=[("circular_buffer.c", "    if (buf_size - circ_buf->stop_ind >= len) {", "    if (buf_size - circ_buf->stop_ind + (circ_buf->start_ind > 1) >= len) {")],
      demo=RB + 'circ_buf_alloc(&c,6,&a,&al,&b,&bl); circ_buf_free(&c,5,&n);\nint r=circ_buf_alloc(&c,3,&a,&al,&b,&bl); if(r||a+al>st+8){printf("segment ends at %ld of 8\\n",(long)(a+al-st));return 1;} return 0; }\n', srcs="circular_buffer.c"),
]
SEEDS[1]["edits"] = [("circular_buffer.c", "    len -= circ_buf->size - circ_buf->start_ind;\n\n", "    len = circ_buf->stop_ind;\n\n")]
SEEDS[1]["demo"] = RB + 'circ_buf_alloc(&c,6,&a,&al,&b,&bl); circ_buf_free(&c,5,&n); circ_buf_alloc(&c,6,&a,&al,&b,&bl);\ncirc_buf_read_segment(&c,4,&a,&al,&b,&bl); if(al+bl!=4){printf("view of %u bytes, asked for 4\\n",al+bl);return 1;} return 0; }\n'
SEEDS[1]["srcs"] = "circular_buffer.c"
