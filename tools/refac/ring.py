F="circular_buffer.c"
REFACS=[
 ("ring1", [
  (F, """    if (circ_buf->stop_ind >= circ_buf->start_ind)
        return circ_buf->stop_ind - circ_buf->start_ind;

    return buf_size - circ_buf->start_ind + circ_buf->stop_ind;""",
"""    uint32_t start = circ_buf->start_ind, stop = circ_buf->stop_ind;

    return (stop < start)?(buf_size - start + stop):(stop - start);"""),
  (F, """    if (buf_size - circ_buf->stop_ind >= len) {
        *segment1 = &circ_buf->buffer[circ_buf->stop_ind];
        *segment1_len = len;
        *segment2 = 0;
        *segment2_len = 0;
        circ_buf->stop_ind += len;

        // An exact fit wraps stop_ind back to the start of the buffer.
        if (circ_buf->stop_ind == buf_size)
            circ_buf->stop_ind = 0;

        return 0;
    }

    // We need two segments. Setup the first one.
    *segment1 = &circ_buf->buffer[circ_buf->stop_ind];
    *segment1_len = buf_size - circ_buf->stop_ind;
    len -= *segment1_len;

    // Setup second segment
    *segment2 = circ_buf->buffer;
    *segment2_len = len;

    // Update (wrapped) stop.
    circ_buf->stop_ind = len;

    return 0;""",
"""    *segment1 = circ_buf->buffer + circ_buf->stop_ind;
    *segment1_len = RMC_MIN(len, buf_size - circ_buf->stop_ind);
    *segment2_len = len - *segment1_len;
    *segment2 = *segment2_len ? circ_buf->buffer : 0;
    circ_buf->stop_ind = (circ_buf->stop_ind + len) % buf_size;

    return 0;"""),
  (F, """    circ_buf->start_ind += size;
    circ_buf->start_ind %= circ_buf->size;

    if (in_use)
        *in_use = len - size;
""", """    if (circ_buf->size - circ_buf->start_ind > size)
        circ_buf->start_ind += size;
    else
        circ_buf->start_ind = size - (circ_buf->size - circ_buf->start_ind);

    if (in_use)
        *in_use = circ_buf_in_use(circ_buf);
"""),
  (F, """    circ_buf->stop_ind = (circ_buf->start_ind + target_len) % circ_buf->size;
    return;""", """    {
        uint32_t stop = circ_buf->start_ind + target_len;
        if (stop >= circ_buf->size)
            stop -= circ_buf->size;
        circ_buf->stop_ind = stop;
    }"""),
  ]),
 ("ring2", [
  (F, """    if (circ_buf->stop_ind >= start_ind) {
        memcpy(target, circ_buf->buffer + start_ind, len);

        if (bytes_read)
            *bytes_read = len;

        return 0;
    }
""", ""),
  (F, """int circ_buf_read_segment(circ_buf_t* circ_buf,""", """static uint32_t tail_room(circ_buf_t* cb)
{
    return cb->size - cb->start_ind;
}

int circ_buf_read_segment(circ_buf_t* circ_buf,"""),
  (F, """    *segment1 = circ_buf->buffer + circ_buf->start_ind;
    *segment1_len = RMC_MIN(len, circ_buf->size - circ_buf->start_ind);

    // Do we even need to set segment2?
    if (len <= circ_buf->size - circ_buf->start_ind) {
        *segment2 = 0;
        *segment2_len = 0;
        return 0;
    }

    len -= circ_buf->size - circ_buf->start_ind;

    *segment2 = circ_buf->buffer;
    *segment2_len = len;

    return 0;""", """    *segment1 = circ_buf->buffer + circ_buf->start_ind;
    if (len > tail_room(circ_buf)) {
        *segment1_len = tail_room(circ_buf);
        *segment2 = circ_buf->buffer;
        *segment2_len = len - *segment1_len;
    } else {
        *segment1_len = len;
        *segment2 = 0;
        *segment2_len = 0;
    }

    return 0;"""),
  (F, """    if (!size)  {
        if (in_use)
            *in_use = circ_buf_in_use(circ_buf);
        return 0;
    }

    len = circ_buf_in_use(circ_buf);
""", """    len = circ_buf_in_use(circ_buf);
"""),
  ]),
 ("ring3", [
  (F, "        memcpy(target, circ_buf->buffer + start_ind, len);\n", "        uint32_t i = 0;\n        for (i = 0; i < len; ++i)\n            target[i] = circ_buf->buffer[start_ind + i];\n"),
  (F, "    memcpy(target + copied_bytes, circ_buf->buffer, segment_len);\n", "    memmove(&target[copied_bytes], &circ_buf->buffer[0], segment_len);\n"),
  (F, "    circ_buf->start_ind = 0;\n    circ_buf->stop_ind = 0;\n    circ_buf->buffer = buffer;\n    circ_buf->size = buffer_size;", "    *circ_buf = (circ_buf_t) { .start_ind = 0, .stop_ind = 0, .size = buffer_size, .buffer = buffer };"),
  ]),
]
