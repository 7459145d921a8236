F="circular_buffer.c"; T="rmc_list_template.h"
def B(s):
    """a template body: pad each line with a continuation"""
    return "\n".join(l + " \\" for l in s.strip("\n").split("\n")) + "\n"
src=open("/repo/rmc_list_template.h").read()
def fn(name, upto):
    a=src.index(name); a=src.rindex("\n", 0, a)+1
    return src[a:src.index(upto, a)]
def body(start, end):
    a=src.index(start); b=src.index(end, a+len(start))
    a=src.rindex("\n",0,a)+1; b=src.rindex("\n",0,b)+1
    return src[a:b]
REFACS=[
 ("list1", [
  (T, body("inline NODETYPE* LISTTYPE##_unlink(", "void LISTTYPE##_delete("), B("""
    inline NODETYPE* LISTTYPE##_unlink(NODETYPE* node)
    {
        LISTTYPE* list = 0;
        assert(node);
        list = node->owner;
        assert(list);

        *(node->prev ? &node->prev->next : &list->head) = node->next;
        *(node->next ? &node->next->prev : &list->tail) = node->prev;

        node->owner = 0;
        --list->elem_count;
        return node;
    }
""")),
  (T, body("inline int LISTTYPE##_pop_head(", "inline int LISTTYPE##_pop_tail("), B("""
    inline int LISTTYPE##_pop_head(LISTTYPE* list, DATATYPE* data)
    {
        NODETYPE* first = 0;
        assert(list);
        assert(data);

        first = LISTTYPE##_pop_head_node(list);
        if (first) {
            *data = first->data;
            (*list->free_node)(first, list->user_data);
        }
        return first != 0;
    }
""")),
  (T, body("NODETYPE* LISTTYPE##_find_node(LISTTYPE* list,", "NODETYPE* LISTTYPE##_find_node_rev("), B("""
    NODETYPE* LISTTYPE##_find_node(LISTTYPE* list,
                                   DATATYPE data,
                                   int (*compare_func)(DATATYPE needle,
                                                       DATATYPE haystack,
                                                       void* user_data),
                                   void* user_data)
    {
        NODETYPE* node = 0;
        int res = 0;

        assert(list);
        for(node = list->head; node; node = node->next) {
            res = (*compare_func)(data, node->data, user_data);
            if (res)
                break;
        }
        return (res == -1)?0:node;
    }
""")),
  (T, body("NODETYPE* LISTTYPE##_insert_sorted_node(LISTTYPE* list,", "NODETYPE* LISTTYPE##_insert_sorted_node_rev("), B("""
    NODETYPE* LISTTYPE##_insert_sorted_node(LISTTYPE* list,
                                            NODETYPE* new_node,
                                            int (*compare_func)(DATATYPE new_elem,
                                                                DATATYPE existing_elem,
                                                                void* user_data),
                                            void* user_data)
    {
        NODETYPE* before = 0;

        assert(list);
        before = list->head;
        while(before && (*compare_func)(new_node->data, before->data, user_data) < 0)
            before = before->next;

        return before ? LISTTYPE##_insert_before_node(before, new_node) : LISTTYPE##_push_tail_node(list, new_node);
    }
""")),
  (T, body("inline void LISTTYPE##_empty(", "    }\n" if False else "LISTTYPE##_delete(list->head);"), B("""
    inline void LISTTYPE##_empty(LISTTYPE* list)
    {
        assert(list);

        while(list->head)
""")),
 ]),
 ("list2", [
  (T, body("inline NODETYPE* LISTTYPE##_insert_after_node(", "NODETYPE* LISTTYPE##_insert_after(NODETYPE* next"), B("""
    inline NODETYPE* LISTTYPE##_insert_after_node(NODETYPE* prev, NODETYPE* node)
    {
        assert(prev != 0);
        assert(prev->owner != 0);

        node->prev = prev;
        node->next = prev->next;
        node->owner = prev->owner;

        if (node->next)
            node->next->prev = node;
        else
            node->owner->tail = node;

        prev->next = node;
        node->owner->elem_count += 1;
        return node;
    }
""")),
  (T, body("void LISTTYPE##_for_each_rev(", "NODETYPE* LISTTYPE##_find_node("), B("""
    void LISTTYPE##_for_each_rev(LISTTYPE* list,
                                 uint8_t (*func)(NODETYPE* node, void* user_data),
                                 void* user_data)
    {
        NODETYPE* node = 0;
        assert(list);

        for(node = list->tail; node; node = node->prev)
            if (!(*func)(node, user_data))
                return;
    }
""")),
  (T, body("NODETYPE* LISTTYPE##_insert_sorted_rev(LISTTYPE* list,", "inline void LISTTYPE##_empty("), B("""
    NODETYPE* LISTTYPE##_insert_sorted_rev(LISTTYPE* list,
                                           DATATYPE new_elem,
                                           int (*compare_func)(DATATYPE new_elem,
                                                               DATATYPE existing_elem,
                                                               void* user_data),
                                           void* user_data)
    {
        NODETYPE* node = 0;
        assert(list);

        for(node = list->tail; node && (*compare_func)(new_elem, node->data, user_data) < 0;)
            node = node->prev;

        if (!node)
            return LISTTYPE##_push_head(list, new_elem);

        return LISTTYPE##_insert_after(node, new_elem);
    }
""")),
  (T, body("void LISTTYPE##_delete(", "inline NODETYPE* LISTTYPE##_pop_head_node("), B("""
    void LISTTYPE##_delete(NODETYPE* node)
    {
        LISTTYPE* const list = node->owner;
        (*list->free_node)(LISTTYPE##_unlink(node), list->user_data);
    }
""")),
 ]),
 ("ring4", [
  (F, """    // Can we fit the requested number of bytes into a single segmetn?
    if (buf_size - circ_buf->stop_ind >= len) {
        *segment1 = &circ_buf->buffer[circ_buf->stop_ind];
        *segment1_len = len;
        *segment2 = 0;
        *segment2_len = 0;
        circ_buf->stop_ind += len;

        // An exact fit wraps stop_ind back to the start of the buffer.
        if (circ_buf->stop_ind == buf_size)
            circ_buf->stop_ind = 0;

        return 0;
    }

    // We need two segments. Setup the first one.
    *segment1 = &circ_buf->buffer[circ_buf->stop_ind];
    *segment1_len = buf_size - circ_buf->stop_ind;
    len -= *segment1_len;

    // Setup second segment
    *segment2 = circ_buf->buffer;
    *segment2_len = len;

    // Update (wrapped) stop.
    circ_buf->stop_ind = len;
""", """    *segment1 = circ_buf->buffer + circ_buf->stop_ind;
    *segment1_len = len;
    *segment2 = 0;
    *segment2_len = 0;
    circ_buf->stop_ind += len;

    if (circ_buf->stop_ind >= buf_size) {
        uint32_t over = circ_buf->stop_ind - buf_size;

        if (over) {
            *segment1_len -= over;
            *segment2 = &circ_buf->buffer[0];
            *segment2_len = over;
        }
        circ_buf->stop_ind = over;
    }
"""),
  (F, """    int buf_size = circ_buf->size;

    if (circ_buf->stop_ind >= circ_buf->start_ind)
        return circ_buf->stop_ind - circ_buf->start_ind;

    return buf_size - circ_buf->start_ind + circ_buf->stop_ind;""", """    uint32_t used = circ_buf->stop_ind - circ_buf->start_ind;

    // Unsigned arithmetic: a wrapped buffer comes out "negative".
    if (circ_buf->stop_ind < circ_buf->start_ind)
        used += circ_buf->size;

    return used;"""),
  (F, """    segment_len = circ_buf->size - start_ind;
    segment_len = RMC_MIN(segment_len, len);

    memcpy(target, circ_buf->buffer + start_ind, segment_len);
    copied_bytes += segment_len;

    // Return if the copied data was all that was requested by the
    // caller.
    if (len == segment_len) {
        if (bytes_read)
            *bytes_read = copied_bytes;

        return 0;
    }
""", """    segment_len = circ_buf->size - start_ind;
    if (len < segment_len)
        segment_len = len;

    memcpy(target, circ_buf->buffer + start_ind, segment_len);
    copied_bytes = segment_len;
"""),
  (F, """    len = circ_buf_in_use(circ_buf);

    // Can we do a quickie?""", """    len = circ_buf_in_use(circ_buf);
    size = RMC_MIN(size, len);

    // Can we do a quickie?"""),
  (F, "    if (size >= len) {\n", "    if (size == len) {\n"),
 ]),
]
