T = "rmc_list_template.h"
def B(n, o, w, x="bug", p="L01,L02", ex=()): return (n, p, T, o, w, x) + ((list(ex),) if ex else ())
MUTS = [
 B("pushhead-tail", "        owner->head = node;\n\n        if (owner->tail == 0)\n            owner->tail = node;", "        owner->head = node;\n\n        if (owner->elem_count == 1)\n            owner->tail = node;"),
 B("pushtail-prev", "        node->prev = owner->tail;", "        node->prev = owner->head;"),
 B("insbefore-link", "        node->prev->next = node;\n\n        next->prev = node;", "        next->prev = node;\n\n        node->prev->next = next;"),
 B("insafter-nocount", "        prev->next = node;\n        node->prev = prev;\n\n        node->owner->elem_count++;", "        prev->next = node;\n        node->prev = prev;\n"),
 B("unlink-tail", "        if (node->owner->tail == node)\n            node->owner->tail = node->prev;", "        if (node->owner->tail == node && node->prev)\n            node->owner->tail = node->prev;"),
 B("unlink-owner", "        node->owner->elem_count--;\n        node->owner = 0;", "        node->owner->elem_count--;"),
 B("delete-uaf", "        LISTTYPE* owner = node->owner;\n        LISTTYPE##_unlink(node);\n        (*owner->free_node)(node, owner->user_data);", "        (*node->owner->free_node)(node, node->owner->user_data);\n        LISTTYPE##_unlink(node);"),
 B("find-stop", "            if (res == -1)\n                return 0;\n\n            if (res != 0)\n                return node;\n\n            node = node->next;", "            if (res != 0)\n                return node;\n\n            node = node->next;", p="L02"),
 B("find-rev", "            if (res != 0)\n                return node;\n\n            node = node->prev;", "            if (res == 1)\n                return node;\n\n            node = node->prev;", p="L02"),
 B("sorted-gt", "            if ((*compare_func)(new_node->data, node->data, user_data) >= 0) {\n                return LISTTYPE##_insert_before_node", "            if ((*compare_func)(new_node->data, node->data, user_data) > 1) {\n                return LISTTYPE##_insert_before_node", p="L02"),
 B("sortedrev-before", "                return LISTTYPE##_insert_after_node(node, new_node);\n            }\n            node = LISTTYPE##_prev(node);", "                return LISTTYPE##_insert_before_node(node, new_node);\n            }\n            node = LISTTYPE##_prev(node);", p="L02"),
 B("sortedrev-end", "        return LISTTYPE##_push_head_node(list, new_node);\n    }\n\n\n    NODETYPE* LISTTYPE##_insert_sorted(", "        return LISTTYPE##_push_tail_node(list, new_node);\n    }\n\n\n    NODETYPE* LISTTYPE##_insert_sorted(", p="L02"),
 B("empty-one", "        while(LISTTYPE##_size(list))\n            LISTTYPE##_delete(list->head);", "        while(LISTTYPE##_size(list) > 1)\n            LISTTYPE##_delete(list->head);"),
 B("foreach-skip", "        node = list->tail;\n        while(node && (*func)(node, user_data))\n            node = node->prev;", "        node = list->tail;\n        while(node && node->prev && (*func)(node, user_data))\n            node = node->prev;", p="L02"),
 B("poptail-data", "        *data = list->tail->data;", "        *data = list->head->data;", p="L02"),
 B("ok-unlink", "        if (node->prev)\n            node->prev->next = node->next;\n\n        if (node->next)\n            node->next->prev = node->prev;\n\n        if (node->owner->head == node)\n            node->owner->head = node->next;\n\n        if (node->owner->tail == node)\n            node->owner->tail = node->prev;", "        if (node->prev)\n            node->prev->next = node->next;\n        else\n            node->owner->head = node->next;\n\n        if (node->next)\n            node->next->prev = node->prev;\n        else\n            node->owner->tail = node->prev;", "ok"),
 B("ok-empty", "        while(LISTTYPE##_size(list))\n            LISTTYPE##_delete(list->head);", "        while(list->head)\n            LISTTYPE##_delete(list->head);", "ok"),
 B("ok-foreach", "        node = list->head;\n        while(node && (*func)(node, user_data))\n            node = node->next;", "        for (node = list->head; node; node = node->next)\n            if (!(*func)(node, user_data))\n                break;", "ok"),
 B("ok-push", "        owner->head = node;\n\n        if (owner->tail == 0)\n            owner->tail = node;\n\n        owner->elem_count++;", "        owner->head = node;\n        owner->elem_count += 1;\n\n        if (!owner->tail)\n            owner->tail = node;", "ok"),
 B("ok-sorted", "        while(node) {\n            if ((*compare_func)(new_node->data, node->data, user_data) >= 0) {\n                return LISTTYPE##_insert_before_node(node, new_node);\n            }\n            node = LISTTYPE##_next(node);\n        }\n\n        return LISTTYPE##_push_tail_node(list, new_node);", "        while(node && (*compare_func)(new_node->data, node->data, user_data) < 0)\n            node = LISTTYPE##_next(node);\n\n        if (!node)\n            return LISTTYPE##_push_tail_node(list, new_node);\n        return LISTTYPE##_insert_before_node(node, new_node);", "ok"),
]
