"""Edits of /repo for the self-test."""
M = []
AM, AMC, ORD, CS, SP, LK, MEM = ('src/internal/am_impl.h', 'src/internal/am_impl.c', 'src/internal/order_impl.h', 'src/internal/coll_impl.h',
                       'src/internal/space_impl.c', 'src/internal/lock_impl.h', 'src/internal/mem_impl.c')
RMA, AMO, STR, P2P = 'src/internal/rma_impl.h', 'src/internal/amo_impl.h', 'src/internal/strided_impl.h', 'src/internal/p2p_impl.h'
RAMH, RAMC, AAMH, AAMC = ('src/internal/rma_am_impl.h', 'src/internal/rma_am_impl.c', 'src/internal/amo_am_impl.h', 'src/internal/amo_am_impl.c')
PRG, SETUP, TEAM, ASET, IMPL = ('src/internal/am_progress_impl.h', 'src/internal/setup_impl.c', 'src/shmem/team.c', 'src/internal/coll_activeset_impl.h', 'src/include/oshmpi_impl.h')


def bad(props, name, *edits, nth=None):
    M.append({'props': props.split(','), 'kind': 'bad', 'name': name, 'edits': edits, 'nth': nth})


def ok(props, name, *edits, nth=None):
    M.append({'props': props.split(','), 'kind': 'ok', 'name': name, 'edits': edits, 'nth': nth})


# ---- C01
bad('C01', 'quiet-skips-data', (ORD, 'ctx_flush_impl(&OSHMPI_global.symm_data_ictx);\n#endif\n\n    /* Flush all space contexts */\n    OSHMPI_space_t *space, *tmp;\n    OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.space_list.cs);\n    LL_FOREACH_SAFE(OSHMPI_global.space_list.head, space, tmp) {\n        int i;\n        /* No window exists while the space is not attached */\n        if (space->ctx_list) {\n            for (i = 0; i < space->config.num_contexts; i++)\n                ctx_flush_impl(&(space->ctx_list[i].ictx));\n        }\n#ifndef OSHMPI_ENABLE_DYNAMIC_WIN\n        if (space->default_ictx.win != MPI_WIN_NULL)\n            ctx_flush_impl(&space->default_ictx);\n#endif\n    }\n    OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.space_list.cs);\n\n    /* Ensure AM completion',
    '#endif\n\n    /* Flush all space contexts */\n    OSHMPI_space_t *space, *tmp;\n    OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.space_list.cs);\n    LL_FOREACH_SAFE(OSHMPI_global.space_list.head, space, tmp) {\n        int i;\n        /* No window exists while the space is not attached */\n        if (space->ctx_list) {\n            for (i = 0; i < space->config.num_contexts; i++)\n                ctx_flush_impl(&(space->ctx_list[i].ictx));\n        }\n#ifndef OSHMPI_ENABLE_DYNAMIC_WIN\n        if (space->default_ictx.win != MPI_WIN_NULL)\n            ctx_flush_impl(&space->default_ictx);\n#endif\n    }\n    OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.space_list.cs);\n\n    /* Ensure AM completion'))
bad('C01', 'space-loop-from-1', (ORD, 'for (i = 0; i < space->config.num_contexts; i++)', 'for (i = 1; i < space->config.num_contexts; i++)'))
bad('C01', 'space-loop-short', (ORD, 'i < space->config.num_contexts; i++)', 'i < space->config.num_contexts - 1; i++)'))
bad('C01', 'flush-local', (ORD, 'MPI_Win_flush_all(ictx->win)', 'MPI_Win_flush_local_all(ictx->win)'))
bad('C01', 'reset-before-flush', (ORD, '        /* Ensure ordered delivery of all outstanding Put, AMO, and nonblocking Put */\n', '        RESET_FLAG(ictx->outstanding_op);\n'))
bad('C01', 'first-space-only', (ORD, '            ctx_flush_impl(&space->default_ictx);\n#endif\n', '            ctx_flush_impl(&space->default_ictx);\n        break;\n#endif\n'))
bad('C01', 'am-flush-skips-self', (AM, 'if (OSHMPIU_ATOMIC_FLAG_LOAD(OSHMPI_am.outstanding_op_flags[pe])) {\n            OSHMPI_CALLMPI', 'if (pe != OSHMPI_global.team_world_my_pe && OSHMPIU_ATOMIC_FLAG_LOAD(OSHMPI_am.outstanding_op_flags[pe])) {\n            OSHMPI_CALLMPI'))
bad('C01', 'barrier-no-quiet', (CS, 'OSHMPI_ctx_quiet(SHMEM_CTX_DEFAULT);', ''))
bad('C01', 'ctx-quiet-no-am', (ORD, 'OSHMPI_am_flush_all(ctx);\n        return;', 'return;'), nth='all')
bad('C01', 'calloc-nobarrier', (MEM, 'OSHMPI_barrier_all();', ''), nth=5)
bad('C01', 'lock-no-quiet', (LK, 'OSHMPI_ctx_quiet(SHMEM_CTX_DEFAULT);', ''))
ok('C01', 'list-while', (ORD, 'LL_FOREACH_SAFE(OSHMPI_global.space_list.head, space, tmp) {', 'for (space = OSHMPI_global.space_list.head; space != NULL; space = space->next) {'), nth='all')
ok('C01', 'ctx-loop-down', (ORD, 'for (i = 0; i < space->config.num_contexts; i++)', 'for (i = space->config.num_contexts - 1; i >= 0; i--)'), nth='all')
ok('C01', 'ctx-loop-while', (ORD, 'for (i = 0; i < space->config.num_contexts; i++)\n                ctx_flush_impl(&(space->ctx_list[i].ictx));', 'i = 0; while (i != space->config.num_contexts) {\n                ctx_flush_impl(&(space->ctx_list[i].ictx)); i++; }'), nth='all')
ok('C01', 'early-continue', (ORD, 'if (CHECK_FLAG(ictx->outstanding_op)) {', 'if (!CHECK_FLAG(ictx->outstanding_op))\n        return;\n    {'))
ok('C01', 'swap-order', (ORD, '    ctx_flush_impl(&OSHMPI_global.symm_heap_ictx);\n    ctx_flush_impl(&OSHMPI_global.symm_data_ictx);', '    ctx_flush_impl(&OSHMPI_global.symm_data_ictx);\n    ctx_flush_impl(&OSHMPI_global.symm_heap_ictx);'), nth='all')

# ---- C02
SETO = 'OSHMPI_SET_OUTSTANDING_OP(ictx, OSHMPI_OP_OUTSTANDING);'
AMF1 = 'OSHMPIU_ATOMIC_FLAG_STORE(OSHMPI_am.outstanding_op_flags[pe], 1);'
AMF0 = 'OSHMPI_CLEAR_OUTSTANDING_FLAG(OSHMPI_am.outstanding_op_flags[pe]);'
bad('C02', 'put-untracked', (RMA, SETO, ''))
bad('C02', 'amo-set-completed', (AMO, SETO + '     /* SET', 'OSHMPI_SET_OUTSTANDING_OP(ictx, OSHMPI_OP_COMPLETED);     /* SET'))
bad('C02', 'cswap-untracked', (AMO, SETO + '     /* remote', '/* remote'))
bad('C02', 'fetch-inverted', (AMO, 'if (op == MPI_NO_OP)', 'if (op != MPI_NO_OP)'))
bad('C02', 'getnbi-completed', (RMA, 'nelems, nelems, pe, OSHMPI_OP_OUTSTANDING, sobj_attr);', 'nelems, nelems, pe, OSHMPI_OP_COMPLETED, sobj_attr);'))
bad('C02', 'am-put-untracked', (RAMH, AMF1, ''), nth=0)
bad('C02', 'am-iput-wrong-pe', (RAMH, AMF1, 'OSHMPIU_ATOMIC_FLAG_STORE(OSHMPI_am.outstanding_op_flags[OSHMPI_global.team_world_my_pe], 1);'), nth=1)
bad('C02', 'am-post-reset', (AAMH, AMF1, AMF0))
bad('C02', 'am-put-reset', (RAMH, AMF1, AMF0), nth=0)
bad('C02', 'am-post-large-only', (AAMH, AMF1, 'if (bytes > 4) ' + AMF1), nth=0)
bad('C02', 'flag-macro-default-only', (IMPL, 'OSHMPIU_ATOMIC_FLAG_STORE(ctx->outstanding_op, 1);', 'if (pe != OSHMPI_global.team_world_my_pe) OSHMPIU_ATOMIC_FLAG_STORE(ctx->outstanding_op, 1);'))
ok('C02', 'set-before-put', (RMA, '    OSHMPI_FORCEINLINE()\n        OSHMPI_CALLMPI(MPI_Put', '    ' + SETO + '\n        OSHMPI_CALLMPI(MPI_Put'))
ok('C02', 'cond-nbi', (AMO, '    if (op == MPI_NO_OP)\n        OSHMPI_SET_OUTSTANDING_OP(ictx, OSHMPI_OP_COMPLETED);   /* FETCH-only is always completed */\n    else', '    if (op != MPI_NO_OP)'))
ok('C02', 'am-flag-before', (RAMH, '    OSHMPI_CALLMPI(MPI_Isend(&pkt, sizeof(OSHMPI_am_pkt_t), MPI_BYTE, pe, OSHMPI_AM_PKT_TAG,\n', '    ' + AMF1 + '\n    OSHMPI_CALLMPI(MPI_Isend(&pkt, sizeof(OSHMPI_am_pkt_t), MPI_BYTE, pe, OSHMPI_AM_PKT_TAG,\n'), nth=0)
ok('C02', 'flush-target', (AMO, SETO + '     /* SET is always outstanding */', 'OSHMPI_CALLMPI(MPI_Win_flush(pe, ictx->win));'))

# ---- C03
LC = 'ctx_local_complete_impl(pe, ictx);'
bad('C03', 'fetch-no-local', (AMO, LC, ''), nth=0)
bad('C03', 'set-no-local', (AMO, LC, ''), nth=1)
bad('C03', 'cswap-no-local', (AMO, LC, ''), nth=2)
bad('C03', 'put-no-local', (RMA, LC, ''), nth=0)
bad('C03', 'local-other-pe', (IMPL, 'MPI_Win_flush_local(pe, ictx->win)', 'MPI_Win_flush_local(OSHMPI_global.team_world_my_pe, ictx->win)'))
bad('C03', 'wait-one', (RAMH, 'OSHMPI_am_progress_mpi_waitall(2, reqs', 'OSHMPI_am_progress_mpi_waitall(1, reqs'), nth=2)
bad('C03', 'am-post-nowait', (AAMH, 'OSHMPI_am_progress_mpi_send(', 'MPI_Request rq; OSHMPI_CALLMPI(MPI_Isend('), ('src/internal/amo_am_impl.h', 'OSHMPI_am.comm);', 'OSHMPI_am.comm, &rq));'))
bad('C03', 'am-wait-once', (PRG, '            if (am_mpi_flag)    /* skip AM progress if complete immediately */\n                break;\n            OSHMPI_am_cb_progress();\n        }\n    }\n}\n\nOSHMPI_STATIC_INLINE_PREFIX void OSHMPI_am_progress_mpi_barrier', '            OSHMPI_am_cb_progress();\n            break;\n        }\n    }\n}\n\nOSHMPI_STATIC_INLINE_PREFIX void OSHMPI_am_progress_mpi_barrier'))
bad('C03', 'reuse-pkt', (AAMH, 'OSHMPI_am_progress_mpi_waitall(2, reqs', 'pkt.type = 0;\n    OSHMPI_am_progress_mpi_waitall(2, reqs'), nth=0)
ok('C03', 'flush-instead', (IMPL, 'MPI_Win_flush_local(pe, ictx->win)', 'MPI_Win_flush(pe, ictx->win)'))
ok('C03', 'two-waits', (RAMH, 'OSHMPI_am_progress_mpi_waitall(2, reqs, MPI_STATUS_IGNORE);', 'OSHMPI_am_progress_mpi_waitall(1, &reqs[1], MPI_STATUS_IGNORE);\n    OSHMPI_am_progress_mpi_waitall(1, reqs, MPI_STATUS_IGNORE);'), nth=0)
ok('C03', 'copy-after', (AMO, LC, LC + ' { int z = *(const char *) result_addr; (void) z; }'), nth=0)

# ---- C04
BITW, STD, EXT = 'src/shmem/amo_bitws_typed.c.tpl', 'src/shmem/amo_std_typed.c.tpl', 'src/shmem/amo_ext_typed.c.tpl'
bad('C04', 'bitw-idx', (BITW, 'OSHMPI_AM_MPI_BOR', 'OSHMPI_AM_MPI_BXOR'), nth=3)
bad('C04', 'bitw-op', (BITW, ' MPI_BXOR', ' MPI_BOR'), nth=4)
bad('C04', 'one-two', (STD, 'TYPE one = 1', 'TYPE one = 2'), nth=2)
bad('C04', 'cond-value', (AAMH, 'memcpy(&cswap_pkt->cond, cond_ptr, bytes);\n    memcpy(&cswap_pkt->value, value_ptr, bytes);', 'memcpy(&cswap_pkt->cond, value_ptr, bytes);\n    memcpy(&cswap_pkt->value, cond_ptr, bytes);'))
bad('C04', 'cond-value-direct', (AMO, '(origin_addr, compare_addr, result_addr', '(compare_addr, origin_addr, result_addr'))
bad('C04', 'bytes-int', (AAMH, 'fetch_pkt->bytes = bytes;', 'fetch_pkt->bytes = sizeof(int);'))
bad('C04', 'value-small', (AAMH, 'memcpy(&post_pkt->value, value_ptr, bytes);', 'if (bytes <= 4) memcpy(&post_pkt->value, value_ptr, bytes);'))
bad('C04', 'value-trunc', (AAMH, 'memcpy(&post_pkt->value, value_ptr, bytes);', 'memcpy(&post_pkt->value, value_ptr, sizeof(int));'))
bad('C04', 'table-op', (AMC, 'ops_table[OSHMPI_AM_MPI_BXOR] = MPI_BXOR', 'ops_table[OSHMPI_AM_MPI_BXOR] = MPI_BOR'))
bad('C04', 'table-type', (AMC, 'datatypes_table[OSHMPI_AM_MPI_UINT32_T] = MPI_UINT32_T', 'datatypes_table[OSHMPI_AM_MPI_UINT32_T] = MPI_UINT64_T'))
bad('C04', 'acc-count', (AMO, '(origin_addr, 1, mpi_type, pe, target_disp, 1, mpi_type, op, ictx->win)', '(origin_addr, 0, mpi_type, pe, target_disp, 0, mpi_type, op, ictx->win)'))
bad('C04', 'nbi-result', (STD, 'dest, &value, pe, fetch', 'dest, &value, pe, dest'), nth=0)
bad('C04', 'swap-sum', (EXT, 'OSHMPI_AM_MPI_REPLACE', 'OSHMPI_AM_MPI_SUM'), nth=1)
bad('C04', 'recv-int', (AAMH, 'MPI_Irecv(oldval_ptr, 1, mpi_type, pe, fetch_pkt->ptag', 'MPI_Irecv(oldval_ptr, 1, MPI_INT, pe, fetch_pkt->ptag'))
bad('C04', 'default-pe', (STD, 'dest, &value, pe);', 'dest, &value, OSHMPI_global.team_world_my_pe);'), nth=0)
ok('C04', 'get-acc', (AMO, '    OSHMPI_CALLMPI(MPI_Fetch_and_op\n                   (origin_addr, result_addr, mpi_type, pe, target_disp, op, ictx->win));',
   '    OSHMPI_CALLMPI(MPI_Get_accumulate\n                   (origin_addr, op == MPI_NO_OP ? 0 : 1, mpi_type, result_addr, 1, mpi_type, pe, target_disp, 1, mpi_type, op, ictx->win));'))
ok('C04', 'reorder', (AAMH, '    fetch_pkt->bytes = bytes;\n', ''), ('src/internal/amo_am_impl.h', '        memcpy(&fetch_pkt->value, value_ptr, bytes);    /* ignore value in atomic-fetch */', '        memcpy(&fetch_pkt->value, value_ptr, bytes);\n    fetch_pkt->bytes = bytes;'))
ok('C04', 'always-copy', (AAMH, '    if (fetch_pkt->mpi_op_idx != OSHMPI_AM_MPI_NO_OP)\n        memcpy(&fetch_pkt->value, value_ptr, bytes);    /* ignore value in atomic-fetch */',
   '    if (op_idx == OSHMPI_AM_MPI_NO_OP) {\n    } else\n        memcpy(&fetch_pkt->value, value_ptr, bytes);'))
ok('C04', 'helper', (AAMH, '/* Issue a fetch (with op)', 'static void fillval(OSHMPI_am_fetch_pkt_t *p, const void *v, size_t n, int t, int o)\n{\n    memcpy(&p->value, v, n);\n    p->bytes = n; p->mpi_op_idx = o; p->mpi_type_idx = t;\n}\n/* Issue a fetch (with op)'),
   (AAMH, '    post_pkt->mpi_type_idx = mpi_type_idx;\n    post_pkt->mpi_op_idx = op_idx;\n    post_pkt->bytes = bytes;', '    fillval(post_pkt, value_ptr, bytes, mpi_type_idx, op_idx);'), (AAMH, '    memcpy(&post_pkt->value, value_ptr, bytes);\n', ''))

# ---- C05
PRE = 'src/internal/am_pre.h'
bad('C05', 'xor-or', (AAMC, '(*(c_type *) (a_ptr)) ^ (*(c_type *) (b_ptr))', '(*(c_type *) (a_ptr)) | (*(c_type *) (b_ptr))'))
bad('C05', 'int64-int', (AAMC, 'OSHMPI_OP_INT_MACRO(int64_t)', 'OSHMPI_OP_INT_MACRO(int32_t)'))
bad('C05', 'float-double', (AAMC, 'OSHMPI_OP_FP_MACRO(float)', 'OSHMPI_OP_FP_MACRO(double)'))
bad('C05', 'no-size_t', (AAMC, '        case OSHMPI_AM_OSHMPI_MPI_SIZE_T:                      \\\n           OSHMPI_OP_INT_MACRO(size_t); break;                  \\\n', ''))
bad('C05', 'fallthrough', (AAMC, 'OSHMPI_OP_INT_MACRO(uint32_t); break; ', 'OSHMPI_OP_INT_MACRO(uint32_t);        '))
bad('C05', 'old-late', (AAMC, '        *(c_type *) oldval_ptr = *(c_type *) dest;                \\\n        OSHMPI_AMO_OP_INT_IMPL(fetch_pkt->mpi_op_idx, c_type, value_ptr, dest); \\\n',
    '        OSHMPI_AMO_OP_INT_IMPL(fetch_pkt->mpi_op_idx, c_type, value_ptr, dest); \\\n        *(c_type *) oldval_ptr = *(c_type *) dest;                \\\n'))
bad('C05', 'cswap-cond-value', (AAMC, '*cond_ptr = &cswap_pkt->cond, *value_ptr = &cswap_pkt->value', '*value_ptr = &cswap_pkt->cond, *cond_ptr = &cswap_pkt->value'))
bad('C05', 'cswap-ne', (AAMC, 'if (*(c_type *) dest == *(c_type *) cond_ptr)', 'if (*(c_type *) dest != *(c_type *) cond_ptr)'))
bad('C05', 'cswap-int', (AAMC, 'if (*(c_type *) dest == *(c_type *) cond_ptr)', 'if (*(int *) dest == *(int *) cond_ptr)'))
bad('C05', 'cswap-always', (AAMC, 'if (*(c_type *) dest == *(c_type *) cond_ptr) \\\n', '\\\n'))
bad('C05', 'fp-replace', (AAMC, '            case OSHMPI_AM_MPI_REPLACE:                                                \\\n                *(c_type *) (b_ptr) = *(c_type *) (a_ptr);                              \\\n                break;                                                                  \\\n', ''), nth=0)
bad('C05', 'reply-tag', (AAMC, 'origin_rank, fetch_pkt->ptag', 'origin_rank, OSHMPI_AM_PKT_TAG'))
bad('C05', 'reply-comm', (AAMC, 'fetch_pkt->ptag, OSHMPI_am.ack_comm', 'fetch_pkt->ptag, OSHMPI_am.comm'))
bad('C05', 'reply-early', (AAMC, '    /* Compute.\n     * All AMOs are handled as active message, no lock needed.\n     * We use different op set for floating point and integer types. */\n#undef OSHMPI_OP_INT_MACRO\n#undef OSHMPI_OP_FP_MACRO\n#define OSHMPI_OP_INT_MACRO(c_type) do {                          \\\n        *(c_type *) oldval',
    '    if (fetch_pkt->bytes == 4) { oldval = *(OSHMPI_am_datatype_t *) dest; OSHMPI_CALLMPI(MPI_Send(&oldval, 1, OSHMPI_am.datatypes_table[fetch_pkt->mpi_type_idx],\n                            origin_rank, fetch_pkt->ptag, OSHMPI_am.ack_comm)); }\n#undef OSHMPI_OP_INT_MACRO\n#undef OSHMPI_OP_FP_MACRO\n#define OSHMPI_OP_INT_MACRO(c_type) do {                          \\\n        *(c_type *) oldval'))
bad('C05', 'swapped-cbs', (AAMC, '"FETCH", OSHMPI_amo_am_fetch_pkt_cb', '"FETCH", OSHMPI_amo_am_post_pkt_cb'))
bad('C05', 'table-size', (AMC, 'datatypes_table[OSHMPI_AM_OSHMPI_MPI_SIZE_T] = OSHMPI_MPI_SIZE_T', 'datatypes_table[OSHMPI_AM_OSHMPI_MPI_SIZE_T] = MPI_INT'))
bad('C05', 'sub-sum', (AAMC, '*(c_type *) (b_ptr) += *(c_type *) (a_ptr);  ', '*(c_type *) (b_ptr) -= *(c_type *) (a_ptr);  '), nth=1)
ok('C05', 'cswap-old', (AAMC, 'if (*(c_type *) dest == *(c_type *) cond_ptr)', 'if (*(c_type *) cond_ptr == *(c_type *) oldval_ptr)'))
ok('C05', 'cswap-ternary', (AAMC, 'if (*(c_type *) dest == *(c_type *) cond_ptr) \\\n            *(c_type *) dest = *(c_type *) value_ptr;', '*(c_type *) dest = *(c_type *) dest == *(c_type *) cond_ptr ? \\\n            *(c_type *) value_ptr : *(c_type *) dest;'))
ok('C05', 'memcpy-replace', (AAMC, '*(c_type *) (b_ptr) = *(c_type *) (a_ptr);  ', 'memcpy(b_ptr, a_ptr, sizeof(c_type));  '), nth='all')
ok('C05', 'old-memcpy', (AAMC, '*(c_type *) oldval_ptr = *(c_type *) dest;                \\\n        OSHMPI_AMO_OP_INT', 'memcpy(oldval_ptr, dest, sizeof(c_type));                \\\n        OSHMPI_AMO_OP_INT'))
ok('C05', 'local-copy', (AAMC, '    void *oldval_ptr = &oldval, *value_ptr = &fetch_pkt->value;', '    OSHMPI_am_datatype_t vv = fetch_pkt->value;\n    void *oldval_ptr = &oldval, *value_ptr = &vv;'))
ok('C05', 'type-arg', (AAMC, 'MPI_Send(&oldval, 1, OSHMPI_am.datatypes_table[fetch_pkt->mpi_type_idx]', 'MPI_Send(oldval_ptr, 1, *(OSHMPI_am.datatypes_table + fetch_pkt->mpi_type_idx)'))
ok('C05', 'reorder-cases', (AAMC, '        case OSHMPI_AM_MPI_INT:                                \\\n           OSHMPI_OP_INT_MACRO(int); break;                     \\\n', ''), (AAMC, '        default:                                                \\\n            OSHMPI_ERR_ABORT("Unsupported MPI type', '        case OSHMPI_AM_MPI_INT:                                \\\n           OSHMPI_OP_INT_MACRO(int); break;                     \\\n        default:                                                \\\n            OSHMPI_ERR_ABORT("Unsupported MPI type'))

# ---- C06
bad('C06', 'am-reply-comm', (RAMC, 'origin_rank, get_pkt->ptag, OSHMPI_am.ack_comm)', 'origin_rank, get_pkt->ptag, OSHMPI_am.comm)'))
bad('C06', 'am-payload-before-fill', (RAMH, '    put_pkt->bytes = typesz * nelems;\n', ''))
bad('C06', 'am-iput-payload-tag', (RAMH, 'MPI_Isend(origin_addr, origin_count, origin_type, pe, iput_pkt->ptag,', 'MPI_Isend(origin_addr, origin_count, origin_type, pe, iput_pkt->ptag + 1,'))
bad('C06', 'am-get-recv-any-pe', (RAMH, 'MPI_Irecv(origin_addr, nelems, mpi_type, pe, get_pkt->ptag,', 'MPI_Irecv(origin_addr, nelems, mpi_type, 0, get_pkt->ptag,'))
bad('C06', 'am-unregistered', (RAMC, '    OSHMPI_am_cb_regist(OSHMPI_AM_PKT_IGET, "IGET", OSHMPI_rma_am_iget_pkt_cb);\n', ''))
bad('C06', 'am-tag-nowrap', (AM, 'off % (unsigned int) (OSHMPI_am.pkt_ptag_ub - OSHMPI_AM_PKT_PTAG_START)', 'off'))
bad('C06', 'am-tag-wrap-ub', (AM, '(OSHMPI_am.pkt_ptag_ub - OSHMPI_AM_PKT_PTAG_START))', '(OSHMPI_am.pkt_ptag_ub))'))
bad('C06', 'am-tag-start', ('src/internal/am_pre.h', '#define OSHMPI_AM_PKT_PTAG_START 2003', '#define OSHMPI_AM_PKT_PTAG_START 1999'))
bad('C06', 'am-tag-const', (AM, 'OSHMPIU_ATOMIC_CNT_FINC(OSHMPI_am.pkt_ptag_off)', 'OSHMPIU_ATOMIC_CNT_LOAD(OSHMPI_am.pkt_ptag_off)'))
bad('C06', 'am-repost-first', (AMC, '            am_cb_handle_pkt(am_pkt, cb_stat.MPI_SOURCE, &terminate_flag);\n            /* Do nothing', '            /* Do nothing'), nth=0)
bad('C06', 'am-no-repost', (AMC, '            /* Post next receive */\n            OSHMPI_CALLMPI(MPI_Irecv(am_pkt, sizeof(OSHMPI_am_pkt_t),\n                                     MPI_BYTE, MPI_ANY_SOURCE,\n                                     OSHMPI_AM_PKT_TAG,', '            if (am_pkt->type != OSHMPI_AM_PKT_FLUSH)\n            OSHMPI_CALLMPI(MPI_Irecv(am_pkt, sizeof(OSHMPI_am_pkt_t),\n                                     MPI_BYTE, MPI_ANY_SOURCE,\n                                     OSHMPI_AM_PKT_TAG,'))
bad('C06', 'am-order-repost', (AMC, '            am_cb_handle_pkt(am_pkt, cb_stat.MPI_SOURCE, &terminate_flag);\n            /* Do nothing when terminate. Last irecv will be completed at\n             * progress_end. */\n\n            /* Post next receive */\n            OSHMPI_CALLMPI(MPI_Irecv(am_pkt, sizeof(OSHMPI_am_pkt_t),\n                                     MPI_BYTE, MPI_ANY_SOURCE,\n                                     OSHMPI_AM_PKT_TAG, OSHMPI_am.comm, &OSHMPI_am.cb_req));\n',
    '            OSHMPI_CALLMPI(MPI_Irecv(am_pkt, sizeof(OSHMPI_am_pkt_t),\n                                     MPI_BYTE, MPI_ANY_SOURCE,\n                                     OSHMPI_AM_PKT_TAG, OSHMPI_am.comm, &OSHMPI_am.cb_req));\n            am_cb_handle_pkt(am_pkt, cb_stat.MPI_SOURCE, &terminate_flag);\n'))
bad('C06', 'am-listener-tag', (AMC, 'MPI_BYTE, MPI_ANY_SOURCE,\n                             OSHMPI_AM_PKT_TAG, OSHMPI_am.comm', 'MPI_BYTE, MPI_ANY_SOURCE,\n                             OSHMPI_AM_TERMINATE_TAG, OSHMPI_am.comm'))
bad('C06', 'am-flush-cb-cond', (AMC, '    OSHMPI_CALLMPI(MPI_Send(NULL, 0, MPI_BYTE, origin_rank, flush_pkt->ptag, OSHMPI_am.ack_comm));', '    if (origin_rank != OSHMPI_global.team_world_my_pe)\n    OSHMPI_CALLMPI(MPI_Send(NULL, 0, MPI_BYTE, origin_rank, flush_pkt->ptag, OSHMPI_am.ack_comm));'))
bad('C06', 'am-iget-no-stride', (RAMH, '    iget_pkt->target_st = target_st;\n', ''))
ok('C06', 'am-put-zero-skip', (RAMH, '    OSHMPI_CALLMPI(MPI_Isend(origin_addr, nelems, mpi_type, pe, put_pkt->ptag,', '    reqs[1] = MPI_REQUEST_NULL;\n    if (nelems > 0)\n    OSHMPI_CALLMPI(MPI_Isend(origin_addr, nelems, mpi_type, pe, put_pkt->ptag,'))
ok('C06', 'am-recv-first', (RAMH, '    OSHMPI_CALLMPI(MPI_Isend(&pkt, sizeof(OSHMPI_am_pkt_t), MPI_BYTE, pe, OSHMPI_AM_PKT_TAG,\n                             OSHMPI_am.comm, &reqs[0]));\n    OSHMPI_CALLMPI(MPI_Irecv(origin_addr, nelems, mpi_type, pe, get_pkt->ptag,\n                             OSHMPI_am.ack_comm, &reqs[1]));',
   '    OSHMPI_CALLMPI(MPI_Irecv(origin_addr, nelems, mpi_type, pe, get_pkt->ptag,\n                             OSHMPI_am.ack_comm, &reqs[1]));\n    OSHMPI_CALLMPI(MPI_Isend(&pkt, sizeof(OSHMPI_am_pkt_t), MPI_BYTE, pe, OSHMPI_AM_PKT_TAG,\n                             OSHMPI_am.comm, &reqs[0]));'))
ok('C06', 'am-pkt-init', (RAMH, '    OSHMPI_am_put_pkt_t *put_pkt = &pkt.put;\n    MPI_Request reqs[2];\n', '    OSHMPI_am_put_pkt_t *put_pkt = &pkt.put;\n    MPI_Request reqs[2];\n    int tag = OSHMPI_am_get_pkt_ptag();\n    memset(&pkt, 0, sizeof(pkt));\n'),
   (RAMH, '    put_pkt->ptag = OSHMPI_am_get_pkt_ptag();', '    put_pkt->ptag = tag;'))
ok('C06', 'am-tag-mask', (AM, '    int tag = (int) (off % (unsigned int) (OSHMPI_am.pkt_ptag_ub - OSHMPI_AM_PKT_PTAG_START))\n        + OSHMPI_AM_PKT_PTAG_START;', '    int tag = (int) (off & 0x3fff) + OSHMPI_AM_PKT_PTAG_START;'))
ok('C06', 'am-dispatch-if', (AMC, '    switch (am_pkt->type) {\n        case OSHMPI_AM_PKT_TERMINATE:', '    int t = am_pkt->type;\n    switch (t) {\n        case OSHMPI_AM_PKT_TERMINATE:'))
ok('C06', 'am-flush-next-tag', (AM, '    flush_pkt->ptag = OSHMPI_am_get_pkt_ptag();\n\n    for', '    const int tg = OSHMPI_am_get_pkt_ptag();\n    flush_pkt->ptag = tg;\n\n    for'), (AM, 'MPI_Irecv(NULL, 0, MPI_BYTE, pe, flush_pkt->ptag,', 'MPI_Irecv(NULL, 0, MPI_BYTE, pe, tg,'))
PROG, P2PH, RAMHH = 'src/internal/am_progress_impl.h', 'src/internal/p2p_impl.h', 'src/internal/rma_am_impl.h'
bad('C06', 'am-get-progress-before-recv', (RAMHH, '    OSHMPI_CALLMPI(MPI_Irecv(origin_addr, nelems, mpi_type, pe, get_pkt->ptag,\n', '    OSHMPI_am_cb_progress();\n    OSHMPI_CALLMPI(MPI_Irecv(origin_addr, nelems, mpi_type, pe, get_pkt->ptag,\n'))

# ---- C07
bad('C07', 'progress-loop-no-poll', (PROG, '        OSHMPI_am_cb_progress();                                               \\\n', ''))
bad('C07', 'waitall-no-poll', (PROG, '                break;\n            OSHMPI_am_cb_progress();\n', '                break;\n'))
bad('C07', 'waitall-blocking', (PROG, '        int am_mpi_flag = 0;\n        while (1) {\n            OSHMPI_CALLMPI(MPI_Testall(count', '        OSHMPI_CALLMPI(MPI_Waitall(count, array_of_requests, array_of_statuses));\n        return;\n        int am_mpi_flag = 0;\n        while (1) {\n            OSHMPI_CALLMPI(MPI_Testall(count'))
bad('C07', 'waitall-few', (PROG, '    if (OSHMPI_ENABLE_AM_ASYNC_THREAD_RUNTIME) {\n        OSHMPI_CALLMPI(MPI_Waitall(', '    if (OSHMPI_ENABLE_AM_ASYNC_THREAD_RUNTIME || count <= 2) {\n        OSHMPI_CALLMPI(MPI_Waitall('))
bad('C07', 'barrier-blocking', (PROG, '        MPI_Request am_mpi_req = MPI_REQUEST_NULL;\n        OSHMPI_CALLMPI(MPI_Ibarrier(comm, &am_mpi_req));\n        OSHMPI_AM_PROGRESS_MPI(am_mpi_req, MPI_STATUS_IGNORE);', '        OSHMPI_CALLMPI(MPI_Barrier(comm));'))
bad('C07', 'wait-until-nopoll', (P2PH, '        OSHMPI_am_cb_progress();                                                                   \\\n', ''))
bad('C07', 'wait-until-poll-seldom', (P2PH, '        OSHMPI_am_cb_progress();                                                                   \\\n', '        if (comp_value) OSHMPI_am_cb_progress();                                                  \\\n'))
bad('C07', 'test-nopoll', (P2PH, '    if (!test_ret) /* Skip progress if complete immediately */                                 \\\n        OSHMPI_am_cb_progress();  ', '    if (test_ret) /* Skip progress if complete immediately */                                 \\\n        OSHMPI_am_cb_progress();  '))
bad('C07', 'set-lock-nopoll', (LK, '                break;\n            OSHMPI_am_cb_progress();\n', '                break;\n'))
bad('C07', 'clear-lock-nopoll', (LK, '                break;\n            OSHMPI_am_cb_progress();\n', '                break;\n'), nth=1)
bad('C07', 'test-lock-nopoll', (LK, '    OSHMPI_am_cb_progress();\n    return 1;', '    return 1;'))
bad('C07', 'set-lock-mpi-lock', (LK, '    OSHMPI_CALLMPI(MPI_Win_flush(OSHMPI_LOCK_ROOT_WRANK, ictx->win));\n    OSHMPI_DBGMSG("%s', '    OSHMPI_CALLMPI(MPI_Win_flush(OSHMPI_LOCK_ROOT_WRANK, ictx->win));\n    OSHMPI_CALLMPI(MPI_Barrier(OSHMPI_global.team_world_comm));\n    OSHMPI_DBGMSG("%s'))
bad('C07', 'coll-nopresync', (ASET, '    coll_presync(pe_list, PE_size);\n', ''))
bad('C07', 'callback-progress', (RAMC, 'void OSHMPI_rma_am_put_pkt_cb(int origin_rank, OSHMPI_am_pkt_t * pkt)\n{\n', 'void OSHMPI_rma_am_put_pkt_cb(int origin_rank, OSHMPI_am_pkt_t * pkt)\n{\n    OSHMPI_am_cb_progress();\n'))
bad('C07', 'callback-send-progress', (RAMC, 'OSHMPI_CALLMPI(MPI_Recv(', 'OSHMPI_am_progress_mpi_recv('), (RAMC, 'MPI_STATUS_IGNORE));', 'MPI_STATUS_IGNORE);'))
ok('C07', 'progress-for', (PROG, '    while (1) {                                                                \\\n        OSHMPI_CALLMPI(MPI_Test(&req, &am_mpi_flag, stat));                    \\\n        if (am_mpi_flag) break; /* skip AM progress if complete immediately */ \\\n        OSHMPI_am_cb_progress();                                               \\\n    }  ', '    for (;;) {                                                                \\\n        OSHMPI_CALLMPI(MPI_Test(&req, &am_mpi_flag, stat));                    \\\n        if (!am_mpi_flag) OSHMPI_am_cb_progress(); else break;                                              \\\n    }  '))
ok('C07', 'waitall-dowhile', (PROG, '        while (1) {\n            OSHMPI_CALLMPI(MPI_Testall(count, array_of_requests, &am_mpi_flag, array_of_statuses));\n            if (am_mpi_flag)    /* skip AM progress if complete immediately */\n                break;\n            OSHMPI_am_cb_progress();\n        }', '        OSHMPI_CALLMPI(MPI_Testall(count, array_of_requests, &am_mpi_flag, array_of_statuses));\n        while (!am_mpi_flag) {\n            OSHMPI_am_cb_progress();\n            OSHMPI_CALLMPI(MPI_Testall(count, array_of_requests, &am_mpi_flag, array_of_statuses));\n        }'))
ok('C07', 'test-always-poll', (P2PH, '    if (!test_ret) /* Skip progress if complete immediately */                                 \\\n        OSHMPI_am_cb_progress();  ', '    OSHMPI_am_cb_progress();  '))
ok('C07', 'set-lock-goto', (LK, '                break;\n            OSHMPI_am_cb_progress();\n        }\n        OSHMPI_DBGMSG("released by', '                goto got;\n            OSHMPI_am_cb_progress();\n        }\n      got:\n        OSHMPI_DBGMSG("released by'))
ok('C07', 'set-lock-poll-first', (LK, '        while (1) {\n            OSHMPI_CALLMPI(MPI_Fetch_and_op\n                           (NULL, &signal', '        while (1) {\n            OSHMPI_am_cb_progress();\n            OSHMPI_CALLMPI(MPI_Fetch_and_op\n                           (NULL, &signal'), (LK, '            if (SIGNAL(signal))\n                break;\n            OSHMPI_am_cb_progress();\n', '            if (SIGNAL(signal))\n                break;\n'))

# ---- C08
IMPLH = 'src/include/oshmpi_impl.h'
bad('C08', 'range-le', (IMPLH, '(MPI_Aint) ptr < (MPI_Aint) sobj_attr.base + sobj_attr.size)', '(MPI_Aint) ptr <= (MPI_Aint) sobj_attr.base + sobj_attr.size)'))
bad('C08', 'range-nolower', (IMPLH, '((MPI_Aint) ptr >= (MPI_Aint) sobj_attr.base\n            && ', '('))
bad('C08', 'data-uses-heap-win', (IMPLH, '        *ictx_ptr = &OSHMPI_global.symm_data_ictx;\n', '        *ictx_ptr = &OSHMPI_global.symm_heap_ictx;\n'))
bad('C08', 'ctx-attr-default', (IMPLH, '    if (ctx != SHMEM_CTX_DEFAULT) {\n', '    if (ctx != SHMEM_CTX_DEFAULT && ctx->sobj_attr.memkind != SHMEMX_MEM_HOST) {\n'))
bad('C08', 'space-first', (IMPLH, '        if (OSHMPI_sobj_check_range(abs_addr, space->sobj_attr)) {\n', '        if (OSHMPI_sobj_check_range(abs_addr, space->sobj_attr) || !space->next) {\n'))
bad('C08', 'disp-swapped', (IMPLH, 'MPI_Aint_diff(abs_disp, base_disp)', 'MPI_Aint_diff(base_disp, abs_disp)'))
bad('C08', 'handler-data-heap', (IMPLH, '            *vaddr = (void *) ((char *) OSHMPI_global.symm_data_attr.base + disp);', '            *vaddr = (void *) ((char *) OSHMPI_global.symm_heap_attr.base + disp);'))
bad('C08', 'handler-space-any', (IMPLH, 'if (space->sobj_attr.handle == sobj_handle) {', 'if (OSHMPI_SOBJ_HANDLE_GET_KIND(space->sobj_attr.handle) == OSHMPI_SOBJ_SPACE_ATTACHED_HEAP) {'))
bad('C08', 'handler-space-idx', (IMPLH, 'if (space->sobj_attr.handle == sobj_handle) {', 'if ((space->sobj_attr.handle & 0xff) == (sobj_handle & 0xff)) {'))
bad('C08', 'kind-shift', (IMPLH, '#define OSHMPI_SOBJ_HANDLE_GET_KIND(handle) (((handle) & OSHMPI_SOBJ_HANDLE_KIND_MASK) >> OSHMPI_SOBJ_HANDLE_KIND_SHIFT)', '#define OSHMPI_SOBJ_HANDLE_GET_KIND(handle) ((((handle) & OSHMPI_SOBJ_HANDLE_KIND_MASK) >> OSHMPI_SOBJ_HANDLE_KIND_SHIFT) & 1)'))
bad('C08', 'attach-idx-reuse', (SP, '    space_attach_idx++;\n', '    space_attach_idx = OSHMPI_global.space_list.nspaces;\n'))
bad('C08', 'attach-copy-early', (SP, '            ctx_list[i].sobj_attr = space->sobj_attr;\n', '            if (i == 0) ctx_list[i].sobj_attr = space->sobj_attr;\n'))
bad('C08', 'attach-size', (SP, '    space_ictx_create(space->sobj_attr.base, (MPI_Aint) space->sobj_attr.size, info,\n                      &default_ictx);', '    space_ictx_create(space->sobj_attr.base, (MPI_Aint) space->config.sheap_size, info,\n                      &default_ictx);'))
bad('C08', 'disp-unit', (SP, '1 /* disp_unit */', 'sizeof(long) /* disp_unit */'))
bad('C08', 'heap-true-size', (SETUP, '    OSHMPI_sobj_init_attr(&OSHMPI_global.symm_heap_attr, SHMEMX_MEM_HOST, base, true_size);', '    OSHMPI_sobj_init_attr(&OSHMPI_global.symm_heap_attr, SHMEMX_MEM_HOST, base, OSHMPI_env.symm_heap_size);'), nth='all')
bad('C08', 'am-get-handle', (RAMHH, '    get_pkt->sobj_handle = sobj_attr->handle;', '    get_pkt->sobj_handle = OSHMPI_global.symm_heap_attr.handle;'))
bad('C08', 'amo-ctx-ignored', (AMO, '    OSHMPI_sobj_query_attr_ictx(ctx, (const void *) dest, pe, &sobj_attr, &ictx);', '    OSHMPI_sobj_query_attr_ictx(SHMEM_CTX_DEFAULT, (const void *) dest, pe, &sobj_attr, &ictx);'))
ok('C08', 'range-unsigned', (IMPLH, '    return ((MPI_Aint) ptr >= (MPI_Aint) sobj_attr.base\n            && (MPI_Aint) ptr < (MPI_Aint) sobj_attr.base + sobj_attr.size) ? 1 : 0;', '    const char *b = (const char *) sobj_attr.base, *p = (const char *) ptr;\n    if (p < b || p - b >= sobj_attr.size)\n        return 0;\n    return 1;'))
ok('C08', 'range-ult', (IMPLH, '    return ((MPI_Aint) ptr >= (MPI_Aint) sobj_attr.base\n            && (MPI_Aint) ptr < (MPI_Aint) sobj_attr.base + sobj_attr.size) ? 1 : 0;', '    return (uint64_t) ((MPI_Aint) ptr - (MPI_Aint) sobj_attr.base) < (uint64_t) sobj_attr.size;'))
ok('C08', 'disp-plain', (IMPLH, '            OSHMPI_CALLMPI(*disp_ptr = MPI_Aint_diff(abs_disp, base_disp));', '            *disp_ptr = (const char *) abs_addr - (const char *) sobj_attr->base;'))
ok('C08', 'handler-if', (IMPLH, '    switch (OSHMPI_SOBJ_HANDLE_GET_KIND(sobj_handle)) {\n        case OSHMPI_SOBJ_SYMM_HEAP:', '    const int kind = (int) (sobj_handle >> 30);\n    switch (kind) {\n        case OSHMPI_SOBJ_SYMM_HEAP:'))
ok('C08', 'attach-size-alt', (SP, '    space_ictx_create(space->sobj_attr.base, (MPI_Aint) space->sobj_attr.size, info,\n                      &default_ictx);', '    const OSHMPI_sobj_attr_t *a = &space->sobj_attr;\n    const MPI_Aint sz = a->size;\n    space_ictx_create(a->base, sz, info, &default_ictx);'))
ok('C08', 'attach-copy-first', (SP, '            space_ictx_create(space->sobj_attr.base, (MPI_Aint) space->sobj_attr.size,\n                              info, &ctx_list[i].ictx);\n', ''), (SP, '            ctx_list[i].sobj_attr = space->sobj_attr;\n', '            ctx_list[i].sobj_attr = space->sobj_attr;\n            space_ictx_create(space->sobj_attr.base, (MPI_Aint) space->sobj_attr.size,\n                              info, &ctx_list[i].ictx);\n'))

# ---- C09
bad('C09', 'am-put-bytes', (RAMH, 'put_pkt->bytes = typesz * nelems;', 'put_pkt->bytes = sizeof(int) * nelems;'))
bad('C09', 'am-get-bytes', (RAMH, 'get_pkt->bytes = typesz * nelems;', 'get_pkt->bytes = typesz * (nelems > 1 ? nelems : 1) + (nelems > 1024 ? 1 : 0);'))
bad('C09', 'put-skips-single', (RMA, '    if (nelems == 0)\n        return;', '    if (nelems < 2)\n        return;'), nth=0)
bad('C09', 'get-nbi-large-skipped', (RMA, '    if (nelems == 0)\n        return;', '    if (nelems == 0 || (int) nelems < 0)\n        return;'), nth=3)
bad('C09', 'put-handler-bytes', (RAMC, 'MPI_Recv(dest, put_pkt->bytes, MPI_BYTE', 'MPI_Recv(dest, put_pkt->bytes / 2, MPI_BYTE'))
bad('C09', 'am-put-local', (RAMH, 'MPI_Isend(origin_addr, nelems, mpi_type, pe, put_pkt->ptag', 'MPI_Isend(target_addr, nelems, mpi_type, pe, put_pkt->ptag'))
bad('C09', 'get-target-count', (RMA, 'MPI_Get(origin_addr, (int) origin_count, origin_type, pe,\n                               target_disp, (int) target_count', 'MPI_Get(origin_addr, (int) origin_count, origin_type, pe,\n                               target_disp, (int) target_count - (target_count > 4096)'))
bad('C09', 'put-self-pe', (RMA, 'OSHMPI_CALLMPI(MPI_Put(origin_addr, (int) origin_count, origin_type, pe,', 'OSHMPI_CALLMPI(MPI_Put(origin_addr, (int) origin_count, origin_type, pe == 0 ? 0 : OSHMPI_global.team_world_n_pes - 1,'))
bad('C09', 'am-put-twice', (RAMH, '    OSHMPI_CALLMPI(MPI_Isend(&pkt, sizeof(OSHMPI_am_pkt_t), MPI_BYTE, pe, OSHMPI_AM_PKT_TAG,\n                             OSHMPI_am.comm, &reqs[0]));\n    OSHMPI_CALLMPI(MPI_Isend(origin_addr, nelems',
    '    if (nelems > 100000) OSHMPI_CALLMPI(MPI_Put(origin_addr, nelems, mpi_type, pe, put_pkt->target_disp, nelems, mpi_type, ictx->win));\n    OSHMPI_CALLMPI(MPI_Isend(&pkt, sizeof(OSHMPI_am_pkt_t), MPI_BYTE, pe, OSHMPI_AM_PKT_TAG,\n                             OSHMPI_am.comm, &reqs[0]));\n    OSHMPI_CALLMPI(MPI_Isend(origin_addr, nelems'))
bad('C09', 'p-promoted', ('src/shmem/rma_typed.c.tpl', 'OSHMPI_ctx_put(SHMEM_CTX_DEFAULT, MPI_TYPE, sizeof(TYPE), &value', 'value = (TYPE) (int) value; OSHMPI_ctx_put(SHMEM_CTX_DEFAULT, MPI_TYPE, sizeof(TYPE), &value'))
ok('C09', 'bytes-loop', (RAMH, 'put_pkt->bytes = typesz * nelems;', 'put_pkt->bytes = nelems * typesz;'))
ok('C09', 'as-bytes', (RAMH, 'MPI_Isend(origin_addr, nelems, mpi_type, pe, put_pkt->ptag', 'MPI_Isend(origin_addr, put_pkt->bytes, MPI_BYTE, pe, put_pkt->ptag'))
ok('C09', 'payload-first', (RAMH, '    OSHMPI_CALLMPI(MPI_Isend(&pkt, sizeof(OSHMPI_am_pkt_t), MPI_BYTE, pe, OSHMPI_AM_PKT_TAG,\n                             OSHMPI_am.comm, &reqs[0]));\n    OSHMPI_CALLMPI(MPI_Isend(origin_addr, nelems, mpi_type, pe, put_pkt->ptag,\n                             OSHMPI_am.comm, &reqs[1]));',
    '    OSHMPI_CALLMPI(MPI_Isend(origin_addr, nelems, mpi_type, pe, put_pkt->ptag,\n                             OSHMPI_am.comm, &reqs[1]));\n    OSHMPI_CALLMPI(MPI_Isend(&pkt, sizeof(OSHMPI_am_pkt_t), MPI_BYTE, pe, OSHMPI_AM_PKT_TAG,\n                             OSHMPI_am.comm, &reqs[0]));'))
ok('C09', 'not-zero', (RMA, '    if (nelems == 0)\n        return;', '    if (!(nelems > 0))\n        return;'), nth='all')

# ---- C10
bad('C10', 'iput-swapped', (RMA, '                          target_st, origin_st, nelems, pe, sobj_attr);\n        ctx_local', '                          origin_st, target_st, nelems, pe, sobj_attr);\n        ctx_local'))
bad('C10', 'am-iput-stride', (RAMH, 'iput_pkt->target_st = target_st;', 'iput_pkt->target_st = origin_st;'))
bad('C10', 'am-iget-nelems', (RAMH, 'iget_pkt->nelems = nelems;', 'iget_pkt->nelems = nelems * target_st;'))
bad('C10', 'cache-no-stride', (STR, '        if (dobj->nelems == nelems && dobj->stride == stride\n', '        if (dobj->nelems == nelems\n'))
bad('C10', 'cache-no-nelems', (STR, '        if (dobj->nelems == nelems && dobj->stride == stride\n', '        if (dobj->nelems >= nelems && dobj->stride == stride\n'))
bad('C10', 'cache-no-dtype', (STR, '            && dobj->dtype == mpi_type && ', '            && '))
bad('C10', 'cache-no-ext', (STR, ' && dobj->ext_nelems == required_ext_nelems', ''))
bad('C10', 'cache-store', (STR, 'dobj->nelems = nelems;', 'dobj->nelems = nelems > 1 ? nelems : 1;'))
bad('C10', 'same-stride', (RMA, 'if (origin_st == target_st) {', 'if (origin_st == target_st || nelems < 3) {'), nth=0)
bad('C10', 'fast-contig', (STR, 'if (stride == 1) {', 'if (stride <= 1) {'))
bad('C10', 'block', (STR, 'MPI_Type_vector((int) nelems, 1, (int) stride', 'MPI_Type_vector((int) nelems, stride > 2 ? 2 : 1, (int) stride'))
bad('C10', 'handler-contig', (RAMC, 'OSHMPI_create_strided_dtype(iget_pkt->nelems, iget_pkt->target_st,', 'OSHMPI_create_strided_dtype(iget_pkt->nelems, iget_pkt->nelems > 1 ? iget_pkt->target_st : 1,'))
bad('C10', 'iget-wrong-side', (RMA, '                          origin_st, target_st, nelems, pe, OSHMPI_OP_COMPLETED', '                          target_st, origin_st, nelems, pe, OSHMPI_OP_COMPLETED'))
ok('C10', 'always-two', (RMA, 'if (origin_st == target_st) {\n        target_type = origin_type;\n        target_count = origin_count;\n    } else', ''), (RMA, '    if (origin_st != target_st)\n        OSHMPI_free', '    OSHMPI_free'))
ok('C10', 'cache-order', (STR, '        if (dobj->nelems == nelems && dobj->stride == stride\n            && dobj->dtype == mpi_type && dobj->ext_nelems == required_ext_nelems) {', '        if (dobj->ext_nelems != required_ext_nelems || dobj->dtype != mpi_type) continue;\n        if (dobj->stride == stride && nelems == dobj->nelems) {'))
ok('C10', 'no-fast-path', (STR, 'if (stride == 1) {', 'if (0) {'))
ok('C10', 'cache-while', (STR, '    LL_FOREACH(OSHMPI_strided_dtype_cache.head, dobj) {', '    for (; dobj; dobj = dobj->next) {'))

# ---- C11
AG = 'OSHMPI_am_progress_mpi_allgather(source, nelems, mpi_type, dest, nelems, mpi_type'
bad('C11', 'world-no-size', (ASET, ' && PE_size == OSHMPI_global.team_world_n_pes) {', ') {'))
bad('C11', 'world-size-ge', (ASET, ' && PE_size == OSHMPI_global.team_world_n_pes) {', ' && 2 * PE_size > OSHMPI_global.team_world_n_pes) {'))
bad('C11', 'world-no-start', (ASET, 'if (PE_start == 0 && logPE', 'if (PE_start >= 0 && logPE'))
bad('C11', 'cache-no-stride', (ASET, 'cobj->pe_start == PE_start && cobj->pe_stride == logPE_stride', 'cobj->pe_start == PE_start'))
bad('C11', 'cache-size-ge', (ASET, 'cobj->pe_size == PE_size', 'cobj->pe_size >= PE_size'))
bad('C11', 'cache-sum', (ASET, 'cobj->pe_start == PE_start && cobj->pe_stride == logPE_stride', 'cobj->pe_start + cobj->pe_stride == PE_start + logPE_stride'))
bad('C11', 'cache-fill', (ASET, 'cobj->pe_stride = logPE_stride;', 'cobj->pe_stride = 1 << logPE_stride;'))
bad('C11', 'cache-fill-size', (ASET, 'cobj->pe_size = PE_size;', 'cobj->pe_size = PE_start + PE_size;'))
bad('C11', 'list-log', (ASET, 'pe_list[i] = PE_start + i * pe_stride;', 'pe_list[i] = PE_start + i * logPE_stride;'))
bad('C11', 'list-short', (ASET, 'for (int i = 0; i < PE_size; i++)\n        pe_list', 'pe_list[0] = PE_start; for (int i = 1; i < PE_size - 1; i++)\n        pe_list'))
bad('C11', 'root-log', (ASET, 'PE_start + PE_root * (1 << logPE_stride)', 'PE_start + PE_root * (1 << logPE_stride) % 64'))
bad('C11', 'root-abs', (ASET, 'nelems, mpi_type, PE_root, comm);', 'nelems, mpi_type, root_pe, comm);'))
bad('C11', 'root-cmp', (ASET, 'const int root_pe = PE_start + PE_root * (1 << logPE_stride);', 'const int root_pe = PE_root;'))
bad('C11', 'team-root-copy', (CS, '        memcpy(dest, source, nelems * (size_t) extent);', '        memcpy(dest, source, nelems);'))
bad('C11', 'team-root-nocopy', (CS, '        memcpy(dest, source, nelems * (size_t) extent);', '        if (PE_root == 0) memcpy(dest, source, nelems * (size_t) extent);'))
bad('C11', 'displs', (CS, 'rdispls[i] = rdispls[i - 1] + rcounts[i - 1];', 'rdispls[i] = rdispls[i - 1] + rcounts[i];'))
bad('C11', 'displs-own', (ASET, 'rdispls[i] = rdispls[i - 1] + rcounts[i - 1];', 'rdispls[i] = rdispls[i - 1] + nelems;'))
bad('C11', 'same-last', (CS, 'same_nelems &= (nelems == rcounts[i]);', 'same_nelems = (nelems == rcounts[i]);'))
bad('C11', 'same-or', (ASET, 'same_nelems &= (nelems == rcounts[i]);', 'same_nelems |= (nelems == rcounts[i]);'))
bad('C11', 'same-le', (CS, 'same_nelems &= (nelems == rcounts[i]);', 'same_nelems &= (nelems >= rcounts[i]);'))
bad('C11', 'same-first', (CS, 'same_nelems = (nelems == rcounts[0]) ? 1 : 0;', 'same_nelems = 1;'))
bad('C11', 'same-short', (CS, '    for (int i = 1; i < comm_size; i++) {\n        rdispls[i] = rdispls[i - 1] + rcounts[i - 1];', '    for (int i = 1; i < comm_size; i++)\n        rdispls[i] = rdispls[i - 1] + rcounts[i - 1];\n    for (int i = 1; i < team->my_pe; i++) {'))
bad('C11', 'a2as-dst', (CS, 'OSHMPI_create_strided_dtype(nelems, dst, mpi_type, nelems * dst', 'OSHMPI_create_strided_dtype(nelems, dst, mpi_type, nelems * sst'))
bad('C11', 'a2as-same', (ASET, '    if (dst == sst) {', '    if (dst == sst || nelems == 2) {'))
bad('C11', 'a2as-ext', (STR, '(vtype, 0, required_ext_nelems * elem_bytes', '(vtype, 0, (required_ext_nelems < 3 ? 1 : 0) + required_ext_nelems * elem_bytes'))
bad('C11', 'fcollect-world', (CS, AG + ', team->comm);\n}', AG + ', OSHMPI_global.team_world_comm);\n}'))
bad('C11', 'sync-world', (CS, 'OSHMPI_am_progress_mpi_barrier(team->comm);', 'OSHMPI_am_progress_mpi_barrier(team->n_pes > 1 ? OSHMPI_global.team_world_comm : team->comm);'))
bad('C11', 'reduce-count', (CS, 'dest, (int) nreduce, mpi_type', 'dest, (int) (nreduce & 0xffff), mpi_type'))
bad('C11', 'reduce-inplace', (ASET, '(source == dest) ? MPI_IN_PLACE', '(source <= dest) ? MPI_IN_PLACE'))
bad('C11', 'team-handle', (CS, 'PE_root, team->comm);\n\n', 'PE_root % team->n_pes, team->comm);\n\n'))
ok('C11', 'list-running', (ASET, '    for (int i = 0; i < PE_size; i++)\n        pe_list[i] = PE_start + i * pe_stride;', '    int pe = PE_start;\n    for (int i = 0; i < PE_size; i++) {\n        pe_list[i] = pe;\n        pe += pe_stride;\n    }'))
ok('C11', 'list-shift', (ASET, 'pe_list[i] = PE_start + i * pe_stride;', 'pe_list[i] = PE_start + (i << logPE_stride);'))
ok('C11', 'list-while', (ASET, '    for (int i = 0; i < PE_size; i++)\n        pe_list[i] = PE_start + i * pe_stride;', '    int i = PE_size;\n    while (i-- > 0)\n        pe_list[i] = i * pe_stride + PE_start;'))
ok('C11', 'root-shift', (ASET, 'PE_start + PE_root * (1 << logPE_stride)', '(PE_root << logPE_stride) + PE_start'))
ok('C11', 'displs-running', (CS, '    rdispls[0] = 0;\n    same_nelems = (nelems == rcounts[0]) ? 1 : 0;\n    for (int i = 1; i < comm_size; i++) {\n        rdispls[i] = rdispls[i - 1] + rcounts[i - 1];\n        same_nelems &= (nelems == rcounts[i]);\n    }',
   '    int off = 0;\n    same_nelems = 1;\n    for (int i = 0; i < comm_size; i++) {\n        rdispls[i] = off;\n        off += rcounts[i];\n        if (rcounts[i] != nelems)\n            same_nelems = 0;\n    }'))
ok('C11', 'same-break', (ASET, '    for (int i = 1; i < PE_size; i++) {\n        rdispls[i] = rdispls[i - 1] + rcounts[i - 1];\n        same_nelems &= (nelems == rcounts[i]);\n    }',
   '    for (int i = 1; i < PE_size; i++)\n        rdispls[i] = rdispls[i - 1] + rcounts[i - 1];\n    same_nelems = 1;\n    for (int i = 0; i < PE_size; i++)\n        if (rcounts[i] != nelems) {\n            same_nelems = 0;\n            break;\n        }'))
ok('C11', 'same-count', (CS, 'same_nelems &= (nelems == rcounts[i]);', 'if (nelems != rcounts[i])\n            same_nelems = 0;'))
ok('C11', 'same-and', (ASET, 'same_nelems &= (nelems == rcounts[i]);', 'same_nelems = same_nelems && (nelems == rcounts[i]);'))
ok('C11', 'two-loops', (CS, '        rdispls[i] = rdispls[i - 1] + rcounts[i - 1];\n        same_nelems', '        rdispls[i] = rdispls[i - 1] + rcounts[i - 1];\n    }\n    for (int i = 1; i < comm_size; i++) {\n        same_nelems'))
ok('C11', 'npes', (CS, 'OSHMPI_CALLMPI(MPI_Comm_size(team->comm, &comm_size));', 'comm_size = team->n_pes;'))
ok('C11', 'world-helper', (ASET, '    if (PE_start == 0 && logPE_stride == 0 && PE_size == OSHMPI_global.team_world_n_pes) {', '    const int whole = (PE_size == OSHMPI_global.team_world_n_pes);\n    if (whole && !PE_start && !logPE_stride) {'))
ok('C11', 'cache-nest', (ASET, '        if (cobj->pe_start == PE_start && cobj->pe_stride == logPE_stride\n            && cobj->pe_size == PE_size) {', '        if (cobj->pe_start != PE_start || cobj->pe_stride != logPE_stride)\n            continue;\n        if (cobj->pe_size == PE_size) {'))
ok('C11', 'bcast-if', (CS, '    OSHMPI_am_progress_mpi_bcast(PE_root == team->my_pe ? (void *) source : dest,\n                                 nelems, mpi_type, PE_root, team->comm);', '    void *buf = dest;\n    if (PE_root == team->my_pe)\n        buf = (void *) source;\n    OSHMPI_am_progress_mpi_bcast(buf, nelems, mpi_type, PE_root, team->comm);'))
ok('C11', 'bcast-size', (CS, 'memcpy(dest, source, nelems * (size_t) extent);', 'if (dest != source)\n            memcpy(dest, source, nelems * (size_t) typesize);'))
ok('C11', 'reduce-if', (CS, '    OSHMPI_am_progress_mpi_allreduce((source == dest) ? MPI_IN_PLACE : source,\n                                     dest', '    const void *src = source;\n    if (dest == source)\n        src = MPI_IN_PLACE;\n    OSHMPI_am_progress_mpi_allreduce(src, dest'))

# ---- C12
MS = 'OSHMPI_global.symm_heap_mspace, '
bad('C12', 'malloc-size', (MEM, 'mspace_malloc(OSHMPI_global.symm_heap_mspace, size)', 'mspace_malloc(OSHMPI_global.symm_heap_mspace, size + (OSHMPI_global.team_world_my_pe == 3))'))
bad('C12', 'malloc-skip-barrier', (MEM, '    OSHMPI_barrier_all();\n    return ptr;', '    if (ptr)\n        OSHMPI_barrier_all();\n    return ptr;'), nth=0)
bad('C12', 'align-no-barrier', (MEM, '    OSHMPI_barrier_all();\n    return ptr;', '    return ptr;'), nth=1)
bad('C12', 'align-swapped', (MEM, 'alignment, size);\n    OSHMPI_THREAD', 'size, alignment);\n    OSHMPI_THREAD'))
bad('C12', 'calloc-count', (MEM, 'mspace_calloc(OSHMPI_global.symm_heap_mspace, count, size)', 'mspace_calloc(OSHMPI_global.symm_heap_mspace, 1, size)'))
bad('C12', 'free-late-barrier', (MEM, '    OSHMPI_DBGMSG("ptr %p\\n", ptr);\n    OSHMPI_barrier_all();', '    OSHMPI_DBGMSG("ptr %p\\n", ptr);'), )
bad('C12', 'free-first-space', (MEM, '                OSHMPI_space_free(space, ptr);\n                break;\n            }', '                OSHMPI_space_free(space, ptr);\n            }\n            break;'))
bad('C12', 'free-any-space', (MEM, 'if (OSHMPI_sobj_check_range(ptr, space->sobj_attr)) {', 'if (ptr >= space->sobj_attr.base) {'))
bad('C12', 'free-heap-base', (MEM, 'if (OSHMPI_sobj_check_range(ptr, OSHMPI_global.symm_heap_attr)) {', 'if (ptr >= OSHMPI_global.symm_heap_attr.base) {'))
bad('C12', 'realloc-no-pre', (MEM, '    if (ptr != NULL)\n        OSHMPI_barrier_all();', ''))
bad('C12', 'realloc-grow-only', (MEM, '    if (ptr != NULL)\n        OSHMPI_barrier_all();', '    if (ptr != NULL && size > 64)\n        OSHMPI_barrier_all();'))
bad('C12', 'realloc-zero', (MEM, '    if (size == 0)      /* only free the buffer */', '    if (size <= 8)'))
bad('C12', 'realloc-nozero', (MEM, '    if (size == 0 && ptr == NULL)', '    if (size == 0)'))
bad('C12', 'hints-skip', ('src/shmem/mem.c', '    void *ptr = NULL;\n    OSHMPI_NOINLINE_RECURSIVE()\n        ptr = OSHMPI_malloc(size);\n    return ptr;\n}\n\nvoid *shmem_calloc', '    void *ptr = NULL;\n    if (hints < 0)\n        return ptr;\n    OSHMPI_NOINLINE_RECURSIVE()\n        ptr = OSHMPI_malloc(size);\n    return ptr;\n}\n\nvoid *shmem_calloc'))
bad('C12', 'team-alloc', ('src/internal/team_impl.c', '    new_team = (OSHMPI_team_t *) OSHMPIU_malloc', '    mspace_malloc(OSHMPI_global.symm_heap_mspace, 8);\n    new_team = (OSHMPI_team_t *) OSHMPIU_malloc'), nth=0)
bad('C12', 'heap-capacity', (SETUP, 'create_mspace_with_base(base, true_size,', 'create_mspace_with_base(base, true_size + OSHMPI_global.page_sz,'), nth='all')
bad('C12', 'heap-attr-size', (SETUP, 'OSHMPI_sobj_init_attr(&OSHMPI_global.symm_heap_attr, SHMEMX_MEM_HOST, base, true_size);', 'OSHMPI_sobj_init_attr(&OSHMPI_global.symm_heap_attr, SHMEMX_MEM_HOST, base, size);'), nth='all')
bad('C12', 'no-limit', (SETUP, '    mspace_set_footprint_limit(OSHMPI_global.symm_heap_mspace, true_size);\n', ''), nth='all')
bad('C12', 'limit-env', (SETUP, 'mspace_set_footprint_limit(OSHMPI_global.symm_heap_mspace, true_size);', 'mspace_set_footprint_limit(OSHMPI_global.symm_heap_mspace, 2 * true_size);'), nth='all')
bad('C12', 'pool-chunk', ('src/internal/util/mem_pool.c', 'int off = ((char *) ptr - (char *) mem_pool->base) / mem_pool->chunk_size;', 'int off = ((char *) ptr - (char *) mem_pool->base) / mem_pool->chunk_size * 2;'))
ok('C12', 'free-while', (MEM, 'LL_FOREACH_SAFE(OSHMPI_global.space_list.head, space, tmp) {', '(void) tmp;\n        for (space = OSHMPI_global.space_list.head; space != NULL; space = space->next) {'))
ok('C12', 'malloc-else', (MEM, '    if (size == 0)\n        return ptr;\n\n    OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.symm_heap_mspace_cs);\n    ptr = mspace_malloc', '    if (!(size > 0))\n        return NULL;\n\n    OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.symm_heap_mspace_cs);\n    ptr = mspace_malloc'))
ok('C12', 'calloc-helper', (MEM, '    if (size == 0)\n        return ptr;\n\n    OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.symm_heap_mspace_cs);\n    ptr = mspace_calloc', '    const size_t total = count * size;\n    if (size == 0 || total == 0)\n        OSHMPI_DBGMSG("nothing\\n");\n    OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.symm_heap_mspace_cs);\n    ptr = mspace_calloc'))
ok('C12', 'realloc-order', (MEM, '    if (size == 0)      /* only free the buffer */\n        mspace_free(OSHMPI_global.symm_heap_mspace, ptr);\n    else\n        rptr = mspace_realloc(OSHMPI_global.symm_heap_mspace, ptr, size);', '    if (size) {\n        rptr = mspace_realloc(OSHMPI_global.symm_heap_mspace, ptr, size);\n    } else {\n        mspace_free(OSHMPI_global.symm_heap_mspace, ptr);\n    }'))
ok('C12', 'limit-first', (SETUP, '    OSHMPI_ASSERT(OSHMPI_global.symm_heap_mspace != NULL);\n    /* Memory mapped by the allocator when the heap is exhausted is not remotely accessible */\n    mspace_set_footprint_limit(OSHMPI_global.symm_heap_mspace, true_size);', '    mspace_set_footprint_limit(OSHMPI_global.symm_heap_mspace, true_size);\n    OSHMPI_ASSERT(OSHMPI_global.symm_heap_mspace != NULL);'), nth='all')
ok('C12', 'no-mmap', ('src/internal/util/dlmalloc.c', '#ifndef DLMALLOC_EXPORT', '#define HAVE_MMAP 0\n#define HAVE_MORECORE 0\n#ifndef DLMALLOC_EXPORT'), (SETUP, '    mspace_set_footprint_limit(OSHMPI_global.symm_heap_mspace, true_size);\n', ''), (SETUP, '    mspace_set_footprint_limit(OSHMPI_global.symm_heap_mspace, true_size);\n', ''))

# ---- C13
LCK = 'src/internal/lock_impl.h'
bad('C13', 'set-cas', (LCK, '(&myid, &curid, MPI_INT, OSHMPI_LOCK_ROOT_WRANK, lock_last_disp, MPI_REPLACE,', '(&myid, &curid, MPI_INT, OSHMPI_LOCK_ROOT_WRANK, lock_last_disp, MPI_SUM,'))
bad('C13', 'set-noreset', (LCK, '    lock->next = 0;\n    OSHMPI_CALLMPI(MPI_Win_sync(ictx->win));\n\n    /* Claim', '    /* Claim'))
bad('C13', 'set-nosync', (LCK, '    lock->next = 0;\n    OSHMPI_CALLMPI(MPI_Win_sync(ictx->win));\n\n    /* Claim', '    lock->next = 0;\n    /* Claim'))
bad('C13', 'set-late-reset', (LCK, '    lock->next = 0;\n    OSHMPI_CALLMPI(MPI_Win_sync(ictx->win));\n\n    /* Claim', '    /* Claim'),
    (LCK, '    /* If I am not the last, notify the previous last about me, and wait for release */', '    lock->next = 0;\n    OSHMPI_CALLMPI(MPI_Win_sync(ictx->win));\n'))
bad('C13', 'set-noflush', (LCK, 'MPI_REPLACE,\n                    ictx->win));\n    OSHMPI_CALLMPI(MPI_Win_flush(OSHMPI_LOCK_ROOT_WRANK, ictx->win));', 'MPI_REPLACE,\n                    ictx->win));'))
bad('C13', 'set-flush-wrong', (LCK, '    OSHMPI_CALLMPI(MPI_Win_flush(OSHMPI_LOCK_ROOT_WRANK, ictx->win));', '    OSHMPI_CALLMPI(MPI_Win_flush(OSHMPI_global.team_world_my_pe, ictx->win));'), nth=0)
bad('C13', 'notify-noflush', (LCK, '        OSHMPI_CALLMPI(MPI_Win_flush(curid - 1, ictx->win));\n', ''))
bad('C13', 'notify-local', (LCK, 'MPI_Win_flush(nextid - 1, ictx->win)', 'MPI_Win_flush_local(nextid - 1, ictx->win)'))
bad('C13', 'notify-put', (LCK, 'OSHMPI_CALLMPI(MPI_Accumulate(&next, 1, MPI_UNSIGNED, curid - 1, lock_next_disp,\n                                      1, MPI_UNSIGNED, MPI_BOR, ictx->win));', 'OSHMPI_CALLMPI(MPI_Put(&next, 1, MPI_UNSIGNED, curid - 1, lock_next_disp,\n                                      1, MPI_UNSIGNED, ictx->win));'))
bad('C13', 'notify-replace', (LCK, '1, MPI_UNSIGNED, MPI_BOR, ictx->win));\n        OSHMPI_CALLMPI(MPI_Win_flush(curid', '1, MPI_UNSIGNED, MPI_REPLACE, ictx->win));\n        OSHMPI_CALLMPI(MPI_Win_flush(curid'))
bad('C13', 'notify-self', (LCK, 'MPI_Accumulate(&next, 1, MPI_UNSIGNED, curid - 1,', 'MPI_Accumulate(&next, 1, MPI_UNSIGNED, curid - (curid > 3),'))
bad('C13', 'next-noid', (LCK, 'next = (unsigned int) myid;', 'next = (unsigned int) OSHMPI_global.team_world_my_pe;'))
bad('C13', 'wait-any', (LCK, '            if (SIGNAL(signal))\n', '            if (signal)\n'))
bad('C13', 'wait-next', (LCK, '            if (SIGNAL(signal))\n', '            if (NEXT(signal))\n'))
bad('C13', 'wait-exact', (LCK, '            if (SIGNAL(signal))\n', '            if (signal == SIGNAL_MASK)\n'))
bad('C13', 'wait-noflush', (LCK, '            OSHMPI_CALLMPI(MPI_Win_flush(OSHMPI_global.team_world_my_pe, ictx->win));\n            if (SIGNAL', '            if (SIGNAL'))
bad('C13', 'wait-root', (LCK, '(NULL, &signal, MPI_UNSIGNED, OSHMPI_global.team_world_my_pe,', '(NULL, &signal, MPI_UNSIGNED, OSHMPI_LOCK_ROOT_WRANK,'))
bad('C13', 'wait-load', (LCK, '            OSHMPI_CALLMPI(MPI_Fetch_and_op\n                           (NULL, &signal, MPI_UNSIGNED, OSHMPI_global.team_world_my_pe,\n                            lock_next_disp, MPI_NO_OP, ictx->win));', '            OSHMPI_CALLMPI(MPI_Get(&signal, 1, MPI_UNSIGNED, OSHMPI_global.team_world_my_pe, lock_next_disp, 1, MPI_UNSIGNED, ictx->win));'))
bad('C13', 'clear-cond', (LCK, 'if (curid != myid) {', 'if (curid > myid) {'))
bad('C13', 'clear-zero', (LCK, 'if (curid != myid) {', 'if (curid != zero) {'))
bad('C13', 'clear-swap', (LCK, '(&zero, &myid, &curid, MPI_INT,', '(&myid, &zero, &curid, MPI_INT,'))
bad('C13', 'clear-noreset', (LCK, '        lock->next = 0;\n        OSHMPI_CALLMPI(MPI_Win_sync(ictx->win));\n\n        /* Set next', '        /* Set next'))
bad('C13', 'clear-reset-early', (LCK, '        lock->next = 0;\n        OSHMPI_CALLMPI(MPI_Win_sync(ictx->win));\n\n        /* Set next', '        /* Set next'),
    (LCK, 'OSHMPI_CALLMPI(MPI_Win_flush(nextid - 1, ictx->win));', 'OSHMPI_CALLMPI(MPI_Win_flush(nextid - 1, ictx->win));\n        lock->next = 0;\n        OSHMPI_CALLMPI(MPI_Win_sync(ictx->win));'))
bad('C13', 'clear-signed', (LCK, '            nextid = NEXT(next);', '            nextid = (int) next;'))
bad('C13', 'clear-nowait', (LCK, '            if (nextid != 0)\n                break;', '            if (next != 0)\n                break;'))
bad('C13', 'signal-value', (LCK, 'signal = SIGNAL_MASK;', 'signal = 0;'))
bad('C13', 'signal-low', (LCK, '#define SIGNAL_MASK ((unsigned int)INT_MAX+1)', '#define SIGNAL_MASK 0x400u'), (LCK, '#define NEXT_MASK (INT_MAX)', '#define NEXT_MASK (0x3ff)'))
bad('C13', 'reset-long', (LCK, '    lock->next = 0;\n    OSHMPI_CALLMPI(MPI_Win_sync(ictx->win));\n\n    /* Claim', '    *lockp = 0;\n    OSHMPI_CALLMPI(MPI_Win_sync(ictx->win));\n\n    /* Claim'))
bad('C13', 'test-inv', (LCK, '    if (curid == zero) {\n        OSHMPI_DBGMSG("locked %p, curid=%d\\n", lockp, curid - 1);\n        return 0;', '    if (curid <= myid) {\n        return 0;'))
bad('C13', 'test-noflush', (LCK, '    OSHMPI_CALLMPI(MPI_Win_flush(OSHMPI_LOCK_ROOT_WRANK, ictx->win));', ''), nth=2)
bad('C13', 'test-join', (LCK, '(&myid, &zero, &curid, MPI_INT, OSHMPI_LOCK_ROOT_WRANK, lock_last_disp,\n                    ictx->win)', '(&myid, &zero, &curid, MPI_UNSIGNED, OSHMPI_LOCK_ROOT_WRANK, lock_last_disp,\n                    ictx->win)'))
bad('C13', 'test-root', (LCK, '(&myid, &zero, &curid, MPI_INT, OSHMPI_LOCK_ROOT_WRANK,', '(&myid, &zero, &curid, MPI_INT, OSHMPI_global.team_world_n_pes - 1,'))
bad('C13', 'test-id', (LCK, '    int myid = OSHMPI_global.team_world_my_pe + 1;', '    int myid = OSHMPI_global.team_world_my_pe + 2;'), nth=2)
bad('C13', 'set-return', (LCK, '    /* If I am not the last, notify the previous last about me, and wait for release */\n    if (curid != zero) {', '    if (curid > zero + 1) {'))
bad('C13', 'set-order', (LCK, '            OSHMPI_am_cb_progress();\n        }\n        OSHMPI_DBGMSG("released', '            if (OSHMPI_global.team_world_n_pes == 2)\n                break;\n            OSHMPI_am_cb_progress();\n        }\n        OSHMPI_DBGMSG("released'))
ok('C13', 'root1', (LCK, '#define OSHMPI_LOCK_ROOT_WRANK 0 ', '#define OSHMPI_LOCK_ROOT_WRANK 1 '))
ok('C13', 'fields', (LCK, '    int last;                   /* who', '    unsigned int next;\n    int last;                   /* who'), (LCK, '    unsigned int next;          /* sign bit: signal of lock release;\n                                 * other bits: next pe who is waiting on me to release this lock */\n', ''))
ok('C13', 'do-while', (LCK, '            nextid = NEXT(next);\n            if (nextid != 0)\n                break;\n            OSHMPI_am_cb_progress();\n        }', '            nextid = NEXT(next);\n            if (nextid == 0) {\n                OSHMPI_am_cb_progress();\n                continue;\n            }\n            break;\n        }'))
ok('C13', 'early', (LCK, '    if (curid != zero) {\n        lock_next', '    if (curid == zero)\n        return;\n    {\n        lock_next'))
ok('C13', 'sign', (LCK, '            if (SIGNAL(signal))\n', '            if ((int) signal < 0)\n'))
ok('C13', 'fetch-or', (LCK, 'OSHMPI_CALLMPI(MPI_Accumulate(&next, 1, MPI_UNSIGNED, curid - 1, lock_next_disp,\n                                      1, MPI_UNSIGNED, MPI_BOR, ictx->win));', 'unsigned int old;\n        OSHMPI_CALLMPI(MPI_Fetch_and_op(&next, &old, MPI_UNSIGNED, curid - 1, lock_next_disp, MPI_BOR, ictx->win));'))
ok('C13', 'signal-30', (LCK, '#define NEXT_MASK (INT_MAX)', '#define NEXT_MASK (0x3fffffff)'), (LCK, '#define SIGNAL_MASK ((unsigned int)INT_MAX+1)', '#define SIGNAL_MASK 0x40000000u'))
ok('C13', 'flush-all', (LCK, '    OSHMPI_CALLMPI(MPI_Win_flush(OSHMPI_LOCK_ROOT_WRANK, ictx->win));', '    OSHMPI_CALLMPI(MPI_Win_flush_all(ictx->win));'), nth='all')
ok('C13', 'flush-local', (LCK, '    OSHMPI_CALLMPI(MPI_Win_flush(OSHMPI_LOCK_ROOT_WRANK, ictx->win));', '    OSHMPI_CALLMPI(MPI_Win_flush_local(OSHMPI_LOCK_ROOT_WRANK, ictx->win));'), nth=2)
ok('C13', 'test-if', (LCK, '    OSHMPI_am_cb_progress();\n    return 1;\n', '    OSHMPI_am_cb_progress();\n    return (curid != zero) ? -1 : 0;\n'))
ok('C13', 'id-2', (LCK, 'team_world_my_pe + 1;', 'team_world_my_pe + 2;'), (LCK, 'curid - 1,', 'curid - 2,'), (LCK, 'nextid - 1,', 'nextid - 2,'), nth='all')

# ---- C14
COLC, STRC = 'src/internal/coll_impl.c', 'src/internal/strided_impl.c'
ECS, XCS = '    OSHMPI_THREAD_ENTER_CS(&%s);\n', '    OSHMPI_THREAD_EXIT_CS(&%s);\n'
HCS, LCS, DCS, CCS = 'OSHMPI_global.symm_heap_mspace_cs', 'OSHMPI_global.space_list.cs', 'OSHMPI_strided_dtype_cache.cs', 'OSHMPI_coll_comm_cache.cs'
bad('C14', 'malloc-nolock', (MEM, ECS % HCS, ''), (MEM, XCS % HCS, ''), nth=0)
bad('C14', 'malloc-noexit', (MEM, XCS % HCS, ''), nth=0)
bad('C14', 'calloc-wronglock', (MEM, ECS % HCS, ECS % LCS), (MEM, XCS % HCS, XCS % LCS), nth=3)
bad('C14', 'free-find', (MEM, '                OSHMPI_space_free(space, ptr);\n', '                OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.space_list.cs);\n                OSHMPI_space_free(space, ptr);\n'))
bad('C14', 'realloc-return', (MEM, '    if (size == 0)      /* only free the buffer */\n        mspace_free(OSHMPI_global.symm_heap_mspace, ptr);\n', '    if (size == 0) {\n        mspace_free(OSHMPI_global.symm_heap_mspace, ptr);\n        return NULL;\n    }\n'))
bad('C14', 'dcache-find-nolock', (STR, ECS % DCS, ''), (STR, XCS % DCS, ''), nth=1)
bad('C14', 'dcache-set-count', (STR, '    OSHMPI_strided_dtype_cache.nobjs++;\n    OSHMPI_THREAD_EXIT_CS(&OSHMPI_strided_dtype_cache.cs);', '    OSHMPI_THREAD_EXIT_CS(&OSHMPI_strided_dtype_cache.cs);\n    OSHMPI_strided_dtype_cache.nobjs++;'))
bad('C14', 'dcache-return', (STR, '            *strided_type = dobj->sdtype;\n            break;', '            *strided_type = dobj->sdtype;\n            return found;'))
bad('C14', 'dcache-late-init', (STR, '    dobj->sdtype = strided_type;\n\n    OSHMPI_THREAD_ENTER_CS(&OSHMPI_strided_dtype_cache.cs);\n    /* Insert in head, O(1) */\n    LL_PREPEND(OSHMPI_strided_dtype_cache.head, dobj);\n    OSHMPI_strided_dtype_cache.nobjs++;\n    OSHMPI_THREAD_EXIT_CS(&OSHMPI_strided_dtype_cache.cs);', '    OSHMPI_THREAD_ENTER_CS(&OSHMPI_strided_dtype_cache.cs);\n    /* Insert in head, O(1) */\n    LL_PREPEND(OSHMPI_strided_dtype_cache.head, dobj);\n    OSHMPI_strided_dtype_cache.nobjs++;\n    OSHMPI_THREAD_EXIT_CS(&OSHMPI_strided_dtype_cache.cs);\n    dobj->sdtype = strided_type;'))
bad('C14', 'ccache-prepend', (ASET, ECS % CCS + '    /* Insert in head, O(1) */\n    LL_PREPEND(OSHMPI_coll_comm_cache.head, cobj);\n', '    /* Insert in head, O(1) */\n    LL_PREPEND(OSHMPI_coll_comm_cache.head, cobj);\n' + ECS % CCS))
bad('C14', 'ccache-noinit', (COLC, 'OSHMPI_THREAD_INIT_CS(&OSHMPI_coll_comm_cache.cs);', ''))
bad('C14', 'dcache-nodestroy', (STRC, 'OSHMPI_THREAD_DESTROY_CS(&OSHMPI_strided_dtype_cache.cs);', ''))
bad('C14', 'quiet-nolock', (ORD, ECS % LCS, ''), (ORD, XCS % LCS, ''), nth=1)
bad('C14', 'quiet-continue', (ORD, '        /* No window exists while the space is not attached */\n', '        if (!space->ctx_list)\n            return;\n'), nth=0)
bad('C14', 'attach-nolock', (SP, ECS % LCS, ''), (SP, XCS % LCS, ''), nth=2)
bad('C14', 'create-nolock', (SP, ECS % LCS, ''), (SP, XCS % LCS, ''), nth=0)
bad('C14', 'destroy-nolock', (SP, ECS % LCS, ''), (SP, XCS % LCS, ''), nth=1)
bad('C14', 'space-noinit', (SP, '    OSHMPI_THREAD_INIT_CS(&space->mem_pool_cs);\n', ''))
bad('C14', 'space-malloc-nolock', (SP, ECS % 'space->mem_pool_cs', ''), (SP, XCS % 'space->mem_pool_cs', ''), nth=0)
bad('C14', 'space-free-nolock', (SP, ECS % 'space->mem_pool_cs', ''), (SP, XCS % 'space->mem_pool_cs', ''), nth=2)
bad('C14', 'order', (SP, ECS % 'space->mem_pool_cs' + '    ptr', ECS % 'space->mem_pool_cs' + ECS % LCS + XCS % LCS + '    ptr'), nth=0)
bad('C14', 'ctx-plain', (SP, 'if (OSHMPIU_ATOMIC_FLAG_CAS(space->ctx_list[i].used_flag, 0, 1) == 0) {', 'if (space->ctx_list[i].used_flag.v == 0) {\n            space->ctx_list[i].used_flag.v = 1;'))
bad('C14', 'progress-nolock', (AMC, ECS % 'OSHMPI_am.cb_progress_cs', ''), (AMC, XCS % 'OSHMPI_am.cb_progress_cs', ''))
bad('C14', 'progress-early', (AMC, '            am_cb_handle_pkt(am_pkt, cb_stat.MPI_SOURCE, &terminate_flag);\n            /* Do nothing', '            OSHMPI_THREAD_EXIT_CS(&OSHMPI_am.cb_progress_cs);\n            am_cb_handle_pkt(am_pkt, cb_stat.MPI_SOURCE, &terminate_flag);\n            OSHMPI_THREAD_ENTER_CS(&OSHMPI_am.cb_progress_cs);\n            /* Do nothing'))
bad('C14', 'progress-both', (AMC, '    if (OSHMPI_ENABLE_AM_ASYNC_THREAD_RUNTIME)\n        return;\n\n    am_cb_manual', '    am_cb_manual'))
bad('C14', 'thread-early', (AMC, '    memset(am_cb_funcs, 0, sizeof(am_cb_funcs));\n\n    OSHMPI_amo_am_initialize();', '    memset(am_cb_funcs, 0, sizeof(am_cb_funcs));\n    am_cb_progress_start();\n\n    OSHMPI_amo_am_initialize();'), (AMC, '    OSHMPI_THREAD_INIT_CS(&OSHMPI_am.cb_progress_cs);\n    am_cb_progress_start();', '    OSHMPI_THREAD_INIT_CS(&OSHMPI_am.cb_progress_cs);'))
bad('C14', 'signal-late', (AMC, '    OSHMPI_CALLPTHREAD(pthread_cond_signal(&OSHMPI_am.async_cond));\n    OSHMPI_CALLPTHREAD(pthread_mutex_unlock(&OSHMPI_am.async_mutex));', '    OSHMPI_CALLPTHREAD(pthread_mutex_unlock(&OSHMPI_am.async_mutex));\n    OSHMPI_CALLPTHREAD(pthread_cond_signal(&OSHMPI_am.async_cond));'))
bad('C14', 'done-nolock', (AMC, '    OSHMPI_CALLPTHREAD(pthread_mutex_lock(&OSHMPI_am.async_mutex));\n    OSHMPI_am.async_thread_done = 1;', '    OSHMPI_am.async_thread_done = 1;\n    OSHMPI_CALLPTHREAD(pthread_mutex_lock(&OSHMPI_am.async_mutex));'))
bad('C14', 'forget-am', (AM, 'OSHMPI_CLEAR_OUTSTANDING_FLAG(', 'OSHMPIU_ATOMIC_FLAG_STORE('), (AM, '_flags[pe]);\n    }\n}', '_flags[pe], 0);\n    }\n}'))
bad('C14', 'forget-fetch', (AAMH, 'OSHMPI_CLEAR_OUTSTANDING_FLAG(OSHMPI_am.outstanding_op_flags[pe]);', 'OSHMPIU_ATOMIC_FLAG_STORE(OSHMPI_am.outstanding_op_flags[pe], 0);'), nth=1)
bad('C14', 'forget-rma', (ORD, '#define RESET_FLAG(flag) OSHMPI_CLEAR_OUTSTANDING_FLAG(flag)', '#define RESET_FLAG(flag) OSHMPIU_ATOMIC_FLAG_STORE(flag, 0)'))
bad('C14', 'barrier-locked', (MEM, '    OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.symm_heap_mspace_cs);\n\n    OSHMPI_DBGMSG("alignment %ld size %ld -> %p\\n", alignment, size, ptr);\n    OSHMPI_barrier_all();', '    OSHMPI_DBGMSG("alignment %ld size %ld -> %p\\n", alignment, size, ptr);\n    OSHMPI_barrier_all();\n    OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.symm_heap_mspace_cs);'))
bad('C14', 'static-scratch', (RMA, '    MPI_Aint target_disp = -1;', '    static MPI_Aint target_disp = -1;'), nth=0)
bad('C14', 'level', (IMPL, '    if (OSHMPI_global.thread_level == SHMEM_THREAD_MULTIPLE) {        \\\n', '    if (OSHMPI_global.thread_level == SHMEM_THREAD_MULTIPLE && OSHMPI_env.enable_async_thread) {        \\\n'))
ok('C14', 'malloc-helper', (MEM, 'void *OSHMPI_malloc(size_t size)\n{', 'static void *locked_alloc(size_t size)\n{\n    void *p;\n    OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.symm_heap_mspace_cs);\n    p = mspace_malloc(OSHMPI_global.symm_heap_mspace, size);\n    OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.symm_heap_mspace_cs);\n    return p;\n}\n\nvoid *OSHMPI_malloc(size_t size)\n{'),
   (MEM, '    OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.symm_heap_mspace_cs);\n    ptr = mspace_malloc(OSHMPI_global.symm_heap_mspace, size);\n    OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.symm_heap_mspace_cs);\n\n    OSHMPI_DBGMSG("size', '    ptr = locked_alloc(size);\n    OSHMPI_DBGMSG("size'))
ok('C14', 'free-goto', (MEM, '                OSHMPI_space_free(space, ptr);\n                break;\n', '                OSHMPI_space_free(space, ptr);\n                goto done;\n'), (MEM, '        OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.space_list.cs);\n', '      done:\n        OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.space_list.cs);\n'))
ok('C14', 'dcache-while', (STR, '    LL_FOREACH(OSHMPI_strided_dtype_cache.head, dobj) {', '    for (dobj = OSHMPI_strided_dtype_cache.head; dobj != NULL; dobj = dobj->next) {'))
ok('C14', 'ccache-alloc-in', (ASET, ECS % CCS + '    /* Insert in head, O(1) */\n', ECS % CCS + '    cobj->group = group;\n    /* Insert in head, O(1) */\n'))
ok('C14', 'quiet-copy', (ORD, '        int i;\n', '        int i;\n        if (!space)\n            break;\n'), nth='all')
ok('C14', 'progress-while', (AMC, '    while (poll_cnt-- > 0) {', '    for (; poll_cnt > 0; poll_cnt--) {'))
ok('C14', 'flush-noclear', (AM, '        OSHMPI_CLEAR_OUTSTANDING_FLAG(OSHMPI_am.outstanding_op_flags[pe]);', '        if (OSHMPI_global.thread_level < SHMEM_THREAD_MULTIPLE)\n            OSHMPIU_ATOMIC_FLAG_STORE(OSHMPI_am.outstanding_op_flags[pe], 0);'))

# ---- C17
P2PC, P2PT, P2PD = 'src/shmem/p2p.c', 'src/shmem/p2p_typed.c.tpl', 'maint/p2p_typedef.txt'
BS = lambda s: ''.join((l + ' ' * max(1, 96 - len(l)) + '\\\n') for l in s.strip('\n').split('\n'))
WREAD = "MPI_Fetch_and_op(NULL, &tmp_var, MPI_TYPE,                                   \\\n                                        OSHMPI_global.team_world_my_pe"
FLW = "        OSHMPI_CALLMPI(MPI_Win_flush_local(OSHMPI_global.team_world_my_pe, ictx->win));             \\\n        OSHMPI_COMP(tmp_var, comp_op, comp_value, comp_ret);                                        \\\n        if (comp_ret) break; /* skip AM progress if complete immediately */                         \\\n"
bad('C17', 'gt-ge', (P2P, 'ret = (a > b) ? 1 : 0;', 'ret = (a >= b) ? 1 : 0;'))
bad('C17', 'le-lt', (P2P, 'ret = (a <= b) ? 1 : 0;', 'ret = (a < b) ? 1 : 0;'))
bad('C17', 'swap-cases', (P2P, 'case SHMEM_CMP_GT:', 'case SHMEM_CMP_LT_:'), (P2P, 'case SHMEM_CMP_LT:', 'case SHMEM_CMP_GT:'), (P2P, 'case SHMEM_CMP_LT_:', 'case SHMEM_CMP_LT:'))
bad('C17', 'fallthrough', (P2P, 'ret = (a == b) ? 1 : 0; break; ', 'ret = (a == b) ? 1 : 0; /*FT*/'))
bad('C17', 'diff', (P2P, 'ret = (a > b) ? 1 : 0; break; ', 'ret = ((int) (a - b) > 0) ? 1 : 0; break; '))
bad('C17', 'diff-long', (P2P, 'ret = (a >= b) ? 1 : 0; break; ', 'ret = ((long) (a - b) >= 0) ? 1 : 0; break; '))
bad('C17', 'as-long', (P2P, 'ret = (a < b) ? 1 : 0; break; ', 'ret = ((long) a < (long) b) ? 1 : 0; break; '))
bad('C17', 'as-int', (P2P, 'ret = (a != b) ? 1 : 0; break; ', 'ret = ((int) a != (int) b) ? 1 : 0; break; '))
bad('C17', 'wait-int', (P2PC, 'OSHMPI_WAIT_UNTIL(ivar, SHMEM_CMP_NE, cmp_value, long long, MPI_LONG_LONG);', 'OSHMPI_WAIT_UNTIL(ivar, SHMEM_CMP_NE, cmp_value, int, MPI_INT);'))
bad('C17', 'wait-gt', (P2PC, 'OSHMPI_WAIT_UNTIL(ivar, SHMEM_CMP_NE, cmp_value, short, MPI_SHORT);', 'OSHMPI_WAIT_UNTIL(ivar, SHMEM_CMP_GT, cmp_value, short, MPI_SHORT);'))
bad('C17', 'typedef', (P2PD, 'uint32_t, uint32, MPI_UINT32_T, 0', 'uint32_t, uint32, MPI_UINT64_T, 0'))
bad('C17', 'args', (P2PT, 'OSHMPI_TEST(ivar, cmp, cmp_value, TYPE, MPI_TYPE, test_ret);', 'OSHMPI_TEST(ivar, cmp, (int) cmp_value, TYPE, MPI_TYPE, test_ret);'))
bad('C17', 'test-init', (P2PT, '    return test_ret;', '    return !test_ret;'))
bad('C17', 'test-swap', (P2P, 'OSHMPI_COMP(tmp_var, comp_op, comp_value, test_ret);   ', 'OSHMPI_COMP(comp_value, comp_op, tmp_var, test_ret);   '))
bad('C17', 'plain', (P2P, FLW, "        tmp_var = *(volatile C_TYPE *) ivar; \\\n" + FLW))
bad('C17', 'plain-only', (P2P, "        OSHMPI_CALLMPI(MPI_Fetch_and_op(NULL, &tmp_var, MPI_TYPE,                                   \\\n                                        OSHMPI_global.team_world_my_pe, target_disp, MPI_NO_OP,     \\\n                                        ictx->win));                                                \\\n", "        tmp_var = *ivar; \\\n"))
bad('C17', 'hoist', (P2P, "    while (1) {                                                                                     \\\n        OSHMPI_CALLMPI(MPI_Fetch_and_op(NULL, &tmp_var, MPI_TYPE,                                   \\\n                                        OSHMPI_global.team_world_my_pe, target_disp, MPI_NO_OP,     \\\n                                        ictx->win));                                                \\\n", "        OSHMPI_CALLMPI(MPI_Fetch_and_op(NULL, &tmp_var, MPI_TYPE,                                   \\\n                                        OSHMPI_global.team_world_my_pe, target_disp, MPI_NO_OP,     \\\n                                        ictx->win));                                                \\\n    while (1) {                                                                                     \\\n"))
bad('C17', 'root', (P2P, 'OSHMPI_global.team_world_my_pe, target_disp, MPI_NO_OP,     \\', '0, target_disp, MPI_NO_OP,     \\'), nth=0)
bad('C17', 'sum', (P2P, 'MPI_NO_OP, ', 'MPI_SUM, '), nth=1)
bad('C17', 'once', (P2P, '        if (comp_ret) break; /* skip AM progress if complete immediately */                         \\\n        OSHMPI_am_cb_progress();                                                                   \\\n', '        if (comp_ret) break; /* skip AM progress if complete immediately */                         \\\n        OSHMPI_am_cb_progress();                                                                   \\\n        if (OSHMPI_global.team_world_n_pes == 1) break; \\\n'))
bad('C17', 'sticky', (P2P, '        if (comp_ret) break; /* skip AM progress if complete immediately */                         \\\n', '        if (comp_ret || tmp_var == comp_value) break; \\\n'))
ok('C17', 'if-chain', (P2P, 'ret = (a == b) ? 1 : 0; break; ', 'if (a == b) ret = 1; else ret = 0; break; '), (P2P, 'ret = (a >= b) ? 1 : 0; ', 'ret = !(a < b); '))
ok('C17', 'swapped', (P2P, 'ret = (a > b) ? 1 : 0; ', 'ret = (b < a) ? 1 : 0; '), (P2P, 'ret = (a <= b) ? 1 : 0; ', 'ret = (a < b || a == b) ? 1 : 0; '))
ok('C17', 'do-while', (P2P, '    while (1) {  ', '    do {  '), (P2P, '        if (comp_ret) break; /* skip AM progress if complete immediately */                         \\\n        OSHMPI_am_cb_progress();                                                                   \\\n        OSHMPI_progress_poll_mpi();                                                                 \\\n    }', '        if (!comp_ret) {         \\\n        OSHMPI_am_cb_progress();                                                                   \\\n        OSHMPI_progress_poll_mpi();                                                                 \\\n    }} while (!comp_ret); if(0) {}'))
ok('C17', 'gacc', (P2P, "OSHMPI_CALLMPI(MPI_Fetch_and_op(NULL, &tmp_var, MPI_TYPE,                                       \\\n                                    OSHMPI_global.team_world_my_pe, target_disp, MPI_NO_OP,         \\\n", "OSHMPI_CALLMPI(MPI_Get_accumulate(NULL, 0, MPI_TYPE, &tmp_var, 1, MPI_TYPE, OSHMPI_global.team_world_my_pe, target_disp, 1, MPI_TYPE, MPI_NO_OP, \\\n"))
ok('C17', 'helper', (P2PC, '/* Deprecated APIs start */', 'static void wait_ne(long *ivar, long v)\n{\n    OSHMPI_WAIT_UNTIL(ivar, SHMEM_CMP_NE, v, long, MPI_LONG);\n}\n'), (P2PC, 'void shmem_long_wait(long *ivar, long cmp_value)\n{\n    /* Return when ivar is no longer equal to cmp_value. */\n    OSHMPI_WAIT_UNTIL(ivar, SHMEM_CMP_NE, cmp_value, long, MPI_LONG);', 'void shmem_long_wait(long *ivar, long cmp_value)\n{\n    wait_ne(ivar, cmp_value);'))

# ---- C16
TMC, TMI, SETC, INIC = 'src/shmem/team.c', 'src/internal/team_impl.c', 'src/shmem/setup.c', 'src/internal/setup_impl.c'
bad('C16', 'shared-world', (TMC, '        return OSHMPI_global.team_shared_my_pe;', '        return OSHMPI_global.team_world_my_pe;'))
bad('C16', 'npes-swap', (TMC, '        return _team->n_pes;', '        return _team->my_pe + 1;'))
bad('C16', 'invalid-zero', (TMC, '        return -1;\n    }\n\n    if (team == SHMEM_TEAM_WORLD) {\n        return OSHMPI_global.team_world_n_pes;', '        return 0;\n    }\n\n    if (team == SHMEM_TEAM_WORLD) {\n        return OSHMPI_global.team_world_n_pes;'))
bad('C16', 'noinvalid', (TMC, '    if (team == SHMEM_TEAM_INVALID) {\n        return -1;\n    }\n\n    if (team == SHMEM_TEAM_WORLD) {\n        return OSHMPI_global.team_world_my_pe;', '    if (team == SHMEM_TEAM_WORLD) {\n        return OSHMPI_global.team_world_my_pe;'))
bad('C16', 'config-world', (TMC, '        *config = OSHMPI_global.team_shared->config;', '        *config = OSHMPI_global.team_world->config;'))
bad('C16', 'translate-swap', (TMC, 'MPI_Group_translate_ranks(src_group, 1, &src_pe, dest_group, &dest_rank)', 'MPI_Group_translate_ranks(dest_group, 1, &src_pe, src_group, &dest_rank)'))
bad('C16', 'translate-undef', (TMC, '    if (dest_rank == MPI_UNDEFINED) {\n        dest_rank = -1;\n    }\n', ''))
bad('C16', 'translate-shared', (TMC, '        dest_group = OSHMPI_global.team_shared_group;', '        dest_group = OSHMPI_global.team_world_group;'))
bad('C16', 'translate-srcobj', (TMC, '        src_group = _src_team->group;', '        src_group = _dest_team ? _dest_team->group : OSHMPI_global.team_world_group;'))
bad('C16', 'translate-or', (TMC, 'if (src_team == SHMEM_TEAM_INVALID || dest_team == SHMEM_TEAM_INVALID) {', 'if (src_team == SHMEM_TEAM_INVALID && dest_team == SHMEM_TEAM_INVALID) {'))
bad('C16', 'strided-lt', (TMC, '(_parent_team->my_pe <= end_pe)', '(_parent_team->my_pe < end_pe)'))
bad('C16', 'strided-mod', (TMC, '((_parent_team->my_pe - start) % stride == 0)', '(_parent_team->my_pe % stride == 0)'))
bad('C16', 'strided-world-rank', (TMC, 'rank_selected = (_parent_team->my_pe >= start)', 'rank_selected = (OSHMPI_global.team_world_my_pe >= start)'))
bad('C16', 'strided-end', (TMC, 'int end_pe = start + stride * (size - 1);', 'int end_pe = start + stride * size - 1;'))
bad('C16', 'strided-bound', (TMC, 'start >= _parent_team->n_pes', 'start > _parent_team->n_pes'))
bad('C16', 'strided-npes', (TMC, 'if (start < 0 || start >= _parent_team->n_pes) {', 'if (start < 0 || start >= OSHMPI_global.team_world_n_pes) {'))
bad('C16', 'strided-ret', (TMC, '    *new_team = SHMEM_TEAM_INVALID;\n    rc = SHMEM_OTHER_ERR;', '    *new_team = SHMEM_TEAM_INVALID;'))
bad('C16', 'strided-unset', (TMC, '    *new_team = SHMEM_TEAM_INVALID;\n    rc = SHMEM_OTHER_ERR;', '    rc = SHMEM_OTHER_ERR;'))
bad('C16', 'strided-uneven', (TMC, '    if (stride == 0)\n        stride = 1;\n', '    if (stride == 0)\n        stride = 1;\n    if (_parent_team->my_pe < start)\n        goto fn_fail;\n'))
bad('C16', 'strided-config', (TMC, '            _new_team->config = *config;', '            _parent_team->config = *config;'))
bad('C16', '2d-axes', (TMC, 'OSHMPI_team_split(_parent_team, y_pos, &_new_x_team);\n    OSHMPI_team_split(_parent_team, x_pos, &_new_y_team);', 'OSHMPI_team_split(_parent_team, x_pos, &_new_x_team);\n    OSHMPI_team_split(_parent_team, y_pos, &_new_y_team);'))
bad('C16', '2d-out', (TMC, '*xaxis_team = OSHMPI_TEAM_OBJ_TO_HANDLE(_new_x_team);\n    *yaxis_team = OSHMPI_TEAM_OBJ_TO_HANDLE(_new_y_team);', '*yaxis_team = OSHMPI_TEAM_OBJ_TO_HANDLE(_new_x_team);\n    *xaxis_team = OSHMPI_TEAM_OBJ_TO_HANDLE(_new_y_team);'))
bad('C16', '2d-world', (TMC, 'int x_pos = _parent_team->my_pe % xrange;', 'int x_pos = OSHMPI_global.team_world_my_pe % xrange;'))
bad('C16', '2d-cap', (TMC, 'int y_pos = _parent_team->my_pe / xrange;', 'int y_pos = (_parent_team->my_pe / xrange) & 3;'))
bad('C16', '2d-config', (TMC, '            _new_y_team->config = *yaxis_config;', '            _new_y_team->config = *xaxis_config;'))
bad('C16', 'split-key', (TMI, 'MPI_Comm_split(team->comm, color, team->my_pe, &new_comm)', 'MPI_Comm_split(team->comm, color, -team->my_pe, &new_comm)'))
bad('C16', 'split-world', (TMI, 'MPI_Comm_split(team->comm, color, team->my_pe, &new_comm)', 'MPI_Comm_split(OSHMPI_global.team_world_comm, color, team->my_pe, &new_comm)'))
bad('C16', 'split-group', (TMI, 'MPI_Comm_group(new_comm, &new_group)', 'MPI_Comm_group(team->comm, &new_group)'))
bad('C16', 'split-size', (TMI, 'MPI_Comm_size(_new_team->comm, &_new_team->n_pes)', 'MPI_Comm_size(team->comm, &_new_team->n_pes)'))
bad('C16', 'split-rank', (TMI, '        OSHMPI_CALLMPI(MPI_Comm_rank(_new_team->comm, &_new_team->my_pe));', '        _new_team->my_pe = team->my_pe;'))
bad('C16', 'split-nonull', (TMI, 'if (new_comm != MPI_COMM_NULL) {', 'if (new_comm != NULL) {'))
bad('C16', 'destroy-nogroup', (TMI, '    OSHMPI_CALLMPI(MPI_Group_free(&((*team)->group)));\n', ''))
bad('C16', 'destroy-after', (TMI, '    OSHMPI_CALLMPI(MPI_Comm_free(&((*team)->comm)));\n    OSHMPIU_free(*team);\n', '    OSHMPIU_free(*team);\n    OSHMPI_CALLMPI(MPI_Comm_free(&((*team)->comm)));\n'))
bad('C16', 'destroy-shared', (TMC, 'if (team == SHMEM_TEAM_INVALID || team == SHMEM_TEAM_WORLD || team == SHMEM_TEAM_SHARED) {', 'if (team == SHMEM_TEAM_INVALID || team == SHMEM_TEAM_WORLD) {'))
bad('C16', 'init-shared-size', (INIC, 'MPI_Comm_size(OSHMPI_global.team_shared_comm, &OSHMPI_global.team_shared_n_pes)', 'MPI_Comm_size(OSHMPI_global.team_world_comm, &OSHMPI_global.team_shared_n_pes)'))
bad('C16', 'init-obj', (INIC, 'OSHMPI_global.team_shared->my_pe = OSHMPI_global.team_shared_my_pe;', 'OSHMPI_global.team_shared->my_pe = OSHMPI_global.team_world_my_pe;'))
bad('C16', 'init-group', (INIC, 'OSHMPI_global.team_shared->group = OSHMPI_global.team_shared_group;', 'OSHMPI_global.team_shared->group = OSHMPI_global.team_world_group;'))
bad('C16', 'accessible', (SETC, 'return (pe >= 0 && pe < OSHMPI_global.team_world_n_pes) ? 1 : 0;', 'return (pe >= 0 && pe <= OSHMPI_global.team_world_n_pes) ? 1 : 0;'))
bad('C16', 'ptr', (SETC, 'return (pe == OSHMPI_global.team_world_my_pe) ? (void *) dest : NULL;', 'return (pe == OSHMPI_global.team_shared_my_pe) ? (void *) dest : NULL;'))
bad('C16', 'npes', (SETC, '    return OSHMPI_global.team_world_n_pes;\n}\n\nvoid shmem_finalize', '    return OSHMPI_global.team_shared_n_pes;\n}\n\nvoid shmem_finalize'))
ok('C16', 'get-obj', (TMC, '    if (team == SHMEM_TEAM_WORLD) {\n        return OSHMPI_global.team_world_my_pe;\n    } else if (team == SHMEM_TEAM_SHARED) {\n        return OSHMPI_global.team_shared_my_pe;\n    } else {\n        _team = OSHMPI_TEAM_HANDLE_TO_OBJ(team);\n        return _team->my_pe;\n    }', '    OSHMPI_TEAM_GET_OBJ(team, _team);\n    return _team->my_pe;'))
ok('C16', 'translate-ternary', (TMC, '    if (dest_rank == MPI_UNDEFINED) {\n        dest_rank = -1;\n    }\n    return dest_rank;', '    return (dest_rank != MPI_UNDEFINED) ? dest_rank : -1;'))
ok('C16', 'translate-obj', (TMC, '        src_group = OSHMPI_global.team_world_group;', '        src_group = OSHMPI_global.team_world->group;'))
ok('C16', 'strided-loop', (TMC, '    rank_selected = (_parent_team->my_pe >= start) && (_parent_team->my_pe <= end_pe)\n        && ((_parent_team->my_pe - start) % stride == 0);', '    int idx = _parent_team->my_pe - start;\n    rank_selected = idx >= 0 && idx % stride == 0 && idx / stride < size;'))
ok('C16', 'strided-color', (TMC, '(rank_selected) ? 1 : MPI_UNDEFINED', '(!rank_selected) ? MPI_UNDEFINED : 7'))
ok('C16', 'strided-if', (TMC, '    rank_selected = (_parent_team->my_pe >= start) && (_parent_team->my_pe <= end_pe)\n        && ((_parent_team->my_pe - start) % stride == 0);', '    if (_parent_team->my_pe >= start && _parent_team->my_pe <= end_pe)\n        if ((_parent_team->my_pe - start) % stride == 0)\n            rank_selected = true;'))
ok('C16', '2d-mod', (TMC, 'int x_pos = _parent_team->my_pe % xrange;\n    int y_pos = _parent_team->my_pe / xrange;', 'int y_pos = _parent_team->my_pe / xrange;\n    int x_pos = _parent_team->my_pe - y_pos * xrange;'))
ok('C16', 'split-key0', (TMI, 'MPI_Comm_split(team->comm, color, team->my_pe, &new_comm)', 'MPI_Comm_split(team->comm, color, 0, &new_comm)'))
ok('C16', 'split-order', (TMI, '        OSHMPI_CALLMPI(MPI_Comm_group(new_comm, &new_group));\n        rc = OSHMPI_team_create(&_new_team);\n', '        rc = OSHMPI_team_create(&_new_team);\n        OSHMPI_CALLMPI(MPI_Comm_group(new_comm, &new_group));\n'), (TMI, 'MPI_Comm_size(_new_team->comm, &_new_team->n_pes)', 'MPI_Comm_size(new_comm, &_new_team->n_pes)'))
ok('C16', 'accessible', (SETC, 'return (pe >= 0 && pe < OSHMPI_global.team_world_n_pes) ? 1 : 0;', 'return (unsigned) pe < (unsigned) OSHMPI_global.team_world_n_pes;'))
# ---- C18
UTIL = 'src/include/oshmpi_util.h'
bad('C18', 'size-default', ('src/include/oshmpi_impl.h', '#define OSHMPI_DEFAULT_SYMM_HEAP_SIZE (1L<<27)', '#define OSHMPI_DEFAULT_SYMM_HEAP_SIZE (1L<<26)'))
bad('C18', 'size-g', (UTIL, "val *= 1024. * 1024. * 1024.;", "val *= 1024. * 1024.;"))
bad('C18', 'size-case', (UTIL, "*e == 'T' || *e == 't'", "*e == 'T'"))
bad('C18', 'size-floor', (UTIL, 'uint64_t ret_val = ceil(val);', 'uint64_t ret_val = val;'))
bad('C18', 'size-int', (UTIL, 'uint64_t ret_val = ceil(val);', 'uint64_t ret_val = (uint32_t) ceil(val);'))
bad('C18', 'size-neg', (SETUP, 'if (OSHMPI_env.symm_heap_size < 0)', 'if (OSHMPI_env.symm_heap_size < -(1L << 40))'))
bad('C18', 'size-var', (SETUP, 'getenv("SHMEM_SYMMETRIC_SIZE")', 'getenv("SHMEM_SYMMETRIC_HEAP_SIZE")'))
bad('C18', 'heap-small', (SETUP, 'size = OSHMPI_ALIGN(OSHMPI_env.symm_heap_size, OSHMPI_global.page_sz);\n    true_size = size + OSHMPI_DLMALLOC_MIN_MSPACE_SIZE;\n    true_size = OSHMPI_ALIGN(true_size, OSHMPI_global.page_sz);', 'size = OSHMPI_env.symm_heap_size & ~(OSHMPI_global.page_sz - 1);\n    true_size = size;'), nth='all')
bad('C18', 'heap-int', (SETUP, 'true_size = size + OSHMPI_DLMALLOC_MIN_MSPACE_SIZE;', 'true_size = (int) (size + OSHMPI_DLMALLOC_MIN_MSPACE_SIZE);'), nth='all')
bad('C18', 'debug-default', (SETUP, 'OSHMPI_env.debug = 0;', 'OSHMPI_env.debug = 1;'))
ok('C18', 'debug-neg', (SETUP, 'if (OSHMPI_env.debug != 0)', 'if (OSHMPI_env.debug > 0)'))
bad('C18', 'info-field', (SETUP, 'OSHMPI_env.info = atoi(val);', 'OSHMPI_env.verbose = atoi(val);'))
bad('C18', 'version-empty', (SETUP, 'val = getenv("SHMEM_VERSION");\n    if (val && strlen(val))', 'val = getenv("SHMEM_VERSION");\n    OSHMPI_env.version = 1;\n    if (val && strlen(val))'))
bad('C18', 'mpit', (SETUP, 'if (val && strlen(val) && atoi(val) == 0)', 'if (val && strlen(val) && atoi(val) != 0)'))
bad('C18', 'mpit-default', (SETUP, 'OSHMPI_env.enable_mpit = 1;', 'OSHMPI_env.enable_mpit = 0;'))
bad('C18', 'ops-prefix', (SETUP, 'strncmp(token, "fadd", strlen("fadd"))', 'strncmp(token, "fadd", 2)'))
bad('C18', 'ops-order', (SETUP, '''        if (!strncmp(token, "cswap", strlen("cswap")))
            ops |= (1 << OSHMPI_AMO_CSWAP);
        else if''', '''        if (!strncmp(token, "f", 1))
            ops |= (1 << OSHMPI_AMO_FINC);
        else if''' ))
bad('C18', 'ops-bit', (SETUP, 'ops |= (1 << OSHMPI_AMO_FOR);', 'ops |= (1 << OSHMPI_AMO_OR);'))
bad('C18', 'ops-assign', (SETUP, 'ops |= (1 << OSHMPI_AMO_XOR);', 'ops = (1 << OSHMPI_AMO_XOR);'))
bad('C18', 'ops-any', (SETUP, 'op_shift < OSHMPI_AMO_OP_LAST; op_shift++', 'op_shift < OSHMPI_AMO_XOR; op_shift++'))
bad('C18', 'ops-none', (SETUP, '    if (!strncmp(value, "none", strlen("none"))) {\n        *ops_ptr = 0;', '    if (!strncmp(value, "none", strlen("none"))) {\n        *ops_ptr = 1;'))
bad('C18', 'ops-default', (SETUP, 'set_env_amo_ops("any_op", &OSHMPI_env.amo_ops); /* default */', 'set_env_amo_ops("cswap", &OSHMPI_env.amo_ops);'))
bad('C18', 'ops-single', (SETUP, '    if (ops)\n        *ops_ptr = ops;', '    if (ops & (ops - 1))\n        *ops_ptr = ops;'))
bad('C18', 'gpu-acc', (SETUP, 'else if (!strncmp(token, "acc", strlen("acc")))\n            features |=', 'else if (!strncmp(token, "acc", strlen("acc")))\n            features &='))
bad('C18', 'gpu-default', (SETUP, 'set_env_mpi_gpu_features("all", &OSHMPI_env.mpi_gpu_features);', 'set_env_mpi_gpu_features("none", &OSHMPI_env.mpi_gpu_features);'))
bad('C18', 'dbg-swapped', (SETUP, 'val = getenv("OSHMPI_RMA_DBG_MODE");', 'val = getenv("OSHMPI_AMO_DBG_MODE");'))
bad('C18', 'dbg-default', (SETUP, 'OSHMPI_env.rma_dbg_mode = OSHMPI_DBG_AUTO;', 'OSHMPI_env.rma_dbg_mode = OSHMPI_DBG_AM;'))
bad('C18', 'level-mpi', (SETUP, '    if (mpi_provided < shm_provided) {', '    if (0) {'))
bad('C18', 'level-ask', (SETUP, 'MPI_Init_thread(NULL, NULL, shm_provided, &mpi_provided)', 'MPI_Init_thread(NULL, NULL, MPI_THREAD_SINGLE, &mpi_provided)'))
bad('C18', 'level-cap', (SETUP, '    if (required > SHMEM_THREAD_SERIALIZED)\n        shm_provided = SHMEM_THREAD_SERIALIZED;', '    if (required > SHMEM_THREAD_SERIALIZED)\n        shm_provided = required;'))
bad('C18', 'level-raise', (SETUP, '    if (mpi_provided < shm_provided) {', '    if (mpi_provided != shm_provided) {'))
bad('C18', 'level-provided', (SETUP, '        *provided = OSHMPI_global.thread_level;', '        *provided = required;'))
bad('C18', 'level-early', (SETUP, '    if (OSHMPI_global.is_initialized)\n        goto fn_exit;\n\n    initialize_env();', '    if (OSHMPI_global.is_initialized)\n        return;\n\n    initialize_env();'))
bad('C18', 'level-result', ('src/shmem/setup.c', 'return (requested <= *provided)', 'return (requested < *provided)'))
bad('C18', 'level-result-eq', ('src/shmem/setup.c', 'return (requested <= *provided)', 'return (requested == *provided)'))
bad('C18', 'level-initialized', (SETUP, '    if (mpi_initialized) {\n        /* If MPI has', '    if (!mpi_initialized) {\n        /* If MPI has'))
bad('C18', 'query', ('src/shmem/setup.c', '*provided = OSHMPI_global.thread_level;', '*provided = SHMEM_THREAD_SINGLE;'))
bad('C18', 'start-pes', ('src/shmem/setup.c', 'OSHMPI_initialize_thread(SHMEM_THREAD_SINGLE, NULL);', 'OSHMPI_initialize_thread(SHMEM_THREAD_SERIALIZED, NULL);'))
ok('C18', 'helper', (SETUP, 'static void initialize_env(void)\n{', 'static int env_flag(const char *name, int dflt)\n{\n    const char *v = getenv(name);\n    if (v == NULL || v[0] == 0)\n        return dflt;\n    return atoi(v) != 0;\n}\n\nstatic void initialize_env(void)\n{'),
   (SETUP, '    OSHMPI_env.debug = 0;\n    val = getenv("SHMEM_DEBUG");\n    if (val && strlen(val))\n        OSHMPI_env.debug = atoi(val);\n    if (OSHMPI_env.debug != 0)\n        OSHMPI_env.debug = 1;', '    OSHMPI_env.debug = env_flag("SHMEM_DEBUG", 0);'),
   (SETUP, '    OSHMPI_env.enable_mpit = 1;\n    val = getenv("OSHMPI_ENABLE_MPI_T");\n    if (val && strlen(val) && atoi(val) == 0)\n        OSHMPI_env.enable_mpit = 0;', '    OSHMPI_env.enable_mpit = env_flag("OSHMPI_ENABLE_MPI_T", 1);'))
ok('C18', 'switch-size', (UTIL, """    if (*e == 'K' || *e == 'k')
        val *= 1024.;
    else if (*e == 'M' || *e == 'm')
        val *= 1024. * 1024.;
    else if (*e == 'G' || *e == 'g')
        val *= 1024. * 1024. * 1024.;
    else if (*e == 'T' || *e == 't')
        val *= 1024. * 1024. * 1024. * 1024.;
""", """    switch (*e) {
    case 'T': case 't':
        val *= 1024.;
    case 'G': case 'g':
        val *= 1024.;
    case 'M': case 'm':
        val *= 1024.;
    case 'K': case 'k':
        val *= 1024.;
    }
"""))
ok('C18', 'size-shift', (UTIL, "    else if (*e == 'M' || *e == 'm')\n        val *= 1024. * 1024.;", "    else if (*e == 'M' || *e == 'm')\n        val *= (double) (1UL << 20);"))
ok('C18', 'ops-local', (SETUP, '    OSHMPI_env.amo_ops = 0;\n    val = getenv("OSHMPI_AMO_OPS");\n    if (val && strlen(val))\n        set_env_amo_ops(val, &OSHMPI_env.amo_ops);\n    else\n        set_env_amo_ops("any_op", &OSHMPI_env.amo_ops); /* default */', '    uint32_t amo_ops = 0;\n    val = getenv("OSHMPI_AMO_OPS");\n    set_env_amo_ops((val && *val) ? val : "any_op", &amo_ops);\n    OSHMPI_env.amo_ops = amo_ops;'))
ok('C18', 'ops-for', (SETUP, '''    token = (char *) strtok_r(value, ",", &savePtr);
    while (token != NULL) {
        /* traverse op list''', '''    for (token = (char *) strtok_r(value, ",", &savePtr); token; token = (char *) strtok_r(NULL, ",", &savePtr)) {
        /* traverse op list'''), (SETUP, '''            ops |= (1 << OSHMPI_AMO_XOR);

        token = (char *) strtok_r(NULL, ",", &savePtr);
    }''', '''            ops |= (1 << OSHMPI_AMO_XOR);
    }'''))
ok('C18', 'ops-ifs', (SETUP, '        else if (!strncmp(token, "set", strlen("set")))', '        if (!strcmp(token, "set"))'))
ok('C18', 'ops-table', (SETUP, '''        if (!strncmp(token, "cswap", strlen("cswap")))''', '''        static const struct { const char *n; int b; } tab[] = { {"zcswap", OSHMPI_AMO_CSWAP}, {"zfinc", OSHMPI_AMO_FINC} };
        for (int i = 0; i < 2; i++)
            if (!strcmp(token, tab[i].n))
                ops |= 1 << tab[i].b;
        if (!strncmp(token, "cswap", strlen("cswap")))'''))
ok('C18', 'any-const', (SETUP, '''        for (op_shift = OSHMPI_AMO_CSWAP; op_shift < OSHMPI_AMO_OP_LAST; op_shift++)
            ops |= (1 << op_shift);''', '''        op_shift = OSHMPI_AMO_OP_LAST;
        ops = (1u << op_shift) - 1;'''))
ok('C18', 'level-min', (SETUP, '        shm_provided = mpi_provided;\n    }', '    }\n    shm_provided = (shm_provided < mpi_provided) ? shm_provided : mpi_provided;'))
ok('C18', 'level-else', (SETUP, '  fn_exit:\n    if (provided)\n        *provided = OSHMPI_global.thread_level;', '  fn_exit:\n    if (!provided)\n        return;\n    *provided = OSHMPI_global.thread_level;'))
ok('C18', 'level-result', ('src/shmem/setup.c', 'return (requested <= *provided) ? SHMEM_SUCCESS : SHMEM_OTHER_ERR;', 'int p = *provided;\n    if (p < requested)\n        return SHMEM_OTHER_ERR;\n    return SHMEM_SUCCESS;'))

# ---- C20
DR = 'if (OSHMPI_ENABLE_DIRECT_AMO_RUNTIME)\n        ctx_'
bad('C20', 'path-cswap-always', (AMO, DR + 'cswap', 'if (1)\n        ctx_cswap'))
bad('C20', 'path-fetch-nomode', (AMO, DR + 'fetch', 'if (OSHMPI_global.amo_direct)\n        ctx_fetch'))
bad('C20', 'path-fetch-noop', (AMO, DR + 'fetch', 'if (OSHMPI_ENABLE_DIRECT_AMO_RUNTIME || op == MPI_NO_OP)\n        ctx_fetch'))
bad('C20', 'path-post-size', (AMO, DR + 'set', 'if (OSHMPI_ENABLE_DIRECT_AMO_RUNTIME || bytes == 8)\n        ctx_set'))
bad('C20', 'path-self', (AMO, DR + 'set', 'if (OSHMPI_ENABLE_DIRECT_AMO_RUNTIME || pe == OSHMPI_global.team_world_my_pe)\n        ctx_set'))
bad('C20', 'path-ctx', (AMO, DR + 'cswap', 'if (OSHMPI_ENABLE_DIRECT_AMO_RUNTIME || ctx != SHMEM_CTX_DEFAULT)\n        ctx_cswap'))
bad('C20', 'path-mode', (IMPL, '(OSHMPI_env.amo_dbg_mode == OSHMPI_DBG_AUTO &&  \\\n', '(OSHMPI_env.amo_dbg_mode != OSHMPI_DBG_DIRECT &&  \\\n'))
bad('C20', 'path-mode-rma', (IMPL, '(OSHMPI_env.amo_dbg_mode == OSHMPI_DBG_DIRECT ||   \\', '(OSHMPI_env.rma_dbg_mode == OSHMPI_DBG_DIRECT ||   \\'))
bad('C20', 'decl-two', (SETUP, 'nops == 2 && (OSHMPI_env.amo_ops & (1 << OSHMPI_AMO_FETCH))', 'nops == 2'))
bad('C20', 'decl-two-cswap', (SETUP, 'nops == 2 && (OSHMPI_env.amo_ops & (1 << OSHMPI_AMO_FETCH))', 'nops <= 3 && (OSHMPI_env.amo_ops & (1 << OSHMPI_AMO_FETCH))'))
bad('C20', 'decl-band-nocount', (SETUP, '"%sband", (c > 0) ? "," : "");\n        nops++;', '"%sband", (c > 0) ? "," : "");'))
bad('C20', 'decl-xor-bit', (SETUP, '    if ((OSHMPI_env.amo_ops & (1 << OSHMPI_AMO_FXOR)) ||\n        (OSHMPI_env.amo_ops & (1 << OSHMPI_AMO_XOR))) {', '    if ((OSHMPI_env.amo_ops & (1 << OSHMPI_AMO_FXOR))) {'))
bad('C20', 'decl-sum-bit', (SETUP, '(OSHMPI_env.amo_ops) ||', '(0) ||'))
bad('C20', 'decl-swap', (SETUP, '    if ((OSHMPI_env.amo_ops & (1 << OSHMPI_AMO_SET)) ||\n', '    if ((OSHMPI_env.amo_ops & (1 << OSHMPI_AMO_SET)) &&\n'))
bad('C20', 'decl-default', (SETUP, '    } else      /* MPI default */\n        OSHMPI_CALLMPI(MPI_Info_set(info, "accumulate_ops", "same_op_no_op"));', '    } else      /* MPI default */\n        OSHMPI_CALLMPI(MPI_Info_set(info, "accumulate_ops", "same_op"));'))
bad('C20', 'decl-same', (SETUP, '"accumulate_ops", "same_op_no_op"));\n        OSHMPI_global.amo_direct = 1;', '"accumulate_ops", "same_op"));\n        OSHMPI_global.amo_direct = 1;'))
bad('C20', 'decl-word', (SETUP, '"accumulate_ops", "same_op"', '"accumulate_ops", "sameop"'))
bad('C20', 'decl-merge', (SETUP, '    if ((OSHMPI_env.amo_ops & (1 << OSHMPI_AMO_FOR)) || (OSHMPI_env.amo_ops & (1 << OSHMPI_AMO_OR))) {\n        c += snprintf(which_accumulate_ops + c, maxlen - c, "%sbor", (c > 0) ? "," : "");\n        nops++;',
    '    if ((OSHMPI_env.amo_ops & (1 << OSHMPI_AMO_FOR)) || (OSHMPI_env.amo_ops & (1 << OSHMPI_AMO_OR))) {\n        c += snprintf(which_accumulate_ops + c, maxlen - c, "%sbor", (c > 0) ? "," : "");\n        nops |= 1;'))
bad('C20', 'fixed-mode', ('src/shmem/setup.c', '    OSHMPI_finalize();', '    OSHMPI_finalize();'), ('src/internal/space_impl.c', '    OSHMPI_set_mpi_info_args(info);', '    OSHMPI_env.amo_dbg_mode = OSHMPI_DBG_AUTO;\n    OSHMPI_set_mpi_info_args(info);'))
bad('C20', 'fixed-decision', ('src/internal/space_impl.c', '    OSHMPI_set_mpi_info_args(info);', '    OSHMPI_set_mpi_info_args(info);\n    OSHMPI_global.amo_direct = 0;'))
bad('C20', 'engine-or', (AMC, 'void OSHMPI_am_initialize(void)\n{\n    /* AM is not used if direct AMO is enabled and direct RMA is set at configure. */\n    if (OSHMPI_ENABLE_DIRECT_AMO_RUNTIME && OSHMPI_ENABLE_DIRECT_RMA_CONFIG)',
    'void OSHMPI_am_initialize(void)\n{\n    /* AM is not used if direct AMO is enabled and direct RMA is set at configure. */\n    if (OSHMPI_ENABLE_DIRECT_AMO_RUNTIME || OSHMPI_ENABLE_DIRECT_RMA_CONFIG)'))
ok('C20', 'path-local', (AMO, DR + 'cswap', 'const int direct = OSHMPI_ENABLE_DIRECT_AMO_RUNTIME ? 1 : 0;\n    if (direct)\n        ctx_cswap'))
ok('C20', 'path-switch', (AMO, DR + 'set', 'int direct;\n    switch (OSHMPI_env.amo_dbg_mode) {\n        case OSHMPI_DBG_DIRECT: direct = 1; break;\n        case OSHMPI_DBG_AM: direct = 0; break;\n        default: direct = OSHMPI_global.amo_direct;\n    }\n    if (direct)\n        ctx_set'))
ok('C20', 'path-not', (AMO, '''    if (OSHMPI_ENABLE_DIRECT_AMO_RUNTIME)
        ctx_fetch_op_impl(ictx, mpi_type, value_ptr, oldval_ptr, dest, op, pe, sobj_attr);
    else
        OSHMPI_amo_am_fetch(ictx, mpi_type, mpi_type_idx, bytes, op, op_idx, dest,
                            value_ptr, pe, oldval_ptr, sobj_attr);''', '''    if (!OSHMPI_ENABLE_DIRECT_AMO_RUNTIME) {
        OSHMPI_amo_am_fetch(ictx, mpi_type, mpi_type_idx, bytes, op, op_idx, dest,
                            value_ptr, pe, oldval_ptr, sobj_attr);
        return;
    }
    ctx_fetch_op_impl(ictx, mpi_type, value_ptr, oldval_ptr, dest, op, pe, sobj_attr);'''))
ok('C20', 'decl-bool', (SETUP, 'unsigned int nops;', 'unsigned int nops, direct = 0;'), (SETUP, '"accumulate_ops", "same_op"));\n        OSHMPI_global.amo_direct = 1;', '"accumulate_ops", "same_op"));\n        direct = 1;'),
   (SETUP, '"accumulate_ops", "same_op_no_op"));\n        OSHMPI_global.amo_direct = 1;', '"accumulate_ops", "same_op_no_op"));\n        direct = 1;'), (SETUP, '    /* disable_shm_accumulate.', '    if (direct)\n        OSHMPI_global.amo_direct = 1;\n    /* disable_shm_accumulate.'))
ok('C20', 'decl-val', (SETUP, '''    if (nops == 1) {
        OSHMPI_CALLMPI(MPI_Info_set(info, "accumulate_ops", "same_op"));
        OSHMPI_global.amo_direct = 1;
    } else if (nops == 2 && (OSHMPI_env.amo_ops & (1 << OSHMPI_AMO_FETCH))) {
        OSHMPI_CALLMPI(MPI_Info_set(info, "accumulate_ops", "same_op_no_op"));
        OSHMPI_global.amo_direct = 1;
    } else      /* MPI default */
        OSHMPI_CALLMPI(MPI_Info_set(info, "accumulate_ops", "same_op_no_op"));
''', '''    const char *v = "same_op_no_op";
    if (nops == 1)
        v = "same_op";
    if (nops == 1 || (nops == 2 && (OSHMPI_env.amo_ops & (1 << OSHMPI_AMO_FETCH))))
        OSHMPI_global.amo_direct = 1;
    OSHMPI_CALLMPI(MPI_Info_set(info, "accumulate_ops", v));
'''))
ok('C20', 'decl-mask', (SETUP, '    if ((OSHMPI_env.amo_ops & (1 << OSHMPI_AMO_FXOR)) ||\n        (OSHMPI_env.amo_ops & (1 << OSHMPI_AMO_XOR))) {', '    if (OSHMPI_env.amo_ops & ((1 << OSHMPI_AMO_FXOR) | (1 << OSHMPI_AMO_XOR))) {'))
ok('C20', 'sum-fixed', (SETUP, '(OSHMPI_env.amo_ops) ||', '(OSHMPI_env.amo_ops & (1 << OSHMPI_AMO_INC)) ||'))

# ---- C15
TEAM, COLLC, STRC, STRH, CAS, SPC, AMI = 'src/internal/team_impl.c', 'src/internal/coll_impl.c', 'src/internal/strided_impl.c', 'src/internal/strided_impl.h', 'src/internal/coll_activeset_impl.h', 'src/internal/space_impl.c', 'src/internal/am_impl.h'
FREEI = '    OSHMPI_CALLMPI(MPI_Info_free(&info));\n'
bad('C15', 'info-kept', (SPC, FREEI, ''))
bad('C15', 'info-kept2', (SETUP, FREEI, ''), nth=1)
bad('C15', 'vtype', (STRH, '    if (required_ext_nelems > 0)\n        OSHMPI_CALLMPI(MPI_Type_free(&vtype));\n', ''))
bad('C15', 'vtype-gt1', (STRH, '    if (required_ext_nelems > 0)\n        OSHMPI_CALLMPI(MPI_Type_free(&vtype));\n', '    if (required_ext_nelems > 1)\n        OSHMPI_CALLMPI(MPI_Type_free(&vtype));\n'))
bad('C15', 'vtype-always', (STRH, '    if (required_ext_nelems > 0)\n        OSHMPI_CALLMPI(MPI_Type_free(&vtype));\n', '    OSHMPI_CALLMPI(MPI_Type_free(&vtype));\n'))
bad('C15', 'team-group', (TEAM, '    OSHMPI_CALLMPI(MPI_Group_free(&((*team)->group)));\n', ''))
bad('C15', 'team-comm', (TEAM, '    OSHMPI_CALLMPI(MPI_Comm_free(&((*team)->comm)));\n', ''))
bad('C15', 'team-comm-some', (TEAM, '    OSHMPI_CALLMPI(MPI_Comm_free(&((*team)->comm)));\n', '    if ((*team)->n_pes > 1)\n        OSHMPI_CALLMPI(MPI_Comm_free(&((*team)->comm)));\n'))
bad('C15', 'team-mem', (TEAM, '    OSHMPIU_free(*team);\n', ''))
bad('C15', 'team-split-single', (TEAM, '    if (new_comm != MPI_COMM_NULL) {', '    int new_size = 2;\n    if (new_comm != MPI_COMM_NULL)\n        MPI_Comm_size(new_comm, &new_size);\n    if (new_comm != MPI_COMM_NULL && new_size > 0) {'))
bad('C15', 'cache-comm', (COLLC, '        OSHMPI_CALLMPI(MPI_Comm_free(&cobj->comm));\n', ''))
bad('C15', 'cache-group', (COLLC, '        OSHMPI_CALLMPI(MPI_Group_free(&cobj->group));\n', ''))
bad('C15', 'cache-obj', (COLLC, '        OSHMPIU_free(cobj);\n', ''))
bad('C15', 'cache-type', (STRC, '        OSHMPI_CALLMPI(MPI_Type_free(&dobj->sdtype));\n', ''))
bad('C15', 'cache-skip', (STRH, '    strided_set_dtype_cache(nelems, stride, mpi_type, required_ext_nelems, *strided_type);', '    if (nelems < 4096)\n        strided_set_dtype_cache(nelems, stride, mpi_type, required_ext_nelems, *strided_type);'))
bad('C15', 'cache-limit', (STRH, '    dobj = OSHMPIU_malloc(sizeof(OSHMPI_dtype_cache_obj_t));', '    if (OSHMPI_strided_dtype_cache.nobjs > 64)\n        return;\n    dobj = OSHMPIU_malloc(sizeof(OSHMPI_dtype_cache_obj_t));'))
bad('C15', 'pe-list', (CAS, '    OSHMPIU_free(pe_list);\n', ''))
bad('C15', 'counts-self', ('src/internal/coll_impl.h', '    OSHMPIU_free(rcounts);\n', ''))
bad('C15', 'counts-zero', ('src/internal/coll_impl.h', '    OSHMPIU_free(rdispls);\n    OSHMPIU_free(rcounts);\n', '    if (rdispls[0] != 0)\n        return;\n    OSHMPIU_free(rdispls);\n    OSHMPIU_free(rcounts);\n'))
bad('C15', 'flush-reqs', (AMI, '    OSHMPIU_free(reqs);\n', ''))
bad('C15', 'am-ack', (AMC, '    OSHMPI_CALLMPI(MPI_Comm_free(&OSHMPI_am.ack_comm));\n', ''))
bad('C15', 'am-flags', (AMC, '    OSHMPIU_free(OSHMPI_am.outstanding_op_flags);\n', ''))
bad('C15', 'am-ops', (AMC, '    OSHMPIU_free(OSHMPI_am.ops_table);\n', ''))
bad('C15', 'am-twice', (AMC, '    OSHMPIU_free(OSHMPI_am.ops_table);\n', '    OSHMPIU_free(OSHMPI_am.datatypes_table);\n'))
bad('C15', 'am-end-late', (AMC, '    am_cb_progress_end();\n    OSHMPI_THREAD_DESTROY_CS', '    OSHMPI_THREAD_DESTROY_CS'), (AMC, '    OSHMPIU_free(OSHMPI_am.ops_table);\n', '    OSHMPIU_free(OSHMPI_am.ops_table);\n    am_cb_progress_end();\n'))
bad('C15', 'fin-shared', (SETUP, '    OSHMPI_team_destroy(&OSHMPI_global.team_shared);\n', ''))
bad('C15', 'fin-shared-world', (SETUP, '    OSHMPI_team_destroy(&OSHMPI_global.team_shared);\n', '    if (OSHMPI_global.team_shared_n_pes != OSHMPI_global.team_world_n_pes)\n        OSHMPI_team_destroy(&OSHMPI_global.team_shared);\n'))
bad('C15', 'fin-win', (SETUP, '        OSHMPI_CALLMPI(MPI_Win_free(&OSHMPI_global.symm_data_ictx.win));\n', ''))
bad('C15', 'fin-win-other', (SETUP, '        OSHMPI_CALLMPI(MPI_Win_free(&OSHMPI_global.symm_data_ictx.win));\n', '        OSHMPI_CALLMPI(MPI_Win_free(&OSHMPI_global.symm_heap_ictx.win));\n'))
bad('C15', 'fin-unlock', (SETUP, '        OSHMPI_CALLMPI(MPI_Win_unlock_all(OSHMPI_global.symm_heap_ictx.win));\n', ''))
bad('C15', 'fin-barrier', (SETUP, '    OSHMPI_barrier_all();\n\n    OSHMPI_coll_finalize();', '    OSHMPI_coll_finalize();'))
bad('C15', 'fin-barrier-late', (SETUP, '    OSHMPI_barrier_all();\n\n    OSHMPI_coll_finalize();\n    OSHMPI_am_finalize();', '    OSHMPI_coll_finalize();\n    OSHMPI_am_finalize();\n    OSHMPI_barrier_all();\n'))
bad('C15', 'fin-flag', (SETUP, '    OSHMPI_global.is_initialized = 0;\n', ''))
bad('C15', 'fin-guard', (SETUP, '    if (OSHMPI_global.is_initialized)\n        finalize_impl();\n\n    OSHMPI_DBGMSG', '    finalize_impl();\n\n    OSHMPI_DBGMSG'))
bad('C15', 'fin-imp-guard', (SETUP, 'if (OSHMPI_global.is_start_pes_initialized && OSHMPI_global.is_initialized)', 'if (OSHMPI_global.is_start_pes_initialized)'))
bad('C15', 'fin-twice', (SETUP, '    OSHMPI_CALLMPI(MPI_T_finalize());\n    OSHMPI_CALLMPI(MPI_Finalize());', '    OSHMPI_CALLMPI(MPI_Finalize());\n    OSHMPI_CALLMPI(MPI_T_finalize());\n    OSHMPI_CALLMPI(MPI_Barrier(MPI_COMM_WORLD));'))
bad('C15', 'fin-none', (SETUP, '    OSHMPI_CALLMPI(MPI_Finalize());\n', ''))
bad('C15', 'init-flag', (SETUP, '    OSHMPI_global.is_initialized = 1;\n', ''))
bad('C15', 'init-guard', (SETUP, '    if (OSHMPI_global.is_initialized)\n        goto fn_exit;\n', ''))
bad('C15', 'init-barrier', (SETUP, '    OSHMPI_am_progress_mpi_barrier(OSHMPI_global.team_world_comm);\n    OSHMPI_global.is_init', '    OSHMPI_global.is_init'))
bad('C15', 'init-barrier-early', (SETUP, '    OSHMPI_am_progress_mpi_barrier(OSHMPI_global.team_world_comm);\n    OSHMPI_global.is_init', '    OSHMPI_global.is_init'), (SETUP, '    initialize_symm_text();\n', '    OSHMPI_am_progress_mpi_barrier(OSHMPI_global.team_world_comm);\n    initialize_symm_text();\n'))
bad('C15', 'init-barrier-shared', (SETUP, '    OSHMPI_am_progress_mpi_barrier(OSHMPI_global.team_world_comm);\n    OSHMPI_global.is_init', '    OSHMPI_am_progress_mpi_barrier(OSHMPI_global.team_shared_comm);\n    OSHMPI_global.is_init'))
bad('C15', 'init-lock', (SETUP, '    OSHMPI_CALLMPI(MPI_Win_lock_all(MPI_MODE_NOCHECK, OSHMPI_global.symm_heap_ictx.win));\n', ''))
bad('C15', 'space-lock', (SPC, '    OSHMPI_CALLMPI(MPI_Win_lock_all(MPI_MODE_NOCHECK, ictx->win));\n', ''))
bad('C15', 'space-unlock', (SPC, '    OSHMPI_CALLMPI(MPI_Win_unlock_all(ictx->win));\n', ''))
bad('C15', 'space-obj', (SPC, '    OSHMPIU_free(space);\n', ''))
bad('C15', 'space-ctxlist', (SPC, '    OSHMPIU_free(ctx_list);\n', ''))
bad('C15', 'mempool-used', ('src/internal/util/mem_pool.c', '    OSHMPIU_free(mem_pool->chunks_nused);\n', ''))
bad('C15', 'exit-status', (SETUP, 'MPI_Abort(OSHMPI_global.team_world_comm, status)', 'MPI_Abort(OSHMPI_global.team_world_comm, status & 0xff)'))
bad('C15', 'exit-comm', (SETUP, 'MPI_Abort(OSHMPI_global.team_world_comm, status)', 'MPI_Abort(OSHMPI_global.team_shared_comm, status)'))
bad('C15', 'exit-zero', (SETUP, '    MPI_Abort(OSHMPI_global.team_world_comm, status)', '    if (status)\n        MPI_Abort(OSHMPI_global.team_world_comm, status)'))
bad('C15', 'atexit', ('src/shmem/setup.c', 'atexit(', '(void)('))
ok('C15', 'fin-order', (SETUP, '    OSHMPI_coll_finalize();\n    OSHMPI_am_finalize();\n    OSHMPI_strided_finalize();', '    OSHMPI_strided_finalize();\n    OSHMPI_am_finalize();\n    OSHMPI_coll_finalize();'))
ok('C15', 'fin-teams', (SETUP, '    OSHMPI_team_destroy(&OSHMPI_global.team_shared);\n    OSHMPI_team_destroy(&OSHMPI_global.team_world);', '    OSHMPI_team_t **ts[2] = { &OSHMPI_global.team_shared, &OSHMPI_global.team_world };\n    OSHMPI_team_destroy(ts[0]);\n    OSHMPI_team_destroy(ts[1]);'))
ok('C15', 'fin-early', (SETUP, '    if (OSHMPI_global.is_initialized)\n        finalize_impl();\n\n    OSHMPI_DBGMSG', '    if (!OSHMPI_global.is_initialized)\n        return;\n    finalize_impl();\n\n    OSHMPI_DBGMSG'))
ok('C15', 'fin-flaglate', (SETUP, '    OSHMPI_global.is_initialized = 0;\n', ''), (SETUP, '    OSHMPI_CALLMPI(MPI_T_finalize());', '    OSHMPI_global.is_initialized = 0;\n    OSHMPI_CALLMPI(MPI_T_finalize());'))
ok('C15', 'cache-while', (COLLC, '    LL_FOREACH_SAFE(OSHMPI_coll_comm_cache.head, cobj, tmp) {\n        LL_DELETE(OSHMPI_coll_comm_cache.head, cobj);', '    (void) tmp;\n    while (OSHMPI_coll_comm_cache.head != NULL) {\n        cobj = OSHMPI_coll_comm_cache.head;\n        OSHMPI_coll_comm_cache.head = cobj->next;'))
ok('C15', 'cache-helper', (COLLC, 'void OSHMPI_coll_finalize(void)\n{', 'static void release_obj(OSHMPI_comm_cache_obj_t * cobj)\n{\n    OSHMPI_CALLMPI(MPI_Comm_free(&cobj->comm));\n    OSHMPI_CALLMPI(MPI_Group_free(&cobj->group));\n    OSHMPIU_free(cobj);\n}\n\nvoid OSHMPI_coll_finalize(void)\n{'),
   (COLLC, '        OSHMPI_CALLMPI(MPI_Group_free(&cobj->group));\n        OSHMPI_CALLMPI(MPI_Comm_free(&cobj->comm));\n        OSHMPIU_free(cobj);\n        OSHMPI_coll', '        release_obj(cobj);\n        OSHMPI_coll'))
ok('C15', 'team-locals', (TEAM, '    OSHMPI_CALLMPI(MPI_Group_free(&((*team)->group)));\n    OSHMPI_CALLMPI(MPI_Comm_free(&((*team)->comm)));\n    OSHMPIU_free(*team);', '    OSHMPI_team_t *t = *team;\n    MPI_Comm c = t->comm;\n    OSHMPI_CALLMPI(MPI_Group_free(&t->group));\n    OSHMPI_CALLMPI(MPI_Comm_free(&c));\n    OSHMPIU_free(t);'))
ok('C15', 'team-direct', (TEAM, '        rc = OSHMPI_team_create(&_new_team);\n        _new_team->comm = new_comm;\n        _new_team->group = new_group;', '        rc = OSHMPI_team_create(&_new_team);\n        OSHMPI_ASSERT(rc == SHMEM_SUCCESS);\n        _new_team->group = new_group;\n        _new_team->comm = new_comm;'))
ok('C15', 'vtype-else', (STRH, '    OSHMPI_CALLMPI(MPI_Type_commit(strided_type));\n    if (required_ext_nelems > 0)\n        OSHMPI_CALLMPI(MPI_Type_free(&vtype));\n', '    if (required_ext_nelems > 0)\n        OSHMPI_CALLMPI(MPI_Type_free(&vtype));\n    OSHMPI_CALLMPI(MPI_Type_commit(strided_type));\n'))
ok('C15', 'counts-swap', ('src/internal/coll_impl.h', '    OSHMPIU_free(rdispls);\n    OSHMPIU_free(rcounts);\n', '    OSHMPIU_free(rcounts);\n    OSHMPIU_free(rdispls);\n'))
ok('C15', 'init-helper', (SETUP, '    OSHMPI_am_progress_mpi_barrier(OSHMPI_global.team_world_comm);\n    OSHMPI_global.is_initialized = 1;\n', '    meet();\n'), (SETUP, 'void OSHMPI_initialize_thread(int required, int *provided)\n{', 'static void meet(void)\n{\n    OSHMPI_am_progress_mpi_barrier(OSHMPI_global.team_world_comm);\n    OSHMPI_global.is_initialized = 1;\n}\n\nvoid OSHMPI_initialize_thread(int required, int *provided)\n{'))
ok('C15', 'exit-loop', (SETUP, 'MPI_Abort(OSHMPI_global.team_world_comm, status);', 'OSHMPI_CALLMPI(MPI_Abort(OSHMPI_global.team_world_comm, status));'))
