L="rmc_log.c"; H="rmc_log.h"; T="time.c"
MUTS = [
 ("t03-real", "T03", T, "CLOCK_MONOTONIC", "CLOCK_REALTIME", "bug"),
 ("t03-cpu", "T03", T, "CLOCK_MONOTONIC", "CLOCK_PROCESS_CPUTIME_ID", "bug"),
 ("t03-ms", "T03", T, "res.tv_nsec / 1000;", "res.tv_nsec / 1000000;", "bug"),
 ("t03-int", "T03", T, "(usec_timestamp_t) res.tv_sec * 1000000", "(usec_timestamp_t) ((int) res.tv_sec * 1000000)", "bug"),
 ("t03-u32", "T03", T, "(usec_timestamp_t) res.tv_sec * 1000000", "(uint32_t) res.tv_sec * 1000000", "bug"),
 ("t03-tod", "T03", T, "    clock_gettime(CLOCK_MONOTONIC, &res);\n", "    timespec_get(&res, TIME_UTC);\n", "bug"),
 ("t03-raw", "T03", T, "CLOCK_MONOTONIC", "CLOCK_MONOTONIC_RAW", "ok"),
 ("t03-round", "T03", T, "res.tv_nsec / 1000;", "(res.tv_nsec + 500) / 1000;", "ok"),
 ("t03-re", "T03", T, "    return (usec_timestamp_t) res.tv_sec * 1000000 + res.tv_nsec / 1000;", "    usec_timestamp_t us = res.tv_nsec / 1000;\n    us += (usec_timestamp_t) res.tv_sec * 1000000;\n    return us;", "ok"),

 ("g01-errno", "G01", L, "    errno = saved_errno;\n", "", "bug"),
 ("g01-errno2", "G01", L, "    va_list ap;\n    // Callers log a failed call before they return its errno.\n    int saved_errno = errno;\n", "    va_list ap;\n    int saved_errno = 0;\n", "bug"),
 ("g01-buf", "G01", L, "char index_str[32];", "char index_str[26];", "bug"),
 ("g01-buf28", "G01", L, "char index_str[32];", "char index_str[28];", "bug"),
 ("g01-buf29", "G01", L, "char index_str[32];", "char index_str[29];", "ok"),
 ("g01-prec", "G01", L, "\"%s[%.3d]%s\"", "\"%s[%.8d]%s\"", "bug"),
 ("g01-sn", "G01", L, "sprintf(index_str, \"%s[UDP]%s\"", "snprintf(index_str, sizeof(index_str), \"%s[UDP]%s\"", "ok"),
 ("g01-twice", "G01", L, "    vfprintf(_rmc_log_file, fmt, ap);\n", "    vfprintf(_rmc_log_file, fmt, ap);\n    if (log_level == RMC_LOG_LEVEL_FATAL)\n        vfprintf(_rmc_log_file, fmt, ap);\n", "bug"),
 ("g01-stdout", "G01", L, "    fputc('\\n', _rmc_log_file);\n", "    fputc('\\n', stdout);\n", "bug"),
 ("g01-stderr", "G01", L, "    vfprintf(_rmc_log_file, fmt, ap);\n", "    vfprintf(log_level <= RMC_LOG_LEVEL_ERROR?stderr:_rmc_log_file, fmt, ap);\n", "bug"),
 ("g01-lvlmax", "G01", L, "log_level > RMC_LOG_LEVEL_DEBUG", "log_level >= RMC_LOG_LEVEL_DEBUG", "bug"),
 ("g01-lvlneg", "G01", L, "log_level < RMC_LOG_LEVEL_NONE || ", "", "bug"),
 ("g01-lvlset", "G01", L, "    if (log_level < RMC_LOG_LEVEL_NONE", "    _rmc_log_level = log_level;\n    if (log_level < RMC_LOG_LEVEL_NONE", "bug"),
 ("g01-filter", "G01", H, "#define RMC_LOG_INFO(fmt, ...) { if (_rmc_log_level >= RMC_LOG_LEVEL_INFO)", "#define RMC_LOG_INFO(fmt, ...) { if (_rmc_log_level > RMC_LOG_LEVEL_INFO)", "bug"),
 ("g01-filter2", "G01", H, "#define RMC_LOG_INDEX_COMMENT(index, fmt, ...) { if (_rmc_log_level >= RMC_LOG_LEVEL_COMMENT)", "#define RMC_LOG_INDEX_COMMENT(index, fmt, ...) { if (_rmc_log_level >= RMC_LOG_LEVEL_INFO)", "bug"),
 ("g01-else", "G01", H, "#define RMC_LOG_DEBUG(fmt, ...) { if (_rmc_log_level >= RMC_LOG_LEVEL_DEBUG) rmc_log", "#define RMC_LOG_DEBUG(fmt, ...) { if (_rmc_log_level < RMC_LOG_LEVEL_DEBUG) ; else rmc_log", "ok"),
]
