// builtin dispatch table (included inside struct Exec)
enum B : int { B_none = -1, B_intrinsic = 0, B_malloc = 1, B_free, B_calloc, B_realloc, B_memcpy, B_memset, B_memcmp, B_strlen, B_throw, B_allocexc, B_freeexc, B_begincatch, B_endcatch, B_rethrow, B_abort, B_exit, B_ignore, B_sxint, B_sxreal, B_assume, B_assert, B_reach, B_choose, B_math1, B_math2, B_purevirt, B_thr_create, B_thr_join, B_mtx_lock, B_mtx_trylock, B_mtx_unlock, B_cond_wait, B_cond_signal, B_cond_broadcast, B_feq, B_note, B_issym, B_new, B_throwbad, B_self, B_yield, B_excptr, B_cond_timedwait, B_concval, B_fnear, B_getexc, B_posix_memalign, B_model, B_ret0, B_rbytes, B_dyncast, B_snprintf, B_real_eq, B_live, B_rround, B_isolve };
std::unordered_map<std::string, int> bmap;
void initB() {
    if (!bmap.empty()) return;
    auto add = [&](int b, std::initializer_list<const char *> l) { for (auto s : l) bmap[s] = b; };
    add(B_malloc, {"malloc"}); add(B_new, {"_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t"});
    add(B_free, {"free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvRKSt9nothrow_t", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t"});
    add(B_calloc, {"calloc"}); add(B_realloc, {"realloc"}); add(B_posix_memalign, {"posix_memalign"});
    add(B_memcpy, {"memcpy", "memmove", "__memcpy_chk", "__memmove_chk"}); add(B_memset, {"memset", "__memset_chk"}); add(B_memcmp, {"memcmp", "bcmp"}); add(B_strlen, {"strlen"});
    add(B_throw, {"__cxa_throw"}); add(B_allocexc, {"__cxa_allocate_exception"}); add(B_freeexc, {"__cxa_free_exception"}); add(B_begincatch, {"__cxa_begin_catch"}); add(B_endcatch, {"__cxa_end_catch"}); add(B_rethrow, {"__cxa_rethrow"});
    add(B_getexc, {"__cxa_get_exception_ptr"});
    add(B_abort, {"abort", "_ZSt9terminatev", "__cxa_bad_cast", "__assert_fail", "__cxa_throw_bad_array_new_length"}); add(B_purevirt, {"__cxa_pure_virtual", "__cxa_deleted_virtual"}); add(B_exit, {"exit", "_exit"});
    add(B_ignore, {"__cxa_atexit", "atexit", "fflush", "usleep", "sched_yield", "pthread_detach", "__cxa_thread_atexit", "madvise"});
    add(B_sxint, {"sx_int"}); add(B_sxreal, {"sx_real_"}); add(B_assume, {"sx_assume"}); add(B_assert, {"sx_assert_"}); add(B_reach, {"sx_reach"}); add(B_choose, {"sx_choose"}); add(B_feq, {"sx_feq_"}); add(B_fnear, {"sx_fnear_"}); add(B_note, {"sx_note"}); add(B_issym, {"sx_is_symbolic"}); add(B_concval, {"sx_concretize"}); add(B_live, {"sx_live_heap"}); add(B_rround, {"sx_round_"});
    add(B_model, {"sx_native"});
    add(B_math1, {"sqrt", "sqrtf", "exp", "expf", "log", "logf", "log2", "log2f", "log10", "log10f", "tanh", "tanhf", "sin", "sinf", "cos", "cosf", "tan", "tanf", "erf", "erff", "fabs", "fabsf", "floor", "floorf", "ceil", "ceilf", "round", "roundf", "trunc", "truncf", "rint", "rintf", "nearbyint", "nearbyintf", "log1p", "log1pf", "cbrt", "cbrtf", "exp2", "exp2f", "expm1", "expm1f", "atan", "atanf", "asin", "acos", "sinh", "cosh"});
    add(B_math2, {"pow", "powf", "fmod", "fmodf", "fmax", "fmaxf", "fmin", "fminf", "atan2", "atan2f", "copysign", "copysignf", "hypot", "hypotf"});
    add(B_thr_create, {"pthread_create"}); add(B_thr_join, {"pthread_join"}); add(B_mtx_lock, {"pthread_mutex_lock"}); add(B_mtx_trylock, {"pthread_mutex_trylock"}); add(B_mtx_unlock, {"pthread_mutex_unlock"}); add(B_cond_wait, {"pthread_cond_wait"}); add(B_cond_signal, {"pthread_cond_signal"}); add(B_cond_broadcast, {"pthread_cond_broadcast"}); add(B_self, {"pthread_self"}); add(B_yield, {"sx_yield"});
    add(B_ret0, {"pthread_mutex_init", "pthread_mutex_destroy", "pthread_cond_init", "pthread_cond_destroy", "pthread_mutexattr_init", "pthread_mutexattr_settype", "pthread_mutexattr_destroy"});
    add(B_dyncast, {"__dynamic_cast"});
}
int builtinId(Function *&F) {
    initB();
    if (F->isIntrinsic()) return B_intrinsic;
    auto it = bmap.find(F->getName().str()); if (it != bmap.end()) return it->second;
    if (auto O = M->getFunction("sxo_" + F->getName().str())) { if (!O->isDeclaration()) F = O; }
    return B_none;
}
