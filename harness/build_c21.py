# The library instrumented by clang's ThreadSanitizer pass; the runtime is the scheduler in c21.cpp.
def configure(conf, g):
    sync = ["pthread_mutex_lock pthread_mutex_unlock pthread_mutex_trylock pthread_once mtx_lock mtx_unlock mtx_trylock call_once "
            "pthread_spin_lock pthread_spin_unlock pthread_spin_trylock pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock sched_yield pthread_yield thrd_yield usleep nanosleep strtok"]
    rename = []
    for s in (".data", ".data.rel", ".data.rel.local", ".bss"):
        rename += ["--rename-section", s + "=libdata"]
    conf["lib"] = dict(cc="clang", cflags=["-g", "-O1", "-w", "-std=gnu99", "-fno-zero-initialized-in-bss", "-fno-common", "-fsanitize=thread"], ld=[], redef=True,
                       objcopy=rename + sum((["--redefine-sym", f"{x}=mt_{x}"] for x in sync[0].split()), []))
