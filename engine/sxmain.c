extern int sx_main(int, char **);
extern void *__start_sx_fns[] __attribute__((weak));
extern void *__stop_sx_fns[] __attribute__((weak));
void **__sx_fns_begin = __start_sx_fns, **__sx_fns_end = __stop_sx_fns;
int main(int argc, char **argv) { return sx_main(argc, argv); }
