// Runs a function on a private stack whose contents the monitor controls.
#ifndef STK_H
#define STK_H
#include <string.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <ucontext.h>
#define STK_SIZE (8u << 20)
static uint8_t *STK; static ucontext_t stk_main, stk_ctx; static void (*stk_fn)(void);
static void stk_tramp(void) { stk_fn(); }
static inline void stk_init(void)
{
    STK = mmap(NULL, STK_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (STK == MAP_FAILED) exit(3);
}
static inline void stk_run(void (*f)(void))
{
    stk_fn = f;
    getcontext(&stk_ctx);
    stk_ctx.uc_stack.ss_sp = STK; stk_ctx.uc_stack.ss_size = STK_SIZE; stk_ctx.uc_link = &stk_main;
    makecontext(&stk_ctx, stk_tramp, 0);
    swapcontext(&stk_main, &stk_ctx);
}
#endif
