/* CBMC-only environment: the compiler's abort routine is an obligation. */
void cxyAbort(const char *fmt, ...)
{
    __CPROVER_assert(0, "ENSURES internal assertion holds (cxyAbort not reached)");
    __CPROVER_assume(0);
}
