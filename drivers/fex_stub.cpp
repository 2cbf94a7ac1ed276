// The archive library is not exercised by this driver.
#define STUB(n) extern "C" __attribute__((weak)) const void* n(...) { return 0; }
STUB(fex_close) STUB(fex_data) STUB(fex_done) STUB(fex_err_str) STUB(fex_name) STUB(fex_next) STUB(fex_open) STUB(fex_size)
