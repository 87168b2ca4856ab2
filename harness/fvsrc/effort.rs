//! Work done by the current thread, in basic blocks executed
//!
//! Only in builds with `--cfg sancov` and the compiler's coverage
//! instrumentation, which calls the function below on every edge taken.

#[cfg(sancov)]
core::arch::global_asm!(
    ".section .tbss.fv_blocks,\"awT\",@nobits",
    ".balign 8",
    "fv_blocks:",
    ".zero 8",
    ".text",
    ".globl __sanitizer_cov_trace_pc_guard",
    ".type __sanitizer_cov_trace_pc_guard,@function",
    "__sanitizer_cov_trace_pc_guard:",
    "mov rax, fs:[0]",
    "inc qword ptr [rax + fv_blocks@tpoff]",
    "ret",
    ".globl __sanitizer_cov_trace_pc_guard_init",
    ".type __sanitizer_cov_trace_pc_guard_init,@function",
    "__sanitizer_cov_trace_pc_guard_init:",
    "ret",
    ".globl fv_blocks_read",
    ".type fv_blocks_read,@function",
    "fv_blocks_read:",
    "mov rax, fs:[0]",
    "mov rax, [rax + fv_blocks@tpoff]",
    "ret",
);

#[cfg(sancov)]
extern "C" {
    fn fv_blocks_read() -> u64;
}

#[cfg(sancov)]
pub fn blocks() -> Option<u64> {
    Some(unsafe { fv_blocks_read() })
}

#[cfg(not(sancov))]
pub fn blocks() -> Option<u64> {
    None
}

/// Work done by a function
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, u64) {
    let (a, b) = (blocks(), crate::alloc::snap().count);
    let r = f();
    let (c, d) = (blocks(), crate::alloc::snap().count);
    (r, (d - b) * 10 + c.zip(a).map(|(c, a)| c - a).unwrap_or(0))
}
