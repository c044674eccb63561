//! Stands in for the allocator crate: every operation is handed to the explorer, which answers it.
#![no_std]
extern crate alloc;
use alloc::boxed::Box;

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Error {
    InvalidState,
    OutOfMemory,
    TooManyHandles,
    InvalidArgument,
    FailedToOpenAnonymousMemory,
    TooLarge,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum ProtectJitAccess {
    ReadWrite = 0,
    ReadExecute = 1,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum ResetPolicy {
    Soft = 0,
    Hard = 1,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct JitAllocatorOptions {
    pub use_dual_mapping: bool,
    pub use_multiple_pools: bool,
    pub fill_unused_memory: bool,
    pub immediate_release: bool,
    pub custom_fill_pattern: Option<u32>,
    pub block_size: u32,
    pub granularity: u32,
}

impl Default for JitAllocatorOptions {
    fn default() -> Self {
        Self {
            use_dual_mapping: true,
            use_multiple_pools: true,
            fill_unused_memory: true,
            immediate_release: false,
            custom_fill_pattern: None,
            block_size: 0,
            granularity: 0,
        }
    }
}

extern "C" {
    fn mc_new() -> usize;
    fn mc_drop(id: usize);
    fn mc_alloc(id: usize, size: usize, rx: &mut *const u8, rw: &mut *mut u8) -> i32;
    fn mc_release(id: usize, rx: *const u8) -> i32;
    fn mc_protect(executable: i32);
    fn mc_flush(rx: *const u8, size: usize);
}

fn error(code: i32) -> Error {
    match code {
        1 => Error::OutOfMemory,
        2 => Error::InvalidArgument,
        3 => Error::TooLarge,
        4 => Error::TooManyHandles,
        5 => Error::FailedToOpenAnonymousMemory,
        _ => Error::InvalidState,
    }
}

pub struct JitAllocator {
    id: usize,
    _not_sync: *const u8,
}

unsafe impl Send for JitAllocator {}

impl JitAllocator {
    pub fn new(_: JitAllocatorOptions) -> Box<Self> {
        Box::new(Self { id: unsafe { mc_new() }, _not_sync: core::ptr::null() })
    }

    pub fn alloc(&mut self, size: usize) -> Result<(*const u8, *mut u8), Error> {
        let (mut rx, mut rw) = (core::ptr::null(), core::ptr::null_mut());
        match unsafe { mc_alloc(self.id, size, &mut rx, &mut rw) } {
            0 => Ok((rx, rw)),
            e => Err(error(e)),
        }
    }

    /// # Safety
    /// As the real one.
    pub unsafe fn release(&mut self, rx_ptr: *const u8) -> Result<(), Error> {
        match mc_release(self.id, rx_ptr) {
            0 => Ok(()),
            e => Err(error(e)),
        }
    }
}

impl Drop for JitAllocator {
    fn drop(&mut self) {
        unsafe { mc_drop(self.id) }
    }
}

pub fn protect_jit_memory(access: ProtectJitAccess) {
    unsafe { mc_protect((access == ProtectJitAccess::ReadExecute) as i32) }
}

pub fn flush_instruction_cache(p: *const u8, size: usize) {
    unsafe { mc_flush(p, size) }
}
